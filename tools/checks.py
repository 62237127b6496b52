"""What each check runs: harness, defines per tier, bounds."""
import ucdref

CHECKS = {}
NOT_APPLICABLE = {}
ORACLE = {}


def prop(pid, assumptions=(), **runs):
    CHECKS[pid] = dict(runs=runs, assumptions=list(assumptions))


def H(harness, quick, thorough=None, bounds="", **kw):
    def words(d):
        return d.split() if isinstance(d, str) else d
    return dict(harness=harness, quick=words(quick), thorough=words(thorough or quick), bounds=bounds, **kw)


CMP = "the comparator is a total order on the keys; allocation does not fail"
prop("C01", [CMP],
     huge=H("huge.c", "AVL NWIN=3 NORDERS=1", "AVL NWIN=6 NORDERS=2", "more than 65536 elements in two arrangements, then operations with a key near the ends, the middle or 65536", max_inst=2000000000),
     sparse=H("avl_map.c", "SPARSE MINH=6 MAXH=7 MAXNODES=60 SYMKEYS=0", "SPARSE MINH=6 MAXH=8 MAXNODES=60 SYMKEYS=0", "four sparsest trees of each height MINH to MAXH (20, 33, 54 nodes), one operation with a symbolic key, drained"),
     hist=H("avl_map.c", "HIST=4", "HIST=5", "histories of HIST operations from the empty tree; operation, key (8 bits of order) and comparator answers symbolic"),
     shape=H("avl_map.c", "MINH=0 MAXH=4 MAXNODES=7 SYMKEYS=1", "MINH=0 MAXH=4 MAXNODES=9 SYMKEYS=1", "every AVL shape of up to MAXNODES nodes with symbolic ordered keys, one symbolic operation, then drained"),
     big=H("avl_map.c", "MINH=4 MAXH=5 MAXNODES=12 SYMKEYS=0", "MINH=4 MAXH=5 MAXNODES=14 SYMKEYS=0", "every AVL shape of up to MAXNODES nodes, one operation with a symbolic key, then drained"),
     two=H("avl_map.c", "MINH=0 MAXH=3 MAXNODES=5 SYMKEYS=1 SECOND", "MINH=0 MAXH=3 MAXNODES=7 SYMKEYS=0 SECOND", "as shape, with two symbolic operations"))
prop("C02", [CMP],
     huge=H("huge.c", "AVL ONLYOP=0 NWIN=3 NORDERS=1", "AVL ONLYOP=0 NWIN=6 NORDERS=2", "66000 elements in one (thorough: two) arrangements; a lookup and a traversal with a key near the ends, the middle or 65536", max_inst=2000000000),
     sparse=H("avl_nav.c", "SPARSE MINH=6 MAXH=7 MAXNODES=60 SYMKEYS=0 OPS=6 PROBE", "SPARSE MINH=6 MAXH=8 MAXNODES=60 SYMKEYS=0 OPS=6 PROBE", "four sparsest trees of each height MINH to MAXH, one operation with a symbolic key, traversed, symbolic probe"),
     hist=H("avl_nav.c", "HIST=4 PROBE", "HIST=5 PROBE", "histories of HIST operations, traversed after each, then a symbolic probe"),
     shape=H("avl_nav.c", "MINH=0 MAXH=4 MAXNODES=7 SYMKEYS=1 OPS=6 PROBE", "MINH=0 MAXH=4 MAXNODES=10 SYMKEYS=0 OPS=6 PROBE", "every AVL shape of up to MAXNODES nodes, one symbolic operation, symbolic probe key"),
     big=H("avl_nav.c", "MINH=4 MAXH=5 MAXNODES=12 SYMKEYS=0 OPS=6", "MINH=4 MAXH=5 MAXNODES=15 SYMKEYS=0 OPS=6", "every AVL shape of up to MAXNODES nodes, one operation with symbolic key, traversed"),
     probe=H("avl_nav.c", "MINH=4 MAXH=5 MAXNODES=13 SYMKEYS=0 PROBE", "MINH=4 MAXH=6 MAXNODES=20 SYMKEYS=0 PROBE", "every AVL shape of up to MAXNODES nodes, symbolic probe key"))
prop("C03", [CMP],
     huge=H("huge.c", "AVL ONLYOP=4 NWIN=1 NORDERS=2", None, "66000 elements put in two orders, then drained from both ends", max_inst=2000000000),
     sparse=H("avl_balance.c", "SPARSE MINH=6 MAXH=7 MAXNODES=60 SYMKEYS=0 OPS=1 LIMIT=40", "SPARSE MINH=6 MAXH=8 MAXNODES=60 SYMKEYS=0 OPS=1 LIMIT=70", "four sparsest trees of each height MINH to MAXH, OPS symbolic operations, continuations to the empty tree or LIMIT nodes"),
     one=H("avl_balance.c", "MINH=0 MAXH=5 MAXNODES=13 SYMKEYS=0 OPS=1", "MINH=0 MAXH=5 MAXNODES=16 SYMKEYS=0 OPS=1", "every AVL shape of up to MAXNODES nodes, OPS symbolic operations, then four monotone continuations to the empty tree or 20 nodes"),
     two=H("avl_balance.c", "MINH=0 MAXH=4 MAXNODES=7 SYMKEYS=0 OPS=2", "MINH=0 MAXH=4 MAXNODES=11 SYMKEYS=0 OPS=2", "as one, with two operations"),
     perm=H("avl_balance.c", "PERM=5 OPS=1 SYMKEYS=1", "PERM=6 OPS=1 SYMKEYS=1", "every insertion order of PERM symbolic keys, OPS operations, continuations"))
prop("C04", [CMP],
     huge=H("huge.c", "AVL ONLYOP=3 NWIN=2 NORDERS=1", "AVL ONLYOP=3 NWIN=6 NORDERS=2", "66000 elements in one (thorough: two) arrangements; a copy and a removal with a key near the ends, the middle or 65536", max_inst=2000000000),
     sparse=H("avl_copy.c", "SPARSE MINH=6 MAXH=6 MAXNODES=60 OPS=1", "SPARSE MINH=6 MAXH=7 MAXNODES=60 OPS=1", "as small, the sparsest trees of height MINH to MAXH"),
     small=H("avl_copy.c", "MINH=0 MAXH=4 MAXNODES=7 OPS=1", "MINH=0 MAXH=3 MAXNODES=7 OPS=2", "every AVL shape of up to MAXNODES nodes copied, OPS symbolic operations on either, either destroyed first"),
     two=H("avl_copy.c", "MINH=0 MAXH=3 MAXNODES=4 OPS=2", "MINH=0 MAXH=5 MAXNODES=12 OPS=1", "as small"))
prop("C05", ["allocation does not fail", "element arguments belong to the list"],
     huge=H("huge.c", "LIST NWIN=3", "LIST NWIN=6", "66000 elements, then operations at an index near the ends, the middle or 65536", max_inst=2000000000),
     hist=H("list.c", "HIST=6", "HIST=7", "histories of HIST operations on symbolic 64-bit values, then lookup, indexing or copying with one more operation"))
prop("C06", ["allocation does not fail", "hash and equality are consistent"],
     huge=H("huge.c", "HASH NWIN=3 NCAP=1 HASHMUL=1", "HASH NWIN=6 NCAP=2 HASHMUL=0x9e3779b97f4a7c15", "more than 65536 elements, then operations with a key near the ends, the middle or 65536", max_inst=2000000000),
     hist=H("hash.c", "HIST=4 NOPS=3 NHASH=3 NCAP=2", "HIST=5 NOPS=3 NHASH=3 NCAP=2", "histories of HIST operations on symbolic keys; hashes from a set with collisions and extreme values"),
     symhash=H("hash.c", "HIST=2 NOPS=2 NCAP=1 SYMHASH KEYRANGE=2", "HIST=2 NOPS=3 NCAP=3 SYMHASH KEYRANGE=2", "two operations whose keys have arbitrary 64-bit hashes"),
     caps=H("hash.c", "BIGCAP HIST=2 NOPS=3 NHASH=3 NCAP=2", "BIGCAP HIST=2 NOPS=3 NHASH=5 NCAP=4", "as hist, declared capacities up to 20000 (thorough: 100000)"),
     fill=H("hash.c", "HIST=1 NOPS=3 NHASH=8 NCAP=7 FILL=60", "HIST=2 NOPS=3 NHASH=8 NCAP=7 FILL=64", "60 elements in tables declared smaller, one more symbolic operation"))
prop("C07", ["allocation does not fail", "hash and equality are consistent"],
     huge=H("huge.c", "HASH ONLYOP=2 NWIN=2 NCAP=1 HASHMUL=1", "HASH NWIN=4 NCAP=2 HASHMUL=0x9e3779b97f4a7c15", "66000 elements, one removed, a traversal", max_inst=2000000000),
     hist=H("hash.c", "TRAVERSE HIST=4 NOPS=3 NHASH=5 NCAP=1 KEYRANGE=4", "TRAVERSE HIST=5 NOPS=3 NHASH=5 NCAP=2 KEYRANGE=4", "histories of HIST operations, traversed after each, then drained with pop_any"),
     caps=H("hash.c", "BIGCAP TRAVERSE HIST=2 NOPS=2 NHASH=3 NCAP=2 KEYRANGE=3", "BIGCAP TRAVERSE HIST=2 NOPS=3 NHASH=3 NCAP=4 KEYRANGE=3", "as hist, declared capacities up to 20000 (thorough: 100000)"),
     fill=H("hash.c", "TRAVERSE HIST=1 NOPS=3 NHASH=8 NCAP=7 FILL=60", "TRAVERSE HIST=2 NOPS=3 NHASH=8 NCAP=7 FILL=64", "60 elements, one more operation, traversed and drained"))
prop("C08", ["allocation does not fail", "the comparator is a total preorder"],
     huge=H("huge.c", "PRIORQ NWIN=2 NORDERS=1", "PRIORQ NWIN=6 NORDERS=2", "more than 65536 elements in two arrangements, then operations with a priority near the ends, the middle or 65536", max_inst=2000000000),
     large=H("priorq.c", "LARGE=4 PRE=1 HIST=1 NOPS=4 CTORS=1", "LARGE=7 PRE=1 HIST=1 NOPS=4 CTORS=3", "queues of 7 to 33 (thorough: 128) elements in four arrangements, one more of symbolic priority, one operation, drained"),
     hist=H("priorq.c", "PRE=0 HIST=5 NOPS=4 CTORS=1 SYMCMP", "PRE=0 HIST=6 NOPS=4 CTORS=3 SYMCMP", "histories of HIST operations with symbolic priorities"),
     heap=H("priorq.c", "PRE=5 HIST=1 NOPS=4 CTORS=1", "PRE=6 HIST=1 NOPS=4 CTORS=3", "PRE symbolic priorities enqueued, one operation, drained"),
     removal=H("priorq.c", "LOCATORS PRE=12 HIST=1 NOPS=4 PRIOS=2 REMOVALS", "LOCATORS PRE=14 HIST=1 NOPS=4 PRIOS=2 REMOVALS", "PRE elements with PRIOS priority classes in every arrangement, each removed by locator, drained"),
     removals=H("priorq.c", "LARGE=3 LOCATORS PRE=1 HIST=1 NOPS=4", "LARGE=6 LOCATORS PRE=1 HIST=1 NOPS=4", "as large, with removal by locator"),
     deep=H("priorq.c", "PRE=10 HIST=1 NOPS=4 CTORS=1 PRIOS=2", "PRE=9 HIST=1 NOPS=4 CTORS=2 PRIOS=3", "PRE elements with PRIOS priority classes in every arrangement, one operation, drained"))
prop("C09", ["allocation does not fail", "the comparator is a total preorder"],
     huge=H("huge.c", "PRIORQ NWIN=2 NORDERS=1", "PRIORQ NWIN=6 NORDERS=2", "66000 elements and one of symbolic priority; removal by locator, dequeues", max_inst=2000000000),
     large=H("priorq.c", "LARGE=4 LOCATORS PRE=1 HIST=1 NOPS=4", "LARGE=6 LOCATORS PRE=1 HIST=1 NOPS=4", "queues of 7 to 33 (thorough: 100) elements in four arrangements, one more of symbolic priority, one operation, removal by locator"),
     hist=H("priorq.c", "LOCATORS PRE=2 HIST=3 NOPS=4", "LOCATORS PRE=2 HIST=4 NOPS=4", "histories of enqueue/dequeue/pop/remove with symbolic priorities"),
     heap=H("priorq.c", "LOCATORS PRE=5 HIST=1 NOPS=4", "LOCATORS PRE=6 HIST=1 NOPS=4", "PRE symbolic priorities enqueued, then one operation and removal by locator in a scattered order"),
     removal=H("priorq.c", "LOCATORS PRE=12 HIST=1 NOPS=4 PRIOS=2 REMOVALS", "LOCATORS PRE=14 HIST=1 NOPS=4 PRIOS=2 REMOVALS", "PRE elements with PRIOS priority classes in every arrangement, each removed by locator, drained"),
     deep=H("priorq.c", "LOCATORS PRE=8 HIST=1 NOPS=4 PRIOS=2", "LOCATORS PRE=8 HIST=1 NOPS=4 PRIOS=3", "PRE elements with PRIOS priority classes in every arrangement, one operation, removal by locator"))
prop("C10", ["allocation does not fail", "source data do not alias the array's own storage when it has to grow"],
     hist=H("bytearray.c", "HIST=2 NMAX=3 NTARGETS=6 OPS=8", "HIST=3 NMAX=4 NTARGETS=6 OPS=8", "histories of HIST operations around the 128-byte and maximum-size boundaries, symbolic bytes, arbitrary far positions and huge lengths"),
     more=H("bytearray.c", "HIST=1 PREFILL NMAX=9 NTARGETS=12 OPS=8", "HIST=2 PREFILL NMAX=9 NTARGETS=12 OPS=8", "as hist, more sizes"),
     large=H("bytearray_large.c", "NMAX=3 NSTEPS=3 HIST=2", "NMAX=4 NSTEPS=9 HIST=2", "HIST growing or shrinking operations of up to 33000 bytes, symbolic end bytes"),
     limits=H("bytearray_limits.c", "", None, "maximum size, position and length over all 64-bit values, for the refused cases"))
prop("C11", ["allocation does not fail", "the reader reports at most the bytes it was offered"],
     shares=H("bytearray_stream.c", "HIST=0 NMAX=1 NPRE=1 NLENS=1 SHARES=70000", None, "70000 shares and as many destroys", skip=["full", "streamed"]),
     hist=H("bytearray_stream.c", "HIST=3 NMAX=4 NPRE=4 NLENS=6", "HIST=4 NMAX=7 NPRE=6 NLENS=11", "HIST stream appends, shares and destroys; reader writes anything and reports any result"))
prop("C12", ["allocation does not fail", "sizes up to INT_MAX"],
     huge=H("intset.c", "WINDOWS=3 HIST=2 NSIZES=2", "WINDOWS=4 HIST=3 NSIZES=4", "as hist, sizes from 65536 to 131072, elements in four windows", max_inst=2000000000),
     hist=H("intset.c", "HIST=3 NSIZES=4", "HIST=4 NSIZES=11", "sets of the listed sizes around word boundaries; HIST operations on arbitrary 32-bit elements; the probe is any 32-bit element"),
     more=H("intset.c", "HIST=2 NSIZES=11", "HIST=3 NSIZES=11", "as hist, more sizes"))
prop("C13", ["allocation does not fail", "sizes up to INT_MAX"],
     huge=H("intset.c", "SEARCH BASE WINDOWS=3 HIST=1 NSIZES=2", "SEARCH BASE WINDOWS=4 HIST=2 NSIZES=4", "as search, sizes from 65536 to 131072, elements in four windows", max_inst=2000000000),
     search=H("intset.c", "SEARCH BASE HIST=2 NSIZES=4", "SEARCH BASE HIST=3 NSIZES=11", "empty or full sets with up to HIST arbitrary exceptions; arbitrary start and witness"),
     more=H("intset.c", "SEARCH BASE HIST=1 NSIZES=11", "SEARCH HIST=2 NSIZES=11", "as search, more sizes"))
A64 = "pos62 and pos63 are distinct, not alphanumeric, '=', NUL or whitespace"
prop("C14", [A64],
     huge=H("b64_encode.c", "BULK=100000 MAXN=3", "BULK=300000 MAXN=4", "as std after BULK fixed bytes, destinations shorter by up to 8 or longer by up to 3", max_inst=2000000000),
     std=H("b64_encode.c", "MAXN=5", "MAXN=7", "sources of up to MAXN arbitrary bytes, every destination size up to 3 beyond the encoding"),
     alpha=H("b64_encode.c", "MAXN=3 ALPHABETS=5", "MAXN=5 ALPHABETS=5", "as std, arbitrary alphabets"))
prop("C15", [A64],
     huge=H("b64_decode.c", "BULK=90000 PREFIX=0 MINN=1 MAXN=2", "BULK=270000 PREFIX=0 MINN=0 MAXN=4", "as long after BULK fixed digits", max_inst=2000000000),
     std=H("b64_decode.c", "PREFIX=0 MINN=0 MAXN=4", "PREFIX=0 MINN=0 MAXN=6", "arbitrary strings of up to MAXN bytes, terminated or sized, every destination size"),
     long=H("b64_decode.c", "PREFIX=4 MINN=4 MAXN=5", "PREFIX=8 MINN=4 MAXN=6", "an arbitrary tail after a valid prefix"),
     alpha=H("b64_decode.c", "PREFIX=0 MINN=3 MAXN=4 ALPHABETS=3", "PREFIX=0 MINN=0 MAXN=5 ALPHABETS=5", "as std, arbitrary alphabets"))
prop("C16", [A64, "allocation does not fail"],
     huge=H("b64_round.c", "BULK=100000 MAXN=3", "BULK=300000 MAXN=4", "as round after BULK fixed bytes", max_inst=2000000000),
     round=H("b64_round.c", "MAXN=4 ALPHABETS=3", "MAXN=6 ALPHABETS=5", "byte strings of up to MAXN bytes"),
     sizes=H("b64_round.c", "SIZES", None, "every 64-bit size"))
prop("C17", [],
     all=H("charclass.c", "MAXN=3 NLENS=7", "MAXN=6 NLENS=9", "every 8-bit character; strings of up to MAXN arbitrary bytes and longer ones with two arbitrary bytes at either end or in the middle"))
prop("C18", ["arguments are NUL-terminated, or readable up to the bound"],
     huge=H("cmp.c", "PREFIX=66000 PRES=1 MAXN=1 EXTRA=2", "PREFIX=200000 PRES=1 MAXN=2 EXTRA=2", "as long, after PREFIX fixed characters", max_inst=2000000000),
     long=H("cmp.c", "PREFIX=24 PRES=8 MAXN=2 EXTRA=2", "PREFIX=70 PRES=8 MAXN=3 EXTRA=2", "as all, after up to PREFIX fixed characters (of either case)"),
     all=H("cmp.c", "MAXN=4 EXTRA=2", "MAXN=6 EXTRA=2", "every pair of strings of up to MAXN characters; any 64-bit bound"))
prop("C19", ["the delimiter is not empty", "allocation does not fail"],
     huge=H("split.c", ["MAXN=1", "MAXS=1", 'PREFIX=" ab cd,e,,ab\\t  abab\\xc3"', "REPEAT=3400"], ["MAXN=2", "MAXS=2", 'PREFIX=" ab cd,e,,ab\\t  abab\\xc3"', "REPEAT=14000"], "as long, the beginning repeated REPEAT times; three values of max_split", skip=["only whitespace"], max_inst=2000000000),
     long=H("split.c", ["MAXN=2", "MAXS=2", 'PREFIX=" ab cd,e,,ab\\t  abab\\xc3"'], ["MAXN=3", "MAXS=4", 'PREFIX=" ab cd,e,,ab\\t  abab\\xc3ab,baab, "'], "as all, after a fixed beginning", skip=["only whitespace"]),
     all=H("split.c", "MAXN=5 MAXS=6", "MAXN=7 MAXS=8", "every string of up to MAXN characters (MAXS over a mixed alphabet for string delimiters of up to 3), any delimiter, any max_split"))
prop("C20", [],
     all=H("utf8_decode.c", "", None, "every byte sequence of up to 5 bytes (a codepoint has at most 4), bounded, NUL-terminated, or ending at the first non-continuation byte"))
prop("C21", ["the codepoint is a Unicode scalar value", "without an end there is room"],
     all=H("utf8_encode.c", "", None, "every Unicode scalar value, every buffer of 0 to 6 bytes"))
prop("C22", ["allocation does not fail"],
     all=H("utf8_valid.c", "PREFIX=0 MAXN=5", "PREFIX=0 MAXN=6", "every byte string of up to MAXN bytes"),
     long=H("utf8_valid.c", "PREFIX=70000 MAXN=1", "PREFIX=400000 MAXN=2", "a fixed prefix of PREFIX bytes, then up to MAXN arbitrary bytes"))
prop("C23", ["no character is both reserved and unreserved", "allocation does not fail",
             "for '\"', ']' and '}', on which header and table disagree, either form is accepted"],
     huge=H("url_encode.c", "PREFIX=70000 MAXN=1", "PREFIX=400000 MAXN=2", "as long", skip=["non-ASCII"], max_inst=2000000000),
     std=H("url_encode.c", "MAXN=4", "MAXN=5", "every byte; every string of up to MAXN characters"),
     long=H("url_encode.c", "PREFIX=90 MAXN=2", "PREFIX=400 MAXN=3", "as std, after PREFIX fixed characters", skip=["non-ASCII"]),
     custom=H("url_encode.c", "CUSTOM NEXTRA=3", "CUSTOM NEXTRA=12", "one arbitrary reserved or unreserved character, with or without one of NEXTRA-1 fixed ones in either list; all bytes"))
prop("C24", ["allocation does not fail"],
     huge=H("url_decode.c", "PREFIX=150000 MAXN=3", "PREFIX=600000 MAXN=3", "as long", max_inst=2000000000),
     dec=H("url_decode.c", "PREFIX=0 MAXN=6", "PREFIX=0 MAXN=8", "every string of up to MAXN characters"),
     long=H("url_decode.c", "PREFIX=30 MAXN=4", "PREFIX=60 MAXN=5", "a fixed prefix, then up to MAXN arbitrary characters"),
     round=H("url_decode.c", "ROUND MAXN=4", "ROUND MAXN=5", "every string of up to MAXN characters encoded and decoded"))
prop("C25", ["the day number lies in one of the listed windows"],
     **{"w%d" % i: H("date.c", "WINDOW=%d DAYS=%d" % (i, q), "WINDOW=%d DAYS=%d" % (i, t), "every second of DAYS days from the start of window WINDOW (harness/date.c)",
                     split_div=130, **({"tier": "thorough"} if not q else {}))
        for i, q, t in [(3, 146097, 2 * 146097), (9, 29000, 40000), (2, 0, 146097), (0, 9000, 146097), (5, 1500, 146097), (4, 1500, 146097), (1, 0, 2 * 146097), (6, 0, 146097), (7, 1500, 146097), (8, 1500, 146097)]})
prop("C26", [], all=H("float.c", "", None, "every 64-bit pattern"))
prop("C27", [], all=H("integer.c", "MAXN=5 NLENS=5", "MAXN=12 NLENS=9", "every pair of 64-bit integers; every content of up to MAXN bytes, longer ones with three arbitrary bytes"))

prop("C29", ["the header calls the case mappings approximate: titlecase and non-letter characters that have a simple mapping may be mapped or kept"],
     all=H("ucd.c", "", None, "every codepoint U+0000 to U+10FFFF", extra=["ref_ucd.c"], prepare=ucdref.prepare_ucd))

prop("C33", [],
     all=H("idna_table.c", "BLOCK=1024", None, "every codepoint U+0000 to U+10FFFF", extra=["ref_idna.c"], prepare=ucdref.prepare_idna))

def N(harness, wide, nxt, length, extra="", bounds="", thorough=None, **kw):
    """normalisation run: strings of `length` characters, the first of the ranges in wide, the others in nxt"""
    r = lambda v: ",".join("{0x%x,0x%x}" % x for x in v)

    def d(wide, nxt, length):
        v = ["LEN=%d" % length, "WIDE=" + r(wide)] + (["NEXT=" + r(nxt)] if nxt else []) + extra.split()
        return v + ([] if any(x.startswith("BLOCK") for x in v) else ["BLOCK=1024"])
    return dict(harness=harness, quick=d(wide, nxt, length), thorough=d(*(thorough or (wide, nxt, length))), bounds=bounds,
                extra=["ref_ucd.c", "ref_norm.c"], prepare=ucdref.prepare_norm, **kw)


ALL, ASCII, LATIN, MARKS = (1, 0x10ffff), (0x41, 0x7a), (0xc0, 0x24f), (0x300, 0x36f)
JAMO, HANGUL = (0x10f0, 0x1210), (0xabf0, 0xd7b0)
MARKS3, MARKS4 = (0x1dc0, 0x1dff), (0x1d158, 0x1d172)
INDIC, INDIC4, VIET = (0x93c, 0xdff), (0x11080, 0x1134f), (0x1e00, 0x1eff)
NOHAN = [(1, 0xabff), (0xd7a4, 0x10ffff)]
SOME = [(0x300, 0x304), (0x323, 0x328), (0x338, 0x345)]
MIX = [ASCII, MARKS, (0x1100, 0x11ff), (0xabf0, 0xac40), INDIC, INDIC4]
BAD = dict(harness="norm_bad.c", quick=["MAXN=3"], thorough=["MAXN=5"], bounds="malformed strings: five prefixes, then up to MAXN arbitrary bytes",
           extra=["ref_ucd.c", "ref_norm.c"], prepare=ucdref.prepare_norm)
for pid, c, ex in (("C30", 0, ""), ("C31", 1, "COMPOSE ")):
    prop(pid, ["the input is canonically decomposed and has at most 100 consecutive combining marks"] if c else [],
         one=N("norm.c", NOHAN if c else [ALL], None, 1, ex + "ENDS", "every codepoint, with exactly, one byte less than, and the promised room"),
         sizes=N("norm.c", [ASCII, (0x1e9, 0x1f5), (0x386, 0x390), (0xac00, 0xac20), (0x1d15e, 0x1d160)], [(0x300, 0x30a), MARKS4], 2, ex + "SIZES=20 ENDS", "a character and a mark, every buffer size"),
         mixed=N("norm.c", [ASCII, (0xc0, 0x100), (0x1eac, 0x1ead)], [(0x300, 0x345), MARKS3, MARKS4], 3, ex, "a letter and two marks of UTF-8 lengths 2 to 4"),
         marks=N("norm.c", [ASCII], [(0x313, 0x343)], 4, ex, "a letter and three marks", skip=[] if c else ["changed length"], thorough=([ASCII, LATIN], [MARKS], 4)),
         wide=N("norm.c", NOHAN if c else [ALL], SOME if c else [MARKS], 2, ex, "every codepoint followed by a mark", thorough=(NOHAN if c else [ALL], [MARKS], 2)),
         after=N("norm.c", [(0x41, 0x43), (0x316, 0x318)], NOHAN if c else [ALL], 2, ex, "a letter or mark (thorough: others too) followed by every codepoint", thorough=(MIX, [ALL], 2)),
         hangul=N("norm.c", [JAMO] if c else [JAMO, HANGUL], None, 3 if c else 2, ex + "BLOCK=12000", "sequences of Jamo and syllables", thorough=([JAMO] if c else [JAMO, HANGUL], None, 3)),
         long=N("norm.c", [ASCII if c else LATIN], [(0x300, 0x343)], 3, ex + "FILL=%d" % (98 if c else 40), "two arbitrary marks after FILL fixed ones"),
         **({} if c else {"far": N("norm.c", [(0x41, 0x43), (0xe0, 0xe5)], [(0x313, 0x330)], 2, "FILL=170 NORM_MAX=400", "an arbitrary mark after FILL fixed ones")}),
         two=N("norm.c", [(0x41, 0x49)], [(0x41, 0x49), (0x300, 0x304), (0x323, 0x328)], 4 if c else 5, ex, "strings of LEN letters and marks in any order", thorough=([(0x41, 0x49)], [(0x41, 0x49), (0x300, 0x304), (0x323, 0x328)], 5 if c else 6), skip=[] if c else ["changed length"]),
         indic=N("norm.c", [INDIC, INDIC4], None, 2, ex, "pairs of Indic characters", thorough=([INDIC, INDIC4], None, 3)),
         bad=BAD)
prop("C32", [],
     one=N("norm_detect.c", [ALL], None, 1, "", "every codepoint"),
     wide=N("norm_detect.c", NOHAN, SOME, 2, "", "every codepoint followed by a mark", thorough=([ALL], [MARKS], 2)),
     mixed=N("norm_detect.c", [ASCII, (0xc0, 0x100), (0x1eac, 0x1ead)], [(0x300, 0x345), MARKS3, MARKS4], 3, "", "a letter and two marks of UTF-8 lengths 2 to 4"),
     after=N("norm_detect.c", [(0x41, 0x43), (0x316, 0x318)], [ALL], 2, "", "a letter or mark (thorough: others too) followed by every codepoint", thorough=(MIX, [ALL], 2)),
     ascii=N("norm_detect.c", [(1, 0x7f)], None, 4, "", "ASCII strings of four characters", skip=["not composed"]),
     two=N("norm_detect.c", [(0x41, 0x49)], [(0x41, 0x49), (0x300, 0x304), (0x323, 0x328)], 4, "", "strings of LEN letters and marks in any order", skip=[]),
         indic=N("norm_detect.c", [INDIC, INDIC4], None, 2, "", "pairs of Indic characters", thorough=([INDIC, INDIC4], None, 3)),
         bad=BAD)

def I(wide, nxt, length, extra="", bounds="", deeper={}, **kw):
    r = N("idna.c", wide, nxt, length, extra, bounds, **kw)
    r["thorough"] = [d for d in r["thorough"] if d.split("=")[0] not in deeper] + ["%s=%s" % x for x in deeper.items()]
    r.update(extra=["ref_ucd.c", "ref_norm.c", "ref_idna.c"], prepare=ucdref.prepare_all)
    return r


prop("C34", ["names whose mapped form is no longer in NFC, or with a label that begins with a nonspacing mark, may be refused or encoded"],
     ascii=I([(0, 0)], None, 4, "ASCIIONLY", "ASCII strings of up to LEN characters"),
     bad=I([(0, 0)], None, 3, "MALFORMED", "malformed strings: five prefixes, then up to LEN arbitrary bytes"),
     one=I([(0x80, 0x10ffff)], None, 1, "", "every codepoint as a name"),
     two=I([(0xdf, 0xff), (0x3b1, 0x3c9), (0x4e00, 0x4e0f)], [(0x2d, 0x2e), (0x61, 0x63), (0xe0, 0xff), (0x4e00, 0x4e1f)], 2, "",
           "two characters of the listed ranges", thorough=([(0xdf, 0xff), (0x3b1, 0x3c9), (0x4e00, 0x4e3f), (0x20000, 0x2003f)], [(0x2d, 0x2e), (0x61, 0x63), (0xe0, 0xff), (0x4e00, 0x4e3f)], 2)),
     mix=I([(0x2d, 0x2e), (0x41, 0x41), (0x7a, 0x7a), (0xad, 0xad), (0xe4, 0xe4), (0x3002, 0x3002), (0xff0d, 0xff0e), (0xff21, 0xff21)], None, 3, "",
           "three of: separators and hyphens (ASCII, ideographic, fullwidth), letters, soft hyphen, capitals", thorough=([(0x2c, 0x2f), (0x40, 0x41), (0x7a, 0x7a), (0xad, 0xad), (0xe4, 0xe4), (0x3002, 0x3002), (0xff0d, 0xff0f), (0xff21, 0xff21)], None, 4)),
     marks=I([(0x61, 0x63), (0x41, 0x41), (0x304b, 0x304c)], [(0x300, 0x302), (0x3099, 0x3099), (0x323, 0x323), (0x93e, 0x93e)], 2, "", "a letter and a combining mark", thorough=([(0x61, 0x7a), (0x41, 0x44), (0x304b, 0x3050)], [(0x300, 0x30c), (0x3099, 0x309a), (0x323, 0x327), (0x93e, 0x93e)], 2), skip=["refused"]),
     label=I([(0x4e00, 0x4e0f), (0xe4, 0xe4), (0x20000, 0x2000f)], None, 1, "FILL=48 FILLS=12 EVERY=0 FILLCHAR='a'", "labels of 49 to 60 characters: letters, then one of the ranges"),
     dense=I([(0x4e00, 0x4e0f), (0xe4, 0xe4)], None, 1, "FILL=44 FILLS=12 EVERY=0 FILLCHAR=0x4e2d", "labels of 45 to 56 characters beyond ASCII"),
     name=I([(0x2d, 0x2e), (0x7a, 0x7a)], None, 1, "BEFORE=0xe4 FILL=236 FILLS=14 EVERY=50 FILLCHAR='b'", "names of 238 to 251 characters, most of them ASCII (encoded: up to 7 more)"),
     bias=I([(0x6000, 0x607f)], [(0x7000, 0x7000)], 2, "FILL=11 FILLS=1 EVERY=0 FILLCHAR='a'", "11 letters (thorough: up to 12), any Han character U+6000..U+607F, and a fixed one", skip=["refused"], deeper=dict(WIDE="{0x5000,0x6fff}")),
     manymarks=I([(0x304, 0x304), (0x323, 0x323), (0xe4, 0xe4)], None, 1, "BEFORE='a' FILL=96 FILLS=8 EVERY=0 FILLCHAR=0x304", "names of a letter, 96 to 103 combining marks, and one of the ranges", skip=["encoded"]),
     wide=I([(0x2e, 0x2e), (0x4e00, 0x4e07)], None, 1, "FILL=120 FILLS=45 EVERY=33 FILLCHAR=0x4e2d", "names of 121 to 165 characters, most beyond ASCII"),
     )

FORMATTER = ["vsnprintf=vp_vsnprintf", "vsprintf=vp_vsprintf"]
prop("C35", ["the C formatter returns a length below 2^31 or a negative number, and produces the same output when called again with the same arguments"],
     **{"all": H("printf.c", "MAXN=6 BIG=1", "MAXN=24 BIG=1", "every output of up to MAXN bytes, some lengths up to 70000, every error number", srcdefs=FORMATTER)})

RAW = ["%s=vp_raw_%s" % (f, f) for f in ("malloc", "calloc", "realloc", "free", "strdup", "strndup")]
prop("C28", ["allocation does not fail where a run covers another component than fsalloc.c"],
     all=H("alloc.c", "MAXN=5", "MAXN=8", "every size, pointer, factor pair and count; contents of blocks of up to MAXN (squared) bytes"),
     **{"by_" + k.split()[0].lower(): H("mem.c", k + " HIST=%d" % q, k + " HIST=%d" % t, "no way around the reallocator in histories of HIST operations (harness/mem.c)", srcdefs=RAW)
        for k, q, t in [("AVL", 4, 5), ("HASH", 4, 5), ("LIST", 5, 6), ("PRIORQ", 5, 6), ("BYTES", 2, 3), ("INTSET", 2, 3)]},
     by_strings=H("mem.c", "MAXN=3", "MAXN=4", "no way around the reallocator for every string of up to MAXN characters", srcdefs=RAW),
     by_idna=I([(0x2d, 0x2e), (0xdf, 0xe4), (0x323, 0x323)], [(0x2d, 0x2e), (0x61, 0x63), (0xe0, 0xff)], 2, "", "no way around the reallocator for two characters of the listed ranges", srcdefs=RAW),
     by_printf=H("printf.c", "MAXN=4 BIG=1", "MAXN=12 BIG=1", "no way around the reallocator for every output of up to MAXN bytes, some lengths up to 70000", srcdefs=RAW + FORMATTER))

prop("C36", ["allocation does not fail; the caller keeps the ownership rules of the headers"],
     avl=H("mem.c", "AVL HIST=5", "AVL HIST=6", "histories of HIST tree operations, a copy in between, elements destroyed before or after the tree"),
     hash=H("mem.c", "HASH HIST=5", "HASH HIST=6", "histories of HIST hash table operations"),
     list=H("mem.c", "LIST HIST=6", "LIST HIST=7", "histories of HIST list operations on allocated strings"),
     priorq=H("mem.c", "PRIORQ HIST=6", "PRIORQ HIST=7", "histories of HIST queue operations"),
     bytes=H("mem.c", "BYTES HIST=3", "BYTES HIST=4", "histories of HIST operations on a byte array and its shares, all maximum sizes up to 9"),
     intset=H("mem.c", "INTSET HIST=3", "INTSET HIST=4", "every size up to 200, histories of HIST operations"),
     idna=I([(0x2d, 0x2e), (0x40, 0x41), (0xad, 0xad), (0xdf, 0xe4), (0x323, 0x323)], [(0x2d, 0x2e), (0x61, 0x63), (0xad, 0xad), (0xe0, 0xff), (0x323, 0x323)], 2, "", "host names of two characters of the listed ranges"),
     idnabad=I([(0, 0)], None, 2, "MALFORMED", "malformed host names: five prefixes, then up to LEN arbitrary bytes"),
     idnamarks=I([(0x304, 0x304), (0x323, 0x323), (0xe4, 0xe4)], None, 1, "BEFORE='a' FILL=97 FILLS=6 EVERY=0 FILLCHAR=0x304", "names of a letter, 97 to 102 combining marks, and one of the ranges", skip=["encoded"]),
     idnalong=I([(0x4e00, 0x4e03), (0xe4, 0xe4)], None, 1, "FILL=54 FILLS=4 EVERY=0 FILLCHAR='a'", "labels of 55 to 58 characters: letters, then one of the ranges"),
     printf=H("printf.c", "MAXN=4 BIG=1", "MAXN=12 BIG=1", "every output of up to MAXN bytes, some lengths up to 70000", srcdefs=FORMATTER),
     strings=H("mem.c", "MAXN=4", "MAXN=5", "every string of up to MAXN characters through each allocating string function"))

ORACLE.update(
    C36="the blocks handed out and taken back by the harness's reallocator are counted; every access is checked by the executor",
    C35="a formatter supplied by the harness, whose outcome and output are symbolic and passed through the variable arguments",
    C34="the RFC 3492 encoder, the statuses and mappings of the shipped table and the reference normal form, written out in harness/idna.c",
    C30="the Unicode definition of canonical decomposition and ordering over the shipped data (harness/norm_ref.h)",
    C31="the Unicode definition of canonical composition over the shipped data (harness/norm_ref.h)",
    C32="the UAX #15 quick check over the shipped data, and the reference normal forms",
    C33="arrays built from the shipped mapping table by a separate parser (tools/ucdref.py)",
    C29="arrays built from the shipped data files by a separate parser (tools/ucdref.py)",
    C01="an array of (key, value) pairs kept by the harness; after each step every key's lookup, size, emptiness and what put/pop/detach returned are compared",
    C02="the sorted model array: first/last/next/previous and the four bounded lookups are compared with it for a symbolic probe",
    C03="comparator calls are counted and compared with the maximum height of an AVL tree of that size",
    C04="two model arrays, one per tree; comparator object checked",
    C05="an array of values with the element handles",
    C06="an array of (key, value) pairs; the hash of each key is symbolic or from a colliding set",
    C07="visit marks per stored element",
    C08="the multiset of queued items; no queued item may precede the yielded one",
    C09="the last locator reported per item; removal by it must return that item",
    C10="a plain byte buffer with size; every byte and the NUL compared, including at arbitrary symbolic positions",
    C11="the reader is the environment: it writes and reports symbolically; buffer offered, result and contents compared; reference counts counted",
    C12="the last operation that touched a symbolic probe element decides membership",
    C13="a symbolic witness element: no hit (miss) between the start and the result",
    C14="an independent RFC 4648 encoder", C15="an independent canonical-encoding recogniser and decoder",
    C16="identity; exact arithmetic on sizes", C17="ranges of the ASCII table written out", C18="reference comparison loop over both strings",
    C19="reference positions of delimiters; joining restores the input", C20="Table 3-7 of the Unicode standard", C21="the arithmetic definition of UTF-8",
    C22="the reference decoder of C20 applied repeatedly", C23="reference encoding per byte", C24="reference state machine",
    C25="the day number is recomputed from the returned date by the civil-from-days identity and must match; field ranges",
    C26="exact integer reasoning on sign, exponent and significand", C27="numeric order on the integers",
    C28="a recording reallocator supplied by the harness")
