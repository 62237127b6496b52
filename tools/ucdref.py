"""Reference Unicode and IDNA data, parsed from the data files of the tree
independently of the repository's own generators, written as C arrays
(work/ref_ucd.c, ref_norm.c, ref_idna.c)."""
import os

MAX = 0x110000
CATS = "Cn Cc Cf Co Cs Ll Lm Lo Lt Lu Mc Me Mn Nd Nl No Pc Pd Pe Pf Pi Po Ps Sc Sk Sm So Zl Zp Zs".split()


def fields(path):
    for line in open(path, encoding="utf-8"):
        line = line.partition("#")[0].strip()
        if line:
            yield [f.strip() for f in line.split(";")]


def span(f):
    a, _, b = f.partition("..")
    return int(a, 16), int(b or a, 16)


class Ucd:
    def __init__(self, repo):
        self.cat = ["Cn"] * MAX
        self.ccc = [0] * MAX
        self.lower, self.upper = {}, {}
        self.dec = {}                              # one-step canonical decompositions
        first = None
        for f in fields(os.path.join(repo, "unicode", "UnicodeData.txt")):
            cp = int(f[0], 16)
            lo = cp
            if f[1].endswith("First>"):
                first = cp
                continue
            if f[1].endswith("Last>"):
                lo, first = first, None
            for c in range(lo, cp + 1):
                self.cat[c] = f[2]
                self.ccc[c] = int(f[3])
            if f[5] and not f[5].startswith("<"):
                self.dec[cp] = [int(x, 16) for x in f[5].split()]
            if f[12]:
                self.upper[cp] = int(f[12], 16)
            if f[13]:
                self.lower[cp] = int(f[13], 16)
        self.qc = [0] * MAX
        bit = {"NFC_QC": 1, "NFD_QC": 4, "NFKC_QC": 16, "NFKD_QC": 64}
        for f in fields(os.path.join(repo, "unicode", "DerivedNormalizationProps.txt")):
            if f[1] in bit and f[2] in ("N", "M"):
                a, b = span(f[0])
                for c in range(a, b + 1):
                    self.qc[c] |= bit[f[1]] * (1 if f[2] == "N" else 2)
        self.excl = set(int(f[0], 16) for f in fields(os.path.join(repo, "unicode", "CompositionExclusions.txt")))

    def nfd1(self, c):
        if 0xac00 <= c < 0xac00 + 11172:
            s = c - 0xac00
            return [0x1100 + s // 588, 0x1161 + s % 588 // 28] + ([0x11a7 + s % 28] if s % 28 else [])
        if c in self.dec:
            return [y for x in self.dec[c] for y in self.nfd1(x)]
        return [c]

    def pairs(self):
        """primary composites: (first, second) -> composite"""
        r = {}
        for c, d in self.dec.items():
            if len(d) == 2 and c not in self.excl and self.ccc[c] == 0 and self.ccc[d[0]] == 0:
                r[tuple(d)] = c
        return r


def table(name, ctype, vals, size=MAX, default=0):
    """vals: list or dict -> C array with range designators"""
    out = ["const %s %s[%d] = {" % (ctype, name, size)]
    it = sorted(vals.items()) if isinstance(vals, dict) else enumerate(vals)
    start = prev = val = None
    for c, v in list(it) + [(None, None)]:
        if val is not None and (c is None or c != prev + 1 or v != val):
            if val != default:
                out.append("[%d ... %d] = %s," % (start, prev, val) if prev > start else "[%d] = %s," % (start, val))
            start = None
        if c is None:
            break
        if start is None:
            start = c
        prev, val = c, v
    out.append("};")
    return "\n".join(out) + "\n"


_cache = {}


def ucd(repo):
    if repo not in _cache:
        _cache[repo] = Ucd(repo)
    return _cache[repo]


HEAD = "#include <stdint.h>\n"


def write(work, name, text):
    p = os.path.join(work, name)
    if not os.path.exists(p):
        with open(p + ".tmp", "w") as f:
            f.write(text)
        os.rename(p + ".tmp", p)


def prepare_ucd(work, repo):
    u = ucd(repo)
    ix = {c: i for i, c in enumerate(CATS)}
    write(work, "ref_ucd.c", HEAD + '#include "charstr.h"\n' +
          table("ref_cat", "uint8_t", ["UNICODE_CATEGORY_" + c for c in u.cat], default="UNICODE_CATEGORY_Cn") +
          table("ref_ccc", "uint8_t", u.ccc) + table("ref_qc", "uint8_t", u.qc) +
          table("ref_lower", "int32_t", u.lower) + table("ref_upper", "int32_t", u.upper))


STATUS = "valid mapped ignored deviation disallowed disallowed_STD3_valid disallowed_STD3_mapped".split()


def idna(repo):
    st, mp = [None] * MAX, {}
    for f in fields(os.path.join(repo, "idna", "IdnaMappingTable.txt")):
        a, b = span(f[0])
        for c in range(a, b + 1):
            st[c] = f[1]
            if f[1] in ("mapped", "deviation", "disallowed_STD3_mapped"):
                mp[c] = [int(x, 16) for x in f[2].split()] if len(f) > 2 else []
    return st, mp


def prepare_idna(work, repo):
    st, mp = idna(repo)
    pool, off, blob = {}, {}, bytearray(b"\0")
    for c in sorted(mp):
        t = "".join(map(chr, mp[c])).encode() + b"\0"
        if t not in pool:
            pool[t] = len(blob)
            blob += t
        off[c] = pool[t]
    write(work, "ref_idna.c", HEAD + table("ref_status", "uint8_t", [STATUS.index(s) for s in st]) + table("ref_map", "int32_t", off) +
          "const unsigned char ref_mapbytes[] = {%s};\n" % ",".join(map(str, blob)))


def prepare_norm(work, repo):
    """reference data for NFD/NFC: combining classes, full decompositions
    (Hangul excepted), and per second character the composites by first"""
    prepare_ucd(work, repo)
    u = ucd(repo)
    pool, off = [0], {}
    for c in sorted(u.dec):
        off[c] = len(pool)
        pool += u.nfd1(c) + [0]
    by = {}
    for (a, b), c in u.pairs().items():
        by.setdefault(b, {})[a] = c
    second, lo, hi, o, comp = {}, [0], [0], [0], [0]
    for k, b in enumerate(sorted(by), 1):
        second[b] = k
        lo.append(min(by[b]))
        hi.append(max(by[b]))
        o.append(len(comp))
        comp += [by[b].get(a, 0) for a in range(lo[-1], hi[-1] + 1)]
    lst = lambda n, v: "const int32_t %s[] = {%s};\n" % (n, ",".join(map(str, v)))
    write(work, "ref_norm.c", HEAD + table("ref_dec", "int32_t", off) + lst("ref_decpool", pool) + table("ref_second", "uint8_t", second) +
          lst("ref_first_lo", lo) + lst("ref_first_hi", hi) + lst("ref_comp_at", o) + lst("ref_comp", comp))


def prepare_all(work, repo):
    prepare_norm(work, repo)
    prepare_idna(work, repo)
