import json
P=[]
def p(id,title,st,over,qt,why,files,mech,state=None,obs=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
        **({'state':[dict(name=a,meaning=b,where=c) for a,b,c in state]} if state else {}),
        observe_at=obs or ['public API'],hook_needed=None)))
H=['histories','inputs'];I=['inputs']
p('C01','AVL tree is an exact ordered map',
 "After any sequence of operations, the AVL tree behaves as a finite map over the caller's comparator: a lookup returns the most recently stored value of a present key and NULL for an absent one, and size and emptiness are exact. Storing under an existing key replaces the element and hands back the detached old element (NULL if the key was new, and no effect and NULL if the very same value is already stored there). Popping, detaching or removing takes out exactly the intended element (key and value of a detached element stay readable) and leaves every other association untouched.",
 H,'every history of put/get/pop/pop_first/pop_last/detach/remove, every comparator order and every key and value',
 'avltest drives one comparator with one million keys in a handful of fixed orders; it samples a vanishing part of the tree shapes x operations and never checks same-value puts or what detached elements hold.',
 ['src/avltree.c','include/avltree.h'],[('put/put_left/put_right','src/avltree.c'),('detach/exchange/lighten_*','src/avltree.c'),('rotate_left/rotate_right','src/avltree.c')],
 [('root/size','the stored associations','include/avltree_imp.h')])
p('C02','AVL tree navigation follows key order exactly',
 "After any history, first/last return the extreme elements, next/previous step through every element exactly once in comparator order in both directions (NULL at the ends), and the four bounded lookups (before, on-or-before, after, on-or-after) return exactly the nearest qualifying element for any probe key, or NULL if there is none.",
 H,'every reachable tree and every probe key, present or absent',
 'Tests walk a few large trees forward; bounded lookups at every position of every tree shape after rebalancing deletions are not reached.',
 ['src/avltree.c','include/avltree.h'],[('parent links kept by rotations and exchange','src/avltree.c'),('avl_tree_next/previous/get_*','src/avltree.c')])
p('C03','AVL tree stays height-balanced',
 "After any history of insertions and deletions, looking up, inserting or popping any key in a tree of n elements calls the comparator at most as many times as the height of the sparsest AVL tree of n elements (about 1.44*log2(n+2)), never degrading towards linear cost.",
 H,'every history of insertions and deletions and every key looked up afterwards',
 'A test sees only the histories it runs; a missed rebalancing in one deletion shape leaves all lookups correct and only slower.',
 ['src/avltree.c'],[('balance bookkeeping in put_*, lighten_*, rotate_*','src/avltree.c')],[('balance','height difference of the subtrees','include/avltree_imp.h')],['number of comparator calls'])
p('C04','AVL tree copy is equal and independent',
 "A copy of an AVL tree contains exactly the same associations in the same order as the original at the moment of copying, is navigable and balanced like it, and from then on operations on either tree, including its destruction, never affect the other.",
 H,'every tree, and every history on the original or the copy after copying','Copying is exercised on one tree shape by the tests; independence after arbitrary modifications is not.',
 ['src/avltree.c'],[('avl_tree_copy/copy_tree','src/avltree.c')])
p('C05','Linked list is an exact sequence',
 "After any history, the list equals the mathematical sequence its operations describe: append, prepend and insert-before place the value exactly there, remove and the pops take out exactly that occurrence and return its value, and forward traversal, backward traversal, first/last, size, emptiness, lookup by value (first occurrence) and by index (NULL when out of range, including negative) all agree with that sequence. Iteration visits every element once in order, and a copy is equal to and independent of the original.",
 H,'every operation history, every position and every value (including NULL and duplicates)','There is no list test at all.',
 ['src/list.c','include/list.h'],[('link maintenance in append/prepend/insert_before/remove','src/list.c')],[('first/last/size','the sequence','include/list_imp.h')])
p('C06','Hash table is an exact map for any hash function',
 "For any hash function (including one where everything collides) and any matching equality comparator, the hash table behaves as a finite map after any history: lookups, replacement on put (returning the old element; same value stored again is a no-op returning NULL), pop, detach, remove, size and emptiness are exact, whatever the declared capacity, also when more elements than that are stored.",
 H,'every history, key set, hash function and capacity','There is no hash table test at all.',
 ['src/hashtable.c','include/hashtable.h','src/list.c'],[('bucket chains','src/hashtable.c hash_table_put/get'),('element location','src/hashtable.c hash_table_detach')],[('table[], size','bucket lists','include/hashtable_imp.h')])
p('C07','Hash table traversal visits each element exactly once',
 "Starting from any-element and repeatedly asking for the other element visits every stored element exactly once and then ends with NULL; repeatedly popping any element removes and returns each stored element exactly once, decreasing the size by one each time, until the table is empty and NULL is returned.",
 H,'every history that led to the table, every hash function and bucket distribution (including first and last buckets)','There is no hash table test at all.',
 ['src/hashtable.c'],[('get_next, hash_table_get_other, hash_table_pop_any','src/hashtable.c')])
p('C08','Priority queue always yields a minimum',
 "After any history, peek and dequeue return an element that no other queued element precedes in the comparator's order (NULL when empty), dequeue and pop remove exactly one occurrence of the element they return, and the queue always holds exactly the enqueued-but-not-removed multiset with an exact size. Dequeueing everything therefore yields a sorted permutation of what was put in.",
 H,'every history of enqueue/dequeue/pop/peek/remove, every priority assignment including ties and duplicates','The test drains random samples of one order; it does not cover every heap shape with every interleaving of removals.',
 ['src/priority_queue.c','include/priority_queue.h'],[('raise/lower sifting','src/priority_queue.c')],[('storage[0..capacity)','binary heap','src/priority_queue.c')])
p('C09','Priority queue locators always identify their element',
 "With a relocation callback, the most recently reported locator of each queued element identifies that element after any history, so that removing by locator returns exactly that element and leaves all other elements queued, correctly prioritised and with valid locators.",
 H,'every history of enqueue/dequeue/pop/remove and every element chosen for removal','Tests remove elements of a few random heaps; cases such as removal that must sift upwards need particular priorities.',
 ['src/priority_queue.c'],[('assign() calls reloc; priorq_remove','src/priority_queue.c')])
p('C10','Byte array content, limit and NUL terminator are exact',
 "After any history of copy-at-position, append, resize and clear, the byte array's contents and size equal the described byte sequence, followed by a NUL byte, without touching memory outside its storage. An operation succeeds exactly when its position is within the current size and the resulting size plus the NUL fits in the maximum size (no arithmetic overflow can defeat this); a failing operation reports failure and leaves the contents unchanged.",
 H,'every history, every position, length (including near SIZE_MAX), maximum size (including 0) and content','The test appends a few fixed strings; limits, growth boundaries, overwrites straddling the end, overflowing lengths and failure atomicity are not covered.',
 ['src/bytearray.c','include/bytearray.h'],[('ensure_space','src/bytearray.c'),('byte_array_copy/append/resize','src/bytearray.c')],[('cursor/size/max_size','contents and storage','src/bytearray.c')])
p('C11','Byte array stream append and sharing are safe',
 "Appending from a stream offers the reader a buffer of at most the requested length and at most the remaining room, appends exactly the bytes the reader reports, returns the reader's result, keeps the NUL terminator and leaves contents and size unchanged on error or end of stream (failing, without calling the reader, when something is requested and the array is already full). A shared byte array stays alive and unchanged until as many destroys as makes and shares have been performed, and is then freed exactly once.",
 ['histories','inputs','fault_sequences'],'every reader behaviour (full, partial, zero, failing after scribbling), requested length, fill level and share/destroy order','No test fails a reader or shares an array.',
 ['src/bytearray.c'],[('byte_array_append_stream','src/bytearray.c'),('ref_count','src/bytearray.c')])
p('C12','Integer set membership is exact',
 "After any history of add, remove and fill, an integer set of size n contains exactly the elements of [0,n) last added (or filled) and not since removed; elements outside [0,n) are never contained, adding or removing them has no effect on any member, and no operation touches memory outside the set.",
 H,'every size, element (0..UINT_MAX) and history','The test uses one size and a few elements; word boundaries and out-of-range elements are sampled.',
 ['src/intset.c','include/intset.h'],[('word/bit index computation','src/intset.c')])
p('C13','Integer set search finds the nearest hit or miss',
 "For any set contents and any starting element, the next-hit (next-miss) search returns the smallest element of [0,n) that is >= the start and is (is not) in the set, or -1 if there is none, and the emptiness test is true exactly when the set has no elements.",
 I,'every contents, every size (including sizes not multiples of the machine word) and every start','The test checks a few positions of one size.',
 ['src/intset.c','include/intset.h'],[('intset_find_next','src/intset.c')])
p('C14','Base64 encoding is exact and stays within its buffer',
 "Encoding any bytes into any buffer returns the full RFC 4648 encoded length, writes exactly the prefix of the padded encoding that fits (with custom 62nd/63rd characters if given), NUL-terminates whenever the buffer size is nonzero, and never writes outside the buffer.",
 I,'every source content and length, every destination size and every pair of alphabet characters','Tests encode a fixed set of strings into ample buffers.',
 ['src/base64.c','include/base64.h'],[('base64_encode_buffer/put4','src/base64.c')])
p('C15','Base64 decoding accepts exactly the valid encodings',
 "Decoding accepts exactly the canonical padded encodings in the selected alphabet (zero leftover bits, exact padding, nothing after it; whitespace permitted anywhere when ignored), ending at NUL or the given length, and returns the full decoded length while writing exactly the prefix that fits and never reading or writing out of bounds. Everything else is rejected with a negative result and EILSEQ.",
 I,'every source byte string, length limit, destination size, alphabet pair and whitespace mode','Tests decode a fixed set of strings; a wrong table entry or bound for one byte value is not reached.',
 ['src/base64.c','include/base64.h'],[('base64_decode_buffer, get_bits, good_base64_tail','src/base64.c'),('base64_bitfield_decoding','src/base64.c')])
p('C16','Base64 round trip and sizes are lossless',
 "Decoding the encoding of any byte string gives that byte string back, through the buffer functions (with any valid alphabet pair) and through the allocating functions, whose results are NUL-terminated and exactly sized. The encoding size function returns the exact encoded length for every size, or (size_t)-1 exactly when that length does not fit in size_t.",
 I,'every byte string and every size_t value','Tests round-trip random samples; the overflow boundary of the size function is not tested.',
 ['src/base64.c','include/base64.h'],[('base64_encoding_size','src/base64.c'),('base64_encode_simple/base64_decode_simple','src/base64.c')])
p('C17','ASCII classification and case mapping are exact',
 "For every 8-bit character the character class has exactly the documented bits, lower/upper-casing changes exactly the ASCII letters, and the digit value of every hexadecimal digit is right. The in-place string versions convert exactly the characters of the string (or the given substring), change nothing else and return the string.",
 I,'every byte value and every string','Tests look at a few characters of 256.',
 ['src/charstr.c','include/charstr.h'],[('char_class, case_table, digit_value tables','src/charstr.c')])
p('C18','String comparison, prefix and suffix tests are exact',
 "Case-insensitive comparison (bounded and unbounded) orders any two strings as strcasecmp/strncasecmp would in the C locale, and prefix skipping (plain and case-insensitive) and suffix testing succeed exactly when the string begins or ends with the given text, returning the remainder. None of them reads past either string's terminator or past the bound.",
 I,'every pair of byte strings and every bound','Tests use a few literal pairs; high bytes, unequal lengths and bounds in combination are not reached.',
 ['src/charstr.c','include/charstr.h'],[('charstr_case_cmp/ncase_cmp/skip_prefix/case_skip_prefix/ends_with','src/charstr.c')])
p('C19','Splitting and stripping partition the string exactly',
 "Splitting by character or by string, into a list or an array, cuts at exactly the first max_split delimiter occurrences from the left, so that joining the pieces with the delimiter restores the input and no piece but the last contains the delimiter. Splitting into atoms returns exactly the maximal runs of non-whitespace, stripping removes exactly the leading and trailing whitespace, duplication copies exactly the (sub)string, and each result is a fresh NUL-terminated copy.",
 I,'every string, delimiter and split limit','There is no test for splitting or stripping.',
 ['src/charstr.c','include/charstr.h'],[('charstr_split*, charstr_strip, charstr_dup*','src/charstr.c')])
p('C20','UTF-8 decoding accepts exactly well-formed sequences',
 "Decoding one codepoint succeeds exactly when a well-formed UTF-8 sequence of a Unicode scalar value (no overlong forms, surrogates or values above U+10FFFF) starts at the given position and lies before the end, and then yields that codepoint and the position after it. Otherwise it returns NULL, and it never reads at or past the end, nor beyond the first byte that is not a continuation byte where one is needed (so never past a NUL terminator).",
 I,'every byte sequence and every end position (or none)','Tests decode fixed strings; the 2^32 possible 4-byte sequences and truncations are not covered.',
 ['src/charstr.c','include/charstr.h'],[('charstr_decode_utf8_codepoint, valid_unicode','src/charstr.c')])
p('C21','UTF-8 encoding is exact and bounded',
 "Encoding any Unicode scalar value writes exactly its UTF-8 form and returns the position after it, which decodes back to the same codepoint; if it does not fit before the end, NULL is returned and nothing is written at or after the end.",
 I,'every codepoint and every amount of remaining room','Tests encode a few codepoints.',
 ['src/charstr.c','include/charstr.h'],[('charstr_encode_utf8_codepoint','src/charstr.c')])
p('C22','UTF-8 validation and sanitising are exact',
 "The validators return true exactly for strings that are sequences of well-formed UTF-8 codepoints (up to the end, or up to the NUL). Sanitising yields a freshly allocated valid string in which every valid sequence is kept, every byte that is not part of one is replaced by U+FFFD, and which equals the input if that was already valid.",
 I,'every byte string','Tests sanitise a few literals.',
 ['src/charstr.c','include/charstr.h'],[('charstr_valid_utf8*, charstr_sanitize_utf8','src/charstr.c')])
p('C23','URL encoding is exact for standard and custom encoders',
 "URL-encoding a string concatenates the encoding of each byte: '+' for space, letters, digits and the documented punctuation as themselves, everything else as %XX in upper-case hexadecimal; a custom encoder percent-encodes exactly the reserved characters, leaves the unreserved ones unmodified and treats all other characters as the standard encoder does, without affecting the standard encoder. The result is freshly allocated, NUL-terminated and exactly as long as needed.",
 I,'every string and every reserve/unreserve set','Tests encode a few literals.',
 ['src/charstr.c','include/charstr.h'],[('url_encoder table, charstr_create_url_encoder, charstr_url_custom_encode','src/charstr.c')])
p('C24','URL decoding inverts encoding and rejects malformed input',
 "Decoding the URL-encoding of any string (with plus meaning space) gives the string back. In general decoding replaces each %XX (hex digits in either case) by its byte, '+' by space only when asked, keeps other characters, reports the exact decoded length, and returns NULL with EILSEQ exactly when some '%' is not followed by two hexadecimal digits, never reading past the terminator.",
 I,'every string','Tests decode a few literals.',
 ['src/charstr.c','include/charstr.h'],[('charstr_url_decode','src/charstr.c')])
p('C25','UTC date conversion is exact',
 "For every epoch second whose day number fits comfortably in an int, before or after 1970, the broken-down time is the proleptic Gregorian UTC date, time of day and weekday of that second (leap-year rules of 4, 100 and 400 years included), with every field in its normal range and DST off.",
 I,'every time_t within +/- about five million years of 1970','The test compares a sample of random times with gmtime; a wrong day of the year table or century rule affects isolated days.',
 ['src/date.c','include/date.h'],[('epoch_to_utc, YDAY_INFO','src/date.c')])
p('C26','Binary64 to integer conversion is exact',
 "Converting a 64-bit IEEE 754 pattern to a signed (unsigned) integer succeeds exactly when the number it denotes is an integer representable in the target type, and then yields exactly that integer; both zeros give 0, and NaN, infinities, fractions and out-of-range values fail.",
 I,'all 2^64 bit patterns','The test tries some dozens of the 2^64 patterns.',
 ['src/float.c','include/float.h'],[('exponent/mantissa arithmetic','src/float.c')])
p('C27','Interned integers compare and hash consistently',
 "Interning any intptr_t/uintptr_t value and reading it back is the identity; the integer comparators are total orders agreeing with signed and unsigned numeric order for every pair. Hashing is a pure function of content: equal strings, equal blobs and equal integers always have equal hashes.",
 I,'all values and pairs of values, all strings and blobs','No tests.',
 ['src/integer.c','include/integer.h','src/hashtable.c'],[('integer_cmp/unsigned_cmp','src/integer.c'),('hash_string/hash_blob/hash_integer/hash_unsigned','src/hashtable.c')])
p('C28','All allocation goes through the configured reallocator',
 "Allocation, reallocation and freeing are delegated to the currently configured reallocator with the right pointer and size (freeing NULL is a no-op, freeing requests size zero), reallocation preserves contents, zero-initialised allocation returns zeroed memory of the full product size and never a too small block when the product overflows. Getter functions return what was set, and skew reports reach exactly the configured counter. No component of the library obtains or frees memory in another way.",
 ['inputs','histories','fault_sequences'],'every size pair, every reallocator and every allocation outcome','No tests; multiplication overflow and failing reallocators are never exercised.',
 ['src/fsalloc.c','include/fsalloc.h'],[('reallocator hook, fscalloc','src/fsalloc.c')])
p('C29','Unicode character data match the bundled database',
 "For every codepoint U+0000..U+10FFFF, the general category, the simple lower and upper case mapping, the canonical combining class and the quick-check flags the library reports are those of the Unicode data files the repository ships (with unassigned codepoints Cn and class 0, and ranges honoured). The case mapping functions are approximate by design: every uppercase letter (Lu) with a simple lowercase mapping is lowered to it and every lowercase letter (Ll) with a simple uppercase mapping is raised to it; another character that has such a mapping may be mapped or kept, and one without is kept.",
 I,'all 1,114,112 codepoints','No test checks categories; errors at range ends or of single entries pass every test.',
 ['src/categorize.py','src/charstr_unicode.c','unicode/UnicodeData.txt','unicode/DerivedNormalizationProps.txt'],[('table generators','src/*.py')])
p('C30','Canonical decomposition produces NFD',
 "Decomposing any valid UTF-8 string yields its Unicode NFD form (full recursive canonical decomposition, algorithmic Hangul, stable canonical ordering of marks), NUL-terminated, with the end returned. Malformed input gives NULL with EILSEQ and insufficient room NULL with EOVERFLOW, nothing is ever written outside the buffer, and a buffer of three times the input plus one always suffices.",
 I,'every string (any number and order of marks), end position and buffer size','Tests run the Unicode conformance strings into ample buffers; truncation at each buffer size, errors and long mark sequences are not covered.',
 ['src/charstr_decompose.c','include/charstr.h'],[('charstr_unicode_decompose, reordering','src/charstr_decompose.c')])
p('C31','Canonical recomposition produces NFC',
 "Recomposing any canonically decomposed string yields its Unicode NFC form (composition exclusions, blocking by combining class and Hangul composition respected), NUL-terminated, with the end returned, so that decomposing and recomposing normalises any string and is idempotent. Errors are reported as NULL with EILSEQ or EOVERFLOW and nothing is ever written outside the buffer.",
 I,'every canonically decomposed string (with up to 100 consecutive combining marks), end position and buffer size','Tests run the Unicode conformance strings into ample buffers.',
 ['src/charstr_recompose.c','include/charstr.h'],[('charstr_unicode_recompose','src/charstr_recompose.c')])
p('C32','Normal-form detection never gives a wrong positive',
 "The quick check returns 'disallowed', 'maybe' or 'allowed' exactly as UAX #15's quick-check algorithm over the shipped data does (quick-check flags and order of combining classes), and -1 only for malformed UTF-8; malformed input is never reported as allowed or maybe. If the NFC (NFD) check accepts a string, the string is well-formed and equals its NFC (NFD) form, and every ASCII string is accepted.",
 I,'every byte string and end position','Tests check the conformance strings in one direction.',
 ['src/charstr_unicode.c','include/charstr.h'],[('charstr_detect_unicode_normal_form','src/charstr_unicode.c')])
p('C33','IDNA status and mapping match the mapping table',
 "For every codepoint, exactly one IDNA status is reported, it is the one in the shipped IDNA mapping table, all status predicates agree with it, and the mapping is exactly the table's mapping (UTF-8 encoded) for codepoints that have a nonempty one and NULL otherwise.",
 I,'all 1,114,112 codepoints','The test samples a few codepoints.',
 ['src/gen_idna_table.c','idna/IdnaMappingTable.txt'],[('generated table','src/gen_idna_table.c')])
p('C34','IDNA hostname encoding is correct or refused',
 "An all-ASCII hostname is returned as a lower-cased copy. A hostname with other characters is normalised (NFC) and mapped by the shipped table, then either refused (NULL) or encoded as a pure-ASCII name in which every label with non-ASCII characters becomes 'xn--' plus its RFC 3492 Punycode and every other label is kept as mapped, with the separators (also a trailing one). It is refused exactly if it is malformed UTF-8, has a disallowed character (which includes ASCII other than letters, digits and hyphens), a label that is empty, encodes to more than 63 characters, begins or ends with a hyphen or (non-ASCII label) begins with a spacing combining mark, or encodes to more than 253 characters not counting a trailing separator. Open: labels beginning with a nonspacing or enclosing mark, and names whose mapped form is not in NFC, may be refused or encoded.",
 I,'every hostname','Tests encode a few dozen names.',
 ['src/charstr_puny.c','include/charstr.h'],[('charstr_idna_encode, punycode_encode, adapt','src/charstr_puny.c')])
p('C35','Formatted allocation is exactly sized',
 "Allocating formatted printing returns a fresh NUL-terminated string holding exactly what the C formatter produces, whatever its length, with a block large enough for it; if the formatter reports an error, NULL is returned with EILSEQ and nothing is leaked.",
 ['inputs','fault_sequences'],'every formatted length and formatter outcome','The test formats one short string.',
 ['src/charstr.c','include/charstr.h'],[('charstr_vprintf/charstr_printf','src/charstr.c')])
p('C36','Every operation balances its memory',
 "For every container and every string function, after any history in which the caller frees what it owns and destroys what it made, every block obtained from the reallocator has been returned exactly once: no leak, double free, or access to freed or out-of-bounds memory, on success and error paths alike.",
 H,'every history and input, on success and failure paths','Tests do not check for leaks, and reach few error paths.',
 ['src/*.c'],[('ownership conventions','include/*.h')])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P:
    assert len(x['title'])<=80
    print(x['id'],x['title'], x['statement'].count('. ')+1)
