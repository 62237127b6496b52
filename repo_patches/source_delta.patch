From 47a64c55e09b4e6210573238aa72a6e0e517973b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:55 +0000
Subject: [PATCH 01/17] fix: restore missing comma in the Base64 decoding table

Byte 0x7f was classified as whitespace and byte 0xff decoded as 'A'.
---
 src/base64.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base64.c b/src/base64.c
index c93d3e2..eb07454 100644
--- a/src/base64.c
+++ b/src/base64.c
@@ -24,7 +24,7 @@ const int8_t base64_bitfield_decoding[256] = {
     -1,  0,  1,  2,  3,  4,  5,  6,  7,  8,  9, 10, 11, 12, 13, 14,
     15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, -1, -1, -1, -1, -1,
     -1, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40,
-    41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, -1, -1, -1, -1, -1
+    41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, -1, -1, -1, -1, -1,
     -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
     -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
     -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
-- 
2.43.0


From 4ad27747ffc41e13029e5728a72a0bf90bbb3d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:55 +0000
Subject: [PATCH 02/17] fix: classify LF, FF and CR at their actual character
 codes

Backspace and VT were treated as whitespace; FF and CR were not.
---
 src/charstr.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/charstr.c b/src/charstr.c
index 8033007..748aac4 100644
--- a/src/charstr.c
+++ b/src/charstr.c
@@ -119,12 +119,12 @@ static const uint64_t char_class[256] = {
     CHARSTR_CONTROL,                                             /* '\005' */
     CHARSTR_CONTROL,                                             /* '\006' */
     CHARSTR_CONTROL,                                             /* '\007' */
-    CHARSTR_CONTROL | CHARSTR_LF,                                /* '\n' */
+    CHARSTR_CONTROL,                                             /* '\010' */
     CHARSTR_CONTROL | CHARSTR_HT,                                /* '\t' */
+    CHARSTR_CONTROL | CHARSTR_LF,                                /* '\n' */
+    CHARSTR_CONTROL,                                             /* '\013' */
     CHARSTR_CONTROL | CHARSTR_FF,                                /* '\f' */
     CHARSTR_CONTROL | CHARSTR_CR,                                /* '\r' */
-    CHARSTR_CONTROL,                                             /* '\014' */
-    CHARSTR_CONTROL,                                             /* '\015' */
     CHARSTR_CONTROL,                                             /* '\016' */
     CHARSTR_CONTROL,                                             /* '\017' */
     CHARSTR_CONTROL,                                             /* '\020' */
-- 
2.43.0


From 5365eea33fc94af2a34340befb997a2b256c9cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:43 +0000
Subject: [PATCH 03/17] fix: reject overlong UTF-8 encodings

Overlong sequences such as C0 80 are illegal UTF-8 but were decoded.
---
 src/charstr.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/charstr.c b/src/charstr.c
index 748aac4..52ee20d 100644
--- a/src/charstr.c
+++ b/src/charstr.c
@@ -457,7 +457,7 @@ static bool valid_unicode(int codepoint)
 const char *charstr_decode_utf8_codepoint(const char *s, const char *end,
                                           int *codepoint)
 {
-    int cp;
+    int cp, min_cp;
     if (!s || s == end)
         return NULL;
     if (!(*s & 0x80))
@@ -465,15 +465,18 @@ const char *charstr_decode_utf8_codepoint(const char *s, const char *end,
     else if (!(*s & 0x40))
         return NULL;
     else {
-        if (!(*s & 0x20))
+        if (!(*s & 0x20)) {
             cp = *s++ & 0x1f;
-        else {
-            if (!(*s & 0x10))
+            min_cp = 0x80;
+        } else {
+            if (!(*s & 0x10)) {
                 cp = *s++ & 0x0f;
-            else {
+                min_cp = 0x800;
+            } else {
                 if (*s & 0x08)
                     return NULL;
                 cp = *s++ & 0x07;
+                min_cp = 0x10000;
                 if (s == end || (*s & 0xc0) != 0x80)
                     return NULL;
                 cp = cp << 6 | *s++ & 0x3f;
@@ -485,7 +488,7 @@ const char *charstr_decode_utf8_codepoint(const char *s, const char *end,
         if (s == end || (*s & 0xc0) != 0x80)
             return NULL;
         cp = cp << 6 | *s++ & 0x3f;
-        if (!valid_unicode(cp))
+        if (cp < min_cp || !valid_unicode(cp))
             return NULL;
     }
     if (codepoint)
-- 
2.43.0


From a300c2c0a4db3082f4d5e97aaa69694737306e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:43 +0000
Subject: [PATCH 04/17] fix: report overflow when a Hangul decomposition does
 not fit

When the jamos did not fit in the output buffer, the undecomposed
syllable was emitted instead and the call succeeded.
---
 src/charstr_decompose.c | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/charstr_decompose.c b/src/charstr_decompose.c
index bbd8e5b..2dc3e08 100644
--- a/src/charstr_decompose.c
+++ b/src/charstr_decompose.c
@@ -18,7 +18,7 @@ static char *decompose_hangul(int codepoint, char *s, const char *end)
     };
     int i = codepoint - S_BASE;
     if (i < 0 || i >= S_COUNT)
-        return NULL;
+        return charstr_encode_utf8_codepoint(codepoint, s, end);
     s = charstr_encode_utf8_codepoint(L_BASE + i / N_COUNT, s, end);
     s = charstr_encode_utf8_codepoint(V_BASE + i % N_COUNT / T_COUNT, s, end);
     if (i % T_COUNT)
@@ -30,12 +30,8 @@ static char *decompose_fully(int codepoint, char *s, const char *end)
 {
     extern const int *_charstr_unicode_decomposition(int codepoint);
     const int *dp = _charstr_unicode_decomposition(codepoint);
-    if (!dp) {
-        char *hangul_end = decompose_hangul(codepoint, s, end);
-        if (hangul_end)
-            return hangul_end;
-        return charstr_encode_utf8_codepoint(codepoint, s, end);
-    }
+    if (!dp)
+        return decompose_hangul(codepoint, s, end);
     while (s && *dp)
         s = decompose_fully(*dp++, s, end);
     return s;
-- 
2.43.0


From 605ee688bd7d5f705216c222130d97698aea9d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:43 +0000
Subject: [PATCH 05/17] fix: let the IDNA decomposition use the byte reserved
 for NUL

A hostname whose decomposition is exactly three times as long (U+1D160)
was rejected.
---
 src/charstr_puny.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/charstr_puny.c b/src/charstr_puny.c
index d73fee0..c25dd46 100644
--- a/src/charstr_puny.c
+++ b/src/charstr_puny.c
@@ -278,7 +278,7 @@ char *charstr_idna_encode(const char *hostname)
     size_t worklen = 3 * length; /* should be enough for decomposing */
     char *workarea = fsalloc(worklen + 1);
     char *workend = workarea + worklen;
-    workend = charstr_unicode_decompose(hostname, end, workarea, workend);
+    workend = charstr_unicode_decompose(hostname, end, workarea, workend + 1);
     if (!workend) {
         fsfree(workarea);
         return fail("failed to decompose");
-- 
2.43.0


From 4d53d84e66197e38c455226623ade29af423cac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:43 +0000
Subject: [PATCH 06/17] fix: reject overlong ASCII labels in
 charstr_idna_encode()

An ASCII label of more than 63 characters next to a non-ASCII label
tripped an assertion and aborted the program.
---
 src/charstr_puny.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/charstr_puny.c b/src/charstr_puny.c
index c25dd46..114d6b4 100644
--- a/src/charstr_puny.c
+++ b/src/charstr_puny.c
@@ -167,8 +167,11 @@ static const char *punycode_encode(const char *input, const char *end,
     }
     for (size_t i = 0; i < ascii_count; i++)
         o = emit(o, end_output, output_size, ascii[i]);
-    if (!nonascii_count)
+    if (!nonascii_count) {
+        if (*output_size > MAX_DNS_LABEL_LENGTH)
+            return fail("label too long");
         return next;
+    }
     if (ascii_count)
         o = emit(o, end_output, output_size, '-');
     o = punycode_encode_pass2(input, end, o, end_output, output_size,
-- 
2.43.0


From 7840e8f8aa027c5d248a1a57a93b636d7f381da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:43 +0000
Subject: [PATCH 07/17] fix: include the last codepoint of each IDNA status set

U+2FA1D (mapped), U+3134A (valid) and U+10FFFE..U+10FFFF (disallowed)
had no IDNA status.
---
 src/gen_idna_table.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gen_idna_table.c b/src/gen_idna_table.c
index 8793f92..6cfdd3d 100644
--- a/src/gen_idna_table.c
+++ b/src/gen_idna_table.c
@@ -23,8 +23,8 @@ static void generate_test(const char *status)
            "{\n",
            status);
     int prev_cp = -1;
-    for (int cp = 0; cp < N_CP; cp++) {
-        if (strcmp(table[cp].status, status)) {
+    for (int cp = 0; cp <= N_CP; cp++) {
+        if (cp == N_CP || strcmp(table[cp].status, status)) {
             if (prev_cp >= 0) {
                 printf("    if (codepoint < %d) return codepoint >= %d;\n",
                        cp, prev_cp);
@@ -43,12 +43,12 @@ static void generate_set(const char *status)
     for (int cp = 0; cp < N_CP; cp++)
         if (!strcmp(table[cp].status, status))
             max_on = cp;
-    int set_size = (max_on + 63) / 64;
+    int set_size = max_on / 64 + 1;
     printf("\n"
            "static const uint64_t set_%s[%d] = {",
            status, set_size);
     uint64_t *set = fscalloc(set_size, sizeof set[0]);
-    for (int cp = 0; cp < max_on; cp++)
+    for (int cp = 0; cp <= max_on; cp++)
         if (!strcmp(table[cp].status, status))
             set[cp / 64] |= (uint64_t) 1 << cp % 64;
     for (int i = 0; i < set_size - 1; i++) {
-- 
2.43.0


From f9ecc540e91f54bed86a76d50d79f7cfa1053e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:43 +0000
Subject: [PATCH 08/17] fix: do not extend one-codepoint categories over
 unassigned codepoints

An unassigned codepoint before a one-codepoint range, such as U+038B,
was given the category of that range instead of Cn.
---
 src/categorize.py | 22 +++++-----------------
 1 file changed, 5 insertions(+), 17 deletions(-)

diff --git a/src/categorize.py b/src/categorize.py
index dd3e684..3acee11 100755
--- a/src/categorize.py
+++ b/src/categorize.py
@@ -53,14 +53,8 @@ def emit_binary(ranges, indentation):
     I = indentation * "    "
     if length < 5:
         for start, end, category in ranges:
-            if end == start + 1:
-                sys.stdout.write(
-                    r"""%sif (codepoint < %d)
-%s    return UNICODE_CATEGORY_%s;
-""" % (I, end, I, category))
-            else:
-                sys.stdout.write(
-                    r"""%sif (codepoint < %d)
+            sys.stdout.write(
+                r"""%sif (codepoint < %d)
 %s    return codepoint >= %d ? UNICODE_CATEGORY_%s : UNICODE_CATEGORY_Cn;
 """ % (I, end, I, start, category))
         return
@@ -70,15 +64,9 @@ def emit_binary(ranges, indentation):
         r"""%sif (codepoint < %d) {
 """ % (I, end))
     emit_binary(ranges[0:middle], indentation + 1)
-    if end == start + 1:
-        sys.stdout.write(
-            r"""%s    return UNICODE_CATEGORY_%s;
-%s}
-""" % (I, category, I))
-    else:
-        sys.stdout.write(
-                    r"""%s    return codepoint >= %d """
-                    r"""? UNICODE_CATEGORY_%s : UNICODE_CATEGORY_Cn;
+    sys.stdout.write(
+                r"""%s    return codepoint >= %d """
+                r"""? UNICODE_CATEGORY_%s : UNICODE_CATEGORY_Cn;
 %s}
 """ % (I, start, category, I))
     emit_binary(ranges[middle + 1:], indentation)
-- 
2.43.0


From e07b090ba763cb69e592c64af067a79aebe322e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:43 +0000
Subject: [PATCH 09/17] fix: make epoch_to_utc() correct before 1970

Negative epoch values produced negative clock fields and, before 1600,
out-of-bounds table accesses.
---
 src/date.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/date.c b/src/date.c
index 633b10b..2b83830 100644
--- a/src/date.c
+++ b/src/date.c
@@ -20,18 +20,28 @@ struct tm *epoch_to_utc(time_t epoch, struct tm *tm)
         _4_YEARS = 4 * YEAR + 1,
         FEBRUARY = 1            /* sic */
     };
+    int days = epoch / SECONDS_PER_DAY;
     tm->tm_sec = epoch % SECONDS_PER_DAY;
+    if (tm->tm_sec < 0) {
+        tm->tm_sec += SECONDS_PER_DAY;
+        days--;
+    }
     tm->tm_min = tm->tm_sec / 60;
     tm->tm_sec %= 60;
     tm->tm_hour = tm->tm_min / 60;
     tm->tm_min %= 60;
     tm->tm_yday = -1;           /* not supported */
     tm->tm_isdst = 0;
-    int days = epoch / SECONDS_PER_DAY;
     tm->tm_wday = (days + 4) % 7;
+    if (tm->tm_wday < 0)
+        tm->tm_wday += 7;
     days += FROM_1600_03_01;
     tm->tm_year = 1600 + days / _400_YEARS * 400 - 1900;
     days %= _400_YEARS;
+    if (days < 0) {
+        days += _400_YEARS;
+        tm->tm_year -= 400;
+    }
     int centuries = days / CENTURY;
     tm->tm_year += centuries * 100;
     if (centuries == 4) {
-- 
2.43.0


From 4e118f95a294ae76f5fd5094f87830e1b1ac43a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:43 +0000
Subject: [PATCH 10/17] fix: make avl_tree_put() a no-op if the value is
 already stored

The header documents that nothing happens and NULL is returned when
value is already stored at key; the element was replaced instead.
---
 src/avltree.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/avltree.c b/src/avltree.c
index c2c4489..fc8af3d 100644
--- a/src/avltree.c
+++ b/src/avltree.c
@@ -316,8 +316,10 @@ static int put(avl_tree_t *tree, avl_elem_t **ploc, avl_elem_t *element,
         return put_left(tree, ploc, element, premoved_element);
     if (cmp > 0)
         return put_right(tree, ploc, element, premoved_element);
-    if (loc == element)
+    if (loc->value == element->value) {
+        destroy_avl_element(element);
         return 0;
+    }
     element->parent = loc->parent;
     element->left = loc->left;
     element->right = loc->right;
-- 
2.43.0


From dada961cf04a4b73fc51e1da2758dbbacdf91a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:43 +0000
Subject: [PATCH 11/17] fix: detect multiplication overflow in fscalloc()

A too small block was returned if nmemb * size did not fit in size_t.
---
 src/fsalloc.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fsalloc.c b/src/fsalloc.c
index 76bd6bf..d439bd0 100644
--- a/src/fsalloc.c
+++ b/src/fsalloc.c
@@ -69,7 +69,9 @@ void *fsrealloc(void *ptr, size_t size)
 
 void *fscalloc(size_t nmemb, size_t size)
 {
-    size *= nmemb;
+    if (nmemb && size > (size_t) -1 / nmemb)
+        size = -1;              /* overflow; cannot be satisfied */
+    else size *= nmemb;
     void *obj = fsalloc(size);
     if (obj != NULL)
         memset(obj, 0, size);
-- 
2.43.0


From e43c1a68a272212082fd0c85635c28a3e013ea02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:43 +0000
Subject: [PATCH 12/17] fix: keep the byte array NUL-terminated when reading
 fails

A read callback that fills the buffer but returns an error (or 0)
overwrote the terminator.
---
 src/bytearray.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/bytearray.c b/src/bytearray.c
index 8e2e34c..20bd6e8 100644
--- a/src/bytearray.c
+++ b/src/bytearray.c
@@ -127,10 +127,9 @@ ssize_t byte_array_append_stream(byte_array_t *array,
         return -1;
 
     ssize_t count = read_cb(obj, array->data + array->cursor, len);
-    if (count > 0) {
+    if (count > 0)
         array->cursor += count;
-        array->data[array->cursor] = 0;
-    }
+    array->data[array->cursor] = 0;
     return count;
 }
 
-- 
2.43.0


From c23dbe943db4f51f0e5e688e5f9361294a774cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:43 +0000
Subject: [PATCH 13/17] fix: reserve room for the terminator even if max_size
 is zero

make_byte_array(0) wrote the terminator past a zero-sized block.
---
 src/bytearray.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bytearray.c b/src/bytearray.c
index 20bd6e8..88329d0 100644
--- a/src/bytearray.c
+++ b/src/bytearray.c
@@ -20,7 +20,7 @@ byte_array_t *make_byte_array(size_t max_size)
     array->max_size = max_size;
     array->size = 128;
     if (array->size > max_size)
-        array->size = max_size;
+        array->size = max_size ? max_size : 1;
     array->data = fsalloc(array->size);
     array->data[0] = 0;
     array->ref_count = 1;
-- 
2.43.0


From 47cf553fe2391ef0506f8b9d816095a9d1f17738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:15 +0000
Subject: [PATCH 14/17] fix: ignore whitespace between Base64 padding
 characters

---
 src/base64.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/base64.c b/src/base64.c
index eb07454..496306d 100644
--- a/src/base64.c
+++ b/src/base64.c
@@ -162,11 +162,19 @@ static bool good_base64_tail(const char *tail, size_t tail_size,
         default:
             assert(false);
     }
-    size_t padding_len = strlen(padding);
-    return tail_size >= padding_len &&
-        !strncmp(tail, padding, padding_len) &&
-        good_termination(tail + padding_len, tail_size - padding_len,
-                         ignore_wsp);
+    for (; *padding; padding++) {
+        if (ignore_wsp)
+            while (tail_size && base64_bitfield_decoding[*tail & 0xff] ==
+                                    BASE64_ILLEGAL_WHITESPACE) {
+                tail++;
+                tail_size--;
+            }
+        if (!tail_size || *tail != *padding)
+            return false;
+        tail++;
+        tail_size--;
+    }
+    return good_termination(tail, tail_size, ignore_wsp);
 }
 
 static int8_t get_bits(char c, char pos62, char pos63, bool ignore_wsp)
-- 
2.43.0


From 12c8cabce3f7a1c342d9fb6daffdc6515c7a8f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:05 +0000
Subject: [PATCH 15/17] fix: accept IDNA names of the maximum length

output_size already counts the separator after the last label, so
subtracting one more refused names of 253 characters.
---
 src/charstr_puny.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/charstr_puny.c b/src/charstr_puny.c
index 114d6b4..5804e62 100644
--- a/src/charstr_puny.c
+++ b/src/charstr_puny.c
@@ -204,7 +204,7 @@ static char *encode_filtered(const char *hostname, const char *end)
             return NULL;
         assert(output_label_size <= MAX_DNS_LABEL_LENGTH);
         output_size += output_label_size + 1;
-        if (output_size > MAX_DNS_NAME_LENGTH - 1) /* -1 for the final '.' */
+        if (output_size > MAX_DNS_NAME_LENGTH) /* counts the final '.' */
             return fail("hostname encoding too long");
         q += output_label_size;
         *q++ = '.';
-- 
2.43.0


From 66f18016f02bd5585497653dda23974167bb6538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:05 +0000
Subject: [PATCH 16/17] fix: do not refuse IDNA names by their unencoded length

Punycode can be shorter than UTF-8, so a name longer than 254 bytes may
well have a valid encoding.
---
 src/charstr_puny.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/charstr_puny.c b/src/charstr_puny.c
index 5804e62..90e5b05 100644
--- a/src/charstr_puny.c
+++ b/src/charstr_puny.c
@@ -191,8 +191,6 @@ static bool is_all_ascii(const char *s)
 
 static char *encode_filtered(const char *hostname, const char *end)
 {
-    if (end - hostname > MAX_DNS_NAME_LENGTH) /* encoding won't shorten it */
-        return fail("hostname too long");
     const char *p = hostname;
     size_t output_size = 0;
     char encoding[MAX_DNS_NAME_LENGTH + 1];
@@ -227,9 +225,11 @@ static char *safecopy(const char *src, char *dest, char *end)
 static char *encode_nfc(const char *hostname, const char *end)
 {
     const char *p = hostname;
-    char workarea[MAX_DNS_NAME_LENGTH + 1];
+    /* every codepoint takes at most 4 bytes here and at least one byte
+     * in the encoding */
+    char workarea[4 * MAX_DNS_NAME_LENGTH + 1];
     char *q = workarea;
-    char *workend = workarea + MAX_DNS_NAME_LENGTH;
+    char *workend = workarea + 4 * MAX_DNS_NAME_LENGTH;
     while (p != end) {
         int codepoint;
         p = charstr_decode_utf8_codepoint(p, end, &codepoint);
-- 
2.43.0


From 91ec7dd02214a684b0e4e5ed0866f4c84c6fb764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:55 +0000
Subject: [PATCH 17/17] fix: apply the IDNA label checks to every label

Empty labels and labels ending with a hyphen were only refused at the
end of the name.
---
 src/charstr_puny.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/charstr_puny.c b/src/charstr_puny.c
index 90e5b05..58faef3 100644
--- a/src/charstr_puny.c
+++ b/src/charstr_puny.c
@@ -54,12 +54,10 @@ static const char *punycode_encode_pass1(const char *p, const char *end,
                                          int nonascii[],
                                          size_t *nonascii_count)
 {
-    if (p == end)
+    if (p == end || *p == '.')
         return fail("label is empty");
     if (p[0] == '-')
         return fail("label begins with hyphen");
-    if (end[-1] == '-')
-        return fail("label ends with hyphen");
     bool first = true;
     size_t n, h = 0;
     *nonascii_count = 0;
@@ -79,6 +77,8 @@ static const char *punycode_encode_pass1(const char *p, const char *end,
         else record_nonascii(codepoint, nonascii, nonascii_count);
         first = false;
     }
+    if (p[-1] == '-')
+        return fail("label ends with hyphen");
     *pc_count = n;
     *ascii_count = h;
     return p;
-- 
2.43.0

