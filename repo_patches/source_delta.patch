From 28cc4c2603a9e769b2eecc224486ab20bf50d1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:27 +0000
Subject: [PATCH 01/77] fix: encode and decode both bits of the ASN.1
 identifier class

---
 src/asn1.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index 1718860..b003368 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -172,7 +172,7 @@ int crefl_asn1_ber_ident_read(crefl_buf *buf, asn1_id *_id)
         goto err;
     }
 
-    _id->_class =       (b >> 6) & 0x02;
+    _id->_class =       (b >> 6) & 0x03;
     _id->_constructed = (b >> 5) & 0x01;
     _id->_identifier =   b       & 0x1f;
 
@@ -196,7 +196,7 @@ int crefl_asn1_ber_ident_write(crefl_buf *buf, asn1_id _id)
 {
     int8_t b;
 
-    b = ( (u8)(_id._class       & 0x02) << 6 ) |
+    b = ( (u8)(_id._class       & 0x03) << 6 ) |
         ( (u8)(_id._constructed & 0x01) << 5 ) |
         ( (u8)(_id._identifier < 0x1f ? _id._identifier : 0x1f) );
 
-- 
2.43.0


From b16540deb5bc069474f91864703add877a859027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:27 +0000
Subject: [PATCH 02/77] fix: reject ASN.1 high tag numbers that do not end
 within 56 bits

---
 src/asn1.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index b003368..7f4ebc5 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -114,7 +114,7 @@ int crefl_asn1_ber_tag_read(crefl_buf *buf, u64 *tag)
         w += 7;
     } while ((b & 0x80) && w < 56);
 
-    if (w > 56) {
+    if (b & 0x80) {
         goto err;
     }
 
-- 
2.43.0


From f6f33b4ab52704a947b0fc08d1f971f7861cfd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:34 +0000
Subject: [PATCH 03/77] fix: reject zero-length integers and sign-extend
 without signed overflow

---
 src/asn1.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index 7f4ebc5..868a1e1 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -378,7 +378,7 @@ int crefl_asn1_ber_integer_u64_read(crefl_buf *buf, size_t len, u64 *value)
     u64 v = 0, o = 0;
     size_t shift = (64 - len * 8);
 
-    if (len > 8) {
+    if (len < 1 || len > 8) {
         goto err;
     }
     if (crefl_buf_read_bytes(buf, (char*)&o, len) != len) {
@@ -403,7 +403,7 @@ u64_result crefl_asn1_ber_integer_u64_read_byval(crefl_buf *buf, size_t len)
     u64 v = 0, o = 0;
     size_t shift = (64 - len * 8);
 
-    if (len > 8) {
+    if (len < 1 || len > 8) {
         return { 0, -1 };
     }
     if (crefl_buf_read_bytes(buf, (char*)&o, len) != len) {
@@ -483,7 +483,7 @@ int crefl_le_ber_integer_u64_read(crefl_buf *buf, size_t len, u64 *value)
 {
     u64 v = 0, o = 0;
 
-    if (len > 8) {
+    if (len < 1 || len > 8) {
         goto err;
     }
 
@@ -510,7 +510,7 @@ u64_result crefl_le_ber_integer_u64_read_byval(crefl_buf *buf, size_t len)
 {
     u64 v = 0, o = 0;
 
-    if (len > 8) {
+    if (len < 1 || len > 8) {
         return u64_result { 0, -1 };
     }
 
@@ -585,7 +585,7 @@ size_t crefl_asn1_ber_integer_s64_length_byval(const s64 value)
     return v == 0 ? 1 : 8 - ((clz(v < 0 ? ~v : v)-1) / 8);
 }
 
-static s64 _sign_extend_s64(s64 x, size_t y) { return ((s64)(x << y)) >> y; }
+static s64 _sign_extend_s64(s64 x, size_t y) { return ((s64)((u64)x << y)) >> y; }
 
 int crefl_asn1_ber_integer_s64_read(crefl_buf *buf, size_t len, s64 *value)
 {
-- 
2.43.0


From 938a73804d0c0efd30694d86d354978effcf6eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:34 +0000
Subject: [PATCH 04/77] fix: reject booleans whose content length is not one

---
 src/asn1.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index 868a1e1..09aa5a1 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -313,7 +313,7 @@ int crefl_asn1_ber_boolean_read(crefl_buf *buf, size_t len, bool *value)
 {
     int8_t b;
 
-    if (crefl_buf_read_i8(buf, &b) != 1) {
+    if (len != 1 || crefl_buf_read_i8(buf, &b) != 1) {
         goto err;
     }
 
-- 
2.43.0


From b67e2614a535c9787d64e168afdd218fa4d71730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:34 +0000
Subject: [PATCH 05/77] fix: define the by-value signed integer functions that
 the header declares

---
 include/crefl/asn1.h | 2 +-
 src/asn1.cc          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/crefl/asn1.h b/include/crefl/asn1.h
index 4c806e4..50689e2 100644
--- a/include/crefl/asn1.h
+++ b/include/crefl/asn1.h
@@ -208,7 +208,7 @@ size_t crefl_le_ber_integer_s64_length(const s64 *value);
 int crefl_le_ber_integer_s64_read(crefl_buf *buf, size_t len, s64 *value);
 int crefl_le_ber_integer_s64_write(crefl_buf *buf, size_t len, const s64 *value);
 
-size_t crefl_le_ber_integer_s64_length_byval(const s64 *value);
+size_t crefl_le_ber_integer_s64_length_byval(const s64 value);
 struct s64_result crefl_le_ber_integer_s64_read_byval(crefl_buf *buf, size_t len);
 int crefl_le_ber_integer_s64_write_byval(crefl_buf *buf, size_t len, const s64 value);
 
diff --git a/src/asn1.cc b/src/asn1.cc
index 09aa5a1..2375128 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -703,7 +703,7 @@ int crefl_asn1_der_integer_s64_read(crefl_buf *buf, asn1_tag _tag, s64 *value)
     return crefl_asn1_ber_integer_s64_read(buf, hdr._length, value);
 }
 
-s64_result crefl_asn1_der_integer_s64_read_byval(crefl_buf *buf, asn1_tag _tag, s64 *value)
+s64_result crefl_asn1_der_integer_s64_read_byval(crefl_buf *buf, asn1_tag _tag)
 {
     asn1_hdr hdr;
     if (crefl_asn1_ber_ident_read(buf, &hdr._id) < 0) return s64_result { 0, -1 };
-- 
2.43.0


From ec039fbabd7ccbdfe39906b1a17a9647b16ccf91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:34 +0000
Subject: [PATCH 06/77] fix: reject LEB128 integers that do not end within 56
 bits

---
 src/asn1.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index 2375128..e1264b8 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -2231,7 +2231,7 @@ int crefl_leb_u64_read(crefl_buf *buf, u64 *value)
         w += 7;
     } while ((b & 0x80) && w < 56);
 
-    if (w > 56) {
+    if (b & 0x80) {
         goto err;
     }
 
@@ -2256,7 +2256,7 @@ u64_result crefl_leb_u64_read_byval(crefl_buf *buf)
         w += 7;
     } while ((b & 0x80) && w < 56);
 
-    if (w > 56) {
+    if (b & 0x80) {
         return u64_result { 0, -1 };
     }
 
-- 
2.43.0


From 9d211b470993ff3af16fdaaf704b9793e00426d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:34 +0000
Subject: [PATCH 07/77] fix: reject octet strings longer than the rest of the
 buffer

---
 src/asn1.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index e1264b8..7617de2 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -2587,7 +2587,7 @@ int crefl_asn1_ber_octets_read(crefl_buf *buf, size_t len, asn1_string *obj)
     size_t copy_count = len > obj->count ? obj->count : len;
 
     crefl_span span = crefl_buf_remaining(buf);
-    if (span.length < copy_count) {
+    if (span.length < len) {
         return -1;
     }
 
@@ -2605,7 +2605,7 @@ int crefl_asn1_ber_octets_write(crefl_buf *buf, size_t len, const asn1_string *o
     size_t copy_count = len > obj->count ? obj->count : len;
 
     crefl_span span = crefl_buf_remaining(buf);
-    if (span.length < copy_count) {
+    if (span.length < len) {
         return -1;
     }
 
-- 
2.43.0


From 659b5dc93483e31ea496ab6ee43b0788b49f5d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:04 +0000
Subject: [PATCH 08/77] fix: split the first OID subidentifier as X.690 says
 and check OID bounds

---
 src/asn1.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index 7617de2..6c376f9 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -2446,18 +2446,18 @@ int crefl_asn1_ber_oid_read(crefl_buf *buf, size_t len, asn1_oid *obj)
         /*
          * 8.19.4 rule where first two components are combined -> (X*40) + Y
          */
-        if (n == 0 && comp > 40) {
-            if (n < limit) obj->oid[n] = comp/40;
-            n++;
-            if (n < limit) obj->oid[n] = comp%40;
-            n++;
+        if (n == 0) {
+            u64 root = comp < 80 ? comp/40 : 2;
+            obj->oid[n++] = root;
+            obj->oid[n++] = comp - root*40;
         }
         else {
-            if (n < limit) obj->oid[n] = comp;
-            n++;
+            if (n == limit) goto err;
+            obj->oid[n++] = comp;
         }
         offset = crefl_buf_offset(buf);
     }
+    if ((offset - start) != len) goto err;
     obj->count = n;
     return 0;
 err:
-- 
2.43.0


From 7a4a04d6d7ef9a038ceedd71ca9bd931b8487922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:04 +0000
Subject: [PATCH 09/77] fix: do not read past the component array of an
 oversized OID

---
 src/asn1.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index 6c376f9..aee1a58 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -2421,11 +2421,13 @@ int crefl_vlu_u64_write_byval(crefl_buf *buf, const u64 value)
 size_t crefl_asn1_ber_oid_length(const asn1_oid *obj)
 {
     size_t length = 0;
-    for (size_t i = 0; i < obj->count; i++) {
+    size_t count = obj->count > asn1_oid_comp_max ?
+        asn1_oid_comp_max : obj->count;
+    for (size_t i = 0; i < count; i++) {
         /*
          * 8.19.4 rule where first two components are combined -> (X*40) + Y
          */
-        if (i == 0 && obj->count > 1) {
+        if (i == 0 && count > 1) {
             length = crefl_asn1_ber_tag_length(obj->oid[0] * 40 + obj->oid[1]);
             i++;
         } else {
@@ -2467,6 +2469,8 @@ err:
 
 int crefl_asn1_ber_oid_write(crefl_buf *buf, size_t len, const asn1_oid *obj)
 {
+    if (obj->count > asn1_oid_comp_max) goto err;
+
     for (size_t i = 0; i < obj->count; i++) {
         /*
          * 8.19.4 rule where first two components are combined -> (X*40) + Y
-- 
2.43.0


From ef1761419405e54d4ef20886c0c654d4597f066c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:04 +0000
Subject: [PATCH 10/77] fix: keep OID to string conversion inside a short
 buffer

---
 src/asn1.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index aee1a58..54fbc89 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -2518,8 +2518,8 @@ int crefl_asn1_oid_to_string(char *str, size_t *buflen, const asn1_oid *obj)
         asn1_oid_comp_max : obj->count;
     for (size_t i = 0; i < count; i ++) {
         int ret = snprintf(
-            (limit ? str + offset : NULL),
-            (limit ? limit - offset : 0),
+            (offset < limit ? str + offset : NULL),
+            (offset < limit ? limit - offset : 0),
             (i == 0 ? "%lld" : ".%lld"),
             obj->oid[i]
         );
-- 
2.43.0


From 40bf80a8ee52cc80bfdbfa7505dfb40bb888d5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:04 +0000
Subject: [PATCH 11/77] fix: accept zero arcs and reject too many arcs in OID
 strings

---
 src/asn1.cc | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index 54fbc89..d5787de 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -2536,21 +2536,22 @@ int crefl_asn1_oid_from_string(asn1_oid *obj, const char *str, size_t buflen)
     for (size_t i = 0; i <= buflen; i++) {
         if (i != last && ((i < buflen && str[i] == '.') || i == buflen)) {
             size_t comp_len = i - last + 1;
-            if (comp < asn1_oid_comp_max) {
-                obj->oid[comp] = comp_num;
+            if (comp == asn1_oid_comp_max) {
+                goto err;
             }
+            obj->oid[comp] = comp_num;
             comp++;
             comp_num = 0;
             last = i + 1;
-        } else if (isdigit(str[i])) {
+        } else if (i == buflen) {
+            //
+        } else if (isdigit((unsigned char)str[i])) {
             u64 num = comp_num * 10 + (int)str[i] - '0';
-            if (num > comp_num && num < (1ull << 56)) {
+            if (num < (1ull << 56)) {
                 comp_num = num;
             } else {
                 goto err;
             }
-        } else if (i == buflen) {
-            //
         } else {
             goto err;
         }
-- 
2.43.0


From 611ed7713222ec7d25885caace577ed2b54f0333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:04 +0000
Subject: [PATCH 12/77] fix: reject DER elements with another tag than the one
 expected

---
 src/asn1.cc | 43 +++++++++++++++++++++++--------------------
 1 file changed, 23 insertions(+), 20 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index d5787de..399b130 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -298,6 +298,19 @@ err:
     return -1;
 }
 
+/*
+ * read the header of a primitive with the expected universal tag whose
+ * contents fit in the remainder of the buffer
+ */
+static int crefl_asn1_der_hdr_read(crefl_buf *buf, asn1_tag _tag, asn1_hdr *hdr)
+{
+    if (crefl_asn1_ber_ident_read(buf, &hdr->_id) < 0) return -1;
+    if (crefl_asn1_ber_length_read(buf, &hdr->_length) < 0) return -1;
+    if (hdr->_id._identifier != (u64)_tag || hdr->_id._constructed ||
+        hdr->_id._class != asn1_class_universal) return -1;
+    return crefl_buf_remaining(buf).length < hdr->_length ? -1 : 0;
+}
+
 /*
  * ISO/IEC 8825-1:2003 8.2 boolean
  *
@@ -341,8 +354,7 @@ err:
 int crefl_asn1_der_boolean_read(crefl_buf *buf, asn1_tag _tag, bool *value)
 {
     asn1_hdr hdr;
-    if (crefl_asn1_ber_ident_read(buf, &hdr._id) < 0) return -1;
-    if (crefl_asn1_ber_length_read(buf, &hdr._length) < 0) return -1;
+    if (crefl_asn1_der_hdr_read(buf, _tag, &hdr) < 0) return -1;
     return crefl_asn1_ber_boolean_read(buf, hdr._length, value);
 }
 
@@ -660,16 +672,14 @@ int crefl_le_ber_integer_s64_write_byval(crefl_buf *buf, size_t len, const s64 v
 int crefl_asn1_der_integer_u64_read(crefl_buf *buf, asn1_tag _tag, u64 *value)
 {
     asn1_hdr hdr;
-    if (crefl_asn1_ber_ident_read(buf, &hdr._id) < 0) return -1;
-    if (crefl_asn1_ber_length_read(buf, &hdr._length) < 0) return -1;
+    if (crefl_asn1_der_hdr_read(buf, _tag, &hdr) < 0) return -1;
     return crefl_asn1_ber_integer_u64_read(buf, hdr._length, value);
 }
 
 u64_result crefl_asn1_der_integer_u64_read_byval(crefl_buf *buf, asn1_tag _tag)
 {
     asn1_hdr hdr;
-    if (crefl_asn1_ber_ident_read(buf, &hdr._id) < 0) return u64_result { 0, -1 };
-    if (crefl_asn1_ber_length_read(buf, &hdr._length) < 0) return u64_result { 0, -1 };
+    if (crefl_asn1_der_hdr_read(buf, _tag, &hdr) < 0) return u64_result { 0, -1 };
     return crefl_asn1_ber_integer_u64_read_byval(buf, hdr._length);
 }
 
@@ -698,16 +708,14 @@ int crefl_asn1_der_integer_u64_write_byval(crefl_buf *buf, asn1_tag _tag, const
 int crefl_asn1_der_integer_s64_read(crefl_buf *buf, asn1_tag _tag, s64 *value)
 {
     asn1_hdr hdr;
-    if (crefl_asn1_ber_ident_read(buf, &hdr._id) < 0) return -1;
-    if (crefl_asn1_ber_length_read(buf, &hdr._length) < 0) return -1;
+    if (crefl_asn1_der_hdr_read(buf, _tag, &hdr) < 0) return -1;
     return crefl_asn1_ber_integer_s64_read(buf, hdr._length, value);
 }
 
 s64_result crefl_asn1_der_integer_s64_read_byval(crefl_buf *buf, asn1_tag _tag)
 {
     asn1_hdr hdr;
-    if (crefl_asn1_ber_ident_read(buf, &hdr._id) < 0) return s64_result { 0, -1 };
-    if (crefl_asn1_ber_length_read(buf, &hdr._length) < 0) return s64_result { 0, -1 };
+    if (crefl_asn1_der_hdr_read(buf, _tag, &hdr) < 0) return s64_result { 0, -1 };
     return crefl_asn1_ber_integer_s64_read_byval(buf, hdr._length);
 }
 
@@ -1238,16 +1246,14 @@ int crefl_asn1_ber_real_f64_write_byval(crefl_buf *buf, size_t len, const double
 int crefl_asn1_der_real_f64_read(crefl_buf *buf, asn1_tag _tag, double *value)
 {
     asn1_hdr hdr;
-    if (crefl_asn1_ber_ident_read(buf, &hdr._id) < 0) return -1;
-    if (crefl_asn1_ber_length_read(buf, &hdr._length) < 0) return -1;
+    if (crefl_asn1_der_hdr_read(buf, _tag, &hdr) < 0) return -1;
     return crefl_asn1_ber_real_f64_read(buf, hdr._length, value);
 }
 
 f64_result crefl_asn1_der_real_f64_read_byval(crefl_buf *buf, asn1_tag _tag)
 {
     asn1_hdr hdr;
-    if (crefl_asn1_ber_ident_read(buf, &hdr._id) < 0) return f64_result { 0, -1 };
-    if (crefl_asn1_ber_length_read(buf, &hdr._length) < 0) return f64_result { 0, -1 };
+    if (crefl_asn1_der_hdr_read(buf, _tag, &hdr) < 0) return f64_result { 0, -1 };
     return crefl_asn1_ber_real_f64_read_byval(buf, hdr._length);
 }
 
@@ -2491,8 +2497,7 @@ err:
 int crefl_asn1_der_oid_read(crefl_buf *buf, asn1_tag _tag, asn1_oid *obj)
 {
     asn1_hdr hdr;
-    if (crefl_asn1_ber_ident_read(buf, &hdr._id) < 0) return -1;
-    if (crefl_asn1_ber_length_read(buf, &hdr._length) < 0) return -1;
+    if (crefl_asn1_der_hdr_read(buf, _tag, &hdr) < 0) return -1;
     return crefl_asn1_ber_oid_read(buf, hdr._length, obj);
 }
 
@@ -2623,8 +2628,7 @@ int crefl_asn1_ber_octets_write(crefl_buf *buf, size_t len, const asn1_string *o
 int crefl_asn1_der_octets_read(crefl_buf *buf, asn1_tag _tag, asn1_string *obj)
 {
     asn1_hdr hdr;
-    if (crefl_asn1_ber_ident_read(buf, &hdr._id) < 0) return -1;
-    if (crefl_asn1_ber_length_read(buf, &hdr._length) < 0) return -1;
+    if (crefl_asn1_der_hdr_read(buf, _tag, &hdr) < 0) return -1;
     return crefl_asn1_ber_octets_read(buf, hdr._length, obj);
 }
 
@@ -2664,8 +2668,7 @@ int crefl_asn1_ber_null_write(crefl_buf *buf, size_t len)
 int crefl_asn1_der_null_read(crefl_buf *buf, asn1_tag _tag)
 {
     asn1_hdr hdr;
-    if (crefl_asn1_ber_ident_read(buf, &hdr._id) < 0) return -1;
-    if (crefl_asn1_ber_length_read(buf, &hdr._length) < 0) return -1;
+    if (crefl_asn1_der_hdr_read(buf, _tag, &hdr) < 0) return -1;
     return crefl_asn1_ber_null_read(buf, hdr._length);
 }
 
-- 
2.43.0


From 80e2bd4e525f4e5a7e01c54e674feae7eff2b036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:24 +0000
Subject: [PATCH 13/77] fix: reject OID strings that end in a dot

---
 src/asn1.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index 399b130..873a699 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -2549,7 +2549,7 @@ int crefl_asn1_oid_from_string(asn1_oid *obj, const char *str, size_t buflen)
             comp_num = 0;
             last = i + 1;
         } else if (i == buflen) {
-            //
+            if (comp > 0) goto err;
         } else if (isdigit((unsigned char)str[i])) {
             u64 num = comp_num * 10 + (int)str[i] - '0';
             if (num < (1ull << 56)) {
-- 
2.43.0


From c1af44b79bd93d4db66aac791756023c40154a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:24 +0000
Subject: [PATCH 14/77] fix: use the X.690 codes for NaN and minus zero

---
 src/asn1.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index 873a699..5b2ba56 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -921,8 +921,8 @@ enum _real_decimal_nr {
 enum _real_special {
     _real_special_pos_inf   = 0b01000000,
     _real_special_neg_inf   = 0b01000001,
-    _real_special_neg_zero  = 0b01000010,
-    _real_special_nan       = 0b01000011,
+    _real_special_nan       = 0b01000010,
+    _real_special_neg_zero  = 0b01000011,
 };
 
 static _real_fmt _asn1_real_format(u8 x)
-- 
2.43.0


From c9413520924e633603bf323a36142e78d5bd2f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:12 +0000
Subject: [PATCH 15/77] fix: encode and decode subnormal REAL values and reject
 unsupported forms

---
 src/asn1.cc | 103 ++++++++++++++++++++++++++--------------------------
 1 file changed, 52 insertions(+), 51 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index 5b2ba56..efebdc1 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -968,16 +968,16 @@ static f64_asn1_data f64_asn1_data_get(double value)
 {
     u64 frac;
     s64 sexp;
-    size_t frac_tz, frac_lz;
+    size_t frac_tz;
 
     sexp = (s64)f64_exp_dec(value);
     frac = (s64)f64_mant_dec(value) | (-(s64)(sexp > 0) & f64_mant_prefix);
-    frac_tz = ctz(frac);
-    frac_lz = clz(frac);
-    frac >>= frac_tz;
 
-    if (sexp > 0) {
-        sexp += frac_lz + frac_tz - 63 - f64_exp_bias;
+    /* subnormals have the exponent of the smallest normal */
+    if (frac != 0) {
+        frac_tz = ctz(frac);
+        frac >>= frac_tz;
+        sexp += (sexp == 0) + frac_tz - f64_mant_size - f64_exp_bias;
     }
 
     return f64_asn1_data {
@@ -989,6 +989,35 @@ static f64_asn1_data f64_asn1_data_get(double value)
     };
 }
 
+/*
+ * IEEE 754 exponent is relative to the msb of the mantissa
+ * ASN.1 exponent is relative to the lsb of the mantissa
+ *
+ * left-justify the fraction with the most significant set bit in bit 52
+ * (0-indexed) which crops off the IEEE 754 implied leading digit 0b1.xxx
+ * then subnormals are shifted right and keep their leading digit.
+ */
+static int f64_asn1_data_put(bool sign, s64 sexp, u64 frac, double *value)
+{
+    s64 fexp = 0;
+
+    if (frac != 0) {
+        size_t frac_lz = clz(frac);
+        fexp = (s64)f64_exp_bias + 63 + sexp - (s64)frac_lz;
+        if (fexp >= (s64)f64_exp_mask) {
+            return -1;
+        }
+        frac = (frac << frac_lz) >> f64_exp_size;
+        if (fexp <= 0) {
+            frac = fexp > -(s64)f64_mant_size ? frac >> (1 - fexp) : 0;
+            fexp = 0;
+        }
+    }
+
+    *value = f64_pack_float(f64_struct{frac & f64_mant_mask, (u64)fexp, sign});
+    return 0;
+}
+
 size_t crefl_asn1_ber_real_f64_length(const double *value)
 {
     f64_asn1_data d = f64_asn1_data_get(*value);
@@ -1025,14 +1054,15 @@ int crefl_asn1_ber_real_f64_read(crefl_buf *buf, size_t len, double *value)
     size_t exp_len;
     u64 frac;
     s64 sexp;
-    u64 fexp;
     bool sign;
-    size_t frac_lz;
 
     if (crefl_buf_read_i8(buf, &b) != 1) {
         goto err;
     }
     fmt = _asn1_real_format(b);
+    if (fmt == _real_fmt_special && len != 1) {
+        goto err;
+    }
     switch (b) {
     case _real_special_pos_inf:  *value = std::numeric_limits<f64>::infinity();  return 0;
     case _real_special_neg_inf:  *value = -std::numeric_limits<f64>::infinity(); return 0;
@@ -1051,6 +1081,10 @@ int crefl_asn1_ber_real_f64_read(crefl_buf *buf, size_t len, double *value)
     case _real_exp_2: exp_len = 2; break;
     default: goto err;
     }
+    /* only base 2 without scale factor is supported */
+    if (_asn1_real_binary_full(sign, exp_mode, _real_base_2, 0) != (u8)b || len < exp_len + 2) {
+        goto err;
+    }
     frac_len = len - exp_len - 1;
 
     if (crefl_asn1_ber_integer_s64_read(buf, exp_len, &sexp) < 0) {
@@ -1059,28 +1093,9 @@ int crefl_asn1_ber_real_f64_read(crefl_buf *buf, size_t len, double *value)
     if (crefl_asn1_ber_integer_u64_read(buf, frac_len, &frac) < 0) {
         goto err;
     }
-    frac_lz = clz(frac);
-
-    /*
-     * IEEE 754 exponent is relative to the msb of the mantissa
-     * ASN.1 exponent is relative to the lsb of the mantissa
-     *
-     * left-justify the fraction with the most significant set bit in bit 51
-     * (0-indexed) cropping off the IEEE 754 implied leading digit 0b1.xxx
-     */
-    if (frac == 1 && sexp == 0) {
-        frac = 0;
-        fexp = f64_exp_bias;
-    } else if (frac == 0 && sexp == 0) {
-        fexp = 0;
-    } else {
-        frac = (frac << (frac_lz + 1)) >> (64 - f64_mant_size);
-        fexp = f64_exp_bias + 63 + sexp - frac_lz;
-    }
-    if (fexp > f64_exp_mask || frac > f64_mant_mask) {
-        return -1;
+    if (f64_asn1_data_put(sign, sexp, frac, &v) < 0) {
+        goto err;
     }
-    v = f64_pack_float(f64_struct{frac, fexp, sign});
 
     *value = v;
     return 0;
@@ -1099,9 +1114,7 @@ f64_result crefl_asn1_ber_real_f64_read_byval(crefl_buf *buf, size_t len)
     size_t exp_len;
     u64 frac;
     s64 sexp;
-    u64 fexp;
     bool sign;
-    size_t frac_lz;
     s64_result rexp;
     u64_result rfrac;
 
@@ -1109,6 +1122,9 @@ f64_result crefl_asn1_ber_real_f64_read_byval(crefl_buf *buf, size_t len)
         return f64_result { 0, -1 };
     }
     fmt = _asn1_real_format(b);
+    if (fmt == _real_fmt_special && len != 1) {
+        return f64_result { 0, -1 };
+    }
     switch (b) {
     case _real_special_pos_inf:  return f64_result { std::numeric_limits<f64>::infinity(), 0 };
     case _real_special_neg_inf:  return f64_result { -std::numeric_limits<f64>::infinity(), 0 };
@@ -1127,6 +1143,10 @@ f64_result crefl_asn1_ber_real_f64_read_byval(crefl_buf *buf, size_t len)
     case _real_exp_2: exp_len = 2; break;
     default: return f64_result { 0, -1 };
     }
+    /* only base 2 without scale factor is supported */
+    if (_asn1_real_binary_full(sign, exp_mode, _real_base_2, 0) != (u8)b || len < exp_len + 2) {
+        return f64_result { 0, -1 };
+    }
     frac_len = len - exp_len - 1;
 
     rexp = crefl_asn1_ber_integer_s64_read_byval(buf, exp_len);
@@ -1139,28 +1159,9 @@ f64_result crefl_asn1_ber_real_f64_read_byval(crefl_buf *buf, size_t len)
         return f64_result { 0, rfrac.error };
     }
     frac = rfrac.value;
-    frac_lz = clz(frac);
-
-    /*
-     * IEEE 754 exponent is relative to the msb of the mantissa
-     * ASN.1 exponent is relative to the lsb of the mantissa
-     *
-     * left-justify the fraction with the most significant set bit in bit 51
-     * (0-indexed) cropping off the IEEE 754 implied leading digit 0b1.xxx
-     */
-    if (frac == 1 && sexp == 0) {
-        frac = 0;
-        fexp = f64_exp_bias;
-    } else if (frac == 0 && sexp == 0) {
-        fexp = 0;
-    } else {
-        frac = (frac << (frac_lz + 1)) >> (64 - f64_mant_size);
-        fexp = f64_exp_bias + 63 + sexp - frac_lz;
-    }
-    if (fexp > f64_exp_mask || frac > f64_mant_mask) {
+    if (f64_asn1_data_put(sign, sexp, frac, &v) < 0) {
         return f64_result { 0, -1 };
     }
-    v = f64_pack_float(f64_struct{frac, fexp, sign});
 
     return f64_result { v, 0 };
 }
-- 
2.43.0


From 81a47f01c99123b2bbb5ab21b10e8797a9b2b04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:12 +0000
Subject: [PATCH 16/77] fix: decode subnormal, out-of-range and power of two
 variable length floats

---
 src/asn1.cc | 142 +++++++++++++++++++++++++---------------------------
 1 file changed, 68 insertions(+), 74 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index efebdc1..3b63119 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -1338,6 +1338,40 @@ static void _crefl_vf_f64_debug(double v, u8 pre, s64 vp_exp, u64 vp_man, s64 vd
 }
 #endif
 
+/*
+ * unpack out-of-line exponent and mantissa for a type with the given mantissa
+ * size and exponent bias, truncating excess precision. exponents too large
+ * for the type become infinity.
+ */
+static int crefl_vf_extern_get(u64 man, s64 exp, bool unary, int mant_size,
+    int exp_bias, u64 *vp_man, s64 *vp_exp)
+{
+    /* no exponent - mantissa is a fraction in the range +/-0.9900..
+     * with a unary prefix containing the exponent. */
+    if (unary) {
+        if (man == 0) return -1;
+        exp = -(s64)ctz(man) - 1;
+    }
+
+    /* left-justify the mantissa with an implied leading 1 for powers of two */
+    man = man == 0 ? u64(1) << 63 : man << clz(man);
+
+    if (exp > exp_bias) {
+        *vp_exp = 2 * exp_bias + 1;
+        *vp_man = 0;
+    } else if (exp > -exp_bias) {
+        /* normal - truncate the leading 1 */
+        *vp_exp = exp + exp_bias;
+        *vp_man = (man << 1) >> (64 - mant_size);
+    } else {
+        /* subnormal - shift right preserving the leading 1 */
+        s64 sh = 64 - mant_size - exp_bias - exp;
+        *vp_exp = 0;
+        *vp_man = sh < 64 ? man >> sh : 0;
+    }
+    return 0;
+}
+
 int crefl_vf_f64_read(crefl_buf *buf, double *value)
 {
     s8 pre;
@@ -1401,21 +1435,13 @@ int crefl_vf_f64_read(crefl_buf *buf, double *value)
     }
     /* out-of-line little-endian exponent and mantissa */
     else {
-        size_t lz = clz(vr_man), tz = ctz(vr_man);
-        if (vr_exp <= -(s64)f64_exp_bias) {
-            /* normal to subnormal - calculate shift using exponent delta
-             * then left-justify the mantissa preserving the leading 1. */
-            assert(vr_exp >= -(s64)f64_exp_bias - f64_mant_size);
-            size_t sh = f64_exp_bias + vr_exp + lz - f64_exp_size;
-            vp_exp = 0;
-            vp_man = (u64)vr_man << sh;
-        } else {
-            /* normal - if no exponent, mantissa is a fraction in the range
-             * +/-0.9900.. with a unary prefix containing the exponent. */
-            if (vf_exp == 0) vr_exp = -tz - 1;
-            vp_exp = f64_exp_bias + vr_exp;
-            vp_man = (u64)vr_man << (lz + 1) >> (f64_exp_size + 1);
+        u64 vx_man;
+        s64 vx_exp;
+        if (crefl_vf_extern_get(vr_man, vr_exp, vf_exp == 0, f64_mant_size, f64_exp_bias, &vx_man, &vx_exp) < 0) {
+            goto err;
         }
+        vp_man = (u64)vx_man;
+        vp_exp = (s64)vx_exp;
     }
 
     v = f64_pack_float(f64_struct{vp_man, (u64)vp_exp, vf_sgn});
@@ -1503,21 +1529,13 @@ f64_result crefl_vf_f64_read_byval(crefl_buf *buf)
     }
     /* out-of-line little-endian exponent and mantissa */
     else {
-        size_t lz = clz(vr_man), tz = ctz(vr_man);
-        if (vr_exp <= -(s64)f64_exp_bias) {
-            /* normal to subnormal - calculate shift using exponent delta
-             * then left-justify the mantissa preserving the leading 1. */
-            assert(vr_exp >= -(s64)f64_exp_bias - f64_mant_size);
-            size_t sh = f64_exp_bias + vr_exp + lz - f64_exp_size;
-            vp_exp = 0;
-            vp_man = (u64)vr_man << sh;
-        } else {
-            /* normal - if no exponent, mantissa is a fraction in the range
-             * +/-0.9900.. with a unary prefix containing the exponent. */
-            if (vf_exp == 0) vr_exp = -tz - 1;
-            vp_exp = f64_exp_bias + vr_exp;
-            vp_man = (u64)vr_man << (lz + 1) >> (f64_exp_size + 1);
+        u64 vx_man;
+        s64 vx_exp;
+        if (crefl_vf_extern_get(vr_man, vr_exp, vf_exp == 0, f64_mant_size, f64_exp_bias, &vx_man, &vx_exp) < 0) {
+            return f64_result { 0, -1 };
         }
+        vp_man = (u64)vx_man;
+        vp_exp = (s64)vx_exp;
     }
 
     v = f64_pack_float(f64_struct{vp_man, (u64)vp_exp, vf_sgn});
@@ -1570,7 +1588,7 @@ int crefl_vf_f64_write(crefl_buf *buf, const double *value)
          */
         if (d.sexp == -(s64)f64_exp_bias) {
             vw_man = d.frac >> tz;
-            vw_exp = d.sexp - lz - 1;
+            vw_exp = d.sexp - lz;
             vf_exp = (u8)crefl_le_ber_integer_s64_length_byval(vw_exp);
             vf_man = (u8)crefl_le_ber_integer_u64_length_byval(vw_man);
             pre = 0x80 | (d.sign << 6) | (vf_exp << 4) | vf_man;
@@ -1677,7 +1695,7 @@ int crefl_vf_f64_write_byval(crefl_buf *buf, const double value)
          */
         if (d.sexp == -(s64)f64_exp_bias) {
             vw_man = d.frac >> tz;
-            vw_exp = d.sexp - lz - 1;
+            vw_exp = d.sexp - lz;
             vf_exp = (u8)crefl_le_ber_integer_s64_length_byval(vw_exp);
             vf_man = (u8)crefl_le_ber_integer_u64_length_byval(vw_man);
             pre = 0x80 | (d.sign << 6) | (vf_exp << 4) | vf_man;
@@ -1809,7 +1827,7 @@ int crefl_vf_f32_read(crefl_buf *buf, float *value)
     bool vf_sgn;
     int vf_exp;
     int vf_man;
-    u32 vr_man = 0;
+    u64 vr_man = 0;
     s32 vr_exp = 0;
     u32 vp_man = 0;
     s32 vp_exp = 0;
@@ -1833,11 +1851,7 @@ int crefl_vf_f32_read(crefl_buf *buf, float *value)
             u64_result r = crefl_le_ber_integer_u64_read_byval(buf, vf_man);
             if (r.error < 0) goto err;
 
-            /* if there are less than 32 leading zeros, then we must
-             * truncate some precision from the right-most bits. */
-            size_t lz = clz(r.value);
-            size_t sh = lz < 32 ? 32 - lz : 0;
-            vr_man = (u32)(r.value >> sh);
+            vr_man = r.value;
         }
     }
 
@@ -1873,28 +1887,20 @@ int crefl_vf_f32_read(crefl_buf *buf, float *value)
     }
     /* out-of-line little-endian exponent and mantissa */
     else {
-        size_t lz = clz(vr_man), tz = ctz(vr_man);
-        if (vr_exp <= -(s32)f32_exp_bias) {
-            /* normal to subnormal - calculate shift using exponent delta
-             * then left-justify the mantissa preserving the leading 1. */
-            assert(vr_exp >= -(s32)f32_exp_bias - f32_mant_size);
-            size_t sh = f32_exp_bias + vr_exp + (u32)lz - f32_exp_size;
-            vp_exp = 0;
-            vp_man = (u32)vr_man << sh;
-        } else {
-            /* normal - if no exponent, mantissa is a fraction in the range
-             * +/-0.9900.. with a unary prefix containing the exponent. */
-            if (vf_exp == 0) vr_exp = -(s32)tz - 1;
-            vp_exp = f32_exp_bias + vr_exp;
-            vp_man = (u32)vr_man << (lz + 1) >> (f32_exp_size + 1);
+        u64 vx_man;
+        s64 vx_exp;
+        if (crefl_vf_extern_get(vr_man, vr_exp, vf_exp == 0, f32_mant_size, f32_exp_bias, &vx_man, &vx_exp) < 0) {
+            goto err;
         }
+        vp_man = (u32)vx_man;
+        vp_exp = (s32)vx_exp;
     }
 
     v = f32_pack_float(f32_struct{vp_man, (u32)vp_exp, vf_sgn});
     *value = v;
 
 #if DEBUG_ENCODING
-    _crefl_vf_f32_debug(v, pre, vp_exp - f32_exp_bias, vp_man << 9, vr_exp, vr_man);
+    _crefl_vf_f32_debug(v, pre, vp_exp - f32_exp_bias, vp_man << 9, vr_exp, (u32)vr_man);
 #endif
 
     return 0;
@@ -1916,7 +1922,7 @@ f32_result crefl_vf_f32_read_byval(crefl_buf *buf)
     bool vf_sgn;
     int vf_exp;
     int vf_man;
-    u32 vr_man = 0;
+    u64 vr_man = 0;
     s32 vr_exp = 0;
     u32 vp_man = 0;
     s32 vp_exp = 0;
@@ -1940,11 +1946,7 @@ f32_result crefl_vf_f32_read_byval(crefl_buf *buf)
             u64_result r = crefl_le_ber_integer_u64_read_byval(buf, vf_man);
             if (r.error < 0) return f32_result { 0, (s32)r.error };
 
-            /* if there are less than 32 leading zeros, then we must
-             * truncate some precision from the right-most bits. */
-            size_t lz = clz(r.value);
-            size_t sh = lz < 32 ? 32 - lz : 0;
-            vr_man = (u32)(r.value >> sh);
+            vr_man = r.value;
         }
     }
 
@@ -1980,27 +1982,19 @@ f32_result crefl_vf_f32_read_byval(crefl_buf *buf)
     }
     /* out-of-line little-endian exponent and mantissa */
     else {
-        size_t lz = clz(vr_man), tz = ctz(vr_man);
-        if (vr_exp <= -(s32)f32_exp_bias) {
-            /* normal to subnormal - calculate shift using exponent delta
-             * then left-justify the mantissa preserving the leading 1. */
-            assert(vr_exp >= -(s32)f32_exp_bias - f32_mant_size);
-            size_t sh = f32_exp_bias + vr_exp + (u32)lz - f32_exp_size;
-            vp_exp = 0;
-            vp_man = (u32)vr_man << sh;
-        } else {
-            /* normal - if no exponent, mantissa is a fraction in the range
-             * +/-0.9900.. with a unary prefix containing the exponent. */
-            if (vf_exp == 0) vr_exp = -(s32)tz - 1;
-            vp_exp = f32_exp_bias + vr_exp;
-            vp_man = (u32)vr_man << (lz + 1) >> (f32_exp_size + 1);
+        u64 vx_man;
+        s64 vx_exp;
+        if (crefl_vf_extern_get(vr_man, vr_exp, vf_exp == 0, f32_mant_size, f32_exp_bias, &vx_man, &vx_exp) < 0) {
+            return f32_result { 0, -1 };
         }
+        vp_man = (u32)vx_man;
+        vp_exp = (s32)vx_exp;
     }
 
     v = f32_pack_float(f32_struct{vp_man, (u32)vp_exp, vf_sgn});
 
 #if DEBUG_ENCODING
-    _crefl_vf_f32_debug(v, pre, vp_exp - f32_exp_bias, vp_man << 9, vr_exp, vr_man);
+    _crefl_vf_f32_debug(v, pre, vp_exp - f32_exp_bias, vp_man << 9, vr_exp, (u32)vr_man);
 #endif
 
     return f32_result { v, 0 };
@@ -2047,7 +2041,7 @@ int crefl_vf_f32_write(crefl_buf *buf, const float *value)
          */
         if (d.sexp == -(s32)f32_exp_bias) {
             vw_man = d.frac >> tz;
-            vw_exp = d.sexp - (u32)lz - 1;
+            vw_exp = d.sexp - (u32)lz;
             vf_exp = (u8)crefl_le_ber_integer_s64_length_byval(vw_exp);
             vf_man = (u8)crefl_le_ber_integer_u64_length_byval(vw_man);
             pre = 0x80 | (d.sign << 6) | (vf_exp << 4) | vf_man;
@@ -2154,7 +2148,7 @@ int crefl_vf_f32_write_byval(crefl_buf *buf, const float value)
          */
         if (d.sexp == -(s32)f32_exp_bias) {
             vw_man = d.frac >> tz;
-            vw_exp = d.sexp - (u32)lz - 1;
+            vw_exp = d.sexp - (u32)lz;
             vf_exp = (u8)crefl_le_ber_integer_s64_length_byval(vw_exp);
             vf_man = (u8)crefl_le_ber_integer_u64_length_byval(vw_man);
             pre = 0x80 | (d.sign << 6) | (vf_exp << 4) | vf_man;
-- 
2.43.0


From fd6eccbf5aad07f1fb8857b29764ba085c3b1124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:05 +0000
Subject: [PATCH 17/77] fix: make the buffer capacity checks effective for any
 offset and length

---
 include/crefl/buf.h | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/include/crefl/buf.h b/include/crefl/buf.h
index ac69674..f6c030a 100644
--- a/include/crefl/buf.h
+++ b/include/crefl/buf.h
@@ -91,9 +91,10 @@ static size_t crefl_buf_offset(crefl_buf* buf);
 
 #define CREFL_FN(Y,X) crefl_ ## Y ## _ ## X
 
-static inline size_t crefl_buf_check_capacity(crefl_buf *buf, size_t len)
+static inline int crefl_buf_check_capacity(crefl_buf *buf, size_t len)
 {
-    return (buf->data_offset + len > buf->data_size) ? -1 : 0;
+    return (buf->data_offset > buf->data_size ||
+        len > buf->data_size - buf->data_offset) ? -1 : 0;
 }
 
 #if USE_UNALIGNED_ACCESSES && !USE_CRT_MEMCPY
@@ -101,7 +102,7 @@ static inline size_t crefl_buf_check_capacity(crefl_buf *buf, size_t len)
 #define CREFL_BUF_WRITE_IMPL(suffix,T,swap)                                    \
 static inline size_t CREFL_FN(buf_write,suffix)(crefl_buf *buf, T val)           \
 {                                                                              \
-    if (buf->data_offset + sizeof(T) > buf->data_size) return 0;               \
+    if (crefl_buf_check_capacity(buf, sizeof(T)) < 0) return 0;                \
     T t = swap(val);                                                           \
     *(T*)(buf->data + buf->data_offset) = t;                                   \
     buf->data_offset += sizeof(T);                                             \
@@ -118,7 +119,7 @@ static inline size_t CREFL_FN(buf_write_unchecked,suffix)(crefl_buf *buf, T val)
 #define CREFL_BUF_READ_IMPL(suffix,T,swap)                                     \
 static inline size_t CREFL_FN(buf_read,suffix)(crefl_buf *buf, T* val)           \
 {                                                                              \
-    if (buf->data_offset + sizeof(T) > buf->data_size) return 0;               \
+    if (crefl_buf_check_capacity(buf, sizeof(T)) < 0) return 0;                \
     T t = *(T*)(buf->data + buf->data_offset);                                 \
     *val = swap(t);                                                            \
     buf->data_offset += sizeof(T);                                             \
@@ -137,7 +138,7 @@ static inline size_t CREFL_FN(buf_read_unchecked,suffix)(crefl_buf *buf, T* val)
 #define CREFL_BUF_WRITE_IMPL(suffix,T,swap)                                    \
 static inline size_t CREFL_FN(buf_write,suffix)(crefl_buf *buf, T val)           \
 {                                                                              \
-    if (buf->data_offset + sizeof(T) > buf->data_size) return 0;               \
+    if (crefl_buf_check_capacity(buf, sizeof(T)) < 0) return 0;                \
     T t = swap(val);                                                           \
     memcpy(buf->data + buf->data_offset, &t, sizeof(T));                       \
     buf->data_offset += sizeof(T);                                             \
@@ -154,7 +155,7 @@ static inline size_t CREFL_FN(buf_write_unchecked,suffix)(crefl_buf *buf, T val)
 #define CREFL_BUF_READ_IMPL(suffix,T,swap)                                     \
 static inline size_t CREFL_FN(buf_read,suffix)(crefl_buf *buf, T* val)           \
 {                                                                              \
-    if (buf->data_offset + sizeof(T) > buf->data_size) return 0;               \
+    if (crefl_buf_check_capacity(buf, sizeof(T)) < 0) return 0;                \
     T t;                                                                       \
     memcpy(&t, buf->data + buf->data_offset, sizeof(T));                       \
     *val = swap(t);                                                            \
@@ -182,7 +183,7 @@ CREFL_BUF_READ_IMPL(i64,int64_t,le64)
 
 static inline size_t crefl_buf_read_i8(crefl_buf *buf, int8_t* val)
 {
-    if (buf->data_offset + 1 > buf->data_size) return 0;
+    if (crefl_buf_check_capacity(buf, 1) < 0) return 0;
     *val = *(int8_t*)(buf->data + buf->data_offset);
     buf->data_offset++;
     return 1;
@@ -197,7 +198,7 @@ static inline size_t crefl_buf_read_unchecked_i8(crefl_buf *buf, int8_t* val)
 
 static inline size_t crefl_buf_write_i8(crefl_buf *buf, int8_t val)
 {
-    if (buf->data_offset + 1 > buf->data_size) return 0;
+    if (crefl_buf_check_capacity(buf, 1) < 0) return 0;
     *(int8_t*)(buf->data + buf->data_offset) = val;
     buf->data_offset++;
     return 1;
@@ -211,7 +212,7 @@ static inline size_t crefl_buf_write_unchecked_i8(crefl_buf *buf, int8_t val)
 
 static inline size_t crefl_buf_write_bytes(crefl_buf* buf, const char *src, size_t len)
 {
-    if (buf->data_offset + len > buf->data_size) return 0;
+    if (crefl_buf_check_capacity(buf, len) < 0) return 0;
 #if USE_CRT_MEMCPY
     memcpy(&buf->data[buf->data_offset], src, len);
 #else
@@ -225,7 +226,7 @@ static inline size_t crefl_buf_write_bytes(crefl_buf* buf, const char *src, size
 
 static inline size_t crefl_buf_read_bytes(crefl_buf* buf, char *dst, size_t len)
 {
-    if (buf->data_offset + len > buf->data_size) return 0;
+    if (crefl_buf_check_capacity(buf, len) < 0) return 0;
 #if USE_CRT_MEMCPY
     memcpy(dst, &buf->data[buf->data_offset], len);
 #else
@@ -285,9 +286,9 @@ static inline size_t crefl_buf_offset(crefl_buf* buf)
 
 static inline crefl_span crefl_buf_remaining(crefl_buf* buf)
 {
-    crefl_span s = {
-        &buf->data[buf->data_offset], buf->data_size - buf->data_offset
-    };
+    size_t offset = buf->data_offset < buf->data_size ?
+        buf->data_offset : buf->data_size;
+    crefl_span s = { &buf->data[offset], buf->data_size - offset };
     return s;
 }
 
-- 
2.43.0


From 97df810ace148262353232786d3b3e2ef044417b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:24 +0000
Subject: [PATCH 18/77] fix: do not assume that serialised databases are
 aligned in memory

---
 src/db.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/db.cc b/src/db.cc
index 5120ab9..4ccb6d8 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -63,7 +63,8 @@ int crefl_db_read_mem(decl_db *db, const uint8_t *buf, size_t input_sz)
         return -1;
     }
 
-    decl_db_hdr *hdr = (decl_db_hdr*)&buf[0];
+    decl_db_hdr hdr_buf, *hdr = &hdr_buf;
+    memcpy(hdr, buf, sizeof(decl_db_hdr));
     size_t hdr_sz = sizeof(decl_db_hdr);
     size_t decl_cnt = hdr->decl_entry_count;
     size_t decl_sz = sizeof(decl_node) * decl_cnt;
@@ -144,11 +145,12 @@ int crefl_db_write_mem(decl_db *db, uint8_t *buf, size_t output_sz)
 
     if (total_sz > output_sz) return -1;
 
-    decl_db_hdr *hdr = (decl_db_hdr*)buf;
+    decl_db_hdr hdr_buf, *hdr = &hdr_buf;
     memcpy(hdr->magic, decl_db_magic, sizeof(decl_db_magic));
     hdr->decl_entry_count = (u32)db->decl_offset - (u32)db->decl_builtin;
     hdr->name_table_size = (u32)name_sz;
     hdr->root_element = db->root_element;
+    memcpy(buf, hdr, hdr_sz);
     memcpy(&buf[hdr_sz], db->decl + db->decl_builtin, decl_sz);
     memcpy(&buf[hdr_sz + decl_sz], db->name + db->name_builtin, name_sz);
 
-- 
2.43.0


From ded6fd02e02fae3ba33fc8c9fdf21b5997a2c612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:24 +0000
Subject: [PATCH 19/77] fix: check the input size and name table when loading a
 database

---
 src/db.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/db.cc b/src/db.cc
index 4ccb6d8..695b520 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -76,6 +76,16 @@ int crefl_db_read_mem(decl_db *db, const uint8_t *buf, size_t input_sz)
         return 0;
     }
 
+    /* check that the input holds both tables and that names are terminated */
+    if (input_sz - hdr_sz < decl_sz || input_sz - hdr_sz - decl_sz < name_sz) {
+        fprintf(stderr, "crefl: *** error: tables truncated\n");
+        return -1;
+    }
+    if (name_sz > 0 && buf[hdr_sz + decl_sz + name_sz - 1] != '\0') {
+        fprintf(stderr, "crefl: *** error: name table not terminated\n");
+        return -1;
+    }
+
     /*
      * for space compactness we elide builtin types from the output.
      * initialize builtin types then check the first element is root.
-- 
2.43.0


From 630744d8394c01fdb8773317f5b85bbeed4151fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:24 +0000
Subject: [PATCH 20/77] fix: report errors when a written file is closed

---
 include/crefl/util.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/crefl/util.h b/include/crefl/util.h
index bf74a24..78d1856 100644
--- a/include/crefl/util.h
+++ b/include/crefl/util.h
@@ -97,6 +97,7 @@ static size_t crefl_read_file(std::vector<uint8_t> &buf, const char* filename)
     }
     if (fstat(fileno(f), &statbuf) < 0) {
         fprintf(stderr, "fstat: %s\n", strerror(errno));
+        fclose(f);
         return -1;
     }
     buf.resize(statbuf.st_size);
@@ -114,7 +115,10 @@ static size_t crefl_write_file(std::vector<uint8_t> &buf, const char* filename)
         return -1;
     }
     size_t len = fwrite(buf.data(), 1, buf.size(), f);
-    fclose(f);
+    if (fclose(f) != 0) {
+        fprintf(stderr, "fclose: %s\n", strerror(errno));
+        return -1;
+    }
 
     return buf.size() == len ? 0 : -1;
 }
-- 
2.43.0


From 0254877ec2a140688c4a6a521aab1b3f49021724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:24 +0000
Subject: [PATCH 21/77] fix: format strings of 255 and 256 characters
 completely

---
 include/crefl/util.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/crefl/util.h b/include/crefl/util.h
index 78d1856..8547506 100644
--- a/include/crefl/util.h
+++ b/include/crefl/util.h
@@ -43,8 +43,8 @@ static std::string string_vprintf(const char* fmt, va_list args)
 
     va_list args2;
     va_copy(args2, args);
-    int len = vsnprintf(&buf[0], buf.size()-1, fmt, args);
-    if ((size_t)len > buf.size()) {
+    int len = vsnprintf(&buf[0], buf.size(), fmt, args);
+    if ((size_t)len >= buf.size()) {
         buf.resize(len+1);
         len = vsnprintf(&buf[0], buf.size(), fmt, args2);
     }
@@ -59,9 +59,9 @@ static std::string string_printf(const char* fmt, ...)
 
     va_list args;
     va_start(args, fmt);
-    int len = vsnprintf(&buf[0], buf.size()-1, fmt, args);
+    int len = vsnprintf(&buf[0], buf.size(), fmt, args);
     va_end(args);
-    if ((size_t)len > buf.size()) {
+    if ((size_t)len >= buf.size()) {
         buf.resize(len+1);
         va_list args;
         va_start(args, fmt);
-- 
2.43.0


From 273af2557d2908da3dee755a2efa65b562679901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:45 +0000
Subject: [PATCH 22/77] fix: exit with an error when crefltool cannot read or
 write a file

---
 tool/crefltool.cc | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/tool/crefltool.cc b/tool/crefltool.cc
index 9eef574..26be026 100644
--- a/tool/crefltool.cc
+++ b/tool/crefltool.cc
@@ -27,22 +27,34 @@
 
 #define array_size(arr) ((sizeof(arr)/sizeof(arr[0])))
 
+static void read_db(decl_db *db, const char *input)
+{
+    if (crefl_db_read_file(db, input) != 0) {
+        fprintf(stderr, "error: reading %s\n", input);
+        exit(1);
+    }
+}
+
 void do_merge(const char *output, const char **input, size_t n)
 {
     decl_db *db_out = crefl_db_new();
     decl_db **db_in = (decl_db**)malloc(sizeof(decl_db*) * n);
     for (size_t i = 0; i < n; i++) {
         db_in[i] = crefl_db_new();
-        crefl_db_read_file(db_in[i], input[i]);
+        read_db(db_in[i], input[i]);
     }
     if (crefl_link_merge(db_out, output, db_in, n) < 0) {
         fprintf(stderr, "error: merging input files\n");
         exit(1);
     }
-    crefl_db_write_file(db_out, output);
+    if (crefl_db_write_file(db_out, output) != 0) {
+        fprintf(stderr, "error: writing %s\n", output);
+        exit(1);
+    }
     for (size_t i = 0; i < n; i++) {
         crefl_db_destroy(db_in[i]);
     }
+    free(db_in);
     crefl_db_destroy(db_out);
 }
 
@@ -55,7 +67,7 @@ void do_emit(const char *output, const char *input, const char *name)
     const size_t w = 16;
 
     db = crefl_db_new();
-    crefl_db_read_file(db, input);
+    read_db(db, input);
     sz = crefl_db_size(db);
     buf = (uint8_t*)malloc(sz);
     if (crefl_db_write_mem(db, buf, sz) < 0 || !(f = fopen(output, "wb"))) {
@@ -73,8 +85,11 @@ void do_emit(const char *output, const char *input, const char *name)
     fprintf(f, "};\n");
     fprintf(f, "const size_t __crefl_%s_size = sizeof(__crefl_%s_data);\n",
         name, name);
-    fflush(f);
-    fclose(f);
+    bool failed = fflush(f) != 0 || ferror(f);
+    if (fclose(f) != 0 || failed) {
+        fprintf(stderr, "error: writing %s\n", output);
+        exit(1);
+    }
     free(buf);
     crefl_db_destroy(db);
 }
@@ -82,7 +97,7 @@ void do_emit(const char *output, const char *input, const char *name)
 void do_dump(crefl_db_dump_fmt fmt, const char *input)
 {
     decl_db *db = crefl_db_new();
-    crefl_db_read_file(db, input);
+    read_db(db, input);
     crefl_db_set_dump_fmt(fmt);
     crefl_db_dump(db);
     crefl_db_destroy(db);
@@ -91,7 +106,7 @@ void do_dump(crefl_db_dump_fmt fmt, const char *input)
 void do_stats(const char *input)
 {
     decl_db *db = crefl_db_new();
-    crefl_db_read_file(db, input);
+    read_db(db, input);
     crefl_db_dump_stats(db);
     crefl_db_destroy(db);
 }
@@ -161,6 +176,10 @@ int main(int argc, const char **argv)
         case _merge: do_merge(argv[2], argv + 3, argc - 3); break;
         case _emit: do_emit(argv[2], argv[3], "main"); break;
     }
+    if (fflush(stdout) != 0 || ferror(stdout)) {
+        fprintf(stderr, "error: writing standard output\n");
+        exit(1);
+    }
     exit(0);
 
 help_exit:
-- 
2.43.0


From 428343778913f925fb62947b1a673f34c03e1df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:40 +0000
Subject: [PATCH 23/77] fix: align bool to a byte, long double to 16 bytes and
 complex types to their parts

---
 src/model.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/model.cc b/src/model.cc
index 9ae3998..f5f1a05 100644
--- a/src/model.cc
+++ b/src/model.cc
@@ -248,15 +248,17 @@ struct _alignment { size_t align; size_t size; };
 
 static _alignment _pad_align(size_t width, size_t count, decl_set props)
 {
-    const intptr_t maxalign = 9; /* 128 bits */
+    const intptr_t maxalign = 7; /* 128 bits */
 
     size_t n;
 
     if ((props & _decl_pad_byte)) {
-        n = 8;
+        n = 3;
     }
     else if ((props & _decl_pad_pow2)) {
-        n = 63 - clz(width);
+        /* complex numbers are aligned like their real and imaginary parts */
+        size_t part = (props & _decl_complex) ? width / 2 : width;
+        n = part ? 63 - clz(part) : 0;
         if (n > maxalign) n = maxalign;
     } else {
         n = 0;
-- 
2.43.0


From 254fc7e72f59407bb384bed67d5e0c8223a826f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:40 +0000
Subject: [PATCH 24/77] fix: round the size of a union up to its alignment

---
 src/model.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model.cc b/src/model.cc
index f5f1a05..b046808 100644
--- a/src/model.cc
+++ b/src/model.cc
@@ -342,7 +342,7 @@ static _alignment _union_pad(decl_ref d)
         d = crefl_decl_next(d);
     }
 
-    return max;
+    return _alignment { max.align, _align(max.size, max.align) };
 }
 
 static _alignment _type_pad(decl_ref d)
-- 
2.43.0


From e3bf194b8e50990d404776bfb7235a7336b1afb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:40 +0000
Subject: [PATCH 25/77] fix: compute the layout of enum, typedef and qualified
 types

---
 src/model.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/model.cc b/src/model.cc
index b046808..18bb6bd 100644
--- a/src/model.cc
+++ b/src/model.cc
@@ -287,6 +287,12 @@ static _alignment _pointer_pad(decl_ref d)
         _pad_align(crefl_decl_qty(d), 1, _decl_pad_pow2) : _alignment { 0 };
 }
 
+static _alignment _enum_pad(decl_ref d)
+{
+    return crefl_is_enum(d) || crefl_is_set(d) ?
+        _pad_align(crefl_decl_qty(d), 1, _decl_pad_pow2) : _alignment { 0 };
+}
+
 static _alignment _array_pad(decl_ref d)
 {
     size_t qty = 1;
@@ -354,6 +360,11 @@ static _alignment _type_pad(decl_ref d)
     case _decl_field: return _field_pad(d);
     case _decl_array: return _array_pad(d);
     case _decl_pointer: return _pointer_pad(d);
+    case _decl_set:
+    case _decl_enum: return _enum_pad(d);
+    case _decl_typedef:
+    case _decl_qualifier:
+    case _decl_alias: return _type_pad(crefl_decl_link(d));
     }
     return _alignment { 0 };
 }
-- 
2.43.0


From 2a2eb3ec803cd5cc31401f630ae38d6eaa32afc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:40 +0000
Subject: [PATCH 26/77] fix: lay out bit-fields by their width

---
 src/model.cc | 46 +++++++++++++++++++++++++++++++++-------------
 1 file changed, 33 insertions(+), 13 deletions(-)

diff --git a/src/model.cc b/src/model.cc
index 18bb6bd..f194a4f 100644
--- a/src/model.cc
+++ b/src/model.cc
@@ -311,6 +311,33 @@ static _alignment _array_pad(decl_ref d)
     return pad;
 }
 
+/*
+ * lay out one field at or after offset, returning the offset of the field,
+ * updating the largest alignment and moving offset to the end of the field.
+ *
+ * - bit-fields are packed unless they cross a storage unit of their type
+ * - zero width bit-fields align the next field to their type
+ * - unnamed bit-fields do not affect the alignment of the type
+ */
+static size_t _field_place(decl_ref d, size_t *offset, size_t *align)
+{
+    _alignment pad = _type_pad(crefl_field_type(d));
+    size_t pos = _align(*offset, pad.align);
+
+    if (crefl_decl_props(d) & _decl_bitfield) {
+        size_t width = crefl_decl_qty(d);
+        size_t used = *offset & ((1llu << pad.align) - 1llu);
+        if (width > 0 && used + width <= pad.size) pos = *offset;
+        if (crefl_decl_has_name(d) && pad.align > *align) *align = pad.align;
+        *offset = pos + width;
+    } else {
+        if (pad.align > *align) *align = pad.align;
+        *offset = pos + pad.size;
+    }
+
+    return pos;
+}
+
 static _alignment _struct_pad(decl_ref d)
 {
     _alignment max = { 0 };
@@ -321,10 +348,7 @@ static _alignment _struct_pad(decl_ref d)
     d = crefl_decl_link(d);
     while (crefl_decl_idx(d)) {
         if (crefl_is_field(d)) {
-            _alignment pad = _type_pad(crefl_field_type(d));
-            if (pad.align > max.align) max.align = pad.align;
-            if (pad.size > max.size) max.size = pad.size;
-            offset = _align(offset, pad.align) + pad.size;
+            _field_place(d, &offset, &max.align);
         }
         d = crefl_decl_next(d);
     }
@@ -341,9 +365,9 @@ static _alignment _union_pad(decl_ref d)
     d = crefl_decl_link(d);
     while (crefl_decl_idx(d)) {
         if (crefl_is_field(d)) {
-            _alignment pad = _type_pad(crefl_field_type(d));
-            if (pad.align > max.align) max.align = pad.align;
-            if (pad.size > max.size) max.size = pad.size;
+            size_t size = 0;
+            _field_place(d, &size, &max.align);
+            if (size > max.size) max.size = size;
         }
         d = crefl_decl_next(d);
     }
@@ -379,15 +403,11 @@ int crefl_struct_fields_offsets(decl_ref d, decl_ref *r, size_t *o, size_t *s)
     d = crefl_decl_link(d);
     while (crefl_decl_idx(d))  {
         if (crefl_is_field(d)) {
-            _alignment pad = _type_pad(crefl_field_type(d));
-            if (pad.align > max.align) max.align = pad.align;
-            if (pad.size > max.size) max.size = pad.size;
-            offset = _align(offset, pad.align);
+            size_t pos = _field_place(d, &offset, &max.align);
             if (count < limit) {
                 if (r) r[count] = d;
-                if (o) o[count] = offset;
+                if (o) o[count] = pos;
             }
-            offset += pad.size;
             ++count;
         }
         d = crefl_decl_next(d);
-- 
2.43.0


From 9baa9c9a659d93438019fd5feb249e59ce617b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:04 +0000
Subject: [PATCH 27/77] fix: allocate whole aligned words for the hashmap
 bitmap

---
 include/crefl/hashmap.h | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/include/crefl/hashmap.h b/include/crefl/hashmap.h
index 9cee859..7b6f9e9 100644
--- a/include/crefl/hashmap.h
+++ b/include/crefl/hashmap.h
@@ -95,8 +95,8 @@ struct hashmap
     inline hashmap(size_t initial_size) :
         used(0), tombs(0), limit(initial_size)
     {
-        size_t data_size = sizeof(data_type) * limit;
-        size_t bitmap_size = limit >> 2;
+        size_t data_size = data_bytes(limit);
+        size_t bitmap_size = bitmap_bytes(limit);
         size_t total_size = data_size + bitmap_size;
 
         assert(is_pow2(limit));
@@ -114,8 +114,8 @@ struct hashmap
     inline hashmap(const hashmap &o) :
         used(o.used), tombs(o.tombs), limit(o.limit)
     {
-        size_t data_size = sizeof(data_type) * limit;
-        size_t bitmap_size = limit >> 2;
+        size_t data_size = data_bytes(limit);
+        size_t bitmap_size = bitmap_bytes(limit);
         size_t total_size = data_size + bitmap_size;
 
         data = (data_type*)malloc(total_size);
@@ -139,8 +139,8 @@ struct hashmap
         tombs = o.tombs;
         limit = o.limit;
 
-        size_t data_size = sizeof(data_type) * limit;
-        size_t bitmap_size = limit >> 2;
+        size_t data_size = data_bytes(limit);
+        size_t bitmap_size = bitmap_bytes(limit);
         size_t total_size = data_size + bitmap_size;
 
         data = (data_type*)malloc(total_size);
@@ -199,6 +199,9 @@ struct hashmap
     {
         bitmap[bitmap_idx(i)] &= ~(value << bitmap_shift(i));
     }
+    /* the bitmap is accessed using aligned 64-bit words, 32 slots per word */
+    static inline size_t data_bytes(size_t n) { return (sizeof(data_type) * n + 7) & ~(size_t)7; }
+    static inline size_t bitmap_bytes(size_t n) { return ((n + 31) >> 5) << 3; }
     static inline bool is_pow2(intptr_t n) { return  ((n & -n) == n); }
 
     /**
@@ -208,8 +211,8 @@ struct hashmap
     void resize_internal(data_type *old_data, uint64_t *old_bitmap,
                          size_t old_size, size_t new_size)
     {
-        size_t data_size = sizeof(data_type) * new_size;
-        size_t bitmap_size = new_size >> 2;
+        size_t data_size = data_bytes(new_size);
+        size_t bitmap_size = bitmap_bytes(new_size);
         size_t total_size = data_size + bitmap_size;
 
         assert(is_pow2(new_size));
@@ -237,8 +240,8 @@ struct hashmap
 
     void clear()
     {
-        size_t data_size = sizeof(data_type) * limit;
-        size_t bitmap_size = limit >> 2;
+        size_t data_size = data_bytes(limit);
+        size_t bitmap_size = bitmap_bytes(limit);
         size_t total_size = data_size + bitmap_size;
         memset(data, 0, total_size);
         used = tombs = 0;
-- 
2.43.0


From 30e8812303ffed10fcf2649e6ae1284083429fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:05 +0000
Subject: [PATCH 28/77] fix: do not insert a second copy of a hashmap key that
 follows a deleted slot

---
 include/crefl/hashmap.h | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/crefl/hashmap.h b/include/crefl/hashmap.h
index 7b6f9e9..b4bcc53 100644
--- a/include/crefl/hashmap.h
+++ b/include/crefl/hashmap.h
@@ -250,9 +250,22 @@ struct hashmap
     iterator insert(iterator i, const value_type& val) { return insert(val); }
     iterator insert(Key key, Value val) { return insert(value_type(key, val)); }
 
+    /* slot holding key or the slot to use to insert key. the probe can only
+     * stop at an available slot because key may follow deleted slots. */
+    size_t find_slot(const Key &key)
+    {
+        size_t slot = limit;
+        for (size_t i = key_index(key); ; i = (i+1) & index_mask()) {
+            bitmap_state state = bitmap_get(bitmap, i);
+                 if (state == available) return slot == limit ? i : slot;
+            else if (state == deleted) { if (slot == limit) slot = i; }
+            else if (_compare(data[i].first, key)) return i;
+        }
+    }
+
     iterator insert(const value_type& v)
     {
-        for (size_t i = key_index(v.first); ; i = (i+1) & index_mask()) {
+        for (size_t i = find_slot(v.first); ; i = (i+1) & index_mask()) {
             bitmap_state state = bitmap_get(bitmap, i);
             if ((state & occupied) != occupied) {
                 bitmap_set(bitmap, i, occupied);
@@ -281,7 +294,7 @@ struct hashmap
 
     Value& operator[](const Key &key)
     {
-        for (size_t i = key_index(key); ; i = (i+1) & index_mask()) {
+        for (size_t i = find_slot(key); ; i = (i+1) & index_mask()) {
             bitmap_state state = bitmap_get(bitmap, i);
             if ((state & occupied) != occupied) {
                 bitmap_set(bitmap, i, occupied);
-- 
2.43.0


From e7a095655619d247625ededf3a73283ceb20810c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:05 +0000
Subject: [PATCH 29/77] fix: do not visit a slot past the end when iterating an
 empty hashmap

---
 include/crefl/hashmap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/crefl/hashmap.h b/include/crefl/hashmap.h
index b4bcc53..229f825 100644
--- a/include/crefl/hashmap.h
+++ b/include/crefl/hashmap.h
@@ -175,7 +175,7 @@ struct hashmap
     inline size_t hash_index(uint64_t h) { return h & index_mask(); }
     inline size_t key_index(Key key) { return hash_index(_hasher(key)); }
     inline hasher hash_function() const { return _hasher; }
-    inline iterator begin() { return iterator{ this, 0 }; }
+    inline iterator begin() { iterator i{ this, 0 }; i.i = i.step(0); return i; }
     inline iterator end() { return iterator{ this, limit }; }
 
     /*
-- 
2.43.0


From d2d47081e9f6f19c7329d29a1fbd95245343ec65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:05 +0000
Subject: [PATCH 30/77] fix: do not leak or free live storage in hashmap
 assignment

---
 include/crefl/hashmap.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/crefl/hashmap.h b/include/crefl/hashmap.h
index 229f825..9df1151 100644
--- a/include/crefl/hashmap.h
+++ b/include/crefl/hashmap.h
@@ -133,6 +133,8 @@ struct hashmap
 
     inline hashmap& operator=(const hashmap &o)
     {
+        if (this == &o) return *this;
+
         free(data);
 
         used = o.used;
@@ -152,6 +154,10 @@ struct hashmap
 
     inline hashmap& operator=(hashmap &&o)
     {
+        if (this == &o) return *this;
+
+        free(data);
+
         data = o.data;
         bitmap = o.bitmap;
         used = o.used;
-- 
2.43.0


From 242ac32ff598486e781e8a555e5f151730f53ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:05 +0000
Subject: [PATCH 31/77] fix: population count of zero and of unsigned values

---
 include/crefl/bits.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/crefl/bits.h b/include/crefl/bits.h
index 7c1d988..a4cf58d 100644
--- a/include/crefl/bits.h
+++ b/include/crefl/bits.h
@@ -47,8 +47,8 @@ static inline unsigned clz_u32(__bits_u32 val) { return val == 0 ? 32 : __builti
 static inline unsigned clz_u64(__bits_u64 val) { return val == 0 ? 64 : __builtin_clzll(val); }
 static inline unsigned ctz_u32(__bits_u32 val) { return val == 0 ? 32 : __builtin_ctz(val); }
 static inline unsigned ctz_u64(__bits_u64 val) { return val == 0 ? 64 : __builtin_ctzll(val); }
-static inline unsigned popcnt_u32(__bits_u32 val) { return val == 0 ? 32 : __builtin_popcount(val); }
-static inline unsigned popcnt_u64(__bits_u64 val) { return val == 0 ? 64 : __builtin_popcountll(val); }
+static inline unsigned popcnt_u32(__bits_u32 val) { return __builtin_popcount(val); }
+static inline unsigned popcnt_u64(__bits_u64 val) { return __builtin_popcountll(val); }
 #define _bits_defined (_clz_defined | _ctz_defined | _popcnt_defined)
 #elif defined (_MSC_VER) && defined (_M_X64)
 static inline unsigned clz_u32(__bits_u32 val) { return (int)_lzcnt_u32(val); }
@@ -158,8 +158,8 @@ static inline unsigned ctz_u64(__bits_u64 v)
 	unsigned int: ctz_u32, signed int: ctz_u32, \
 	unsigned long long: ctz_u64, signed long long: ctz_u64)(X)
 #define popcnt(X) _Generic((X), \
-	unsigned int: ctz_u32, signed int: popcnt_u32, \
-	unsigned long long: ctz_u64, signed long long: popcnt_u64)(X)
+	unsigned int: popcnt_u32, signed int: popcnt_u32, \
+	unsigned long long: popcnt_u64, signed long long: popcnt_u64)(X)
 #endif
 
 /*
-- 
2.43.0


From c0cf2446d0f9290054e2e3404d0467ac5553b7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:05 +0000
Subject: [PATCH 32/77] fix: allow printing a single declaration row outside of
 a full dump

---
 src/dump.cc | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/dump.cc b/src/dump.cc
index 9c0e112..d2d1e87 100644
--- a/src/dump.cc
+++ b/src/dump.cc
@@ -218,7 +218,7 @@ crefl_db_row crefl_db_get_row(decl_db *db, decl_ref r)
 {
     decl_id tag = crefl_decl_tag(r);
     decl_entry_ref er = crefl_entry_ref(ld, r);
-    decl_entry *ent = crefl_entry_ptr(er);
+    decl_hash hash = crefl_entry_ptr(er)->hash;
     decl_node *d = crefl_decl_ptr(r);
 
     std::string fqn;
@@ -257,7 +257,7 @@ crefl_db_row crefl_db_get_row(decl_db *db, decl_ref r)
     return crefl_db_row {
         crefl_decl_idx(r), d->_attr, d->_next, d->_link, crefl_tag_name(tag),
         crefl_decl_has_name(r) ? crefl_decl_name(r) : "(anonymous)", props,
-        _link(r), _hex_str(ent->hash.sum, sizeof(ent->hash.sum)), fqn
+        _link(r), _hex_str(hash.sum, sizeof(hash.sum)), fqn
     };
 }
 
@@ -290,7 +290,21 @@ static void _row(const crefl_field ** fields, decl_db *db, decl_ref r)
 
 void crefl_db_header_names() { _header_names(fields); }
 void crefl_db_header_lines() { _header_lines(fields); }
-void crefl_db_dump_row(decl_db *db, decl_ref r) { _row(fields, db, r); }
+
+void crefl_db_dump_row(decl_db *db, decl_ref r)
+{
+    /* scan the database unless called from crefl_db_dump */
+    decl_index *index = ld;
+    if (!index) {
+        ld = crefl_index_new();
+        crefl_index_scan(ld, db);
+    }
+    _row(fields, db, r);
+    if (!index) {
+        crefl_index_destroy(ld);
+        ld = nullptr;
+    }
+}
 
 void crefl_db_dump(decl_db *db)
 {
@@ -305,6 +319,7 @@ void crefl_db_dump(decl_db *db)
     crefl_db_header_lines();
 
     crefl_index_destroy(ld);
+    ld = nullptr;
 }
 
 void crefl_db_set_dump_fmt(enum crefl_db_dump_fmt fmt)
-- 
2.43.0


From f180f6f7dea139ed1be735912a2ba6fdeb442085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:45 +0000
Subject: [PATCH 33/77] fix: hash and merge all of the attributes of a
 declaration

---
 src/link.cc | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/link.cc b/src/link.cc
index 06cc0b0..d64407c 100644
--- a/src/link.cc
+++ b/src/link.cc
@@ -44,7 +44,7 @@
  * substituted with the node property of the same name and H(id) refers to
  * the bytes of the hash of the node with that id:
  *
- * - (T=$(tag);N=$(name);P=$(props);Q=$(quantity)[;A=<H($(attr))>][;L=H($(link))...])
+ * - (T=$(tag);N=$(name);P=$(props);Q=$(quantity)[;A=<H($(attr))>...][;L=H($(link))...])
  *
  * e.g. the integral signed intrinsic 'i64'
  *
@@ -122,10 +122,13 @@ static void crefl_hash_node_sum(decl_sum *sum, decl_index *index,
 
     if (node->_attr) {
         next = crefl_lookup(d.db, node->_attr);
-        crefl_hash_absorb(sum, attr_delimeter);
-        hash = crefl_node_hash(index, next, d, prefix);
-        crefl_hash_absorb(sum, hash_delimeter);
-        crefl_hash_update(sum, (const char*)hash->sum, sizeof(decl_hash));
+        while (crefl_decl_idx(next))  {
+            crefl_hash_absorb(sum, attr_delimeter);
+            hash = crefl_node_hash(index, next, d, prefix);
+            crefl_hash_absorb(sum, hash_delimeter);
+            crefl_hash_update(sum, (const char*)hash->sum, sizeof(decl_hash));
+            next = crefl_decl_next(next);
+        }
     }
     if (node->_link) {
         switch (crefl_decl_tag(d)) {
@@ -386,8 +389,14 @@ decl_ref crefl_copy_node(crefl_link_state *state, decl_ref d, decl_ref p,
 
     if (node->_attr) {
         next = crefl_lookup(d.db, node->_attr);
-        c = crefl_copy_node(state, next, d);
-        crefl_decl_ptr(r)->_attr = crefl_decl_idx(c);
+        while (crefl_decl_idx(next))  {
+            c = crefl_copy_node(state, next, d);
+            if (crefl_decl_idx(last)) crefl_decl_ptr(last)->_next = crefl_decl_idx(c);
+            else crefl_decl_ptr(r)->_attr = crefl_decl_idx(c);
+            last = c;
+            next = crefl_decl_next(next);
+        }
+        last = decl_ref { db, 0 };
     }
     if (node->_link) {
         switch (crefl_decl_tag(d)) {
-- 
2.43.0


From 34d36bd83097be500f9345d56e0c135bead44f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:45 +0000
Subject: [PATCH 34/77] fix: merged references to a type refer to the type and
 not to an alias

---
 src/link.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/link.cc b/src/link.cc
index d64407c..20dc87c 100644
--- a/src/link.cc
+++ b/src/link.cc
@@ -383,7 +383,6 @@ decl_ref crefl_copy_node(crefl_link_state *state, decl_ref d, decl_ref p,
         r = crefl_decl_new(db, _decl_alias);
         crefl_decl_ptr(r)->_name = crefl_name_new(db, crefl_decl_name(d));
         crefl_decl_ptr(r)->_link = crefl_decl_idx(a);
-        (*state->map)[*hash] = r;
         return r;
     }
 
-- 
2.43.0


From 57187eb4899df162bf589375b218a6983bb8d796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:45 +0000
Subject: [PATCH 35/77] fix: only treat builtin intrinsics as shared when
 merging

---
 src/link.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/link.cc b/src/link.cc
index 20dc87c..bfed528 100644
--- a/src/link.cc
+++ b/src/link.cc
@@ -358,8 +358,9 @@ decl_ref crefl_copy_node(crefl_link_state *state, decl_ref d, decl_ref p,
     decl_hash *hash = &ent->hash;
     decl_ref next, r, c, a, last = { db, 0 };
 
-    /* always return direct references to intrinsics */
-    if (crefl_decl_tag(d) == _decl_intrinsic) {
+    /* return direct references to builtin intrinsics used as types */
+    if (_is_child && crefl_decl_tag(d) == _decl_intrinsic &&
+        crefl_decl_idx(d) < d.db->decl_builtin) {
         return decl_ref {db, crefl_decl_idx(d) };
     }
 
-- 
2.43.0


From b32a92a250b55ad0a2c66da243adb4b28307380a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:45 +0000
Subject: [PATCH 36/77] fix: do not load hash keys from unaligned addresses

---
 src/link.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/link.cc b/src/link.cc
index bfed528..aadeb0c 100644
--- a/src/link.cc
+++ b/src/link.cc
@@ -323,7 +323,12 @@ static std::string _hex_str(const uint8_t *data, size_t sz)
 
 struct _hash_fn
 {
-    size_t operator()(const decl_hash &h) const { return ((size_t*)h.sum)[0]; }
+    size_t operator()(const decl_hash &h) const
+    {
+        size_t v;
+        memcpy(&v, h.sum, sizeof(v));
+        return v;
+    }
 };
 
 bool operator==(const decl_hash &a, const decl_hash &b)
-- 
2.43.0


From 939085068c87ea485599564f9834a3c0476ae209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:45 +0000
Subject: [PATCH 37/77] fix: hash and merge aliases as the declarations they
 refer to

---
 src/link.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/link.cc b/src/link.cc
index aadeb0c..efbf19f 100644
--- a/src/link.cc
+++ b/src/link.cc
@@ -225,6 +225,16 @@ decl_hash * crefl_node_hash(decl_index *index, decl_ref d, decl_ref p, std::stri
     decl_entry_ref er = crefl_entry_ref(index, d);
     decl_entry *ent = crefl_entry_ptr(er);
 
+    /* aliases have the identity of the node they refer to */
+    if (crefl_is_alias(d) && !(ent->props & decl_entry_marked)) {
+        ent->props |= decl_entry_marked;
+        decl_hash hash = *crefl_node_hash(index, crefl_decl_link(d), p, prefix);
+        ent = crefl_entry_ptr(er); /* revalidate due to realloc */
+        ent->hash = hash;
+        ent->props |= decl_entry_valid;
+        return &ent->hash;
+    }
+
     prefix = crefl_node_name(d, p, prefix);
 
     if ((ent->props & decl_entry_valid) != decl_entry_valid) {
@@ -356,6 +366,9 @@ bool _should_copy(decl_ref d)
 decl_ref crefl_copy_node(crefl_link_state *state, decl_ref d, decl_ref p,
     bool _is_child = false)
 {
+    /* aliases stand for the node they refer to */
+    while (crefl_is_alias(d)) d = crefl_decl_link(d);
+
     decl_db *db = state->db;
     decl_node *node = crefl_decl_ptr(d);
     decl_entry_ref er = crefl_entry_ref(state->src_ld, d);
-- 
2.43.0


From 6e5f4a91348ecb23508d03a3b16b3b86a6393d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:45 +0000
Subject: [PATCH 38/77] fix: merge the sources of archives into the new archive

---
 src/link.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/link.cc b/src/link.cc
index efbf19f..5b569db 100644
--- a/src/link.cc
+++ b/src/link.cc
@@ -470,10 +470,16 @@ int crefl_link_merge(decl_db *db, const char *name, decl_db **srcn, size_t n)
         crefl_link_state state{ &map, db, ld, src_ld };
         decl_ref d = crefl_lookup(srcn[i], srcn[i]->root_element);
         decl_ref p = crefl_decl_void(d);
-        decl_ref o = crefl_copy_node(&state, d, p);
-        if (crefl_decl_idx(l)) crefl_decl_ptr(l)->_next = crefl_decl_idx(o);
-        else crefl_decl_ptr(r)->_link = crefl_decl_idx(o);
-        l = o;
+        /* the sources of an archive become sources of the new archive */
+        bool is_archive = crefl_is_archive(d);
+        if (is_archive) d = crefl_decl_link(d);
+        while (crefl_decl_idx(d)) {
+            decl_ref o = crefl_copy_node(&state, d, p);
+            if (crefl_decl_idx(l)) crefl_decl_ptr(l)->_next = crefl_decl_idx(o);
+            else crefl_decl_ptr(r)->_link = crefl_decl_idx(o);
+            l = o;
+            d = is_archive ? crefl_decl_next(d) : crefl_decl_void(d);
+        }
         crefl_index_destroy(src_ld);
     }
 
-- 
2.43.0


From 65150a5d2c5626af9ca2338b7ce8e67919d82647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:12 +0000
Subject: [PATCH 39/77] fix: reject metadata in which a declaration contains
 itself

---
 src/db.cc | 94 +++++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 94 insertions(+)

diff --git a/src/db.cc b/src/db.cc
index 695b520..b2710c8 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -48,6 +48,95 @@ size_t crefl_db_size(decl_db *db)
     return total_sz;
 }
 
+/*
+ * decl db verification
+ *
+ * check that no declaration contains itself so that traversals terminate.
+ * lists are followed using `next`, containers contain the list at `link`,
+ * other nodes contain the type at `link`, and `attr` is a list. types may
+ * only refer back to themselves using pointers to collection types.
+ */
+
+static bool _is_collection(decl_ref d)
+{
+    return crefl_is_set(d) || crefl_is_enum(d) || crefl_is_struct(d) ||
+           crefl_is_union(d) || crefl_is_function(d);
+}
+
+static bool _is_container(decl_ref d)
+{
+    return _is_collection(d) || crefl_is_source(d) || crefl_is_archive(d);
+}
+
+/* find nodes that refer to a collection directly or via qualifiers, etc. */
+static std::vector<char> _collection_refs(decl_db *db)
+{
+    enum { unseen, active, no, yes };
+
+    std::vector<char> state(db->decl_offset, unseen);
+    std::vector<size_t> path;
+
+    for (size_t i = 0; i < db->decl_offset; i++) {
+        decl_ref d = crefl_lookup(db, i);
+        while (state[d.decl_idx] == unseen && crefl_decl_idx(d) &&
+               !_is_container(d) && !crefl_is_pointer(d)) {
+            state[d.decl_idx] = active;
+            path.push_back(d.decl_idx);
+            d = crefl_decl_link(d);
+        }
+        if (state[d.decl_idx] != no && state[d.decl_idx] != yes) {
+            state[d.decl_idx] = _is_collection(d) ? yes : no;
+        }
+        for (size_t p : path) state[p] = state[d.decl_idx];
+        path.clear();
+    }
+    for (auto &s : state) s = s == yes;
+
+    return state;
+}
+
+static bool _contains_itself(decl_db *db)
+{
+    enum { unseen, active, done };
+
+    /* visit each node as a type (2 * i) and as the head of a list (2 * i + 1) */
+    std::vector<char> state(db->decl_offset * 2, unseen);
+    std::vector<char> refs = _collection_refs(db);
+    std::vector<size_t> stack;
+
+    for (size_t i = 2; i < db->decl_offset * 2; i++) {
+        stack.push_back(i);
+        while (stack.size() > 0) {
+            size_t v = stack.back(), edges[2] = { 0, 0 };
+            if (state[v] != unseen) {
+                state[v] = done;
+                stack.pop_back();
+                continue;
+            }
+            state[v] = active;
+            decl_ref d = crefl_lookup(db, v >> 1);
+            decl_node *node = crefl_decl_ptr(d);
+            if (v & 1) {
+                edges[0] = v - 1;
+                edges[1] = (size_t)node->_next * 2 + 1;
+            } else {
+                edges[0] = (size_t)node->_attr * 2 + 1;
+                if (_is_container(d)) {
+                    edges[1] = (size_t)node->_link * 2 + 1;
+                } else if (!crefl_is_pointer(d) || !refs[node->_link]) {
+                    edges[1] = (size_t)node->_link * 2;
+                }
+            }
+            for (size_t e : edges) {
+                if (e < 2) continue;
+                if (state[e] == active) return true;
+                if (state[e] == unseen) stack.push_back(e);
+            }
+        }
+    }
+    return false;
+}
+
 /*
  * decl db memory io
  */
@@ -143,6 +232,11 @@ int crefl_db_read_mem(decl_db *db, const uint8_t *buf, size_t input_sz)
         }
     }
 
+    if (_contains_itself(db)) {
+        fprintf(stderr, "crefl: *** error: decl contains itself\n");
+        return -1;
+    }
+
     return 0;
 }
 
-- 
2.43.0


From cf24d985927bac5778d1a50db7951d6bc8e2160a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:43 +0000
Subject: [PATCH 40/77] fix: keep all of the attributes of a declaration

---
 src/reflect.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reflect.cc b/src/reflect.cc
index 6dc47a5..1a81322 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -228,7 +228,7 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
                 std::string annotation = cast<AnnotateAttr>(*at).getAnnotation().str();
                 last = create_attribute_string(last, "annotate", annotation.c_str());
             }
-            if (crefl_decl_idx(last)) result = crefl_decl_idx(last);
+            if (!result) result = crefl_decl_idx(last);
         }
         return result;
     }
-- 
2.43.0


From 24641ea81614200f70ccef6cd5e1aad6691b2037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:43 +0000
Subject: [PATCH 41/77] fix: do not follow declarations inside of function
 bodies

---
 src/reflect.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/reflect.cc b/src/reflect.cc
index 1a81322..df08eea 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -420,6 +420,9 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
         return r;
     }
 
+    /* declarations inside of function bodies and expressions are private */
+    bool TraverseStmt(Stmt *s) { return true; }
+
     decl_set get_cvr_props(QualType q)
     {
         int props = 0;
-- 
2.43.0


From 14ad0ed28ad5ad2f46f54d6cf5f3aebef640ffd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:43 +0000
Subject: [PATCH 42/77] fix: keep references to types that are declared later

---
 src/reflect.cc | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/reflect.cc b/src/reflect.cc
index df08eea..e605120 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -233,6 +233,20 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
         return result;
     }
 
+    /* find node for a type or create one if its declaration comes later */
+    decl_ref get_named_node(const NamedDecl *d, decl_tag tag)
+    {
+        decl_id idx = idmap[d->Decl::getID()];
+        if (idx) return decl_ref { db, idx };
+
+        decl_ref r = crefl_decl_new(db, tag);
+        crefl_decl_ptr(r)->_name = crefl_name_new(db,
+            d->NamedDecl::getNameAsString().c_str());
+        idmap[d->Decl::getID()] = crefl_decl_idx(r);
+
+        return r;
+    }
+
     decl_ref get_intrinsic_type(const QualType q)
     {
         decl_ref tr = crefl_intrinsic(db, _decl_void, 0);
@@ -267,17 +281,17 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
         else if (_is_enum) {
             const EnumType *et = q->getAs<EnumType>();
             const EnumDecl *ed = et->getDecl();
-            tr = decl_ref { db, idmap[ed->getID()] };
+            tr = get_named_node(ed, _decl_enum);
         }
         else if (_is_struct) {
             const RecordType *rt = q->getAsStructureType();
             const RecordDecl *rd = rt->getDecl();
-            tr = decl_ref { db, idmap[rd->getID()] };
+            tr = get_named_node(rd, _decl_struct);
         }
         else if (_is_union) {
             const RecordType *rt = q->getAsUnionType();
             const RecordDecl *rd = rt->getDecl();
-            tr = decl_ref { db, idmap[rd->getID()] };
+            tr = get_named_node(rd, _decl_union);
         }
         else if (_is_complex) {
             tr = crefl_intrinsic(db, _decl_cfloat, t.Width);
@@ -382,13 +396,8 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
 
     decl_ref create_named_node(NamedDecl *d, decl_tag tag)
     {
-        /* create node */
-        decl_ref r = crefl_decl_new(db, tag);
-        crefl_decl_ptr(r)->_name = crefl_name_new(db,
-            d->NamedDecl::getNameAsString().c_str());
-
-        /* record clang -> crefl id */
-        idmap[d->Decl::getID()] = crefl_decl_idx(r);
+        /* create node and record clang -> crefl id */
+        decl_ref r = get_named_node(d, tag);
 
         /* find parent id */
         const auto& parents = context.getParents(*d);
-- 
2.43.0


From 21cfba059ca073eb95b75765754a10f53eeab3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:43 +0000
Subject: [PATCH 43/77] fix: keep qualifiers of incomplete and typedef types
 and references to incomplete types

---
 src/reflect.cc | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/reflect.cc b/src/reflect.cc
index e605120..c3d0509 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -259,13 +259,13 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
         bool _is_union = q->isUnionType();
         bool _is_struct = q->isStructureOrClassType();
         bool _is_enum = q->isEnumeralType();
-        bool _is_const = (q.getLocalFastQualifiers() & Qualifiers::Const);
-        bool _is_restrict = (q.getLocalFastQualifiers() & Qualifiers::Restrict);
-        bool _is_volatile = (q.getLocalFastQualifiers() & Qualifiers::Volatile);
+        bool _is_const = q.isConstQualified();
+        bool _is_restrict = q.isRestrictQualified();
+        bool _is_volatile = q.isVolatileQualified();
 
-        if (!_is_array && q->isIncompleteType()) return tr;
+        bool _is_incomplete = !_is_array && q->isIncompleteType();
 
-        TypeInfo t = context.getTypeInfo(q);
+        TypeInfo t = context.getTypeInfo(_is_incomplete ? context.VoidTy : q);
 
         if (_is_pointer) {
             const QualType pq = q->getPointeeType();
@@ -360,6 +360,9 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
             crefl_decl_ptr(tr)->_name = crefl_name_new(db, name.c_str());
             crefl_decl_ptr(tr)->_props |= -(int)is_static & _decl_static;
         }
+        else if (_is_incomplete) {
+            /* void */
+        }
         else if (_is_vector) {
             const VectorType *vt = q->getAs<VectorType>();
             // TODO
-- 
2.43.0


From 17af43ee5c0d07bfad8fa73e3830d1c26f03e4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:43 +0000
Subject: [PATCH 44/77] fix: keep the attributes of parameters

---
 src/reflect.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/reflect.cc b/src/reflect.cc
index c3d0509..5e4f757 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -664,6 +664,7 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
                 parm->NamedDecl::getNameAsString().c_str());
             crefl_decl_ptr(pr)->_next = crefl_decl_idx(ar);
             crefl_decl_ptr(ar)->_link = crefl_decl_idx(get_intrinsic_type(q));
+            crefl_decl_ptr(ar)->_attr = create_attributes(parms[i], ar);
             pr = ar;
         }
 
-- 
2.43.0


From 1f45ad83a8127512f5b5a5ea624f8b27d5873c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:43 +0000
Subject: [PATCH 45/77] fix: exit with an error when reflection metadata cannot
 be written

---
 src/reflect.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/reflect.cc b/src/reflect.cc
index 5e4f757..91adba6 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -708,7 +708,7 @@ bool ReflectAction::ParseArgs(const CompilerInstance &ci,
         if (argv[i] == "-o") {
             if (++i == argc) {
                 fprintf(stderr, "error: -o requires parameter\n");
-                exit(0);
+                exit(1);
             }
             outputFile = argv[i++];
         } else if (argv[i] == "-debug") {
@@ -717,12 +717,12 @@ bool ReflectAction::ParseArgs(const CompilerInstance &ci,
             ++i; dump = true;
         } else {
             fprintf(stderr, "error: unknown option: %s\n", argv[i].c_str());
-            exit(0);
+            exit(1);
         }
     }
     if (!dump && !debug && !outputFile.size()) {
         fprintf(stderr, "error: missing args: -dump, -debug, -o <outputFile>\n");
-        exit(0);
+        exit(1);
     }
     return true;
 }
@@ -748,7 +748,10 @@ void ReflectAction::EndSourceFileAction()
         crefl_db_dump(db);
     }
     if (outputFile.size()) {
-        crefl_db_write_file(db, outputFile.c_str());
+        if (crefl_db_write_file(db, outputFile.c_str()) != 0) {
+            fprintf(stderr, "error: writing %s\n", outputFile.c_str());
+            exit(1);
+        }
     }
     crefl_db_destroy(db);
 
-- 
2.43.0


From 18f861066115789a691a102d42ff5f9f32d4abac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:38 +0000
Subject: [PATCH 46/77] fix: print the elements of constructed values only,
 stay inside the input and report errors in asn1tool

---
 tool/asn1tool.cc | 68 +++++++++++++++++++++++++++++++-----------------
 1 file changed, 44 insertions(+), 24 deletions(-)

diff --git a/tool/asn1tool.cc b/tool/asn1tool.cc
index 90f6b9b..7e5d859 100644
--- a/tool/asn1tool.cc
+++ b/tool/asn1tool.cc
@@ -48,80 +48,96 @@ extern const char* asn1_tag_names[];
 
 static int read_asn1(crefl_buf *buf, size_t offset, size_t limit, int depth)
 {
+    const int maxdepth = 1000;
+
     asn1_hdr hdr;
     std::string indent, undent, oid, desc;
     size_t current;
+    u64 tag;
+
+    if (depth > maxdepth) goto err;
 
     crefl_buf_seek(buf, offset);
 
     if (crefl_asn1_ber_ident_read(buf, &hdr._id) < 0) goto err;
     if (crefl_asn1_ber_length_read(buf, &hdr._length) < 0) goto err;
 
+    /* elements must end within the element that contains them */
+    current = crefl_buf_offset(buf);
+    if (current > limit || hdr._length > limit - current) goto err;
+
     indent = std::string(depth, ' ');
     indent += indent;
-    undent = std::string(15-depth, ' ');
+    undent = std::string(depth < 15 ? 15-depth : 0, ' ');
     undent += undent;
 
+    /* tag numbers of the other classes do not identify universal types */
+    tag = hdr._id._class == asn1_class_universal ?
+        hdr._id._identifier : asn1_tag_reserved;
+
     printf("[%5zu;%-5llu]%s|-%c%-20s",
-        crefl_buf_offset(buf), hdr._length,
+        current, hdr._length,
         indent.c_str(), hdr._id._constructed ? '*' : ' ',
         asn1_tag_name(hdr._id._identifier));
 
-    switch(hdr._id._identifier) {
-    case asn1_tag_set:
-    case asn1_tag_sequence:
+    if (hdr._id._constructed) {
         printf("\n");
-        do {
-            current = crefl_buf_offset(buf);
-            int ret = read_asn1(buf, current, current + hdr._length, depth+1);
+        limit = current + hdr._length;
+        while (current < limit) {
+            int ret = read_asn1(buf, current, limit, depth+1);
             if (ret < 0) return ret;
-            offset = crefl_buf_offset(buf);
-        } while (offset < limit);
-        break;
+            current = crefl_buf_offset(buf);
+        }
+        return 0;
+    }
+
+    switch(tag) {
     case asn1_tag_object_identifier:
-        current = crefl_buf_offset(buf);
         oid = oid_str(buf->data + current, hdr._length);
         desc = crefl_asn1_oid_desc(buf->data + current, hdr._length);
         printf("%s%s (%s)\n", undent.c_str(), desc.c_str(), oid.c_str());
-        crefl_buf_seek(buf, current + hdr._length);
         break;
     case asn1_tag_real:
     case asn1_tag_integer:
     case asn1_tag_bit_string:
-        current = crefl_buf_offset(buf);
         printf("%s{%s}\n", undent.c_str(),
             hex_str((const uint8_t*)buf->data + current, hdr._length).c_str());
-        crefl_buf_seek(buf, current + hdr._length);
         break;
     case asn1_tag_utc_time:
     case asn1_tag_printable_string:
-        current = crefl_buf_offset(buf);
         printf("%s\"%s\"\n", undent.c_str(),
             std::string(buf->data + current, hdr._length).c_str());
-        crefl_buf_seek(buf, current + hdr._length);
         break;
     default:
         printf("\n");
         /* skip past entries we don't understand */
-        current = crefl_buf_offset(buf);
-        crefl_buf_seek(buf, current + hdr._length);
         break;
     }
+    crefl_buf_seek(buf, current + hdr._length);
 
     return 0;
 err:
     return -1;
 }
 
-static void dump_asn1(const char *filename)
+static int dump_asn1(const char *filename)
 {
     std::vector<uint8_t> v;
-    if (crefl_read_file(v, filename) != 0) return;
+    int ret = 0;
+    if (crefl_read_file(v, filename) != 0) {
+        fprintf(stderr, "error: reading %s\n", filename);
+        return -1;
+    }
     crefl_buf *buf = crefl_buf_new(v.size());
-    memcpy(buf->data, v.data(), v.size());
-    if (read_asn1(buf, 0, v.size(), 0) < 0) {
+    if (v.size() > 0) memcpy(buf->data, v.data(), v.size());
+    do {
+        ret = read_asn1(buf, crefl_buf_offset(buf), v.size(), 0);
+    } while (ret == 0 && crefl_buf_offset(buf) < v.size());
+    if (ret < 0) {
         fprintf(stderr, "error: recurse_asn1 returned an error\n");
     }
+    crefl_buf_destroy(buf);
+    return ret;
 }
 
 int main(int argc, const char **argv)
@@ -131,7 +147,11 @@ int main(int argc, const char **argv)
     if (strcmp(argv[1], "--dump") == 0);
     else goto help_exit;
 
-    dump_asn1(argv[2]);
+    if (dump_asn1(argv[2]) < 0) exit(1);
+    if (fflush(stdout) != 0 || ferror(stdout)) {
+        fprintf(stderr, "error: writing standard output\n");
+        exit(1);
+    }
     exit(0);
 
 help_exit:
-- 
2.43.0


From 8512a0d86bb79c8e82ee6ee91e6f8272f28a789e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:24 +0000
Subject: [PATCH 47/77] fix: print the last digit of object identifiers in
 asn1tool

---
 tool/asn1tool.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tool/asn1tool.cc b/tool/asn1tool.cc
index 7e5d859..9401ede 100644
--- a/tool/asn1tool.cc
+++ b/tool/asn1tool.cc
@@ -24,6 +24,7 @@ static std::string oid_str(const char *data, size_t sz)
     len = 0;
     crefl_asn1_oid_to_string(NULL, &len, &obj);
     s.resize(len+1);
+    len = s.size();
     crefl_asn1_oid_to_string(s.data(), &len,  &obj);
     s.resize(len);
 
-- 
2.43.0


From a29153f48802ddc16c8de1bf6c31ea815c451e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:07 +0000
Subject: [PATCH 48/77] fix: encode boolean TRUE with all bits set as DER
 requires

---
 src/asn1.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index 3b63119..7c15934 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -341,7 +341,8 @@ int crefl_asn1_ber_boolean_write(crefl_buf *buf, size_t len, const bool *value)
 {
     int8_t b;
 
-    b = *value;
+    /* DER requires all eight bits of TRUE to be set */
+    b = *value ? -1 : 0;
     if (crefl_buf_write_i8(buf, b) != 1) {
         goto err;
     }
-- 
2.43.0


From 8f1eb9dad3131e05c6bd3c1dfc99a0f2d5b6f9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:27 +0000
Subject: [PATCH 49/77] fix: do not copy from the null pointer of an empty
 octet string

---
 src/asn1.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index 7c15934..f71e950 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -2615,7 +2615,9 @@ int crefl_asn1_ber_octets_write(crefl_buf *buf, size_t len, const asn1_string *o
         return -1;
     }
 
-    memcpy(span.data, obj->str, copy_count);
+    if (obj->str) {
+        memcpy(span.data, obj->str, copy_count);
+    }
     crefl_buf_seek(buf, crefl_buf_offset(buf) + len);
 
     return 0;
-- 
2.43.0


From 2330544d15684334b834eb370243f031967d454b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:02 +0000
Subject: [PATCH 50/77] fix: do not shift by the word size when reading inline
 subnormals

---
 src/asn1.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index f71e950..7e2ced0 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -1414,7 +1414,7 @@ int crefl_vf_f64_read(crefl_buf *buf, double *value)
                  * of the point hence 59 = (63 - 4) then left-justify
                  * the mantissa and truncate the leading 1. */
                 vp_exp = f64_exp_bias + 59 - lz;
-                vp_man = ((u64)vf_man << (lz + 1)) >> (f64_exp_size + 1);
+                vp_man = ((u64)vf_man << lz << 1) >> (f64_exp_size + 1);
             } else {
                 /* Zero */
                 vp_exp = 0;
@@ -1508,7 +1508,7 @@ f64_result crefl_vf_f64_read_byval(crefl_buf *buf)
                  * of the point hence 59 = (63 - 4) then left-justify
                  * the mantissa and truncate the leading 1. */
                 vp_exp = f64_exp_bias + 59 - lz;
-                vp_man = ((u64)vf_man << (lz + 1)) >> (f64_exp_size + 1);
+                vp_man = ((u64)vf_man << lz << 1) >> (f64_exp_size + 1);
             } else {
                 /* Zero */
                 vp_exp = 0;
@@ -1866,7 +1866,7 @@ int crefl_vf_f32_read(crefl_buf *buf, float *value)
                  * of the point hence 27 = (31 - 4) then left-justify
                  * the mantissa and truncate the leading 1. */
                 vp_exp = f32_exp_bias + 27 - (u32)lz;
-                vp_man = ((u32)vf_man << (lz + 1)) >> (f32_exp_size + 1);
+                vp_man = ((u32)vf_man << lz << 1) >> (f32_exp_size + 1);
             } else {
                 /* Zero */
                 vp_exp = 0;
@@ -1961,7 +1961,7 @@ f32_result crefl_vf_f32_read_byval(crefl_buf *buf)
                  * of the point hence 27 = (31 - 4) then left-justify
                  * the mantissa and truncate the leading 1. */
                 vp_exp = f32_exp_bias + 27 - (u32)lz;
-                vp_man = ((u32)vf_man << (lz + 1)) >> (f32_exp_size + 1);
+                vp_man = ((u32)vf_man << lz << 1) >> (f32_exp_size + 1);
             } else {
                 /* Zero */
                 vp_exp = 0;
-- 
2.43.0


From 2aad6a77273ed879617f96df86ec76024fd882bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:02 +0000
Subject: [PATCH 51/77] fix: omit the mantissa of variable-length subnormal
 powers of two

---
 src/asn1.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index 7e2ced0..193c94c 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -1591,7 +1591,7 @@ int crefl_vf_f64_write(crefl_buf *buf, const double *value)
             vw_man = d.frac >> tz;
             vw_exp = d.sexp - lz;
             vf_exp = (u8)crefl_le_ber_integer_s64_length_byval(vw_exp);
-            vf_man = (u8)crefl_le_ber_integer_u64_length_byval(vw_man);
+            vf_man = vw_man == 1 ? 0 : (u8)crefl_le_ber_integer_u64_length_byval(vw_man);
             pre = 0x80 | (d.sign << 6) | (vf_exp << 4) | vf_man;
         }
         else if (d.frac == 0) {
@@ -1698,7 +1698,7 @@ int crefl_vf_f64_write_byval(crefl_buf *buf, const double value)
             vw_man = d.frac >> tz;
             vw_exp = d.sexp - lz;
             vf_exp = (u8)crefl_le_ber_integer_s64_length_byval(vw_exp);
-            vf_man = (u8)crefl_le_ber_integer_u64_length_byval(vw_man);
+            vf_man = vw_man == 1 ? 0 : (u8)crefl_le_ber_integer_u64_length_byval(vw_man);
             pre = 0x80 | (d.sign << 6) | (vf_exp << 4) | vf_man;
         }
         else if (d.frac == 0) {
@@ -2044,7 +2044,7 @@ int crefl_vf_f32_write(crefl_buf *buf, const float *value)
             vw_man = d.frac >> tz;
             vw_exp = d.sexp - (u32)lz;
             vf_exp = (u8)crefl_le_ber_integer_s64_length_byval(vw_exp);
-            vf_man = (u8)crefl_le_ber_integer_u64_length_byval(vw_man);
+            vf_man = vw_man == 1 ? 0 : (u8)crefl_le_ber_integer_u64_length_byval(vw_man);
             pre = 0x80 | (d.sign << 6) | (vf_exp << 4) | vf_man;
         }
         else if (d.frac == 0) {
@@ -2151,7 +2151,7 @@ int crefl_vf_f32_write_byval(crefl_buf *buf, const float value)
             vw_man = d.frac >> tz;
             vw_exp = d.sexp - (u32)lz;
             vf_exp = (u8)crefl_le_ber_integer_s64_length_byval(vw_exp);
-            vf_man = (u8)crefl_le_ber_integer_u64_length_byval(vw_man);
+            vf_man = vw_man == 1 ? 0 : (u8)crefl_le_ber_integer_u64_length_byval(vw_man);
             pre = 0x80 | (d.sign << 6) | (vf_exp << 4) | vf_man;
         }
         else if (d.frac == 0) {
-- 
2.43.0


From 43356cf5399bcd6a0b9436079902f55a5f66fe36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:52 +0000
Subject: [PATCH 52/77] fix: signed overflow in portable ctz of the most
 negative value

---
 include/crefl/bits.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/crefl/bits.h b/include/crefl/bits.h
index a4cf58d..5a25454 100644
--- a/include/crefl/bits.h
+++ b/include/crefl/bits.h
@@ -122,7 +122,7 @@ static inline unsigned clz_u64(__bits_u64 x)
 static inline unsigned ctz_u32(__bits_u32 v)
 {
     unsigned c = 32;
-    v &= -(__bits_s32)v;
+    v &= 0 - v;
     if (v) c--;
     if (v & 0x0000FFFF) c -= 16;
     if (v & 0x00FF00FF) c -= 8;
@@ -135,7 +135,7 @@ static inline unsigned ctz_u32(__bits_u32 v)
 static inline unsigned ctz_u64(__bits_u64 v)
 {
     unsigned c = 64;
-    v &= -(__bits_s64)v;
+    v &= 0 - v;
     if (v) c--;
     if (v & 0x00000000FFFFFFFFULL) c -= 32;
     if (v & 0x0000FFFF0000FFFFULL) c -= 16;
-- 
2.43.0


From 791a4b975f3e2ccd530257bb81425e84b00ea6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:52 +0000
Subject: [PATCH 53/77] fix: C generic byte order macros naming functions that
 are macros

---
 include/crefl/endian.h | 69 ++++++++++++++++++++++--------------------
 1 file changed, 37 insertions(+), 32 deletions(-)

diff --git a/include/crefl/endian.h b/include/crefl/endian.h
index 9e7f1b5..7f0da1b 100644
--- a/include/crefl/endian.h
+++ b/include/crefl/endian.h
@@ -289,15 +289,15 @@ static inline uint64_t le64toh(uint64_t x) { return le64(x); }
 #endif
 
 #if __SIZE_WIDTH__ == 64
-#define _htobel htobe64
-#define _beltoh be64toh
-#define _htolel htole64
-#define _leltoh le64toh
+#define _htobel be64
+#define _beltoh be64
+#define _htolel le64
+#define _leltoh le64
 #else
-#define _htobel htobe32
-#define _beltoh be32toh
-#define _htolel htole32
-#define _leltoh le32toh
+#define _htobel be32
+#define _beltoh be32
+#define _htolel le32
+#define _leltoh le32
 #endif
 
 #ifdef __cplusplus
@@ -306,48 +306,53 @@ static inline uint64_t le64toh(uint64_t x) { return le64(x); }
 
 #if __STDC_VERSION__ >= 201112L
 
+/*
+ * host integer functions are macros on some systems and
+ * cannot be named in generic selections so we use our own
+ */
+
 #define htobe(X) _Generic((X),                \
-                 short: htobe16,              \
-                 unsigned short: htobe16,     \
-                 int: htobe32,                \
-                 unsigned int: htobe32,       \
+                 short: be16,              \
+                 unsigned short: be16,     \
+                 int: be32,                \
+                 unsigned int: be32,       \
                  long: _htobel,               \
                  unsigned long: _htobel,      \
-                 long long: htobe64,          \
-                 unsigned long long: htobe64  \
+                 long long: be64,          \
+                 unsigned long long: be64  \
                  )(X)
 
 #define betoh(X) _Generic((X),                \
-                 short: be16toh,              \
-                 unsigned short: be16toh,     \
-                 int: be32toh,                \
-                 unsigned int: be32toh,       \
+                 short: be16,              \
+                 unsigned short: be16,     \
+                 int: be32,                \
+                 unsigned int: be32,       \
                  long: _beltoh,               \
                  unsigned long: _beltoh,      \
-                 long long: be64toh,          \
-                 unsigned long long: be64toh  \
+                 long long: be64,          \
+                 unsigned long long: be64  \
                  )(X)
 
 #define htole(X) _Generic((X),                \
-                 short: htole16,              \
-                 unsigned short: htole16,     \
-                 int: htole32,                \
-                 unsigned int: htole32,       \
+                 short: le16,              \
+                 unsigned short: le16,     \
+                 int: le32,                \
+                 unsigned int: le32,       \
                  long: _htolel,               \
                  unsigned long: _htolel,      \
-                 long long: htole64,          \
-                 unsigned long long: htole64  \
+                 long long: le64,          \
+                 unsigned long long: le64  \
                  )(X)
 
 #define letoh(X) _Generic((X),                \
-                 short: le16toh,              \
-                 unsigned short: le16toh,     \
-                 int: le32toh,                \
-                 unsigned int: le32toh,       \
+                 short: le16,              \
+                 unsigned short: le16,     \
+                 int: le32,                \
+                 unsigned int: le32,       \
                  long: _leltoh,               \
                  unsigned long: _leltoh,      \
-                 long long: le64toh,          \
-                 unsigned long long: le64toh  \
+                 long long: le64,          \
+                 unsigned long long: le64  \
                  )(X)
 
 #else
-- 
2.43.0


From f406bfdfdd872a6ed48d76cfa3bd20cb4641ca0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:32 +0000
Subject: [PATCH 54/77] fix: find declarations that contain themselves via
 attributes of a pointee

The attributes of qualifiers and typedefs between a pointer and the
collection it refers to were not followed, so that an image in which such
an attribute leads back to the pointer was accepted and merging it
recursed without end.
---
 src/db.cc | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/db.cc b/src/db.cc
index b2710c8..3a3ec95 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -98,13 +98,14 @@ static std::vector<char> _collection_refs(decl_db *db)
 static bool _contains_itself(decl_db *db)
 {
     enum { unseen, active, done };
+    enum { type, list, pointee, kinds };
 
-    /* visit each node as a type (2 * i) and as the head of a list (2 * i + 1) */
-    std::vector<char> state(db->decl_offset * 2, unseen);
+    /* visit each node as a type, as the head of a list and as a pointee */
+    std::vector<char> state(db->decl_offset * kinds, unseen);
     std::vector<char> refs = _collection_refs(db);
     std::vector<size_t> stack;
 
-    for (size_t i = 2; i < db->decl_offset * 2; i++) {
+    for (size_t i = kinds; i < db->decl_offset * kinds; i++) {
         stack.push_back(i);
         while (stack.size() > 0) {
             size_t v = stack.back(), edges[2] = { 0, 0 };
@@ -114,21 +115,25 @@ static bool _contains_itself(decl_db *db)
                 continue;
             }
             state[v] = active;
-            decl_ref d = crefl_lookup(db, v >> 1);
+            decl_ref d = crefl_lookup(db, v / kinds);
             decl_node *node = crefl_decl_ptr(d);
-            if (v & 1) {
-                edges[0] = v - 1;
-                edges[1] = (size_t)node->_next * 2 + 1;
-            } else {
-                edges[0] = (size_t)node->_attr * 2 + 1;
+            size_t kind = v % kinds;
+            if (kind == list) {
+                edges[0] = crefl_decl_idx(d) * kinds + type;
+                edges[1] = (size_t)node->_next * kinds + list;
+            } else if (kind == type || !_is_collection(d)) {
+                edges[0] = (size_t)node->_attr * kinds + list;
                 if (_is_container(d)) {
-                    edges[1] = (size_t)node->_link * 2 + 1;
-                } else if (!crefl_is_pointer(d) || !refs[node->_link]) {
-                    edges[1] = (size_t)node->_link * 2;
+                    edges[1] = (size_t)node->_link * kinds + list;
+                } else if ((kind == pointee || crefl_is_pointer(d)) &&
+                           refs[node->_link]) {
+                    edges[1] = (size_t)node->_link * kinds + pointee;
+                } else {
+                    edges[1] = (size_t)node->_link * kinds + type;
                 }
             }
             for (size_t e : edges) {
-                if (e < 2) continue;
+                if (e < kinds) continue;
                 if (state[e] == active) return true;
                 if (state[e] == unseen) stack.push_back(e);
             }
-- 
2.43.0


From f740e16ce8db718a922529757c902842506d76b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:57 +0000
Subject: [PATCH 55/77] fix: store the type and attributes of a declaration
 after creating them

Creating a node can move the node array. The plugin is compiled as C++14, where
the left side of an assignment may be evaluated first and then point to the old
array, so links to types and attributes were lost and freed memory was written.
---
 src/reflect.cc | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/reflect.cc b/src/reflect.cc
index 91adba6..43197b3 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -233,6 +233,10 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
         return result;
     }
 
+    /* set links to nodes created by the argument, which can move the node */
+    void set_link(decl_ref r, decl_ref l) { crefl_decl_ptr(r)->_link = crefl_decl_idx(l); }
+    void set_attr(decl_ref r, decl_id attr) { crefl_decl_ptr(r)->_attr = attr; }
+
     /* find node for a type or create one if its declaration comes later */
     decl_ref get_named_node(const NamedDecl *d, decl_tag tag)
     {
@@ -491,8 +495,8 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
 
         /* create typedef */
         decl_ref r = create_named_node(d, _decl_typedef);
-        crefl_decl_ptr(r)->_link = crefl_decl_idx(get_intrinsic_type(q));
-        crefl_decl_ptr(r)->_attr = create_attributes(d, r);
+        set_link(r, get_intrinsic_type(q));
+        set_attr(r, create_attributes(d, r));
 
         last = r;
 
@@ -518,7 +522,7 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
 
         /* create enum */
         decl_ref r = create_named_node(d, _decl_enum);
-        crefl_decl_ptr(r)->_attr = create_attributes(d, r);
+        set_attr(r, create_attributes(d, r));
         crefl_decl_ptr(r)->_width = t.Width;
 
         stack.push_back(r);
@@ -544,9 +548,9 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
 
         /* create constant */
         decl_ref r = create_named_node(d, _decl_constant);
-        crefl_decl_ptr(r)->_link = crefl_decl_idx(get_intrinsic_type(q));
+        set_link(r, get_intrinsic_type(q));
         crefl_decl_ptr(r)->_value = value;
-        crefl_decl_ptr(r)->_attr = create_attributes(d, r);
+        set_attr(r, create_attributes(d, r));
 
         last = r;
 
@@ -584,7 +588,7 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
 
             /* create struct */
             decl_ref r = create_named_node(d, tag);
-            crefl_decl_ptr(r)->_attr = create_attributes(d, r);
+            set_attr(r, create_attributes(d, r));
 
             stack.push_back(r);
             last = decl_ref { db, 0 };
@@ -613,10 +617,10 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
 
         /* create field */
         decl_ref r = create_named_node(d, _decl_field);
-        crefl_decl_ptr(r)->_link = crefl_decl_idx(get_intrinsic_type(q));
+        set_link(r, get_intrinsic_type(q));
         crefl_decl_ptr(r)->_width = width;
         crefl_decl_ptr(r)->_props |= (-(int)d->isBitField() & _decl_bitfield);
-        crefl_decl_ptr(r)->_attr = create_attributes(d, r);
+        set_attr(r, create_attributes(d, r));
 
         last = r;
 
@@ -635,7 +639,7 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
 
         /* create function */
         decl_ref r = create_named_node(d, _decl_function);
-        crefl_decl_ptr(r)->_attr = create_attributes(d, r);
+        set_attr(r, create_attributes(d, r));
         crefl_decl_ptr(r)->_props |=
             (-(int)d->isGlobal() & _decl_global) |
             (-(int)d->isExternC() & _decl_extern_c) |
@@ -650,7 +654,7 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
         /* create return param */
         decl_ref pr = crefl_decl_new(db, _decl_param);
         crefl_decl_ptr(last)->_link = crefl_decl_idx(pr);
-        crefl_decl_ptr(pr)->_link = crefl_decl_idx(get_intrinsic_type(qr));
+        set_link(pr, get_intrinsic_type(qr));
         crefl_decl_ptr(pr)->_props |= _decl_out;
 
         /* create argument params */
@@ -663,8 +667,8 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
             crefl_decl_ptr(ar)->_name = crefl_name_new(db,
                 parm->NamedDecl::getNameAsString().c_str());
             crefl_decl_ptr(pr)->_next = crefl_decl_idx(ar);
-            crefl_decl_ptr(ar)->_link = crefl_decl_idx(get_intrinsic_type(q));
-            crefl_decl_ptr(ar)->_attr = create_attributes(parms[i], ar);
+            set_link(ar, get_intrinsic_type(q));
+            set_attr(ar, create_attributes(parms[i], ar));
             pr = ar;
         }
 
@@ -688,11 +692,11 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
         decl_ref r = create_named_node(d, _decl_field);
         const QualType q = d->getTypeSourceInfo()->getType();
         bool is_static = d->getStorageDuration() == StorageDuration::SD_Static;
-        crefl_decl_ptr(r)->_link = crefl_decl_idx(get_intrinsic_type(q));
+        set_link(r, get_intrinsic_type(q));
         crefl_decl_ptr(r)->_props |=
             (-(int)d->isExternC() & _decl_extern_c) |
             (-(int)is_static & _decl_static);
-        crefl_decl_ptr(r)->_attr = create_attributes(d, r);
+        set_attr(r, create_attributes(d, r));
 
         last = r;
 
-- 
2.43.0


From 99c01fcf28c5b1004fd1f63e65491a5d7a1e4fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:53 +0000
Subject: [PATCH 56/77] fix: list the fields that hold anonymous structs and
 unions

Members of anonymous structs and unions took no space in the layout of the
structure that contains them.
---
 src/reflect.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/reflect.cc b/src/reflect.cc
index 43197b3..dbcae53 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -439,6 +439,15 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
     /* declarations inside of function bodies and expressions are private */
     bool TraverseStmt(Stmt *s) { return true; }
 
+    /* anonymous structs and unions are held by implicit fields */
+    bool TraverseDecl(Decl *d)
+    {
+        if (d && d->isImplicit() && isa<FieldDecl>(d)) {
+            return VisitFieldDecl(cast<FieldDecl>(d));
+        }
+        return RecursiveASTVisitor<ReflectVisitor>::TraverseDecl(d);
+    }
+
     decl_set get_cvr_props(QualType q)
     {
         int props = 0;
-- 
2.43.0


From 7028b1d1755548efa936aaf85dd761ef6f8bd560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:05 +0000
Subject: [PATCH 57/77] fix: align structures and unions without aligning
 members to a byte

A structure of no members, or of unnamed bit-fields only, was laid out at any
bit offset after a bit-field, and its size need not have been whole bytes.
---
 src/model.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/model.cc b/src/model.cc
index f194a4f..cf384e4 100644
--- a/src/model.cc
+++ b/src/model.cc
@@ -340,7 +340,7 @@ static size_t _field_place(decl_ref d, size_t *offset, size_t *align)
 
 static _alignment _struct_pad(decl_ref d)
 {
-    _alignment max = { 0 };
+    _alignment max = { 3 };
     size_t offset = 0;
 
     if (!crefl_is_struct(d)) return _alignment { 0 };
@@ -358,7 +358,7 @@ static _alignment _struct_pad(decl_ref d)
 
 static _alignment _union_pad(decl_ref d)
 {
-    _alignment max = { 0 };
+    _alignment max = { 3 };
 
     if (!crefl_is_union(d)) return _alignment { 0 };
 
@@ -396,7 +396,7 @@ static _alignment _type_pad(decl_ref d)
 int crefl_struct_fields_offsets(decl_ref d, decl_ref *r, size_t *o, size_t *s)
 {
     size_t count = 0, offset = 0, limit = s ? *s : 0;
-    _alignment max = { 0 };
+    _alignment max = { 3 };
 
     if (!crefl_is_struct(d)) return -1;
 
-- 
2.43.0


From fd084386aba6b771c18e138dc9ce867ad61ad8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:32 +0000
Subject: [PATCH 58/77] fix: dump no more bytes than the buffer holds

---
 src/buf.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/buf.cc b/src/buf.cc
index 938c96c..6df815a 100644
--- a/src/buf.cc
+++ b/src/buf.cc
@@ -56,16 +56,18 @@ int crefl_format_byte(char *buf, size_t buflen, uint8_t c)
 void crefl_buf_dump(crefl_buf *buf)
 {
     intptr_t stride = 16;
-    for (intptr_t i = 0; i < buf->data_offset; i += stride) {
+    intptr_t length = buf->data_offset < buf->data_size
+        ? buf->data_offset : buf->data_size;
+    for (intptr_t i = 0; i < length; i += stride) {
         printf("      ");
         for (intptr_t j = i+stride-1; j >= i; j--) {
-            if (j >= buf->data_offset) printf("     ");
+            if (j >= length) printf("     ");
             else printf(" 0x%02hhX", buf->data[j]);
         }
         printf("\n%04zX: ", i & 0xffff);
         for (intptr_t j = i+stride-1; j >= i; j--) {
             printf(" ");
-            if (j < buf->data_offset) {
+            if (j < length) {
                 char s[16];
                 crefl_format_byte(s, sizeof(s), buf->data[j]);
                 printf("%s", s);
-- 
2.43.0


From 845612ae75f006dc1d135a268c100e6275ae48e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:05 +0000
Subject: [PATCH 59/77] fix: keep declarations within linkage specifications
 and namespaces

---
 src/reflect.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/reflect.cc b/src/reflect.cc
index dbcae53..25ba98c 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -406,11 +406,14 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
         /* create node and record clang -> crefl id */
         decl_ref r = get_named_node(d, tag);
 
-        /* find parent id */
+        /* find parent id. linkage specifications and namespaces have no
+         * node so what they contain belongs to what they are contained in */
         const auto& parents = context.getParents(*d);
-        decl_ref p = {
-            db, parents.size() > 0 ? idmap[parents[0].get<Decl>()->getID()] : 0
-        };
+        const Decl *pd = parents.size() > 0 ? parents[0].get<Decl>() : nullptr;
+        while (pd && (isa<LinkageSpecDecl>(pd) || isa<NamespaceDecl>(pd))) {
+            pd = cast<Decl>(pd->getLexicalDeclContext());
+        }
+        decl_ref p = { db, pd ? idmap[pd->getID()] : 0 };
 
         /* pop until parent matches */
         while (stack.size() > 0 && stack.back().decl_idx != p.decl_idx) {
-- 
2.43.0


From 16485fedd79ccd78c413db7faf57f4c49efbf67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:05 +0000
Subject: [PATCH 60/77] fix: accept arrays of incomplete elements in C++
 sources

---
 src/reflect.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/reflect.cc b/src/reflect.cc
index 25ba98c..0f2c226 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -269,7 +269,9 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
 
         bool _is_incomplete = !_is_array && q->isIncompleteType();
 
-        TypeInfo t = context.getTypeInfo(_is_incomplete ? context.VoidTy : q);
+        /* elements of arrays can be incomplete too */
+        TypeInfo t = context.getTypeInfo(_is_array || _is_incomplete ?
+            context.VoidTy : q);
 
         if (_is_pointer) {
             const QualType pq = q->getPointeeType();
-- 
2.43.0


From f67718beb2fb97b7f1fbc3c064c8df6b97d105ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:05 +0000
Subject: [PATCH 61/77] fix: give the record behind va_list its fields

---
 src/reflect.cc | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/reflect.cc b/src/reflect.cc
index 0f2c226..f92a091 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -251,6 +251,29 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
         return r;
     }
 
+    /* find node for a record. implicit records such as the one that va_list
+     * stands for are not visited so create their fields when they are used */
+    decl_ref get_record_node(const RecordDecl *d, decl_tag tag)
+    {
+        bool is_new = !idmap[d->Decl::getID()];
+        decl_ref r = get_named_node(d, tag), prev = { db, 0 };
+
+        if (!is_new || !d->isImplicit()) return r;
+
+        for (const FieldDecl *fd : d->fields()) {
+            decl_ref f = get_named_node(fd, _decl_field);
+            set_link(f, get_intrinsic_type(fd->getType()));
+            if (crefl_decl_idx(prev)) {
+                crefl_decl_ptr(prev)->_next = crefl_decl_idx(f);
+            } else {
+                crefl_decl_ptr(r)->_link = crefl_decl_idx(f);
+            }
+            prev = f;
+        }
+
+        return r;
+    }
+
     decl_ref get_intrinsic_type(const QualType q)
     {
         decl_ref tr = crefl_intrinsic(db, _decl_void, 0);
@@ -292,12 +315,12 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
         else if (_is_struct) {
             const RecordType *rt = q->getAsStructureType();
             const RecordDecl *rd = rt->getDecl();
-            tr = get_named_node(rd, _decl_struct);
+            tr = get_record_node(rd, _decl_struct);
         }
         else if (_is_union) {
             const RecordType *rt = q->getAsUnionType();
             const RecordDecl *rd = rt->getDecl();
-            tr = get_named_node(rd, _decl_union);
+            tr = get_record_node(rd, _decl_union);
         }
         else if (_is_complex) {
             tr = crefl_intrinsic(db, _decl_cfloat, t.Width);
-- 
2.43.0


From 69dd6f5610be79dac18dd9549b0c88e76eabd858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:14 +0000
Subject: [PATCH 62/77] fix: report sources that one output can not hold

---
 scripts/creflcc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scripts/creflcc.py b/scripts/creflcc.py
index e6df620..98754e4 100755
--- a/scripts/creflcc.py
+++ b/scripts/creflcc.py
@@ -87,5 +87,7 @@ args = parser.parse_args()
 
 if len(args.files) == 0:
     parser.error("no input files")
+if len(args.files) > 1:
+    parser.error("more than one input file")
 
 crefl_meta(args.files, args.output, args.include, args.cpp, args.debug, args.plugin, args.no_exec)
-- 
2.43.0


From e2b03f408ba00f8cfcc2fae760e5d80f897cbf15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:14 +0000
Subject: [PATCH 63/77] fix: decode first arcs of 2 and above as the encoder
 writes them

---
 scripts/parse_oids.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/scripts/parse_oids.py b/scripts/parse_oids.py
index 8104032..4d2f310 100755
--- a/scripts/parse_oids.py
+++ b/scripts/parse_oids.py
@@ -13,16 +13,15 @@ def parse_oid(v):
     return list(map(lambda x: int(x, 16), h))
 
 def decode_oid(l):
-    c, i, r = 0, 0, []
+    c, r = 0, []
     for v in l:
         c = (c << 7) + (v & 0x7f)
         if v < 128:
-            if i == 0:
-                r += [ int(c/40), int(c%40) ]
+            if not r:
+                r += [ c // 40, c % 40 ] if c < 80 else [ 2, c - 80 ]
             else:
                 r += [ c ]
             c = 0
-        i += 1
     return r
 
 def join_oid_str(l):
-- 
2.43.0


From bdd8495e6459bad6b715f6ddfb3fd658dc765020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:53 +0000
Subject: [PATCH 64/77] fix: accept enums declared ahead of their definition

---
 src/reflect.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reflect.cc b/src/reflect.cc
index f92a091..e2cdd6b 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -554,8 +554,9 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
             d->getNumNegativeBits(),
             d->getNumPositiveBits());
 
+        /* enums declared ahead of their definition have no integer type */
         const QualType q = d->getIntegerType();
-        TypeInfo t = context.getTypeInfo(q);
+        TypeInfo t = context.getTypeInfo(q.isNull() ? context.VoidTy : q);
 
         /* create enum */
         decl_ref r = create_named_node(d, _decl_enum);
-- 
2.43.0


From 16e29930abb2a8d66de31c7b3fd8455c9205ed35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:53 +0000
Subject: [PATCH 65/77] fix: use the deduced type of variables declared with
 auto

---
 src/reflect.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reflect.cc b/src/reflect.cc
index e2cdd6b..167b204 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -728,7 +728,8 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
 
         /* create field */
         decl_ref r = create_named_node(d, _decl_field);
-        const QualType q = d->getTypeSourceInfo()->getType();
+        QualType q = d->getTypeSourceInfo()->getType();
+        if (q->getContainedDeducedType()) q = d->getType();
         bool is_static = d->getStorageDuration() == StorageDuration::SD_Static;
         set_link(r, get_intrinsic_type(q));
         crefl_decl_ptr(r)->_props |=
-- 
2.43.0


From 82e493b54b33ccea9b79d373169e3c63a49fb6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:02 +0000
Subject: [PATCH 66/77] fix: find the definition of types declared ahead of it
 in the printer sample

---
 samples/example3_printer/printer.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/samples/example3_printer/printer.c b/samples/example3_printer/printer.c
index b451933..50cfa93 100644
--- a/samples/example3_printer/printer.c
+++ b/samples/example3_printer/printer.c
@@ -186,8 +186,11 @@ decl_ref crefl_type_by_name(decl_db *db, const char *name)
         for (size_t i = 0; i < ntypes; i++) {
             decl_ref r = _types[i];
             if (crefl_is_struct(r) && strcmp(crefl_decl_name(r), name) == 0) {
+                size_t nfields = 0;
+                crefl_struct_fields(r, NULL, &nfields);
                 t = r;
-                break;
+                /* can be declared without fields ahead of its definition */
+                if (nfields > 0) break;
             }
         }
     }
-- 
2.43.0


From ffb7c2a011c84fe4ebbd912a4aacfcf4b0a44a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:02 +0000
Subject: [PATCH 67/77] fix: print long type names and large numbers in full in
 the printer sample

---
 samples/example3_printer/printer.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/samples/example3_printer/printer.c b/samples/example3_printer/printer.c
index 50cfa93..65ae943 100644
--- a/samples/example3_printer/printer.c
+++ b/samples/example3_printer/printer.c
@@ -84,15 +84,13 @@ static void _print_array(decl_ref r, void *ptr, size_t offset, size_t depth)
 
 static void _print_pointer(decl_ref r, void *ptr, size_t offset, size_t depth)
 {
-    char buf[128];
-    snprintf(buf, sizeof(buf), "(%s) 0x%016llx", crefl_decl_name(r),
+    printf("(%s) 0x%016llx", crefl_decl_name(r),
         *(u64*)ptr_offset(ptr, offset));
-    printf("%s", buf);
 }
 
 static void _print_intrinsic(decl_ref r, void *ptr, size_t offset, size_t depth)
 {
-    char buf[128];
+    char buf[512]; /* the largest doubles have 309 digits */
     _type_fmt fmt = _find_intrinsic_format(r);
     fmt.fn(buf, sizeof(buf), ptr_offset(ptr, offset));
     printf("%s", buf);
-- 
2.43.0


From 85d8b3486e340eb97b0ec5f3a1c92857d0e9bc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:59 +0000
Subject: [PATCH 68/77] fix: print the fraction of strict numbers whose
 fraction is zero

---
 scripts/ISO-6093-NR3.pl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/ISO-6093-NR3.pl b/scripts/ISO-6093-NR3.pl
index 8f7b93a..7a357bf 100755
--- a/scripts/ISO-6093-NR3.pl
+++ b/scripts/ISO-6093-NR3.pl
@@ -50,7 +50,7 @@ if ($ARGV[0] eq 'relaxed') {
     }
 }
 elsif ($ARGV[0] eq 'strict') {
-    if (my ($int, undef, undef, $frac, undef, $exp) =
+    if (my ($int, undef, $frac, undef, undef, $exp) =
             ($ARGV[1] =~ m{
                 ^
                    ( ([1-9][0-9]*) | 0 )               # integer
-- 
2.43.0


From 40ceea82de4d33e92a851b929af306ffae94f2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:13 +0000
Subject: [PATCH 69/77] fix: pass every include directory of a reflected target

---
 cmake/crefl_macro.cmake | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/cmake/crefl_macro.cmake b/cmake/crefl_macro.cmake
index 21df225..e7bd9c6 100644
--- a/cmake/crefl_macro.cmake
+++ b/cmake/crefl_macro.cmake
@@ -8,10 +8,9 @@
 
 macro(crefl_target_reflect target target_lib)
 
-	# transform includes for this target
-    get_target_property(${target}_includes ${target} INCLUDE_DIRECTORIES)
-    list(TRANSFORM ${target}_includes PREPEND "-I")
-    list(JOIN ${target}_includes " " ${target}_include_args)
+    # include directories of this target, including those it inherits
+    set(_include_dirs "$<TARGET_PROPERTY:${target},INCLUDE_DIRECTORIES>")
+    set(_include_args "$<$<BOOL:${_include_dirs}>:-I$<JOIN:${_include_dirs},;-I>>")
 
     # add custom commands that reflect on sources for this target
     get_target_property(${target}_sources ${target} SOURCES)
@@ -21,9 +20,9 @@ macro(crefl_target_reflect target target_lib)
         add_custom_command(
             OUTPUT ${_source}.refl
             COMMAND ${CMAKE_CURRENT_SOURCE_DIR}/scripts/creflcc.py -p ${CMAKE_BINARY_DIR}
-                -o ${CMAKE_BINARY_DIR}/${_source}.refl ${${target}_include_args}
+                -o ${CMAKE_BINARY_DIR}/${_source}.refl "${_include_args}"
                    ${CMAKE_CURRENT_SOURCE_DIR}/${_source}
-            DEPENDS ${_source} crefl VERBATIM)
+            DEPENDS ${_source} crefl COMMAND_EXPAND_LISTS VERBATIM)
 	endforeach()
     list(TRANSFORM _source_refl PREPEND "${CMAKE_BINARY_DIR}/")
 
-- 
2.43.0


From ac8e6a885a206f78a2ca4bcee8e9f1d5df164584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:13 +0000
Subject: [PATCH 70/77] fix: create the output directories of reflected sources

---
 cmake/crefl_macro.cmake | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmake/crefl_macro.cmake b/cmake/crefl_macro.cmake
index e7bd9c6..e23b4bb 100644
--- a/cmake/crefl_macro.cmake
+++ b/cmake/crefl_macro.cmake
@@ -17,6 +17,8 @@ macro(crefl_target_reflect target target_lib)
     set(_source_refl "")
     foreach(_source ${${target}_sources})
         list(APPEND _source_refl ${_source}.refl)
+        get_filename_component(_source_dir "${_source}" DIRECTORY)
+        file(MAKE_DIRECTORY "${CMAKE_BINARY_DIR}/${_source_dir}")
         add_custom_command(
             OUTPUT ${_source}.refl
             COMMAND ${CMAKE_CURRENT_SOURCE_DIR}/scripts/creflcc.py -p ${CMAKE_BINARY_DIR}
-- 
2.43.0


From a612734871c02ed56fe8e30a75846ca3d4b8b0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:13 +0000
Subject: [PATCH 71/77] fix: reflect again when an included header changes

---
 cmake/crefl_macro.cmake | 10 +++++++++-
 scripts/creflcc.py      | 14 ++++++++++----
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/cmake/crefl_macro.cmake b/cmake/crefl_macro.cmake
index e23b4bb..3a79369 100644
--- a/cmake/crefl_macro.cmake
+++ b/cmake/crefl_macro.cmake
@@ -19,12 +19,20 @@ macro(crefl_target_reflect target target_lib)
         list(APPEND _source_refl ${_source}.refl)
         get_filename_component(_source_dir "${_source}" DIRECTORY)
         file(MAKE_DIRECTORY "${CMAKE_BINARY_DIR}/${_source_dir}")
+        # run again when a header changes, where the generator reads depfiles
+        set(_depfile_args "")
+        set(_depfile "")
+        if(CMAKE_GENERATOR MATCHES "Ninja" OR NOT CMAKE_VERSION VERSION_LESS 3.20)
+            set(_depfile_args -MF ${CMAKE_BINARY_DIR}/${_source}.refl.d -MT ${_source}.refl)
+            set(_depfile DEPFILE ${CMAKE_BINARY_DIR}/${_source}.refl.d)
+        endif()
         add_custom_command(
             OUTPUT ${_source}.refl
             COMMAND ${CMAKE_CURRENT_SOURCE_DIR}/scripts/creflcc.py -p ${CMAKE_BINARY_DIR}
                 -o ${CMAKE_BINARY_DIR}/${_source}.refl "${_include_args}"
+                   ${_depfile_args}
                    ${CMAKE_CURRENT_SOURCE_DIR}/${_source}
-            DEPENDS ${_source} crefl COMMAND_EXPAND_LISTS VERBATIM)
+            DEPENDS ${_source} crefl ${_depfile} COMMAND_EXPAND_LISTS VERBATIM)
 	endforeach()
     list(TRANSFORM _source_refl PREPEND "${CMAKE_BINARY_DIR}/")
 
diff --git a/scripts/creflcc.py b/scripts/creflcc.py
index 98754e4..bacd0f0 100755
--- a/scripts/creflcc.py
+++ b/scripts/creflcc.py
@@ -37,8 +37,10 @@ def xclang_cmd(is_cpp, plugin):
     cmd += xclang_args(['-load', xclang_plugin(plugin, 'crefl'), '-plugin', 'crefl'])
     return cmd
 
-def crefl_meta_cmd(sources, output, includes, is_cpp, is_debug, plugin):
+def crefl_meta_cmd(sources, output, includes, is_cpp, is_debug, plugin, depfile, deptarget):
     cmd = xclang_cmd(is_cpp, plugin)
+    if depfile:
+        cmd += ['-MD', '-MF', depfile, '-MQ', deptarget or output]
     if includes:
         for include in includes:
             cmd += ['-I%s' % (include)]
@@ -61,8 +63,8 @@ def format_cmd(cmd):
         lines.append(str)
     return " \\\n    ".join(lines)
 
-def crefl_meta(sources, output, includes, is_cpp, is_debug, plugin, no_exec):
-    cmd = crefl_meta_cmd(sources, output, includes, is_cpp, is_debug, plugin)
+def crefl_meta(sources, output, includes, is_cpp, is_debug, plugin, no_exec, depfile, deptarget):
+    cmd = crefl_meta_cmd(sources, output, includes, is_cpp, is_debug, plugin, depfile, deptarget)
     if no_exec:
         print(format_cmd(cmd))
     else:
@@ -81,6 +83,10 @@ parser.add_argument('-p', '--plugin', action='store', default='build',
                     help='directory containing plugin')
 parser.add_argument('-d', '--debug', default=False, action='store_true',
                     help='enable crefl debug output')
+parser.add_argument('-MF', '--depfile', action='store',
+                    help='write the headers that were read to this file')
+parser.add_argument('-MT', '--deptarget', action='store',
+                    help='name of the output in the depfile')
 parser.add_argument('files', nargs='*',
                     help='files to be processed')
 args = parser.parse_args()
@@ -90,4 +96,4 @@ if len(args.files) == 0:
 if len(args.files) > 1:
     parser.error("more than one input file")
 
-crefl_meta(args.files, args.output, args.include, args.cpp, args.debug, args.plugin, args.no_exec)
+crefl_meta(args.files, args.output, args.include, args.cpp, args.debug, args.plugin, args.no_exec, args.depfile, args.deptarget)
-- 
2.43.0


From ad6c27d79fa54c590f57e7b9023f4b41d79eb178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:34 +0000
Subject: [PATCH 72/77] fix: use the bound that an initialiser gives an array

---
 src/reflect.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/reflect.cc b/src/reflect.cc
index 167b204..d46a726 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -729,7 +729,10 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
         /* create field */
         decl_ref r = create_named_node(d, _decl_field);
         QualType q = d->getTypeSourceInfo()->getType();
-        if (q->getContainedDeducedType()) q = d->getType();
+        /* initialisers complete deduced types and arrays without a bound */
+        if (q->getContainedDeducedType() || q->isIncompleteArrayType()) {
+            q = d->getType();
+        }
         bool is_static = d->getStorageDuration() == StorageDuration::SD_Static;
         set_link(r, get_intrinsic_type(q));
         crefl_decl_ptr(r)->_props |=
-- 
2.43.0


From 04e8982cd5f7988e48c934387a9a8ef3e1670cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:52 +0000
Subject: [PATCH 73/77] fix: tell recursive types that differ in what they
 refer to apart when merging

---
 src/link.cc | 160 +++++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 152 insertions(+), 8 deletions(-)

diff --git a/src/link.cc b/src/link.cc
index 5b569db..5c117a9 100644
--- a/src/link.cc
+++ b/src/link.cc
@@ -23,6 +23,8 @@
 #include <cstdlib>
 
 #include <string>
+#include <vector>
+#include <utility>
 
 #include <crefl/bits.h>
 #include <crefl/model.h>
@@ -346,14 +348,122 @@ bool operator==(const decl_hash &a, const decl_hash &b)
     return memcmp(a.sum, b.sum, sizeof(a.sum)) == 0;
 }
 
+/*
+ * the hash of a recursive type leaves references to types being hashed open,
+ * so types with the same hash can still differ in what they refer to. find
+ * the copies with the same hash and compare their definitions completely.
+ */
+struct crefl_link_def
+{
+    decl_ref copy;  /* copy in the merged database */
+    decl_ref def;   /* definition in the source it was copied from */
+    size_t base;    /* first equivalence class of that source */
+    size_t next;    /* next definition with the same hash, plus one */
+};
+
 struct crefl_link_state
 {
-    hashmap<decl_hash,decl_ref,_hash_fn> *map;
+    hashmap<decl_hash,size_t,_hash_fn> *map;
     decl_db *db;
     decl_index *ld;
     decl_index *src_ld;
+    size_t base;                        /* first equivalence class */
+    std::vector<decl_id> *copies;       /* copies made for this source */
+    std::vector<crefl_link_def> *defs;
+    std::vector<ptrdiff_t> *classes;    /* parent, or negated class size */
 };
 
+static size_t crefl_class_find(std::vector<ptrdiff_t> &classes, size_t i)
+{
+    while (classes[i] >= 0) i = classes[i];
+    return i;
+}
+
+static decl_ref crefl_alias_target(decl_ref d)
+{
+    while (crefl_is_alias(d)) d = crefl_decl_link(d);
+    return d;
+}
+
+static bool crefl_is_list(decl_ref d)
+{
+    switch (crefl_decl_tag(d)) {
+    case _decl_archive:
+    case _decl_source:
+    case _decl_set:
+    case _decl_enum:
+    case _decl_struct:
+    case _decl_union:
+    case _decl_function:
+        return true;
+    default:
+        return false;
+    }
+}
+
+static bool crefl_defs_equal(std::vector<ptrdiff_t> &classes,
+    decl_ref d, size_t d_base, decl_ref e, size_t e_base)
+{
+    std::vector<std::pair<decl_ref,decl_ref>> stack;
+    std::vector<std::pair<size_t,ptrdiff_t>> undo;
+    bool equal = true;
+
+    auto push_list = [&](decl_ref a, decl_ref b) {
+        while (crefl_decl_idx(a) && crefl_decl_idx(b)) {
+            stack.push_back({ a, b });
+            a = crefl_decl_next(a);
+            b = crefl_decl_next(b);
+        }
+        equal = equal && !crefl_decl_idx(a) && !crefl_decl_idx(b);
+    };
+
+    stack.push_back({ d, e });
+    while (equal && stack.size() > 0) {
+        decl_ref a = crefl_alias_target(stack.back().first);
+        decl_ref b = crefl_alias_target(stack.back().second);
+        stack.pop_back();
+
+        /* builtin types and absent links are the same everywhere */
+        size_t ai = crefl_decl_idx(a), bi = crefl_decl_idx(b);
+        if (ai < a.db->decl_builtin || bi < b.db->decl_builtin) {
+            equal = (ai == bi);
+            continue;
+        }
+
+        /* assume equality until there is a difference */
+        size_t ac = crefl_class_find(classes, d_base + ai);
+        size_t bc = crefl_class_find(classes, e_base + bi);
+        if (ac == bc) continue;
+        if (classes[ac] > classes[bc]) std::swap(ac, bc);
+        undo.push_back({ bc, classes[bc] });
+        classes[ac] += classes[bc];
+        classes[bc] = ac;
+
+        if (crefl_decl_tag(a) != crefl_decl_tag(b) ||
+            crefl_decl_props(a) != crefl_decl_props(b) ||
+            crefl_decl_qty(a) != crefl_decl_qty(b) ||
+            strcmp(crefl_decl_name(a), crefl_decl_name(b)) != 0) {
+            equal = false;
+            break;
+        }
+        push_list(crefl_decl_attr(a), crefl_decl_attr(b));
+        if (crefl_is_list(a)) {
+            push_list(crefl_decl_link(a), crefl_decl_link(b));
+        } else {
+            stack.push_back({ crefl_decl_link(a), crefl_decl_link(b) });
+        }
+    }
+
+    while (!equal && undo.size() > 0) {
+        size_t bc = undo.back().first, ac = classes[bc];
+        classes[bc] = undo.back().second;
+        classes[ac] -= classes[bc];
+        undo.pop_back();
+    }
+
+    return equal;
+}
+
 bool _should_copy(decl_ref d)
 {
     /* copy if not one of: 'set', 'enum', 'struct', 'union' and 'function' */
@@ -363,6 +473,35 @@ bool _should_copy(decl_ref d)
              crefl_is_function(d));
 }
 
+static decl_ref crefl_find_copy(crefl_link_state *state, decl_ref d,
+    const decl_hash &hash)
+{
+    decl_id &copy = (*state->copies)[crefl_decl_idx(d)];
+    if (copy) return decl_ref { state->db, copy };
+
+    auto i = state->map->find(hash);
+    size_t n = i == state->map->end() ? 0 : i->second;
+    while (n) {
+        crefl_link_def &def = (*state->defs)[n-1];
+        if (crefl_defs_equal(*state->classes, d, state->base, def.def, def.base)) {
+            copy = crefl_decl_idx(def.copy);
+            return def.copy;
+        }
+        n = def.next;
+    }
+
+    return decl_ref { state->db, 0 };
+}
+
+static void crefl_add_copy(crefl_link_state *state, decl_ref d,
+    const decl_hash &hash, decl_ref r)
+{
+    size_t &first = (*state->map)[hash];
+    state->defs->push_back({ r, d, state->base, first });
+    first = state->defs->size();
+    (*state->copies)[crefl_decl_idx(d)] = crefl_decl_idx(r);
+}
+
 decl_ref crefl_copy_node(crefl_link_state *state, decl_ref d, decl_ref p,
     bool _is_child = false)
 {
@@ -383,19 +522,19 @@ decl_ref crefl_copy_node(crefl_link_state *state, decl_ref d, decl_ref p,
     }
 
     /* lookup node in our hash table to decide whether to copy or alias */
-    auto i = state->map->find(*hash);
-    if (i == state->map->end() || _should_copy(d)) {
+    bool should_copy = _should_copy(d);
+    a = should_copy ? decl_ref { db, 0 } : crefl_find_copy(state, d, *hash);
+    if (crefl_decl_idx(a) == 0) {
         /* copy unseen nodes or non-collection nodes */
         r = crefl_decl_new(db, crefl_decl_tag(d));
         crefl_decl_ptr(r)->_name = crefl_name_new(db, crefl_decl_name(d));
         crefl_decl_ptr(r)->_props = crefl_decl_props(d);
         crefl_decl_ptr(r)->_quantity = crefl_decl_qty(d);
-        (*state->map)[*hash] = r;
+        if (!should_copy) crefl_add_copy(state, d, *hash, r);
     } else {
         /* return node directly if it is a child link */
-        if (_is_child) return decl_ref { db, i->second.decl_idx };
+        if (_is_child) return a;
         /* otherwise alias node so we can override its next element */
-        a = crefl_lookup(db, i->second.decl_idx);
         while (crefl_decl_tag(a) == _decl_alias) {
             a = crefl_decl_link(a);
         }
@@ -452,7 +591,9 @@ decl_ref crefl_copy_node(crefl_link_state *state, decl_ref d, decl_ref p,
 
 int crefl_link_merge(decl_db *db, const char *name, decl_db **srcn, size_t n)
 {
-    hashmap<decl_hash,decl_ref,_hash_fn> map;
+    hashmap<decl_hash,size_t,_hash_fn> map;
+    std::vector<crefl_link_def> defs;
+    std::vector<ptrdiff_t> classes;
     decl_index *ld = crefl_index_new();
 
     crefl_db_defaults(db);
@@ -467,7 +608,10 @@ int crefl_link_merge(decl_db *db, const char *name, decl_db **srcn, size_t n)
     for (size_t i = 0; i < n; i++) {
         decl_index *src_ld = crefl_index_new();
         crefl_index_scan(src_ld, srcn[i]);
-        crefl_link_state state{ &map, db, ld, src_ld };
+        std::vector<decl_id> copies(srcn[i]->decl_offset);
+        size_t base = classes.size();
+        classes.resize(base + srcn[i]->decl_offset, -1);
+        crefl_link_state state{ &map, db, ld, src_ld, base, &copies, &defs, &classes };
         decl_ref d = crefl_lookup(srcn[i], srcn[i]->root_element);
         decl_ref p = crefl_decl_void(d);
         /* the sources of an archive become sources of the new archive */
-- 
2.43.0


From 7a4268432200ec28ce3df4c13e7a4d6884af3c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:56 +0000
Subject: [PATCH 74/77] fix: reflect C++ classes like structures

---
 src/reflect.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/reflect.cc b/src/reflect.cc
index d46a726..d61ea3a 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -313,7 +313,7 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
             tr = get_named_node(ed, _decl_enum);
         }
         else if (_is_struct) {
-            const RecordType *rt = q->getAsStructureType();
+            const RecordType *rt = q->getAs<RecordType>();
             const RecordDecl *rd = rt->getDecl();
             tr = get_record_node(rd, _decl_struct);
         }
@@ -611,14 +611,15 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
 
         switch (k) {
         case TagTypeKind::TTK_Enum:
-        case TagTypeKind::TTK_Class:
         case TagTypeKind::TTK_Interface:
             break;
 
         case TagTypeKind::TTK_Struct:
+        case TagTypeKind::TTK_Class:
         case TagTypeKind::TTK_Union:
 
             switch (k) {
+            case TagTypeKind::TTK_Class:
             case TagTypeKind::TTK_Struct: tag = _decl_struct; break;
             case TagTypeKind::TTK_Union:  tag = _decl_union;  break;
             default:                      tag = _decl_none;   break;
-- 
2.43.0


From 192670845e0ccd5c2f13a89a289b6fcacfee0ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:56 +0000
Subject: [PATCH 75/77] fix: accept return types that are not deduced yet

---
 src/reflect.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reflect.cc b/src/reflect.cc
index d61ea3a..2695d9b 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -290,7 +290,8 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
         bool _is_restrict = q.isRestrictQualified();
         bool _is_volatile = q.isVolatileQualified();
 
-        bool _is_incomplete = !_is_array && q->isIncompleteType();
+        bool _is_incomplete = !_is_array &&
+            (q->isIncompleteType() || q->isUndeducedType());
 
         /* elements of arrays can be incomplete too */
         TypeInfo t = context.getTypeInfo(_is_array || _is_incomplete ?
-- 
2.43.0


From b4f705c547ac0fe21a33f609b6de39d1052ce08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:56 +0000
Subject: [PATCH 76/77] fix: leave out C++ templates, whose types are not known

---
 src/reflect.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/reflect.cc b/src/reflect.cc
index 2695d9b..9493134 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -468,9 +468,16 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
     /* declarations inside of function bodies and expressions are private */
     bool TraverseStmt(Stmt *s) { return true; }
 
+    /* templates have no types until they are instantiated */
+    static bool is_left_out(Decl *d)
+    {
+        return d->isTemplated();
+    }
+
     /* anonymous structs and unions are held by implicit fields */
     bool TraverseDecl(Decl *d)
     {
+        if (d && d->getLexicalDeclContext() && is_left_out(d)) return true;
         if (d && d->isImplicit() && isa<FieldDecl>(d)) {
             return VisitFieldDecl(cast<FieldDecl>(d));
         }
-- 
2.43.0


From 5f38ad78015633c6e0e7f4573796dc0969ae3071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:56 +0000
Subject: [PATCH 77/77] fix: leave members of C++ classes out that are not
 fields or types

---
 src/reflect.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/reflect.cc b/src/reflect.cc
index 9493134..dc89fc0 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -468,10 +468,12 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
     /* declarations inside of function bodies and expressions are private */
     bool TraverseStmt(Stmt *s) { return true; }
 
-    /* templates have no types until they are instantiated */
+    /* templates have no types until they are instantiated, and classes hold
+     * fields and nested types. other members can refer to the class itself */
     static bool is_left_out(Decl *d)
     {
-        return d->isTemplated();
+        return d->isTemplated() || (!isa<FieldDecl>(d) && !isa<TagDecl>(d) &&
+            isa<CXXRecordDecl>(d->getLexicalDeclContext()));
     }
 
     /* anonymous structs and unions are held by implicit fields */
-- 
2.43.0

