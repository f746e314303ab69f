From 3c31738628b1ee4af881caa06728fabeb74edda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:40 +0000
Subject: [PATCH 01/75] fix: popcnt of zero is zero

---
 include/crefl/bits.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/crefl/bits.h b/include/crefl/bits.h
index 7c1d988..f648e2f 100644
--- a/include/crefl/bits.h
+++ b/include/crefl/bits.h
@@ -47,8 +47,8 @@ static inline unsigned clz_u32(__bits_u32 val) { return val == 0 ? 32 : __builti
 static inline unsigned clz_u64(__bits_u64 val) { return val == 0 ? 64 : __builtin_clzll(val); }
 static inline unsigned ctz_u32(__bits_u32 val) { return val == 0 ? 32 : __builtin_ctz(val); }
 static inline unsigned ctz_u64(__bits_u64 val) { return val == 0 ? 64 : __builtin_ctzll(val); }
-static inline unsigned popcnt_u32(__bits_u32 val) { return val == 0 ? 32 : __builtin_popcount(val); }
-static inline unsigned popcnt_u64(__bits_u64 val) { return val == 0 ? 64 : __builtin_popcountll(val); }
+static inline unsigned popcnt_u32(__bits_u32 val) { return __builtin_popcount(val); }
+static inline unsigned popcnt_u64(__bits_u64 val) { return __builtin_popcountll(val); }
 #define _bits_defined (_clz_defined | _ctz_defined | _popcnt_defined)
 #elif defined (_MSC_VER) && defined (_M_X64)
 static inline unsigned clz_u32(__bits_u32 val) { return (int)_lzcnt_u32(val); }
-- 
2.43.0


From 71ef9229c43e6178705aa5125173f318d55a77e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:40 +0000
Subject: [PATCH 02/75] fix: C11 generic popcnt selects popcnt for unsigned
 types

---
 include/crefl/bits.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/crefl/bits.h b/include/crefl/bits.h
index f648e2f..a4cf58d 100644
--- a/include/crefl/bits.h
+++ b/include/crefl/bits.h
@@ -158,8 +158,8 @@ static inline unsigned ctz_u64(__bits_u64 v)
 	unsigned int: ctz_u32, signed int: ctz_u32, \
 	unsigned long long: ctz_u64, signed long long: ctz_u64)(X)
 #define popcnt(X) _Generic((X), \
-	unsigned int: ctz_u32, signed int: popcnt_u32, \
-	unsigned long long: ctz_u64, signed long long: popcnt_u64)(X)
+	unsigned int: popcnt_u32, signed int: popcnt_u32, \
+	unsigned long long: popcnt_u64, signed long long: popcnt_u64)(X)
 #endif
 
 /*
-- 
2.43.0


From a3ef815106e512bade2de98a24d853696fe089b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:04 +0000
Subject: [PATCH 03/75] fix: allocate whole bitmap words for small hashmaps

---
 include/crefl/hashmap.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/crefl/hashmap.h b/include/crefl/hashmap.h
index 9cee859..6fb59de 100644
--- a/include/crefl/hashmap.h
+++ b/include/crefl/hashmap.h
@@ -96,7 +96,7 @@ struct hashmap
         used(0), tombs(0), limit(initial_size)
     {
         size_t data_size = sizeof(data_type) * limit;
-        size_t bitmap_size = limit >> 2;
+        size_t bitmap_size = bitmap_bytes(limit);
         size_t total_size = data_size + bitmap_size;
 
         assert(is_pow2(limit));
@@ -115,7 +115,7 @@ struct hashmap
         used(o.used), tombs(o.tombs), limit(o.limit)
     {
         size_t data_size = sizeof(data_type) * limit;
-        size_t bitmap_size = limit >> 2;
+        size_t bitmap_size = bitmap_bytes(limit);
         size_t total_size = data_size + bitmap_size;
 
         data = (data_type*)malloc(total_size);
@@ -140,7 +140,7 @@ struct hashmap
         limit = o.limit;
 
         size_t data_size = sizeof(data_type) * limit;
-        size_t bitmap_size = limit >> 2;
+        size_t bitmap_size = bitmap_bytes(limit);
         size_t total_size = data_size + bitmap_size;
 
         data = (data_type*)malloc(total_size);
@@ -185,6 +185,8 @@ struct hashmap
     enum bitmap_state {
         available = 0, occupied = 1, deleted = 2, recycled = 3
     };
+    /* 2 bits per slot in whole 64-bit words */
+    static inline size_t bitmap_bytes(size_t n) { return ((n + 31) >> 5) << 3; }
     static inline size_t bitmap_idx(size_t i) { return i >> 5; }
     static inline size_t bitmap_shift(size_t i) { return ((i << 1) & 63); }
     static inline bitmap_state bitmap_get(uint64_t *bitmap, size_t i)
@@ -209,7 +211,7 @@ struct hashmap
                          size_t old_size, size_t new_size)
     {
         size_t data_size = sizeof(data_type) * new_size;
-        size_t bitmap_size = new_size >> 2;
+        size_t bitmap_size = bitmap_bytes(new_size);
         size_t total_size = data_size + bitmap_size;
 
         assert(is_pow2(new_size));
@@ -238,7 +240,7 @@ struct hashmap
     void clear()
     {
         size_t data_size = sizeof(data_type) * limit;
-        size_t bitmap_size = limit >> 2;
+        size_t bitmap_size = bitmap_bytes(limit);
         size_t total_size = data_size + bitmap_size;
         memset(data, 0, total_size);
         used = tombs = 0;
-- 
2.43.0


From cc89d3bea8842b34cdb5a673c1c657390ef7a1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:04 +0000
Subject: [PATCH 04/75] fix: hashmap iteration starts at the first occupied
 slot

---
 include/crefl/hashmap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/crefl/hashmap.h b/include/crefl/hashmap.h
index 6fb59de..627aee0 100644
--- a/include/crefl/hashmap.h
+++ b/include/crefl/hashmap.h
@@ -175,7 +175,7 @@ struct hashmap
     inline size_t hash_index(uint64_t h) { return h & index_mask(); }
     inline size_t key_index(Key key) { return hash_index(_hasher(key)); }
     inline hasher hash_function() const { return _hasher; }
-    inline iterator begin() { return iterator{ this, 0 }; }
+    inline iterator begin() { iterator i{ this, 0 }; i.i = i.step(0); return i; }
     inline iterator end() { return iterator{ this, limit }; }
 
     /*
-- 
2.43.0


From 6f888d8540dba1edbd1dd5fb36909c7c985bcc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:04 +0000
Subject: [PATCH 05/75] fix: hashmap insertion looks for the key beyond deleted
 slots

---
 include/crefl/hashmap.h | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/crefl/hashmap.h b/include/crefl/hashmap.h
index 627aee0..ca9445f 100644
--- a/include/crefl/hashmap.h
+++ b/include/crefl/hashmap.h
@@ -251,9 +251,16 @@ struct hashmap
 
     iterator insert(const value_type& v)
     {
+        size_t free_slot = limit;
         for (size_t i = key_index(v.first); ; i = (i+1) & index_mask()) {
             bitmap_state state = bitmap_get(bitmap, i);
-            if ((state & occupied) != occupied) {
+            if (state == deleted) { /* key may follow, remember first slot */
+                if (free_slot == limit) free_slot = i;
+            } else if (state == available) {
+                if (free_slot != limit) {
+                    i = free_slot;
+                    state = deleted;
+                }
                 bitmap_set(bitmap, i, occupied);
                 data[i] = data_type{v.first, v.second};
                 used++;
@@ -280,9 +287,16 @@ struct hashmap
 
     Value& operator[](const Key &key)
     {
+        size_t free_slot = limit;
         for (size_t i = key_index(key); ; i = (i+1) & index_mask()) {
             bitmap_state state = bitmap_get(bitmap, i);
-            if ((state & occupied) != occupied) {
+            if (state == deleted) { /* key may follow, remember first slot */
+                if (free_slot == limit) free_slot = i;
+            } else if (state == available) {
+                if (free_slot != limit) {
+                    i = free_slot;
+                    state = deleted;
+                }
                 bitmap_set(bitmap, i, occupied);
                 data[i].first = key;
                 used++;
-- 
2.43.0


From ebd591581c04b7782ae83b0a07bed1930cc5bb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:04 +0000
Subject: [PATCH 06/75] fix: hashmap assignment to itself and leak on move
 assignment

---
 include/crefl/hashmap.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/crefl/hashmap.h b/include/crefl/hashmap.h
index ca9445f..54e0f93 100644
--- a/include/crefl/hashmap.h
+++ b/include/crefl/hashmap.h
@@ -133,6 +133,8 @@ struct hashmap
 
     inline hashmap& operator=(const hashmap &o)
     {
+        if (this == &o) return *this;
+
         free(data);
 
         used = o.used;
@@ -152,6 +154,10 @@ struct hashmap
 
     inline hashmap& operator=(hashmap &&o)
     {
+        if (this == &o) return *this;
+
+        free(data);
+
         data = o.data;
         bitmap = o.bitmap;
         used = o.used;
-- 
2.43.0


From 84140c520bafad856574ef9c24a76f36abcf3d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:17 +0000
Subject: [PATCH 07/75] fix: identifier octet holds two class bits

---
 src/asn1.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index 1718860..b003368 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -172,7 +172,7 @@ int crefl_asn1_ber_ident_read(crefl_buf *buf, asn1_id *_id)
         goto err;
     }
 
-    _id->_class =       (b >> 6) & 0x02;
+    _id->_class =       (b >> 6) & 0x03;
     _id->_constructed = (b >> 5) & 0x01;
     _id->_identifier =   b       & 0x1f;
 
@@ -196,7 +196,7 @@ int crefl_asn1_ber_ident_write(crefl_buf *buf, asn1_id _id)
 {
     int8_t b;
 
-    b = ( (u8)(_id._class       & 0x02) << 6 ) |
+    b = ( (u8)(_id._class       & 0x03) << 6 ) |
         ( (u8)(_id._constructed & 0x01) << 5 ) |
         ( (u8)(_id._identifier < 0x1f ? _id._identifier : 0x1f) );
 
-- 
2.43.0


From e7a9780ec6d4dcefd17d4f6098b9c276de4ef4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:17 +0000
Subject: [PATCH 08/75] fix: reject high tag numbers longer than 56 bits

---
 src/asn1.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index b003368..7f4ebc5 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -114,7 +114,7 @@ int crefl_asn1_ber_tag_read(crefl_buf *buf, u64 *tag)
         w += 7;
     } while ((b & 0x80) && w < 56);
 
-    if (w > 56) {
+    if (b & 0x80) {
         goto err;
     }
 
-- 
2.43.0


From 23e627a4cfb929d827cdb6c7b6a390ab85263843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:17 +0000
Subject: [PATCH 09/75] fix: reject LEB128 values longer than 56 bits

---
 src/asn1.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index 7f4ebc5..2e166b4 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -2231,7 +2231,7 @@ int crefl_leb_u64_read(crefl_buf *buf, u64 *value)
         w += 7;
     } while ((b & 0x80) && w < 56);
 
-    if (w > 56) {
+    if (b & 0x80) {
         goto err;
     }
 
@@ -2256,7 +2256,7 @@ u64_result crefl_leb_u64_read_byval(crefl_buf *buf)
         w += 7;
     } while ((b & 0x80) && w < 56);
 
-    if (w > 56) {
+    if (b & 0x80) {
         return u64_result { 0, -1 };
     }
 
-- 
2.43.0


From 0b15e513094a49bc40eaff264e2df509b1b358bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:17 +0000
Subject: [PATCH 10/75] fix: LEB128 write past the end of the buffer

---
 src/asn1.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index 2e166b4..10e7b38 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -2274,7 +2274,7 @@ int crefl_leb_u64_write(crefl_buf *buf, const u64 *value)
     }
 
     len = (x == 0) ? 1 : 8 - ((clz(x) - 1) / 7) + 1;
-    if (crefl_buf_check_capacity(buf, len) < 0) {
+    if (crefl_buf_check_capacity(buf, len) != 0) {
         return -1;
     }
     for (i = 0; i < len - 1; i++) {
@@ -2301,7 +2301,7 @@ int crefl_leb_u64_write_byval(crefl_buf *buf, const u64 value)
     }
 
     len = (x == 0) ? 1 : 8 - ((clz(x) - 1) / 7) + 1;
-    if (crefl_buf_check_capacity(buf, len) < 0) {
+    if (crefl_buf_check_capacity(buf, len) != 0) {
         return -1;
     }
     for (i = 0; i < len - 1; i++) {
-- 
2.43.0


From 2c7718030d3fe2b22993aa91c43b0039ba7e4cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:17 +0000
Subject: [PATCH 11/75] fix: integers with empty content are errors

---
 src/asn1.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index 10e7b38..9f30353 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -378,7 +378,7 @@ int crefl_asn1_ber_integer_u64_read(crefl_buf *buf, size_t len, u64 *value)
     u64 v = 0, o = 0;
     size_t shift = (64 - len * 8);
 
-    if (len > 8) {
+    if (len < 1 || len > 8) {
         goto err;
     }
     if (crefl_buf_read_bytes(buf, (char*)&o, len) != len) {
@@ -403,7 +403,7 @@ u64_result crefl_asn1_ber_integer_u64_read_byval(crefl_buf *buf, size_t len)
     u64 v = 0, o = 0;
     size_t shift = (64 - len * 8);
 
-    if (len > 8) {
+    if (len < 1 || len > 8) {
         return { 0, -1 };
     }
     if (crefl_buf_read_bytes(buf, (char*)&o, len) != len) {
@@ -483,7 +483,7 @@ int crefl_le_ber_integer_u64_read(crefl_buf *buf, size_t len, u64 *value)
 {
     u64 v = 0, o = 0;
 
-    if (len > 8) {
+    if (len < 1 || len > 8) {
         goto err;
     }
 
@@ -510,7 +510,7 @@ u64_result crefl_le_ber_integer_u64_read_byval(crefl_buf *buf, size_t len)
 {
     u64 v = 0, o = 0;
 
-    if (len > 8) {
+    if (len < 1 || len > 8) {
         return u64_result { 0, -1 };
     }
 
-- 
2.43.0


From 1803701b1f8c0c4200731538b7bf0072b837416e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:49 +0000
Subject: [PATCH 12/75] fix: reject tag and arc octets with leading zero
 padding

---
 src/asn1.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/asn1.cc b/src/asn1.cc
index 9f30353..adf76de 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -109,6 +109,10 @@ int crefl_asn1_ber_tag_read(crefl_buf *buf, u64 *tag)
         if (crefl_buf_read_i8(buf, &b) != 1) {
             goto err;
         }
+        /* 8.1.2.4.2 c) and 8.19.2 the first octet shall not be 0x80 */
+        if (w == 0 && (uint8_t)b == 0x80) {
+            goto err;
+        }
         l <<= 7;
         l |= (uint8_t)b & 0x7f;
         w += 7;
-- 
2.43.0


From fb67a592eb27ae15e6fb2a4add517c80b87e031e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:49 +0000
Subject: [PATCH 13/75] fix: tagged reads check the identifier they are asked
 for

---
 src/asn1.cc | 38 ++++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index adf76de..428ecf0 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -219,6 +219,24 @@ err:
     return -1;
 }
 
+/*
+ * read identifier and check that it is the expected primitive tag
+ */
+static int asn1_der_ident_read(crefl_buf *buf, asn1_tag _tag)
+{
+    asn1_id _id;
+
+    if (crefl_asn1_ber_ident_read(buf, &_id) < 0) {
+        return -1;
+    }
+    if (_id._identifier != (u64)_tag || _id._constructed ||
+        _id._class != asn1_class_universal) {
+        return -1;
+    }
+
+    return 0;
+}
+
 /*
  * ISO/IEC 8825-1:2003 8.1.3 length
  *
@@ -345,7 +363,7 @@ err:
 int crefl_asn1_der_boolean_read(crefl_buf *buf, asn1_tag _tag, bool *value)
 {
     asn1_hdr hdr;
-    if (crefl_asn1_ber_ident_read(buf, &hdr._id) < 0) return -1;
+    if (asn1_der_ident_read(buf, _tag) < 0) return -1;
     if (crefl_asn1_ber_length_read(buf, &hdr._length) < 0) return -1;
     return crefl_asn1_ber_boolean_read(buf, hdr._length, value);
 }
@@ -664,7 +682,7 @@ int crefl_le_ber_integer_s64_write_byval(crefl_buf *buf, size_t len, const s64 v
 int crefl_asn1_der_integer_u64_read(crefl_buf *buf, asn1_tag _tag, u64 *value)
 {
     asn1_hdr hdr;
-    if (crefl_asn1_ber_ident_read(buf, &hdr._id) < 0) return -1;
+    if (asn1_der_ident_read(buf, _tag) < 0) return -1;
     if (crefl_asn1_ber_length_read(buf, &hdr._length) < 0) return -1;
     return crefl_asn1_ber_integer_u64_read(buf, hdr._length, value);
 }
@@ -672,7 +690,7 @@ int crefl_asn1_der_integer_u64_read(crefl_buf *buf, asn1_tag _tag, u64 *value)
 u64_result crefl_asn1_der_integer_u64_read_byval(crefl_buf *buf, asn1_tag _tag)
 {
     asn1_hdr hdr;
-    if (crefl_asn1_ber_ident_read(buf, &hdr._id) < 0) return u64_result { 0, -1 };
+    if (asn1_der_ident_read(buf, _tag) < 0) return u64_result { 0, -1 };
     if (crefl_asn1_ber_length_read(buf, &hdr._length) < 0) return u64_result { 0, -1 };
     return crefl_asn1_ber_integer_u64_read_byval(buf, hdr._length);
 }
@@ -702,7 +720,7 @@ int crefl_asn1_der_integer_u64_write_byval(crefl_buf *buf, asn1_tag _tag, const
 int crefl_asn1_der_integer_s64_read(crefl_buf *buf, asn1_tag _tag, s64 *value)
 {
     asn1_hdr hdr;
-    if (crefl_asn1_ber_ident_read(buf, &hdr._id) < 0) return -1;
+    if (asn1_der_ident_read(buf, _tag) < 0) return -1;
     if (crefl_asn1_ber_length_read(buf, &hdr._length) < 0) return -1;
     return crefl_asn1_ber_integer_s64_read(buf, hdr._length, value);
 }
@@ -710,7 +728,7 @@ int crefl_asn1_der_integer_s64_read(crefl_buf *buf, asn1_tag _tag, s64 *value)
 s64_result crefl_asn1_der_integer_s64_read_byval(crefl_buf *buf, asn1_tag _tag, s64 *value)
 {
     asn1_hdr hdr;
-    if (crefl_asn1_ber_ident_read(buf, &hdr._id) < 0) return s64_result { 0, -1 };
+    if (asn1_der_ident_read(buf, _tag) < 0) return s64_result { 0, -1 };
     if (crefl_asn1_ber_length_read(buf, &hdr._length) < 0) return s64_result { 0, -1 };
     return crefl_asn1_ber_integer_s64_read_byval(buf, hdr._length);
 }
@@ -1242,7 +1260,7 @@ int crefl_asn1_ber_real_f64_write_byval(crefl_buf *buf, size_t len, const double
 int crefl_asn1_der_real_f64_read(crefl_buf *buf, asn1_tag _tag, double *value)
 {
     asn1_hdr hdr;
-    if (crefl_asn1_ber_ident_read(buf, &hdr._id) < 0) return -1;
+    if (asn1_der_ident_read(buf, _tag) < 0) return -1;
     if (crefl_asn1_ber_length_read(buf, &hdr._length) < 0) return -1;
     return crefl_asn1_ber_real_f64_read(buf, hdr._length, value);
 }
@@ -1250,7 +1268,7 @@ int crefl_asn1_der_real_f64_read(crefl_buf *buf, asn1_tag _tag, double *value)
 f64_result crefl_asn1_der_real_f64_read_byval(crefl_buf *buf, asn1_tag _tag)
 {
     asn1_hdr hdr;
-    if (crefl_asn1_ber_ident_read(buf, &hdr._id) < 0) return f64_result { 0, -1 };
+    if (asn1_der_ident_read(buf, _tag) < 0) return f64_result { 0, -1 };
     if (crefl_asn1_ber_length_read(buf, &hdr._length) < 0) return f64_result { 0, -1 };
     return crefl_asn1_ber_real_f64_read_byval(buf, hdr._length);
 }
@@ -2491,7 +2509,7 @@ err:
 int crefl_asn1_der_oid_read(crefl_buf *buf, asn1_tag _tag, asn1_oid *obj)
 {
     asn1_hdr hdr;
-    if (crefl_asn1_ber_ident_read(buf, &hdr._id) < 0) return -1;
+    if (asn1_der_ident_read(buf, _tag) < 0) return -1;
     if (crefl_asn1_ber_length_read(buf, &hdr._length) < 0) return -1;
     return crefl_asn1_ber_oid_read(buf, hdr._length, obj);
 }
@@ -2622,7 +2640,7 @@ int crefl_asn1_ber_octets_write(crefl_buf *buf, size_t len, const asn1_string *o
 int crefl_asn1_der_octets_read(crefl_buf *buf, asn1_tag _tag, asn1_string *obj)
 {
     asn1_hdr hdr;
-    if (crefl_asn1_ber_ident_read(buf, &hdr._id) < 0) return -1;
+    if (asn1_der_ident_read(buf, _tag) < 0) return -1;
     if (crefl_asn1_ber_length_read(buf, &hdr._length) < 0) return -1;
     return crefl_asn1_ber_octets_read(buf, hdr._length, obj);
 }
@@ -2663,7 +2681,7 @@ int crefl_asn1_ber_null_write(crefl_buf *buf, size_t len)
 int crefl_asn1_der_null_read(crefl_buf *buf, asn1_tag _tag)
 {
     asn1_hdr hdr;
-    if (crefl_asn1_ber_ident_read(buf, &hdr._id) < 0) return -1;
+    if (asn1_der_ident_read(buf, _tag) < 0) return -1;
     if (crefl_asn1_ber_length_read(buf, &hdr._length) < 0) return -1;
     return crefl_asn1_ber_null_read(buf, hdr._length);
 }
-- 
2.43.0


From 102a67b5bf87f70a80420ca2f72d48a2c59db537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:49 +0000
Subject: [PATCH 14/75] fix: boolean content is exactly one octet

---
 src/asn1.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/asn1.cc b/src/asn1.cc
index 428ecf0..d888346 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -335,6 +335,9 @@ int crefl_asn1_ber_boolean_read(crefl_buf *buf, size_t len, bool *value)
 {
     int8_t b;
 
+    if (len != 1) {
+        goto err;
+    }
     if (crefl_buf_read_i8(buf, &b) != 1) {
         goto err;
     }
-- 
2.43.0


From 289e5660dee76e8a7d48221b7cb69efb70f1ed06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:49 +0000
Subject: [PATCH 15/75] fix: DER boolean true is written as 0xff

---
 src/asn1.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index d888346..3341128 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -353,7 +353,7 @@ int crefl_asn1_ber_boolean_write(crefl_buf *buf, size_t len, const bool *value)
 {
     int8_t b;
 
-    b = *value;
+    b = *value ? (int8_t)0xff : 0;
     if (crefl_buf_write_i8(buf, b) != 1) {
         goto err;
     }
-- 
2.43.0


From d68bcc8629095c316edfeb99c1286ee8f2ddcb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:49 +0000
Subject: [PATCH 16/75] fix: by-value integer declarations match their
 definitions

---
 include/crefl/asn1.h | 2 +-
 src/asn1.cc          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/crefl/asn1.h b/include/crefl/asn1.h
index 4c806e4..50689e2 100644
--- a/include/crefl/asn1.h
+++ b/include/crefl/asn1.h
@@ -208,7 +208,7 @@ size_t crefl_le_ber_integer_s64_length(const s64 *value);
 int crefl_le_ber_integer_s64_read(crefl_buf *buf, size_t len, s64 *value);
 int crefl_le_ber_integer_s64_write(crefl_buf *buf, size_t len, const s64 *value);
 
-size_t crefl_le_ber_integer_s64_length_byval(const s64 *value);
+size_t crefl_le_ber_integer_s64_length_byval(const s64 value);
 struct s64_result crefl_le_ber_integer_s64_read_byval(crefl_buf *buf, size_t len);
 int crefl_le_ber_integer_s64_write_byval(crefl_buf *buf, size_t len, const s64 value);
 
diff --git a/src/asn1.cc b/src/asn1.cc
index 3341128..bab90e0 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -728,7 +728,7 @@ int crefl_asn1_der_integer_s64_read(crefl_buf *buf, asn1_tag _tag, s64 *value)
     return crefl_asn1_ber_integer_s64_read(buf, hdr._length, value);
 }
 
-s64_result crefl_asn1_der_integer_s64_read_byval(crefl_buf *buf, asn1_tag _tag, s64 *value)
+s64_result crefl_asn1_der_integer_s64_read_byval(crefl_buf *buf, asn1_tag _tag)
 {
     asn1_hdr hdr;
     if (asn1_der_ident_read(buf, _tag) < 0) return s64_result { 0, -1 };
-- 
2.43.0


From 7b5f21a089978889270c0d9923dda02796f405cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:49 +0000
Subject: [PATCH 17/75] fix: octet strings longer than the buffer are errors

---
 src/asn1.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index bab90e0..4aa4666 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -2612,7 +2612,7 @@ int crefl_asn1_ber_octets_read(crefl_buf *buf, size_t len, asn1_string *obj)
     size_t copy_count = len > obj->count ? obj->count : len;
 
     crefl_span span = crefl_buf_remaining(buf);
-    if (span.length < copy_count) {
+    if (span.length < len) {
         return -1;
     }
 
@@ -2630,7 +2630,7 @@ int crefl_asn1_ber_octets_write(crefl_buf *buf, size_t len, const asn1_string *o
     size_t copy_count = len > obj->count ? obj->count : len;
 
     crefl_span span = crefl_buf_remaining(buf);
-    if (span.length < copy_count) {
+    if (span.length < len) {
         return -1;
     }
 
-- 
2.43.0


From f8f75a323bb093258a83712f8507c0cddc1bc210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:49 +0000
Subject: [PATCH 18/75] fix: object identifier octets split and bounded as
 X.690 8.19 says

---
 src/asn1.cc | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index 4aa4666..b5fad55 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -2470,19 +2470,20 @@ int crefl_asn1_ber_oid_read(crefl_buf *buf, size_t len, asn1_oid *obj)
         if (crefl_asn1_ber_tag_read(buf, &comp) < 0) goto err;
         /*
          * 8.19.4 rule where first two components are combined -> (X*40) + Y
+         * with X limited to 0, 1 and 2
          */
-        if (n == 0 && comp > 40) {
-            if (n < limit) obj->oid[n] = comp/40;
-            n++;
-            if (n < limit) obj->oid[n] = comp%40;
-            n++;
+        if (n == 0) {
+            u64 x = comp < 80 ? comp/40 : 2;
+            obj->oid[n++] = x;
+            obj->oid[n++] = comp - x*40;
         }
         else {
-            if (n < limit) obj->oid[n] = comp;
-            n++;
+            if (n == limit) goto err;
+            obj->oid[n++] = comp;
         }
         offset = crefl_buf_offset(buf);
     }
+    if (n == 0 || (offset - start) != len) goto err;
     obj->count = n;
     return 0;
 err:
-- 
2.43.0


From 65223acb1af98178f8b1978774e61fe7f8d996f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:49 +0000
Subject: [PATCH 19/75] fix: object identifiers with too many components are
 not written

---
 src/asn1.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index b5fad55..d403c95 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -2446,7 +2446,9 @@ int crefl_vlu_u64_write_byval(crefl_buf *buf, const u64 value)
 size_t crefl_asn1_ber_oid_length(const asn1_oid *obj)
 {
     size_t length = 0;
-    for (size_t i = 0; i < obj->count; i++) {
+    size_t count = obj->count > asn1_oid_comp_max ?
+        asn1_oid_comp_max : obj->count;
+    for (size_t i = 0; i < count; i++) {
         /*
          * 8.19.4 rule where first two components are combined -> (X*40) + Y
          */
@@ -2493,6 +2495,9 @@ err:
 
 int crefl_asn1_ber_oid_write(crefl_buf *buf, size_t len, const asn1_oid *obj)
 {
+    if (obj->count > asn1_oid_comp_max) {
+        return -1;
+    }
     for (size_t i = 0; i < obj->count; i++) {
         /*
          * 8.19.4 rule where first two components are combined -> (X*40) + Y
-- 
2.43.0


From c0590fe587923830db4e46c149e7d16061f48faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:49 +0000
Subject: [PATCH 20/75] fix: object identifier text stays inside a short buffer

---
 src/asn1.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index d403c95..259e57c 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -2544,9 +2544,10 @@ int crefl_asn1_oid_to_string(char *str, size_t *buflen, const asn1_oid *obj)
     size_t count = obj->count > asn1_oid_comp_max ?
         asn1_oid_comp_max : obj->count;
     for (size_t i = 0; i < count; i ++) {
+        size_t space = str && offset < limit ? limit - offset : 0;
         int ret = snprintf(
-            (limit ? str + offset : NULL),
-            (limit ? limit - offset : 0),
+            (space ? str + offset : NULL),
+            space,
             (i == 0 ? "%lld" : ".%lld"),
             obj->oid[i]
         );
-- 
2.43.0


From ff2c1679248ac52e19cf8328e6f82c04fca9026a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:36 +0000
Subject: [PATCH 21/75] fix: object identifier text with zero arcs, trailing
 dot or too many arcs

---
 src/asn1.cc | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index 259e57c..0dc395c 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -2562,23 +2562,24 @@ int crefl_asn1_oid_from_string(asn1_oid *obj, const char *str, size_t buflen)
     u64 comp_num = 0;
     size_t last = 0, comp = 0;
     for (size_t i = 0; i <= buflen; i++) {
-        if (i != last && ((i < buflen && str[i] == '.') || i == buflen)) {
-            size_t comp_len = i - last + 1;
-            if (comp < asn1_oid_comp_max) {
-                obj->oid[comp] = comp_num;
+        if (i == buflen || str[i] == '.') {
+            if (i == last) {
+                if (buflen == 0) break;
+                goto err;
+            }
+            if (comp == asn1_oid_comp_max) {
+                goto err;
             }
-            comp++;
+            obj->oid[comp++] = comp_num;
             comp_num = 0;
             last = i + 1;
-        } else if (isdigit(str[i])) {
+        } else if (isdigit((unsigned char)str[i])) {
             u64 num = comp_num * 10 + (int)str[i] - '0';
-            if (num > comp_num && num < (1ull << 56)) {
+            if (num < (1ull << 56)) {
                 comp_num = num;
             } else {
                 goto err;
             }
-        } else if (i == buflen) {
-            //
         } else {
             goto err;
         }
-- 
2.43.0


From 3667fec394ad157314cdb97d8364068297fc7ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:36 +0000
Subject: [PATCH 22/75] fix: REAL special values for NaN and minus zero are
 swapped

---
 src/asn1.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index 0dc395c..9f8adfe 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -938,8 +938,8 @@ enum _real_decimal_nr {
 enum _real_special {
     _real_special_pos_inf   = 0b01000000,
     _real_special_neg_inf   = 0b01000001,
-    _real_special_neg_zero  = 0b01000010,
-    _real_special_nan       = 0b01000011,
+    _real_special_nan       = 0b01000010,
+    _real_special_neg_zero  = 0b01000011,
 };
 
 static _real_fmt _asn1_real_format(u8 x)
-- 
2.43.0


From 810aa0ad50c42257cdd8c605a999dd4e7e6ee94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:36 +0000
Subject: [PATCH 23/75] fix: REAL encoding of subnormals

---
 src/asn1.cc | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index 9f8adfe..e2a82fc 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -985,16 +985,17 @@ static f64_asn1_data f64_asn1_data_get(double value)
 {
     u64 frac;
     s64 sexp;
-    size_t frac_tz, frac_lz;
+    size_t frac_tz;
 
     sexp = (s64)f64_exp_dec(value);
     frac = (s64)f64_mant_dec(value) | (-(s64)(sexp > 0) & f64_mant_prefix);
-    frac_tz = ctz(frac);
-    frac_lz = clz(frac);
-    frac >>= frac_tz;
 
-    if (sexp > 0) {
-        sexp += frac_lz + frac_tz - 63 - f64_exp_bias;
+    if (frac > 0) {
+        /* subnormals have the exponent of the smallest normal */
+        if (sexp == 0) sexp = 1;
+        frac_tz = ctz(frac);
+        frac >>= frac_tz;
+        sexp += (s64)frac_tz - (s64)f64_mant_size - (s64)f64_exp_bias;
     }
 
     return f64_asn1_data {
-- 
2.43.0


From 4057a13b36c39e921e40ef97ab2e6e99c25e64e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:36 +0000
Subject: [PATCH 24/75] fix: REAL decoding of subnormals, base, scale, exponent
 forms and bounds

---
 src/asn1.cc | 201 ++++++++++++++++++++++++----------------------------
 1 file changed, 91 insertions(+), 110 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index e2a82fc..b075868 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -947,6 +947,19 @@ static _real_fmt _asn1_real_format(u8 x)
     return (_real_fmt)((x >> _real_fmt_shift) & _real_fmt_mask);
 }
 
+static _real_base _asn1_real_base(u8 x)
+{
+    return (_real_base)((x >> _real_base_shift) & _real_base_mask);
+}
+
+static u8 _asn1_real_scale(u8 x)
+{
+    return (x >> _real_scale_shift) & _real_scale_mask;
+}
+
+/* limit for exponents, larger ones are out of range in any base */
+static const s64 _real_sexp_max = 1 << 16;
+
 static _real_exp _asn1_real_exp(u8 x)
 {
     return (_real_exp)((x >> _real_exp_shift) & _real_exp_mask);
@@ -1033,43 +1046,95 @@ size_t crefl_asn1_ber_real_f64_length_byval(const double value)
     }
 }
 
+/*
+ * assemble IEEE 754 value from fraction, signed exponent, and sign. excess
+ * precision is truncated, and values that are out of range are errors.
+ */
+static int f64_asn1_data_put(u64 frac, s64 sexp, bool sign, double *value)
+{
+    u64 fexp = 0;
+    s64 nexp;
+
+    if (frac != 0) {
+        /*
+         * IEEE 754 exponent is relative to the msb of the mantissa
+         * ASN.1 exponent is relative to the lsb of the mantissa
+         *
+         * left-justify the fraction with the most significant set bit in
+         * bit 63, then crop off the IEEE 754 implied leading digit 0b1.xxx
+         */
+        size_t frac_lz = clz(frac);
+        nexp = sexp + 63 - (s64)frac_lz + (s64)f64_exp_bias;
+        frac <<= frac_lz;
+        if (nexp >= (s64)f64_exp_mask) {
+            return -1;
+        } else if (nexp > 0) {
+            fexp = (u64)nexp;
+            frac = (frac << 1) >> (64 - f64_mant_size);
+        } else if (nexp > -(s64)f64_mant_size) {
+            frac >>= (s64)f64_exp_size + 1 - nexp;
+        } else {
+            return -1;
+        }
+    }
+
+    *value = f64_pack_float(f64_struct{frac, fexp, sign});
+    return 0;
+}
+
 int crefl_asn1_ber_real_f64_read(crefl_buf *buf, size_t len, double *value)
 {
     int8_t b;
     double v = 0;
-    _real_fmt fmt;
-    _real_exp exp_mode;
     size_t frac_len;
     size_t exp_len;
+    size_t hdr_len = 1;
     u64 frac;
     s64 sexp;
-    u64 fexp;
+    s64 scale;
     bool sign;
-    size_t frac_lz;
 
+    /* plus zero has no contents octets */
+    if (len == 0) {
+        *value = 0;
+        return 0;
+    }
     if (crefl_buf_read_i8(buf, &b) != 1) {
         goto err;
     }
-    fmt = _asn1_real_format(b);
-    switch (b) {
-    case _real_special_pos_inf:  *value = std::numeric_limits<f64>::infinity();  return 0;
-    case _real_special_neg_inf:  *value = -std::numeric_limits<f64>::infinity(); return 0;
-    case _real_special_neg_zero: *value = -0.0;     return 0;
-    case _real_special_nan:      *value = std::numeric_limits<f64>::quiet_NaN();  return 0;
-    default: break;
-    }
-    switch (fmt) {
+    switch (_asn1_real_format(b)) {
+    case _real_fmt_special:
+        if (len != 1) goto err;
+        switch ((u8)b) {
+        case _real_special_pos_inf:  *value = std::numeric_limits<f64>::infinity();  return 0;
+        case _real_special_neg_inf:  *value = -std::numeric_limits<f64>::infinity(); return 0;
+        case _real_special_neg_zero: *value = -0.0;     return 0;
+        case _real_special_nan:      *value = std::numeric_limits<f64>::quiet_NaN();  return 0;
+        default: goto err;
+        }
     case _real_fmt_binary_pos: sign = false; break;
     case _real_fmt_binary_neg: sign = true; break;
     default: goto err;
     }
-    exp_mode = _asn1_real_exp(b);
-    switch(exp_mode) {
-    case _real_exp_1: exp_len = 1; break;
-    case _real_exp_2: exp_len = 2; break;
+    switch (_asn1_real_base(b)) {
+    case _real_base_2:  scale = 1; break;
+    case _real_base_8:  scale = 3; break;
+    case _real_base_16: scale = 4; break;
     default: goto err;
     }
-    frac_len = len - exp_len - 1;
+    exp_len = (size_t)_asn1_real_exp(b) + 1;
+    if (exp_len > 3) {
+        int8_t n;
+        if (crefl_buf_read_i8(buf, &n) != 1) {
+            goto err;
+        }
+        exp_len = (u8)n;
+        hdr_len = 2;
+    }
+    if (len <= hdr_len + exp_len) {
+        goto err;
+    }
+    frac_len = len - exp_len - hdr_len;
 
     if (crefl_asn1_ber_integer_s64_read(buf, exp_len, &sexp) < 0) {
         goto err;
@@ -1077,28 +1142,13 @@ int crefl_asn1_ber_real_f64_read(crefl_buf *buf, size_t len, double *value)
     if (crefl_asn1_ber_integer_u64_read(buf, frac_len, &frac) < 0) {
         goto err;
     }
-    frac_lz = clz(frac);
-
-    /*
-     * IEEE 754 exponent is relative to the msb of the mantissa
-     * ASN.1 exponent is relative to the lsb of the mantissa
-     *
-     * left-justify the fraction with the most significant set bit in bit 51
-     * (0-indexed) cropping off the IEEE 754 implied leading digit 0b1.xxx
-     */
-    if (frac == 1 && sexp == 0) {
-        frac = 0;
-        fexp = f64_exp_bias;
-    } else if (frac == 0 && sexp == 0) {
-        fexp = 0;
-    } else {
-        frac = (frac << (frac_lz + 1)) >> (64 - f64_mant_size);
-        fexp = f64_exp_bias + 63 + sexp - frac_lz;
+    if (sexp < -_real_sexp_max || sexp > _real_sexp_max) {
+        if (frac != 0) goto err;
+        sexp = 0;
     }
-    if (fexp > f64_exp_mask || frac > f64_mant_mask) {
-        return -1;
+    if (f64_asn1_data_put(frac, sexp * scale + _asn1_real_scale(b), sign, &v) < 0) {
+        goto err;
     }
-    v = f64_pack_float(f64_struct{frac, fexp, sign});
 
     *value = v;
     return 0;
@@ -1109,78 +1159,9 @@ err:
 
 f64_result crefl_asn1_ber_real_f64_read_byval(crefl_buf *buf, size_t len)
 {
-    int8_t b;
-    double v = 0;
-    _real_fmt fmt;
-    _real_exp exp_mode;
-    size_t frac_len;
-    size_t exp_len;
-    u64 frac;
-    s64 sexp;
-    u64 fexp;
-    bool sign;
-    size_t frac_lz;
-    s64_result rexp;
-    u64_result rfrac;
-
-    if (crefl_buf_read_i8(buf, &b) != 1) {
-        return f64_result { 0, -1 };
-    }
-    fmt = _asn1_real_format(b);
-    switch (b) {
-    case _real_special_pos_inf:  return f64_result { std::numeric_limits<f64>::infinity(), 0 };
-    case _real_special_neg_inf:  return f64_result { -std::numeric_limits<f64>::infinity(), 0 };
-    case _real_special_neg_zero: return f64_result { -0.0, 0 };
-    case _real_special_nan:      return f64_result { std::numeric_limits<f64>::quiet_NaN(), 0 };
-    default: break;
-    }
-    switch (fmt) {
-    case _real_fmt_binary_pos: sign = false; break;
-    case _real_fmt_binary_neg: sign = true; break;
-    default: return f64_result { 0, -1 };
-    }
-    exp_mode = _asn1_real_exp(b);
-    switch(exp_mode) {
-    case _real_exp_1: exp_len = 1; break;
-    case _real_exp_2: exp_len = 2; break;
-    default: return f64_result { 0, -1 };
-    }
-    frac_len = len - exp_len - 1;
-
-    rexp = crefl_asn1_ber_integer_s64_read_byval(buf, exp_len);
-    if (rexp.error < 0) {
-        return f64_result { 0, rexp.error };
-    }
-    sexp = rexp.value;
-    rfrac = crefl_asn1_ber_integer_u64_read_byval(buf, frac_len);
-    if (rfrac.error < 0) {
-        return f64_result { 0, rfrac.error };
-    }
-    frac = rfrac.value;
-    frac_lz = clz(frac);
-
-    /*
-     * IEEE 754 exponent is relative to the msb of the mantissa
-     * ASN.1 exponent is relative to the lsb of the mantissa
-     *
-     * left-justify the fraction with the most significant set bit in bit 51
-     * (0-indexed) cropping off the IEEE 754 implied leading digit 0b1.xxx
-     */
-    if (frac == 1 && sexp == 0) {
-        frac = 0;
-        fexp = f64_exp_bias;
-    } else if (frac == 0 && sexp == 0) {
-        fexp = 0;
-    } else {
-        frac = (frac << (frac_lz + 1)) >> (64 - f64_mant_size);
-        fexp = f64_exp_bias + 63 + sexp - frac_lz;
-    }
-    if (fexp > f64_exp_mask || frac > f64_mant_mask) {
-        return f64_result { 0, -1 };
-    }
-    v = f64_pack_float(f64_struct{frac, fexp, sign});
-
-    return f64_result { v, 0 };
+    double value;
+    int ret = crefl_asn1_ber_real_f64_read(buf, len, &value);
+    return f64_result { value, ret };
 }
 
 int crefl_asn1_ber_real_f64_write(crefl_buf *buf, size_t len, const double *value)
-- 
2.43.0


From c4979dd8c338fe630d4bcc9ac3319fecaa770904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:48 +0000
Subject: [PATCH 25/75] fix: vf128 values read in another precision, subnormals
 and extreme exponents

---
 src/asn1.cc | 216 +++++++++++++++++++++++++++++-----------------------
 1 file changed, 119 insertions(+), 97 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index b075868..bac813d 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -1280,6 +1280,62 @@ int crefl_asn1_der_real_f64_write_byval(crefl_buf *buf, asn1_tag _tag, const dou
     return crefl_asn1_ber_real_f64_write_byval(buf, hdr._length, value);
 }
 
+/*
+ * read out-of-line exponent and mantissa
+ *
+ * the mantissa is returned left-justified with its leading one in bit 63,
+ * and less significant bits that do not fit are truncated. an absent mantissa
+ * is a power of two, and an absent exponent is the count of trailing zeros in
+ * the mantissa. both absent, and a mantissa without a leading one are errors.
+ */
+static int crefl_vf_ext_read(crefl_buf *buf, int vf_exp, int vf_man, s64 *exp, u64 *man)
+{
+    s64 r_exp = 0;
+    u64 r_man = 0, low = 0;
+    size_t tz, low_bits = 0;
+
+    if (vf_exp == 0 && vf_man == 0) {
+        return -1;
+    }
+    if (vf_exp && crefl_le_ber_integer_s64_read(buf, vf_exp, &r_exp) < 0) {
+        return -1;
+    }
+    if (vf_man > 8) {
+        if (crefl_le_ber_integer_u64_read(buf, vf_man - 8, &low) < 0) {
+            return -1;
+        }
+        low_bits = (vf_man - 8) * 8;
+        vf_man = 8;
+    }
+    if (vf_man && crefl_le_ber_integer_u64_read(buf, vf_man, &r_man) < 0) {
+        return -1;
+    }
+    if (vf_man == 0) {
+        r_man = 1;
+    }
+    if (r_man == 0 && low == 0) {
+        return -1;
+    }
+
+    if (vf_exp == 0) {
+        tz = low ? ctz(low) : low_bits + ctz(r_man);
+        r_exp = -(s64)tz - 1;
+    }
+    if (r_man == 0) {
+        r_man = low << clz(low);
+    } else {
+        size_t lz = clz(r_man);
+        r_man <<= lz;
+        if (lz > 0 && low_bits > 0) {
+            r_man |= (low << (64 - low_bits)) >> (64 - lz);
+        }
+    }
+
+    *exp = r_exp;
+    *man = r_man;
+    return 0;
+}
+
 /*
  * vf8 compressed float - f64
  */
@@ -1361,10 +1417,7 @@ int crefl_vf_f64_read(crefl_buf *buf, double *value)
     vf_man =     pre       & 15;
 
     if (!vf_inl) {
-        if (vf_exp && crefl_le_ber_integer_s64_read(buf, vf_exp, &vr_exp) < 0) {
-            goto err;
-        }
-        if (vf_man && crefl_le_ber_integer_u64_read(buf, vf_man, &vr_man) < 0) {
+        if (crefl_vf_ext_read(buf, vf_exp, vf_man, &vr_exp, &vr_man) < 0) {
             goto err;
         }
     }
@@ -1401,20 +1454,20 @@ int crefl_vf_f64_read(crefl_buf *buf, double *value)
     }
     /* out-of-line little-endian exponent and mantissa */
     else {
-        size_t lz = clz(vr_man), tz = ctz(vr_man);
-        if (vr_exp <= -(s64)f64_exp_bias) {
+        if (vr_exp > (s64)f64_exp_bias) {
+            /* out of range - infinity */
+            vp_exp = f64_exp_mask;
+            vp_man = 0;
+        } else if (vr_exp <= -(s64)f64_exp_bias) {
             /* normal to subnormal - calculate shift using exponent delta
-             * then left-justify the mantissa preserving the leading 1. */
-            assert(vr_exp >= -(s64)f64_exp_bias - f64_mant_size);
-            size_t sh = f64_exp_bias + vr_exp + lz - f64_exp_size;
+             * then right-justify the mantissa preserving the leading 1. */
+            s64 sh = 64 - (s64)f64_mant_size - (s64)f64_exp_bias - vr_exp;
             vp_exp = 0;
-            vp_man = (u64)vr_man << sh;
+            vp_man = sh < 64 ? (u64)(vr_man >> sh) : 0;
         } else {
-            /* normal - if no exponent, mantissa is a fraction in the range
-             * +/-0.9900.. with a unary prefix containing the exponent. */
-            if (vf_exp == 0) vr_exp = -tz - 1;
-            vp_exp = f64_exp_bias + vr_exp;
-            vp_man = (u64)vr_man << (lz + 1) >> (f64_exp_size + 1);
+            /* normal - truncate the leading 1 and excess precision. */
+            vp_exp = f64_exp_bias + (s64)vr_exp;
+            vp_man = (u64)(vr_man << 1 >> (64 - f64_mant_size));
         }
     }
 
@@ -1459,15 +1512,8 @@ f64_result crefl_vf_f64_read_byval(crefl_buf *buf)
     vf_man =     pre       & 15;
 
     if (!vf_inl) {
-        if (vf_exp) {
-            s64_result r = crefl_le_ber_integer_s64_read_byval(buf, vf_exp);
-            if (r.error < 0) return f64_result { 0, r.error };
-            vr_exp = r.value;
-        }
-        if (vf_man) {
-            u64_result r = crefl_le_ber_integer_u64_read_byval(buf, vf_man);
-            if (r.error < 0) return f64_result { 0, r.error };
-            vr_man = r.value;
+        if (crefl_vf_ext_read(buf, vf_exp, vf_man, &vr_exp, &vr_man) < 0) {
+            return f64_result { 0, -1 };
         }
     }
 
@@ -1503,20 +1549,20 @@ f64_result crefl_vf_f64_read_byval(crefl_buf *buf)
     }
     /* out-of-line little-endian exponent and mantissa */
     else {
-        size_t lz = clz(vr_man), tz = ctz(vr_man);
-        if (vr_exp <= -(s64)f64_exp_bias) {
+        if (vr_exp > (s64)f64_exp_bias) {
+            /* out of range - infinity */
+            vp_exp = f64_exp_mask;
+            vp_man = 0;
+        } else if (vr_exp <= -(s64)f64_exp_bias) {
             /* normal to subnormal - calculate shift using exponent delta
-             * then left-justify the mantissa preserving the leading 1. */
-            assert(vr_exp >= -(s64)f64_exp_bias - f64_mant_size);
-            size_t sh = f64_exp_bias + vr_exp + lz - f64_exp_size;
+             * then right-justify the mantissa preserving the leading 1. */
+            s64 sh = 64 - (s64)f64_mant_size - (s64)f64_exp_bias - vr_exp;
             vp_exp = 0;
-            vp_man = (u64)vr_man << sh;
+            vp_man = sh < 64 ? (u64)(vr_man >> sh) : 0;
         } else {
-            /* normal - if no exponent, mantissa is a fraction in the range
-             * +/-0.9900.. with a unary prefix containing the exponent. */
-            if (vf_exp == 0) vr_exp = -tz - 1;
-            vp_exp = f64_exp_bias + vr_exp;
-            vp_man = (u64)vr_man << (lz + 1) >> (f64_exp_size + 1);
+            /* normal - truncate the leading 1 and excess precision. */
+            vp_exp = f64_exp_bias + (s64)vr_exp;
+            vp_man = (u64)(vr_man << 1 >> (64 - f64_mant_size));
         }
     }
 
@@ -1570,9 +1616,9 @@ int crefl_vf_f64_write(crefl_buf *buf, const double *value)
          */
         if (d.sexp == -(s64)f64_exp_bias) {
             vw_man = d.frac >> tz;
-            vw_exp = d.sexp - lz - 1;
+            vw_exp = d.sexp - lz;
             vf_exp = (u8)crefl_le_ber_integer_s64_length_byval(vw_exp);
-            vf_man = (u8)crefl_le_ber_integer_u64_length_byval(vw_man);
+            vf_man = vw_man == 1 ? 0 : (u8)crefl_le_ber_integer_u64_length_byval(vw_man);
             pre = 0x80 | (d.sign << 6) | (vf_exp << 4) | vf_man;
         }
         else if (d.frac == 0) {
@@ -1677,9 +1723,9 @@ int crefl_vf_f64_write_byval(crefl_buf *buf, const double value)
          */
         if (d.sexp == -(s64)f64_exp_bias) {
             vw_man = d.frac >> tz;
-            vw_exp = d.sexp - lz - 1;
+            vw_exp = d.sexp - lz;
             vf_exp = (u8)crefl_le_ber_integer_s64_length_byval(vw_exp);
-            vf_man = (u8)crefl_le_ber_integer_u64_length_byval(vw_man);
+            vf_man = vw_man == 1 ? 0 : (u8)crefl_le_ber_integer_u64_length_byval(vw_man);
             pre = 0x80 | (d.sign << 6) | (vf_exp << 4) | vf_man;
         }
         else if (d.frac == 0) {
@@ -1809,8 +1855,8 @@ int crefl_vf_f32_read(crefl_buf *buf, float *value)
     bool vf_sgn;
     int vf_exp;
     int vf_man;
-    u32 vr_man = 0;
-    s32 vr_exp = 0;
+    u64 vr_man = 0;
+    s64 vr_exp = 0;
     u32 vp_man = 0;
     s32 vp_exp = 0;
 
@@ -1824,20 +1870,8 @@ int crefl_vf_f32_read(crefl_buf *buf, float *value)
     vf_man =     pre       & 15;
 
     if (!vf_inl) {
-        if (vf_exp) {
-            s64_result r = crefl_le_ber_integer_s64_read_byval(buf, vf_exp);
-            if (r.error < 0) goto err;
-            vr_exp = (s32)r.value;
-        }
-        if (vf_man) {
-            u64_result r = crefl_le_ber_integer_u64_read_byval(buf, vf_man);
-            if (r.error < 0) goto err;
-
-            /* if there are less than 32 leading zeros, then we must
-             * truncate some precision from the right-most bits. */
-            size_t lz = clz(r.value);
-            size_t sh = lz < 32 ? 32 - lz : 0;
-            vr_man = (u32)(r.value >> sh);
+        if (crefl_vf_ext_read(buf, vf_exp, vf_man, &vr_exp, &vr_man) < 0) {
+            goto err;
         }
     }
 
@@ -1873,20 +1907,20 @@ int crefl_vf_f32_read(crefl_buf *buf, float *value)
     }
     /* out-of-line little-endian exponent and mantissa */
     else {
-        size_t lz = clz(vr_man), tz = ctz(vr_man);
-        if (vr_exp <= -(s32)f32_exp_bias) {
+        if (vr_exp > (s64)f32_exp_bias) {
+            /* out of range - infinity */
+            vp_exp = f32_exp_mask;
+            vp_man = 0;
+        } else if (vr_exp <= -(s64)f32_exp_bias) {
             /* normal to subnormal - calculate shift using exponent delta
-             * then left-justify the mantissa preserving the leading 1. */
-            assert(vr_exp >= -(s32)f32_exp_bias - f32_mant_size);
-            size_t sh = f32_exp_bias + vr_exp + (u32)lz - f32_exp_size;
+             * then right-justify the mantissa preserving the leading 1. */
+            s64 sh = 64 - (s64)f32_mant_size - (s64)f32_exp_bias - vr_exp;
             vp_exp = 0;
-            vp_man = (u32)vr_man << sh;
+            vp_man = sh < 64 ? (u32)(vr_man >> sh) : 0;
         } else {
-            /* normal - if no exponent, mantissa is a fraction in the range
-             * +/-0.9900.. with a unary prefix containing the exponent. */
-            if (vf_exp == 0) vr_exp = -(s32)tz - 1;
-            vp_exp = f32_exp_bias + vr_exp;
-            vp_man = (u32)vr_man << (lz + 1) >> (f32_exp_size + 1);
+            /* normal - truncate the leading 1 and excess precision. */
+            vp_exp = f32_exp_bias + (s32)vr_exp;
+            vp_man = (u32)(vr_man << 1 >> (64 - f32_mant_size));
         }
     }
 
@@ -1916,8 +1950,8 @@ f32_result crefl_vf_f32_read_byval(crefl_buf *buf)
     bool vf_sgn;
     int vf_exp;
     int vf_man;
-    u32 vr_man = 0;
-    s32 vr_exp = 0;
+    u64 vr_man = 0;
+    s64 vr_exp = 0;
     u32 vp_man = 0;
     s32 vp_exp = 0;
 
@@ -1931,20 +1965,8 @@ f32_result crefl_vf_f32_read_byval(crefl_buf *buf)
     vf_man =    pre & 15;
 
     if (!vf_inl) {
-        if (vf_exp) {
-            s64_result r = crefl_le_ber_integer_s64_read_byval(buf, vf_exp);
-            if (r.error < 0) return f32_result { 0, (s32)r.error };
-            vr_exp = (s32)r.value;
-        }
-        if (vf_man) {
-            u64_result r = crefl_le_ber_integer_u64_read_byval(buf, vf_man);
-            if (r.error < 0) return f32_result { 0, (s32)r.error };
-
-            /* if there are less than 32 leading zeros, then we must
-             * truncate some precision from the right-most bits. */
-            size_t lz = clz(r.value);
-            size_t sh = lz < 32 ? 32 - lz : 0;
-            vr_man = (u32)(r.value >> sh);
+        if (crefl_vf_ext_read(buf, vf_exp, vf_man, &vr_exp, &vr_man) < 0) {
+            return f32_result { 0, -1 };
         }
     }
 
@@ -1980,20 +2002,20 @@ f32_result crefl_vf_f32_read_byval(crefl_buf *buf)
     }
     /* out-of-line little-endian exponent and mantissa */
     else {
-        size_t lz = clz(vr_man), tz = ctz(vr_man);
-        if (vr_exp <= -(s32)f32_exp_bias) {
+        if (vr_exp > (s64)f32_exp_bias) {
+            /* out of range - infinity */
+            vp_exp = f32_exp_mask;
+            vp_man = 0;
+        } else if (vr_exp <= -(s64)f32_exp_bias) {
             /* normal to subnormal - calculate shift using exponent delta
-             * then left-justify the mantissa preserving the leading 1. */
-            assert(vr_exp >= -(s32)f32_exp_bias - f32_mant_size);
-            size_t sh = f32_exp_bias + vr_exp + (u32)lz - f32_exp_size;
+             * then right-justify the mantissa preserving the leading 1. */
+            s64 sh = 64 - (s64)f32_mant_size - (s64)f32_exp_bias - vr_exp;
             vp_exp = 0;
-            vp_man = (u32)vr_man << sh;
+            vp_man = sh < 64 ? (u32)(vr_man >> sh) : 0;
         } else {
-            /* normal - if no exponent, mantissa is a fraction in the range
-             * +/-0.9900.. with a unary prefix containing the exponent. */
-            if (vf_exp == 0) vr_exp = -(s32)tz - 1;
-            vp_exp = f32_exp_bias + vr_exp;
-            vp_man = (u32)vr_man << (lz + 1) >> (f32_exp_size + 1);
+            /* normal - truncate the leading 1 and excess precision. */
+            vp_exp = f32_exp_bias + (s32)vr_exp;
+            vp_man = (u32)(vr_man << 1 >> (64 - f32_mant_size));
         }
     }
 
@@ -2047,9 +2069,9 @@ int crefl_vf_f32_write(crefl_buf *buf, const float *value)
          */
         if (d.sexp == -(s32)f32_exp_bias) {
             vw_man = d.frac >> tz;
-            vw_exp = d.sexp - (u32)lz - 1;
+            vw_exp = d.sexp - (u32)lz;
             vf_exp = (u8)crefl_le_ber_integer_s64_length_byval(vw_exp);
-            vf_man = (u8)crefl_le_ber_integer_u64_length_byval(vw_man);
+            vf_man = vw_man == 1 ? 0 : (u8)crefl_le_ber_integer_u64_length_byval(vw_man);
             pre = 0x80 | (d.sign << 6) | (vf_exp << 4) | vf_man;
         }
         else if (d.frac == 0) {
@@ -2154,9 +2176,9 @@ int crefl_vf_f32_write_byval(crefl_buf *buf, const float value)
          */
         if (d.sexp == -(s32)f32_exp_bias) {
             vw_man = d.frac >> tz;
-            vw_exp = d.sexp - (u32)lz - 1;
+            vw_exp = d.sexp - (u32)lz;
             vf_exp = (u8)crefl_le_ber_integer_s64_length_byval(vw_exp);
-            vf_man = (u8)crefl_le_ber_integer_u64_length_byval(vw_man);
+            vf_man = vw_man == 1 ? 0 : (u8)crefl_le_ber_integer_u64_length_byval(vw_man);
             pre = 0x80 | (d.sign << 6) | (vf_exp << 4) | vf_man;
         }
         else if (d.frac == 0) {
-- 
2.43.0


From 6238a125afa07d965f6fd69e23cedd4da47e9333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:07 +0000
Subject: [PATCH 26/75] fix: buffer bounds with offsets beyond the end and huge
 lengths

---
 include/crefl/buf.h | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/include/crefl/buf.h b/include/crefl/buf.h
index ac69674..d20a3ee 100644
--- a/include/crefl/buf.h
+++ b/include/crefl/buf.h
@@ -93,7 +93,8 @@ static size_t crefl_buf_offset(crefl_buf* buf);
 
 static inline size_t crefl_buf_check_capacity(crefl_buf *buf, size_t len)
 {
-    return (buf->data_offset + len > buf->data_size) ? -1 : 0;
+    return (buf->data_offset > buf->data_size ||
+            len > buf->data_size - buf->data_offset) ? -1 : 0;
 }
 
 #if USE_UNALIGNED_ACCESSES && !USE_CRT_MEMCPY
@@ -101,7 +102,7 @@ static inline size_t crefl_buf_check_capacity(crefl_buf *buf, size_t len)
 #define CREFL_BUF_WRITE_IMPL(suffix,T,swap)                                    \
 static inline size_t CREFL_FN(buf_write,suffix)(crefl_buf *buf, T val)           \
 {                                                                              \
-    if (buf->data_offset + sizeof(T) > buf->data_size) return 0;               \
+    if (crefl_buf_check_capacity(buf, sizeof(T)) != 0) return 0;               \
     T t = swap(val);                                                           \
     *(T*)(buf->data + buf->data_offset) = t;                                   \
     buf->data_offset += sizeof(T);                                             \
@@ -118,7 +119,7 @@ static inline size_t CREFL_FN(buf_write_unchecked,suffix)(crefl_buf *buf, T val)
 #define CREFL_BUF_READ_IMPL(suffix,T,swap)                                     \
 static inline size_t CREFL_FN(buf_read,suffix)(crefl_buf *buf, T* val)           \
 {                                                                              \
-    if (buf->data_offset + sizeof(T) > buf->data_size) return 0;               \
+    if (crefl_buf_check_capacity(buf, sizeof(T)) != 0) return 0;               \
     T t = *(T*)(buf->data + buf->data_offset);                                 \
     *val = swap(t);                                                            \
     buf->data_offset += sizeof(T);                                             \
@@ -137,7 +138,7 @@ static inline size_t CREFL_FN(buf_read_unchecked,suffix)(crefl_buf *buf, T* val)
 #define CREFL_BUF_WRITE_IMPL(suffix,T,swap)                                    \
 static inline size_t CREFL_FN(buf_write,suffix)(crefl_buf *buf, T val)           \
 {                                                                              \
-    if (buf->data_offset + sizeof(T) > buf->data_size) return 0;               \
+    if (crefl_buf_check_capacity(buf, sizeof(T)) != 0) return 0;               \
     T t = swap(val);                                                           \
     memcpy(buf->data + buf->data_offset, &t, sizeof(T));                       \
     buf->data_offset += sizeof(T);                                             \
@@ -154,7 +155,7 @@ static inline size_t CREFL_FN(buf_write_unchecked,suffix)(crefl_buf *buf, T val)
 #define CREFL_BUF_READ_IMPL(suffix,T,swap)                                     \
 static inline size_t CREFL_FN(buf_read,suffix)(crefl_buf *buf, T* val)           \
 {                                                                              \
-    if (buf->data_offset + sizeof(T) > buf->data_size) return 0;               \
+    if (crefl_buf_check_capacity(buf, sizeof(T)) != 0) return 0;               \
     T t;                                                                       \
     memcpy(&t, buf->data + buf->data_offset, sizeof(T));                       \
     *val = swap(t);                                                            \
@@ -182,7 +183,7 @@ CREFL_BUF_READ_IMPL(i64,int64_t,le64)
 
 static inline size_t crefl_buf_read_i8(crefl_buf *buf, int8_t* val)
 {
-    if (buf->data_offset + 1 > buf->data_size) return 0;
+    if (crefl_buf_check_capacity(buf, 1) != 0) return 0;
     *val = *(int8_t*)(buf->data + buf->data_offset);
     buf->data_offset++;
     return 1;
@@ -197,7 +198,7 @@ static inline size_t crefl_buf_read_unchecked_i8(crefl_buf *buf, int8_t* val)
 
 static inline size_t crefl_buf_write_i8(crefl_buf *buf, int8_t val)
 {
-    if (buf->data_offset + 1 > buf->data_size) return 0;
+    if (crefl_buf_check_capacity(buf, 1) != 0) return 0;
     *(int8_t*)(buf->data + buf->data_offset) = val;
     buf->data_offset++;
     return 1;
@@ -211,7 +212,7 @@ static inline size_t crefl_buf_write_unchecked_i8(crefl_buf *buf, int8_t val)
 
 static inline size_t crefl_buf_write_bytes(crefl_buf* buf, const char *src, size_t len)
 {
-    if (buf->data_offset + len > buf->data_size) return 0;
+    if (crefl_buf_check_capacity(buf, len) != 0) return 0;
 #if USE_CRT_MEMCPY
     memcpy(&buf->data[buf->data_offset], src, len);
 #else
@@ -225,7 +226,7 @@ static inline size_t crefl_buf_write_bytes(crefl_buf* buf, const char *src, size
 
 static inline size_t crefl_buf_read_bytes(crefl_buf* buf, char *dst, size_t len)
 {
-    if (buf->data_offset + len > buf->data_size) return 0;
+    if (crefl_buf_check_capacity(buf, len) != 0) return 0;
 #if USE_CRT_MEMCPY
     memcpy(dst, &buf->data[buf->data_offset], len);
 #else
@@ -286,7 +287,9 @@ static inline size_t crefl_buf_offset(crefl_buf* buf)
 static inline crefl_span crefl_buf_remaining(crefl_buf* buf)
 {
     crefl_span s = {
-        &buf->data[buf->data_offset], buf->data_size - buf->data_offset
+        &buf->data[buf->data_offset],
+        buf->data_offset < buf->data_size ?
+            buf->data_size - buf->data_offset : 0
     };
     return s;
 }
-- 
2.43.0


From 1da8572fddbf96466d74aa3f2fe31e35feb1c0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:43 +0000
Subject: [PATCH 27/75] fix: vf128 inline subnormal mantissa shifted by the
 word size

---
 src/asn1.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index bac813d..91a3b4a 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -1432,7 +1432,7 @@ int crefl_vf_f64_read(crefl_buf *buf, double *value)
                  * of the point hence 59 = (63 - 4) then left-justify
                  * the mantissa and truncate the leading 1. */
                 vp_exp = f64_exp_bias + 59 - lz;
-                vp_man = ((u64)vf_man << (lz + 1)) >> (f64_exp_size + 1);
+                vp_man = ((u64)vf_man << lz << 1) >> (f64_exp_size + 1);
             } else {
                 /* Zero */
                 vp_exp = 0;
@@ -1527,7 +1527,7 @@ f64_result crefl_vf_f64_read_byval(crefl_buf *buf)
                  * of the point hence 59 = (63 - 4) then left-justify
                  * the mantissa and truncate the leading 1. */
                 vp_exp = f64_exp_bias + 59 - lz;
-                vp_man = ((u64)vf_man << (lz + 1)) >> (f64_exp_size + 1);
+                vp_man = ((u64)vf_man << lz << 1) >> (f64_exp_size + 1);
             } else {
                 /* Zero */
                 vp_exp = 0;
@@ -1885,7 +1885,7 @@ int crefl_vf_f32_read(crefl_buf *buf, float *value)
                  * of the point hence 27 = (31 - 4) then left-justify
                  * the mantissa and truncate the leading 1. */
                 vp_exp = f32_exp_bias + 27 - (u32)lz;
-                vp_man = ((u32)vf_man << (lz + 1)) >> (f32_exp_size + 1);
+                vp_man = ((u32)vf_man << lz << 1) >> (f32_exp_size + 1);
             } else {
                 /* Zero */
                 vp_exp = 0;
@@ -1980,7 +1980,7 @@ f32_result crefl_vf_f32_read_byval(crefl_buf *buf)
                  * of the point hence 27 = (31 - 4) then left-justify
                  * the mantissa and truncate the leading 1. */
                 vp_exp = f32_exp_bias + 27 - (u32)lz;
-                vp_man = ((u32)vf_man << (lz + 1)) >> (f32_exp_size + 1);
+                vp_man = ((u32)vf_man << lz << 1) >> (f32_exp_size + 1);
             } else {
                 /* Zero */
                 vp_exp = 0;
-- 
2.43.0


From b13451a71bde285a8b2c7695dbabb40a5fc7fa39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:06 +0000
Subject: [PATCH 28/75] fix: generic byte order conversions compile in C on
 Linux

---
 include/crefl/endian.h | 64 +++++++++++++++++++++---------------------
 1 file changed, 32 insertions(+), 32 deletions(-)

diff --git a/include/crefl/endian.h b/include/crefl/endian.h
index 9e7f1b5..a47dccc 100644
--- a/include/crefl/endian.h
+++ b/include/crefl/endian.h
@@ -289,15 +289,15 @@ static inline uint64_t le64toh(uint64_t x) { return le64(x); }
 #endif
 
 #if __SIZE_WIDTH__ == 64
-#define _htobel htobe64
-#define _beltoh be64toh
-#define _htolel htole64
-#define _leltoh le64toh
+#define _htobel be64
+#define _beltoh be64
+#define _htolel le64
+#define _leltoh le64
 #else
-#define _htobel htobe32
-#define _beltoh be32toh
-#define _htolel htole32
-#define _leltoh le32toh
+#define _htobel be32
+#define _beltoh be32
+#define _htolel le32
+#define _leltoh le32
 #endif
 
 #ifdef __cplusplus
@@ -307,47 +307,47 @@ static inline uint64_t le64toh(uint64_t x) { return le64(x); }
 #if __STDC_VERSION__ >= 201112L
 
 #define htobe(X) _Generic((X),                \
-                 short: htobe16,              \
-                 unsigned short: htobe16,     \
-                 int: htobe32,                \
-                 unsigned int: htobe32,       \
+                 short: be16,              \
+                 unsigned short: be16,     \
+                 int: be32,                \
+                 unsigned int: be32,       \
                  long: _htobel,               \
                  unsigned long: _htobel,      \
-                 long long: htobe64,          \
-                 unsigned long long: htobe64  \
+                 long long: be64,          \
+                 unsigned long long: be64  \
                  )(X)
 
 #define betoh(X) _Generic((X),                \
-                 short: be16toh,              \
-                 unsigned short: be16toh,     \
-                 int: be32toh,                \
-                 unsigned int: be32toh,       \
+                 short: be16,              \
+                 unsigned short: be16,     \
+                 int: be32,                \
+                 unsigned int: be32,       \
                  long: _beltoh,               \
                  unsigned long: _beltoh,      \
-                 long long: be64toh,          \
-                 unsigned long long: be64toh  \
+                 long long: be64,          \
+                 unsigned long long: be64  \
                  )(X)
 
 #define htole(X) _Generic((X),                \
-                 short: htole16,              \
-                 unsigned short: htole16,     \
-                 int: htole32,                \
-                 unsigned int: htole32,       \
+                 short: le16,              \
+                 unsigned short: le16,     \
+                 int: le32,                \
+                 unsigned int: le32,       \
                  long: _htolel,               \
                  unsigned long: _htolel,      \
-                 long long: htole64,          \
-                 unsigned long long: htole64  \
+                 long long: le64,          \
+                 unsigned long long: le64  \
                  )(X)
 
 #define letoh(X) _Generic((X),                \
-                 short: le16toh,              \
-                 unsigned short: le16toh,     \
-                 int: le32toh,                \
-                 unsigned int: le32toh,       \
+                 short: le16,              \
+                 unsigned short: le16,     \
+                 int: le32,                \
+                 unsigned int: le32,       \
                  long: _leltoh,               \
                  unsigned long: _leltoh,      \
-                 long long: le64toh,          \
-                 unsigned long long: le64toh  \
+                 long long: le64,          \
+                 unsigned long long: le64  \
                  )(X)
 
 #else
-- 
2.43.0


From 8cc0f2bb7bf9fefb96100d9bfe05fb89391f4e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:10 +0000
Subject: [PATCH 29/75] fix: character set tables in asn1.h are not defined
 once per C file

---
 include/crefl/asn1.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/crefl/asn1.h b/include/crefl/asn1.h
index 50689e2..516a6ca 100644
--- a/include/crefl/asn1.h
+++ b/include/crefl/asn1.h
@@ -98,9 +98,9 @@ typedef struct asn1_hdr asn1_hdr;
 typedef struct asn1_oid asn1_oid;
 typedef struct asn1_string asn1_string;
 
-const u8 asn1_charset_numeric_str_chars[] =
+static const u8 asn1_charset_numeric_str_chars[] =
 	"0123456789 ";
-const u8 asn1_charset_printable_str[] =
+static const u8 asn1_charset_printable_str[] =
 	"ABCDEFGHIJKLMNOPQRSTUVWXYZ"
 	"abcdefghijklmnopqrstuvwxyz"
 	"0123456789 '()+,-./:=?";
-- 
2.43.0


From 727e50e34bc603c4a27a1f7082ea6bb747547f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:10 +0000
Subject: [PATCH 30/75] fix: types.h declares two pointer types that are not
 defined

---
 include/crefl/types.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/crefl/types.h b/include/crefl/types.h
index e7a83a5..744c262 100644
--- a/include/crefl/types.h
+++ b/include/crefl/types.h
@@ -35,8 +35,6 @@ struct _ctype
 };
 
 extern const _ctype _cvoid;
-extern const _ctype _cptr32;
-extern const _ctype _cptr64;
 extern const _ctype _cbool;
 extern const _ctype _uint1;
 extern const _ctype _sint1;
-- 
2.43.0


From f819d17e381f8376b172e484859913db626c704a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:29 +0000
Subject: [PATCH 31/75] fix: malformed reflection images are rejected and leave
 the database unchanged

---
 src/db.cc | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/db.cc b/src/db.cc
index 5120ab9..0c31587 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -63,18 +63,32 @@ int crefl_db_read_mem(decl_db *db, const uint8_t *buf, size_t input_sz)
         return -1;
     }
 
-    decl_db_hdr *hdr = (decl_db_hdr*)&buf[0];
+    decl_db_hdr hdr_buf, *hdr = &hdr_buf;
+    memcpy(hdr, &buf[0], sizeof(decl_db_hdr));
     size_t hdr_sz = sizeof(decl_db_hdr);
     size_t decl_cnt = hdr->decl_entry_count;
     size_t decl_sz = sizeof(decl_node) * decl_cnt;
     size_t name_sz = hdr->name_table_size;
     size_t root_idx = hdr->root_element;
 
+    /* check decls and names are present and the last name is terminated */
+    if (input_sz - hdr_sz < decl_sz + name_sz) {
+        fprintf(stderr, "crefl: *** error: file too short\n");
+        return -1;
+    }
+    if (name_sz > 0 && buf[hdr_sz + decl_sz + name_sz - 1] != '\0') {
+        fprintf(stderr, "crefl: *** error: name table not terminated\n");
+        return -1;
+    }
+
     /* return early if header indicates db is entry */
     if (decl_cnt == 0) {
         return 0;
     }
 
+    /* offsets to restore the database to if there is an error */
+    const decl_db save = *db;
+
     /*
      * for space compactness we elide builtin types from the output.
      * initialize builtin types then check the first element is root.
@@ -85,7 +99,7 @@ int crefl_db_read_mem(decl_db *db, const uint8_t *buf, size_t input_sz)
     crefl_db_defaults(db);
     if (db->decl_offset != root_idx || db->decl_builtin != root_idx) {
         fprintf(stderr, "crefl: *** error: incompatible builtin types\n");
-        return -1;
+        goto err;
     }
 
     /* resize buffers */
@@ -113,26 +127,34 @@ int crefl_db_read_mem(decl_db *db, const uint8_t *buf, size_t input_sz)
         if (d->_link >= db->decl_offset) {
             fprintf(stderr, "crefl: *** error: decl " fmt_ID
                 " link " fmt_ID " out of bounds\n", i, d->_link);
-            return -1;
+            goto err;
         }
         if (d->_next >= db->decl_offset) {
             fprintf(stderr, "crefl: *** error: decl " fmt_ID
                 " next " fmt_ID " out of bounds\n", i, d->_next);
-            return -1;
+            goto err;
         }
         if (d->_attr >= db->decl_offset) {
             fprintf(stderr, "crefl: *** error: decl " fmt_ID
                 " attr " fmt_ID " out of bounds\n", i, d->_attr);
-            return -1;
+            goto err;
         }
         if (d->_name >= db->name_offset) {
             fprintf(stderr, "crefl: *** error: decl " fmt_ID
                 " name " fmt_ID " out of bounds\n", i, d->_name);
-            return -1;
+            goto err;
         }
     }
 
     return 0;
+
+err:
+    db->name_builtin = save.name_builtin;
+    db->name_offset = save.name_offset;
+    db->decl_builtin = save.decl_builtin;
+    db->decl_offset = save.decl_offset;
+    db->root_element = save.root_element;
+    return -1;
 }
 
 int crefl_db_write_mem(decl_db *db, uint8_t *buf, size_t output_sz)
-- 
2.43.0


From b4bc04ae44ffe772695d1d019e1e5dd946b631b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:45 +0000
Subject: [PATCH 32/75] fix: byte padded types are aligned to 8 bits

---
 src/model.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model.cc b/src/model.cc
index 9ae3998..356f9c8 100644
--- a/src/model.cc
+++ b/src/model.cc
@@ -253,7 +253,7 @@ static _alignment _pad_align(size_t width, size_t count, decl_set props)
     size_t n;
 
     if ((props & _decl_pad_byte)) {
-        n = 8;
+        n = 3;
     }
     else if ((props & _decl_pad_pow2)) {
         n = 63 - clz(width);
-- 
2.43.0


From b6f12165afbd6f660162a7845ff4fbd547cc691d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:45 +0000
Subject: [PATCH 33/75] fix: layout of enumerations, typedefs, qualifiers and
 aliases

---
 src/model.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/model.cc b/src/model.cc
index 356f9c8..ad77eda 100644
--- a/src/model.cc
+++ b/src/model.cc
@@ -352,6 +352,11 @@ static _alignment _type_pad(decl_ref d)
     case _decl_field: return _field_pad(d);
     case _decl_array: return _array_pad(d);
     case _decl_pointer: return _pointer_pad(d);
+    case _decl_set:
+    case _decl_enum: return _pad_align(crefl_decl_qty(d), 1, _decl_pad_pow2);
+    case _decl_typedef:
+    case _decl_qualifier:
+    case _decl_alias: return _type_pad(crefl_decl_link(d));
     }
     return _alignment { 0 };
 }
-- 
2.43.0


From 2fe65c13c3fa4031c0e21a77723c75224072ccbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:45 +0000
Subject: [PATCH 34/75] fix: union size is a multiple of its alignment

---
 src/model.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model.cc b/src/model.cc
index ad77eda..bcd07c2 100644
--- a/src/model.cc
+++ b/src/model.cc
@@ -340,7 +340,7 @@ static _alignment _union_pad(decl_ref d)
         d = crefl_decl_next(d);
     }
 
-    return max;
+    return _alignment { max.align, _align(max.size, max.align) };
 }
 
 static _alignment _type_pad(decl_ref d)
-- 
2.43.0


From 7d3474d19efc8b754678dea003b850b40c020f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:10 +0000
Subject: [PATCH 35/75] fix: complex types are aligned like their parts

---
 src/model.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/model.cc b/src/model.cc
index bcd07c2..144f4a0 100644
--- a/src/model.cc
+++ b/src/model.cc
@@ -257,6 +257,7 @@ static _alignment _pad_align(size_t width, size_t count, decl_set props)
     }
     else if ((props & _decl_pad_pow2)) {
         n = 63 - clz(width);
+        if ((props & _decl_complex) && n > 0) n--; /* aligned as one part */
         if (n > maxalign) n = maxalign;
     } else {
         n = 0;
-- 
2.43.0


From 4e7c3f21e1e6f2a8d7d9db493cf90a59bb495c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:10 +0000
Subject: [PATCH 36/75] fix: types with no width have no alignment

---
 src/model.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model.cc b/src/model.cc
index 144f4a0..ade4c0a 100644
--- a/src/model.cc
+++ b/src/model.cc
@@ -255,7 +255,7 @@ static _alignment _pad_align(size_t width, size_t count, decl_set props)
     if ((props & _decl_pad_byte)) {
         n = 3;
     }
-    else if ((props & _decl_pad_pow2)) {
+    else if ((props & _decl_pad_pow2) && width > 0) {
         n = 63 - clz(width);
         if ((props & _decl_complex) && n > 0) n--; /* aligned as one part */
         if (n > maxalign) n = maxalign;
-- 
2.43.0


From fbfc144d5cfabaf8ffef8556c97a02f1f662d086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:31 +0000
Subject: [PATCH 37/75] fix: bit-fields are laid out as the C compiler does

---
 src/model.cc | 66 ++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 46 insertions(+), 20 deletions(-)

diff --git a/src/model.cc b/src/model.cc
index ade4c0a..00fcf5f 100644
--- a/src/model.cc
+++ b/src/model.cc
@@ -304,25 +304,54 @@ static _alignment _array_pad(decl_ref d)
     return pad;
 }
 
+/*
+ * structure layout
+ *
+ * - bit-fields are packed and do not straddle units of their declared type
+ * - zero width bit-fields advance to the next unit of their declared type
+ * - unnamed bit-fields do not contribute to alignment
+ */
+
+struct _layout { size_t offset, align; };
+
+static size_t _layout_field(_layout &l, decl_ref d)
+{
+    const size_t byte = 3;
+    _alignment pad = _type_pad(crefl_field_type(d));
+    size_t align = pad.align, size = pad.size, start;
+
+    if ((crefl_decl_props(d) & _decl_bitfield)) {
+        size = crefl_decl_qty(d);
+        start = l.offset;
+        if (size == 0 ||
+            start - (start & ~((1llu<<align)-1llu)) + size > pad.size) {
+            start = _align(start, align);
+        }
+        /* unnamed bit-fields only make the structure whole bytes */
+        if (!crefl_decl_has_name(d)) align = byte;
+    } else {
+        start = _align(l.offset, align);
+    }
+
+    if (align > l.align) l.align = align;
+    l.offset = start + size;
+
+    return start;
+}
+
 static _alignment _struct_pad(decl_ref d)
 {
-    _alignment max = { 0 };
-    size_t offset = 0;
+    _layout l = { 0 };
 
     if (!crefl_is_struct(d)) return _alignment { 0 };
 
     d = crefl_decl_link(d);
     while (crefl_decl_idx(d)) {
-        if (crefl_is_field(d)) {
-            _alignment pad = _type_pad(crefl_field_type(d));
-            if (pad.align > max.align) max.align = pad.align;
-            if (pad.size > max.size) max.size = pad.size;
-            offset = _align(offset, pad.align) + pad.size;
-        }
+        if (crefl_is_field(d)) _layout_field(l, d);
         d = crefl_decl_next(d);
     }
 
-    return _alignment { max.align, _align(offset, max.align) };
+    return _alignment { l.align, _align(l.offset, l.align) };
 }
 
 static _alignment _union_pad(decl_ref d)
@@ -334,9 +363,10 @@ static _alignment _union_pad(decl_ref d)
     d = crefl_decl_link(d);
     while (crefl_decl_idx(d)) {
         if (crefl_is_field(d)) {
-            _alignment pad = _type_pad(crefl_field_type(d));
-            if (pad.align > max.align) max.align = pad.align;
-            if (pad.size > max.size) max.size = pad.size;
+            _layout l = { 0 };
+            _layout_field(l, d);
+            if (l.align > max.align) max.align = l.align;
+            if (l.offset > max.size) max.size = l.offset;
         }
         d = crefl_decl_next(d);
     }
@@ -364,30 +394,26 @@ static _alignment _type_pad(decl_ref d)
 
 int crefl_struct_fields_offsets(decl_ref d, decl_ref *r, size_t *o, size_t *s)
 {
-    size_t count = 0, offset = 0, limit = s ? *s : 0;
-    _alignment max = { 0 };
+    size_t count = 0, limit = s ? *s : 0;
+    _layout l = { 0 };
 
     if (!crefl_is_struct(d)) return -1;
 
     d = crefl_decl_link(d);
     while (crefl_decl_idx(d))  {
         if (crefl_is_field(d)) {
-            _alignment pad = _type_pad(crefl_field_type(d));
-            if (pad.align > max.align) max.align = pad.align;
-            if (pad.size > max.size) max.size = pad.size;
-            offset = _align(offset, pad.align);
+            size_t offset = _layout_field(l, d);
             if (count < limit) {
                 if (r) r[count] = d;
                 if (o) o[count] = offset;
             }
-            offset += pad.size;
             ++count;
         }
         d = crefl_decl_next(d);
     }
     if (count < limit) {
         if (r) r[count] = crefl_decl_void(d);
-        if (o) o[count] = _align(offset, max.align);
+        if (o) o[count] = _align(l.offset, l.align);
     }
     if (count > 0) ++count;
     if (s) *s = count;
-- 
2.43.0


From d06f128d4e887027c396f64ac487f521f2bcfa90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:05 +0000
Subject: [PATCH 38/75] fix: formatted strings of 255 and 256 characters lose
 their end

---
 include/crefl/util.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/crefl/util.h b/include/crefl/util.h
index bf74a24..7d0ed7f 100644
--- a/include/crefl/util.h
+++ b/include/crefl/util.h
@@ -43,12 +43,13 @@ static std::string string_vprintf(const char* fmt, va_list args)
 
     va_list args2;
     va_copy(args2, args);
-    int len = vsnprintf(&buf[0], buf.size()-1, fmt, args);
-    if ((size_t)len > buf.size()) {
+    int len = vsnprintf(&buf[0], buf.size(), fmt, args);
+    if (len >= 0 && (size_t)len >= buf.size()) {
         buf.resize(len+1);
         len = vsnprintf(&buf[0], buf.size(), fmt, args2);
     }
-    buf.resize(len);
+    va_end(args2);
+    buf.resize(len > 0 ? len : 0);
 
     return buf;
 }
@@ -59,16 +60,16 @@ static std::string string_printf(const char* fmt, ...)
 
     va_list args;
     va_start(args, fmt);
-    int len = vsnprintf(&buf[0], buf.size()-1, fmt, args);
+    int len = vsnprintf(&buf[0], buf.size(), fmt, args);
     va_end(args);
-    if ((size_t)len > buf.size()) {
+    if (len >= 0 && (size_t)len >= buf.size()) {
         buf.resize(len+1);
         va_list args;
         va_start(args, fmt);
         len = vsnprintf(&buf[0], buf.size(), fmt, args);
         va_end(args);
     }
-    buf.resize(len);
+    buf.resize(len > 0 ? len : 0);
 
     return buf;
 }
-- 
2.43.0


From cd676a9f6f22864d6a860fbd742023a6f498fdc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:05 +0000
Subject: [PATCH 39/75] fix: writing a file reports errors found when it is
 closed

---
 include/crefl/util.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/crefl/util.h b/include/crefl/util.h
index 7d0ed7f..ce1d2e6 100644
--- a/include/crefl/util.h
+++ b/include/crefl/util.h
@@ -98,6 +98,7 @@ static size_t crefl_read_file(std::vector<uint8_t> &buf, const char* filename)
     }
     if (fstat(fileno(f), &statbuf) < 0) {
         fprintf(stderr, "fstat: %s\n", strerror(errno));
+        fclose(f);
         return -1;
     }
     buf.resize(statbuf.st_size);
@@ -115,7 +116,7 @@ static size_t crefl_write_file(std::vector<uint8_t> &buf, const char* filename)
         return -1;
     }
     size_t len = fwrite(buf.data(), 1, buf.size(), f);
-    fclose(f);
+    int ret = fclose(f);
 
-    return buf.size() == len ? 0 : -1;
+    return buf.size() == len && ret == 0 ? 0 : -1;
 }
-- 
2.43.0


From eb3689f38f75bbbea1c83d00869543ed136eb3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:03 +0000
Subject: [PATCH 40/75] fix: type hashes cover all attributes of a declaration

---
 src/link.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/link.cc b/src/link.cc
index 06cc0b0..ff34290 100644
--- a/src/link.cc
+++ b/src/link.cc
@@ -120,12 +120,14 @@ static void crefl_hash_node_sum(decl_sum *sum, decl_index *index,
     crefl_hash_absorb(sum, quantity_delimeter);
     crefl_hash_update(sum, &node->_quantity, sizeof(node->_quantity));
 
-    if (node->_attr) {
-        next = crefl_lookup(d.db, node->_attr);
+    /* follow `attr` to the list of attributes */
+    next = crefl_decl_attr(d);
+    while (crefl_decl_idx(next)) {
         crefl_hash_absorb(sum, attr_delimeter);
         hash = crefl_node_hash(index, next, d, prefix);
         crefl_hash_absorb(sum, hash_delimeter);
         crefl_hash_update(sum, (const char*)hash->sum, sizeof(decl_hash));
+        next = crefl_decl_next(next);
     }
     if (node->_link) {
         switch (crefl_decl_tag(d)) {
-- 
2.43.0


From 1b7f82541f9fd3f64f17b31590234c11bcbab8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:03 +0000
Subject: [PATCH 41/75] fix: merging keeps all attributes of a declaration

---
 src/link.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/link.cc b/src/link.cc
index ff34290..34d24ce 100644
--- a/src/link.cc
+++ b/src/link.cc
@@ -386,11 +386,16 @@ decl_ref crefl_copy_node(crefl_link_state *state, decl_ref d, decl_ref p,
         return r;
     }
 
-    if (node->_attr) {
-        next = crefl_lookup(d.db, node->_attr);
+    /* follow `attr` to the list of attributes */
+    next = crefl_decl_attr(d);
+    while (crefl_decl_idx(next)) {
         c = crefl_copy_node(state, next, d);
-        crefl_decl_ptr(r)->_attr = crefl_decl_idx(c);
+        if (crefl_decl_idx(last)) crefl_decl_ptr(last)->_next = crefl_decl_idx(c);
+        else crefl_decl_ptr(r)->_attr = crefl_decl_idx(c);
+        last = c;
+        next = crefl_decl_next(next);
     }
+    last = decl_ref { db, 0 };
     if (node->_link) {
         switch (crefl_decl_tag(d)) {
         /*
-- 
2.43.0


From de8c9b55d2b45f821022215fb9c63f2748ee53ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:03 +0000
Subject: [PATCH 42/75] fix: merged type references lead to the declaration,
 not to an alias

---
 src/link.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/link.cc b/src/link.cc
index 34d24ce..d136c6c 100644
--- a/src/link.cc
+++ b/src/link.cc
@@ -382,7 +382,6 @@ decl_ref crefl_copy_node(crefl_link_state *state, decl_ref d, decl_ref p,
         r = crefl_decl_new(db, _decl_alias);
         crefl_decl_ptr(r)->_name = crefl_name_new(db, crefl_decl_name(d));
         crefl_decl_ptr(r)->_link = crefl_decl_idx(a);
-        (*state->map)[*hash] = r;
         return r;
     }
 
-- 
2.43.0


From 8e28200a8c13d7ce8e59b425618faf429bbe8886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:03 +0000
Subject: [PATCH 43/75] fix: dump of an alias keeps a pointer into a table that
 moves

---
 src/dump.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dump.cc b/src/dump.cc
index 9c0e112..1da3f8f 100644
--- a/src/dump.cc
+++ b/src/dump.cc
@@ -218,7 +218,7 @@ crefl_db_row crefl_db_get_row(decl_db *db, decl_ref r)
 {
     decl_id tag = crefl_decl_tag(r);
     decl_entry_ref er = crefl_entry_ref(ld, r);
-    decl_entry *ent = crefl_entry_ptr(er);
+    decl_hash hash = crefl_entry_ptr(er)->hash;
     decl_node *d = crefl_decl_ptr(r);
 
     std::string fqn;
@@ -257,7 +257,7 @@ crefl_db_row crefl_db_get_row(decl_db *db, decl_ref r)
     return crefl_db_row {
         crefl_decl_idx(r), d->_attr, d->_next, d->_link, crefl_tag_name(tag),
         crefl_decl_has_name(r) ? crefl_decl_name(r) : "(anonymous)", props,
-        _link(r), _hex_str(ent->hash.sum, sizeof(ent->hash.sum)), fqn
+        _link(r), _hex_str(hash.sum, sizeof(hash.sum)), fqn
     };
 }
 
-- 
2.43.0


From 8de7540e4a847be5f4602553c9e17494741e24ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:03 +0000
Subject: [PATCH 44/75] fix: a single row can be dumped without an index of the
 whole database

---
 src/dump.cc | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/dump.cc b/src/dump.cc
index 1da3f8f..989521d 100644
--- a/src/dump.cc
+++ b/src/dump.cc
@@ -290,7 +290,23 @@ static void _row(const crefl_field ** fields, decl_db *db, decl_ref r)
 
 void crefl_db_header_names() { _header_names(fields); }
 void crefl_db_header_lines() { _header_lines(fields); }
-void crefl_db_dump_row(decl_db *db, decl_ref r) { _row(fields, db, r); }
+
+void crefl_db_dump_row(decl_db *db, decl_ref r)
+{
+    /* index the database if the row is not part of a dump */
+    decl_index *row_ld = ld ? nullptr : crefl_index_new();
+    if (row_ld) {
+        ld = row_ld;
+        crefl_index_scan(ld, db);
+    }
+
+    _row(fields, db, r);
+
+    if (row_ld) {
+        ld = nullptr;
+        crefl_index_destroy(row_ld);
+    }
+}
 
 void crefl_db_dump(decl_db *db)
 {
@@ -305,6 +321,7 @@ void crefl_db_dump(decl_db *db)
     crefl_db_header_lines();
 
     crefl_index_destroy(ld);
+    ld = nullptr;
 }
 
 void crefl_db_set_dump_fmt(enum crefl_db_dump_fmt fmt)
-- 
2.43.0


From 2acc92f9e42cfd5651ea7eef476c72b3e48c04c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:02 +0000
Subject: [PATCH 45/75] fix: crefltool fails when it cannot read its input or
 write its output

---
 tool/crefltool.cc | 39 ++++++++++++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/tool/crefltool.cc b/tool/crefltool.cc
index 9eef574..1db9420 100644
--- a/tool/crefltool.cc
+++ b/tool/crefltool.cc
@@ -27,19 +27,38 @@
 
 #define array_size(arr) ((sizeof(arr)/sizeof(arr[0])))
 
+static void read_db(decl_db *db, const char *input)
+{
+    if (crefl_db_read_file(db, input) != 0) {
+        fprintf(stderr, "error: reading db: %s\n", input);
+        exit(1);
+    }
+}
+
+static void flush_output()
+{
+    if (fflush(stdout) != 0 || ferror(stdout)) {
+        fprintf(stderr, "error: writing output\n");
+        exit(1);
+    }
+}
+
 void do_merge(const char *output, const char **input, size_t n)
 {
     decl_db *db_out = crefl_db_new();
     decl_db **db_in = (decl_db**)malloc(sizeof(decl_db*) * n);
     for (size_t i = 0; i < n; i++) {
         db_in[i] = crefl_db_new();
-        crefl_db_read_file(db_in[i], input[i]);
+        read_db(db_in[i], input[i]);
     }
     if (crefl_link_merge(db_out, output, db_in, n) < 0) {
         fprintf(stderr, "error: merging input files\n");
         exit(1);
     }
-    crefl_db_write_file(db_out, output);
+    if (crefl_db_write_file(db_out, output) != 0) {
+        fprintf(stderr, "error: writing db: %s\n", output);
+        exit(1);
+    }
     for (size_t i = 0; i < n; i++) {
         crefl_db_destroy(db_in[i]);
     }
@@ -55,7 +74,7 @@ void do_emit(const char *output, const char *input, const char *name)
     const size_t w = 16;
 
     db = crefl_db_new();
-    crefl_db_read_file(db, input);
+    read_db(db, input);
     sz = crefl_db_size(db);
     buf = (uint8_t*)malloc(sz);
     if (crefl_db_write_mem(db, buf, sz) < 0 || !(f = fopen(output, "wb"))) {
@@ -73,8 +92,12 @@ void do_emit(const char *output, const char *input, const char *name)
     fprintf(f, "};\n");
     fprintf(f, "const size_t __crefl_%s_size = sizeof(__crefl_%s_data);\n",
         name, name);
-    fflush(f);
-    fclose(f);
+    bool err = fflush(f) != 0 || ferror(f);
+    if (fclose(f) != 0 || err) {
+        free(buf);
+        fprintf(stderr, "error: writing output: %s\n", output);
+        exit(1);
+    }
     free(buf);
     crefl_db_destroy(db);
 }
@@ -82,17 +105,19 @@ void do_emit(const char *output, const char *input, const char *name)
 void do_dump(crefl_db_dump_fmt fmt, const char *input)
 {
     decl_db *db = crefl_db_new();
-    crefl_db_read_file(db, input);
+    read_db(db, input);
     crefl_db_set_dump_fmt(fmt);
     crefl_db_dump(db);
+    flush_output();
     crefl_db_destroy(db);
 }
 
 void do_stats(const char *input)
 {
     decl_db *db = crefl_db_new();
-    crefl_db_read_file(db, input);
+    read_db(db, input);
     crefl_db_dump_stats(db);
+    flush_output();
     crefl_db_destroy(db);
 }
 
-- 
2.43.0


From 3374ace9793185dcbc9586cd064f18daa8593f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:58 +0000
Subject: [PATCH 46/75] fix: asn1tool follows nesting and stays inside the file

---
 tool/asn1tool.cc | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/tool/asn1tool.cc b/tool/asn1tool.cc
index 90f6b9b..b050ee6 100644
--- a/tool/asn1tool.cc
+++ b/tool/asn1tool.cc
@@ -46,6 +46,8 @@ static std::string hex_str(const uint8_t *data, size_t sz)
 
 extern const char* asn1_tag_names[];
 
+static const int max_depth = 128;
+
 static int read_asn1(crefl_buf *buf, size_t offset, size_t limit, int depth)
 {
     asn1_hdr hdr;
@@ -57,9 +59,14 @@ static int read_asn1(crefl_buf *buf, size_t offset, size_t limit, int depth)
     if (crefl_asn1_ber_ident_read(buf, &hdr._id) < 0) goto err;
     if (crefl_asn1_ber_length_read(buf, &hdr._length) < 0) goto err;
 
+    /* the contents must lie inside the enclosing element or file */
+    current = crefl_buf_offset(buf);
+    if (current > limit || hdr._length > limit - current) goto err;
+    limit = current + hdr._length;
+
     indent = std::string(depth, ' ');
     indent += indent;
-    undent = std::string(15-depth, ' ');
+    undent = std::string(depth < 15 ? 15-depth : 0, ' ');
     undent += undent;
 
     printf("[%5zu;%-5llu]%s|-%c%-20s",
@@ -71,12 +78,11 @@ static int read_asn1(crefl_buf *buf, size_t offset, size_t limit, int depth)
     case asn1_tag_set:
     case asn1_tag_sequence:
         printf("\n");
-        do {
-            current = crefl_buf_offset(buf);
-            int ret = read_asn1(buf, current, current + hdr._length, depth+1);
+        if (depth == max_depth) goto err;
+        while ((offset = crefl_buf_offset(buf)) < limit) {
+            int ret = read_asn1(buf, offset, limit, depth+1);
             if (ret < 0) return ret;
-            offset = crefl_buf_offset(buf);
-        } while (offset < limit);
+        }
         break;
     case asn1_tag_object_identifier:
         current = crefl_buf_offset(buf);
@@ -119,9 +125,13 @@ static void dump_asn1(const char *filename)
     if (crefl_read_file(v, filename) != 0) return;
     crefl_buf *buf = crefl_buf_new(v.size());
     memcpy(buf->data, v.data(), v.size());
-    if (read_asn1(buf, 0, v.size(), 0) < 0) {
-        fprintf(stderr, "error: recurse_asn1 returned an error\n");
-    }
+    do {
+        if (read_asn1(buf, crefl_buf_offset(buf), v.size(), 0) < 0) {
+            fprintf(stderr, "error: recurse_asn1 returned an error\n");
+            break;
+        }
+    } while (crefl_buf_offset(buf) < v.size());
+    crefl_buf_destroy(buf);
 }
 
 int main(int argc, const char **argv)
-- 
2.43.0


From 58d0fef661352d162122d25cdbddd0396ad9c90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:58 +0000
Subject: [PATCH 47/75] fix: asn1tool exits with an error status for files it
 cannot read

---
 tool/asn1tool.cc | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/tool/asn1tool.cc b/tool/asn1tool.cc
index b050ee6..8e49674 100644
--- a/tool/asn1tool.cc
+++ b/tool/asn1tool.cc
@@ -119,19 +119,27 @@ err:
     return -1;
 }
 
-static void dump_asn1(const char *filename)
+static int dump_asn1(const char *filename)
 {
+    int ret = 0;
     std::vector<uint8_t> v;
-    if (crefl_read_file(v, filename) != 0) return;
+    if (crefl_read_file(v, filename) != 0) return -1;
     crefl_buf *buf = crefl_buf_new(v.size());
     memcpy(buf->data, v.data(), v.size());
     do {
         if (read_asn1(buf, crefl_buf_offset(buf), v.size(), 0) < 0) {
             fprintf(stderr, "error: recurse_asn1 returned an error\n");
+            ret = -1;
             break;
         }
     } while (crefl_buf_offset(buf) < v.size());
     crefl_buf_destroy(buf);
+
+    if (fflush(stdout) != 0 || ferror(stdout)) {
+        fprintf(stderr, "error: writing output\n");
+        ret = -1;
+    }
+    return ret;
 }
 
 int main(int argc, const char **argv)
@@ -141,8 +149,7 @@ int main(int argc, const char **argv)
     if (strcmp(argv[1], "--dump") == 0);
     else goto help_exit;
 
-    dump_asn1(argv[2]);
-    exit(0);
+    exit(dump_asn1(argv[2]) < 0 ? 1 : 0);
 
 help_exit:
     fprintf(stderr, "usage: %s [--dump] <filename.refl>\n", argv[0]);
-- 
2.43.0


From b7cf9a8d8bed1220b0461422543663b3c4e95985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:58 +0000
Subject: [PATCH 48/75] fix: asn1tool prints whole object identifiers and
 rejects bad ones

---
 tool/asn1tool.cc | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/tool/asn1tool.cc b/tool/asn1tool.cc
index 8e49674..6375023 100644
--- a/tool/asn1tool.cc
+++ b/tool/asn1tool.cc
@@ -10,26 +10,25 @@
 #include <crefl/asn1.h>
 #include <crefl/oid.h>
 
-static std::string oid_str(const char *data, size_t sz)
+static int oid_str(const char *data, size_t sz, std::string &s)
 {
-    std::string s;
-    size_t count, len;
+    size_t len;
     asn1_oid obj = { 0 };
 
     crefl_buf *buf = crefl_buf_new(sz);
     memcpy(buf->data, data, sz);
 
-    crefl_asn1_ber_oid_read(buf, sz, &obj);
+    int ret = crefl_asn1_ber_oid_read(buf, sz, &obj);
 
     len = 0;
     crefl_asn1_oid_to_string(NULL, &len, &obj);
-    s.resize(len+1);
+    s.resize(++len); /* room for the terminator */
     crefl_asn1_oid_to_string(s.data(), &len,  &obj);
     s.resize(len);
 
     crefl_buf_destroy(buf);
 
-    return s;
+    return ret;
 }
 
 static std::string hex_str(const uint8_t *data, size_t sz)
@@ -86,7 +85,7 @@ static int read_asn1(crefl_buf *buf, size_t offset, size_t limit, int depth)
         break;
     case asn1_tag_object_identifier:
         current = crefl_buf_offset(buf);
-        oid = oid_str(buf->data + current, hdr._length);
+        if (oid_str(buf->data + current, hdr._length, oid) < 0) goto err;
         desc = crefl_asn1_oid_desc(buf->data + current, hdr._length);
         printf("%s%s (%s)\n", undent.c_str(), desc.c_str(), oid.c_str());
         crefl_buf_seek(buf, current + hdr._length);
-- 
2.43.0


From bf6f21fe23ccf9247fc55a11ad7ffdc06eab8789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:58 +0000
Subject: [PATCH 49/75] fix: asn1tool tells universal tags from other classes

---
 tool/asn1tool.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/tool/asn1tool.cc b/tool/asn1tool.cc
index 6375023..594c67e 100644
--- a/tool/asn1tool.cc
+++ b/tool/asn1tool.cc
@@ -45,6 +45,14 @@ static std::string hex_str(const uint8_t *data, size_t sz)
 
 extern const char* asn1_tag_names[];
 
+static std::string tag_name(asn1_id id)
+{
+    static const char* class_names[] = { 0, "application", "context", "private" };
+
+    if (id._class == asn1_class_universal) return asn1_tag_name(id._identifier);
+    return string_printf("%s[%llu]", class_names[id._class & 3], id._identifier);
+}
+
 static const int max_depth = 128;
 
 static int read_asn1(crefl_buf *buf, size_t offset, size_t limit, int depth)
@@ -71,12 +79,14 @@ static int read_asn1(crefl_buf *buf, size_t offset, size_t limit, int depth)
     printf("[%5zu;%-5llu]%s|-%c%-20s",
         crefl_buf_offset(buf), hdr._length,
         indent.c_str(), hdr._id._constructed ? '*' : ' ',
-        asn1_tag_name(hdr._id._identifier));
+        tag_name(hdr._id).c_str());
 
-    switch(hdr._id._identifier) {
+    switch(hdr._id._class == asn1_class_universal ?
+        hdr._id._identifier : (u64)asn1_tag_reserved) {
     case asn1_tag_set:
     case asn1_tag_sequence:
         printf("\n");
+        if (!hdr._id._constructed) goto err;
         if (depth == max_depth) goto err;
         while ((offset = crefl_buf_offset(buf)) < limit) {
             int ret = read_asn1(buf, offset, limit, depth+1);
-- 
2.43.0


From e27479971511e6cb9c64ed159053573c0c98d257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:06 +0000
Subject: [PATCH 50/75] fix: declarations refer to the first of their
 attributes

---
 src/reflect.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reflect.cc b/src/reflect.cc
index 6dc47a5..1a81322 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -228,7 +228,7 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
                 std::string annotation = cast<AnnotateAttr>(*at).getAnnotation().str();
                 last = create_attribute_string(last, "annotate", annotation.c_str());
             }
-            if (crefl_decl_idx(last)) result = crefl_decl_idx(last);
+            if (!result) result = crefl_decl_idx(last);
         }
         return result;
     }
-- 
2.43.0


From c1201e4de5f2d773ac65bf18c7f096a8389d7ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:06 +0000
Subject: [PATCH 51/75] fix: plug-in crashes on declarations inside function
 bodies

---
 src/reflect.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/reflect.cc b/src/reflect.cc
index 1a81322..6c4f5bc 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -429,6 +429,12 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
         return props;
     }
 
+    bool TraverseCompoundStmt(CompoundStmt *s)
+    {
+        /* declarations local to function bodies are not reflected */
+        return true;
+    }
+
     bool VisitPragmaCommentDecl(PragmaCommentDecl *d)
     {
         /* PragmaCommentDecl -> Decl */
-- 
2.43.0


From 0bd6189dba3dbca1fc7f9e885eed6096355668d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:06 +0000
Subject: [PATCH 52/75] fix: qualifiers of types named by a typedef are
 recorded

---
 src/reflect.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/reflect.cc b/src/reflect.cc
index 6c4f5bc..0fefbdc 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -245,9 +245,11 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
         bool _is_union = q->isUnionType();
         bool _is_struct = q->isStructureOrClassType();
         bool _is_enum = q->isEnumeralType();
-        bool _is_const = (q.getLocalFastQualifiers() & Qualifiers::Const);
-        bool _is_restrict = (q.getLocalFastQualifiers() & Qualifiers::Restrict);
-        bool _is_volatile = (q.getLocalFastQualifiers() & Qualifiers::Volatile);
+        /* qualifiers of arrays belong to their elements */
+        Qualifiers cvr = _is_array ? Qualifiers() : q.getQualifiers();
+        bool _is_const = cvr.hasConst();
+        bool _is_restrict = cvr.hasRestrict();
+        bool _is_volatile = cvr.hasVolatile();
 
         if (!_is_array && q->isIncompleteType()) return tr;
 
-- 
2.43.0


From 68428054eb411b54e4f4c594328562984081f6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:06 +0000
Subject: [PATCH 53/75] fix: qualified void and references to incomplete types
 are recorded

---
 src/reflect.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/reflect.cc b/src/reflect.cc
index 0fefbdc..f5f3dc7 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -251,9 +251,9 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
         bool _is_restrict = cvr.hasRestrict();
         bool _is_volatile = cvr.hasVolatile();
 
-        if (!_is_array && q->isIncompleteType()) return tr;
-
-        TypeInfo t = context.getTypeInfo(q);
+        /* arrays and incomplete types do not need, or have, a width */
+        TypeInfo t;
+        if (!_is_array && !q->isIncompleteType()) t = context.getTypeInfo(q);
 
         if (_is_pointer) {
             const QualType pq = q->getPointeeType();
-- 
2.43.0


From 0a68eecb6a97d20ba85d8b00aefa4a985abaae25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:29 +0000
Subject: [PATCH 54/75] fix: references to types declared later are recorded

---
 src/reflect.cc | 52 +++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 43 insertions(+), 9 deletions(-)

diff --git a/src/reflect.cc b/src/reflect.cc
index f5f3dc7..561c733 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -93,6 +93,8 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
     decl_ref last;
     llvm::SmallVector<decl_ref,16> stack;
     llvm::SmallMapVector<int64_t,decl_id, 16> idmap;
+    static const decl_id later_base = 1u << 31;
+    std::vector<const TagDecl*> later;
     std::string inputFile;
     bool debug;
 
@@ -233,6 +235,37 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
         return result;
     }
 
+    /*
+     * references to types that are declared later are recorded with an
+     * indice past the end of the database and resolved after the traversal.
+     */
+    decl_ref get_tag_type(const TagDecl *d)
+    {
+        decl_id id = idmap[d->getID()];
+        if (id == 0) {
+            id = later_base + later.size();
+            later.push_back(d);
+        }
+        return decl_ref { db, id };
+    }
+
+    std::string type_name(decl_ref r)
+    {
+        decl_id id = crefl_decl_idx(r);
+        return id >= later_base ?
+            later[id - later_base]->getNameAsString() : crefl_decl_name(r);
+    }
+
+    void resolve_later_types()
+    {
+        for (size_t i = 0; i < db->decl_offset; i++) {
+            decl_node *d = crefl_decl_ptr(crefl_lookup(db, i));
+            if (d->_link >= later_base) {
+                d->_link = idmap[later[d->_link - later_base]->getID()];
+            }
+        }
+    }
+
     decl_ref get_intrinsic_type(const QualType q)
     {
         decl_ref tr = crefl_intrinsic(db, _decl_void, 0);
@@ -259,7 +292,7 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
             const QualType pq = q->getPointeeType();
             decl_ref ti = get_intrinsic_type(pq);
 
-            std::string name = string_printf("*%s", crefl_decl_name(ti));
+            std::string name = string_printf("*%s", type_name(ti).c_str());
 
             tr = crefl_decl_new(db, _decl_pointer);
             crefl_decl_ptr(tr)->_link = crefl_decl_idx(ti);
@@ -269,17 +302,17 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
         else if (_is_enum) {
             const EnumType *et = q->getAs<EnumType>();
             const EnumDecl *ed = et->getDecl();
-            tr = decl_ref { db, idmap[ed->getID()] };
+            tr = get_tag_type(ed);
         }
         else if (_is_struct) {
             const RecordType *rt = q->getAsStructureType();
             const RecordDecl *rd = rt->getDecl();
-            tr = decl_ref { db, idmap[rd->getID()] };
+            tr = get_tag_type(rd);
         }
         else if (_is_union) {
             const RecordType *rt = q->getAsUnionType();
             const RecordDecl *rd = rt->getDecl();
-            tr = decl_ref { db, idmap[rd->getID()] };
+            tr = get_tag_type(rd);
         }
         else if (_is_complex) {
             tr = crefl_intrinsic(db, _decl_cfloat, t.Width);
@@ -334,16 +367,16 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
 
             tr = crefl_decl_new(db, _decl_array);
             crefl_decl_ptr(tr)->_link = crefl_decl_idx(ti);
-            const char *decl_name = crefl_decl_name(ti);
+            std::string decl_name = type_name(ti);
             if (vat) {
-                name = string_printf("[*]%s", decl_name);
+                name = string_printf("[*]%s", decl_name.c_str());
                 crefl_decl_ptr(tr)->_props |= _decl_vla;
             } else if (cat) {
                 u64 _count = cat->getSize().getLimitedValue();
                 crefl_decl_ptr(tr)->_count = _count;
-                name = string_printf("[%llu]%s", _count, decl_name);
+                name = string_printf("[%llu]%s", _count, decl_name.c_str());
             } else {
-                name = string_printf("[]%s", decl_name);
+                name = string_printf("[]%s", decl_name.c_str());
             }
             crefl_decl_ptr(tr)->_name = crefl_name_new(db, name.c_str());
             crefl_decl_ptr(tr)->_props |= -(int)is_static & _decl_static;
@@ -373,7 +406,7 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
                 _is_const ? "const_" : "",
                 _is_volatile ? "volatile_" : "",
                 _is_restrict ? "restrict_" : "",
-                crefl_decl_name(ti));
+                type_name(ti).c_str());
             crefl_decl_ptr(tr)->_name = crefl_name_new(db, name.c_str());
             crefl_decl_ptr(tr)->_link = crefl_decl_idx(ti);
             crefl_decl_ptr(tr)->_props |= cvr_props;
@@ -736,6 +769,7 @@ void ReflectAction::EndSourceFileAction()
     }
 
     v.TraverseDecl(context.getTranslationUnitDecl());
+    v.resolve_later_types();
     if (dump) {
         crefl_db_dump(db);
     }
-- 
2.43.0


From d44c095080980f5b19f9650e5987deb084eb955f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:29 +0000
Subject: [PATCH 55/75] fix: unnamed structure and union members are recorded
 as fields

---
 src/reflect.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/reflect.cc b/src/reflect.cc
index 561c733..4751cc1 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -464,6 +464,14 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
         return props;
     }
 
+    bool TraverseDecl(Decl *d)
+    {
+        /* unnamed structure and union members have an implicit field */
+        FieldDecl *f = dyn_cast_or_null<FieldDecl>(d);
+        if (f && f->isAnonymousStructOrUnion()) return VisitFieldDecl(f);
+        return RecursiveASTVisitor<ReflectVisitor>::TraverseDecl(d);
+    }
+
     bool TraverseCompoundStmt(CompoundStmt *s)
     {
         /* declarations local to function bodies are not reflected */
-- 
2.43.0


From 52b67c85ec11160b9a85b13149ff766672646246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:23 +0000
Subject: [PATCH 56/75] fix: plug-in fails when it cannot write its output

---
 src/reflect.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/reflect.cc b/src/reflect.cc
index 4751cc1..80532bc 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -782,7 +782,10 @@ void ReflectAction::EndSourceFileAction()
         crefl_db_dump(db);
     }
     if (outputFile.size()) {
-        crefl_db_write_file(db, outputFile.c_str());
+        if (crefl_db_write_file(db, outputFile.c_str()) != 0) {
+            fprintf(stderr, "error: writing db: %s\n", outputFile.c_str());
+            exit(1);
+        }
     }
     crefl_db_destroy(db);
 
-- 
2.43.0


From f01eee21b3cbcf9f81b286ce666232edc4e2a993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:44 +0000
Subject: [PATCH 57/75] fix: qualified names come from the declaring container,
 not the first reference

---
 src/link.cc | 40 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/src/link.cc b/src/link.cc
index d136c6c..2157227 100644
--- a/src/link.cc
+++ b/src/link.cc
@@ -224,7 +224,9 @@ decl_hash * crefl_node_hash(decl_index *index, decl_ref d, decl_ref p, std::stri
     decl_entry_ref er = crefl_entry_ref(index, d);
     decl_entry *ent = crefl_entry_ptr(er);
 
-    prefix = crefl_node_name(d, p, prefix);
+    /* declarations keep the name of the place where they are declared */
+    prefix = ent->fqn ? std::string(crefl_entry_fqn(er)) :
+        crefl_node_name(d, p, prefix);
 
     if ((ent->props & decl_entry_valid) != decl_entry_valid) {
         decl_sum sum;
@@ -233,7 +235,9 @@ decl_hash * crefl_node_hash(decl_index *index, decl_ref d, decl_ref p, std::stri
         crefl_hash_node_sum(&sum, index, d, p, prefix);
         ent = crefl_entry_ptr(er); /* revalidate due to realloc */
         crefl_hash_final(&sum, &ent->hash);
-        ent->fqn = crefl_entry_name_new(index, prefix.c_str());
+        if (!ent->fqn) {
+            ent->fqn = crefl_entry_name_new(index, prefix.c_str());
+        }
         ent->props |= decl_entry_valid;
     }
 
@@ -303,9 +307,41 @@ const char* crefl_entry_fqn(decl_entry_ref d)
     return d.index->name + crefl_entry_ptr(d)->fqn;
 }
 
+/*
+ * name declarations after the containers they are declared in, so that names
+ * do not depend on which reference to a declaration is followed first.
+ */
+static void crefl_name_scan(decl_index *index, decl_ref d, decl_ref p,
+    std::string prefix)
+{
+    if (crefl_is_alias(d)) d = crefl_decl_link(d);
+
+    decl_entry_ref er = crefl_entry_ref(index, d);
+    if (crefl_entry_ptr(er)->fqn) return;
+
+    prefix = crefl_node_name(d, p, prefix);
+    crefl_entry_ptr(er)->fqn = crefl_entry_name_new(index, prefix.c_str());
+
+    switch (crefl_decl_tag(d)) {
+    case _decl_archive:
+    case _decl_source:
+    case _decl_set:
+    case _decl_enum:
+    case _decl_struct:
+    case _decl_union:
+    case _decl_function:
+        for (decl_ref c = crefl_decl_link(d); crefl_decl_idx(c);
+            c = crefl_decl_next(c)) {
+            crefl_name_scan(index, c, d, prefix);
+        }
+        break;
+    }
+}
+
 void crefl_index_scan(decl_index *index, decl_db *db)
 {
     decl_ref d = crefl_lookup(db, db->root_element);
+    crefl_name_scan(index, d, crefl_decl_void(d), "");
     crefl_node_hash(index, d, crefl_decl_void(d), "");
 }
 
-- 
2.43.0


From a6a68e39afac66763421b96114952a3d608e1ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:56 +0000
Subject: [PATCH 58/75] fix: empty structures and unions are aligned to whole
 bytes

---
 src/model.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/model.cc b/src/model.cc
index 00fcf5f..074ba3a 100644
--- a/src/model.cc
+++ b/src/model.cc
@@ -310,8 +310,11 @@ static _alignment _array_pad(decl_ref d)
  * - bit-fields are packed and do not straddle units of their declared type
  * - zero width bit-fields advance to the next unit of their declared type
  * - unnamed bit-fields do not contribute to alignment
+ * - structures and unions, also empty ones, are aligned to whole bytes
  */
 
+static const size_t _record_align = 3;
+
 struct _layout { size_t offset, align; };
 
 static size_t _layout_field(_layout &l, decl_ref d)
@@ -341,7 +344,7 @@ static size_t _layout_field(_layout &l, decl_ref d)
 
 static _alignment _struct_pad(decl_ref d)
 {
-    _layout l = { 0 };
+    _layout l = { 0, _record_align };
 
     if (!crefl_is_struct(d)) return _alignment { 0 };
 
@@ -356,7 +359,7 @@ static _alignment _struct_pad(decl_ref d)
 
 static _alignment _union_pad(decl_ref d)
 {
-    _alignment max = { 0 };
+    _alignment max = { _record_align };
 
     if (!crefl_is_union(d)) return _alignment { 0 };
 
@@ -395,7 +398,7 @@ static _alignment _type_pad(decl_ref d)
 int crefl_struct_fields_offsets(decl_ref d, decl_ref *r, size_t *o, size_t *s)
 {
     size_t count = 0, limit = s ? *s : 0;
-    _layout l = { 0 };
+    _layout l = { 0, _record_align };
 
     if (!crefl_is_struct(d)) return -1;
 
-- 
2.43.0


From c6c9138ca98da140a7d1ab82489e5b61d7e02e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:49 +0000
Subject: [PATCH 59/75] fix: an enum declared before its definition does not
 crash the plugin

---
 src/reflect.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/reflect.cc b/src/reflect.cc
index 80532bc..77d1046 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -547,13 +547,14 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
             d->getNumNegativeBits(),
             d->getNumPositiveBits());
 
+        /* an enum declared before its definition has no integer type yet */
         const QualType q = d->getIntegerType();
-        TypeInfo t = context.getTypeInfo(q);
 
         /* create enum */
         decl_ref r = create_named_node(d, _decl_enum);
         crefl_decl_ptr(r)->_attr = create_attributes(d, r);
-        crefl_decl_ptr(r)->_width = t.Width;
+        crefl_decl_ptr(r)->_width = q.isNull() ? 0 :
+            context.getTypeInfo(q).Width;
 
         stack.push_back(r);
         last = decl_ref { db, 0 };
-- 
2.43.0


From a4b655fd26b82cd27b40305e25f2dbbc00556cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:07 +0000
Subject: [PATCH 60/75] fix: OID registry table is filled without a data race

---
 src/oid.cc | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/oid.cc b/src/oid.cc
index 360e142..cad6a40 100644
--- a/src/oid.cc
+++ b/src/oid.cc
@@ -1089,17 +1089,15 @@ static const struct asn1_oid_record {
 
 const char* crefl_asn1_oid_desc(const char *oid, size_t len)
 {
-	static std::map<std::string,std::string> map;
+	/* the initializer of a static local runs once, also with threads */
 
-	/* this initializer is not thread-safe */
-
-	if (map.size() == 0) {
-		auto o = oid_map;
-		while (o->name) {
-			map[std::string((const char*)o->oid,o->len)] = o->name;
-			o++;
+	static const std::map<std::string,std::string> map = [] {
+		std::map<std::string,std::string> m;
+		for (auto o = oid_map; o->name; o++) {
+			m[std::string((const char*)o->oid,o->len)] = o->name;
 		}
-	}
+		return m;
+	}();
 
 	auto it = map.find(std::string(oid,len));
 	if (it != map.end()) return it->second.c_str();
-- 
2.43.0


From 9c4e17c6601f28023a0136ac23ed39125de902d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:38 +0000
Subject: [PATCH 61/75] fix: plug-in loses types declared in parameter lists
 and the compiler's own va_list

---
 src/reflect.cc | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/reflect.cc b/src/reflect.cc
index 77d1046..c2dafa3 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -256,6 +256,27 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
             later[id - later_base]->getNameAsString() : crefl_decl_name(r);
     }
 
+    /*
+     * declarations in parameter lists and those of the compiler itself are
+     * not found by the traversal, so types that are used are created here.
+     */
+    void create_unseen_types()
+    {
+        for (size_t i = 0; i < later.size(); i++) {
+            TagDecl *d = const_cast<TagDecl*>(later[i]);
+            if (idmap[d->getID()] != 0) continue;
+            stack.clear();
+            last = decl_ref { db, 0 };
+            if (EnumDecl *ed = dyn_cast<EnumDecl>(d)) {
+                TraverseEnumDecl(ed);
+            } else if (CXXRecordDecl *cd = dyn_cast<CXXRecordDecl>(d)) {
+                TraverseCXXRecordDecl(cd);
+            } else {
+                TraverseRecordDecl(cast<RecordDecl>(d));
+            }
+        }
+    }
+
     void resolve_later_types()
     {
         for (size_t i = 0; i < db->decl_offset; i++) {
@@ -427,9 +448,9 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
 
         /* find parent id */
         const auto& parents = context.getParents(*d);
-        decl_ref p = {
-            db, parents.size() > 0 ? idmap[parents[0].get<Decl>()->getID()] : 0
-        };
+        const Decl *pd = parents.size() > 0 ? parents[0].get<Decl>() :
+            dyn_cast<TagDecl>(d->getDeclContext());
+        decl_ref p = { db, pd ? idmap[pd->getID()] : 0 };
 
         /* pop until parent matches */
         while (stack.size() > 0 && stack.back().decl_idx != p.decl_idx) {
@@ -569,7 +590,7 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
         if (d->isInvalidDecl()) return true;
         if (debug) print_decl(d);
 
-        const EnumDecl *ed = context.getParents(*d)[0].get<EnumDecl>();
+        const EnumDecl *ed = cast<EnumDecl>(d->getDeclContext());
         const QualType q = const_cast<EnumDecl*>(ed)->getIntegerType();
 
         uint64_t value = d->getInitVal().extOrTrunc(64).getZExtValue();
@@ -778,6 +799,7 @@ void ReflectAction::EndSourceFileAction()
     }
 
     v.TraverseDecl(context.getTranslationUnitDecl());
+    v.create_unseen_types();
     v.resolve_later_types();
     if (dump) {
         crefl_db_dump(db);
-- 
2.43.0


From c3fa8397dcdbccecce963cd5d418d92c517feddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:38 +0000
Subject: [PATCH 62/75] fix: plug-in gives atomic types another signedness and
 kind

---
 src/reflect.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/reflect.cc b/src/reflect.cc
index c2dafa3..a9aa0f4 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -289,6 +289,12 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
 
     decl_ref get_intrinsic_type(const QualType q)
     {
+        /* atomic types are described by the type of their value */
+        if (const AtomicType *at = q->getAs<AtomicType>()) {
+            return get_intrinsic_type(context.getQualifiedType(
+                at->getValueType(), q.getQualifiers()));
+        }
+
         decl_ref tr = crefl_intrinsic(db, _decl_void, 0);
 
         bool _is_scalar = q->isScalarType();
-- 
2.43.0


From 6ea6a04af0d667944bea12ed4cdb885ac70dd6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:38 +0000
Subject: [PATCH 63/75] fix: plug-in crashes on a variable whose type is
 deduced

---
 src/reflect.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reflect.cc b/src/reflect.cc
index a9aa0f4..42b4571 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -747,7 +747,8 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
 
         /* create field */
         decl_ref r = create_named_node(d, _decl_field);
-        const QualType q = d->getTypeSourceInfo()->getType();
+        QualType q = d->getTypeSourceInfo()->getType();
+        if (q->getContainedDeducedType()) q = d->getType();
         bool is_static = d->getStorageDuration() == StorageDuration::SD_Static;
         crefl_decl_ptr(r)->_link = crefl_decl_idx(get_intrinsic_type(q));
         crefl_decl_ptr(r)->_props |=
-- 
2.43.0


From 22b881a026d18208deaa8de0c6c4e9c8d567fec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:42 +0000
Subject: [PATCH 64/75] fix: plug-in exits with failure when its arguments are
 wrong

---
 src/reflect.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/reflect.cc b/src/reflect.cc
index 42b4571..773b4f7 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -770,7 +770,7 @@ bool ReflectAction::ParseArgs(const CompilerInstance &ci,
         if (argv[i] == "-o") {
             if (++i == argc) {
                 fprintf(stderr, "error: -o requires parameter\n");
-                exit(0);
+                exit(1);
             }
             outputFile = argv[i++];
         } else if (argv[i] == "-debug") {
@@ -779,12 +779,12 @@ bool ReflectAction::ParseArgs(const CompilerInstance &ci,
             ++i; dump = true;
         } else {
             fprintf(stderr, "error: unknown option: %s\n", argv[i].c_str());
-            exit(0);
+            exit(1);
         }
     }
     if (!dump && !debug && !outputFile.size()) {
         fprintf(stderr, "error: missing args: -dump, -debug, -o <outputFile>\n");
-        exit(0);
+        exit(1);
     }
     return true;
 }
-- 
2.43.0


From b58a76def0da70e96953650064e73b7fd3e1330a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:05 +0000
Subject: [PATCH 65/75] fix: cmake macro passes all include directories as one
 argument

---
 cmake/crefl_macro.cmake | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cmake/crefl_macro.cmake b/cmake/crefl_macro.cmake
index 21df225..08ef1e3 100644
--- a/cmake/crefl_macro.cmake
+++ b/cmake/crefl_macro.cmake
@@ -11,7 +11,6 @@ macro(crefl_target_reflect target target_lib)
 	# transform includes for this target
     get_target_property(${target}_includes ${target} INCLUDE_DIRECTORIES)
     list(TRANSFORM ${target}_includes PREPEND "-I")
-    list(JOIN ${target}_includes " " ${target}_include_args)
 
     # add custom commands that reflect on sources for this target
     get_target_property(${target}_sources ${target} SOURCES)
@@ -21,7 +20,7 @@ macro(crefl_target_reflect target target_lib)
         add_custom_command(
             OUTPUT ${_source}.refl
             COMMAND ${CMAKE_CURRENT_SOURCE_DIR}/scripts/creflcc.py -p ${CMAKE_BINARY_DIR}
-                -o ${CMAKE_BINARY_DIR}/${_source}.refl ${${target}_include_args}
+                -o ${CMAKE_BINARY_DIR}/${_source}.refl ${${target}_includes}
                    ${CMAKE_CURRENT_SOURCE_DIR}/${_source}
             DEPENDS ${_source} crefl VERBATIM)
 	endforeach()
-- 
2.43.0


From 5119e4a2ecd146a45a0865703bfefc6a1e7ea391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:05 +0000
Subject: [PATCH 66/75] fix: parse_oids.py splits a first component of several
 octets, and of 2.40 and more

---
 scripts/parse_oids.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scripts/parse_oids.py b/scripts/parse_oids.py
index 8104032..b4bf85e 100755
--- a/scripts/parse_oids.py
+++ b/scripts/parse_oids.py
@@ -13,16 +13,16 @@ def parse_oid(v):
     return list(map(lambda x: int(x, 16), h))
 
 def decode_oid(l):
-    c, i, r = 0, 0, []
+    c, r = 0, []
     for v in l:
         c = (c << 7) + (v & 0x7f)
         if v < 128:
-            if i == 0:
-                r += [ int(c/40), int(c%40) ]
+            if not r:
+                x = min(c // 40, 2)
+                r += [ x, c - x * 40 ]
             else:
                 r += [ c ]
             c = 0
-        i += 1
     return r
 
 def join_oid_str(l):
-- 
2.43.0


From aada3a5afba3335d88d55e3b58ce73e9a3f20158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:05 +0000
Subject: [PATCH 67/75] fix: plug-in does not end on structures with errors
 that refer to themselves

---
 src/reflect.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/reflect.cc b/src/reflect.cc
index 773b4f7..24a0a90 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -93,6 +93,7 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
     decl_ref last;
     llvm::SmallVector<decl_ref,16> stack;
     llvm::SmallMapVector<int64_t,decl_id, 16> idmap;
+    llvm::SmallMapVector<int64_t,decl_id, 16> laterid;
     static const decl_id later_base = 1u << 31;
     std::vector<const TagDecl*> later;
     std::string inputFile;
@@ -242,8 +243,12 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
     decl_ref get_tag_type(const TagDecl *d)
     {
         decl_id id = idmap[d->getID()];
+        if (id == 0) {
+            id = laterid[d->getID()];
+        }
         if (id == 0) {
             id = later_base + later.size();
+            laterid[d->getID()] = id;
             later.push_back(d);
         }
         return decl_ref { db, id };
@@ -264,7 +269,7 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
     {
         for (size_t i = 0; i < later.size(); i++) {
             TagDecl *d = const_cast<TagDecl*>(later[i]);
-            if (idmap[d->getID()] != 0) continue;
+            if (idmap[d->getID()] != 0 || d->isInvalidDecl()) continue;
             stack.clear();
             last = decl_ref { db, 0 };
             if (EnumDecl *ed = dyn_cast<EnumDecl>(d)) {
-- 
2.43.0


From 65f34e9f7fb5ff262f109b468952fe3d1d5e67a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:17 +0000
Subject: [PATCH 68/75] fix: plug-in crashes on C++ classes and templates

---
 src/reflect.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/reflect.cc b/src/reflect.cc
index 24a0a90..0efe184 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -337,7 +337,7 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
             tr = get_tag_type(ed);
         }
         else if (_is_struct) {
-            const RecordType *rt = q->getAsStructureType();
+            const RecordType *rt = q->getAs<RecordType>();
             const RecordDecl *rd = rt->getDecl();
             tr = get_tag_type(rd);
         }
@@ -498,6 +498,9 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
 
     bool TraverseDecl(Decl *d)
     {
+        /* templates do not have types until they are instantiated */
+        if (d && d->isTemplated()) return true;
+
         /* unnamed structure and union members have an implicit field */
         FieldDecl *f = dyn_cast_or_null<FieldDecl>(d);
         if (f && f->isAnonymousStructOrUnion()) return VisitFieldDecl(f);
@@ -636,14 +639,15 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
 
         switch (k) {
         case TagTypeKind::TTK_Enum:
-        case TagTypeKind::TTK_Class:
         case TagTypeKind::TTK_Interface:
             break;
 
+        case TagTypeKind::TTK_Class:
         case TagTypeKind::TTK_Struct:
         case TagTypeKind::TTK_Union:
 
             switch (k) {
+            case TagTypeKind::TTK_Class:
             case TagTypeKind::TTK_Struct: tag = _decl_struct; break;
             case TagTypeKind::TTK_Union:  tag = _decl_union;  break;
             default:                      tag = _decl_none;   break;
-- 
2.43.0


From 2bf79ae58a1de874211412aff6a12c7c69b9d64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:27 +0000
Subject: [PATCH 69/75] fix: ISO-6093-NR3.pl strict mode loses a fraction of
 zero

---
 scripts/ISO-6093-NR3.pl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/ISO-6093-NR3.pl b/scripts/ISO-6093-NR3.pl
index 8f7b93a..7a357bf 100755
--- a/scripts/ISO-6093-NR3.pl
+++ b/scripts/ISO-6093-NR3.pl
@@ -50,7 +50,7 @@ if ($ARGV[0] eq 'relaxed') {
     }
 }
 elsif ($ARGV[0] eq 'strict') {
-    if (my ($int, undef, undef, $frac, undef, $exp) =
+    if (my ($int, undef, $frac, undef, undef, $exp) =
             ($ARGV[1] =~ m{
                 ^
                    ( ([1-9][0-9]*) | 0 )               # integer
-- 
2.43.0


From 587c6986da8a83e63308148fd2d03fc0866f692c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:28 +0000
Subject: [PATCH 70/75] fix: ISO-6093-NR3.pl accepts a number followed by a new
 line

---
 scripts/ISO-6093-NR3.pl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/ISO-6093-NR3.pl b/scripts/ISO-6093-NR3.pl
index 7a357bf..7aa6c54 100755
--- a/scripts/ISO-6093-NR3.pl
+++ b/scripts/ISO-6093-NR3.pl
@@ -43,7 +43,7 @@ if ($ARGV[0] eq 'relaxed') {
                    ( [0-9]* )                          # integer
                 \. ( [0-9]* )                          # fraction
                 ([eE] ( [-+]? [0-9]+ ) )?              # exponent
-                $
+                \z
             }x
         )) {
         printf ("{ integer:$int fraction:$frac exponent:$exp }\n");
@@ -56,7 +56,7 @@ elsif ($ARGV[0] eq 'strict') {
                    ( ([1-9][0-9]*) | 0 )               # integer
                 \. ( ([0-9]*[1-9]) | 0 )               # fraction
                 ([eE] ( -? ( ([1-9][0-9]*) | 0 ) ) )?  # exponent
-                $
+                \z
             }x
         )) {
         printf ("{ integer:$int fraction:$frac exponent:$exp }\n");
-- 
2.43.0


From 87f2017e1efba12427144a17a792d8461450b3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:26 +0000
Subject: [PATCH 71/75] fix: plug-in mixes the list of a C++ class with friend
 functions into that of the source

---
 src/reflect.cc | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/reflect.cc b/src/reflect.cc
index 0efe184..a301d2a 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -96,6 +96,7 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
     llvm::SmallMapVector<int64_t,decl_id, 16> laterid;
     static const decl_id later_base = 1u << 31;
     std::vector<const TagDecl*> later;
+    std::vector<Decl*> friends;
     std::string inputFile;
     bool debug;
 
@@ -504,7 +505,21 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
         /* unnamed structure and union members have an implicit field */
         FieldDecl *f = dyn_cast_or_null<FieldDecl>(d);
         if (f && f->isAnonymousStructOrUnion()) return VisitFieldDecl(f);
-        return RecursiveASTVisitor<ReflectVisitor>::TraverseDecl(d);
+
+        /* friends are not members so they follow the outermost class */
+        if (d && isa<FriendDecl>(d)) {
+            friends.push_back(d);
+            return true;
+        }
+        bool ret = RecursiveASTVisitor<ReflectVisitor>::TraverseDecl(d);
+        if (d && isa<TagDecl>(d) && !d->getLexicalDeclContext()->isRecord()) {
+            std::vector<Decl*> list;
+            list.swap(friends);
+            for (Decl *fd : list) {
+                RecursiveASTVisitor<ReflectVisitor>::TraverseDecl(fd);
+            }
+        }
+        return ret;
     }
 
     bool TraverseCompoundStmt(CompoundStmt *s)
-- 
2.43.0


From f35c793bb7a84c87af18bf5ec3fe17fbc0fe414f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:50 +0000
Subject: [PATCH 72/75] fix: C11 bit helpers take long arguments

clz, ctz and popcnt had no selection for long and unsigned long in C, so
a uint64_t could not be passed where it is an unsigned long; the C++
templates accept both.
---
 include/crefl/bits.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/crefl/bits.h b/include/crefl/bits.h
index a4cf58d..406349c 100644
--- a/include/crefl/bits.h
+++ b/include/crefl/bits.h
@@ -151,14 +151,22 @@ static inline unsigned ctz_u64(__bits_u64 v)
  * C11 generics mapping for clz, ctz and popcnt
  */
 #if __STDC_VERSION__ >= 201112L
+#if defined (_MSC_VER)
+#define __bits_long(F) F ## _u32
+#else
+#define __bits_long(F) F ## _u64
+#endif
 #define clz(X) _Generic((X), \
 	unsigned int: clz_u32, signed int: clz_u32, \
+	unsigned long: __bits_long(clz), signed long: __bits_long(clz), \
 	unsigned long long: clz_u64, signed long long: clz_u64)(X)
 #define ctz(X) _Generic((X), \
 	unsigned int: ctz_u32, signed int: ctz_u32, \
+	unsigned long: __bits_long(ctz), signed long: __bits_long(ctz), \
 	unsigned long long: ctz_u64, signed long long: ctz_u64)(X)
 #define popcnt(X) _Generic((X), \
 	unsigned int: popcnt_u32, signed int: popcnt_u32, \
+	unsigned long: __bits_long(popcnt), signed long: __bits_long(popcnt), \
 	unsigned long long: popcnt_u64, signed long long: popcnt_u64)(X)
 #endif
 
-- 
2.43.0


From cc9bf63ae77726d6b669f3f18c8092f5b9dea5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:14 +0000
Subject: [PATCH 73/75] fix: names copied from the table itself survive its
 growth

---
 src/link.cc  | 3 +++
 src/model.cc | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/link.cc b/src/link.cc
index 2157227..a767919 100644
--- a/src/link.cc
+++ b/src/link.cc
@@ -285,11 +285,14 @@ decl_id crefl_entry_name_new(decl_index *index, const char *name)
 {
     size_t len = strlen(name) + 1;
     if (len == 1) return 0;
+    /* the name may be one from the table, which moves */
+    size_t own = (size_t)name - (size_t)index->name;
     if (index->name_offset + len > index->name_size) {
         while (index->name_offset + len > index->name_size) {
             index->name_size <<= 1;
         }
         index->name = (char*)realloc(index->name, index->name_size);
+        if (own < index->name_offset) name = index->name + own;
     }
     size_t name_offset = index->name_offset;
     index->name_offset += len;
diff --git a/src/model.cc b/src/model.cc
index 074ba3a..9a30ca2 100644
--- a/src/model.cc
+++ b/src/model.cc
@@ -174,11 +174,14 @@ decl_id crefl_name_new(decl_db *db, const char *name)
 {
     size_t len = strlen(name) + 1;
     if (len == 1) return 0;
+    /* the name may be one from the table, which moves */
+    size_t own = (size_t)name - (size_t)db->name;
     if (db->name_offset + len > db->name_size) {
         while (db->name_offset + len > db->name_size) {
             db->name_size <<= 1;
         }
         db->name = (char*)realloc(db->name, db->name_size);
+        if (own < db->name_offset) name = db->name + own;
     }
     size_t name_offset = db->name_offset;
     db->name_offset += len;
-- 
2.43.0


From d2ef9e852006901df9a2742ab682a74bcdff1d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:14 +0000
Subject: [PATCH 74/75] fix: the sample printer prints large doubles and long
 pointer names whole

---
 samples/example3_printer/printer.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/samples/example3_printer/printer.c b/samples/example3_printer/printer.c
index b451933..0b22643 100644
--- a/samples/example3_printer/printer.c
+++ b/samples/example3_printer/printer.c
@@ -84,15 +84,13 @@ static void _print_array(decl_ref r, void *ptr, size_t offset, size_t depth)
 
 static void _print_pointer(decl_ref r, void *ptr, size_t offset, size_t depth)
 {
-    char buf[128];
-    snprintf(buf, sizeof(buf), "(%s) 0x%016llx", crefl_decl_name(r),
+    printf("(%s) 0x%016llx", crefl_decl_name(r),
         *(u64*)ptr_offset(ptr, offset));
-    printf("%s", buf);
 }
 
 static void _print_intrinsic(decl_ref r, void *ptr, size_t offset, size_t depth)
 {
-    char buf[128];
+    char buf[512];
     _type_fmt fmt = _find_intrinsic_format(r);
     fmt.fn(buf, sizeof(buf), ptr_offset(ptr, offset));
     printf("%s", buf);
-- 
2.43.0


From 45b8e4d83c614c1f5a2b3fa90de1c5d93801b8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:14 +0000
Subject: [PATCH 75/75] fix: the sample printer finds structs of every source,
 and does not abort with its own two

---
 samples/example3_printer/printer.c | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/samples/example3_printer/printer.c b/samples/example3_printer/printer.c
index 0b22643..143ceff 100644
--- a/samples/example3_printer/printer.c
+++ b/samples/example3_printer/printer.c
@@ -167,30 +167,31 @@ decl_ref crefl_type_by_name(decl_db *db, const char *name)
 
     size_t nsources = 0;
     crefl_archive_sources(crefl_root(db), NULL, &nsources);
-    assert(nsources == 1);
     decl_ref *_sources = calloc(nsources, sizeof(decl_ref));
-    assert(_sources);
+    assert(_sources || !nsources);
     crefl_archive_sources(crefl_root(db), _sources, &nsources);
 
-    size_t ntypes = 0;
-    crefl_source_decls(_sources[0], NULL, &ntypes);
-    decl_ref *_types = calloc(ntypes, sizeof(decl_ref));
-    assert(_types);
-    crefl_source_decls(_sources[0], _types, &ntypes);
-
     /* fix me - currently we can only find struct */
-    if (strncmp(name, "struct ", 7) == 0) {
-        name +=7;
-        for (size_t i = 0; i < ntypes; i++) {
+    int found = strncmp(name, "struct ", 7) != 0;
+    if (!found) name += 7;
+
+    for (size_t j = 0; j < nsources && !found; j++) {
+        size_t ntypes = 0;
+        crefl_source_decls(_sources[j], NULL, &ntypes);
+        decl_ref *_types = calloc(ntypes, sizeof(decl_ref));
+        assert(_types || !ntypes);
+        crefl_source_decls(_sources[j], _types, &ntypes);
+
+        for (size_t i = 0; i < ntypes && !found; i++) {
             decl_ref r = _types[i];
             if (crefl_is_struct(r) && strcmp(crefl_decl_name(r), name) == 0) {
                 t = r;
-                break;
+                found = 1;
             }
         }
+        free(_types);
     }
 
-    free(_types);
     free(_sources);
 
     return t;
-- 
2.43.0

