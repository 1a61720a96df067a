From 13dd29ba9ae3fb19e9c03b962ad292a2ee77db07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:36 +0000
Subject: [PATCH 01/32] fix: scale whole rows and columns when normalizing a
 Cauchy matrix

The scaling factor was read back after it had already been divided by
itself, so only the first row and the first column were normalized. The
result was not an MDS matrix and some erasure patterns were not decodable.
---
 src/vec_matrix.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/vec_matrix.h b/src/vec_matrix.h
index f3a7e5c..84e9a52 100644
--- a/src/vec_matrix.h
+++ b/src/vec_matrix.h
@@ -417,14 +417,16 @@ void Matrix<T>::cauchy()
     /* do optimise */
     // convert 1st row to all 1s
     for (j = 0; j < n_cols; j++) {
+        const T factor = get(0, j);
         for (i = 0; i < n_rows; i++) {
-            set(i, j, rn->div(get(i, j), get(0, j)));
+            set(i, j, rn->div(get(i, j), factor));
         }
     }
     // convert 1st element of each row to 1
     for (i = 1; i < n_rows; i++) {
+        const T factor = get(i, 0);
         for (j = 0; j < n_cols; j++) {
-            set(i, j, rn->div(get(i, j), get(i, 0)));
+            set(i, j, rn->div(get(i, j), factor));
         }
     }
 }
-- 
2.43.0


From 4fa9f11390f9388bac8162f1edb5dc69230c7022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:48 +0000
Subject: [PATCH 02/32] fix: zero the whole tail of the serialized properties

The fill stopped one dword before the end of the buffer: the last dword kept
whatever the caller had there and, when the marks filled the buffer exactly,
the range was reversed and the fill ran out of the buffer.
---
 src/property.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/property.h b/src/property.h
index 2fc6a56..aa146fa 100644
--- a/src/property.h
+++ b/src/property.h
@@ -112,7 +112,7 @@ class Properties {
             dwords[i++] = htonl(narrow_cast<uint32_t>(item.first));
         }
         dwords[1] = htonl(i - 2);
-        std::fill(dwords + i, dwords + n_dwords - 1, htonl(0));
+        std::fill(dwords + i, dwords + n_dwords, htonl(0));
 
         return 0;
     }
-- 
2.43.0


From b634906700d5ccfdaa3a2ad14d8ec6373018764e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:48 +0000
Subject: [PATCH 03/32] fix: reject serialized properties whose count overflows

A count of 0xfffffffe or 0xffffffff wrapped around in the bound check and let
the deserialization read past the end of the header.
---
 src/property.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/property.h b/src/property.h
index aa146fa..fe86d99 100644
--- a/src/property.h
+++ b/src/property.h
@@ -132,7 +132,7 @@ class Properties {
             return -1;
         }
         uint32_t _n_dwords = ntohl(dwords[1]);
-        if ((2 + _n_dwords) > n_dwords) {
+        if (_n_dwords > n_dwords - 2) {
             return -1;
         }
         for (unsigned i = 0; i < _n_dwords; i++) {
-- 
2.43.0


From e0fc628eef032f07bb1c3a3a6a1442bad38dd6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:17 +0000
Subject: [PATCH 04/32] fix: do not index parity properties by data fragment
 when decoding

A systematic code with fewer parities than data fragments has fewer
properties than data fragments: resetting the metadata of the decoded data
accessed the vector out of its bounds.
---
 src/quadiron_c.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/quadiron_c.cpp b/src/quadiron_c.cpp
index 3400eeb..e3490bb 100644
--- a/src/quadiron_c.cpp
+++ b/src/quadiron_c.cpp
@@ -216,10 +216,10 @@ int quadiron_fnt32_decode(
         return -1;
 
     // reset metadata of data
+    quadiron::Properties null_prop;
     for (unsigned i = 0; i < fec->n_data; i++) {
-        parities_props[i].clear();
         uint32_t* metadata = reinterpret_cast<uint32_t*>(data[i]);
-        int ret = parities_props[i].fnt_serialize(metadata, metadata_size / 4);
+        int ret = null_prop.fnt_serialize(metadata, metadata_size / 4);
         if (ret == -1) {
             return -1;
         }
-- 
2.43.0


From a2e7c226bccdef9bd2a678b80c38b835a5c909eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:17 +0000
Subject: [PATCH 05/32] fix: use the list of wanted data to reconstruct a
 systematic data fragment

The list of wanted outputs holds one entry per parity: with fewer parities
than data fragments it was accessed out of its bounds.
---
 src/quadiron_c.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/quadiron_c.cpp b/src/quadiron_c.cpp
index e3490bb..2e5a31c 100644
--- a/src/quadiron_c.cpp
+++ b/src/quadiron_c.cpp
@@ -292,13 +292,13 @@ int quadiron_fnt32_reconstruct(
          * Easy case where the target is a data then simply decode
          */
         if (destination_idx < fec->n_data) {
-            wanted_idxs_vec[destination_idx] = true;
+            wanted_data_vec[destination_idx] = true;
             res = fec->decode_blocks_vertical(
                 data_vec,
                 parities_vec,
                 parities_props,
                 missing_idxs_vec,
-                wanted_idxs_vec,
+                wanted_data_vec,
                 block_size);
             if (!res) {
                 return -1;
-- 
2.43.0


From 1de4faa3cf1e37b67578e3a11db0e44e13682543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:29 +0000
Subject: [PATCH 06/32] fix: do not write the metadata of fragments that are
 not wanted

The documentation lets callers set the entries of the fragments they do not
want to NULL, but their metadata was still serialized.
---
 src/quadiron_c.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/quadiron_c.cpp b/src/quadiron_c.cpp
index 2e5a31c..9fa5e27 100644
--- a/src/quadiron_c.cpp
+++ b/src/quadiron_c.cpp
@@ -120,6 +120,9 @@ int quadiron_fnt32_encode(
             }
         }
         for (unsigned i = 0; i < fec->n_parities; i++) {
+            if (!wanted_idxs[i]) {
+                continue;
+            }
             uint32_t* metadata = reinterpret_cast<uint32_t*>(parity[i]);
             int ret =
                 parities_props[i].fnt_serialize(metadata, metadata_size / 4);
@@ -129,6 +132,9 @@ int quadiron_fnt32_encode(
         }
     } else {
         for (unsigned i = 0; i < fec->n_data; i++) {
+            if (!wanted_idxs[i]) {
+                continue;
+            }
             uint32_t* metadata = reinterpret_cast<uint32_t*>(data[i]);
             int ret =
                 parities_props[i].fnt_serialize(metadata, metadata_size / 4);
@@ -137,6 +143,9 @@ int quadiron_fnt32_encode(
             }
         }
         for (unsigned i = 0; i < fec->n_parities; i++) {
+            if (!wanted_idxs[fec->n_data + i]) {
+                continue;
+            }
             uint32_t* metadata = reinterpret_cast<uint32_t*>(parity[i]);
             int ret = parities_props[fec->n_data + i].fnt_serialize(
                 metadata, metadata_size / 4);
-- 
2.43.0


From ba8b2c61ce68c93772e0ac1a49125b1c2bd72262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:29 +0000
Subject: [PATCH 07/32] fix: skip the output streams that are not wanted when
 encoding

Entries of the outputs that are not wanted may be null, as documented, but
they were dereferenced.
---
 src/fec_base.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/fec_base.h b/src/fec_base.h
index 4dcf7f0..364ee86 100644
--- a/src/fec_base.h
+++ b/src/fec_base.h
@@ -452,8 +452,10 @@ void FecCode<T>::encode_streams_horizontal(
         n_encode_ops++;
 
         for (unsigned i = 0; i < n_outputs; i++) {
-            T tmp = output.get(i);
-            writew(tmp, output_parities_bufs[i]);
+            if (output_parities_bufs[i] != nullptr) {
+                T tmp = output.get(i);
+                writew(tmp, output_parities_bufs[i]);
+            }
         }
         offset++;
     }
@@ -534,8 +536,12 @@ void FecCode<T>::encode_streams_vertical(
             output_mem_T, output_mem_char, output_len, pkt_size, word_size);
 
         for (unsigned i = 0; i < n_outputs; i++) {
-            write_pkt(
-                output_mem_char.at(i), *(output_parities_bufs[i]), read_bytes);
+            if (output_parities_bufs[i] != nullptr) {
+                write_pkt(
+                    output_mem_char.at(i),
+                    *(output_parities_bufs[i]),
+                    read_bytes);
+            }
         }
         offset += pkt_size;
     }
-- 
2.43.0


From 371acd3a071a0c8bcd0946b3599332ef4157ffeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:53 +0000
Subject: [PATCH 08/32] fix: do not vectorize operations modulo an unsupported
 cardinal

The vectorized operations on 16-bit (resp. 32-bit) integers always reduce
modulo 257 (resp. 65537), but they were applied whatever the modulus is. In
the SIMD builds the C API with a word size of 1, which runs GF(257) on 32-bit
integers, encoded data that could not be decoded.
---
 src/fft_2n.h    |  2 +-
 src/simd/simd.h | 12 ++++++++++++
 src/simd_ring.h | 10 +++++-----
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/fft_2n.h b/src/fft_2n.h
index 559df84..03f7295 100644
--- a/src/fft_2n.h
+++ b/src/fft_2n.h
@@ -202,7 +202,7 @@ Radix2<T>::Radix2(const gf::Field<T>& gf, int n, int data_len, size_t pkt_size)
 
     // Indices used for accelerated functions
     const unsigned ratio = simd::countof<T>();
-    simd_vec_len = this->pkt_size / ratio;
+    simd_vec_len = simd::is_supported_card(card) ? this->pkt_size / ratio : 0;
     simd_trailing_len = this->pkt_size - simd_vec_len * ratio;
     simd_offset = simd_vec_len * ratio;
 }
diff --git a/src/simd/simd.h b/src/simd/simd.h
index f4d1cdf..4468a9b 100644
--- a/src/simd/simd.h
+++ b/src/simd/simd.h
@@ -54,6 +54,18 @@ static constexpr std::size_t countof()
     return REG_BITSZ / (sizeof(T) * CHAR_BIT);
 }
 
+/** Tell whether the vectorized modular operations on T support a modulus.
+ *
+ * They are dedicated to one Fermat prime per type: 257 on 16-bit integers and
+ * 65537 on 32-bit integers.
+ */
+template <typename T>
+static constexpr bool is_supported_card(T card)
+{
+    return (sizeof(T) == sizeof(uint16_t) && card == 257)
+           || (sizeof(T) == sizeof(uint32_t) && card == 65537);
+}
+
 } // namespace simd
 } // namespace quadiron
 
diff --git a/src/simd_ring.h b/src/simd_ring.h
index a25176a..06921ac 100644
--- a/src/simd_ring.h
+++ b/src/simd_ring.h
@@ -50,7 +50,7 @@ inline void mul_coef_to_buf(const T a, T* src, T* dest, size_t len, T card)
     VecType* _src = reinterpret_cast<VecType*>(src);
     VecType* _dest = reinterpret_cast<VecType*>(dest);
     const unsigned ratio = sizeof(*_src) / sizeof(*src);
-    const size_t _len = len / ratio;
+    const size_t _len = is_supported_card(card) ? len / ratio : 0;
     const size_t _last_len = len - _len * ratio;
 
     size_t i = 0;
@@ -79,7 +79,7 @@ inline void add_two_bufs(T* src, T* dest, size_t len, T card)
     VecType* _src = reinterpret_cast<VecType*>(src);
     VecType* _dest = reinterpret_cast<VecType*>(dest);
     const unsigned ratio = sizeof(*_src) / sizeof(*src);
-    const size_t _len = len / ratio;
+    const size_t _len = is_supported_card(card) ? len / ratio : 0;
     const size_t _last_len = len - _len * ratio;
 
     size_t i;
@@ -101,7 +101,7 @@ inline void sub_two_bufs(T* bufa, T* bufb, T* res, size_t len, T card)
     VecType* _bufb = reinterpret_cast<VecType*>(bufb);
     VecType* _res = reinterpret_cast<VecType*>(res);
     const unsigned ratio = sizeof(*_bufa) / sizeof(*bufa);
-    const size_t _len = len / ratio;
+    const size_t _len = is_supported_card(card) ? len / ratio : 0;
     const size_t _last_len = len - _len * ratio;
 
     size_t i;
@@ -127,7 +127,7 @@ inline void mul_two_bufs(T* src, T* dest, size_t len, T card)
     VecType* _src = reinterpret_cast<VecType*>(src);
     VecType* _dest = reinterpret_cast<VecType*>(dest);
     const unsigned ratio = sizeof(*_src) / sizeof(*src);
-    const size_t _len = len / ratio;
+    const size_t _len = is_supported_card(card) ? len / ratio : 0;
     const size_t _last_len = len - _len * ratio;
 
     size_t i;
@@ -150,7 +150,7 @@ inline void neg(size_t len, T* buf, T card)
 {
     VecType* _buf = reinterpret_cast<VecType*>(buf);
     const unsigned ratio = sizeof(*_buf) / sizeof(*buf);
-    const size_t _len = len / ratio;
+    const size_t _len = is_supported_card(card) ? len / ratio : 0;
     const size_t _last_len = len - _len * ratio;
 
     size_t i;
-- 
2.43.0


From 0e7cacf447fd349762ea1dacfb97238074fdd14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:12 +0000
Subject: [PATCH 09/32] fix: size the vector of pointers of shuffled sliced
 buffers

---
 src/vec_buffers.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vec_buffers.h b/src/vec_buffers.h
index d31c69d..6590022 100644
--- a/src/vec_buffers.h
+++ b/src/vec_buffers.h
@@ -311,6 +311,8 @@ Buffers<T>::Buffers(
     mem.reserve(this->n);
     if (vec_n >= n) {
         this->mem_alloc_case = BufMemAlloc::SLICE;
+
+        mem.resize(n, nullptr);
     } else { // output is zero-extended & shuffled from `vec`
         this->mem_alloc_case = BufMemAlloc::ZERO_EXTEND;
 
-- 
2.43.0


From 1ecdefc358a15f55a02a0023a10166aa60316ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:12 +0000
Subject: [PATCH 10/32] fix: memory length of fully cloned buffers

---
 src/vec_buffers.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vec_buffers.h b/src/vec_buffers.h
index 6590022..7725324 100644
--- a/src/vec_buffers.h
+++ b/src/vec_buffers.h
@@ -189,7 +189,7 @@ Buffers<T>::Buffers(const Buffers<T>& vec, int n)
 
     this->size = vec.get_size();
     this->n = (n == 0) ? vec_n : n;
-    this->mem_len = n * size;
+    this->mem_len = this->n * size;
 
     this->mem_alloc_case = BufMemAlloc::FULL;
 
-- 
2.43.0


From 19c219dc464f77e32f1fa7727442e990dce8e897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:11 +0000
Subject: [PATCH 11/32] fix: zero and one are not prime numbers

---
 src/arith.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/arith.h b/src/arith.h
index fab8c64..81cc2f0 100644
--- a/src/arith.h
+++ b/src/arith.h
@@ -470,6 +470,8 @@ bool solovay_strassen(T n, T (*rand_func)(T n))
 template <typename T>
 bool is_prime(T n)
 {
+    if (n < 2)
+        return false;
     if (n == 2)
         return true;
 
-- 
2.43.0


From cac085aef607e7364a3979011abba71871f9d022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:11 +0000
Subject: [PATCH 12/32] fix: list the square root of a number only once in its
 divisors

---
 src/arith.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/arith.h b/src/arith.h
index 81cc2f0..1a2e2eb 100644
--- a/src/arith.h
+++ b/src/arith.h
@@ -627,7 +627,9 @@ std::vector<T> get_all_divisors(T n)
         // While `i` divides `nb`, get `i` and divide `nb/i`.
         if (n % i == 0) {
             divisors.push_back(i);
-            n_div_i.push_back(n / i);
+            if (i != n / i) {
+                n_div_i.push_back(n / i);
+            }
         }
     }
     divisors.insert(divisors.end(), n_div_i.rbegin(), n_div_i.rend());
-- 
2.43.0


From 69477a695598ef92a9073459b9c6f475f0e26812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:11 +0000
Subject: [PATCH 13/32] fix: return the smallest suitable code length

---
 src/arith.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/arith.h b/src/arith.h
index 1a2e2eb..72b0c7c 100644
--- a/src/arith.h
+++ b/src/arith.h
@@ -669,8 +669,14 @@ T get_code_len(T order, T n)
             return i;
         }
     }
-    // order is prime
-    return order;
+    // no divisor in [n, sqrt(order)]: the result is paired with the greatest
+    // divisor that is smaller than n (`order` itself if that is 1)
+    for (i = n - 1; i > 1; i--) {
+        if (order % i == 0) {
+            break;
+        }
+    }
+    return order / i;
 }
 
 /** Find smallest number that is highly composite, ≥ `n` and divisible by
-- 
2.43.0


From bbf66e6b0e0e2118e1739d447f13703bfaf4d20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:11 +0000
Subject: [PATCH 14/32] fix: do not overflow in modular exponentiation

---
 src/arith.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arith.h b/src/arith.h
index 72b0c7c..b941022 100644
--- a/src/arith.h
+++ b/src/arith.h
@@ -183,10 +183,10 @@ T exp_mod(T base, T exponent, T modulus)
     base = base % modulus;
     while (exponent > 0) {
         if (exponent % 2 == 1) {
-            result = (result * base) % modulus;
+            result = T((DoubleSizeVal<T>(result) * base) % modulus);
         }
         exponent = exponent >> 1;
-        base = (base * base) % modulus;
+        base = T((DoubleSizeVal<T>(base) * base) % modulus);
     }
 
     return result;
-- 
2.43.0


From 886a105291e99338abfb7916a16bfbdce7425436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:11 +0000
Subject: [PATCH 15/32] fix: addition modulo a cardinal close to the size of
 the type

---
 src/gf_ring.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gf_ring.h b/src/gf_ring.h
index 935edce..ec9a73b 100644
--- a/src/gf_ring.h
+++ b/src/gf_ring.h
@@ -217,7 +217,8 @@ inline T RingModN<T>::add(T a, T b) const
     assert(check(b));
 
     T c = a + b;
-    if (c >= this->_card)
+    // `c` is smaller than `a` when the sum overflows
+    if (c >= this->_card || c < a)
         c -= this->_card;
     return c;
 }
-- 
2.43.0


From e31dd495d36840341b38d4373fbd48c5215eb2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:00 +0000
Subject: [PATCH 16/32] fix: do not use the length of the FFT as an index of
 its factors

---
 src/fec_rs_gfp_fft.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fec_rs_gfp_fft.h b/src/fec_rs_gfp_fft.h
index 42b11c3..d0e2b60 100644
--- a/src/fec_rs_gfp_fft.h
+++ b/src/fec_rs_gfp_fft.h
@@ -135,7 +135,7 @@ class RsGfpFft : public FecCode<T> {
                 new fft::Radix2<T>(*(this->gf), len_2k, len_2k));
         } else {
             this->fft_2k = std::unique_ptr<fft::CooleyTukey<T>>(
-                new fft::CooleyTukey<T>(*(this->gf), len_2k, len_2k));
+                new fft::CooleyTukey<T>(*(this->gf), len_2k));
         }
     }
 
-- 
2.43.0


From 7df680339cc9dab7cbada0a5551090f5c915a86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:18 +0000
Subject: [PATCH 17/32] fix: get_code_len_high_compo(1) is 1

Giving up every factor left the backward loop without returning, then the
search went on from 1 and ended by returning 0.
---
 src/arith.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/arith.h b/src/arith.h
index b941022..1971748 100644
--- a/src/arith.h
+++ b/src/arith.h
@@ -715,6 +715,8 @@ T get_code_len_high_compo(const std::vector<T>& factors, T n)
                     return x * factors[j];
                 }
             }
+            // all the factors can be given up
+            return x;
         }
     }
     assert(false);
-- 
2.43.0


From da46ae0ed9e998d5dfab0d536558569165e5566c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:26 +0000
Subject: [PATCH 18/32] fix: 1 is not a primitive root of a field of prime
 order

The proper divisors of a prime order do not include 1, so that
is_primitive_root(1) was true for GF(3) or GF(4).
---
 src/gf_ring.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gf_ring.h b/src/gf_ring.h
index ec9a73b..47ff598 100644
--- a/src/gf_ring.h
+++ b/src/gf_ring.h
@@ -602,9 +602,10 @@ inline __uint128_t RingModN<__uint128_t>::rand(void) const
 template <typename T>
 bool RingModN<T>::is_primitive_root(T nb) const
 {
-    bool ok = true;
     typename std::vector<T>::size_type i;
     T h = this->card_minus_one();
+    // 1 is not among the proper divisors when `h` is prime: check nb^1 == 1.
+    bool ok = (nb != 1 || h == 1);
     // Check nb^divisor == 1.
     for (i = 0; i != this->proper_divisors.size(); ++i) {
         if (this->exp(nb, this->proper_divisors[i]) == 1) {
-- 
2.43.0


From 14fb183e4ff02aceb7d15feab90b24470e09245b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:11 +0000
Subject: [PATCH 19/32] fix: compare 256-bit signed integers with their sign

---
 src/big_int.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/big_int.h b/src/big_int.h
index d6b3627..713d6e9 100644
--- a/src/big_int.h
+++ b/src/big_int.h
@@ -70,7 +70,7 @@ struct Int256 {
 
     bool operator<(int x)
     {
-        return lo < static_cast<__uint128_t>(x);
+        return static_cast<__int128_t>(lo) < x;
     }
 
     bool operator!=(__uint128_t x)
-- 
2.43.0


From 01ab88533fcc00b258277bf9e0f1cc335ce3f524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:04 +0000
Subject: [PATCH 20/32] fix: element-wise addition modulo a cardinal close to
 the size of the type

---
 src/simd_ring.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simd_ring.h b/src/simd_ring.h
index 06921ac..0be6050 100644
--- a/src/simd_ring.h
+++ b/src/simd_ring.h
@@ -89,7 +89,8 @@ inline void add_two_bufs(T* src, T* dest, size_t len, T card)
     if (_last_len > 0) {
         for (i = _len * ratio; i < len; i++) {
             const T tmp = src[i] + dest[i];
-            dest[i] = (tmp >= card) ? (tmp - card) : tmp;
+            // `tmp` is smaller than `src[i]` when the sum overflows
+            dest[i] = (tmp >= card || tmp < src[i]) ? (tmp - card) : tmp;
         }
     }
 }
-- 
2.43.0


From 86b7b167e2397550df5ac16996f1807e599612de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:02 +0000
Subject: [PATCH 21/32] fix: invert the length of a transform in the prime
 subfield

---
 src/gf_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gf_base.h b/src/gf_base.h
index 71fd592..41d6f26 100644
--- a/src/gf_base.h
+++ b/src/gf_base.h
@@ -115,7 +115,7 @@ int Field<T>::get_n() const
 template <typename T>
 T Field<T>::get_inv_n_mod_p(int n) const
 {
-    return this->inv(n) % p;
+    return get_sub_field().inv(n % p);
 }
 
 template <typename T>
-- 
2.43.0


From 491a9ba287f6c35bfdbd6e0af053064ab47fcb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:20 +0000
Subject: [PATCH 22/32] fix: skip blank lines that end with a carriage return
 in properties

---
 src/property.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/property.cpp b/src/property.cpp
index f11428e..03c481a 100644
--- a/src/property.cpp
+++ b/src/property.cpp
@@ -40,7 +40,7 @@ std::istream& operator>>(std::istream& is, Properties& props)
 
     while (std::getline(is, line)) {
         // Skip blank lines.
-        auto begin = line.find_first_not_of(" \f\t\v");
+        auto begin = line.find_first_not_of(" \f\r\t\v");
         if (begin == std::string::npos) {
             continue;
         }
@@ -52,7 +52,7 @@ std::istream& operator>>(std::istream& is, Properties& props)
         auto end = line.find('=', begin);
         std::string key = line.substr(begin, end - begin);
         // No leading or trailing whitespace allowed.
-        key.erase(key.find_last_not_of(" \f\t\v") + 1);
+        key.erase(key.find_last_not_of(" \f\r\t\v") + 1);
         // No blank keys allowed
         if (key.empty()) {
             continue;
-- 
2.43.0


From 453743c1ab5456387c3dcc8265ca901e0bde6b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:20 +0000
Subject: [PATCH 23/32] fix: make the assignments of vectors compile

---
 src/vec_vector.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/vec_vector.h b/src/vec_vector.h
index a0ddc0e..19bec79 100644
--- a/src/vec_vector.h
+++ b/src/vec_vector.h
@@ -184,6 +184,9 @@ Vector<T>::Vector(Vector&& other) noexcept
 template <typename T>
 Vector<T>& Vector<T>::operator=(const Vector<T>& other)
 {
+    // The friend function, hidden by the member function of the same name.
+    using std::swap;
+
     Vector<T> tmp(other);
     swap(*this, tmp);
     return *this;
@@ -192,9 +195,12 @@ Vector<T>& Vector<T>::operator=(const Vector<T>& other)
 template <typename T>
 Vector<T>& Vector<T>::operator=(Vector<T>&& other) noexcept
 {
+    if (this == &other) {
+        return *this;
+    }
     this->destroy();
     this->rn = other.rn;
-    this->n = other.rn;
+    this->n = other.n;
     this->mem = std::exchange(other.mem, nullptr);
     this->mem_len = other.mem_len;
     this->new_mem = other.new_mem;
-- 
2.43.0


From 7a845e7966b67540794fcb480fcfcff5eb4f896b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:23 +0000
Subject: [PATCH 24/32] fix: do not free buffers that are not owned when
 replacing them

---
 src/vec_buffers.h | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/vec_buffers.h b/src/vec_buffers.h
index 7725324..e273037 100644
--- a/src/vec_buffers.h
+++ b/src/vec_buffers.h
@@ -378,9 +378,6 @@ inline void Buffers<T>::set(int i, T* buf)
 {
     assert(i >= 0 && i < n);
 
-    if ((mem_alloc_case == BufMemAlloc::NONE) && (mem[i] != nullptr))
-        this->allocator.deallocate(mem[i], size);
-
     mem[i] = buf;
 }
 
-- 
2.43.0


From 538ac9766d22e1fe8edaab38cd85d4a98c75dbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:26 +0000
Subject: [PATCH 25/32] fix: give slices the length of their own memory

---
 src/vec_slice.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vec_slice.h b/src/vec_slice.h
index 7aefda8..3c793a0 100644
--- a/src/vec_slice.h
+++ b/src/vec_slice.h
@@ -83,6 +83,7 @@ Slice<T>::Slice(Vector<T>* vec, int n, int offset)
             ? n
             : (this->base_len > this->offset ? this->base_len - this->offset
                                              : 0);
+    this->set_mem(this->mem_offset, this->n);
 }
 
 template <typename T>
-- 
2.43.0


From 0f5119e110538f24e369eec80df1161a840dbf8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:35 +0000
Subject: [PATCH 26/32] fix: multiply buffers by the largest coefficient

---
 src/simd_ring.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/simd_ring.h b/src/simd_ring.h
index 0be6050..3842b8e 100644
--- a/src/simd_ring.h
+++ b/src/simd_ring.h
@@ -39,8 +39,6 @@ namespace simd {
 /* ==================== Operations for RingModN =================== */
 /** Perform a multiplication of a coefficient `a` to each element of `src` and
  *  add result to correspondent element of `dest`
- *
- * @note: 1 < `a` < card - 1
  */
 template <typename T>
 inline void mul_coef_to_buf(const T a, T* src, T* dest, size_t len, T card)
@@ -54,6 +52,12 @@ inline void mul_coef_to_buf(const T a, T* src, T* dest, size_t len, T card)
     const size_t _last_len = len - _len * ratio;
 
     size_t i = 0;
+    if (a == card - 1) {
+        // `mod_mul` overflows when both factors are equal to `card - 1`
+        for (; i < _len; ++i) {
+            _dest[i] = mod_neg<T>(_src[i]);
+        }
+    }
     const size_t end = (_len > 3) ? _len - 3 : 0;
     for (; i < end; i += 4) {
         _dest[i] = mod_mul<T>(coef, _src[i]);
-- 
2.43.0


From b4ce78692ffc1e0367ce55b3d18bf091498dd2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:06 +0000
Subject: [PATCH 27/32] fix: dump empty buffers

---
 src/vec_buffers.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vec_buffers.h b/src/vec_buffers.h
index e273037..851eb8e 100644
--- a/src/vec_buffers.h
+++ b/src/vec_buffers.h
@@ -481,7 +481,7 @@ void Buffers<T>::dump(void)
 {
     for (int i = 0; i < n; i++) {
         std::cout << "\n\t" << i << ": ";
-        for (size_t j = 0; j < size - 1; j++) {
+        for (size_t j = 0; j + 1 < size; j++) {
             std::cout << (get(i))[j] << "-";
         }
         if (size > 0) {
-- 
2.43.0


From e6c822f162986cde2c87d4393899f450b62c7039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:06 +0000
Subject: [PATCH 28/32] fix: assign sets of buffers without sharing their
 memory

---
 src/vec_buffers.h | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/vec_buffers.h b/src/vec_buffers.h
index 851eb8e..fbc1498 100644
--- a/src/vec_buffers.h
+++ b/src/vec_buffers.h
@@ -35,6 +35,7 @@
 #include <cassert>
 #include <cstring>
 #include <iostream>
+#include <utility>
 #include <vector>
 
 #include "core.h"
@@ -106,6 +107,7 @@ class Buffers final {
     Buffers(const Buffers<T>& vec, int begin, int end);
     Buffers(const Buffers<T>& vec1, const Buffers<T>& vec2);
     Buffers(const Buffers<T>& vec, const Vector<T>& map, unsigned n);
+    Buffers<T>& operator=(const Buffers<T>& other);
     ~Buffers();
     int get_n(void) const;
     size_t get_size(void) const;
@@ -328,6 +330,26 @@ Buffers<T>::Buffers(
     }
 }
 
+/**
+ * Assignment: like the copy constructor, it clones the given buffers.
+ *
+ * @param other - a given Buffers instance
+ */
+template <typename T>
+Buffers<T>& Buffers<T>::operator=(const Buffers<T>& other)
+{
+    Buffers<T> tmp(other);
+
+    std::swap(this->mem, tmp.mem);
+    std::swap(this->mem_len, tmp.mem_len);
+    std::swap(this->size, tmp.size);
+    std::swap(this->n, tmp.n);
+    std::swap(this->mem_alloc_case, tmp.mem_alloc_case);
+    std::swap(this->zeros, tmp.zeros);
+
+    return *this;
+}
+
 template <typename T>
 Buffers<T>::~Buffers()
 {
-- 
2.43.0


From f343b6385e9af1efadece63679f8ea5932f371ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:06 +0000
Subject: [PATCH 29/32] fix: copy and assign matrices without sharing their
 memory

---
 src/vec_matrix.h | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/vec_matrix.h b/src/vec_matrix.h
index 84e9a52..152c173 100644
--- a/src/vec_matrix.h
+++ b/src/vec_matrix.h
@@ -31,7 +31,9 @@
 #ifndef __QUAD_VEC_MATRIX_H__
 #define __QUAD_VEC_MATRIX_H__
 
+#include <algorithm>
 #include <iostream>
+#include <utility>
 
 #include "gf_ring.h"
 #include "vec_vector.h"
@@ -57,6 +59,8 @@ template <typename T>
 class Matrix {
   public:
     Matrix(const gf::RingModN<T>& rn, int n_rows, int n_cols);
+    Matrix(const Matrix<T>& other);
+    Matrix<T>& operator=(const Matrix<T>& other);
     virtual ~Matrix();
     virtual int get_n_rows();
     virtual int get_n_cols();
@@ -94,6 +98,26 @@ Matrix<T>::Matrix(const gf::RingModN<T>& rn, int n_rows, int n_cols)
     this->mem = new T[n_rows * n_cols];
 }
 
+template <typename T>
+Matrix<T>::Matrix(const Matrix<T>& other)
+    : Matrix(*other.rn, other.n_rows, other.n_cols)
+{
+    std::copy_n(other.mem, n_rows * n_cols, this->mem);
+}
+
+template <typename T>
+Matrix<T>& Matrix<T>::operator=(const Matrix<T>& other)
+{
+    Matrix<T> tmp(other);
+
+    std::swap(this->rn, tmp.rn);
+    std::swap(this->n_rows, tmp.n_rows);
+    std::swap(this->n_cols, tmp.n_cols);
+    std::swap(this->mem, tmp.mem);
+
+    return *this;
+}
+
 template <typename T>
 Matrix<T>::~Matrix()
 {
-- 
2.43.0


From 3fdbb4e598b342a432e83305d3d986fd65b95180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:06 +0000
Subject: [PATCH 30/32] fix: assign polynomials without sharing their memory

---
 src/vec_poly.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/vec_poly.h b/src/vec_poly.h
index b6234e8..e4668de 100644
--- a/src/vec_poly.h
+++ b/src/vec_poly.h
@@ -49,6 +49,7 @@ class Poly : public Vector<T> {
   public:
     Poly(const gf::Field<T>& field, int n);
     Poly(const Poly<T>& a);
+    Poly<T>& operator=(const Poly<T>& a);
     int get_deg() const;
     void set_deg(int exponent);
     const T& get(int exponent) const override;
@@ -89,6 +90,18 @@ Poly<T>::Poly(const Poly<T>& a) : Vector<T>(a.get_gf(), a.get_n())
     this->degree = a.get_deg();
 }
 
+template <typename T>
+Poly<T>& Poly<T>::operator=(const Poly<T>& a)
+{
+    Vector<T>::operator=(a);
+    this->field = a.field;
+    this->field_characteristic = a.field_characteristic;
+    this->buf = this->get_mem();
+    this->degree = a.degree;
+
+    return *this;
+}
+
 template <typename T>
 int Poly<T>::get_deg() const
 {
-- 
2.43.0


From b3fe7c625a7157ed8e30e34c3eaec0925caa260b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:06 +0000
Subject: [PATCH 31/32] fix: move the tables of binary fields

---
 src/gf_bin_ext.h | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/gf_bin_ext.h b/src/gf_bin_ext.h
index faf0f2a..a5140c5 100644
--- a/src/gf_bin_ext.h
+++ b/src/gf_bin_ext.h
@@ -32,6 +32,7 @@
 #define __QUAD_GF_BIN_EXT_H__
 
 #include <limits>
+#include <utility>
 
 #include "exceptions.h"
 #include "gf_base.h"
@@ -57,7 +58,7 @@ class BinExtension : public gf::Field<T> {
     T log(T a, T b) const override;
     void hadamard_mul(int n, T* x, T* y) const override;
 
-    BinExtension(BinExtension&&) = default;
+    BinExtension(BinExtension&& other) noexcept;
 
   private:
     T n;
@@ -172,6 +173,20 @@ BinExtension<T>::BinExtension(T n) : gf::Field<T>(2, n)
     }
 }
 
+template <typename T>
+BinExtension<T>::BinExtension(BinExtension<T>&& other) noexcept
+    : gf::Field<T>(std::move(other)), n(other.n), my_card(other.my_card),
+      sgroup_nb(other.sgroup_nb), primitive_poly(other.primitive_poly),
+      first_bit(other.first_bit), tab_nb(other.tab_nb),
+      gflog(std::exchange(other.gflog, nullptr)),
+      gfilog(std::exchange(other.gfilog, nullptr)),
+      gfsplit(std::exchange(other.gfsplit, nullptr)),
+      mask(std::exchange(other.mask, nullptr)), restricted(other.restricted),
+      mul_type(other.mul_type), div_type(other.div_type),
+      inv_type(other.inv_type)
+{
+}
+
 template <typename T>
 BinExtension<T>::~BinExtension()
 {
-- 
2.43.0


From 1bb75dabbc0941b9b51ecd717772325f113b4e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:06 +0000
Subject: [PATCH 32/32] fix: move the scratch space of NF4

---
 src/gf_nf4.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gf_nf4.h b/src/gf_nf4.h
index ab6025c..fb65de9 100644
--- a/src/gf_nf4.h
+++ b/src/gf_nf4.h
@@ -56,7 +56,9 @@ class NF4 : public gf::Field<T> {
     NF4(NF4&& other)
     noexcept
         : Field<T>(std::move(other)), unit(other.unit), q(other.q), h(other.h),
-          sub_field(std::move(other.sub_field))
+          sub_field(std::move(other.sub_field)),
+          scratch16(std::move(other.scratch16)),
+          scratch32(std::move(other.scratch32))
     {
     }
 
-- 
2.43.0

