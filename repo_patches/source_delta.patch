From e150e96fffaab46b5947dba1824805635ba027d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:23 +0000
Subject: [PATCH 1/9] fix: accumulate squared norm in 64 bits during
 verification

---
 include/verification.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/verification.hpp b/include/verification.hpp
index 53d33ec..25544f3 100644
--- a/include/verification.hpp
+++ b/include/verification.hpp
@@ -67,10 +67,12 @@ verify(const ff::ff_t* const __restrict h,
     normalized_s1[i] = t0 - t1;
   }
 
-  int32_t sqrd_norm = 0;
+  // s2 is attacker controlled, its squared norm doesn't necessarily fit in 32
+  // -bits
+  int64_t sqrd_norm = 0;
 
   for (size_t i = 0; i < N; i++) {
-    sqrd_norm += s2[i] * s2[i];
+    sqrd_norm += static_cast<int64_t>(s2[i]) * s2[i];
   }
   for (size_t i = 0; i < N; i++) {
     sqrd_norm += normalized_s1[i] * normalized_s1[i];
-- 
2.43.0


From 0408c36831ed3b44e4399ce07ad728e780dccd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:32 +0000
Subject: [PATCH 2/9] fix: decode unary part of compressed signature
 coefficients past 8 bits, staying in bounds

---
 include/decoding.hpp | 53 ++++++++++++++++++++++----------------------
 1 file changed, 27 insertions(+), 26 deletions(-)

diff --git a/include/decoding.hpp b/include/decoding.hpp
index 2890634..fd3e25f 100644
--- a/include/decoding.hpp
+++ b/include/decoding.hpp
@@ -205,8 +205,8 @@ decode_skey(const uint8_t* const __restrict skey,
 // Now notice, if we're working with a byte array of length 2 and we're asked to
 // extract 8 contiguous bits, starting from bit index 11, we will access memory
 // location which we're not supposed to be. So it's caller's responsibility to
-// ensure that atleast 2 consecutive memory locations ( i.e. bytes ) can be
-// accessed, starting from byte index (bitoff / 8).
+// ensure that 8 consecutive bits can be accessed, starting from bit index
+// bitoff.
 static inline constexpr uint8_t
 extract_8_contiguous_bits(const uint8_t* const __restrict bytes,
                           const size_t bitoff)
@@ -214,6 +214,11 @@ extract_8_contiguous_bits(const uint8_t* const __restrict bytes,
   const size_t byte_at = bitoff >> 3;
   const size_t bit_at = bitoff & 7ul;
 
+  // all 8 bits live in a single byte, don't touch next one
+  if (bit_at == 0) {
+    return bytes[byte_at];
+  }
+
   const uint16_t word = (static_cast<uint16_t>(bytes[byte_at]) << 8) |
                         static_cast<uint16_t>(bytes[byte_at + 1]);
 
@@ -278,7 +283,7 @@ decompress_sig(const uint8_t* const __restrict sig,
   size_t coeff_idx = 0;
   bool failed = false;
 
-  while ((coeff_idx < N) && (bit_idx < slen)) {
+  while ((coeff_idx < N) && (bit_idx + 8 < slen)) {
     int32_t coeff = 0;
     uint8_t sign_bit = 0;
 
@@ -293,31 +298,27 @@ decompress_sig(const uint8_t* const __restrict sig,
 
     // extract high bits of coefficient, which was encoded using unary code
     {
-      size_t k = std::countl_zero(extract_8_contiguous_bits(sig, bit_idx));
-      if (k < 8) [[likely]] {
-        coeff += (1 << 7) * k;
-        bit_idx += k;
-      } else {
-        bit_idx += k;
-        for (; bit_idx < slen;) {
-          const auto ebits = std::min(8ul, slen - bit_idx);
-
-          size_t v = 0;
-          if (ebits < 8) {
-            const auto t = extract_rem_contiguous_bits_in_byte(sig, bit_idx);
-            v = std::countl_zero(t);
-          } else {
-            const auto t = extract_8_contiguous_bits(sig, bit_idx);
-            v = std::countl_zero(t);
-          }
-          k += v;
-          bit_idx += ebits;
-
-          if (v < ebits) {
-            break;
-          }
+      size_t k = 0;
+      for (; bit_idx < slen;) {
+        const auto ebits = std::min(8ul, slen - bit_idx);
+
+        size_t v = 0;
+        if (ebits < 8) {
+          const auto t = extract_rem_contiguous_bits_in_byte(sig, bit_idx);
+          v = std::min<size_t>(std::countl_zero(t), ebits);
+        } else {
+          const auto t = extract_8_contiguous_bits(sig, bit_idx);
+          v = std::countl_zero(t);
+        }
+        k += v;
+        bit_idx += v;
+
+        if (v < ebits) {
+          break;
         }
       }
+
+      coeff += (1 << 7) * k;
     }
 
     // recompute coefficient s_i
-- 
2.43.0


From 6232e08c3d74ade25b28663566845443aa4dff86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:40 +0000
Subject: [PATCH 3/9] fix: don't write past end of buffer when signature
 doesn't compress

---
 include/encoding.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/encoding.hpp b/include/encoding.hpp
index 7bfe32b..4629775 100644
--- a/include/encoding.hpp
+++ b/include/encoding.hpp
@@ -182,6 +182,16 @@ compress_sig(const int32_t* const __restrict poly_s,
   size_t coeff_idx = 0;
 
   while (coeff_idx < N) {
+    // stop, if this coefficient doesn't fit in remaining bits
+    {
+      const int64_t coeff = poly_s[coeff_idx];
+      const size_t k = static_cast<size_t>(std::abs(coeff) >> 7);
+      if (bit_idx + 8 + k >= slen) {
+        bit_idx = slen;
+        break;
+      }
+    }
+
     // encode sign bit
     {
       const size_t byte_idx = bit_idx >> 3;
-- 
2.43.0


From d19e678b0f8fc89bd0393323edb538acc6eac06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:47 +0000
Subject: [PATCH 4/9] fix: reject public key with coefficients outside of Z_q

---
 include/decoding.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/decoding.hpp b/include/decoding.hpp
index fd3e25f..5725599 100644
--- a/include/decoding.hpp
+++ b/include/decoding.hpp
@@ -44,6 +44,17 @@ decode_pkey(const uint8_t* const __restrict pkey, ff::ff_t* const __restrict h)
                     (static_cast<uint16_t>(pkey[pkoff + 5] >> 2) << 0);
   }
 
+  // each coefficient must be a canonical element of Z_q
+  bool failed = false;
+  for (size_t i = 0; i < N; i++) {
+    failed |= h[i].v >= ff::Q;
+  }
+
+  if (failed) [[unlikely]] {
+    std::fill_n(h, N, 0);
+    return false;
+  }
+
   return true;
 }
 
-- 
2.43.0


From 77e3aa88a92f15de8cdfd554823fbcc8d2211dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:54 +0000
Subject: [PATCH 5/9] fix: regenerate key when f, g, F are not encodable

---
 include/ntru_gen.hpp | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/include/ntru_gen.hpp b/include/ntru_gen.hpp
index e040a61..69b073e 100644
--- a/include/ntru_gen.hpp
+++ b/include/ntru_gen.hpp
@@ -504,6 +504,20 @@ ntru_solve(const std::array<mpz_class, N>& f, const std::array<mpz_class, N>& g)
   }
 }
 
+// Checks whether all coefficients of a polynomial of degree N - 1 are
+// representable, when encoded as part of secret key i.e. ∈ [-bound, bound]
+template<const size_t N>
+static inline bool
+is_encodable(const int32_t* const poly, const int32_t bound)
+{
+  bool flg = true;
+  for (size_t i = 0; i < N; i++) {
+    flg &= (poly[i] >= -bound) && (poly[i] <= bound);
+  }
+
+  return flg;
+}
+
 // Given a modulus q ( = 12289 ), this routine generates four polynomials f, g,
 // F, G ∈ Z[x]/(x^N + 1), solving NTRU equation ( see eq 3.15 of Falcon
 // specification ). This routine is an implementation of algorithm 5 of Falcon
@@ -517,10 +531,18 @@ ntru_gen(int32_t* const __restrict f,
          prng::prng_t& rng)
   requires((N == 512) || (N == 1024))
 {
+  // see section 3.11.5 of Falcon specification
+  constexpr int32_t fg_bound = (N == 512) ? 31 : 15;
+  constexpr int32_t F_bound = 127;
+
   while (1) {
     gen_poly<log2<N>()>(f, rng);
     gen_poly<log2<N>()>(g, rng);
 
+    if (!is_encodable<N>(f, fg_bound) || !is_encodable<N>(g, fg_bound)) {
+      continue;
+    }
+
     if (!is_poly_invertible<log2<N>()>(f)) {
       continue;
     }
@@ -547,6 +569,10 @@ ntru_gen(int32_t* const __restrict f,
       F[i] = static_cast<int32_t>(ret.first.first[i].get_si());
       G[i] = static_cast<int32_t>(ret.first.second[i].get_si());
     }
+
+    if (!is_encodable<N>(F, F_bound)) {
+      continue;
+    }
     break;
   }
 }
-- 
2.43.0


From aafa31d761cfed19502bfd65fb48168c7f79f333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:00 +0000
Subject: [PATCH 6/9] fix: seed PRNG with 256 bits of system randomness

---
 include/prng.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/prng.hpp b/include/prng.hpp
index 4de0a2d..226770e 100644
--- a/include/prng.hpp
+++ b/include/prng.hpp
@@ -7,8 +7,7 @@ namespace prng {
 
 // Pseudo Random Number Generator s.t. N (>0) -many random bytes are read from
 // SHAKE256 XoF whose state is obtained by hashing 32 random bytes sampled from
-// uniform uint8_t random number generator distribution, using Mersenne Twister
-// engine, which itself is seeded with system random device ( read more @
+// system random device ( read more @
 // https://en.cppreference.com/w/cpp/numeric/random/random_device )
 //
 // Note, std::random_device's behaviour is implementation defined feature, so
@@ -23,12 +22,10 @@ public:
   inline prng_t()
   {
     std::random_device rd;
-    std::mt19937 gen(rd());
-    std::uniform_int_distribution<uint8_t> dis{};
 
     uint8_t seed[32];
     for (size_t i = 0; i < sizeof(seed); i++) {
-      seed[i] = dis(gen);
+      seed[i] = static_cast<uint8_t>(rd());
     }
 
     state.hash(seed, sizeof(seed));
-- 
2.43.0


From 243f35ea46fe63ab4601c72fe68afc4b03eb7bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:06 +0000
Subject: [PATCH 7/9] fix: center s1 around zero, mapping q/2 to itself

---
 include/verification.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/verification.hpp b/include/verification.hpp
index 25544f3..36fddee 100644
--- a/include/verification.hpp
+++ b/include/verification.hpp
@@ -60,7 +60,7 @@ verify(const ff::ff_t* const __restrict h,
   int32_t normalized_s1[N];
 
   for (size_t i = 0; i < N; i++) {
-    const bool flg = s1[i].v >= qby2;
+    const bool flg = s1[i].v > qby2;
     const auto t0 = static_cast<int32_t>(s1[i].v);
     const auto t1 = static_cast<int32_t>(flg * ff::Q);
 
-- 
2.43.0


From 1268ebaba2518336dfbae03c31577f0d07459963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:14 +0000
Subject: [PATCH 8/9] fix: reject secret key holding forbidden coefficients

---
 include/decoding.hpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/include/decoding.hpp b/include/decoding.hpp
index 5725599..0b2962e 100644
--- a/include/decoding.hpp
+++ b/include/decoding.hpp
@@ -180,6 +180,23 @@ decode_skey(const uint8_t* const __restrict skey,
     F[Foff] = skey[skoff] - (skey[skoff] > F_max) * F_wrap_at;
   }
 
+  // most negative value, of each bit width, is not a valid coefficient
+  constexpr int32_t fg_min = -(1 << ((N == 512) ? 5 : 4));
+  constexpr int32_t F_min = -(F_wrap_at / 2);
+
+  bool failed = false;
+  for (size_t i = 0; i < N; i++) {
+    failed |= (f[i] == fg_min) | (g[i] == fg_min) | (F[i] == F_min);
+  }
+
+  if (failed) [[unlikely]] {
+    std::fill_n(f, N, 0);
+    std::fill_n(g, N, 0);
+    std::fill_n(F, N, 0);
+
+    return false;
+  }
+
   return true;
 }
 
-- 
2.43.0


From 0fdba262596da2feaad22b665a3cbbff7388fbd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:20 +0000
Subject: [PATCH 9/9] fix: don't read past end of supplied random bytes in
 samplerz

---
 include/samplerz.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/samplerz.hpp b/include/samplerz.hpp
index ab0ab60..8e2ab3e 100644
--- a/include/samplerz.hpp
+++ b/include/samplerz.hpp
@@ -374,7 +374,7 @@ samplerz(const double μ,
   size_t ridx = 0;
   int32_t ret_z = 0;
 
-  while (ridx < rblen) {
+  while (ridx + 10 < rblen) {
     std::array<uint8_t, 9> tmp{};
     std::memcpy(tmp.data(), rbytes + ridx, 9);
     std::reverse(tmp.begin(), tmp.end());
-- 
2.43.0

