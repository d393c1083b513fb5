From 74d89d53876e6cdf14b063b06e414d98576d15e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:06 +0000
Subject: [PATCH 01/17] fix: muldivmod shifted its first operand when the
 modulus is 2^64

integer_log2(0) is 0, so with m == 0 (which stands for 2^64) the operand
a was shifted left by 63 bits and both results were wrong.
---
 include/boost/random/detail/large_arithmetic.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/random/detail/large_arithmetic.hpp b/include/boost/random/detail/large_arithmetic.hpp
index 66f6b4e..5665e72 100644
--- a/include/boost/random/detail/large_arithmetic.hpp
+++ b/include/boost/random/detail/large_arithmetic.hpp
@@ -36,7 +36,8 @@ inline div_t muldivmod(boost::uintmax_t a, boost::uintmax_t b, boost::uintmax_t
     const ::boost::uintmax_t mask = (::boost::uintmax_t(1) << bits) - 1;
     typedef ::boost::uint_t<bits>::fast digit_t;
 
-    int shift = std::numeric_limits< ::boost::uintmax_t>::digits - 1
+    // m == 0 stands for 2^64 and needs no normalization
+    int shift = (m == 0) ? 0 : std::numeric_limits< ::boost::uintmax_t>::digits - 1
         - detail::integer_log2(m);
 
     a <<= shift;
-- 
2.43.0


From 783f4bac90a5ba1c55d75ce7d2321869f7f2683e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:06 +0000
Subject: [PATCH 02/17] fix: muldivmod lost the high digit of a partial
 remainder

When the leading digits of the partial product and of the modulus are
equal, the trial quotient is the largest digit and the partial remainder
can need three digits.  The comparison then used the truncated value and
corrected a quotient that was already right.
---
 include/boost/random/detail/large_arithmetic.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/boost/random/detail/large_arithmetic.hpp b/include/boost/random/detail/large_arithmetic.hpp
index 5665e72..5524126 100644
--- a/include/boost/random/detail/large_arithmetic.hpp
+++ b/include/boost/random/detail/large_arithmetic.hpp
@@ -79,13 +79,16 @@ inline div_t muldivmod(boost::uintmax_t a, boost::uintmax_t b, boost::uintmax_t
 
         digit_t q = digit_t((product[i] == m_[1]) ? mask : temp / m_[1]);
 
-        ::boost::uintmax_t rem =
-            ((temp - ::boost::uintmax_t(q) * m_[1]) << bits) + product[i - 2];
+        ::boost::uintmax_t rem_high = temp - ::boost::uintmax_t(q) * m_[1];
+
+        ::boost::uintmax_t rem = (rem_high << bits) + product[i - 2];
 
         ::boost::uintmax_t diff = m_[0] * ::boost::uintmax_t(q);
 
+        // if rem_high does not fit in one digit, then the
+        // full remainder is larger than diff.
         int error = 0;
-        if(diff > rem) {
+        if((rem_high >> bits) == 0 && diff > rem) {
             if(diff - rem > m) {
                 error = 2;
             } else {
-- 
2.43.0


From a501fa2858cb4da8616d18e5406f4b7d312f59c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:31 +0000
Subject: [PATCH 03/17] fix: Mersenne twister jump left bits above the word
 size in the state

---
 include/boost/random/mersenne_twister.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/random/mersenne_twister.hpp b/include/boost/random/mersenne_twister.hpp
index 5fefb28..f6235a5 100644
--- a/include/boost/random/mersenne_twister.hpp
+++ b/include/boost/random/mersenne_twister.hpp
@@ -477,7 +477,7 @@ private:
                 y1 = (y1 ^ a) << UIntType(1) | UIntType(1);
             else
                 y1 = y1 << UIntType(1);
-            x[(j + 1) % n] = (y0 & upper_mask) | (y1 & lower_mask);
+            x[(j + 1) % n] = ((y0 & upper_mask) | (y1 & lower_mask)) & (max)();
             y0 = y1;
         }
         i = 0;
-- 
2.43.0


From 1f890b18a45346f77158596b108703ca02b66289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:20 +0000
Subject: [PATCH 04/17] fix: GF(2) polynomial shift-add touched the digit past
 its output

---
 include/boost/random/detail/polynomial.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/boost/random/detail/polynomial.hpp b/include/boost/random/detail/polynomial.hpp
index a8c4b26..d5aee81 100644
--- a/include/boost/random/detail/polynomial.hpp
+++ b/include/boost/random/detail/polynomial.hpp
@@ -50,7 +50,10 @@ public:
             output[i] ^= (tmp << shift) | (prev >> (bits-shift));
             prev = tmp;
         }
-        output[size] ^= (prev >> (bits-shift));
+        // output may end here if nothing is carried out of the top digit.
+        if((prev >> (bits-shift)) != 0) {
+            output[size] ^= (prev >> (bits-shift));
+        }
     }
 
     static void multiply_simple(std::size_t size, const digit_t * lhs,
-- 
2.43.0


From 6f29bcff8bef947b2145bc57e6327ce7d5b46600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:58 +0000
Subject: [PATCH 05/17] fix: subtract_with_carry discard ignored jumps shorter
 than a block

---
 include/boost/random/subtract_with_carry.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/random/subtract_with_carry.hpp b/include/boost/random/subtract_with_carry.hpp
index 6497884..4173194 100644
--- a/include/boost/random/subtract_with_carry.hpp
+++ b/include/boost/random/subtract_with_carry.hpp
@@ -69,7 +69,7 @@ struct subtract_with_carry_discard
 
         k = ((z % long_lag) + k) % long_lag;
 
-        if(k < z) {
+        if(k <= z) {
             // main loop: update full blocks from k = 0 to long_lag
             for(std::size_t i = 0; i < (z - k) / long_lag; ++i) {
                 for(std::size_t j = 0; j < short_lag; ++j) {
-- 
2.43.0


From ac87303bbc4c931f7f2f05769f31d60132bbe898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:58 +0000
Subject: [PATCH 06/17] fix: subtract_with_carry equality ignored the carry

---
 include/boost/random/subtract_with_carry.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/random/subtract_with_carry.hpp b/include/boost/random/subtract_with_carry.hpp
index 4173194..a043702 100644
--- a/include/boost/random/subtract_with_carry.hpp
+++ b/include/boost/random/subtract_with_carry.hpp
@@ -249,7 +249,7 @@ public:
         for(unsigned int j = 0; j < r; ++j)
             if(x_.compute(j) != y.compute(j))
                 return false;
-        return true;
+        return x_.carry == y.carry;
     }
 
     /**
@@ -483,7 +483,7 @@ public:
         for(unsigned int j = 0; j < r; ++j)
             if(x_.compute(j) != y.compute(j))
                 return false;
-        return true;
+        return x_.carry == y.carry;
     }
 
     /** Returns true if the two generators will produce different sequences. */
-- 
2.43.0


From 6b3f801f08057d7b20a8f597af98bef4f34324c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:59 +0000
Subject: [PATCH 07/17] fix: mixmax could return 2^61, above its max()

---
 include/boost/random/mixmax.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/random/mixmax.hpp b/include/boost/random/mixmax.hpp
index 3f09fc3..d5331d7 100644
--- a/include/boost/random/mixmax.hpp
+++ b/include/boost/random/mixmax.hpp
@@ -198,7 +198,7 @@ template <int Ndim, unsigned int SPECIALMUL, boost::int64_t SPECIAL> boost::uint
     boost::uint64_t sumtot = Y[0], ovflow = 0; // will keep a running sum of all new elements
     for (int i=1; i<Ndim; i++){
         boost::uint64_t tempPO = MULWU(tempP);
-        tempV = (tempV+tempPO);
+        tempV = modadd(tempV, tempPO);
         tempP = modadd(tempP, Y[i]);
         tempV = modadd(tempV, tempP); // new Y[i] = old Y[i] + old partial * m
         Y[i] = tempV;
-- 
2.43.0


From 78ce621ffe304789b0060d8ba2a500fefb6fe6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:59 +0000
Subject: [PATCH 08/17] fix: mixmax rejected its own written state at the end
 of a block

---
 include/boost/random/mixmax.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/random/mixmax.hpp b/include/boost/random/mixmax.hpp
index d5331d7..d7605cf 100644
--- a/include/boost/random/mixmax.hpp
+++ b/include/boost/random/mixmax.hpp
@@ -145,7 +145,7 @@ public: // SEEDING FUNCTIONS
         in >> std::ws >> vec[j] ;
         sum=me.MOD_MERSENNE(sum+vec[j]);
     }
-    if (sum == savedsum && counter>0 && counter<Ndim){
+    if (sum == savedsum && counter>0 && counter<=Ndim){
         me.S.V=vec; me.S.counter = counter; me.S.sumtot=savedsum;
     }else{
         in.setstate(std::ios::failbit);
-- 
2.43.0


From a5794f1b78b6dcd3f6e741b56b77216c227a30f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:59 +0000
Subject: [PATCH 09/17] fix: linear_feedback_shift kept bits above the word
 size

---
 include/boost/random/linear_feedback_shift.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/random/linear_feedback_shift.hpp b/include/boost/random/linear_feedback_shift.hpp
index a5c2ce7..ce35b43 100644
--- a/include/boost/random/linear_feedback_shift.hpp
+++ b/include/boost/random/linear_feedback_shift.hpp
@@ -118,7 +118,7 @@ public:
     {
         const UIntType b = (((value << q) ^ value) & wordmask()) >> (k-s);
         const UIntType mask = (wordmask() << (w-k)) & wordmask();
-        value = ((value & mask) << s) ^ b;
+        value = (((value & mask) << s) & wordmask()) ^ b;
         return value;
     }
   
-- 
2.43.0


From d99ad474fc2f463095795714688a8cb5719626a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:26 +0000
Subject: [PATCH 10/17] fix: splitmix64 extraction swallowed everything up to
 the end of the stream

---
 include/boost/random/splitmix64.hpp | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/include/boost/random/splitmix64.hpp b/include/boost/random/splitmix64.hpp
index dd89ab5..16b1e35 100644
--- a/include/boost/random/splitmix64.hpp
+++ b/include/boost/random/splitmix64.hpp
@@ -154,17 +154,7 @@ public:
     inline friend std::basic_istream<CharT,Traits>& operator>>(std::basic_istream<CharT,Traits>& ist,
                                                                splitmix64& e)
     {
-        std::string sstate;
-        CharT val;
-        while (ist >> val)
-        {
-            if (std::isdigit(val))
-            {
-                sstate.push_back(val);
-            }
-        }
-        
-        e.state_ = std::strtoull(sstate.c_str(), nullptr, 10);
+        ist >> e.state_;
 
         return ist;
     }
-- 
2.43.0


From dc2fc3d4a42c6d7c4dc185bc28a9f36f688efa0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:32 +0000
Subject: [PATCH 11/17] fix: uniform_int_distribution ignored its minimum when
 the range is a power of the engine's

---
 include/boost/random/uniform_int_distribution.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/random/uniform_int_distribution.hpp b/include/boost/random/uniform_int_distribution.hpp
index 8a3ea7b..6acff25 100644
--- a/include/boost/random/uniform_int_distribution.hpp
+++ b/include/boost/random/uniform_int_distribution.hpp
@@ -120,7 +120,7 @@ T generate_uniform_int(
           if(mult * range_type(brange) == range - mult + 1) {
               // The destination range is an integer power of
               // the generator's range.
-              return(result);
+              return random::detail::add<range_type, result_type>()(result, min_value);
           }
 
           // Postcondition: mult <= range
-- 
2.43.0


From c70886a9c1b49ac4d9a11b899123e69b20f9aa9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:34 +0000
Subject: [PATCH 12/17] fix: seed_seq::generate divided by zero for an empty
 range

---
 include/boost/random/seed_seq.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/random/seed_seq.hpp b/include/boost/random/seed_seq.hpp
index b0b1de2..60500e0 100644
--- a/include/boost/random/seed_seq.hpp
+++ b/include/boost/random/seed_seq.hpp
@@ -65,6 +65,7 @@ public:
     void generate(Iter first, Iter last) const
     {
         typedef typename std::iterator_traits<Iter>::value_type value_type;
+        if(first == last) return;
         std::fill(first, last, static_cast<value_type>(0x8b8b8b8bu));
         std::size_t s = v.size();
         std::size_t n = last - first;
-- 
2.43.0


From 99e6ce2be533746418d90509782a2238d6b2b24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:34 +0000
Subject: [PATCH 13/17] fix: seed_seq::generate let bits above 32 into wider
 words

---
 include/boost/random/seed_seq.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/random/seed_seq.hpp b/include/boost/random/seed_seq.hpp
index 60500e0..134f92f 100644
--- a/include/boost/random/seed_seq.hpp
+++ b/include/boost/random/seed_seq.hpp
@@ -87,7 +87,7 @@ public:
             value_type r2 = static_cast<value_type>(r1 +
                 ((k == 0) ? s :
                  (k <= s) ? k % n + v[k - 1] :
-                 (k % n)));
+                 (k % n))) & mask;
             *(first + (k+p)%n) = (*(first + (k+p)%n) + r1) & mask;
             *(first + (k+q)%n) = (*(first + (k+q)%n) + r2) & mask;
             *(first + k%n) = r2;
@@ -98,7 +98,7 @@ public:
                 & mask);
             r3 = r3 ^ (r3 >> 27);
             r3 = (r3 * 1566083941u) & mask;
-            value_type r4 = static_cast<value_type>(r3 - k%n);
+            value_type r4 = static_cast<value_type>(r3 - k%n) & mask;
             *(first + (k+p)%n) ^= r3;
             *(first + (k+q)%n) ^= r4;
             *(first + k%n) = r4;
-- 
2.43.0


From 9b355ef48dc041607b093c4b29ce6a35d4f51f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:10 +0000
Subject: [PATCH 14/17] fix: generate wrote one element into an empty range

---
 include/boost/random/detail/seed_impl.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/random/detail/seed_impl.hpp b/include/boost/random/detail/seed_impl.hpp
index 5e79582..dcb7cc6 100644
--- a/include/boost/random/detail/seed_impl.hpp
+++ b/include/boost/random/detail/seed_impl.hpp
@@ -85,6 +85,7 @@ template<class Engine, class Iter>
 void generate_from_real(Engine& eng, Iter begin, Iter end)
 {
     using std::fmod;
+    if(begin == end) return;
     typedef typename Engine::result_type RealType;
     const int Bits = detail::generator_bits<Engine>::value();
     int remaining_bits = 0;
@@ -131,6 +132,7 @@ void generate_from_real(Engine& eng, Iter begin, Iter end)
 template<class Engine, class Iter>
 void generate_from_int(Engine& eng, Iter begin, Iter end)
 {
+    if(begin == end) return;
     typedef typename Engine::result_type IntType;
     typedef typename boost::random::traits::make_unsigned<IntType>::type unsigned_type;
     int remaining_bits = 0;
-- 
2.43.0


From 2f457e922a306317049933138c9f93455b8e1c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:10 +0000
Subject: [PATCH 15/17] fix: qrng_base: recompute the state when operator>>
 changes the dimension

seed(n) skips the computation when the sequence count does not change, so an
engine read into one of another dimension but the same count kept zeros or
coordinates of the old dimension.
---
 include/boost/random/detail/qrng_base.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/random/detail/qrng_base.hpp b/include/boost/random/detail/qrng_base.hpp
index 5eeacfb..15614a5 100644
--- a/include/boost/random/detail/qrng_base.hpp
+++ b/include/boost/random/detail/qrng_base.hpp
@@ -159,6 +159,8 @@ public:
       {
         s.lattice.resize(dim);
         s.quasi_state.resize(dim);
+        // The state computed for the previous dimension is of no use any more
+        s.derived().seed();
       }
       // Fast-forward to the correct state
       s.derived().seed(seed);
-- 
2.43.0


From 414f78952f1728ead69732bf53ee7e3e6fb5e6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:10 +0000
Subject: [PATCH 16/17] fix: qrng_base::discard: do not wrap the number of
 vectors

For dimension 1 discard(2^64 - 1) after an odd position wrapped to a discard of
nothing instead of throwing range_error.
---
 include/boost/random/detail/qrng_base.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/boost/random/detail/qrng_base.hpp b/include/boost/random/detail/qrng_base.hpp
index 15614a5..bf301cd 100644
--- a/include/boost/random/detail/qrng_base.hpp
+++ b/include/boost/random/detail/qrng_base.hpp
@@ -111,6 +111,10 @@ public:
     boost::uintmax_t vec_n = z / dimension_value;
     std::size_t carry = curr_elem + (z % dimension_value);
 
+    // Only possible for dimension 1, and beyond the end of any sequence
+    if (vec_n > (std::numeric_limits<boost::uintmax_t>::max)() - carry / dimension_value)
+      boost::throw_exception( std::range_error("qrng_base: discard") );
+
     vec_n += carry / dimension_value;
     carry  = carry % dimension_value;
 
-- 
2.43.0


From 9ea9e993b9d30ce1fbc5d11b9c233caa3bc2cbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:39 +0000
Subject: [PATCH 17/17] fix: binomial_distribution: t + 1 overflowed for the
 largest t

---
 include/boost/random/binomial_distribution.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/random/binomial_distribution.hpp b/include/boost/random/binomial_distribution.hpp
index 78d1a12..a856c8f 100644
--- a/include/boost/random/binomial_distribution.hpp
+++ b/include/boost/random/binomial_distribution.hpp
@@ -275,13 +275,13 @@ private:
         RealType p = (0.5 < _p)? (1 - _p) : _p;
         IntType t = _t;
         
-        m = static_cast<IntType>((t+1)*p);
+        m = static_cast<IntType>((t+RealType(1))*p);
 
         if(use_inversion()) {
             _u.q_n = pow((1 - p), static_cast<RealType>(t));
         } else {
             _u.btrd.r = p/(1-p);
-            _u.btrd.nr = (t+1)*_u.btrd.r;
+            _u.btrd.nr = (t+RealType(1))*_u.btrd.r;
             _u.btrd.npq = t*p*(1-p);
             RealType sqrt_npq = sqrt(_u.btrd.npq);
             _u.btrd.b = 1.15 + 2.53 * sqrt_npq;
@@ -353,7 +353,7 @@ private:
                            + fc(m) + fc(_t - m);
 
                 IntType nk = _t - k + 1;
-                if(v <= h + (_t+1)*log(static_cast<RealType>(nm)/nk)
+                if(v <= h + (_t+RealType(1))*log(static_cast<RealType>(nm)/nk)
                           + (k + 0.5)*log(nk*_u.btrd.r/(k+1))
                           - fc(k)
                           - fc(_t - k))
@@ -371,7 +371,7 @@ private:
     {
         RealType q = 1 - p;
         RealType s = p / q;
-        RealType a = (t + 1) * s;
+        RealType a = (t + RealType(1)) * s;
         RealType r = _u.q_n;
         RealType u = uniform_01<RealType>()(urng);
         IntType x = 0;
-- 
2.43.0

