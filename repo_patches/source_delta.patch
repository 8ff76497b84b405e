From e6f3c5c47657e892878cb13bd650c0207bcd2571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:47 +0000
Subject: [PATCH 01/31] hook: E_FLOAT_SIM_DIGITS10 selects the precision of
 simulation builds (off by default)

---
 libs/e_float/src/e_float/e_float_base.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/e_float/e_float_base.h b/libs/e_float/src/e_float/e_float_base.h
index 6f5aea2..d599d97 100644
--- a/libs/e_float/src/e_float/e_float_base.h
+++ b/libs/e_float/src/e_float/e_float_base.h
@@ -25,7 +25,10 @@
   #define E_FLOAT_TEST_REAL_IMAG_TESTS
   #endif
 
-  #if defined(E_FLOAT_TEST_PI_ALGOS_TESTS)
+  #if defined(E_FLOAT_SIM_DIGITS10)
+  // Used by simulation builds only (off by default): the precision is set on the compiler command line.
+  #define E_FLOAT_DIGITS10 E_FLOAT_SIM_DIGITS10
+  #elif defined(E_FLOAT_TEST_PI_ALGOS_TESTS)
   #define E_FLOAT_DIGITS10 1000001
   #elif defined(E_FLOAT_TEST_REAL_IMAG_TESTS)
   #define E_FLOAT_DIGITS10 101
-- 
2.43.0


From 5d6ddc17f711ca55e454ba9dbf1e15f497980a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:21 +0000
Subject: [PATCH 02/31] fix: util_function.h names a class that does not exist,
 so the solver headers do not compile

Util::Function derived from Util::noncopyable; the class is util::noncopyable.
---
 libs/e_float/src/utility/util_function.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/e_float/src/utility/util_function.h b/libs/e_float/src/utility/util_function.h
index 879c237..12245b1 100644
--- a/libs/e_float/src/utility/util_function.h
+++ b/libs/e_float/src/utility/util_function.h
@@ -16,7 +16,7 @@
   namespace Util
   {
     template<typename T>
-    class Function : private noncopyable
+    class Function : private util::noncopyable
     {
     public:
       virtual ~Function() { }
-- 
2.43.0


From 70a1f5b7a8cb3a5014e286d7640b0d43d854a3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:09 +0000
Subject: [PATCH 03/31] fix: x -= x returned 2*x in the EFX and GMP back-ends

operator-= negates *this before adding the right-hand side, which negates
the right-hand side too when both are the same object.
---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 8 +++++++-
 libs/e_float/src/e_float/gmp/e_float_gmp.cpp | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index 39c99a3..2822ed6 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -659,7 +659,13 @@ efx::e_float& efx::e_float::operator+=(const e_float& v)
 
 efx::e_float& efx::e_float::operator-=(const e_float& v)
 {
-  // Use *this - v = -(-*this + v).
+  // Use *this - v = -(-*this + v). Negating *this would also
+  // negate v if both are the same object.
+  if(this == &v)
+  {
+    return operator-=(e_float(v));
+  }
+
   return (negate().operator+=(v)).negate();
 }
 
diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
index cb9d9ab..5fcbe40 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
@@ -264,7 +264,13 @@ gmp::e_float& gmp::e_float::operator+=(const e_float& v)
 
 gmp::e_float& gmp::e_float::operator-=(const e_float& v)
 {
-  // Use *this - v = -(-*this + v).
+  // Use *this - v = -(-*this + v). Negating *this would also
+  // negate v if both are the same object.
+  if(this == &v)
+  {
+    return operator-=(e_float(v));
+  }
+
   return (negate().operator+=(v)).negate();
 }
 
-- 
2.43.0


From ffb5f8f5f65d2d08c2648329760191130f47b3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:09 +0000
Subject: [PATCH 04/31] fix: EFX division of a negative number by its equal had
 the wrong sign

The sign of *this was read after *this had been overwritten with one, so that
(-3) / (-3) was -1 and (-3) / 3 was +1, and x /= x differed from x /= copy of x.
---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index 2822ed6..0a491fc 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -802,9 +802,11 @@ efx::e_float& efx::e_float::operator/=(const e_float& v)
 
   if(u_and_v_are_finite_and_identical)
   {
+    const bool b_result_is_neg = (my_neg != v.my_neg);
+
     *this = ef::one();
 
-    if(my_neg != v.my_neg)
+    if(b_result_is_neg)
     {
       negate();
     }
-- 
2.43.0


From 413795f0564b161e4f32d5861767acf925e1148c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:09 +0000
Subject: [PATCH 05/31] fix: assigning to a moved-from EFX number left it
 without limbs

dynamic_array's copy assignment copied min(own size, other size) elements, so
nothing after a move; its move assignment freed its own elements on self-move.
---
 libs/e_float/src/utility/util_dynamic_array.h | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/libs/e_float/src/utility/util_dynamic_array.h b/libs/e_float/src/utility/util_dynamic_array.h
index d52a331..f2cfdfe 100644
--- a/libs/e_float/src/utility/util_dynamic_array.h
+++ b/libs/e_float/src/utility/util_dynamic_array.h
@@ -136,9 +136,17 @@
       {
         if(this != &other)
         {
-          std::copy(other.elems,
-                    other.elems + (std::min)(elem_count, other.elem_count),
-                    elems);
+          if(elem_count != other.elem_count)
+          {
+            // The sizes differ, for instance because *this has been moved from.
+            dynamic_array tmp(other);
+
+            swap(tmp);
+          }
+          else
+          {
+            std::copy(other.elems, other.elems + elem_count, elems);
+          }
         }
 
         return *this;
@@ -147,6 +155,11 @@
       // Move assignment operator.
       dynamic_array& operator=(dynamic_array&& other)
       {
+        if(this == &other)
+        {
+          return *this;
+        }
+
         // Destroy the elements and deallocate the range.
         pointer p = elems;
 
-- 
2.43.0


From 11c4839b3814cc2adefbc727c3e279fc1496214f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:35 +0000
Subject: [PATCH 06/31] fix: bernoulli_table(bn, 0) wrote past the end of its
 vectors

---
 libs/e_float/src/functions/integer/bernoulli_b.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libs/e_float/src/functions/integer/bernoulli_b.cpp b/libs/e_float/src/functions/integer/bernoulli_b.cpp
index babc2a0..1737947 100644
--- a/libs/e_float/src/functions/integer/bernoulli_b.cpp
+++ b/libs/e_float/src/functions/integer/bernoulli_b.cpp
@@ -73,6 +73,13 @@ void ef::bernoulli_table(std::vector<e_float>& bn, const std::uint32_t n)
   // Also see "Modern Computer Arithmetic", Richard P. Brent and Paul Zimmermann,
   // Cambridge University Press, 2010, 237 pp.
 
+  if(n == static_cast<std::uint32_t>(0U))
+  {
+    bn.assign(static_cast<std::vector<e_float>::size_type>(1U), ef::one());
+
+    return;
+  }
+
   const std::uint32_t nn = (((n % static_cast<std::uint32_t>(2)) != static_cast<std::uint32_t>(0U)) ? static_cast<std::uint32_t>(n + 1U) : n);
 
   const std::int32_t m = static_cast<std::int32_t>(nn / static_cast<std::uint32_t>(2U));
-- 
2.43.0


From 2e920565b2d2bcb247ad0332423e1ccda5f214d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:29 +0000
Subject: [PATCH 07/31] fix: the table of integer logarithms used by zeta was
 filled without synchronisation

Two threads evaluating zeta corrupted the static std::map.
---
 .../src/utility/util_power_j_pow_x.cpp        | 31 +++++++++++++------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/libs/e_float/src/utility/util_power_j_pow_x.cpp b/libs/e_float/src/utility/util_power_j_pow_x.cpp
index c77826b..c4df81c 100644
--- a/libs/e_float/src/utility/util_power_j_pow_x.cpp
+++ b/libs/e_float/src/utility/util_power_j_pow_x.cpp
@@ -8,6 +8,10 @@
 // "Algorithm 910: A Portable C++ Multiple-Precision System for Special-Function Calculations",
 // in ACM TOMS, {VOL 37, ISSUE 4, (February 2011)} (C) ACM, 2011. http://doi.acm.org/10.1145/1916461.1916469
 
+#include <map>
+#include <mutex>
+#include <utility>
+
 #include <e_float/e_float_functions.h>
 #include <e_float/detail/e_float_detail_pown_template.h>
 
@@ -19,22 +23,29 @@ namespace Util
 {
   static e_float logn(const std::uint32_t n)
   {
+    // The table is shared by all threads. The entries are computed
+    // outside of the lock and are never changed once inserted.
     static std::map<std::uint32_t, e_float> ln_data;
+    static std::mutex                       ln_mutex;
 
-    const std::map<std::uint32_t, e_float>::const_iterator it = ln_data.find(n);
-
-    if(it == ln_data.cend())
     {
-      const e_float ln = ef::log(e_float(n));
+      const std::lock_guard<std::mutex> lock(ln_mutex);
 
-      ln_data[n] = ln;
+      const std::map<std::uint32_t, e_float>::const_iterator it = ln_data.find(n);
 
-      return ln;
-    }
-    else
-    {
-      return it->second;
+      if(it != ln_data.cend())
+      {
+        return it->second;
+      }
     }
+
+    const e_float ln = ef::log(e_float(n));
+
+    const std::lock_guard<std::mutex> lock(ln_mutex);
+
+    ln_data.insert(std::make_pair(n, ln));
+
+    return ln;
   }
 
   template<typename T> inline T j_pow_x_template(const std::uint32_t j, const T& x, std::map<std::uint32_t, T>& n_pow_x_prime_factor_map)
-- 
2.43.0


From a9634f8090a74bf7e3871d19f18b4e70bbb7d0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:53 +0000
Subject: [PATCH 08/31] fix: the tables of primes and prime factorisations were
 filled without synchronisation

They were filled on first use behind an empty() test: two threads filled them at
the same time, and a failure while filling prime_factors_list left a non-empty
table with missing entries for good. They are now initialised like the constants.
---
 libs/e_float/src/functions/integer/prime.cpp  | 31 +++++++++++--------
 .../src/functions/integer/prime_factor.cpp    | 21 ++++++++-----
 libs/e_float/src/functions/zeta/zeta.cpp      | 13 ++++----
 3 files changed, 39 insertions(+), 26 deletions(-)

diff --git a/libs/e_float/src/functions/integer/prime.cpp b/libs/e_float/src/functions/integer/prime.cpp
index 8469b58..d006410 100644
--- a/libs/e_float/src/functions/integer/prime.cpp
+++ b/libs/e_float/src/functions/integer/prime.cpp
@@ -95,20 +95,25 @@ namespace Primes
   std::deque<std::uint32_t>& Data()
   {
     // Create a static data table of primes and return a reference to it.
-    static std::deque<std::uint32_t> primes;
+    // The table is complete as soon as it is visible, also if several
+    // threads use it or if a previous attempt to create it has failed.
+    static std::deque<std::uint32_t> primes =
+      []() -> std::deque<std::uint32_t>
+      {
+        // Select a maximum count of prime numbers to be stored
+        // in the data table. This number is selected such that
+        // the value of the highest prime will slightly exceed
+        // 0x10000 (decimal 65,536). This number is significant
+        // because it is the maximum value which needs to be tested
+        // while computing the prime factors of unsigned 32-bit integers,
+        // as done in the subroutine Factors(...).
 
-    if(primes.empty())
-    {
-      // Select a maximum count of prime numbers to be stored
-      // in the data table. This number is selected such that
-      // the value of the highest prime will slightly exceed
-      // 0x10000 (decimal 65,536). This number is significant
-      // because it is the maximum value which needs to be tested
-      // while computing the prime factors of unsigned 32-bit integers,
-      // as done in the subroutine Factors(...).
-
-      Primes::Generator(static_cast<std::uint32_t>(6550U), primes);
-    }
+        std::deque<std::uint32_t> primes_data;
+
+        Primes::Generator(static_cast<std::uint32_t>(6550U), primes_data);
+
+        return primes_data;
+      }();
 
     return primes;
   }
diff --git a/libs/e_float/src/functions/integer/prime_factor.cpp b/libs/e_float/src/functions/integer/prime_factor.cpp
index 5072e60..95811c7 100644
--- a/libs/e_float/src/functions/integer/prime_factor.cpp
+++ b/libs/e_float/src/functions/integer/prime_factor.cpp
@@ -77,16 +77,13 @@ namespace Primes
   }
 }
 
-void ef::prime_factors(const std::uint32_t n, std::deque<Util::point<std::uint32_t>>& pf)
+namespace Primes
 {
-  // Factor the input integer into a list of primes. For small inputs less than 10,000
-  // use the tabulated prime factors list. Calculate the prime factors for larger inputs
-  // above 10,000.
-  static std::vector<std::deque<Util::point<std::uint32_t>>> prime_factors_list;
-
-  if(prime_factors_list.empty())
+  static std::vector<std::deque<Util::point<std::uint32_t>>> FactorsList()
   {
     // Generate a table of the sets of the first 10,000 integer prime factorizations.
+    std::vector<std::deque<Util::point<std::uint32_t>>> prime_factors_list;
+
     prime_factors_list.resize(static_cast<std::size_t>(10000U));
 
     prime_factors_list[static_cast<std::size_t>(0U)] = std::deque<Util::point<std::uint32_t>>(static_cast<std::size_t>(1U), Util::point<std::uint32_t>(static_cast<std::uint32_t>(0U), static_cast<std::uint32_t>(1U)));
@@ -117,7 +114,17 @@ void ef::prime_factors(const std::uint32_t n, std::deque<Util::point<std::uint32
         Primes::Factors(static_cast<std::uint32_t>(i), prime_factors_list[i]);
       }
     }
+
+    return prime_factors_list;
   }
+}
+
+void ef::prime_factors(const std::uint32_t n, std::deque<Util::point<std::uint32_t>>& pf)
+{
+  // Factor the input integer into a list of primes. For small inputs less than 10,000
+  // use the tabulated prime factors list. Calculate the prime factors for larger inputs
+  // above 10,000.
+  static const std::vector<std::deque<Util::point<std::uint32_t>>> prime_factors_list = Primes::FactorsList();
 
   if(static_cast<std::size_t>(n) < prime_factors_list.size())
   {
diff --git a/libs/e_float/src/functions/zeta/zeta.cpp b/libs/e_float/src/functions/zeta/zeta.cpp
index f7d6c72..56453de 100644
--- a/libs/e_float/src/functions/zeta/zeta.cpp
+++ b/libs/e_float/src/functions/zeta/zeta.cpp
@@ -122,14 +122,15 @@ namespace Zeta_Series
     std::map<std::uint32_t, T> n_pow_s_prime_factor_map;
 
     // Generate a list of the first 300 prime numbers.
-    static std::deque<std::uint32_t> prime_data;
+    static const std::vector<std::uint32_t> primes =
+      []() -> std::vector<std::uint32_t>
+      {
+        std::deque<std::uint32_t> prime_data;
 
-    if(prime_data.empty())
-    {
-      prime(static_cast<std::uint32_t>(300U), prime_data);
-    }
+        ef::prime(static_cast<std::uint32_t>(300U), prime_data);
 
-    static const std::vector<std::uint32_t> primes(prime_data.cbegin(), prime_data.cend());
+        return std::vector<std::uint32_t>(prime_data.cbegin(), prime_data.cend());
+      }();
 
     using std::log10;
 
-- 
2.43.0


From e7c13b93415171bfc85fb4f238c9039c42ebe95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:22 +0000
Subject: [PATCH 09/31] fix: pi at 1010 or more digits was marked as
 initialised before it was computed

A second thread used the unfinished value and froze it in its static copy, and a
failure during the computation left a wrong pi for the rest of the process.
---
 .../src/functions/constants/constants.cpp     | 87 +++++++++----------
 1 file changed, 43 insertions(+), 44 deletions(-)

diff --git a/libs/e_float/src/functions/constants/constants.cpp b/libs/e_float/src/functions/constants/constants.cpp
index fa8d737..8a2854a 100644
--- a/libs/e_float/src/functions/constants/constants.cpp
+++ b/libs/e_float/src/functions/constants/constants.cpp
@@ -100,58 +100,57 @@ const e_float& ef::pi()
   }
   else
   {
-    static bool is_initialized = false;
-    static e_float val_pi;
-
-    if(!is_initialized)
-    {
-      is_initialized = true;
+    static const e_float val =
+      []() -> e_float
+      {
+        e_float val_pi;
 
-      e_float a(1U);
-      e_float bB("0.5");
-      e_float s (bB);
-      e_float t ("0.375");
+        e_float a(1U);
+        e_float bB("0.5");
+        e_float s (bB);
+        e_float t ("0.375");
 
-      // This loop is designed for a maximum of several million
-      // decimal digits of pi. The index k should reach no higher
-      // than about 25. The decimal precision after 18 iterations
-      // is more than one million digits.
+        // This loop is designed for a maximum of several million
+        // decimal digits of pi. The index k should reach no higher
+        // than about 25. The decimal precision after 18 iterations
+        // is more than one million digits.
 
-      for(std::int32_t k = static_cast<std::int32_t>(1); k < static_cast<std::int32_t>(64); k++)
-      {
-        bB      = ef::sqrt(bB);
-        a      += bB;
-        a      /= static_cast<std::int32_t>(2);
-        val_pi  = a;
-        val_pi *= a;
-        bB      = val_pi;
-        bB     -= t;
-        bB     *= static_cast<std::int32_t>(2);
-
-        e_float iterate_term(bB);
-        iterate_term -= val_pi;
-        iterate_term *= static_cast<std::int32_t>(1UL << k);
-        s += iterate_term;
-
-        const std::int32_t d10 = static_cast<std::int32_t>(-iterate_term.order());
-
-        // Test the significant digits of the last iteration change.
-        // If it is large enough, then the calculation is finished.
-        if(d10 >= static_cast<std::int32_t>((ef::tolerance() / 2) + 10))
+        for(std::int32_t k = static_cast<std::int32_t>(1); k < static_cast<std::int32_t>(64); k++)
         {
-          break;
+          bB      = ef::sqrt(bB);
+          a      += bB;
+          a      /= static_cast<std::int32_t>(2);
+          val_pi  = a;
+          val_pi *= a;
+          bB      = val_pi;
+          bB     -= t;
+          bB     *= static_cast<std::int32_t>(2);
+
+          e_float iterate_term(bB);
+          iterate_term -= val_pi;
+          iterate_term *= static_cast<std::int32_t>(1UL << k);
+          s += iterate_term;
+
+          const std::int32_t d10 = static_cast<std::int32_t>(-iterate_term.order());
+
+          // Test the significant digits of the last iteration change.
+          // If it is large enough, then the calculation is finished.
+          if(d10 >= static_cast<std::int32_t>((ef::tolerance() / 2) + 10))
+          {
+            break;
+          }
+
+          t   = val_pi;
+          t  += bB;
+          t  /= static_cast<std::int32_t>(4);
         }
 
-        t   = val_pi;
-        t  += bB;
-        t  /= static_cast<std::int32_t>(4);
-      }
+        val_pi += bB;
+        val_pi *= s.calculate_inv();
 
-      val_pi += bB;
-      val_pi *= s.calculate_inv();
-    }
+        return val_pi;
+      }();
 
-    static const e_float val(val_pi);
     return val;
   }
 }
-- 
2.43.0


From 528beecf705b3bfd9355edd084905fc3a2cf0eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:29 +0000
Subject: [PATCH 10/31] fix: GMP numbers depended on the default precision of
 the program, wrote past reduced limbs on assignment and leaked on re-reading

---
 libs/e_float/src/e_float/gmp/e_float_gmp.cpp  | 86 +++++++++----------
 libs/e_float/src/e_float/gmp/e_float_gmp.h    | 44 +++-------
 .../src/e_float/gmp/e_float_gmp_protos.h      |  6 ++
 3 files changed, 61 insertions(+), 75 deletions(-)

diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
index 5fcbe40..9311abc 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
@@ -42,31 +42,34 @@ const std::int64_t& gmp::e_float::min_exp2()
   return val_min_exp2;
 }
 
-gmp::e_float::e_float(const char* const s) : my_rop      (),
-                                             my_fpclass  (ef_finite),
-                                             my_prec_elem(ef_max_digits10)
+unsigned long gmp::e_float::prec_elem_bits(const std::int32_t prec_elem)
 {
-  init();
+  // Get the number of bits used by a number having prec_elem decimal digits.
+  // This can not exceed the number of bits for which limbs have been reserved.
+  if(prec_elem >= ef_max_digits10)
+  {
+    return my_default_prec;
+  }
 
-  static_cast<void>(rd_string(s));
+  const unsigned long digits2_request =
+    static_cast<unsigned long>(static_cast<std::uint64_t>(static_cast<double>(prec_elem) / local::value_log2));
+
+  return ((digits2_request < my_default_prec) ? digits2_request : my_default_prec);
 }
 
-gmp::e_float::e_float(const std::string& str) : my_rop      (),
-                                                my_fpclass  (ef_finite),
-                                                my_prec_elem(ef_max_digits10)
+gmp::e_float::e_float(const char* const s) : e_float()
 {
-  init();
+  static_cast<void>(rd_string(s));
+}
 
+gmp::e_float::e_float(const std::string& str) : e_float()
+{
   static_cast<void>(rd_string(str.c_str()));
 }
 
 gmp::e_float::e_float(const double mantissa,
-                      const std::int64_t exponent) : my_rop      (),
-                                                     my_fpclass  (ef_finite),
-                                                     my_prec_elem(ef_max_digits10)
+                      const std::int64_t exponent) : e_float()
 {
-  init();
-
   using std::fabs;
 
   const bool mantissa_is_iszero = (fabs(mantissa) < ((std::numeric_limits<double>::min)() * 2.0));
@@ -75,17 +78,11 @@ gmp::e_float::e_float(const double mantissa,
   {
     if(exponent == static_cast<std::int64_t>(0))
     {
-      ::mpf_init_set_ui(my_rop, 1U);
-    }
-    else
-    {
-      ::mpf_init_set_ui(my_rop, 0U);
+      ::mpf_set_ui(my_rop, 1U);
     }
   }
   else
   {
-    ::mpf_init_set_ui(my_rop, 0U);
-
     operator =(e_float(mantissa));
     operator*=(e_float("1E" + Util::lexical_cast(exponent)));
   }
@@ -97,14 +94,12 @@ gmp::e_float::e_float(const ::mpf_t& op) : my_rop      (),
 {
   init();
 
-  ::mpf_init_set(my_rop, op);
+  ::mpf_set(my_rop, op);
 }
 
 gmp::e_float::e_float(std::initializer_list<std::uint32_t> limb_values,
                       const std::int64_t e,
-                      const bool is_neg) : my_rop      (),
-                                           my_fpclass  (ef_finite),
-                                           my_prec_elem(ef_max_digits10)
+                      const bool is_neg) : e_float()
 {
   std::string str;
 
@@ -149,8 +144,6 @@ gmp::e_float::e_float(std::initializer_list<std::uint32_t> limb_values,
     str += "e" + strm.str();
   }
 
-  init();
-
   static_cast<void>(rd_string(str.c_str()));
 }
 
@@ -158,6 +151,9 @@ gmp::e_float::~e_float()
 {
   if(my_rop[0U]._mp_d != nullptr)
   {
+    // Restore the precision with which the limbs have been reserved.
+    ::mpf_set_prec_raw(my_rop, my_default_prec);
+
     ::mpf_clear(my_rop);
   }
 }
@@ -166,11 +162,11 @@ void gmp::e_float::from_unsigned_long_long(const unsigned long long u)
 {
   if(u <= static_cast<unsigned long long>((std::numeric_limits<unsigned long>::max)()))
   {
-    ::mpf_init_set_ui(my_rop, static_cast<unsigned long>(u));
+    ::mpf_set_ui(my_rop, static_cast<unsigned long>(u));
   }
   else
   {
-    ::mpf_init_set_str(my_rop, Util::lexical_cast(u).c_str(), 10);
+    ::mpf_set_str(my_rop, Util::lexical_cast(u).c_str(), 10);
   }
 }
 
@@ -212,19 +208,9 @@ void gmp::e_float::from_long_double(const long double l)
 
 void gmp::e_float::precision(const std::int32_t prec_digits)
 {
-  const unsigned long int digits2_request =
-    static_cast<unsigned long int>(static_cast<std::uint64_t>(static_cast<double>(prec_digits) / local::value_log2));
-
-  const unsigned long int d2              =
-    static_cast<unsigned long int>(my_default_prec);
+  my_prec_elem = ((prec_digits < ef_max_digits10) ? prec_digits : static_cast<std::int32_t>(ef_max_digits10));
 
-  const unsigned long int digits2_set     =
-    (std::min)(digits2_request, d2);
-
-  my_prec_elem =
-    static_cast<std::int32_t>(static_cast<std::int64_t>(static_cast<double>(digits2_set) * local::value_log2));
-
-  ::mpf_set_prec_raw(my_rop, digits2_set);
+  ::mpf_set_prec_raw(my_rop, prec_elem_bits(my_prec_elem));
 }
 
 gmp::e_float& gmp::e_float::operator+=(const e_float& v)
@@ -625,8 +611,8 @@ e_float& gmp::e_float::operator=(const e_float& v)
     my_fpclass   = v.my_fpclass;
     my_prec_elem = v.my_prec_elem;
 
+    ::mpf_set_prec_raw(my_rop, prec_elem_bits(my_prec_elem));
     ::mpf_set         (my_rop, v.my_rop);
-    ::mpf_set_prec_raw(my_rop, static_cast<unsigned long>(static_cast<std::uint64_t>(static_cast<double>(my_prec_elem) / local::value_log2)));
   }
 
   return *this;
@@ -638,8 +624,8 @@ e_float& gmp::e_float::operator=(e_float&& v)
   my_fpclass   = v.my_fpclass;
   my_prec_elem = v.my_prec_elem;
 
+  ::mpf_set_prec_raw(my_rop, prec_elem_bits(my_prec_elem));
   ::mpf_set         (my_rop, v.my_rop);
-  ::mpf_set_prec_raw(my_rop, static_cast<unsigned long>(static_cast<std::uint64_t>(static_cast<double>(my_prec_elem) / local::value_log2)));
 
   return *this;
 }
@@ -1047,8 +1033,18 @@ bool gmp::e_float::rd_string(const char* const s)
     str += str_exp;
   }
 
-  // Set the e_float value.
-  const std::int32_t n_set_result = static_cast<std::int32_t>(::mpf_init_set_str(my_rop, str.c_str(), 10));
+  // Set the e_float value with the full precision. A string without
+  // a number sets zero.
+  precision(ef_max_digits10);
+
+  my_fpclass = ef_finite;
+
+  const std::int32_t n_set_result = static_cast<std::int32_t>(::mpf_set_str(my_rop, str.c_str(), 10));
+
+  if(n_set_result != static_cast<std::int32_t>(0))
+  {
+    ::mpf_set_ui(my_rop, 0U);
+  }
 
   if(b_negate)
   {
diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.h b/libs/e_float/src/e_float/gmp/e_float_gmp.h
index 8189b51..8845c94 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.h
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.h
@@ -54,20 +54,14 @@
                   my_prec_elem(ef_max_digits10)
       {
         init();
-
-        ::mpf_init_set_ui(my_rop, 0U);
       }
 
       // Constructors from built-in unsigned integral types.
       template<typename UnsignedIntegralType,
                typename std::enable_if<(   std::is_integral<UnsignedIntegralType>::value
                                         && std::is_unsigned<UnsignedIntegralType>::value)>::type const* = nullptr>
-      e_float(const UnsignedIntegralType u) : my_rop      (),
-                                              my_fpclass  (ef_finite),
-                                              my_prec_elem(ef_max_digits10)
+      e_float(const UnsignedIntegralType u) : e_float()
       {
-        init();
-
         from_unsigned_long_long(u);
       }
 
@@ -75,12 +69,8 @@
       template<typename SignedIntegralType,
                typename std::enable_if<(   std::is_integral<SignedIntegralType>::value
                                         && std::is_signed  <SignedIntegralType>::value)>::type const* = nullptr>
-      e_float(const SignedIntegralType n) : my_rop      (),
-                                            my_fpclass  (ef_finite),
-                                            my_prec_elem(ef_max_digits10)
+      e_float(const SignedIntegralType n) : e_float()
       {
-        init();
-
         const bool is_neg = (n < SignedIntegralType(0));
 
         const unsigned long long u =
@@ -98,12 +88,8 @@
       // Constructors from built-in floating-point types.
       template<typename FloatingPointType,
                typename std::enable_if<std::is_floating_point<FloatingPointType>::value>::type const* = nullptr>
-      e_float(const FloatingPointType f) : my_rop      (),
-                                           my_fpclass  (ef_finite),
-                                           my_prec_elem(ef_max_digits10)
+      e_float(const FloatingPointType f) : e_float()
       {
-        init();
-
         from_long_double(static_cast<long double>(f));
       }
 
@@ -118,7 +104,8 @@
       {
         init();
 
-        ::mpf_init_set(my_rop, f.my_rop);
+        ::mpf_set_prec_raw(my_rop, prec_elem_bits(my_prec_elem));
+        ::mpf_set         (my_rop, f.my_rop);
       }
 
       // Move constructor.
@@ -128,7 +115,8 @@
       {
         init();
 
-        ::mpf_init_set(my_rop, f.my_rop);
+        ::mpf_set_prec_raw(my_rop, prec_elem_bits(my_prec_elem));
+        ::mpf_set         (my_rop, f.my_rop);
       }
 
       // Constructor from mantissa and exponent.
@@ -141,8 +129,6 @@
       {
         init();
 
-        ::mpf_init_set_ui(my_rop, 0U);
-
         my_fpclass = fpc;
       }
 
@@ -253,18 +239,16 @@
       static const std::int64_t& max_exp2();
       static const std::int64_t& min_exp2();
 
-      static void init()
+      // Reserve the limbs with the full precision and set the value to zero.
+      // Do not make use of the default precision of GMP because it is shared
+      // with the rest of the program and its other threads.
+      void init()
       {
-        static bool precision_is_initialized;
-
-        if(precision_is_initialized == false)
-        {
-          precision_is_initialized = true;
-
-          ::mpf_set_default_prec(my_default_prec);
-        }
+        ::mpf_init2(my_rop, my_default_prec);
       }
 
+      static unsigned long prec_elem_bits(const std::int32_t prec_elem);
+
       void from_unsigned_long_long(const unsigned long long u);
       void from_long_double       (const long double l);
 
diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp_protos.h b/libs/e_float/src/e_float/gmp/e_float_gmp_protos.h
index 34dc63a..9ea9d95 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp_protos.h
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp_protos.h
@@ -44,6 +44,9 @@
     void   __gmpf_set_prec        (mpf_ptr, unsigned long int);
     void   __gmpf_set_prec_raw    (mpf_ptr, unsigned long int);
     void   __gmpf_init            (mpf_ptr);
+    void   __gmpf_init2           (mpf_ptr, unsigned long int);
+    int    __gmpf_set_str         (mpf_ptr, const char*, int);
+    void   __gmpf_set_ui          (mpf_ptr, unsigned long int);
     void   __gmpf_init_set        (mpf_ptr, mpf_srcptr);
     int    __gmpf_init_set_str    (mpf_ptr, const char*, int);
     void   __gmpf_init_set_ui     (mpf_ptr, unsigned long int);
@@ -72,6 +75,9 @@
   inline void   mpf_set_default_prec(unsigned long int p)                                   {        ::__gmpf_set_default_prec   (p); }
   inline void   mpf_set_prec_raw    (mpf_ptr dst, unsigned long int p)                      {        ::__gmpf_set_prec_raw       (dst, p); }
   inline void   mpf_init            (mpf_ptr dst)                                           {        ::__gmpf_init               (dst); }
+  inline void   mpf_init2           (mpf_ptr dst, unsigned long int p)                      {        ::__gmpf_init2              (dst, p); }
+  inline int    mpf_set_str         (mpf_ptr dst, const char* str, int n)                   { return ::__gmpf_set_str            (dst, str, n); }
+  inline void   mpf_set_ui          (mpf_ptr dst, unsigned long int u)                      {        ::__gmpf_set_ui             (dst, u); }
   inline void   mpf_init_set        (mpf_ptr dst, mpf_srcptr src)                           {        ::__gmpf_init_set           (dst, src); }
   inline int    mpf_init_set_str    (mpf_ptr dst, const char* str, int n)                   { return ::__gmpf_init_set_str       (dst, str, n); }
   inline void   mpf_init_set_ui     (mpf_ptr dst, unsigned long int u)                      {        ::__gmpf_init_set_ui        (dst, u); }
-- 
2.43.0


From c5e500f594345c15ab8b344dbd8079e5c0c22c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:29 +0000
Subject: [PATCH 11/31] fix: MPFR numbers depended on the default precision of
 their thread and leaked on re-reading

---
 .../e_float/src/e_float/mpfr/e_float_mpfr.cpp | 34 ++++++++-----------
 libs/e_float/src/e_float/mpfr/e_float_mpfr.h  | 31 ++++++-----------
 .../src/e_float/mpfr/e_float_mpfr_protos.h    |  2 ++
 3 files changed, 27 insertions(+), 40 deletions(-)

diff --git a/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp b/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
index e672225..d9fd14b 100644
--- a/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
+++ b/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
@@ -29,13 +29,11 @@ namespace local
   }
 }
 
-mpfr::e_float::e_float(const char* s)          { init(); static_cast<void>(rd_string(s)); }
-mpfr::e_float::e_float(const std::string& str) { init(); static_cast<void>(rd_string(str.c_str())); }
+mpfr::e_float::e_float(const char* s)          : e_float() { static_cast<void>(rd_string(s)); }
+mpfr::e_float::e_float(const std::string& str) : e_float() { static_cast<void>(rd_string(str.c_str())); }
 
-mpfr::e_float::e_float(const double mantissa, const std::int64_t exponent)
+mpfr::e_float::e_float(const double mantissa, const std::int64_t exponent) : e_float()
 {
-  init();
-
   using std::fabs;
 
   const bool mantissa_is_iszero = (fabs(mantissa) < ((std::numeric_limits<double>::min)() * 2.0));
@@ -44,17 +42,11 @@ mpfr::e_float::e_float(const double mantissa, const std::int64_t exponent)
   {
     if(exponent == static_cast<std::int64_t>(0))
     {
-      mpfr_init_set(my_rop, (ef::one()).my_rop, GMP_RNDN);
-    }
-    else
-    {
-      mpfr_init_set(my_rop, (ef::zero()).my_rop, GMP_RNDN);
+      static_cast<void>(::mpfr_set_ui(my_rop, 1UL, GMP_RNDN));
     }
   }
   else
   {
-    mpfr_init_set(my_rop, (ef::zero()).my_rop, GMP_RNDN);
-
     operator =(e_float(mantissa));
     operator*=(e_float("1E" + Util::lexical_cast(exponent)));
   }
@@ -62,7 +54,7 @@ mpfr::e_float::e_float(const double mantissa, const std::int64_t exponent)
 
 mpfr::e_float::e_float(std::initializer_list<std::uint32_t> limb_values,
                        const std::int64_t e,
-                       const bool is_neg)
+                       const bool is_neg) : e_float()
 {
   std::string str;
 
@@ -107,8 +99,6 @@ mpfr::e_float::e_float(std::initializer_list<std::uint32_t> limb_values,
     str += "e" + strm.str();
   }
 
-  init();
-
   static_cast<void>(rd_string(str.c_str()));
 }
 
@@ -121,17 +111,17 @@ void mpfr::e_float::from_unsigned_long_long(const unsigned long long u)
 {
   if(u <= static_cast<unsigned long long>((std::numeric_limits<unsigned long>::max)()))
   {
-    mpfr_init_set_ui(my_rop, static_cast<unsigned long>(u), GMP_RNDN);
+    static_cast<void>(::mpfr_set_ui(my_rop, static_cast<unsigned long>(u), GMP_RNDN));
   }
   else
   {
-    static_cast<void>(::mpfr_init_set_str(my_rop, Util::lexical_cast(u).c_str(), 10, GMP_RNDN));
+    static_cast<void>(::mpfr_set_str(my_rop, Util::lexical_cast(u).c_str(), 10, GMP_RNDN));
   }
 }
 
 void mpfr::e_float::from_long_double(const long double l)
 {
-  mpfr_init_set_ld(my_rop, l, GMP_RNDN);
+  static_cast<void>(::mpfr_set_ld(my_rop, l, GMP_RNDN));
 }
 
 const mpfr::e_float& mpfr::e_float::my_value_nan() const
@@ -600,7 +590,13 @@ void mpfr::e_float::get_output_string(std::string& str, std::int64_t& the_exp, c
   }
 }
 
-bool mpfr::e_float::rd_string(const char* const s) { return (::mpfr_init_set_str(my_rop, s, 10, GMP_RNDN) == 1); }
+bool mpfr::e_float::rd_string(const char* const s)
+{
+  // The limbs are already reserved. A string without a number sets NaN.
+  ::mpfr_set_nan(my_rop);
+
+  return (::mpfr_set_str(my_rop, s, 10, GMP_RNDN) == 0);
+}
 
 e_float mpfr::e_float::my_own_cbrt         (const e_float& x) { e_float res; static_cast<void>(::mpfr_cbrt (res.my_rop, x.my_rop, GMP_RNDN)); return res; }
 e_float mpfr::e_float::my_own_rootn        (const e_float& x, const std::uint32_t p)
diff --git a/libs/e_float/src/e_float/mpfr/e_float_mpfr.h b/libs/e_float/src/e_float/mpfr/e_float_mpfr.h
index 907b5d5..004564e 100644
--- a/libs/e_float/src/e_float/mpfr/e_float_mpfr.h
+++ b/libs/e_float/src/e_float/mpfr/e_float_mpfr.h
@@ -38,17 +38,15 @@
       {
         init();
 
-        mpfr_init_set_ui(my_rop, 0UL, GMP_RNDN);
+        static_cast<void>(::mpfr_set_ui(my_rop, 0UL, GMP_RNDN));
       }
 
       // Constructors from built-in unsigned integral types.
       template<typename UnsignedIntegralType,
                typename std::enable_if<(   std::is_integral<UnsignedIntegralType>::value
                                         && std::is_unsigned<UnsignedIntegralType>::value)>::type const* = nullptr>
-      e_float(const UnsignedIntegralType u) : my_rop()
+      e_float(const UnsignedIntegralType u) : e_float()
       {
-        init();
-
         from_unsigned_long_long(u);
       }
 
@@ -56,7 +54,7 @@
       template<typename SignedIntegralType,
                typename std::enable_if<(   std::is_integral<SignedIntegralType>::value
                                         && std::is_signed  <SignedIntegralType>::value)>::type const* = nullptr>
-      e_float(const SignedIntegralType n) : my_rop()
+      e_float(const SignedIntegralType n) : e_float()
       {
         const bool is_neg = (n < SignedIntegralType(0));
 
@@ -64,8 +62,6 @@
           ((!is_neg) ? static_cast<unsigned long long>(n)
                      : static_cast<unsigned long long>(-static_cast<signed long long>(n)));
 
-        init();
-
         from_unsigned_long_long(u);
 
         if(is_neg)
@@ -77,10 +73,8 @@
       // Constructors from built-in floating-point types.
       template<typename FloatingPointType,
                typename std::enable_if<std::is_floating_point<FloatingPointType>::value>::type const* = nullptr>
-      e_float(const FloatingPointType f) : my_rop()
+      e_float(const FloatingPointType f) : e_float()
       {
-        init();
-
         from_long_double(static_cast<long double>(f));
       }
 
@@ -93,7 +87,7 @@
       {
         init();
 
-        mpfr_init_set(my_rop, f.my_rop, GMP_RNDN);
+        static_cast<void>(mpfr_set(my_rop, f.my_rop, GMP_RNDN));
       }
 
       // Move constructor.
@@ -101,7 +95,7 @@
       {
         init();
 
-        mpfr_init_set(my_rop, f.my_rop, GMP_RNDN);
+        static_cast<void>(mpfr_set(my_rop, f.my_rop, GMP_RNDN));
       }
 
       // Constructor from mantissa and exponent.
@@ -251,16 +245,11 @@
       static constexpr mp_prec_t my_default_prec =
         static_cast<mp_prec_t>(static_cast<mp_prec_t>(mpfr::e_float::ef_digits) + ((16 * 1000) / 301));
 
-      static void init()
+      // Reserve the limbs with the full precision. Do not make use of
+      // the default precision of MPFR because each thread has its own.
+      void init()
       {
-        static bool precision_is_initialized;
-
-        if(precision_is_initialized == false)
-        {
-          precision_is_initialized = true;
-
-          ::mpfr_set_default_prec(my_default_prec);
-        }
+        ::mpfr_init2(my_rop, my_default_prec);
       }
 
       void from_unsigned_long_long(const unsigned long long);
diff --git a/libs/e_float/src/e_float/mpfr/e_float_mpfr_protos.h b/libs/e_float/src/e_float/mpfr/e_float_mpfr_protos.h
index 1051e5b..ed0d0f8 100644
--- a/libs/e_float/src/e_float/mpfr/e_float_mpfr_protos.h
+++ b/libs/e_float/src/e_float/mpfr/e_float_mpfr_protos.h
@@ -57,12 +57,14 @@
     #define MPFR_SIGN(x) ((x)->_mpfr_sign)
 
     void mpfr_init            (mpfr_ptr);
+    void mpfr_init2           (mpfr_ptr, mpfr_prec_t);
     void mpfr_set_default_prec(mpfr_prec_t);
     void mpfr_clear           (mpfr_ptr);
 
     int mpfr_set4    (mpfr_ptr, mpfr_srcptr, mpfr_rnd_t, int);
     #define mpfr_set(x, y, rnd) mpfr_set4((x), (y), (rnd), MPFR_SIGN(y))
 
+    int  mpfr_set_str(mpfr_ptr, const char*, int, mpfr_rnd_t);
     int  mpfr_set_ui (mpfr_ptr, unsigned long, mpfr_rnd_t);
     int  mpfr_set_d  (mpfr_ptr, double,        mpfr_rnd_t);
     int  mpfr_set_ld (mpfr_ptr, long double,   mpfr_rnd_t);
-- 
2.43.0


From c86f9edd3134f99262840e648f2813095aba7aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:29 +0000
Subject: [PATCH 12/31] fix: running out of memory in an EFX default
 constructor or in numeric_limits<e_float> terminated the program

---
 libs/e_float/src/e_float/e_float.h         | 18 +++++++++---------
 libs/e_float/src/e_float/efx/e_float_efx.h | 10 +++++-----
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/libs/e_float/src/e_float/e_float.h b/libs/e_float/src/e_float/e_float.h
index fd82ff4..1dfce9e 100644
--- a/libs/e_float/src/e_float/e_float.h
+++ b/libs/e_float/src/e_float/e_float.h
@@ -73,15 +73,15 @@
       static constexpr bool                    traps             = false;
       static constexpr bool                    tinyness_before   = false;
 
-      static const e_float& (min)        () noexcept { return ef::value_min(); }
-      static const e_float& (max)        () noexcept { return ef::value_max(); }
-      static const e_float& lowest       () noexcept { return ef::zero(); }
-      static const e_float& epsilon      () noexcept { return ef::value_eps(); }
-      static const e_float& round_error  () noexcept { return ef::half(); }
-      static const e_float& infinity     () noexcept { return ef::value_inf(); }
-      static const e_float& quiet_NaN    () noexcept { return ef::value_nan(); }
-      static const e_float& signaling_NaN() noexcept { return ef::zero(); }
-      static const e_float& denorm_min   () noexcept { return ef::zero(); }
+      static const e_float& (min)        () { return ef::value_min(); }
+      static const e_float& (max)        () { return ef::value_max(); }
+      static const e_float& lowest       () { return ef::zero(); }
+      static const e_float& epsilon      () { return ef::value_eps(); }
+      static const e_float& round_error  () { return ef::half(); }
+      static const e_float& infinity     () { return ef::value_inf(); }
+      static const e_float& quiet_NaN    () { return ef::value_nan(); }
+      static const e_float& signaling_NaN() { return ef::zero(); }
+      static const e_float& denorm_min   () { return ef::zero(); }
     };
   }
 
diff --git a/libs/e_float/src/e_float/efx/e_float_efx.h b/libs/e_float/src/e_float/efx/e_float_efx.h
index 5e5d0c8..e435ac9 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.h
+++ b/libs/e_float/src/e_float/efx/e_float_efx.h
@@ -87,11 +87,11 @@
                                         std::allocator<std::uint32_t>>;
 
       // Default constructor.
-      e_float() noexcept : my_data     (),
-                           my_exp      (static_cast<std::int64_t>(0)),
-                           my_neg      (false),
-                           my_fpclass  (ef_finite),
-                           my_prec_elem(ef_elem_number) { }
+      e_float() : my_data     (),
+                  my_exp      (static_cast<std::int64_t>(0)),
+                  my_neg      (false),
+                  my_fpclass  (ef_finite),
+                  my_prec_elem(ef_elem_number) { }
 
       // Constructors from built-in unsigned integral types.
       template<typename UnsignedIntegralType,
-- 
2.43.0


From 59045e558f08494dfd331c24fcaa230b77a1cdb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:29 +0000
Subject: [PATCH 13/31] fix: EFX FFT multiplication leaked when the second
 array could not be allocated

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index 0a491fc..4b4b69a 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -238,8 +238,11 @@ void efx::e_float::mul_loop_fft(std::uint32_t* const u, const std::uint32_t* con
   n_fft <<= 1U;
 
   // Allocate dynamic memory for the FFT result arrays.
-  double* af = new double[n_fft];
-  double* bf = new double[n_fft];
+  util::dynamic_array<double> af_array(n_fft);
+  util::dynamic_array<double> bf_array(n_fft);
+
+  double* const af = af_array.data();
+  double* const bf = bf_array.data();
 
   for(std::uint32_t i = static_cast<std::uint32_t>(0U); i < static_cast<std::uint32_t>(p); ++i)
   {
@@ -341,10 +344,6 @@ void efx::e_float::mul_loop_fft(std::uint32_t* const u, const std::uint32_t* con
 
     u[(j / 2U)] = static_cast<std::uint32_t>(static_cast<std::uint32_t>(nhi * static_cast<std::uint32_t>(10000U)) + nlo);
   }
-
-  // De-allocate the dynamic memory for the FFT result arrays.
-  delete [] af;
-  delete [] bf;
 }
 
 std::uint32_t efx::e_float::mul_loop_n(std::uint32_t* const u, std::uint32_t n, const std::int32_t p)
-- 
2.43.0


From 9c532c8b0362b141d173e6d183e7b9774581b684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:29 +0000
Subject: [PATCH 14/31] fix: reading a number into an infinite or NaN EFX
 object left it infinite or NaN

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index 4b4b69a..7d08cb3 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -1815,6 +1815,9 @@ bool efx::e_float::rd_string(const char* const s)
 {
   std::string str(s);
 
+  // The result is always a finite number, whatever the previous value was.
+  my_fpclass = ef_finite;
+
   // Get a possible exponent and remove it.
   my_exp = static_cast<std::int64_t>(0);
 
-- 
2.43.0


From 8abb3622dd85da9ef32b9b97f6e551d4f1636a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:29 +0000
Subject: [PATCH 15/31] fix: a failed stream extraction overwrote the number

---
 libs/e_float/src/e_float/e_float_base.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libs/e_float/src/e_float/e_float_base.cpp b/libs/e_float/src/e_float/e_float_base.cpp
index f834a6b..83da93e 100644
--- a/libs/e_float/src/e_float/e_float_base.cpp
+++ b/libs/e_float/src/e_float/e_float_base.cpp
@@ -62,9 +62,10 @@ std::istream& operator>>(std::istream& is, e_float_base& f)
 {
   std::string str;
 
-  static_cast<void>(is >> str);
-
-  static_cast<void>(f.rd_string(str.c_str()));
+  if(is >> str)
+  {
+    static_cast<void>(f.rd_string(str.c_str()));
+  }
 
   return is;
 }
-- 
2.43.0


From 2eae843a07bf264a27f164613a95a9e28812e096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:45 +0000
Subject: [PATCH 16/31] fix: running out of memory inside an internal string
 stream was swallowed and a wrong value returned

---
 libs/e_float/src/e_float/e_float_complex.h     | 14 ++++++++++++++
 libs/e_float/src/e_float/efx/e_float_efx.cpp   |  6 ++++++
 libs/e_float/src/e_float/gmp/e_float_gmp.cpp   |  8 ++++++++
 libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp |  6 ++++++
 libs/e_float/src/utility/util_lexical_cast.h   |  3 +++
 libs/e_float/src/utility/util_numeric_cast.h   |  6 +++++-
 6 files changed, 42 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/e_float/e_float_complex.h b/libs/e_float/src/e_float/e_float_complex.h
index da6c0e0..735ad4a 100644
--- a/libs/e_float/src/e_float/e_float_complex.h
+++ b/libs/e_float/src/e_float/e_float_complex.h
@@ -980,6 +980,8 @@
           {
             std::stringstream c__my_stringstream;
 
+            c__my_stringstream.exceptions(std::ios_base::badbit);
+
             c__my_stringstream << c__my_mr[1U] << c__my_mr[2U];
             c__my_stringstream >> c__my_real_input;
           }
@@ -988,6 +990,8 @@
           {
             std::stringstream c__my_stringstream;
 
+            c__my_stringstream.exceptions(std::ios_base::badbit);
+
             c__my_stringstream << c__my_mr[3U] << c__my_mr[4U];
             c__my_stringstream >> c__my_imag_input;
           }
@@ -1016,6 +1020,8 @@
           // Extract the real part of the complex number.
           std::stringstream c__my_stringstream;
 
+          c__my_stringstream.exceptions(std::ios_base::badbit);
+
           c__my_stringstream << c__my_mr[1U] << c__my_mr[2U];
           c__my_stringstream >> c__my_real_input;
 
@@ -1049,6 +1055,8 @@
     {
       std::basic_ostringstream<char_type, traits_type> c__my_tmp_ostream;
 
+      c__my_tmp_ostream.exceptions(std::ios_base::badbit);
+
       c__my_tmp_ostream.flags    (c__my_ostream.flags());
       c__my_tmp_ostream.imbue    (c__my_ostream.getloc());
       c__my_tmp_ostream.precision(c__my_ostream.precision());
@@ -1970,6 +1978,8 @@
           // Extract the real part of the complex number.
           std::stringstream c__my_stringstream;
 
+          c__my_stringstream.exceptions(std::ios_base::badbit);
+
           c__my_stringstream << c__my_mr[1U] << c__my_mr[2U];
           c__my_stringstream >> c__my_real_input;
 
@@ -2006,6 +2016,8 @@
           // Extract the real part of the complex number.
           std::stringstream c__my_stringstream;
 
+          c__my_stringstream.exceptions(std::ios_base::badbit);
+
           c__my_stringstream << c__my_mr[1U] << c__my_mr[2U];
           c__my_stringstream >> c__my_real_input;
 
@@ -2039,6 +2051,8 @@
     {
       std::basic_ostringstream<char_type, traits_type> c__my_tmp_ostream;
 
+      c__my_tmp_ostream.exceptions(std::ios_base::badbit);
+
       c__my_tmp_ostream.flags    (c__my_ostream.flags());
       c__my_tmp_ostream.imbue    (c__my_ostream.getloc());
       c__my_tmp_ostream.precision(c__my_ostream.precision());
diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index 7d08cb3..e5c366c 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -1454,6 +1454,8 @@ double efx::e_float::extract_double() const
 
   std::stringstream ss;
 
+  ss.exceptions(std::ios::badbit);
+
   ss << std::setprecision(static_cast<std::streamsize>(std::numeric_limits<double>::digits10 + (2 + 1)))
      << std::scientific
      << *this;
@@ -1500,6 +1502,8 @@ long double efx::e_float::extract_long_double() const
 
   std::stringstream ss;
 
+  ss.exceptions(std::ios::badbit);
+
   ss << std::setprecision(static_cast<std::streamsize>(std::numeric_limits<long double>::digits10 + (2 + 1)))
      << std::scientific
      << *this;
@@ -1760,6 +1764,8 @@ void efx::e_float::get_output_string(std::string& str, std::int64_t& the_exp, co
   {
     std::stringstream ss;
 
+    ss.exceptions(std::ios::badbit);
+
     ss << std::setw(static_cast<std::streamsize>(ef_elem_digits10))
        << std::setfill(static_cast<char>('0'))
        << my_data[(typename array_type::size_type) i];
diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
index 9311abc..c0f2425 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
@@ -114,6 +114,8 @@ gmp::e_float::e_float(std::initializer_list<std::uint32_t> limb_values,
   {
     std::stringstream strm;
 
+    strm.exceptions(std::ios::badbit);
+
     strm << *it;
 
     ++it;
@@ -129,6 +131,8 @@ gmp::e_float::e_float(std::initializer_list<std::uint32_t> limb_values,
     {
       std::stringstream strm;
 
+      strm.exceptions(std::ios::badbit);
+
       strm << std::setw(8) << std::setfill('0') << *it;
 
       str += strm.str();
@@ -139,6 +143,8 @@ gmp::e_float::e_float(std::initializer_list<std::uint32_t> limb_values,
   {
     std::stringstream strm;
 
+    strm.exceptions(std::ios::badbit);
+
     strm << e;
 
     str += "e" + strm.str();
@@ -729,6 +735,8 @@ long double gmp::e_float::extract_long_double() const
 
   std::stringstream ss;
 
+  ss.exceptions(std::ios::badbit);
+
   ss << std::setprecision(static_cast<std::streamsize>(std::numeric_limits<long double>::digits10 + (2 + 1)))
      << std::scientific
      << *this;
diff --git a/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp b/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
index d9fd14b..a0f5147 100644
--- a/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
+++ b/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
@@ -69,6 +69,8 @@ mpfr::e_float::e_float(std::initializer_list<std::uint32_t> limb_values,
   {
     std::stringstream strm;
 
+    strm.exceptions(std::ios::badbit);
+
     strm << *it;
 
     ++it;
@@ -84,6 +86,8 @@ mpfr::e_float::e_float(std::initializer_list<std::uint32_t> limb_values,
     {
       std::stringstream strm;
 
+      strm.exceptions(std::ios::badbit);
+
       strm << std::setw(8) << std::setfill('0') << *it;
 
       str += strm.str();
@@ -94,6 +98,8 @@ mpfr::e_float::e_float(std::initializer_list<std::uint32_t> limb_values,
   {
     std::stringstream strm;
 
+    strm.exceptions(std::ios::badbit);
+
     strm << e;
 
     str += "e" + strm.str();
diff --git a/libs/e_float/src/utility/util_lexical_cast.h b/libs/e_float/src/utility/util_lexical_cast.h
index 6365266..02333bf 100644
--- a/libs/e_float/src/utility/util_lexical_cast.h
+++ b/libs/e_float/src/utility/util_lexical_cast.h
@@ -20,6 +20,9 @@
     {
       std::stringstream ss;
 
+      // Report running out of memory, do not swallow it.
+      ss.exceptions(std::ios::badbit);
+
       ss << t;
 
       return ss.str();
diff --git a/libs/e_float/src/utility/util_numeric_cast.h b/libs/e_float/src/utility/util_numeric_cast.h
index e4e7443..53a54fa 100644
--- a/libs/e_float/src/utility/util_numeric_cast.h
+++ b/libs/e_float/src/utility/util_numeric_cast.h
@@ -33,9 +33,13 @@
 
       std::stringstream strm;
 
+      // Report running out of memory, do not swallow it.
+      strm.exceptions(std::ios::badbit);
+
       strm << str;
 
-      value_type t;
+      value_type t { };
+
       strm >> t;
 
       return (T) t;
-- 
2.43.0


From 88e781f80def337014a866ef3d46b558dc99e60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:18 +0000
Subject: [PATCH 17/31] fix: z -= z and z /= z ignored that z was zero,
 infinite or NaN

---
 libs/e_float/src/e_float/e_float_complex.h | 24 +++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/libs/e_float/src/e_float/e_float_complex.h b/libs/e_float/src/e_float/e_float_complex.h
index 735ad4a..956b1a4 100644
--- a/libs/e_float/src/e_float/e_float_complex.h
+++ b/libs/e_float/src/e_float/e_float_complex.h
@@ -235,7 +235,7 @@
       template<typename X>
       complex& operator-=(const complex<X>& c__my_z)
       {
-        if(this == &c__my_z)
+        if((this == &c__my_z) && ((c__my_re - c__my_re) == (c__my_im - c__my_im)))
         {
           c__my_re = value_type(0);
           c__my_im = value_type(0);
@@ -271,7 +271,9 @@
       template<typename X>
       complex& operator/=(const complex<X>& c__my_z)
       {
-        if(this == &c__my_z)
+        if(   (this == &c__my_z)
+           && ((c__my_re - c__my_re) == (c__my_im - c__my_im))
+           && ((c__my_re != value_type(0)) || (c__my_im != value_type(0))))
         {
           c__my_re = value_type(1);
           c__my_im = value_type(0);
@@ -431,7 +433,9 @@
       template<typename X>
       complex& operator/=(const complex<X>& c__my_z)
       {
-        if(this == &c__my_z)
+        if(   (this == &c__my_z)
+           && ((c__my_re - c__my_re) == (c__my_im - c__my_im))
+           && ((c__my_re != 0.0F) || (c__my_im != 0.0F)))
         {
           c__my_re = 1.0F;
           c__my_im = 0.0F;
@@ -595,7 +599,9 @@
       template<typename X>
       complex& operator/=(const complex<X>& c__my_z)
       {
-        if(this == &c__my_z)
+        if(   (this == &c__my_z)
+           && ((c__my_re - c__my_re) == (c__my_im - c__my_im))
+           && ((c__my_re != 0.0) || (c__my_im != 0.0)))
         {
           c__my_re = 1.0;
           c__my_im = 0.0;
@@ -759,7 +765,9 @@
       template<typename X>
       complex& operator/=(const complex<X>& c__my_z)
       {
-        if(this == &c__my_z)
+        if(   (this == &c__my_z)
+           && ((c__my_re - c__my_re) == (c__my_im - c__my_im))
+           && ((c__my_re != 0.0L) || (c__my_im != 0.0L)))
         {
           c__my_re = 1.0L;
           c__my_im = 0.0L;
@@ -1504,7 +1512,7 @@
       template<typename X>
       complex& operator-=(const complex<X>& c__my_z)
       {
-        if(this == &c__my_z)
+        if((this == &c__my_z) && (c__my_re.isfinite() && c__my_im.isfinite()))
         {
           c__my_re = ef::zero();
           c__my_im = ef::zero();
@@ -1540,7 +1548,9 @@
       template<typename X>
       complex& operator/=(const complex<X>& c__my_z)
       {
-        if(this == &c__my_z)
+        if(   (this == &c__my_z)
+           && (c__my_re.isfinite() && c__my_im.isfinite())
+           && ((!c__my_re.iszero()) || (!c__my_im.iszero())))
         {
           c__my_re = ef::one ();
           c__my_im = ef::zero();
-- 
2.43.0


From 1b4b5212f2ecd1eac2adccf3a408c9468f712993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:35 +0000
Subject: [PATCH 18/31] fix: reading into a moved-from EFX number dereferenced
 null

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index e5c366c..5b9ed49 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -1821,8 +1821,15 @@ bool efx::e_float::rd_string(const char* const s)
 {
   std::string str(s);
 
-  // The result is always a finite number, whatever the previous value was.
-  my_fpclass = ef_finite;
+  // The result is always a finite number with the full precision, whatever
+  // the previous value was. This can also be a moved-from number without limbs.
+  if(my_data.size() != static_cast<std::size_t>(ef_elem_number))
+  {
+    my_data = array_type();
+  }
+
+  my_fpclass   = ef_finite;
+  my_prec_elem = ef_elem_number;
 
   // Get a possible exponent and remove it.
   my_exp = static_cast<std::int64_t>(0);
-- 
2.43.0


From 89ef45d9af8771d100104e7a50cf132b7d57ce19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:50 +0000
Subject: [PATCH 19/31] fix: an integration or root-finding run ended by an
 exception left success() true

---
 .../src/utility/util_find_root_newton_raphson.h        | 10 +++++++---
 libs/e_float/src/utility/util_trapezoid.h              |  2 ++
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/libs/e_float/src/utility/util_find_root_newton_raphson.h b/libs/e_float/src/utility/util_find_root_newton_raphson.h
index c0e8b54..46e1627 100644
--- a/libs/e_float/src/utility/util_find_root_newton_raphson.h
+++ b/libs/e_float/src/utility/util_find_root_newton_raphson.h
@@ -38,7 +38,9 @@
 
       virtual T my_operation() const
       {
-        FunctionOperation<T>::op_ok = true;
+        FunctionOperation<T>::op_ok = false;
+
+        bool x_is_in_range = true;
 
         T x = (FindRootBase<T>::xlo + FindRootBase<T>::xhi) / static_cast<std::int32_t>(2);
 
@@ -53,7 +55,7 @@
 
           if((FindRootBase<T>::xlo - x) * (x - FindRootBase<T>::xhi) < ef::zero())
           {
-            FunctionOperation<T>::op_ok = false;
+            x_is_in_range = false;
             break;
           }
 
@@ -65,7 +67,9 @@
           }
         }
 
-        return (FunctionOperation<T>::op_ok ? x : T(0U));
+        FunctionOperation<T>::op_ok = x_is_in_range;
+
+        return (x_is_in_range ? x : T(0U));
       }
     };
   }
diff --git a/libs/e_float/src/utility/util_trapezoid.h b/libs/e_float/src/utility/util_trapezoid.h
index 65c3461..b54d50d 100644
--- a/libs/e_float/src/utility/util_trapezoid.h
+++ b/libs/e_float/src/utility/util_trapezoid.h
@@ -38,6 +38,8 @@
     private:
       virtual T my_operation() const
       {
+        FunctionOperation<T>::op_ok = false;
+
         std::int32_t n = static_cast<std::int32_t>(1);
 
         T a = RangedFunctionOperation<T>::xlo;
-- 
2.43.0


From 9cd4f0f1b4655f1f433474ae687eef459b20c0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:26 +0000
Subject: [PATCH 20/31] fix: a complex extraction without input overwrote its
 target and its end state depended on the device's buffer

---
 libs/e_float/src/e_float/e_float_complex.h | 36 ++++++++++------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/libs/e_float/src/e_float/e_float_complex.h b/libs/e_float/src/e_float/e_float_complex.h
index 956b1a4..5855eda 100644
--- a/libs/e_float/src/e_float/e_float_complex.h
+++ b/libs/e_float/src/e_float/e_float_complex.h
@@ -941,7 +941,11 @@
 
       std::string c__my_input_str;
 
-      c__my_istream >> c__my_input_str;
+      if(!(c__my_istream >> c__my_input_str))
+      {
+        // There is nothing to extract.
+        return c__my_istream;
+      }
 
       std::match_results<std::string::const_iterator> c__my_mr;
 
@@ -1039,15 +1043,9 @@
 
       if(c__my_input_has_error)
       {
-        // Error case: Restore the characters in the input stream
-        // and set the fail bit in the input stream.
-        std::for_each(c__my_input_str.cbegin(),
-                      c__my_input_str.cend(),
-                      [&c__my_istream](const char& c__my_c)
-                      {
-                        c__my_istream.putback(c__my_c);
-                      });
-
+        // Error case: Set the fail bit in the input stream.
+        // How many characters could be put back would depend
+        // on the buffer of the input stream.
         c__my_istream.setstate(std::ios_base::failbit);
       }
       else
@@ -1942,7 +1940,11 @@
 
       std::string c__my_input_str;
 
-      c__my_istream >> c__my_input_str;
+      if(!(c__my_istream >> c__my_input_str))
+      {
+        // There is nothing to extract.
+        return c__my_istream;
+      }
 
       std::match_results<std::string::const_iterator> c__my_mr;
 
@@ -2037,15 +2039,9 @@
 
       if(c__my_input_has_error)
       {
-        // Error case: Restore the characters in the input stream
-        // and set the fail bit in the input stream.
-        std::for_each(c__my_input_str.cbegin(),
-                      c__my_input_str.cend(),
-                      [&c__my_istream](const char& c__my_c)
-                      {
-                        c__my_istream.putback(c__my_c);
-                      });
-
+        // Error case: Set the fail bit in the input stream.
+        // How many characters could be put back would depend
+        // on the buffer of the input stream.
         c__my_istream.setstate(std::ios_base::failbit);
       }
       else
-- 
2.43.0


From ea06e9527af2bddcb1f75a98a9dd99851185acf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:31 +0000
Subject: [PATCH 21/31] fix: extracting a long complex number overflowed the
 stack

---
 libs/e_float/src/e_float/e_float_complex.h | 160 +++++++++++----------
 1 file changed, 83 insertions(+), 77 deletions(-)

diff --git a/libs/e_float/src/e_float/e_float_complex.h b/libs/e_float/src/e_float/e_float_complex.h
index 5855eda..7cd1d09 100644
--- a/libs/e_float/src/e_float/e_float_complex.h
+++ b/libs/e_float/src/e_float/e_float_complex.h
@@ -16,7 +16,6 @@
   #include <cmath>
   #include <istream>
   #include <ostream>
-  #include <regex>
   #include <sstream>
   #include <string>
 
@@ -906,34 +905,79 @@
     template<typename T> bool operator!=(const complex<T>& c__my_u, const T&          c__my_v) { return ((c__my_u.real() != c__my_v)        || (c__my_u.imag() != T(0))); }
     template<typename T> bool operator!=(const T&          c__my_u, const complex<T>& c__my_v) { return ((c__my_u != c__my_v.real())        || (c__my_v.imag() != T(0))); }
 
+    namespace detail
+    {
+      // Match an (extended) complex number of any of the forms (u,v), (u) or u.
+      // The result is 1, 2 or 3, respectively, or 0 if there is no match.
+      // The mantissa and the exponent field of u are stored in parts[1] and parts[2],
+      // those of v in parts[3] and parts[4]. The text can be very long. It is
+      // scanned without recursion, the depth of which would depend on its length.
+      inline std::size_t match_complex_form(const std::string& str, std::array<std::string, 5U>& parts)
+      {
+        const auto is_digit = [](const char c) -> bool { return ((c >= '0') && (c <= '9')); };
+        const auto is_sign  = [](const char c) -> bool { return ((c == '+') || (c == '-')); };
+
+        std::string::const_iterator it = str.cbegin();
+
+        const auto scan_number =
+          [&str, &it, &is_digit, &is_sign](std::string& mantissa, std::string& exponent)
+          {
+            // Possible +-, digits 0-9, decimal point and digits 0-9.
+            std::string::const_iterator it0 = it;
+
+            if((it != str.cend()) && is_sign(*it)) { ++it; }
+
+            it = std::find_if_not(it, str.cend(), is_digit);
+            it = std::find_if_not(it, str.cend(), [](const char c) -> bool { return (c == '.'); });
+            it = std::find_if_not(it, str.cend(), is_digit);
+
+            mantissa.assign(it0, it);
+
+            // Possible exponent field.
+            it0 = it;
+
+            if((it != str.cend()) && ((*it == 'e') || (*it == 'E'))) { ++it; }
+            if((it != str.cend()) && is_sign(*it)) { ++it; }
+
+            it = std::find_if_not(it, str.cend(), is_digit);
+
+            exponent.assign(it0, it);
+          };
+
+        const bool has_open_parenthesis = ((it != str.cend()) && (*it == '('));
+
+        if(!has_open_parenthesis)
+        {
+          scan_number(parts[1U], parts[2U]);
+
+          return ((it == str.cend()) ? 3U : 0U);
+        }
+
+        ++it;
+
+        scan_number(parts[1U], parts[2U]);
+
+        const bool has_comma = ((it != str.cend()) && (*it == ','));
+
+        if(has_comma)
+        {
+          ++it;
+
+          scan_number(parts[3U], parts[4U]);
+        }
+
+        const bool has_close_parenthesis = ((it != str.cend()) && (*it == ')') && ((it + 1) == str.cend()));
+
+        return (has_close_parenthesis ? (has_comma ? 1U : 2U) : 0U);
+      }
+    }
+
     // I/O stream operators.
     template<typename T, typename char_type, typename traits_type>
     std::basic_istream<char_type, traits_type>& operator>>(std::basic_istream<char_type, traits_type>& c__my_istream, complex<T>& c__my_z)
     {
       // Parse an (extended) complex number of any of the forms u, (u) or (u,v).
 
-      const std::array<std::regex, 3U> c__my_regexes =
-      {{
-        // A regular expression for an (extended) complex number of the form (u,v).
-        std::regex(  std::string("\\({1}")                             // One open parentheses.
-                   + std::string("([\\+\\-]{0,1}[0-9]*\\.*[0-9]*)")    // Possible +-, decimal point and digits 0-9.
-                   + std::string("([eE]{0,1}[\\+\\-]{0,1}[0-9]*)")     // Possible exponent field.
-                   + std::string("\\,{1}")                             // One comma character.
-                   + std::string("([\\+\\-]{0,1}[0-9]*\\.*[0-9]*)")    // Possible +-, decimal point and digits 0-9.
-                   + std::string("([eE]{0,1}[\\+\\-]{0,1}[0-9]*)")     // Possible exponent field.
-                   + std::string("\\){1}")),                           // One close parentheses.
-
-        // A regular expression for an (extended) complex number of the form (u).
-        std::regex(  std::string("\\({1}")                             // One open parentheses.
-                   + std::string("([\\+\\-]{0,1}[0-9]*\\.*[0-9]*)")    // Possible +-, decimal point and digits 0-9.
-                   + std::string("([eE]{0,1}[\\+\\-]{0,1}[0-9]*)")     // Possible exponent field.
-                   + std::string("\\){1}")),                           // One close parentheses.
-
-        // A regular expression for an (extended) complex number of the form u.
-        std::regex(  std::string("([\\+\\-]{0,1}[0-9]*\\.*[0-9]*)")    // Possible +-, decimal point and digits 0-9.
-                   + std::string("([eE]{0,1}[\\+\\-]{0,1}[0-9]*)"))    // Possible exponent field.
-      }};
-
       T c__my_real_input(0U);
       T c__my_imag_input(0U);
 
@@ -947,26 +991,20 @@
         return c__my_istream;
       }
 
-      std::match_results<std::string::const_iterator> c__my_mr;
+      std::array<std::string, 5U> c__my_mr;
 
-      auto c__my_it_regex_match =
-        std::find_if(c__my_regexes.cbegin(),
-                     c__my_regexes.cend(),
-                     [&c__my_input_str, &c__my_mr](const std::regex& c__my_rx) -> bool
-                     {
-                       return std::regex_match(c__my_input_str, c__my_mr, c__my_rx);
-                     });
+      const std::size_t c__my_form = detail::match_complex_form(c__my_input_str, c__my_mr);
 
-      if(c__my_it_regex_match == c__my_regexes.cend())
+      if(c__my_form == 0U)
       {
-        // The input does not match any of the regular expressions.
+        // The input does not match any of the forms.
         // Set the error flag and take no other action.
 
         c__my_input_has_error = true;
       }
-      else if(c__my_it_regex_match == c__my_regexes.cbegin())
+      else if(c__my_form == 1U)
       {
-        // The input matches __the_regexes[0U], corresponding to the form (u,v).
+        // The input has the form (u,v).
         // This represents a complex number real and imaginary parts.
 
         // Rule out erroneous match of invalid mantissa or exponent parts.
@@ -1009,11 +1047,9 @@
           }
         }
       }
-      else if(   (c__my_it_regex_match == (c__my_regexes.cbegin() + 1U))
-              || (c__my_it_regex_match == (c__my_regexes.cbegin() + 2U)))
+      else
       {
-        // The input matches the_regexes[1U] or the_regexes[2U],
-        // corresponding to either of the forms (u) or u.
+        // The input has either of the forms (u) or u.
         // This represents a pure real complex number.
 
         // Rule out erroneous match of invalid mantissa or exponent parts.
@@ -1911,28 +1947,6 @@
     {
       // Parse an (extended) complex number of any of the forms u, (u) or (u,v).
 
-      const std::array<std::regex, 3U> c__my_regexes =
-      {{
-        // A regular expression for an (extended) complex number of the form (u,v).
-        std::regex(  std::string("\\({1}")                             // One open parentheses.
-                    + std::string("([\\+\\-]{0,1}[0-9]*\\.*[0-9]*)")    // Possible +-, decimal point and digits 0-9.
-                    + std::string("([eE]{0,1}[\\+\\-]{0,1}[0-9]*)")     // Possible exponent field.
-                    + std::string("\\,{1}")                             // One comma character.
-                    + std::string("([\\+\\-]{0,1}[0-9]*\\.*[0-9]*)")    // Possible +-, decimal point and digits 0-9.
-                    + std::string("([eE]{0,1}[\\+\\-]{0,1}[0-9]*)")     // Possible exponent field.
-                    + std::string("\\){1}")),                           // One close parentheses.
-
-        // A regular expression for an (extended) complex number of the form (u).
-        std::regex(  std::string("\\({1}")                             // One open parentheses.
-                    + std::string("([\\+\\-]{0,1}[0-9]*\\.*[0-9]*)")    // Possible +-, decimal point and digits 0-9.
-                    + std::string("([eE]{0,1}[\\+\\-]{0,1}[0-9]*)")     // Possible exponent field.
-                    + std::string("\\){1}")),                           // One close parentheses.
-
-        // A regular expression for an (extended) complex number of the form u.
-        std::regex(  std::string("([\\+\\-]{0,1}[0-9]*\\.*[0-9]*)")    // Possible +-, decimal point and digits 0-9.
-                    + std::string("([eE]{0,1}[\\+\\-]{0,1}[0-9]*)"))    // Possible exponent field.
-      }};
-
       e_float c__my_real_input(0U);
       e_float c__my_imag_input(0U);
 
@@ -1946,26 +1960,20 @@
         return c__my_istream;
       }
 
-      std::match_results<std::string::const_iterator> c__my_mr;
+      std::array<std::string, 5U> c__my_mr;
 
-      auto c__my_it_regex_match =
-        std::find_if(c__my_regexes.cbegin(),
-                     c__my_regexes.cend(),
-                     [&c__my_input_str, &c__my_mr](const std::regex& c__my_rx) -> bool
-                     {
-                       return std::regex_match(c__my_input_str, c__my_mr, c__my_rx);
-                     });
+      const std::size_t c__my_form = detail::match_complex_form(c__my_input_str, c__my_mr);
 
-      if(c__my_it_regex_match == c__my_regexes.cend())
+      if(c__my_form == 0U)
       {
-        // The input does not match any of the regular expressions.
+        // The input does not match any of the forms.
         // Set the error flag and take no other action.
 
         c__my_input_has_error = true;
       }
-      else if(c__my_it_regex_match == c__my_regexes.cbegin())
+      else if(c__my_form == 1U)
       {
-        // The input matches __the_regexes[0U], corresponding to the form (u,v).
+        // The input has the form (u,v).
         // This represents a complex number real and imaginary parts.
 
         // Rule out erroneous match of invalid mantissa or exponent parts.
@@ -2004,11 +2012,9 @@
           c__my_stringstream >> c__my_imag_input;
         }
       }
-      else if(   (c__my_it_regex_match == (c__my_regexes.cbegin() + 1U))
-              || (c__my_it_regex_match == (c__my_regexes.cbegin() + 2U)))
+      else
       {
-        // The input matches the_regexes[1U] or the_regexes[2U],
-        // corresponding to either of the forms (u) or u.
+        // The input has either of the forms (u) or u.
         // This represents a complex number having only
         // a pure real part.
 
-- 
2.43.0


From 930b90583e1f4e976bd1d33511ee41e8e6a62bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:37 +0000
Subject: [PATCH 22/31] fix: reading a number with an out-of-range exponent
 crashed or gave a wrong number with GMP

---
 libs/e_float/src/e_float/gmp/e_float_gmp.cpp | 83 ++++++++++++++++++++
 1 file changed, 83 insertions(+)

diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
index c0f2425..a667913 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
@@ -970,6 +970,69 @@ void gmp::e_float::get_output_string(std::string& str, std::int64_t& the_exp, co
   }
 }
 
+namespace
+{
+  // Get the decimal order of the number in the string (in other words the exponent
+  // in its scientific representation) or zero if the string has no exponent.
+  std::int64_t decimal_order(const std::string& str)
+  {
+    const std::string::size_type pos_exp = str.find_first_of("eE@");
+
+    if(pos_exp == std::string::npos)
+    {
+      return static_cast<std::int64_t>(0);
+    }
+
+    std::string::size_type pos = pos_exp + static_cast<std::string::size_type>(1U);
+
+    const bool exp_is_neg = ((pos < str.length()) && (str.at(pos) == static_cast<char>('-')));
+
+    if(exp_is_neg || ((pos < str.length()) && (str.at(pos) == static_cast<char>('+'))))
+    {
+      ++pos;
+    }
+
+    // The exponent needs at least one digit. It saturates
+    // far beyond the length of any string.
+    if((pos == str.length()) || (str.find_first_of("0123456789", pos) != pos))
+    {
+      return static_cast<std::int64_t>(0);
+    }
+
+    constexpr std::int64_t exp_limit = static_cast<std::int64_t>(INT64_C(1000000000000000));
+
+    std::int64_t exp10 = static_cast<std::int64_t>(0);
+
+    for( ; (pos < str.length()) && (str.find_first_of("0123456789", pos) == pos); ++pos)
+    {
+      if(exp10 < exp_limit)
+      {
+        exp10 = (exp10 * 10) + static_cast<std::int64_t>(str.at(pos) - static_cast<char>('0'));
+      }
+    }
+
+    if(exp_is_neg)
+    {
+      exp10 = -exp10;
+    }
+
+    // Take the position of the first significant digit into account.
+    const std::string::size_type pos_point = (std::min)(str.find(static_cast<char>('.')), pos_exp);
+    const std::string::size_type pos_digit = str.find_first_of("123456789");
+
+    if(pos_digit < pos_point)
+    {
+      exp10 += static_cast<std::int64_t>((pos_point - pos_digit) - static_cast<std::string::size_type>(1U));
+    }
+    else if(pos_digit < pos_exp)
+    {
+      exp10 -= static_cast<std::int64_t>(pos_digit - pos_point);
+    }
+
+    return exp10;
+  }
+}
+
 bool gmp::e_float::rd_string(const char* const s)
 {
   std::string str(s);
@@ -1047,12 +1110,32 @@ bool gmp::e_float::rd_string(const char* const s)
 
   my_fpclass = ef_finite;
 
+  // GMP does not check the range of the exponent. Get the decimal order
+  // of the number, and read only its mantissa if this is out of range.
+  const std::int64_t exp10 = decimal_order(str);
+
+  const bool is_overflow  = (exp10 > static_cast<std::int64_t>(ef_max_exp10));
+  const bool is_underflow = (exp10 < static_cast<std::int64_t>(ef_min_exp10));
+
+  if(is_overflow || is_underflow)
+  {
+    str.erase(str.find_first_of("eE@"));
+  }
+
   const std::int32_t n_set_result = static_cast<std::int32_t>(::mpf_set_str(my_rop, str.c_str(), 10));
 
   if(n_set_result != static_cast<std::int32_t>(0))
   {
     ::mpf_set_ui(my_rop, 0U);
   }
+  else if(is_overflow && (!iszero()))
+  {
+    *this = std::numeric_limits<e_float>::infinity();
+  }
+  else if(is_underflow)
+  {
+    ::mpf_set_ui(my_rop, 0U);
+  }
 
   if(b_negate)
   {
-- 
2.43.0


From 8ae7b4411677e42c34738dc482e826d6761e4924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:16 +0000
Subject: [PATCH 23/31] fix: GMP and MPFR numbers rounded up to a power of ten
 were written with the wrong exponent

---
 libs/e_float/src/e_float/gmp/e_float_gmp.cpp  | 19 ++++++++++---------
 .../e_float/src/e_float/mpfr/e_float_mpfr.cpp | 11 ++++++-----
 2 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
index a667913..7dcb6f7 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
@@ -880,14 +880,15 @@ gmp::e_float gmp::e_float::extract_decimal_part() const
 
 std::int64_t gmp::e_float::get_order_exact() const
 {
-  // Get the order-10 of the e_float. This is done using a partial
-  // string extraction with 10 decimal digits.
+  // Get the order-10 of the e_float. This is done using a string extraction
+  // with as many digits as can be written. Fewer digits could be rounded up
+  // to the next power of ten.
 
-  // Create a format string for 10-digits and scientific notation.
-  std::string str_fmt = std::string("%.10Fe");
+  // Create a format string for all digits and scientific notation.
+  const std::string str_fmt = std::string("%.") + (Util::lexical_cast(ef_max_digits10) + "Fe");
 
-  // Get the ten digits.
-  util::dynamic_array<char> buf(64U);
+  // Get the digits.
+  util::dynamic_array<char> buf(static_cast<std::size_t>(e_float::ef_max_digits10 + 32));
 
   static_cast<void>(gmp_sprintf(buf.data(), str_fmt.c_str(), my_rop));
 
@@ -931,8 +932,6 @@ void gmp::e_float::get_output_string(std::string& str, std::int64_t& the_exp, co
   // In other words, first obtain the string in scientific notation,
   // then reduce it to raw digits (perhaps this can be improved).
 
-  static_cast<void>(the_exp);
-
   // Create a format string such as "%+.99Fe" in order to extract 100 digits
   // in scientific notation with the lowercase and noshowpos flags.
   const std::size_t the_number_of_digits_scientific = static_cast<std::size_t>((std::max)(number_of_digits, static_cast<std::size_t>(1U)) - static_cast<std::size_t>(1U));
@@ -952,11 +951,13 @@ void gmp::e_float::get_output_string(std::string& str, std::int64_t& the_exp, co
     str.erase(str.cbegin(), str.cbegin() + 1U);
   }
 
-  // Erase the exponent.
+  // Get the exponent, which includes the rounding to the number of digits, and erase it.
   const std::size_t pos_letter_e = str.rfind(static_cast<char>('e'));
 
   if(pos_letter_e != std::string::npos)
   {
+    the_exp = Util::numeric_cast<std::int64_t>(static_cast<const char*>(str.c_str() + (pos_letter_e + 1U)));
+
     str.erase(str.cbegin() + (std::string::difference_type) pos_letter_e, str.cend());
   }
 
diff --git a/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp b/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
index a0f5147..660d951 100644
--- a/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
+++ b/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
@@ -501,10 +501,11 @@ mpfr::e_float mpfr::e_float::extract_decimal_part() const
 std::int64_t mpfr::e_float::get_order_exact() const
 {
   // Get the order-10 of the e_float. This is done using a partial
-  // string extraction with 10 decimal digits.
+  // string extraction with 10 decimal digits, which are truncated
+  // because rounding could lead to the next power of ten.
 
   // Create a format string for 10-digits and scientific notation.
-  std::string str_fmt = std::string("%.10RNe");
+  std::string str_fmt = std::string("%.10RZe");
 
   // Get the ten digits.
   util::dynamic_array<char> buf(64U);
@@ -548,8 +549,6 @@ std::int64_t mpfr::e_float::get_order_fast() const
 
 void mpfr::e_float::get_output_string(std::string& str, std::int64_t& the_exp, const std::size_t number_of_digits) const
 {
-  static_cast<void>(the_exp);
-
   // Create a format string such as "%+.99RNe" in order to extract 100 digits
   // in scientific notation with the lowercase and noshowpos flags.
   const std::size_t the_number_of_digits_scientific = static_cast<std::size_t>((std::max)(number_of_digits, static_cast<std::size_t>(1U)) - static_cast<std::size_t>(1U));
@@ -578,11 +577,13 @@ void mpfr::e_float::get_output_string(std::string& str, std::int64_t& the_exp, c
     str.erase(str.cbegin(), str.cbegin() + 1U);
   }
 
-  // Erase the exponent.
+  // Get the exponent, which includes the rounding to the number of digits, and erase it.
   const std::size_t pos_letter_e = str.rfind(static_cast<char>('e'));
 
   if(pos_letter_e != std::string::npos)
   {
+    the_exp = Util::numeric_cast<std::int64_t>(static_cast<const char*>(str.c_str() + (pos_letter_e + 1U)));
+
     str.erase(str.cbegin() + (std::string::difference_type) pos_letter_e, str.cend());
   }
 
-- 
2.43.0


From 89048c8e8c13556d7261e4a4bc2135ec72a3a4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:16 +0000
Subject: [PATCH 24/31] fix: the default format lost digits of numbers less
 than a tenth

---
 libs/e_float/src/e_float/e_float_base.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/libs/e_float/src/e_float/e_float_base.cpp b/libs/e_float/src/e_float/e_float_base.cpp
index 83da93e..6a830b2 100644
--- a/libs/e_float/src/e_float/e_float_base.cpp
+++ b/libs/e_float/src/e_float/e_float_base.cpp
@@ -244,13 +244,12 @@ void e_float_base::wr_string(std::string& str, std::ostream& os) const
     }
   }
 
-  // If the float field is not set, reduce the number of digits requested
-  // from e_float such that it neither exceeds the ostream's precision
-  // nor e_float's max_digits10.
+  // If the float field is not set, the number of digits requested from e_float
+  // is the ostream's precision, not to exceed e_float's max_digits10. Leading
+  // zeros of a number less than one do not count.
   if(my_float_field == local::os_float_field_none)
   {
-    const std::size_t max_digits = (std::min)(os_precision, static_cast<std::size_t>(std::numeric_limits<e_float>::max_digits10));
-    the_number_of_digits_i_want_from_e_float = (std::min)(the_number_of_digits_i_want_from_e_float, max_digits);
+    the_number_of_digits_i_want_from_e_float = (std::min)(os_precision, static_cast<std::size_t>(std::numeric_limits<e_float>::max_digits10));
   }
 
   // Extract the rounded output string with the desired number of digits.
@@ -396,7 +395,7 @@ void local::wr_string_fixed(std::string& str,
     // The number is less than one in magnitude. Insert the decimal
     // point using "0." as well as the needed number of leading zeros.
     const std::size_t minus_exp_minus_one = static_cast<std::size_t>(-the_exp - 1);
-    const std::string str_zero_insert((std::min)(minus_exp_minus_one, os_precision), static_cast<char>('0'));
+    const std::string str_zero_insert((trim_trailing_zeros ? minus_exp_minus_one : (std::min)(minus_exp_minus_one, os_precision)), static_cast<char>('0'));
 
     const std::int64_t n_pad = static_cast<std::int64_t>(static_cast<std::int64_t>(os_precision) - static_cast<std::int64_t>(str.length() + str_zero_insert.length()));
 
-- 
2.43.0


From 36425bb961dd4ff3f8e4cdc5b94f8c8d4a949baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:00 +0000
Subject: [PATCH 25/31] fix: writing small numbers in fixed format or with
 showpoint and a low precision threw an exception

---
 libs/e_float/src/e_float/e_float_base.cpp | 35 +++++++++++++++++++----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/libs/e_float/src/e_float/e_float_base.cpp b/libs/e_float/src/e_float/e_float_base.cpp
index 6a830b2..6960a1b 100644
--- a/libs/e_float/src/e_float/e_float_base.cpp
+++ b/libs/e_float/src/e_float/e_float_base.cpp
@@ -253,7 +253,24 @@ void e_float_base::wr_string(std::string& str, std::ostream& os) const
   }
 
   // Extract the rounded output string with the desired number of digits.
-  get_output_string(str, the_exp, the_number_of_digits_i_want_from_e_float);
+  if(the_number_of_digits_i_want_from_e_float > static_cast<std::size_t>(0U))
+  {
+    get_output_string(str, the_exp, the_number_of_digits_i_want_from_e_float);
+  }
+  else
+  {
+    // The number is less than one unit of the last place of a fixed representation.
+    // It is rounded to zero or to one unit, depending on its first digit.
+    const std::int64_t exp_last_place = -static_cast<std::int64_t>(os_precision);
+
+    get_output_string(str, the_exp, max10_plus_one);
+
+    const bool round_up = (   (the_exp >= exp_last_place)
+                           || ((the_exp == (exp_last_place - 1)) && (str.at(static_cast<std::size_t>(0U)) >= static_cast<char>('5'))));
+
+    str     = (round_up ? "1" : "0");
+    the_exp = (round_up ? exp_last_place : static_cast<std::int64_t>(0));
+  }
 
   // Obtain additional format information.
   const bool my_showpoint  = ((my_flags & std::ios::showpoint)  != static_cast<std::ios::fmtflags>(0U));
@@ -498,17 +515,25 @@ void local::special_extend_string_to_precision(std::string& str, const std::size
 
       const std::size_t len_non_zero_part = static_cast<std::size_t>(str.cend() - it_non_zero);
 
-      const std::size_t u_pad = static_cast<std::size_t>(os_precision - len_non_zero_part);
+      if(len_non_zero_part < os_precision)
+      {
+        const std::size_t u_pad = static_cast<std::size_t>(os_precision - len_non_zero_part);
 
-      str.insert(str.cend(), u_pad, static_cast<char>('0'));
+        str.insert(str.cend(), u_pad, static_cast<char>('0'));
+      }
     }
   }
   else
   {
     // This is a number greater than or equal to 1 that needs zero extension.
-    const std::size_t u_pad = static_cast<std::size_t>(os_precision - static_cast<std::size_t>(str.length() - static_cast<std::size_t>(1U)));
+    const std::size_t len_digits = static_cast<std::size_t>(str.length() - static_cast<std::size_t>(1U));
+
+    if(len_digits < os_precision)
+    {
+      const std::size_t u_pad = static_cast<std::size_t>(os_precision - len_digits);
 
-    str.insert(str.cend(), u_pad, static_cast<char>('0'));
+      str.insert(str.cend(), u_pad, static_cast<char>('0'));
+    }
   }
 }
 
-- 
2.43.0


From eb17fdccb3814a5e1b3a8d4796d9dbb22a224f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:46 +0000
Subject: [PATCH 26/31] fix: reading GMP numbers near the ends of the exponent
 range gave infinity or zero

---
 libs/e_float/src/e_float/gmp/e_float_gmp.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
index 7dcb6f7..05e4424 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
@@ -1115,8 +1115,11 @@ bool gmp::e_float::rd_string(const char* const s)
   // of the number, and read only its mantissa if this is out of range.
   const std::int64_t exp10 = decimal_order(str);
 
-  const bool is_overflow  = (exp10 > static_cast<std::int64_t>(ef_max_exp10));
-  const bool is_underflow = (exp10 < static_cast<std::int64_t>(ef_min_exp10));
+  constexpr std::int64_t exp10_limit =
+    static_cast<std::int64_t>((static_cast<std::int64_t>(ef_max_exp) * INT64_C(301029995)) / INT64_C(1000000000));
+
+  const bool is_overflow  = (exp10 > exp10_limit);
+  const bool is_underflow = (exp10 < -exp10_limit);
 
   if(is_overflow || is_underflow)
   {
-- 
2.43.0


From 2ff60d4dec099d757dde50db5ff06cd1b1d370fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:45 +0000
Subject: [PATCH 27/31] fix: adding an infinity or a NaN to a finite number
 left it unchanged (EFX, GMP)

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 2 +-
 libs/e_float/src/e_float/gmp/e_float_gmp.cpp | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index 5b9ed49..6f3f080 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -428,7 +428,7 @@ efx::e_float& efx::e_float::operator+=(const e_float& v)
     return *this;
   }
 
-  if(iszero())
+  if(iszero() || (!v.isfinite()))
   {
     return operator=(v);
   }
diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
index 05e4424..f181d85 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
@@ -236,6 +236,11 @@ gmp::e_float& gmp::e_float::operator+=(const e_float& v)
     return *this;
   }
 
+  if(!v.isfinite())
+  {
+    return operator=(v);
+  }
+
   ::mpf_add(my_rop, my_rop, v.my_rop);
 
   // Check for overflow.
-- 
2.43.0


From 622d8af95c7a5c4780c5b69399f5cf1845a32942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:24 +0000
Subject: [PATCH 28/31] fix: the default format chose its notation before
 rounding, 9.99...e100 and 1e101 were written differently

---
 libs/e_float/src/e_float/e_float_base.cpp | 33 +++++++++--------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/libs/e_float/src/e_float/e_float_base.cpp b/libs/e_float/src/e_float/e_float_base.cpp
index 6960a1b..03a663f 100644
--- a/libs/e_float/src/e_float/e_float_base.cpp
+++ b/libs/e_float/src/e_float/e_float_base.cpp
@@ -187,26 +187,6 @@ void e_float_base::wr_string(std::string& str, std::ostream& os) const
 
   if     (my_float_field == local::os_float_field_scientific) { use_scientific = true; }
   else if(my_float_field == local::os_float_field_fixed)      { use_fixed      = true; }
-  else // os_float_field_none
-  {
-    // Set up the range for dynamic detection of scientific notation.
-    // If the exponent is less than -4 or larger than a precision-dependent
-    // positive bound, then scientific notation is used.
-    static const std::int64_t neg_bound_for_scientific_neg_exp = static_cast<std::int64_t>(-4);
-           const std::int64_t min_bound_for_scientific_pos_exp = (std::max)(static_cast<std::int64_t>(os_precision), static_cast<std::int64_t>(prec_default));
-           const std::int64_t pos_bound_for_scientific_pos_exp = (std::min)(static_cast<std::int64_t>(std::numeric_limits<e_float>::digits10), min_bound_for_scientific_pos_exp);
-
-    if(   (the_exp <  neg_bound_for_scientific_neg_exp)
-       || (the_exp >= pos_bound_for_scientific_pos_exp)
-      )
-    {
-      use_scientific = true;
-    }
-    else
-    {
-      use_fixed = true;
-    }
-  }
 
   // Ascertain the number of digits requested from e_float.
   std::size_t the_number_of_digits_i_want_from_e_float = static_cast<std::size_t>(0U);
@@ -272,6 +252,19 @@ void e_float_base::wr_string(std::string& str, std::ostream& os) const
     the_exp = (round_up ? exp_last_place : static_cast<std::int64_t>(0));
   }
 
+  if(my_float_field == local::os_float_field_none)
+  {
+    // Set up the range for dynamic detection of scientific notation.
+    // If the exponent (of the rounded number) is less than -4 or larger than
+    // a precision-dependent positive bound, then scientific notation is used.
+    static const std::int64_t neg_bound_for_scientific_neg_exp = static_cast<std::int64_t>(-4);
+           const std::int64_t min_bound_for_scientific_pos_exp = (std::max)(static_cast<std::int64_t>(os_precision), static_cast<std::int64_t>(prec_default));
+           const std::int64_t pos_bound_for_scientific_pos_exp = (std::min)(static_cast<std::int64_t>(std::numeric_limits<e_float>::digits10), min_bound_for_scientific_pos_exp);
+
+    use_scientific = (   (the_exp <  neg_bound_for_scientific_neg_exp)
+                      || (the_exp >= pos_bound_for_scientific_pos_exp));
+  }
+
   // Obtain additional format information.
   const bool my_showpoint  = ((my_flags & std::ios::showpoint)  != static_cast<std::ios::fmtflags>(0U));
 
-- 
2.43.0


From 7d7547221120647ec890a64ea2f97a1fbac425f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:55 +0000
Subject: [PATCH 29/31] fix: keep number conversions independent of the global
 C++ locale

With a global locale that groups digits, limbs, exponents and format
precisions were written as 12,345,678, which gave wrong values and text.
---
 libs/e_float/src/e_float/efx/e_float_efx.cpp   | 6 ++++++
 libs/e_float/src/e_float/gmp/e_float_gmp.cpp   | 8 ++++++++
 libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp | 6 ++++++
 libs/e_float/src/utility/util_lexical_cast.h   | 4 ++++
 libs/e_float/src/utility/util_numeric_cast.h   | 4 ++++
 5 files changed, 28 insertions(+)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index 6f3f080..6ac16cd 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -1456,6 +1456,8 @@ double efx::e_float::extract_double() const
 
   ss.exceptions(std::ios::badbit);
 
+  ss.imbue(std::locale::classic());
+
   ss << std::setprecision(static_cast<std::streamsize>(std::numeric_limits<double>::digits10 + (2 + 1)))
      << std::scientific
      << *this;
@@ -1504,6 +1506,8 @@ long double efx::e_float::extract_long_double() const
 
   ss.exceptions(std::ios::badbit);
 
+  ss.imbue(std::locale::classic());
+
   ss << std::setprecision(static_cast<std::streamsize>(std::numeric_limits<long double>::digits10 + (2 + 1)))
      << std::scientific
      << *this;
@@ -1766,6 +1770,8 @@ void efx::e_float::get_output_string(std::string& str, std::int64_t& the_exp, co
 
     ss.exceptions(std::ios::badbit);
 
+    ss.imbue(std::locale::classic());
+
     ss << std::setw(static_cast<std::streamsize>(ef_elem_digits10))
        << std::setfill(static_cast<char>('0'))
        << my_data[(typename array_type::size_type) i];
diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
index f181d85..2ef0042 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
@@ -116,6 +116,8 @@ gmp::e_float::e_float(std::initializer_list<std::uint32_t> limb_values,
 
     strm.exceptions(std::ios::badbit);
 
+    strm.imbue(std::locale::classic());
+
     strm << *it;
 
     ++it;
@@ -133,6 +135,8 @@ gmp::e_float::e_float(std::initializer_list<std::uint32_t> limb_values,
 
       strm.exceptions(std::ios::badbit);
 
+      strm.imbue(std::locale::classic());
+
       strm << std::setw(8) << std::setfill('0') << *it;
 
       str += strm.str();
@@ -145,6 +149,8 @@ gmp::e_float::e_float(std::initializer_list<std::uint32_t> limb_values,
 
     strm.exceptions(std::ios::badbit);
 
+    strm.imbue(std::locale::classic());
+
     strm << e;
 
     str += "e" + strm.str();
@@ -742,6 +748,8 @@ long double gmp::e_float::extract_long_double() const
 
   ss.exceptions(std::ios::badbit);
 
+  ss.imbue(std::locale::classic());
+
   ss << std::setprecision(static_cast<std::streamsize>(std::numeric_limits<long double>::digits10 + (2 + 1)))
      << std::scientific
      << *this;
diff --git a/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp b/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
index 660d951..79f112e 100644
--- a/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
+++ b/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
@@ -71,6 +71,8 @@ mpfr::e_float::e_float(std::initializer_list<std::uint32_t> limb_values,
 
     strm.exceptions(std::ios::badbit);
 
+    strm.imbue(std::locale::classic());
+
     strm << *it;
 
     ++it;
@@ -88,6 +90,8 @@ mpfr::e_float::e_float(std::initializer_list<std::uint32_t> limb_values,
 
       strm.exceptions(std::ios::badbit);
 
+      strm.imbue(std::locale::classic());
+
       strm << std::setw(8) << std::setfill('0') << *it;
 
       str += strm.str();
@@ -100,6 +104,8 @@ mpfr::e_float::e_float(std::initializer_list<std::uint32_t> limb_values,
 
     strm.exceptions(std::ios::badbit);
 
+    strm.imbue(std::locale::classic());
+
     strm << e;
 
     str += "e" + strm.str();
diff --git a/libs/e_float/src/utility/util_lexical_cast.h b/libs/e_float/src/utility/util_lexical_cast.h
index 02333bf..57e0f4a 100644
--- a/libs/e_float/src/utility/util_lexical_cast.h
+++ b/libs/e_float/src/utility/util_lexical_cast.h
@@ -11,6 +11,7 @@
 #ifndef UTIL_LEXICAL_CAST_2009_11_24_H_
   #define UTIL_LEXICAL_CAST_2009_11_24_H_
 
+  #include <locale>
   #include <sstream>
   #include <string>
 
@@ -23,6 +24,9 @@
       // Report running out of memory, do not swallow it.
       ss.exceptions(std::ios::badbit);
 
+      // Do not group digits, whatever the global locale does.
+      ss.imbue(std::locale::classic());
+
       ss << t;
 
       return ss.str();
diff --git a/libs/e_float/src/utility/util_numeric_cast.h b/libs/e_float/src/utility/util_numeric_cast.h
index 53a54fa..0176096 100644
--- a/libs/e_float/src/utility/util_numeric_cast.h
+++ b/libs/e_float/src/utility/util_numeric_cast.h
@@ -8,6 +8,7 @@
 #ifndef UTIL_NUMERIC_CAST_2009_11_24_H
   #define UTIL_NUMERIC_CAST_2009_11_24_H
 
+  #include <locale>
   #include <sstream>
   #include <string>
   #include <type_traits>
@@ -36,6 +37,9 @@
       // Report running out of memory, do not swallow it.
       strm.exceptions(std::ios::badbit);
 
+      // The string is not grouped, whatever the global locale does.
+      strm.imbue(std::locale::classic());
+
       strm << str;
 
       value_type t { };
-- 
2.43.0


From d48f9e2cf242fd9318fe51219911162eff39009c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:21 +0000
Subject: [PATCH 30/31] fix: read and write GMP and MPFR numbers independently
 of the C locale

With a decimal point other than '.' in the C locale, GMP read every number
with a decimal point as zero, and both back-ends wrote the decimal point as
one more digit.
---
 libs/e_float/src/e_float/gmp/e_float_gmp.cpp  | 83 +++++++++++++++++--
 .../e_float/src/e_float/mpfr/e_float_mpfr.cpp | 24 ++++--
 2 files changed, 89 insertions(+), 18 deletions(-)

diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
index 2ef0042..1fa41fd 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
@@ -974,14 +974,14 @@ void gmp::e_float::get_output_string(std::string& str, std::int64_t& the_exp, co
     str.erase(str.cbegin() + (std::string::difference_type) pos_letter_e, str.cend());
   }
 
-  // Erase the decimal point.
-  const std::size_t pos_decimal_point = str.rfind(static_cast<char>('.'));
-
-  if(pos_decimal_point != std::string::npos)
-  {
-    str.erase(str.cbegin() + (std::string::difference_type)  pos_decimal_point,
-              str.cbegin() + (std::string::difference_type) (pos_decimal_point + 1U));
-  }
+  // Erase the decimal point, which is the one of the C locale.
+  str.erase(std::remove_if(str.begin(),
+                           str.end(),
+                           [](const char& c) -> bool
+                           {
+                             return ((c < static_cast<char>('0')) || (c > static_cast<char>('9')));
+                           }),
+            str.end());
 }
 
 namespace
@@ -1045,6 +1045,67 @@ namespace
 
     return exp10;
   }
+
+  // Put a number such as 12.34E5 into the form 1234E3, which does not need
+  // a decimal point. Returns false if the string is not a number.
+  bool remove_decimal_point(std::string& str)
+  {
+    const std::string::size_type pos_exp = (std::min)(str.find_last_of("eE@"), str.length());
+    const std::string::size_type pos     = str.find(static_cast<char>('.'));
+
+    std::string mantissa = str.substr(static_cast<std::string::size_type>(0U), pos_exp);
+
+    if(mantissa.find_first_not_of("0123456789.-\n\v\f\r") != std::string::npos)
+    {
+      return false;
+    }
+
+    if(pos >= pos_exp)
+    {
+      return true;
+    }
+
+    // There is only one decimal point and it needs a digit on at least one side.
+    const std::string::size_type pos_digit = mantissa.find_first_of("0123456789");
+
+    if(   (pos_digit == std::string::npos)
+       || (pos_digit > pos + static_cast<std::string::size_type>(1U))
+       || (mantissa.rfind(static_cast<char>('.')) != pos))
+    {
+      return false;
+    }
+
+    std::int64_t exp10 = static_cast<std::int64_t>(0);
+
+    if(pos_exp != str.length())
+    {
+      std::stringstream ss;
+
+      ss.exceptions(std::ios::badbit);
+
+      ss.imbue(std::locale::classic());
+
+      ss << str.substr(pos_exp + static_cast<std::string::size_type>(1U));
+
+      if(!(ss >> exp10))
+      {
+        return false;
+      }
+    }
+
+    exp10 -= static_cast<std::int64_t>(std::count_if(mantissa.cbegin() + static_cast<std::string::difference_type>(pos),
+                                                     mantissa.cend(),
+                                                     [](const char& c) -> bool
+                                                     {
+                                                       return ((c >= static_cast<char>('0')) && (c <= static_cast<char>('9')));
+                                                     }));
+
+    mantissa.erase(pos, static_cast<std::string::size_type>(1U));
+
+    str = mantissa + ("E" + Util::lexical_cast(exp10));
+
+    return true;
+  }
 }
 
 bool gmp::e_float::rd_string(const char* const s)
@@ -1139,7 +1200,11 @@ bool gmp::e_float::rd_string(const char* const s)
     str.erase(str.find_first_of("eE@"));
   }
 
-  const std::int32_t n_set_result = static_cast<std::int32_t>(::mpf_set_str(my_rop, str.c_str(), 10));
+  // GMP expects the decimal point of the C locale, whichever that is.
+  const bool is_number = remove_decimal_point(str);
+
+  const std::int32_t n_set_result = (is_number ? static_cast<std::int32_t>(::mpf_set_str(my_rop, str.c_str(), 10))
+                                               : static_cast<std::int32_t>(-1));
 
   if(n_set_result != static_cast<std::int32_t>(0))
   {
diff --git a/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp b/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
index 79f112e..05bc894 100644
--- a/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
+++ b/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
@@ -593,14 +593,14 @@ void mpfr::e_float::get_output_string(std::string& str, std::int64_t& the_exp, c
     str.erase(str.cbegin() + (std::string::difference_type) pos_letter_e, str.cend());
   }
 
-  // Erase the decimal point.
-  const std::size_t pos_decimal_point = str.rfind(static_cast<char>('.'));
-
-  if(pos_decimal_point != std::string::npos)
-  {
-    str.erase(str.cbegin() + (std::string::difference_type)  pos_decimal_point,
-              str.cbegin() + (std::string::difference_type) (pos_decimal_point + 1U));
-  }
+  // Erase the decimal point, which is the one of the C locale.
+  str.erase(std::remove_if(str.begin(),
+                           str.end(),
+                           [](const char& c) -> bool
+                           {
+                             return ((c < static_cast<char>('0')) || (c > static_cast<char>('9')));
+                           }),
+            str.end());
 }
 
 bool mpfr::e_float::rd_string(const char* const s)
@@ -608,7 +608,13 @@ bool mpfr::e_float::rd_string(const char* const s)
   // The limbs are already reserved. A string without a number sets NaN.
   ::mpfr_set_nan(my_rop);
 
-  return (::mpfr_set_str(my_rop, s, 10, GMP_RNDN) == 0);
+  // MPFR also accepts the decimal point of the C locale. This can be
+  // a comma, which is not part of a number.
+  std::string str(s);
+
+  std::replace(str.begin(), str.end(), static_cast<char>(','), static_cast<char>(';'));
+
+  return (::mpfr_set_str(my_rop, str.c_str(), 10, GMP_RNDN) == 0);
 }
 
 e_float mpfr::e_float::my_own_cbrt         (const e_float& x) { e_float res; static_cast<void>(::mpfr_cbrt (res.my_rop, x.my_rop, GMP_RNDN)); return res; }
-- 
2.43.0


From 462bbef8238b3d9434284d3dd51a9d991f0b58f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:36 +0000
Subject: [PATCH 31/31] fix: EFX and GMP read the infinities and NaN which they
 write (EFX read -inf as a negative zero)

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 24 ++++++++++++++++++++
 libs/e_float/src/e_float/gmp/e_float_gmp.cpp | 16 +++++++++++++
 2 files changed, 40 insertions(+)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index 6ac16cd..78a8637 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -1867,6 +1867,22 @@ bool efx::e_float::rd_string(const char* const s)
     str.erase(pos, static_cast<std::size_t>(1U));
   }
 
+  // Get a possible infinity or NaN, as these are written to an output stream.
+  if((str == std::string("inf")) || (str == std::string("INF")))
+  {
+    *this = ((!my_neg) ?  std::numeric_limits<e_float>::infinity()
+                       : -std::numeric_limits<e_float>::infinity());
+
+    return true;
+  }
+
+  if((str == std::string("nan")) || (str == std::string("NAN")))
+  {
+    *this = std::numeric_limits<e_float>::quiet_NaN();
+
+    return true;
+  }
+
   // Remove leading zeros for all input types.
   const std::string::const_iterator fwd_it_leading_zero =
     std::find_if(str.cbegin(),
@@ -2065,6 +2081,14 @@ bool efx::e_float::rd_string(const char* const s)
     my_data[i1] = Util::numeric_cast<array_type::value_type>(str_i1);
   }
 
+  // A string without a number is zero. This has no sign.
+  if(iszero())
+  {
+    operator=(ef::zero());
+
+    return true;
+  }
+
   // Check for overflow...
   if(my_exp > std::numeric_limits<e_float>::max_exponent10)
   {
diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
index 1fa41fd..870c1a7 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
@@ -1142,6 +1142,22 @@ bool gmp::e_float::rd_string(const char* const s)
               static_cast<std::size_t>(1U));
   }
 
+  // Get a possible infinity or NaN, as these are written to an output stream.
+  if((str == std::string("inf")) || (str == std::string("INF")))
+  {
+    *this = ((!b_negate) ?  std::numeric_limits<e_float>::infinity()
+                         : -std::numeric_limits<e_float>::infinity());
+
+    return true;
+  }
+
+  if((str == std::string("nan")) || (str == std::string("NAN")))
+  {
+    *this = std::numeric_limits<e_float>::quiet_NaN();
+
+    return true;
+  }
+
   // Remove leading zeros for all input types
   while(   (!str.empty())
         &&   str.at(static_cast<std::size_t>(0U)) == static_cast<char>('0')
-- 
2.43.0

