From fb01b88a064b3fb30453721bbf73ecf816e7ffa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:17 +0000
Subject: [PATCH 01/12] fix: cancel_minus checks the validity of its second
 operand

---
 .../setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp
index c92b805..47a2c67 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp
@@ -86,7 +86,7 @@ typename mpfr_bin_ieee754_flavor<T>::representation
 mpfr_bin_ieee754_flavor<T>::cancel_minus(mpfr_bin_ieee754_flavor<T>::representation const& x,
         mpfr_bin_ieee754_flavor<T>::representation const& y)
 {
-    if (!is_valid(x) || !is_valid(x))
+    if (!is_valid(x) || !is_valid(y))
         return empty();
 
     if (x.first == -std::numeric_limits<T>::infinity()
-- 
2.43.0


From 75595463f86481487fbd79f62df8f92af757ac38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:07 +0000
Subject: [PATCH 02/12] fix: mixed-type cancel_plus negates its second operand
 exactly

---
 .../setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp   | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp
index 47a2c67..d469a91 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp
@@ -56,7 +56,8 @@ mpfr_bin_ieee754_flavor<T>::cancel_plus(mpfr_bin_ieee754_flavor<T>::representati
     static_assert(std::numeric_limits<T1>::is_iec559, "Only IEEE 754 binary compliant types are supported!");
     static_assert(std::numeric_limits<T2>::is_iec559, "Only IEEE 754 binary compliant types are supported!");
 
-    return cancel_minus(x, neg(y));
+    // negate in the type of y: error free, whereas rounding y outward to T could make the result too narrow
+    return cancel_minus(x, mpfr_bin_ieee754_flavor<T2>::neg(y));
 }
 
 template<typename T>
@@ -76,7 +77,8 @@ mpfr_bin_ieee754_flavor<T>::cancel_plus(mpfr_bin_ieee754_flavor<T>::representati
     static_assert(std::numeric_limits<T1>::is_iec559, "Only IEEE 754 binary compliant types are supported!");
     static_assert(std::numeric_limits<T2>::is_iec559, "Only IEEE 754 binary compliant types are supported!");
 
-    return cancel_minus(x, neg(y));
+    // negate in the type of y: error free, whereas rounding y outward to T could make the result too narrow
+    return cancel_minus(x, mpfr_bin_ieee754_flavor<T2>::neg(y));
 }
 
 
-- 
2.43.0


From b1d63ab58623c4e1888f978637268f412d359fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:38 +0000
Subject: [PATCH 03/12] fix: tan detects a singularity when both bounds round
 to the same number

---
 .../setbased/mpfr_bin_ieee754_flavor_elem_func_impl.hpp     | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_elem_func_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_elem_func_impl.hpp
index 14166f8..d5e18f0 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_elem_func_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_elem_func_impl.hpp
@@ -2616,7 +2616,8 @@ mpfr_bin_ieee754_flavor<T>::tan(mpfr_bin_ieee754_flavor<T>::representation const
     xl.subnormalize(mpfr_tan(xl(), xl(), MPFR_RNDD), MPFR_RNDD);
     xu.subnormalize(mpfr_tan(xu(), xu(), MPFR_RNDU), MPFR_RNDU);
 
-    if (mpfr_cmp(xl(), xu()) > 0)
+    // x contains a singularity: tan(lower) > tan(upper), both may be rounded to the same number
+    if (mpfr_cmp(xl(), xu()) > 0 || (mpfr_equal_p(xl(), xu()) && x.first < x.second))
         return entire();
 
     return representation(xl.template get<T>(MPFR_RNDD), xu.template get<T>(MPFR_RNDU));
@@ -2675,7 +2676,8 @@ mpfr_bin_ieee754_flavor<T>::tan(mpfr_bin_ieee754_flavor<T>::representation_dec c
     xl.subnormalize(mpfr_tan(xl(), xl(), MPFR_RNDD), MPFR_RNDD);
     xu.subnormalize(mpfr_tan(xu(), xu(), MPFR_RNDU), MPFR_RNDU);
 
-    if (mpfr_cmp(xl(), xu()) > 0)
+    // x contains a singularity: tan(lower) > tan(upper), both may be rounded to the same number
+    if (mpfr_cmp(xl(), xu()) > 0 || (mpfr_equal_p(xl(), xu()) && x.first.first < x.first.second))
         return representation_dec(entire(), p1788::decoration::decoration::trv);
 
     representation bare(xl.template get<T>(MPFR_RNDD), xu.template get<T>(MPFR_RNDU));
-- 
2.43.0


From 351545d63905dc94f321c971de7d7b6f84381217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:02 +0000
Subject: [PATCH 04/12] fix: mixed-type mul_rev_to_pair returns on invalid
 operands

---
 .../mpfr_bin_ieee754_flavor_mul_rev_to_pair_func_impl.hpp     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_mul_rev_to_pair_func_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_mul_rev_to_pair_func_impl.hpp
index 0b42476..fb45a75 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_mul_rev_to_pair_func_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_mul_rev_to_pair_func_impl.hpp
@@ -267,7 +267,7 @@ mpfr_bin_ieee754_flavor<T>::mul_rev_to_pair(mpfr_bin_ieee754_flavor<T>::represen
     static_assert(std::numeric_limits<T2>::is_iec559, "Only IEEE 754 binary compliant types are supported!");
 
     if (!mpfr_bin_ieee754_flavor<T1>::is_valid(b) || !mpfr_bin_ieee754_flavor<T2>::is_valid(c))
-        std::pair<representation, representation>(empty(), empty());
+        return std::pair<representation, representation>(empty(), empty());
 
     // determine max. precision
     typedef typename p1788::util::max_precision_type<T,T1,T2>::type T_MAX;
@@ -318,7 +318,7 @@ mpfr_bin_ieee754_flavor<T>::mul_rev_to_pair(mpfr_bin_ieee754_flavor<T>::represen
 
     if (!mpfr_bin_ieee754_flavor<T1>::is_valid(b) || !mpfr_bin_ieee754_flavor<T2>::is_valid(c)
             || mpfr_bin_ieee754_flavor<T1>::is_nai(b) || mpfr_bin_ieee754_flavor<T2>::is_nai(c))
-        std::pair<representation_dec, representation_dec>(nai(), nai());
+        return std::pair<representation_dec, representation_dec>(nai(), nai());
 
     // determine max. precision
     typedef typename p1788::util::max_precision_type<T,T1,T2>::type T_MAX;
-- 
2.43.0


From 3f1459c7604a642912f03805176176638c77df50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:36 +0000
Subject: [PATCH 05/12] fix: abs_rev compiles for interval types other than
 double

---
 .../infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp
index a9289fb..b8c8f9e 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp
@@ -207,7 +207,7 @@ mpfr_bin_ieee754_flavor<T>::abs_rev(mpfr_bin_ieee754_flavor<T>::representation c
     if (c.second < 0.0)
         return empty();
 
-    representation p(std::max(0.0, c.first), c.second);
+    representation p(std::max(static_cast<T>(0.0), c.first), c.second);
     representation n = neg(p);
 
     return convex_hull(intersection(p, x), intersection(n, x));
-- 
2.43.0


From f5dd37ca9f180f17e3c984c609ff862662eb1552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:36 +0000
Subject: [PATCH 06/12] fix: release the summands allocated by the reduction
 operations

Every element was allocated as an array with new mpfr_t and never deleted.
---
 p1788/reduction/reduction.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/p1788/reduction/reduction.hpp b/p1788/reduction/reduction.hpp
index a56a01e..07dda82 100644
--- a/p1788/reduction/reduction.hpp
+++ b/p1788/reduction/reduction.hpp
@@ -29,6 +29,7 @@
 
 #include <iterator>
 #include <initializer_list>
+#include <type_traits>
 
 #include "p1788/util/mpfr_var.hpp"
 
@@ -140,7 +141,10 @@ public:
     ~reduction_sum_op()
     {
         for(mpfr_ptr* b = tab_; b != tab_ + n_; ++b)
+        {
             mpfr_clear(*b);
+            delete *b;
+        }
 
         delete[] tab_;
 
@@ -180,7 +184,7 @@ inline sum(Iter begin, Iter end, rnd_mode rnd)
     reduction_sum_op<Iter> op(
         [] (Iter i, mpfr_ptr* p)
     {
-        *p = new mpfr_t;
+        *p = new std::remove_extent<mpfr_t>::type;
 
         mpfr_init2(*p, std::numeric_limits<typename std::iterator_traits<Iter>::value_type>::digits);
 
@@ -221,7 +225,7 @@ inline sum_abs(Iter begin, Iter end, rnd_mode rnd)
     reduction_sum_op<Iter> op(
         [] (Iter i, mpfr_ptr* p)
     {
-        *p = new mpfr_t;
+        *p = new std::remove_extent<mpfr_t>::type;
 
         mpfr_init2(*p, std::numeric_limits<typename std::iterator_traits<Iter>::value_type>::digits);
 
@@ -263,7 +267,7 @@ inline sum_sqr(Iter begin, Iter end, rnd_mode rnd)
     reduction_sum_op<Iter> op(
         [] (Iter i, mpfr_ptr* p)
     {
-        *p = new mpfr_t;
+        *p = new std::remove_extent<mpfr_t>::type;
 
         mpfr_init2(*p, std::numeric_limits<typename std::iterator_traits<Iter>::value_type>::digits * 2);
 
@@ -305,7 +309,7 @@ inline dot(Iter begin_a, Iter end_a, Iter begin_b, rnd_mode rnd)
     reduction_sum_op<Iter> op(
         [] (Iter a, Iter b, mpfr_ptr* p)
     {
-        *p = new mpfr_t;
+        *p = new std::remove_extent<mpfr_t>::type;
 
         mpfr_init2(*p, std::numeric_limits<typename std::iterator_traits<Iter>::value_type>::digits * 2);
 
-- 
2.43.0


From 8aa359483744548cf24d1445e7721e3cdb1882b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:36 +0000
Subject: [PATCH 07/12] fix: compute dot and sum_sqr exactly when a product
 leaves the exponent range

The products of dot and sum_sqr were computed in the exponent range of the
result type, hence dot({1e200,1e200},{1e200,-1e200}) was NaN instead of 0.
---
 p1788/reduction/reduction.hpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/p1788/reduction/reduction.hpp b/p1788/reduction/reduction.hpp
index 07dda82..e5c43cf 100644
--- a/p1788/reduction/reduction.hpp
+++ b/p1788/reduction/reduction.hpp
@@ -92,7 +92,9 @@ public:
     // perform op on one iterator
     reduction_sum_op(void (*op) (Iter, mpfr_ptr*), Iter begin, Iter end, rnd_mode rnd) : n_(end - begin)
     {
-        mpfr_var::setup();
+        // the elements and their sum must not be limited by the exponent range of the result type
+        mpfr_set_emin(mpfr_get_emin_min());
+        mpfr_set_emax(mpfr_get_emax_max());
         tab_ = new mpfr_ptr[n_];    // array of elemets
 
         mpfr_ptr* p = tab_;
@@ -104,7 +106,12 @@ public:
         mpfr_var res;
 
         // accumulate
-        res.subnormalize(mpfr_sum(res(), tab_, n_, get_mpfr_rnd_mode(rnd)), get_mpfr_rnd_mode(rnd));
+        int t = mpfr_sum(res(), tab_, n_, get_mpfr_rnd_mode(rnd));
+
+        // round into the exponent range of the result type
+        mpfr_var::setup();
+        t = mpfr_check_range(res(), t, get_mpfr_rnd_mode(rnd));
+        res.subnormalize(t, get_mpfr_rnd_mode(rnd));
 
         // get result
         result_ = res.template get<typename std::iterator_traits<Iter>::value_type>(get_mpfr_rnd_mode(rnd));
@@ -116,7 +123,9 @@ public:
     // perform op on two interators
     reduction_sum_op(void (*op) (Iter, Iter, mpfr_ptr*), Iter begin_a, Iter end_a, Iter begin_b, rnd_mode rnd) : n_(end_a - begin_a)
     {
-        mpfr_var::setup();
+        // the elements and their sum must not be limited by the exponent range of the result type
+        mpfr_set_emin(mpfr_get_emin_min());
+        mpfr_set_emax(mpfr_get_emax_max());
         tab_ = new mpfr_ptr[n_];    // array of elemets
 
         mpfr_ptr* p = tab_;
@@ -128,7 +137,12 @@ public:
         mpfr_var res;
 
         // accumulate
-        res.subnormalize(mpfr_sum(res(), tab_, n_, get_mpfr_rnd_mode(rnd)), get_mpfr_rnd_mode(rnd));
+        int t = mpfr_sum(res(), tab_, n_, get_mpfr_rnd_mode(rnd));
+
+        // round into the exponent range of the result type
+        mpfr_var::setup();
+        t = mpfr_check_range(res(), t, get_mpfr_rnd_mode(rnd));
+        res.subnormalize(t, get_mpfr_rnd_mode(rnd));
 
         // get result
         result_ = res.template get<typename std::iterator_traits<Iter>::value_type>(get_mpfr_rnd_mode(rnd));
-- 
2.43.0


From 1ab9e230588c32f646c3cdace88db8f8b52e6abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:36 +0000
Subject: [PATCH 08/12] fix: accept a leading plus sign in interval literals

GMP rejects a leading plus sign, so [+1,+2] was not recognized.
---
 .../mpfr_bin_ieee754_flavor_io_impl.hpp       | 34 +++++++++++++------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
index 3697d20..1efebf8 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
@@ -521,6 +521,12 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
             mpz_clear(var_);
         }
 
+        // GMP does not accept a leading plus sign
+        int set_str(std::string const& str, int base)
+        {
+            return mpz_set_str(var_, str.c_str() + (str[0] == '+'), base);
+        }
+
         mpz_t var_;
     };
 
@@ -537,6 +543,12 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
             mpq_clear(var_);
         }
 
+        // GMP does not accept a leading plus sign
+        int set_str(std::string const& str, int base)
+        {
+            return mpq_set_str(var_, str.c_str() + (str[0] == '+'), base);
+        }
+
         mpq_t var_;
     };
 
@@ -683,7 +695,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
 
                                 // parse number as integer
                                 mpz_var n;
-                                int i = mpz_set_str(n.var_, n_str.c_str(), 10);
+                                int i = n.set_str(n_str, 10);
 
                                 // everything ok
                                 if (i == 0)
@@ -743,7 +755,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
 
                                 // parse number as integer
                                 mpz_var n;
-                                int i = mpz_set_str(n.var_, n_str.c_str(), 0);
+                                int i = n.set_str(n_str, 0);
 
                                 // everything ok
                                 if (i == 0)
@@ -784,7 +796,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                             {
                                 mpq_var q;
 
-                                int i = mpq_set_str(q.var_, (match[6].str() + "/" + match[7].str()).c_str(), 10);
+                                int i = q.set_str(match[6].str() + "/" + match[7].str(), 10);
 
                                 mpfr_var l;
                                 mpfr_var u;
@@ -842,7 +854,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                                 }
 
                                 // parse number as integer
-                                int i = mpz_set_str(zl.var_, n_str.c_str(), 10);
+                                int i = zl.set_str(n_str, 10);
 
                                 // everything ok
                                 if (i == 0)
@@ -891,7 +903,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                                 p *= 4;
 
                                 // parse number as integer
-                                int i = mpz_set_str(zl.var_, n_str.c_str(), 0);
+                                int i = zl.set_str(n_str, 0);
 
                                 // everything ok
                                 if (i == 0)
@@ -919,7 +931,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                             }
                             else if (match[16].length() > 0) // rational
                             {
-                                int i = mpq_set_str(ql.var_, (match[16].str() + "/" + match[17].str()).c_str(), 10);
+                                int i = ql.set_str(match[16].str() + "/" + match[17].str(), 10);
 
                                 if (i == 0)
                                     l.subnormalize(mpfr_set_q(l(), ql.var_, MPFR_RNDD), MPFR_RNDD);
@@ -954,7 +966,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                                 }
 
                                 // parse number as integer
-                                int i = mpz_set_str(zu.var_, n_str.c_str(), 10);
+                                int i = zu.set_str(n_str, 10);
 
                                 // everything ok
                                 if (i == 0)
@@ -1003,7 +1015,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                                 p *= 4;
 
                                 // parse number as integer
-                                int i = mpz_set_str(zu.var_, n_str.c_str(), 0);
+                                int i = zu.set_str(n_str, 0);
 
                                 // everything ok
                                 if (i == 0)
@@ -1031,7 +1043,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                             }
                             else if (match[25].length() > 0) // rational
                             {
-                                int i = mpq_set_str(qu.var_, (match[25].str() + "/" + match[26].str()).c_str(), 10);
+                                int i = qu.set_str(match[25].str() + "/" + match[26].str(), 10);
 
                                 if (i == 0)
                                     u.subnormalize(mpfr_set_q(u(), qu.var_, MPFR_RNDU), MPFR_RNDU);
@@ -1218,14 +1230,14 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
 
                         // parse number as integer
                         mpz_var m;
-                        int im = mpz_set_str(m.var_, m_str.c_str(), 10);
+                        int im = m.set_str(m_str, 10);
 
                         mpz_var ulps;
                         int iu = 0;
 
                         // computing ulps
                         if (match[3].length() > 0 )
-                            iu = mpz_set_str(ulps.var_, match[3].str().c_str(), 10);
+                            iu = ulps.set_str(match[3].str(), 10);
                         else
                         {
                             // 1/2 ulp => m * 10 and ulps=5
-- 
2.43.0


From 31aff5ac7ae340490a34b3b6a09bf2d793285f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:06 +0000
Subject: [PATCH 09/12] fix: huge exponents in interval literals do not escape
 as std::out_of_range

std::stoi throws for exponents outside of int, e.g. [1e9999999999].  The
exponent is saturated far outside of the range of any number format instead.
---
 .../setbased/mpfr_bin_ieee754_flavor.hpp      |  1 +
 .../mpfr_bin_ieee754_flavor_io_impl.hpp       | 20 ++++++++++++-------
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor.hpp
index c34828b..00b6ff5 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor.hpp
@@ -33,6 +33,7 @@
 #include <iostream>
 #include <algorithm>
 #include <cctype>
+#include <cstdlib>
 #include <sstream>
 #include <regex>
 
diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
index 1efebf8..76162ee 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
@@ -552,6 +552,12 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
         mpq_t var_;
     };
 
+    // exponent of a number literal, saturated far outside of the range of any number format
+    auto exponent = [] (std::string const& str)
+    {
+        return static_cast<int>(std::min(std::max(std::strtol(str.c_str(), nullptr, 10), -1000000L), 1000000L));
+    };
+
     // remove whitespaces if necessary
     if (is.flags() & std::ios_base::skipws)
     {
@@ -703,7 +709,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                                     // exponent (and precision)
                                     if (match[3].length() > 0)
                                     {
-                                        p += std::stoi(match[3].str());
+                                        p += exponent(match[3].str());
                                     }
 
                                     mpz_var e;
@@ -761,7 +767,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                                 if (i == 0)
                                 {
                                     // exponent (and precision)
-                                    p += std::stoi(match[5].str());
+                                    p += exponent(match[5].str());
 
 
                                     mpz_var e;
@@ -862,7 +868,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                                     // exponent (and precision)
                                     if (match[13].length() > 0)
                                     {
-                                        p += std::stoi(match[13].str());
+                                        p += exponent(match[13].str());
                                     }
 
                                     mpz_var e;
@@ -909,7 +915,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                                 if (i == 0)
                                 {
                                     // exponent (and precision)
-                                    p += std::stoi(match[15].str());
+                                    p += exponent(match[15].str());
 
                                     mpz_var e;
                                     mpz_ui_pow_ui(e.var_, 2, std::abs(p));
@@ -974,7 +980,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                                     // exponent (and precision)
                                     if (match[22].length() > 0)
                                     {
-                                        p += std::stoi(match[22].str());
+                                        p += exponent(match[22].str());
                                     }
 
                                     mpz_var e;
@@ -1021,7 +1027,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                                 if (i == 0)
                                 {
                                     // exponent (and precision)
-                                    p += std::stoi(match[24].str());
+                                    p += exponent(match[24].str());
 
                                     mpz_var e;
                                     mpz_ui_pow_ui(e.var_, 2, std::abs(p));
@@ -1252,7 +1258,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                             // exponent (and precision)
                             if (match[6].length() > 0)
                             {
-                                p += std::stoi(match[6].str());
+                                p += exponent(match[6].str());
                             }
 
                             mpz_var e;
-- 
2.43.0


From e87e2903a886cc2394eafe489c6e5a7e3680bbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:52 +0000
Subject: [PATCH 10/12] fix: interval output overflowed its string buffer
 (width computed with a misplaced conditional)

---
 p1788/util/mpfr_var_impl.hpp | 86 ++++--------------------------------
 1 file changed, 8 insertions(+), 78 deletions(-)

diff --git a/p1788/util/mpfr_var_impl.hpp b/p1788/util/mpfr_var_impl.hpp
index 1b15392..90d6bf2 100644
--- a/p1788/util/mpfr_var_impl.hpp
+++ b/p1788/util/mpfr_var_impl.hpp
@@ -234,118 +234,48 @@ std::string mpfr_var<PREC_,EMIN_,EMAX_,SUBNORMALIZE_>::get_str(mpfr_rnd_t rnd,
 {
     std::string format = width > 0 ? "%" + std::to_string(width) : "%";
 
-    size_t req_string_width =  0;
-
     switch (rep)
     {
     case p1788::io::decimal_representation:
         format += precision > 0 ? "." + std::to_string(precision) : ".6";   // default precision is 6
         format += "R*";
         format += text_rep == p1788::io::upper_case_text_representation ? "F" : "f";
-
-        {
-            // Compute  upper bound for required integer digits
-            mpfr_var<PREC_,EMIN_,EMAX_,SUBNORMALIZE_> req_digits;
-            mpfr_abs(req_digits(), var_, MPFR_RNDU);
-            mpfr_log10(req_digits(), req_digits(), MPFR_RNDU);
-
-            req_string_width = 1                                                             // for the sign
-                               + req_digits.template get<unsigned long int>(MPFR_RNDD) + 1   // for the digits
-                               + 3                                                           // for dot
-                               + precision > 0 ? precision : 6;                              // for the digits
-
-            if (width > req_string_width)
-                req_string_width = width;
-        }
         break;
     case p1788::io::scientific_representation:
         format += precision > 0 ? "." + std::to_string(precision) : ".6";   // default precision is 6
         format += "R*";
         format += text_rep == p1788::io::upper_case_text_representation ? "E" : "e";
-        {
-            // Compute  upper bound of required exponent digits
-            mpfr_var<PREC_,EMIN_,EMAX_,SUBNORMALIZE_> req_exp(std::max(-EMIN_, EMAX_) + 1, MPFR_RNDU);
-            mpfr_div_d(req_exp(), req_exp(), 3.0, MPFR_RNDU);     // 1/3 is an upper bound for log10(2)
-            mpfr_log10(req_exp(), req_exp(), MPFR_RNDU);
-
-            req_string_width = 3                                                            // for the pattern "-1."
-                               + precision > 0 ? precision : 6                              // for the digits
-                               + 2                                                          // for the pattern "E+"
-                               + req_exp.template get<unsigned long int>(MPFR_RNDD) + 1;    // for exponent digits
-
-            if (width > req_string_width)
-                req_string_width = width;
-        }
         break;
     case p1788::io::hex_representation:
         format += precision > 0 ? "." + std::to_string(precision) : "";     // no precision prints sufficient digits for an exact rep
         format += "R*";
         format += text_rep == p1788::io::upper_case_text_representation ? "A" : "a";
-        {
-            // Compute  upper bound of required hex digits
-            mpfr_var<PREC_,EMIN_,EMAX_,SUBNORMALIZE_> req_prec(PREC_, MPFR_RNDU);
-            mpfr_div_d(req_prec(), req_prec(), 4.0, MPFR_RNDU);     // 4 mantissa bits per hex digit
-
-            // Compute  upper bound of required exponent digits
-            mpfr_var<PREC_,EMIN_,EMAX_,SUBNORMALIZE_> req_exp(std::max(-EMIN_, EMAX_) + 1, MPFR_RNDU);
-            mpfr_div_d(req_exp(), req_exp(), 3.0, MPFR_RNDU);     // 1/3 is an upper bound for log10(2)
-            mpfr_log10(req_exp(), req_exp(), MPFR_RNDU);
-
-            req_string_width = 5                                                            // for the pattern "-0X1."
-                               + req_prec.template get<unsigned long int>(MPFR_RNDU) + 1    // for the hex digits
-                               + 2                                                          // for the pattern "P+"
-                               + req_exp.template get<unsigned long int>(MPFR_RNDD) + 1;    // for exponent digits
-
-            if (width > req_string_width)
-                req_string_width = width;
-        }
         break;
     default:    // decimal_scientific
         format += precision > 0 ? "." + std::to_string(precision) : ".6";   // default precision is 6
         format += "R*";
         format += text_rep == p1788::io::upper_case_text_representation ? "G" : "g";
-        {
-            // Compute  upper bound of required integer digits
-            mpfr_var<PREC_,EMIN_,EMAX_,SUBNORMALIZE_> req_digits;
-            mpfr_abs(req_digits(), var_, MPFR_RNDU);
-            mpfr_log10(req_digits(), req_digits(), MPFR_RNDU);
-
-            // Compute  upper bound of required exponent digits
-            mpfr_var<PREC_,EMIN_,EMAX_,SUBNORMALIZE_> req_exp(std::max(-EMIN_, EMAX_) + 1, MPFR_RNDU);
-            mpfr_div_d(req_exp(), req_exp(), 3.0, MPFR_RNDU);     // 1/3 is an upper bound for log10(2)
-            mpfr_log10(req_exp(), req_exp(), MPFR_RNDU);
-
-            req_string_width = 1                                                             // for the sign
-                               + req_digits.template get<unsigned long int>(MPFR_RNDD) + 1   // for the digits
-                               + 3                                                           // for dot
-                               + precision > 0 ? precision : 6                               // for the digits
-                               + 2                                                           // for the pattern "E+"
-                               + req_exp.template get<unsigned long int>(MPFR_RNDD) + 1;     // for exponent digits
-
-            if (width > req_string_width)
-                req_string_width = width;
-        }
         break;
     }
 
-    // RAII for char array
+    // RAII for the string allocated by mpfr_asprintf
     struct string_buffer
     {
         char* data;
 
-        string_buffer(size_t n)
-        {
-            data = new char[n + 1];     // take "\0" into account
-        }
+        string_buffer() : data(nullptr) {}
 
         ~string_buffer()
         {
-            delete[] data;
+            if (data)
+                mpfr_free_str(data);
         };
-    } buffer(req_string_width);
+    } buffer;
 
     // generate string
-    mpfr_sprintf(buffer.data, format.c_str(), rnd, var_ );
+    if (mpfr_asprintf(&buffer.data, format.c_str(), rnd, var_) < 0)
+        return std::string();
+
     return buffer.data;
 }
 
-- 
2.43.0


From a815b5edbdbaf38645ee593dff09f89253e08402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:54 +0000
Subject: [PATCH 11/12] fix: uncertain form output threw for bounds of
 different magnitude or large digits and misread the exponent

The radius was computed in long long on truncated strings: std::out_of_range or
std::invalid_argument escaped from operator<< for e.g. [-1e-10,1e5] or [1e13,1e13],
and with a small precision the exponent of the midpoint was cut off, which printed
intervals that did not contain the value.  Compute the radius with GMP integers.
---
 .../setbased/mpfr_bin_ieee754_flavor.hpp      |   2 +
 .../mpfr_bin_ieee754_flavor_io_impl.hpp       | 209 +++++++-----------
 2 files changed, 77 insertions(+), 134 deletions(-)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor.hpp
index 00b6ff5..4c0151e 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor.hpp
@@ -35,6 +35,8 @@
 #include <cctype>
 #include <cstdlib>
 #include <sstream>
+#include <string>
+#include <vector>
 #include <regex>
 
 #include <gmp.h>
diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
index 76162ee..d8a5406 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
@@ -152,160 +152,101 @@ mpfr_bin_ieee754_flavor<T>::operator_interval_to_text(std::basic_ostream<CharT,
                                            prec,
                                            text_rep);
 
-            // find exponent part
-            int p_l = std::max(static_cast<int>(tmp_l.find('E')), static_cast<int>(tmp_l.find('e')));
-            int p_u = std::max(static_cast<int>(tmp_u.find('E')), static_cast<int>(tmp_u.find('e')));
-
-            std::string exp_str = "";
-
-            long long int ulps = 0;
-
-            // symmetric
-            if (os.iword(p1788::io::representation_manip_id) == p1788::io::uncertain_representation)
+            // A decimal number  var_ * 10^exp_  read from a number string
+            // (the integers are unbounded, the bounds may differ widely in their magnitude)
+            struct decimal
             {
-                // midpoint string
-                mpfr_var m(mid(x), MPFR_RNDN);
-                std::string tmp_m = m.get_str(MPFR_RNDN,
-                                              uc_exp == p1788::io::show_uncertain_exponent ? p1788::io::scientific_representation : p1788::io::decimal_representation,
-                                              0,
-                                              prec,
-                                              text_rep);
-
-                // find exponent part
-                int p_m = std::max(static_cast<int>(tmp_m.find('E')), static_cast<int>(tmp_m.find('e')));
-
-                // split number and exponent part if necessary
-                str = p_m >= 0 ? tmp_m.substr(0, p_m) : tmp_m;
-                if (p_m >= 0)
-                {
-                    exp_str = tmp_m.substr(p_m, tmp_m.size() - p_m);
-                    tmp_m = str;
-                }
+                std::string num_;       // number without exponent
+                std::string exp_str_;   // exponent part
+                long int exp_;
+                mpz_t var_;
 
-                // remove seperator
-                tmp_m.erase(tmp_m.size() - prec - 1, 1);
-
-                // compute exponent difference
-                int exp_m = p_m >= 0 ? std::stoi(exp_str.substr(1, tmp_m.size() - 1)) : 0;
-                int ulp_l = 0;
-                int ulp_u = 0;
-                if (p_l >= 0)
+                decimal(std::string const& s)
+                    : num_(s.substr(0, s.find_first_of("Ee"))), exp_str_(s.substr(num_.size())), exp_(0), var_()
                 {
-                    int exp_l = std::stoi(tmp_l.substr(p_l + 1, tmp_l.size() - p_l - 1)) - exp_m;
-                    // remove exponent and seperator
-                    tmp_l.erase(p_l);
-                    tmp_l.erase(tmp_l.size() - prec - 1, 1);
+                    mpz_init(var_);
+
+                    if (!exp_str_.empty())
+                        exp_ = std::stol(exp_str_.substr(1));
 
-                    if (exp_l < 0)
+                    // remove separator
+                    std::string digits = num_;
+                    std::string::size_type sep = digits.find('.');
+                    if (sep != std::string::npos)
                     {
-                        // remove trailing digits and remind ulp if necessary
-                        ulp_l = std::stoll(tmp_l.substr(tmp_l.size() + exp_l)) != 0 && x.first < 0.0 ? 1 : 0;
-                        tmp_l.resize(tmp_l.size() + exp_l);
+                        exp_ -= static_cast<long int>(digits.size() - sep - 1);
+                        digits.erase(sep, 1);
                     }
-                    else if (exp_l > 0)
-                        // add some digits
-                        tmp_l.append(exp_l, '0');
 
-                }
-                else
-                {
-                    // remove seperator
-                    tmp_l.erase(tmp_l.size() - prec - 1, 1);
+                    mpz_set_str(var_, digits.c_str(), 10);
                 }
 
-                if (p_u >= 0)
-                {
-                    int exp_u = exp_m - std::stoi(tmp_u.substr(p_u + 1, tmp_u.size() - p_u - 1));
-                    // remove exponent and seperator
-                    tmp_u.erase(p_u);
-                    tmp_u.erase(tmp_u.size() - prec - 1, 1);
-                    if (exp_u > 0)
-                    {
-                        // remove trailing digits and remind ulp if necessary
-                        ulp_u = std::stoll(tmp_u.substr(tmp_u.size() - exp_u)) != 0 && x.second > 0.0  ? 1 : 0;
-                        tmp_u.resize(tmp_u.size() - exp_u);
-                    }
-                    else if (exp_u < 0)
-                        // add some digits
-                        tmp_u.append(-exp_u, '0');
-                }
-                else
+                ~decimal()
                 {
-                    // remove seperator
-                    tmp_u.erase(tmp_u.size() - prec - 1, 1);
+                    mpz_clear(var_);
                 }
 
-                // compute max ulps to lower and upper bound
-                long long int tmp = std::stoll(tmp_m);
-
-                ulps = std::max(-std::stoll(tmp_l) + tmp + ulp_l,
-                                -tmp + std::stoll(tmp_u) + ulp_u);
-            }
-            else // downward or upward
-            {
-                if (os.iword(p1788::io::representation_manip_id) == p1788::io::uncertain_down_representation)
-                {
-                    // split number and exponent part if necessary
-                    str = p_u >= 0 ? tmp_u.substr(0, p_u) : tmp_u;
-                    if (p_u >= 0)
-                        exp_str = tmp_u.substr(p_u, tmp_u.size() - p_u);
-                }
-                else if (os.iword(p1788::io::representation_manip_id) == p1788::io::uncertain_up_representation)
+                // change the exponent, rounding the number up or down if digits are lost
+                void rescale(long int exp, bool up)
                 {
-                    // split number and exponent part if necessary
-                    str = p_l >= 0 ? tmp_l.substr(0, p_l) : tmp_l;
-                    if (p_l >= 0)
-                        exp_str = tmp_l.substr(p_l, tmp_l.size() - p_l);
-                }
+                    mpz_t e;
+                    mpz_init(e);
+                    mpz_ui_pow_ui(e, 10, std::abs(exp_ - exp));
+
+                    if (exp_ > exp)
+                        mpz_mul(var_, var_, e);
+                    else if (up)
+                        mpz_cdiv_q(var_, var_, e);
+                    else
+                        mpz_fdiv_q(var_, var_, e);
 
-                // compute exponent difference
-                int exp = 0;
-                if (p_l >= 0)
-                {
-                    exp = std::stoi(tmp_l.substr(p_l + 1, tmp_l.size() - p_l - 1));
-                    tmp_l.erase(p_l);
-                }
-                if (p_u >= 0)
-                {
-                    exp -= std::stoi(tmp_u.substr(p_u + 1, tmp_u.size() - p_u - 1));
-                    tmp_u.erase(p_u);
+                    mpz_clear(e);
+                    exp_ = exp;
                 }
 
-                // remove seperator
-                tmp_l.erase(tmp_l.size() - prec - 1, 1);
-                tmp_u.erase(tmp_u.size() - prec - 1, 1);
+                // noncopyable
+                decimal(decimal const&) = delete;
+                decimal& operator=(decimal const&) = delete;
+            };
 
-                // adjust string length to balance exponent difference
-                if (os.iword(p1788::io::representation_manip_id) == p1788::io::uncertain_down_representation)
-                {
-                    if (exp < 0)
-                    {
-                        // remove trailing digits and adjust ulps if necessary
-                        ulps += std::stoll(tmp_l.substr(tmp_l.size() + exp)) != 0 && x.first < 0.0 ? 1 : 0;
-                        tmp_l.resize(tmp_l.size() + exp);
-                    }
-                    else if (exp > 0)
-                        // add some digits
-                        tmp_l.append(exp, '0');
-                }
-                else if (os.iword(p1788::io::representation_manip_id) == p1788::io::uncertain_up_representation)
+            decimal dec_l(tmp_l);
+            decimal dec_u(tmp_u);
+
+            // number which is printed
+            std::string tmp_m;
+            switch (os.iword(p1788::io::representation_manip_id))
+            {
+            case p1788::io::uncertain_down_representation:
+                tmp_m = tmp_u;
+                break;
+            case p1788::io::uncertain_up_representation:
+                tmp_m = tmp_l;
+                break;
+            default:    // symmetric
                 {
-                    if (exp > 0)
-                    {
-                        // remove trailing digits and adjust ulps if necessary
-                        ulps += std::stoll(tmp_u.substr(tmp_u.size() - exp)) != 0 && x.second > 0.0  ? 1 : 0;
-                        tmp_u.resize(tmp_u.size() - exp);
-                    }
-                    else if (exp < 0)
-                        // add some digits
-                        tmp_u.append(-exp, '0');
+                    mpfr_var m(mid(x), MPFR_RNDN);
+                    tmp_m = m.get_str(MPFR_RNDN,
+                                      uc_exp == p1788::io::show_uncertain_exponent ? p1788::io::scientific_representation : p1788::io::decimal_representation,
+                                      0,
+                                      prec,
+                                      text_rep);
                 }
-
-                // compute ulps
-                ulps += -std::stoll(tmp_l) +  std::stoll(tmp_u);
+                break;
             }
+            decimal dec_m(tmp_m);
+
+            // compute max ulps to lower and upper bound
+            dec_l.rescale(dec_m.exp_, false);
+            dec_u.rescale(dec_m.exp_, true);
+            mpz_sub(dec_l.var_, dec_m.var_, dec_l.var_);
+            mpz_sub(dec_u.var_, dec_u.var_, dec_m.var_);
+            if (mpz_cmp(dec_l.var_, dec_u.var_) < 0)
+                mpz_swap(dec_l.var_, dec_u.var_);
+
+            std::vector<char> ulps(mpz_sizeinbase(dec_l.var_, 10) + 2);
+            mpz_get_str(ulps.data(), 10, dec_l.var_);
 
-            str += "?" + std::to_string(ulps);
+            str = dec_m.num_ + "?" + ulps.data();
 
             // add downward or upward flag
             switch(os.iword(p1788::io::representation_manip_id))
@@ -319,7 +260,7 @@ mpfr_bin_ieee754_flavor<T>::operator_interval_to_text(std::basic_ostream<CharT,
             }
 
             // add exponent
-            str += exp_str;
+            str += dec_m.exp_str_;
         }
 
         int w = os.iword(p1788::io::string_width_manip_id) - str.size();
-- 
2.43.0


From 056e0ef130d96e2df7ecaafd75a4f7c7a6309196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:47 +0000
Subject: [PATCH 12/12] fix: pown_rev with exponent INT_MIN: do not negate the
 exponent

p != -p overflows for the smallest int, so compilers drop the guard and the
root exponent wraps; the result could even have inverted bounds.
---
 .../infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp
index b8c8f9e..e42a43b 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp
@@ -324,7 +324,7 @@ int mpfr_bin_ieee754_flavor<T>::pown_rev_inf(mpfr_var const& c,
         int p)
 {
     int t1;
-    if (p != -p)
+    if (p != std::numeric_limits<int>::min())
     {
         t1 = -mpfr_root(x(), c(), -p, MPFR_RNDU);
     }
@@ -360,7 +360,7 @@ int mpfr_bin_ieee754_flavor<T>::pown_rev_sup(mpfr_var const& c,
         int p)
 {
     int t1;
-    if (p != -p)
+    if (p != std::numeric_limits<int>::min())
     {
         t1 = -mpfr_root(x(), c(), -p, MPFR_RNDD);
     }
-- 
2.43.0

