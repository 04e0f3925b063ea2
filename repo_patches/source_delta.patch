From 2435ae9a49d6973e61ede71c14c4378a201a624c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:23 +0000
Subject: [PATCH 1/7] fix: int256_t multiplication of values in [-2^128, -2^128
 + 2^64)

The fast path also took operands whose high word is all ones and whose
low word is below 2^64. Such values lie just above -2^128, so the product
of the low words is not their product, e.g. 0 * -2^128 gave -2^128.
---
 include/int256_t.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/int256_t.hpp b/include/int256_t.hpp
index f3b04da..eb983a8 100644
--- a/include/int256_t.hpp
+++ b/include/int256_t.hpp
@@ -159,11 +159,10 @@ public:
 
         if (low <= max64 &&
             other.low <= max64 &&
-            ((high == 0 || ~high == 0) &&
-             (other.high == 0 || ~other.high == 0)))
+            high == 0 &&
+            other.high == 0)
         {
-          return int256_t(low * other.low,
-                          (high == other.high) ? 0 : -1);
+          return int256_t(low * other.low, 0);
         }
         else
         {
-- 
2.43.0


From 22218fa98e57c0ef8ade28c9698940e922548193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:23 +0000
Subject: [PATCH 2/7] fix: int256_t shift by 0 bits

A shift by 0 bits shifted the other word by 128 bits which is undefined
and on x86-64 merged the low word into the high word.
---
 include/int256_t.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/int256_t.hpp b/include/int256_t.hpp
index eb983a8..2d4e055 100644
--- a/include/int256_t.hpp
+++ b/include/int256_t.hpp
@@ -212,7 +212,9 @@ public:
 
     int256_t operator<<(std::size_t bits) const
     {
-        if (bits >= 128)
+        if (bits == 0)
+            return *this;
+        else if (bits >= 128)
             return int256_t(0, low << (bits - 128));
         else
             return int256_t(low << bits, (high << bits) | (low >> (128 - bits)));
@@ -220,7 +222,9 @@ public:
 
     int256_t operator>>(std::size_t bits) const
     {
-        if (bits >= 128)
+        if (bits == 0)
+            return *this;
+        else if (bits >= 128)
             return int256_t(high >> (bits - 128), 0);
         else
             return int256_t((low >> bits) | (high << (128 - bits)), high >> bits);
-- 
2.43.0


From f3f472ac17bc58044140f6c41361dd2c0b7764ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:01 +0000
Subject: [PATCH 3/7] fix: BitSieve::sum overflow for interval positions above
 2^58

---
 src/BitSieve.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/BitSieve.cpp b/src/BitSieve.cpp
index fa525dd..6533846 100644
--- a/src/BitSieve.cpp
+++ b/src/BitSieve.cpp
@@ -53,44 +53,44 @@ uint64_t fast_modulo(uint64_t x, uint64_t y)
   return x;
 }
 
-uint64_t sum_bits(uint64_t bits, uint64_t& low)
+int128_t sum_bits(uint64_t bits, uint64_t& low)
 {
   uint64_t bits0 = bits & 0xffff;
   uint64_t bits1 = (bits >> 16) & 0xffff;
   uint64_t bits2 = (bits >> 32) & 0xffff;
   uint64_t bits3 = (bits >> 48);
-  uint64_t sum = 0;
+  int128_t sum = 0;
 
   sum += sumBits[bits0];
   sum += sumBits[bits1];
   sum += sumBits[bits2];
   sum += sumBits[bits3];
 
-  sum += low * popcnt64(bits0); low += 32;
-  sum += low * popcnt64(bits1); low += 32;
-  sum += low * popcnt64(bits2); low += 32;
-  sum += low * popcnt64(bits3); low += 32;
+  sum += (int128_t) low * popcnt64(bits0); low += 32;
+  sum += (int128_t) low * popcnt64(bits1); low += 32;
+  sum += (int128_t) low * popcnt64(bits2); low += 32;
+  sum += (int128_t) low * popcnt64(bits3); low += 32;
 
   return sum;
 }
 
-uint64_t sum_bits(const uint16_t* bits, uint64_t& low)
+int128_t sum_bits(const uint16_t* bits, uint64_t& low)
 {
   uint64_t bits0 = bits[0];
   uint64_t bits1 = bits[1];
   uint64_t bits2 = bits[2];
   uint64_t bits3 = bits[3];
-  uint64_t sum = 0;
+  int128_t sum = 0;
 
   sum += sumBits[bits0];
   sum += sumBits[bits1];
   sum += sumBits[bits2];
   sum += sumBits[bits3];
 
-  sum += low * popcnt64(bits0); low += 32;
-  sum += low * popcnt64(bits1); low += 32;
-  sum += low * popcnt64(bits2); low += 32;
-  sum += low * popcnt64(bits3); low += 32;
+  sum += (int128_t) low * popcnt64(bits0); low += 32;
+  sum += (int128_t) low * popcnt64(bits1); low += 32;
+  sum += (int128_t) low * popcnt64(bits2); low += 32;
+  sum += (int128_t) low * popcnt64(bits3); low += 32;
 
   return sum;
 }
-- 
2.43.0


From 5b791686817e7e61e31c6394596b8400e6fef657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:03 +0000
Subject: [PATCH 4/7] fix: --threads and --status values beyond int wrapped
 around

---
 src/app/cmdoptions.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/app/cmdoptions.cpp b/src/app/cmdoptions.cpp
index 33788d1..900a138 100644
--- a/src/app/cmdoptions.cpp
+++ b/src/app/cmdoptions.cpp
@@ -12,6 +12,7 @@
 #include "cmdoptions.hpp"
 #include <primesum-internal.hpp>
 #include <int128_t.hpp>
+#include <imath.hpp>
 
 #include <stdint.h>
 #include <vector>
@@ -19,6 +20,7 @@
 #include <sstream>
 #include <map>
 #include <exception>
+#include <limits>
 #include <cstdlib>
 
 using std::string;
@@ -39,6 +41,13 @@ double to_double(const string& s)
   return x;
 }
 
+/// Values which do not fit into an int are clamped
+int to_int(const string& s)
+{
+  using limits = std::numeric_limits<int>;
+  return (int) in_between(limits::min(), to_int128(s), limits::max());
+}
+
 /// e.g. id = "--threads", value = "4"
 struct Option
 {
@@ -128,11 +137,11 @@ PrimeSumOptions parseOptions(int argc, char** argv)
       {
         case OPTION_ALPHA:   set_alpha(to_double(option.value)); break;
         case OPTION_NUMBER:  numbers.push_back(option.to<int128_t>()); break;
-        case OPTION_THREADS: set_num_threads(option.to<int>()); break;
+        case OPTION_THREADS: set_num_threads(to_int(option.value)); break;
         case OPTION_HELP:    help(); break;
         case OPTION_STATUS:  set_print(true);
                              if (!option.value.empty())
-                                set_status_precision(option.to<int>());
+                                set_status_precision(to_int(option.value));
                              pco.time = true;
                              break;
         case OPTION_TIME:    pco.time = true; break;
-- 
2.43.0


From 4c6fd9ade30e24f094ff362df45cecfb186521f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:03 +0000
Subject: [PATCH 5/7] fix: --alpha accepted trailing garbage

---
 src/app/cmdoptions.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/app/cmdoptions.cpp b/src/app/cmdoptions.cpp
index 900a138..23d9a24 100644
--- a/src/app/cmdoptions.cpp
+++ b/src/app/cmdoptions.cpp
@@ -36,7 +36,8 @@ double to_double(const string& s)
 {
   istringstream i(s);
   double x;
-  if (!(i >> x))
+  char c;
+  if (!(i >> x) || i >> c)
     throw primesum_error("failed to convert \"" + s + "\" to double");
   return x;
 }
-- 
2.43.0


From d8d8db153cd08b90c1c1c42e044b04b485b6bd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:03 +0000
Subject: [PATCH 6/7] fix: x below -2^63 wrapped around with the 63-bit
 algorithms

---
 src/app/main.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/app/main.cpp b/src/app/main.cpp
index 1f850d6..da645a7 100644
--- a/src/app/main.cpp
+++ b/src/app/main.cpp
@@ -34,6 +34,8 @@ int64_t int64_cast(int128_t x)
 {
   if (x > numeric_limits<int64_t>::max())
     throw primesum_error("this is a 63-bit function, x must be < 2^63");
+  if (x < numeric_limits<int64_t>::min())
+    return numeric_limits<int64_t>::min();
   return (int64_t) x;
 }
 
-- 
2.43.0


From 60022369c37ae8cf2ce648b07ffcfb2f6ac0dfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:03 +0000
Subject: [PATCH 7/7] fix: pi_lmo2 - pi_lmo5 overflowed 64-bit sums (x = 10^11)

---
 include/primesum-internal.hpp |  8 ++++----
 src/lmo/pi_lmo2.cpp           | 20 ++++++++++----------
 src/lmo/pi_lmo3.cpp           | 20 ++++++++++----------
 src/lmo/pi_lmo4.cpp           |  4 ++--
 src/lmo/pi_lmo5.cpp           | 20 ++++++++++----------
 5 files changed, 36 insertions(+), 36 deletions(-)

diff --git a/include/primesum-internal.hpp b/include/primesum-internal.hpp
index cdcf091..d0071aa 100644
--- a/include/primesum-internal.hpp
+++ b/include/primesum-internal.hpp
@@ -63,13 +63,13 @@ int256_t pi_lmo(int128_t x, int threads);
 
 int256_t pi_lmo1(int128_t x);
 
-int64_t pi_lmo2(int64_t x);
+int256_t pi_lmo2(int64_t x);
 
-int64_t pi_lmo3(int64_t x);
+int256_t pi_lmo3(int64_t x);
 
-int64_t pi_lmo4(int64_t x);
+int256_t pi_lmo4(int64_t x);
 
-int64_t pi_lmo5(int64_t x);
+int256_t pi_lmo5(int64_t x);
 
 int256_t pi_lmo_parallel1(int128_t x, int threads);
 
diff --git a/src/lmo/pi_lmo2.cpp b/src/lmo/pi_lmo2.cpp
index 3b06c1a..91513d8 100644
--- a/src/lmo/pi_lmo2.cpp
+++ b/src/lmo/pi_lmo2.cpp
@@ -32,16 +32,16 @@ namespace {
 /// segmentation). Space complexity: O(x^(2/3) * (log x)^2).
 /// @pre y > 0 && c > 1
 ///
-int64_t S2(int64_t x,
-           int64_t y,
-           int64_t c,
-           vector<int32_t>& primes,
-           vector<int32_t>& lpf,
-           vector<int32_t>& mu)
+int128_t S2(int64_t x,
+            int64_t y,
+            int64_t c,
+            vector<int32_t>& primes,
+            vector<int32_t>& lpf,
+            vector<int32_t>& mu)
 {
   int64_t limit = x / y + 1;
   int64_t pi_y = pi_bsearch(primes, y);
-  int64_t S2_result = 0;
+  int128_t S2_result = 0;
   int64_t b = 1;
   vector<char> sieve(limit, 1);
 
@@ -58,7 +58,7 @@ int64_t S2(int64_t x,
   {
     int64_t prime = primes[b];
     int64_t i = 1;
-    int64_t phi = 0;
+    int128_t phi = 0;
 
     for (int64_t m = y; m > y / prime; m--)
     {
@@ -92,7 +92,7 @@ namespace primesum {
 /// Lagarias-Miller-Odlyzko algorithm.
 /// Run time: O(x^(2/3)) operations, O(x^(2/3) / (log x)^2) space.
 ///
-int64_t pi_lmo2(int64_t x)
+int256_t pi_lmo2(int64_t x)
 {
   if (x < 2)
     return 0;
@@ -112,7 +112,7 @@ int64_t pi_lmo2(int64_t x)
   int256_t phi = s1 + s2;
   int256_t sum = phi + prime_sum_tiny(y) - 1 - p2;
 
-  return int64_t(sum);
+  return sum;
 }
 
 } // namespace
diff --git a/src/lmo/pi_lmo3.cpp b/src/lmo/pi_lmo3.cpp
index 82ea770..2de2982 100644
--- a/src/lmo/pi_lmo3.cpp
+++ b/src/lmo/pi_lmo3.cpp
@@ -50,21 +50,21 @@ void cross_off(int64_t prime,
 /// Calculate the contribution of the special leaves.
 /// @pre y > 0 && c > 1
 ///
-int64_t S2(int64_t x,
-           int64_t y,
-           int64_t c,
-           vector<int32_t>& primes,
-           vector<int32_t>& lpf,
-           vector<int32_t>& mu)
+int128_t S2(int64_t x,
+            int64_t y,
+            int64_t c,
+            vector<int32_t>& primes,
+            vector<int32_t>& lpf,
+            vector<int32_t>& mu)
 {
   int64_t limit = x / y + 1;
   int64_t segment_size = next_power_of_2(isqrt(limit));
   int64_t pi_y = pi_bsearch(primes, y);
-  int64_t S2_result = 0;
+  int128_t S2_result = 0;
 
   vector<char> sieve(segment_size);
   vector<int64_t> next(primes.begin(), primes.end());
-  vector<int64_t> phi(primes.size(), 0);
+  vector<int128_t> phi(primes.size(), 0);
 
   // Segmented sieve of Eratosthenes
   for (int64_t low = 1; low < limit; low += segment_size)
@@ -130,7 +130,7 @@ namespace primesum {
 /// Lagarias-Miller-Odlyzko algorithm.
 /// Run time: O(x^(2/3)) operations, O(x^(1/3) * (log x)^2) space.
 ///
-int64_t pi_lmo3(int64_t x)
+int256_t pi_lmo3(int64_t x)
 {
   if (x < 2)
     return 0;
@@ -150,7 +150,7 @@ int64_t pi_lmo3(int64_t x)
   int256_t phi = s1 + s2;
   int256_t sum = phi + prime_sum_tiny(y) - 1 - p2;
 
-  return int64_t(sum);
+  return sum;
 }
 
 } // namespace
diff --git a/src/lmo/pi_lmo4.cpp b/src/lmo/pi_lmo4.cpp
index 9cb37ad..a5905c2 100644
--- a/src/lmo/pi_lmo4.cpp
+++ b/src/lmo/pi_lmo4.cpp
@@ -140,7 +140,7 @@ namespace primesum {
 /// Lagarias-Miller-Odlyzko algorithm.
 /// Run time: O(x^(2/3)) operations, O(x^(1/3) * (log x)^2) space.
 ///
-int64_t pi_lmo4(int64_t x)
+int256_t pi_lmo4(int64_t x)
 {
   if (x < 2)
     return 0;
@@ -160,7 +160,7 @@ int64_t pi_lmo4(int64_t x)
   int256_t phi = s1 + s2;
   int256_t sum = phi + prime_sum_tiny(y) - 1 - p2;
 
-  return int64_t(sum);
+  return sum;
 }
 
 } // namespace
diff --git a/src/lmo/pi_lmo5.cpp b/src/lmo/pi_lmo5.cpp
index 8f7f444..81ef8ef 100644
--- a/src/lmo/pi_lmo5.cpp
+++ b/src/lmo/pi_lmo5.cpp
@@ -54,12 +54,12 @@ void cross_off(BitSieve& sieve,
 /// @see ../docs/computing-special-leaves.md
 /// @pre y > 0 && c > 1
 ///
-int64_t S2(int64_t x,
-           int64_t y,
-           int64_t c,
-           vector<int32_t>& primes,
-           vector<int32_t>& lpf,
-           vector<int32_t>& mu)
+int128_t S2(int64_t x,
+            int64_t y,
+            int64_t c,
+            vector<int32_t>& primes,
+            vector<int32_t>& lpf,
+            vector<int32_t>& mu)
 {
   print("");
   print("=== S2(x, y) ===");
@@ -72,9 +72,9 @@ int64_t S2(int64_t x,
   BitSieve sieve(segment_size);
   Wheel wheel(primes, (int64_t) primes.size(), /*low = */ 1);
   vector<int32_t> pi = generate_pi(y);
-  vector<int64_t> phi(primes.size(), 0);
+  vector<int128_t> phi(primes.size(), 0);
 
-  int64_t S2_result = 0;
+  int128_t S2_result = 0;
   int64_t pi_sqrty = pi[isqrt(y)];
   int64_t pi_y = pi[y];
 
@@ -160,7 +160,7 @@ namespace primesum {
 /// Lagarias-Miller-Odlyzko algorithm.
 /// Run time: O(x^(2/3) / log x) operations, O(x^(1/3) * (log x)^2) space.
 ///
-int64_t pi_lmo5(int64_t x)
+int256_t pi_lmo5(int64_t x)
 {
   if (x < 2)
     return 0;
@@ -186,7 +186,7 @@ int64_t pi_lmo5(int64_t x)
   int256_t phi = s1 + s2;
   int256_t sum = phi + prime_sum_tiny(y) - 1 - p2;
 
-  return int64_t(sum);
+  return sum;
 }
 
 } // namespace
-- 
2.43.0

