From 1886a317bae8e46d3b8b6249145b317726b7d385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:51 +0000
Subject: [PATCH 1/8] fix: read the decimal power table within bounds when
 formatting doubles

Digit generation indexes the table with the number of fractional digits,
up to 17, but the table had 10 entries: most 11- to 17-digit doubles read
past its end (e.g. 1.2345678901234567).
---
 src/detail/dtoa.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/detail/dtoa.cpp b/src/detail/dtoa.cpp
index d925785..f05edc9 100644
--- a/src/detail/dtoa.cpp
+++ b/src/detail/dtoa.cpp
@@ -31,7 +31,12 @@ static const char DIGITS[200] = {
     '9', '0', '9', '1', '9', '2', '9', '3', '9', '4', '9', '5', '9', '6', '9', '7', '9', '8', '9', '9'
 };
 static const char *DIGITS_PTR = DIGITS;
-static const uint32_t POWER10[] = {1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000};
+static const uint64_t POWER10[] = {
+    1ULL, 10ULL, 100ULL, 1000ULL, 10000ULL, 100000ULL, 1000000ULL, 10000000ULL, 100000000ULL, 1000000000ULL,
+    10000000000ULL, 100000000000ULL, 1000000000000ULL, 10000000000000ULL, 100000000000000ULL,
+    1000000000000000ULL, 10000000000000000ULL, 100000000000000000ULL, 1000000000000000000ULL,
+    10000000000000000000ULL
+};
 static const uint64_t CACHED_POWERS_F[] = {
     0XFA8FD5A0081C0288ULL,
     0XBAAEE17FA23EBF76ULL,
-- 
2.43.0


From 4ead2112a607b48d4dd9ff36f62e134a6abc69d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:51 +0000
Subject: [PATCH 2/8] fix: shift every word of a big integer on whole-word
 shifts

A shift by a multiple of 64 bits moved memory starting at the last word, so
the result was wrong for any value of more than one word.
---
 src/detail/bigint.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/detail/bigint.cpp b/src/detail/bigint.cpp
index b3cfba8..0917ad5 100644
--- a/src/detail/bigint.cpp
+++ b/src/detail/bigint.cpp
@@ -331,7 +331,7 @@ BigInteger & BigInteger::operator<<=(size_t shift)
     LEXI_ASSERT(count_ + offset <= capacity, "BigInteger::operator<<= would exceeds bounds.");
 
     if (interShift == 0) {
-        memmove(&digits_[count_ - 1 + offset], &digits_[count_ - 1], count_ * sizeof(uint64_t));
+        memmove(&digits_[offset], &digits_[0], count_ * sizeof(uint64_t));
         count_ += offset;
     }
     else {
-- 
2.43.0


From c66e16cfe5dfd605a5833c41474ee7930b8fe1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:26 +0000
Subject: [PATCH 3/8] fix: reject big-integer shifts that need one word more
 than the capacity

A shift by a non-multiple of 64 writes one word above the shifted value; at
full capacity that word lies outside the storage.
---
 src/detail/bigint.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/detail/bigint.cpp b/src/detail/bigint.cpp
index 0917ad5..6360383 100644
--- a/src/detail/bigint.cpp
+++ b/src/detail/bigint.cpp
@@ -328,7 +328,7 @@ BigInteger & BigInteger::operator<<=(size_t shift)
 
     size_t offset = shift / INT64_BYTE;
     size_t interShift = shift % INT64_BYTE;
-    LEXI_ASSERT(count_ + offset <= capacity, "BigInteger::operator<<= would exceeds bounds.");
+    LEXI_ASSERT(count_ + offset + (interShift ? 1 : 0) <= capacity, "BigInteger::operator<<= would exceeds bounds.");
 
     if (interShift == 0) {
         memmove(&digits_[offset], &digits_[0], count_ * sizeof(uint64_t));
-- 
2.43.0


From 94fd92ad6b1d2f0eb1d45108f353252e767a6a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:26 +0000
Subject: [PATCH 4/8] fix: keep the borrow when subtracting an all-ones
 big-integer word

With a borrow pending, subtracting the word 2^64-1 gives back the original
word, and the comparison used to detect the borrow missed it.
---
 src/detail/bigint.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/detail/bigint.cpp b/src/detail/bigint.cpp
index 6360383..71d186b 100644
--- a/src/detail/bigint.cpp
+++ b/src/detail/bigint.cpp
@@ -408,11 +408,10 @@ bool BigInteger::difference(const BigInteger &other,
 
     uint64_t borrow = 0;
     for (size_t i = 0; i < a->count_; i++) {
-        uint64_t d = a->digits_[i] - borrow;
-        if (i < b->count_) {
-            d -= b->digits_[i];
-        }
-        borrow = (d > a->digits_[i]) ? 1 : 0;
+        const uint64_t x = a->digits_[i];
+        const uint64_t y = i < b->count_ ? b->digits_[i] : 0;
+        const uint64_t d = x - y - borrow;
+        borrow = (x < y || (x == y && borrow)) ? 1 : 0;
         out->digits_[i] = d;
         if (d != 0) {
             out->count_ = i + 1;
-- 
2.43.0


From 81a864fdfade35bdbe1e7c1eb796e2b821985e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:26 +0000
Subject: [PATCH 5/8] fix: make copied integer and float formatters
 self-contained

The markers of a copied formatter pointed into the buffer of the original,
so a copy showed the original's text and dangled once it was destroyed.
---
 include/lexi/float.hpp |  2 ++
 include/lexi/int.hpp   |  2 ++
 src/float.cpp          | 23 +++++++++++++++++++++++
 src/int.cpp            | 25 +++++++++++++++++++++++++
 4 files changed, 52 insertions(+)

diff --git a/include/lexi/float.hpp b/include/lexi/float.hpp
index caf710e..d0dbec1 100644
--- a/include/lexi/float.hpp
+++ b/include/lexi/float.hpp
@@ -31,6 +31,8 @@ public:
     FormatFloat(float value);
     FormatFloat(double value);
     FormatFloat(long double value);
+    FormatFloat(const FormatFloat &other);
+    FormatFloat & operator=(const FormatFloat &other);
 
     // DATA
     size_t size() const;
diff --git a/include/lexi/int.hpp b/include/lexi/int.hpp
index bd6e3ae..afd22ae 100644
--- a/include/lexi/int.hpp
+++ b/include/lexi/int.hpp
@@ -36,6 +36,8 @@ public:
     FormatInt(unsigned long value);
     FormatInt(long long value);
     FormatInt(unsigned long long value);
+    FormatInt(const FormatInt &other);
+    FormatInt & operator=(const FormatInt &other);
 
     // DATA
     size_t size() const;
diff --git a/src/float.cpp b/src/float.cpp
index 52f7535..0b3ba51 100644
--- a/src/float.cpp
+++ b/src/float.cpp
@@ -68,6 +68,29 @@ FormatFloat::FormatFloat(long double value)
 }
 
 
+/** \brief Copy constructor, the markers refer to the own buffer.
+ */
+FormatFloat::FormatFloat(const FormatFloat &other)
+{
+    memcpy(buffer_, other.buffer_, sizeof(buffer_));
+    first = buffer_;
+    last = buffer_ + other.size();
+}
+
+
+/** \brief Copy assignment operator, the markers refer to the own buffer.
+ */
+FormatFloat & FormatFloat::operator=(const FormatFloat &other)
+{
+    if (this != &other) {
+        memcpy(buffer_, other.buffer_, sizeof(buffer_));
+        first = buffer_;
+        last = buffer_ + other.size();
+    }
+    return *this;
+}
+
+
 /** \brief Size of current buffer.
  */
 size_t FormatFloat::size() const
diff --git a/src/int.cpp b/src/int.cpp
index 93884db..dcf40d7 100644
--- a/src/int.cpp
+++ b/src/int.cpp
@@ -9,6 +9,8 @@
 #include "lexi/detail/architecture.hpp"
 #include "lexi/detail/itoa.hpp"
 
+#include <cstring>
+
 
 namespace lexi
 {
@@ -110,6 +112,29 @@ FormatInt::FormatInt(unsigned long long value)
 }
 
 
+/** \brief Copy constructor, the markers refer to the own buffer.
+ */
+FormatInt::FormatInt(const FormatInt &other)
+{
+    memcpy(buffer_, other.buffer_, sizeof(buffer_));
+    first = buffer_;
+    last = buffer_ + other.size();
+}
+
+
+/** \brief Copy assignment operator, the markers refer to the own buffer.
+ */
+FormatInt & FormatInt::operator=(const FormatInt &other)
+{
+    if (this != &other) {
+        memcpy(buffer_, other.buffer_, sizeof(buffer_));
+        first = buffer_;
+        last = buffer_ + other.size();
+    }
+    return *this;
+}
+
+
 /** \brief Number of characters written to the output buffer.
  */
 size_t FormatInt::size() const
-- 
2.43.0


From 0d519586ade3e93c8afda0bb3d185d52d7fa6174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:26 +0000
Subject: [PATCH 6/8] fix: round extracted floats once, to the requested
 precision

Float and double were obtained by narrowing a long double, which rounds
twice: lexi<double>("5.263409742778544e90"), the library's own text for a
double, gave the neighbouring double.
---
 include/lexi/float.hpp |  4 +++-
 src/float.cpp          | 11 +++++++----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/lexi/float.hpp b/include/lexi/float.hpp
index d0dbec1..f98acf1 100644
--- a/include/lexi/float.hpp
+++ b/include/lexi/float.hpp
@@ -54,7 +54,9 @@ public:
 class ExtractFloat
 {
 protected:
-    long double data_;
+    float float_;
+    double double_;
+    long double longDouble_;
 
 public:
     ExtractFloat(const std::string &string);
diff --git a/src/float.cpp b/src/float.cpp
index 0b3ba51..1396bc7 100644
--- a/src/float.cpp
+++ b/src/float.cpp
@@ -160,7 +160,10 @@ FormatFloat::operator std::string() const
 ExtractFloat::ExtractFloat(const std::string &string)
 {
     // TODO: optimize this.
-    data_ = std::strtold(string.data(), nullptr);
+    // Convert for each precision: narrowing the long double would round twice.
+    float_ = std::strtof(string.data(), nullptr);
+    double_ = std::strtod(string.data(), nullptr);
+    longDouble_ = std::strtold(string.data(), nullptr);
 }
 
 
@@ -168,7 +171,7 @@ ExtractFloat::ExtractFloat(const std::string &string)
  */
 ExtractFloat::operator float() const
 {
-    return data_;
+    return float_;
 }
 
 
@@ -176,7 +179,7 @@ ExtractFloat::operator float() const
  */
 ExtractFloat::operator double() const
 {
-    return data_;
+    return double_;
 }
 
 
@@ -184,7 +187,7 @@ ExtractFloat::operator double() const
  */
 ExtractFloat::operator long double() const
 {
-    return data_;
+    return longDouble_;
 }
 
 }   /* lexi */
-- 
2.43.0


From f8b63c7c36b61c0cba3267f8126b6d3f55f0c8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:26 +0000
Subject: [PATCH 7/8] fix: take the size of configured boolean and null
 literals from the literal

The sizes 4 and 5 were hard-coded, so a build with another LEXI_NULL,
LEXI_TRUE or LEXI_FALSE reported stray bytes, or overflowed the buffer.
---
 src/bool.cpp | 6 ++++--
 src/null.cpp | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/bool.cpp b/src/bool.cpp
index a67d1b4..8a0b1cc 100644
--- a/src/bool.cpp
+++ b/src/bool.cpp
@@ -25,12 +25,14 @@ static const char FALSE_STRING[] = LEXI_FALSE;
 
 FormatBool::FormatBool(const bool b)
 {
+    static_assert(sizeof(TRUE_STRING) <= sizeof(buffer_), "LEXI_TRUE is too long.");
+    static_assert(sizeof(FALSE_STRING) <= sizeof(buffer_), "LEXI_FALSE is too long.");
     if (b) {
         strncpy(buffer_, TRUE_STRING, sizeof(TRUE_STRING));
-        size_ = 4;
+        size_ = sizeof(TRUE_STRING) - 1;
     } else {
         strncpy(buffer_, FALSE_STRING, sizeof(FALSE_STRING));
-        size_ = 5;
+        size_ = sizeof(FALSE_STRING) - 1;
     }
 }
 
diff --git a/src/null.cpp b/src/null.cpp
index 905a338..244010b 100644
--- a/src/null.cpp
+++ b/src/null.cpp
@@ -24,6 +24,7 @@ static const char NULL_STRING[] = LEXI_NULL;
 
 FormatNull::FormatNull()
 {
+    static_assert(sizeof(NULL_STRING) <= sizeof(buffer_), "LEXI_NULL is too long.");
     strncpy(buffer_, NULL_STRING, sizeof(NULL_STRING));
 }
 
@@ -38,7 +39,7 @@ FormatNull::FormatNull(const std::nullptr_t nullp)
  */
 size_t FormatNull::size() const
 {
-    return 4;
+    return sizeof(NULL_STRING) - 1;
 }
 
 
-- 
2.43.0


From 80a783bebfbc4d52c093a358c392f36320412713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:22 +0000
Subject: [PATCH 8/8] fix: use the exact lower rounding boundary of the
 smallest normal double

At 2^-1022 the spacing of doubles does not halve, so the lower boundary lies
half a unit below, not a quarter.
---
 src/detail/diyfp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/detail/diyfp.cpp b/src/detail/diyfp.cpp
index 9837698..9dc2742 100644
--- a/src/detail/diyfp.cpp
+++ b/src/detail/diyfp.cpp
@@ -225,7 +225,7 @@ DiyFp DiyFp::normalizeBoundary() const
 void DiyFp::normalizedBoundaries(DiyFp *minus, DiyFp *plus) const
 {
     DiyFp pl = DiyFp((f << 1) + 1, e - 1).normalizeBoundary();
-    DiyFp mi = (f == HIDDEN_BIT) ? DiyFp((f << 2) - 1, e - 2) : DiyFp((f << 1) - 1, e - 1);
+    DiyFp mi = (f == HIDDEN_BIT && e > DP_MIN_EXPONENT + 1) ? DiyFp((f << 2) - 1, e - 2) : DiyFp((f << 1) - 1, e - 1);
     mi.f <<= mi.e - pl.e;
     mi.e = pl.e;
     *plus = pl;
-- 
2.43.0

