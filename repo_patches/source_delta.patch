From 5f8c49cc2c4da04d7adaa0c5a89eebbb9ead20fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:31 +0000
Subject: [PATCH 01/34] fix: Int constructed from INT_MIN has no digits

---
 sources/int.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sources/int.hpp b/sources/int.hpp
index 83999b6..1cd28a5 100644
--- a/sources/int.hpp
+++ b/sources/int.hpp
@@ -161,10 +161,9 @@ public:
     Int(int integer = 0)
     {
         sign_ = integer == 0 ? 0 : (integer > 0 ? 1 : -1);
-        integer = std::abs(integer);
-        while (integer > 0)
+        while (integer != 0)
         {
-            chunks_.push_back(integer % BASE);
+            chunks_.push_back(std::abs(integer % BASE)); // std::abs(integer) would overflow for INT_MIN
             integer /= BASE;
         }
     }
-- 
2.43.0


From bff1c2ec14960287d09db60095f55b395d6d2c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:31 +0000
Subject: [PATCH 02/34] fix: Int += itself reads digits it has already
 overwritten

---
 sources/int.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sources/int.hpp b/sources/int.hpp
index 1cd28a5..8b14d66 100644
--- a/sources/int.hpp
+++ b/sources/int.hpp
@@ -351,6 +351,12 @@ public:
 
         // now, the sign of two integers is the same and not zero
 
+        // the calculation below overwrites the digits of this, so rhs must be another object
+        if (this == &rhs)
+        {
+            return *this += Int(rhs);
+        }
+
         // normalize
         auto& a = chunks_;
         const auto& b = rhs.chunks_;
-- 
2.43.0


From 90c51e42373f2e4eb0c4b0d3707122f230b60d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:31 +0000
Subject: [PATCH 03/34] fix: Int -= writes one element past the digits

---
 sources/int.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sources/int.hpp b/sources/int.hpp
index 8b14d66..8aa3b47 100644
--- a/sources/int.hpp
+++ b/sources/int.hpp
@@ -410,7 +410,10 @@ public:
         {
             auto tmp = a[i] - b[i];
             a[i] = cycle_mod(tmp, BASE);
-            a[i + 1] += floor_div(tmp, BASE);
+            if (tmp < 0) // borrow, never happens at the most significant digit
+            {
+                a[i + 1] += floor_div(tmp, BASE);
+            }
         }
         for (int i = b.size(); i < a.size() && a[i] < 0; ++i) // carry
         {
-- 
2.43.0


From 5ae61bed562463c97d244b585fcbe89d42d47610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:31 +0000
Subject: [PATCH 04/34] fix: Int %= loses the sign of the dividend

---
 sources/int.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sources/int.hpp b/sources/int.hpp
index 8aa3b47..a594083 100644
--- a/sources/int.hpp
+++ b/sources/int.hpp
@@ -520,6 +520,7 @@ public:
         // prepare variables
         int size = chunks_.size() - rhs.chunks_.size() + 1;
 
+        const auto sign = sign_; // the sign of result is the sign of this, so that a == (a / b) * b + a % b
         sign_ = 1;
 
         Int tmp;       // intermediate variable for rhs * 10^i
@@ -543,6 +544,11 @@ public:
             }
         }
 
+        if (sign_ != 0)
+        {
+            sign_ = sign;
+        }
+
         return trim();
     }
 
-- 
2.43.0


From 17435a49aa69355f1808c0d56791d0dbca1c827c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:31 +0000
Subject: [PATCH 05/34] fix: Int::sqrt does not terminate just below a perfect
 square

---
 sources/int.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sources/int.hpp b/sources/int.hpp
index a594083..c505244 100644
--- a/sources/int.hpp
+++ b/sources/int.hpp
@@ -725,18 +725,19 @@ public:
         // using Newton's method
 
         // as far as possible to reduce the number of iterations
-        // cur_sqrt is about 10^(digits/2) in O(1)
-        Int cur_sqrt{1, std::vector<int>(integer.chunks_.size() / 2, 0)};
+        // cur_sqrt is about 10^(digits/2) in O(1), and not less than the square root
+        Int cur_sqrt{1, std::vector<int>((integer.chunks_.size() + 1) / 2, 0)};
         cur_sqrt.chunks_.push_back(1);
 
+        // starting from above, the sequence decreases until it reaches the square root, and then may oscillate
         Int pre_sqrt;
-        while (cur_sqrt != pre_sqrt)
+        do
         {
             pre_sqrt = cur_sqrt;
             cur_sqrt = (cur_sqrt + integer / cur_sqrt) / 2;
-        }
+        } while (cur_sqrt < pre_sqrt);
 
-        return cur_sqrt;
+        return pre_sqrt;
     }
 
     /// Return `(base**exp) % mod` (`mod` default = 0 means does not perform module).
-- 
2.43.0


From e2dc61ce1fa32272c2144977abe31f8fa6134966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:31 +0000
Subject: [PATCH 06/34] fix: Int::pow ignores the modulus if the base is 1 or
 -1 or the exponent is 0

---
 sources/int.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sources/int.hpp b/sources/int.hpp
index c505244..a445d6d 100644
--- a/sources/int.hpp
+++ b/sources/int.hpp
@@ -747,7 +747,8 @@ public:
         // if base.abs() is 1, only when base is negative and exp is odd return -1, otherwise return 1
         if (base.digits() == 1 && base.chunks_[0] == 1)
         {
-            return base.sign_ == -1 && exp.is_odd() ? -1 : 1;
+            const Int unit = base.sign_ == -1 && exp.is_odd() ? -1 : 1;
+            return mod.is_zero() ? unit : unit % mod;
         }
 
         // then, check if exp is negative
@@ -765,7 +766,7 @@ public:
 
         Int num = base;
         Int n = exp;
-        Int result = 1; // this**0 == 1
+        Int result = mod.is_zero() ? Int(1) : Int(1) % mod; // this**0 == 1
 
         while (!n.is_zero())
         {
-- 
2.43.0


From cfa86cafbada0e53db6236efb2dc0f1721b09cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:31 +0000
Subject: [PATCH 07/34] fix: Int::to_integer overflows for the minimum value of
 a signed type

---
 sources/int.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/int.hpp b/sources/int.hpp
index a445d6d..320a6c9 100644
--- a/sources/int.hpp
+++ b/sources/int.hpp
@@ -696,9 +696,9 @@ public:
         T result = 0;
         for (int i = chunks_.size() - 1; i >= 0; --i) // i = -1 if is zero, ok
         {
-            result = result * BASE + chunks_[i];
+            result = result * BASE + chunks_[i] * sign_; // signed digits, since the minimum value has no positive counterpart
         }
-        return result * sign_;
+        return result;
     }
 
     /*
-- 
2.43.0


From 23178a9e94e16e6b3f88dfdb8ba6d5bbdbbc11c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:31 +0000
Subject: [PATCH 08/34] fix: printing an Int changes the fill character of the
 stream

---
 sources/int.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sources/int.hpp b/sources/int.hpp
index 320a6c9..6e150ab 100644
--- a/sources/int.hpp
+++ b/sources/int.hpp
@@ -882,8 +882,10 @@ public:
         os << *integer.chunks_.rbegin();
         if (integer.chunks_.size() > 1)
         {
+            const char fill = os.fill('0');
             std::for_each(integer.chunks_.rbegin() + 1, integer.chunks_.rend(), [&](const auto& c)
-                          { os << std::setw(Int::DIGITS_PER_CHUNK) << std::setfill('0') << std::to_string(c); });
+                          { os << std::setw(Int::DIGITS_PER_CHUNK) << std::to_string(c); });
+            os.fill(fill);
         }
 
         return os;
-- 
2.43.0


From a65d00bf9f564e5fef70455419853aaf239faabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:31 +0000
Subject: [PATCH 09/34] fix: Fraction arithmetic overflows although the result
 is representable

---
 sources/fraction.hpp | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/sources/fraction.hpp b/sources/fraction.hpp
index 19a226e..37e2fd7 100644
--- a/sources/fraction.hpp
+++ b/sources/fraction.hpp
@@ -27,24 +27,23 @@ public:
      */
 
     /// Create a fraction with value `numerator/denominator`.
-    Fraction(int numerator = 0, int denominator = 1)
-        : numerator_(numerator)
-        , denominator_(denominator)
+    /// They are wider than the stored ones, so that intermediate results can be simplified before they are stored.
+    Fraction(long long numerator = 0, long long denominator = 1)
     {
         // make sure the denominator is not zero
-        internal::check_zero(denominator_);
+        internal::check_zero(denominator);
 
         // make sure the denominator is a positive number
-        if (denominator_ < 0)
+        if (denominator < 0)
         {
-            numerator_ = -numerator_;
-            denominator_ = -denominator_;
+            numerator = -numerator;
+            denominator = -denominator;
         }
 
         // simplify
-        int gcd = std::gcd(numerator_, denominator_);
-        numerator_ /= gcd;
-        denominator_ /= gcd;
+        long long gcd = std::gcd(numerator, denominator);
+        numerator_ = numerator / gcd;
+        denominator_ = denominator / gcd;
     }
 
     /// Copy constructor.
@@ -177,7 +176,7 @@ public:
     /// Return the opposite value of this.
     Fraction operator-() const
     {
-        return Fraction(-numerator_, denominator_);
+        return Fraction(-1LL * numerator_, denominator_);
     }
 
     /// Return the absolute value of this.
@@ -189,25 +188,25 @@ public:
     /// Return this + `rhs`.
     Fraction operator+(const Fraction& rhs) const
     {
-        return Fraction(numerator_ * rhs.denominator_ + denominator_ * rhs.numerator_, denominator_ * rhs.denominator_);
+        return Fraction(1LL * numerator_ * rhs.denominator_ + 1LL * denominator_ * rhs.numerator_, 1LL * denominator_ * rhs.denominator_);
     }
 
     /// Return this - `rhs`.
     Fraction operator-(const Fraction& rhs) const
     {
-        return Fraction(numerator_ * rhs.denominator_ - denominator_ * rhs.numerator_, denominator_ * rhs.denominator_);
+        return Fraction(1LL * numerator_ * rhs.denominator_ - 1LL * denominator_ * rhs.numerator_, 1LL * denominator_ * rhs.denominator_);
     }
 
     /// Return this * `rhs`.
     Fraction operator*(const Fraction& rhs) const
     {
-        return Fraction(numerator_ * rhs.numerator_, denominator_ * rhs.denominator_);
+        return Fraction(1LL * numerator_ * rhs.numerator_, 1LL * denominator_ * rhs.denominator_);
     }
 
     /// Return this / `rhs` (not zero).
     Fraction operator/(const Fraction& rhs) const
     {
-        return Fraction(numerator_ * rhs.denominator_, denominator_ * rhs.numerator_);
+        return Fraction(1LL * numerator_ * rhs.denominator_, 1LL * denominator_ * rhs.numerator_);
     }
 
     /// Return this % `rhs` (not zero).
@@ -215,7 +214,7 @@ public:
     {
         internal::check_zero(rhs);
 
-        return Fraction((numerator_ * rhs.denominator_) % (rhs.numerator_ * denominator_), denominator_ * rhs.denominator_);
+        return Fraction((1LL * numerator_ * rhs.denominator_) % (1LL * rhs.numerator_ * denominator_), 1LL * denominator_ * rhs.denominator_);
     }
 
     /// Calculate the greatest common divisor of two fractions.
-- 
2.43.0


From a865ee75df29179a30b253a9083b55a465d09c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:31 +0000
Subject: [PATCH 10/34] fix: Fraction comparison overflows

---
 sources/fraction.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sources/fraction.hpp b/sources/fraction.hpp
index 37e2fd7..b38c533 100644
--- a/sources/fraction.hpp
+++ b/sources/fraction.hpp
@@ -68,10 +68,11 @@ public:
         // this = a/b; that = c/d;
         // so, this - that = a/b - c/d = (ad - bc)/(bd)
         // since bd is always positive, compute (ad-bc) only
-        int a = this->numerator_;
-        int b = this->denominator_;
-        int c = that.numerator_;
-        int d = that.denominator_;
+        // the products of two ints may not fit int
+        long long a = this->numerator_;
+        long long b = this->denominator_;
+        long long c = that.numerator_;
+        long long d = that.denominator_;
 
         return a * d - b * c;
     }
-- 
2.43.0


From f28dd76da7d79cb59d673481e8d8fc2936fc2b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:31 +0000
Subject: [PATCH 11/34] fix: different fractions with the same double value
 compare equal

---
 sources/fraction.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/sources/fraction.hpp b/sources/fraction.hpp
index b38c533..749f192 100644
--- a/sources/fraction.hpp
+++ b/sources/fraction.hpp
@@ -62,6 +62,20 @@ public:
      * Comparison
      */
 
+    /// Determine whether this fraction is equal to another fraction.
+    bool operator==(const Fraction& that) const
+    {
+        return numerator_ == that.numerator_ && denominator_ == that.denominator_;
+    }
+
+    /// Determine whether this fraction is equal to a number.
+    template <typename T>
+        requires std::is_arithmetic_v<T>
+    bool operator==(const T& number) const
+    {
+        return double(*this) == number;
+    }
+
     /// Compare the fraction with another fraction.
     auto operator<=>(const Fraction& that) const
     {
-- 
2.43.0


From d70a2b6818de109da28772b2056b60c7546ecbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:31 +0000
Subject: [PATCH 12/34] fix: Fraction::gcd and Fraction::lcm overflow in
 intermediate results

---
 sources/fraction.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sources/fraction.hpp b/sources/fraction.hpp
index 749f192..2336e3c 100644
--- a/sources/fraction.hpp
+++ b/sources/fraction.hpp
@@ -235,7 +235,8 @@ public:
     /// Calculate the greatest common divisor of two fractions.
     static Fraction gcd(const Fraction& a, const Fraction& b)
     {
-        return internal::gcd(a, b);
+        // since a and b are simplified, the GCD is gcd(numerators) / lcm(denominators)
+        return Fraction(std::gcd<long long, long long>(a.numerator_, b.numerator_), std::lcm<long long, long long>(a.denominator_, b.denominator_));
     }
 
     /// Calculate the least common multiple of two fractions.
@@ -246,7 +247,8 @@ public:
             return 0;
         }
 
-        return (a * b).abs() / gcd(a, b); // LCM = |a * b| / GCD
+        // since a and b are simplified, the LCM is lcm(numerators) / gcd(denominators)
+        return Fraction(std::lcm<long long, long long>(a.numerator_, b.numerator_), std::gcd<long long, long long>(a.denominator_, b.denominator_));
     }
 
     /*
-- 
2.43.0


From 52a2bb239838933cabfb7d2ba24b1cb43267ce43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:31 +0000
Subject: [PATCH 13/34] fix: reading a Fraction or a Complex at the end of the
 input does not terminate

---
 sources/complex.hpp  | 2 +-
 sources/fraction.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/complex.hpp b/sources/complex.hpp
index e4f4244..5dcf8b3 100644
--- a/sources/complex.hpp
+++ b/sources/complex.hpp
@@ -224,7 +224,7 @@ public:
     /// ```
     friend std::istream& operator>>(std::istream& is, Complex& complex)
     {
-        while (is.peek() <= 0x20)
+        while (is.peek() != std::istream::traits_type::eof() && is.peek() <= 0x20)
         {
             is.ignore();
         }
diff --git a/sources/fraction.hpp b/sources/fraction.hpp
index 2336e3c..714da5a 100644
--- a/sources/fraction.hpp
+++ b/sources/fraction.hpp
@@ -279,7 +279,7 @@ public:
     /// ```
     friend std::istream& operator>>(std::istream& is, Fraction& fraction)
     {
-        while (is.peek() <= 0x20)
+        while (is.peek() != std::istream::traits_type::eof() && is.peek() <= 0x20)
         {
             is.ignore();
         }
-- 
2.43.0


From 7c96ed84728f97250cc5892b70a9a56aade61dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:31 +0000
Subject: [PATCH 14/34] fix: Complex input uses an uninitialized character
 after a malformed imaginary part

---
 sources/complex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/complex.hpp b/sources/complex.hpp
index 5dcf8b3..cad83bc 100644
--- a/sources/complex.hpp
+++ b/sources/complex.hpp
@@ -252,7 +252,7 @@ public:
         }
 
         double imag;
-        char c;
+        char c = 0; // not read if imag is malformed
         is >> imag >> c;
         if (c != 'j' || is.peek() > 0x20) // handle "1z+2j" or "1+z2j" or "1+2zj" or "1jj2j"
         {
-- 
2.43.0


From 50a6ee0d11b18e57af0e80fdc61df56ded46899f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:31 +0000
Subject: [PATCH 15/34] fix: Complex input accepts an imaginary part without
 sign

---
 sources/complex.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sources/complex.hpp b/sources/complex.hpp
index cad83bc..fab00dd 100644
--- a/sources/complex.hpp
+++ b/sources/complex.hpp
@@ -250,6 +250,10 @@ public:
             }
             throw std::runtime_error("Error: Wrong complex literal.");
         }
+        if (is.peek() != '+' && is.peek() != '-') // handle "1.5.2j"
+        {
+            throw std::runtime_error("Error: Wrong complex literal.");
+        }
 
         double imag;
         char c = 0; // not read if imag is malformed
-- 
2.43.0


From c6003c9b7305e5f6dcca6ccd61716ca2cace47ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:31 +0000
Subject: [PATCH 16/34] fix: infinite Complex values are not equal to
 themselves

---
 sources/complex.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sources/complex.hpp b/sources/complex.hpp
index fab00dd..574db70 100644
--- a/sources/complex.hpp
+++ b/sources/complex.hpp
@@ -53,7 +53,9 @@ public:
     bool operator==(const Complex& that) const
     {
         constexpr double epsilon = std::numeric_limits<double>::epsilon();
-        return std::abs(real_ - that.real_) < epsilon && std::abs(imag_ - that.imag_) < epsilon;
+        const auto equal = [](double a, double b)
+        { return a == b || std::abs(a - b) < epsilon; }; // inf - inf is NaN
+        return equal(real_, that.real_) && equal(imag_, that.imag_);
     }
 
     /*
-- 
2.43.0


From 12a613e61a8c97f04fc4515218ccea5c57c70514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:31 +0000
Subject: [PATCH 17/34] fix: Str lower and upper corrupt characters that are
 not letters

---
 sources/str.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/str.hpp b/sources/str.hpp
index 5b85716..e42ef98 100644
--- a/sources/str.hpp
+++ b/sources/str.hpp
@@ -518,7 +518,7 @@ public:
     {
         std::string buffer = str_;
         std::for_each(buffer.begin(), buffer.end(), [](char& c)
-                      { c |= 0b0010'0000; });
+                      { c |= (c >= 'A' && c <= 'Z') ? 0b0010'0000 : 0; });
 
         return buffer;
     }
@@ -528,7 +528,7 @@ public:
     {
         std::string buffer = str_;
         std::for_each(buffer.begin(), buffer.end(), [](char& c)
-                      { c &= 0b1101'1111; });
+                      { c &= (c >= 'a' && c <= 'z') ? 0b1101'1111 : 0b1111'1111; });
 
         return buffer;
     }
-- 
2.43.0


From c9ec244533cf18dd69ad2c834de7b8e744419f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:31 +0000
Subject: [PATCH 18/34] fix: Str strip removes non-ASCII characters

---
 sources/str.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/str.hpp b/sources/str.hpp
index e42ef98..d478fe2 100644
--- a/sources/str.hpp
+++ b/sources/str.hpp
@@ -578,14 +578,14 @@ public:
         std::string buffer = str_;
 
         int i = 0;
-        while (i < int(buffer.size()) && (ch == -1 ? buffer[i] <= 0x20 : buffer[i] == ch))
+        while (i < int(buffer.size()) && (ch == -1 ? (unsigned char)(buffer[i]) <= 0x20 : buffer[i] == ch))
         {
             ++i;
         }
         buffer.erase(buffer.begin(), buffer.begin() + i);
 
         i = buffer.size() - 1;
-        while (i >= 0 && (ch == -1 ? buffer[i] <= 0x20 : buffer[i] == ch))
+        while (i >= 0 && (ch == -1 ? (unsigned char)(buffer[i]) <= 0x20 : buffer[i] == ch))
         {
             --i;
         }
-- 
2.43.0


From 1d58a7c4b860c21a4982cde29ffe9770a2221492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:31 +0000
Subject: [PATCH 19/34] fix: slice with a large step overflows the index and
 reads out of bounds

---
 sources/list.hpp | 2 +-
 sources/str.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/list.hpp b/sources/list.hpp
index b279934..7334f15 100644
--- a/sources/list.hpp
+++ b/sources/list.hpp
@@ -353,7 +353,7 @@ public:
 
         // copy
         std::vector<T> buffer;
-        for (int i = start; (step > 0) ? (i < stop) : (i > stop); i += step)
+        for (long long i = start; (step > 0) ? (i < stop) : (i > stop); i += step) // i + step may not fit int
         {
             buffer.push_back(vector_[i]);
         }
diff --git a/sources/str.hpp b/sources/str.hpp
index d478fe2..6ab0ee0 100644
--- a/sources/str.hpp
+++ b/sources/str.hpp
@@ -612,7 +612,7 @@ public:
 
         // copy
         std::string buffer;
-        for (int i = start; (step > 0) ? (i < stop) : (i > stop); i += step)
+        for (long long i = start; (step > 0) ? (i < stop) : (i > stop); i += step) // i + step may not fit int
         {
             buffer += str_[i];
         }
-- 
2.43.0


From b5fcee821e60a7628ba5c3d07810b6d6639ae5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:31 +0000
Subject: [PATCH 20/34] fix: erase with stop before start corrupts the
 container

---
 sources/list.hpp | 2 +-
 sources/str.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/list.hpp b/sources/list.hpp
index 7334f15..26177aa 100644
--- a/sources/list.hpp
+++ b/sources/list.hpp
@@ -292,7 +292,7 @@ public:
     List& erase(int start, int stop)
     {
         internal::check_bounds(start, 0, size() + 1);
-        internal::check_bounds(stop, 0, size() + 1);
+        internal::check_bounds(stop, start, size() + 1);
 
         vector_.erase(vector_.begin() + start, vector_.begin() + stop);
 
diff --git a/sources/str.hpp b/sources/str.hpp
index 6ab0ee0..c5fbdaf 100644
--- a/sources/str.hpp
+++ b/sources/str.hpp
@@ -537,7 +537,7 @@ public:
     Str erase(int start, int stop) const
     {
         internal::check_bounds(start, 0, size() + 1);
-        internal::check_bounds(stop, 0, size() + 1);
+        internal::check_bounds(stop, start, size() + 1);
 
         std::string buffer = str_;
         buffer.erase(buffer.begin() + start, buffer.begin() + stop);
-- 
2.43.0


From 2146a5fff0750d7e2d2ac98b6bdee7380173799b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:31 +0000
Subject: [PATCH 21/34] fix: searching an empty or partly outside range reads
 out of bounds

---
 sources/list.hpp | 6 ++++++
 sources/str.hpp  | 5 +++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/sources/list.hpp b/sources/list.hpp
index 26177aa..d36fa94 100644
--- a/sources/list.hpp
+++ b/sources/list.hpp
@@ -126,7 +126,13 @@ public:
     /// Return the index of the first occurrence of the specified `element`, or -1 if the list does not contain the element in the specified range [`start`, `stop`].
     int index(const T& element, int start = 0, int stop = INT_MAX) const
     {
+        start = start < 0 ? 0 : start;
         stop = stop > size() ? size() : stop;
+        if (start > stop)
+        {
+            return -1;
+        }
+
         auto it = std::find(begin() + start, begin() + stop, element);
         return it == begin() + stop ? -1 : it - begin();
     }
diff --git a/sources/str.hpp b/sources/str.hpp
index c5fbdaf..752579e 100644
--- a/sources/str.hpp
+++ b/sources/str.hpp
@@ -224,12 +224,13 @@ public:
     /// Or -1 if the string does not contain the pattern (in the specified range).
     int find(const Str& pattern, int start = 0, int stop = INT_MAX) const
     {
-        if (start > size())
+        start = start < 0 ? 0 : start;
+        stop = stop > size() ? size() : stop;
+        if (start > stop)
         {
             return -1;
         }
 
-        stop = stop > size() ? size() : stop;
         std::string_view view(str_.data() + start, stop - start);
         auto pos = view.find(pattern.str_);
 
-- 
2.43.0


From 6492f5ef4a945fdcf2098f1b5ca1de6940480306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:31 +0000
Subject: [PATCH 22/34] fix: repeating more than INT_MAX elements overflows and
 writes out of bounds

---
 sources/list.hpp    | 2 +-
 sources/str.hpp     | 2 ++
 sources/utility.hpp | 2 +-
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/sources/list.hpp b/sources/list.hpp
index d36fa94..f23d8f9 100644
--- a/sources/list.hpp
+++ b/sources/list.hpp
@@ -393,7 +393,7 @@ public:
             throw std::runtime_error("Error: Times to repeat can not be less than zero.");
         }
 
-        internal::check_full(size() * times, INT_MAX);
+        internal::check_full(1LL * size() * times, INT_MAX);
 
         std::vector<T> buffer(size() * times);
         for (int part = 0; part < times; part++)
diff --git a/sources/str.hpp b/sources/str.hpp
index 752579e..f0e69bb 100644
--- a/sources/str.hpp
+++ b/sources/str.hpp
@@ -641,6 +641,8 @@ public:
             throw std::runtime_error("Error: Times to repeat can not be less than zero.");
         }
 
+        internal::check_full(1LL * size() * times, INT_MAX);
+
         std::string buffer(size() * times, 0);
         for (int part = 0; part < times; part++)
         {
diff --git a/sources/utility.hpp b/sources/utility.hpp
index 7dce01e..c45c72a 100644
--- a/sources/utility.hpp
+++ b/sources/utility.hpp
@@ -46,7 +46,7 @@ static inline void check_empty(int size)
 }
 
 // Check whether there is any remaining capacity.
-static inline void check_full(int size, int capacity)
+static inline void check_full(long long size, long long capacity)
 {
     if (size >= capacity)
     {
-- 
2.43.0


From fd3192bf57d323fc07ec6fdda83d5dc437ce7a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:31 +0000
Subject: [PATCH 23/34] fix: rotating right by INT_MIN overflows

---
 sources/deque.hpp | 2 +-
 sources/list.hpp  | 2 +-
 sources/str.hpp   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sources/deque.hpp b/sources/deque.hpp
index 0fbd3ce..f77127a 100644
--- a/sources/deque.hpp
+++ b/sources/deque.hpp
@@ -211,7 +211,7 @@ public:
 
         if (n < 0)
         {
-            return *this <<= -n;
+            return *this <<= -(n % size());
         }
 
         return *this <<= size() - n;
diff --git a/sources/list.hpp b/sources/list.hpp
index f23d8f9..8abca65 100644
--- a/sources/list.hpp
+++ b/sources/list.hpp
@@ -233,7 +233,7 @@ public:
 
         if (n < 0)
         {
-            return *this <<= -n;
+            return *this <<= -(n % size());
         }
 
         return *this <<= size() - n;
diff --git a/sources/str.hpp b/sources/str.hpp
index f0e69bb..94d90f4 100644
--- a/sources/str.hpp
+++ b/sources/str.hpp
@@ -478,7 +478,7 @@ public:
 
         if (n < 0)
         {
-            return *this << -n;
+            return *this << -(n % size());
         }
 
         return *this << size() - n;
-- 
2.43.0


From 73b2ab37ed0c07c885db128d4df719e29f42f927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:31 +0000
Subject: [PATCH 24/34] fix: List /= misses elements if the element is in the
 list itself

---
 sources/list.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sources/list.hpp b/sources/list.hpp
index 8abca65..2b96e75 100644
--- a/sources/list.hpp
+++ b/sources/list.hpp
@@ -218,7 +218,8 @@ public:
     /// Remove all the specified `element`s from the list.
     List& operator/=(const T& element)
     {
-        auto it = std::remove(vector_.begin(), vector_.end(), element);
+        const T value = element; // may be an element of this list, which is overwritten while removing
+        auto it = std::remove(vector_.begin(), vector_.end(), value);
         vector_.erase(it, vector_.end());
         return *this;
     }
-- 
2.43.0


From 393e3ff508ad99e0afc27870ee1a2db87cdb3092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:31 +0000
Subject: [PATCH 25/34] fix: extending a Deque by its own elements reads freed
 memory

---
 sources/deque.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sources/deque.hpp b/sources/deque.hpp
index f77127a..2f384a7 100644
--- a/sources/deque.hpp
+++ b/sources/deque.hpp
@@ -191,14 +191,16 @@ public:
     template <std::input_iterator InputIt>
     void extend_back(const InputIt& first, const InputIt& last)
     {
-        deque_.insert(deque_.end(), first, last);
+        const std::deque<T> range(first, last); // may be a range of this deque, which is invalidated while inserting
+        deque_.insert(deque_.end(), range.begin(), range.end());
     }
 
     /// Extend the left side of the deque by prepending elements of the range [`first`, `last`).
     template <std::input_iterator InputIt>
     void extend_front(const InputIt& first, const InputIt& last)
     {
-        deque_.insert(deque_.begin(), first, last);
+        const std::deque<T> range(first, last); // may be a range of this deque, which is invalidated while inserting
+        deque_.insert(deque_.begin(), range.begin(), range.end());
     }
 
     /// Rotate `n` elements to the right.
-- 
2.43.0


From 06e78acbc5551f31b734e1a0d535d0262288fccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:31 +0000
Subject: [PATCH 26/34] fix: min and max of an empty Dict read out of bounds

---
 sources/dict.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sources/dict.hpp b/sources/dict.hpp
index 33d971e..f62d192 100644
--- a/sources/dict.hpp
+++ b/sources/dict.hpp
@@ -146,12 +146,16 @@ public:
     /// Get the smallest key of the dictionary.
     K min() const
     {
+        internal::check_empty(size());
+
         return map_.cbegin()->first;
     }
 
     /// Get the largest key of the dictionary.
     K max() const
     {
+        internal::check_empty(size());
+
         return map_.crbegin()->first;
     }
 
-- 
2.43.0


From 4c7dfffde13cd6457e7562387eee0e15ec6ce211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:31 +0000
Subject: [PATCH 27/34] fix: Str replace of the empty string cuts the new
 string at a zero byte

---
 sources/str.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sources/str.hpp b/sources/str.hpp
index 94d90f4..699b42c 100644
--- a/sources/str.hpp
+++ b/sources/str.hpp
@@ -557,9 +557,10 @@ public:
     {
         if (old_str.is_empty())
         {
-            std::ostringstream ss;
-            std::copy(str_.begin(), str_.end(), std::ostream_iterator<char>(ss, new_str.data()));
-            return new_str.str_ + ss.str();
+            std::string buffer = new_str.str_;
+            std::for_each(str_.begin(), str_.end(), [&](const char& c)
+                          { buffer += c + new_str.str_; });
+            return buffer;
         }
 
         std::string buffer;
-- 
2.43.0


From d13adbed55e578d7dba7b5e96c79a6736306a2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:26 +0000
Subject: [PATCH 28/34] fix: Str to_decimal gives NaN or a wrong value for many
 digits or a large exponent

---
 sources/str.hpp     | 15 ++++++++-------
 sources/utility.hpp |  1 +
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/sources/str.hpp b/sources/str.hpp
index 699b42c..a666248 100644
--- a/sources/str.hpp
+++ b/sources/str.hpp
@@ -306,10 +306,10 @@ public:
         // not infinity or nan
 
         double sign = 1; // default '+'
-        double decimal_part = 0;
+        std::string digits; // of the integer and decimal part
         int decimal_cnt = 0;
-        double exp_sign = 1; // default '+'
-        int exp_part = 0;
+        int exp_sign = 1; // default '+'
+        long long exp_part = 0;
 
         // FSM
         state st = S_START;
@@ -335,7 +335,7 @@ public:
                 case int(S_START) | int(E_DIGIT):
                 case int(S_SIGN) | int(E_DIGIT):
                 case int(S_INT) | int(E_DIGIT):
-                    decimal_part = decimal_part * 10 + char_to_integer(str_[i], 10);
+                    digits += str_[i];
                     st = S_INT;
                     break;
 
@@ -345,7 +345,7 @@ public:
 
                 case int(S_POINT) | int(E_DIGIT):
                 case int(S_DEC) | int(E_DIGIT):
-                    decimal_part = decimal_part * 10 + char_to_integer(str_[i], 10);
+                    digits += str_[i];
                     decimal_cnt++;
                     st = S_DEC;
                     break;
@@ -363,7 +363,7 @@ public:
                 case int(S_EXP) | int(E_DIGIT):
                 case int(S_EXP_SIGN) | int(E_DIGIT):
                 case int(S_EXP_NUM) | int(E_DIGIT):
-                    exp_part = exp_part * 10 + char_to_integer(str_[i], 10);
+                    exp_part = std::min(exp_part * 10 + char_to_integer(str_[i], 10), 1LL << 40); // can not be outweighed by the digits
                     st = S_EXP_NUM;
                     break;
 
@@ -385,7 +385,8 @@ public:
             throw std::runtime_error("Error: Invalid literal for to_decimal().");
         }
 
-        return sign * ((decimal_part / std::pow(10, decimal_cnt)) * std::pow(10, exp_sign * exp_part));
+        digits += 'e' + std::to_string(exp_sign * exp_part - decimal_cnt);
+        return sign * std::strtod(digits.c_str(), nullptr); // correctly rounded, infinity or zero if out of range
     }
 
     /// Convert the string to an `Int` based on 2-36 `base`.
diff --git a/sources/utility.hpp b/sources/utility.hpp
index c45c72a..f073b24 100644
--- a/sources/utility.hpp
+++ b/sources/utility.hpp
@@ -9,6 +9,7 @@
 #include <algorithm>   // std::copy std::find std::rotate ...
 #include <climits>     // INT_MAX
 #include <cmath>       // std::abs std::pow std::sqrt std::atan2 std::hypot INFINITY NAN
+#include <cstdlib>     // std::strtod
 #include <cstring>     // std::strlen
 #include <iomanip>     // std::setw std::setfill
 #include <istream>     // std::istream
-- 
2.43.0


From ff04becca0b525e7636aa6d37b097f7f5c9ce2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:26 +0000
Subject: [PATCH 29/34] fix: Complex input skips white space before the j of
 the imaginary part

---
 sources/complex.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sources/complex.hpp b/sources/complex.hpp
index 574db70..5932a49 100644
--- a/sources/complex.hpp
+++ b/sources/complex.hpp
@@ -258,9 +258,8 @@ public:
         }
 
         double imag;
-        char c = 0; // not read if imag is malformed
-        is >> imag >> c;
-        if (c != 'j' || is.peek() > 0x20) // handle "1z+2j" or "1+z2j" or "1+2zj" or "1jj2j"
+        is >> imag;
+        if (is.get() != 'j' || is.peek() > 0x20) // handle "1z+2j" or "1+z2j" or "1+2zj" or "1jj2j"
         {
             throw std::runtime_error("Error: Wrong complex literal.");
         }
-- 
2.43.0


From 788ced380b4148b8342da2981fc0c4e8e4a0354d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:58 +0000
Subject: [PATCH 30/34] fix: reading the last Fraction or Complex of the input
 fails the stream

---
 sources/complex.hpp  | 2 +-
 sources/fraction.hpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sources/complex.hpp b/sources/complex.hpp
index 5932a49..e262dab 100644
--- a/sources/complex.hpp
+++ b/sources/complex.hpp
@@ -237,7 +237,7 @@ public:
 
         double real;
         is >> real;
-        if (is.peek() <= 0x20) // next char is white space, ok
+        if (is.eof() || is.peek() <= 0x20) // peek at the end would fail the stream, next char is white space, ok
         {
             complex = real;
             return is;
diff --git a/sources/fraction.hpp b/sources/fraction.hpp
index 714da5a..ebf6de0 100644
--- a/sources/fraction.hpp
+++ b/sources/fraction.hpp
@@ -290,7 +290,7 @@ public:
 
         int num;
         is >> num;
-        if (is.peek() <= 0x20) // next char is white space, ok
+        if (is.eof() || is.peek() <= 0x20) // peek at the end would fail the stream, next char is white space, ok
         {
             fraction = num;
             return is;
@@ -304,7 +304,7 @@ public:
             throw std::runtime_error("Error: Wrong fraction literal.");
         }
         is >> den;
-        if (c != '/' || is.peek() > 0x20) // handle "1|2" or "1/2z"
+        if (c != '/' || (!is.eof() && is.peek() > 0x20)) // handle "1|2" or "1/2z"
         {
             throw std::runtime_error("Error: Wrong fraction literal.");
         }
-- 
2.43.0


From 9cfbe70950604d0d3b15ed1f375ddaf078e9f9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:15 +0000
Subject: [PATCH 31/34] fix: extending a List by itself or by its own range
 loses elements

---
 sources/list.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sources/list.hpp b/sources/list.hpp
index 2b96e75..c3fdd8c 100644
--- a/sources/list.hpp
+++ b/sources/list.hpp
@@ -193,7 +193,7 @@ public:
     {
         internal::check_full(size() / 2 + list.size() / 2, INT_MAX / 2);
 
-        vector_.insert(end(), list.begin(), list.end());
+        extend(list.begin(), list.end());
 
         return *this;
     }
@@ -329,7 +329,8 @@ public:
     template <std::input_iterator InputIt>
     void extend(const InputIt& first, const InputIt& last)
     {
-        vector_.insert(vector_.end(), first, last);
+        const std::vector<T> range(first, last); // may be a range of this list, which is invalidated while inserting
+        vector_.insert(vector_.end(), range.begin(), range.end());
     }
 
     /// Remove all of the elements from the list.
-- 
2.43.0


From 5df3f717cde787c4f4641998910a33827835bf72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:26 +0000
Subject: [PATCH 32/34] fix: a Fraction or Complex token that is no number
 overwrites the value with zero

---
 sources/complex.hpp  | 4 ++++
 sources/fraction.hpp | 6 +++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/sources/complex.hpp b/sources/complex.hpp
index e262dab..902f308 100644
--- a/sources/complex.hpp
+++ b/sources/complex.hpp
@@ -237,6 +237,10 @@ public:
 
         double real;
         is >> real;
+        if (is.fail()) // handle "-" or numbers that do not fit
+        {
+            throw std::runtime_error("Error: Wrong complex literal.");
+        }
         if (is.eof() || is.peek() <= 0x20) // peek at the end would fail the stream, next char is white space, ok
         {
             complex = real;
diff --git a/sources/fraction.hpp b/sources/fraction.hpp
index ebf6de0..1ae426f 100644
--- a/sources/fraction.hpp
+++ b/sources/fraction.hpp
@@ -290,6 +290,10 @@ public:
 
         int num;
         is >> num;
+        if (is.fail()) // handle "-" or numbers that do not fit
+        {
+            throw std::runtime_error("Error: Wrong fraction literal.");
+        }
         if (is.eof() || is.peek() <= 0x20) // peek at the end would fail the stream, next char is white space, ok
         {
             fraction = num;
@@ -304,7 +308,7 @@ public:
             throw std::runtime_error("Error: Wrong fraction literal.");
         }
         is >> den;
-        if (c != '/' || (!is.eof() && is.peek() > 0x20)) // handle "1|2" or "1/2z"
+        if (c != '/' || is.fail() || (!is.eof() && is.peek() > 0x20)) // handle "1|2" or "1/2z"
         {
             throw std::runtime_error("Error: Wrong fraction literal.");
         }
-- 
2.43.0


From 588a3af7ef134a8413a78c8dbaf8fc261eaacf07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:55 +0000
Subject: [PATCH 33/34] fix: erase and slice of a list or string whose size is
 INT_MAX

size() + 1 overflows an int when the container has INT_MAX elements, so
every erase and slice was rejected as out of range.
---
 sources/list.hpp    | 6 +++---
 sources/str.hpp     | 6 +++---
 sources/utility.hpp | 2 +-
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/sources/list.hpp b/sources/list.hpp
index c3fdd8c..a536262 100644
--- a/sources/list.hpp
+++ b/sources/list.hpp
@@ -298,8 +298,8 @@ public:
     /// Erase the contents of the range [`start`, `stop`) of the list.
     List& erase(int start, int stop)
     {
-        internal::check_bounds(start, 0, size() + 1);
-        internal::check_bounds(stop, start, size() + 1);
+        internal::check_bounds(start, 0, size() + 1LL);
+        internal::check_bounds(stop, start, size() + 1LL);
 
         vector_.erase(vector_.begin() + start, vector_.begin() + stop);
 
@@ -353,7 +353,7 @@ public:
         }
 
         internal::check_bounds(start, -size(), size());
-        internal::check_bounds(stop, -size() - 1, size() + 1);
+        internal::check_bounds(stop, -size() - 1, size() + 1LL);
 
         // convert
         start = start < 0 ? start + size() : start;
diff --git a/sources/str.hpp b/sources/str.hpp
index a666248..3bc7335 100644
--- a/sources/str.hpp
+++ b/sources/str.hpp
@@ -538,8 +538,8 @@ public:
     /// Return a copy of the string and erase the contents of the string in the range [`start`, `stop`).
     Str erase(int start, int stop) const
     {
-        internal::check_bounds(start, 0, size() + 1);
-        internal::check_bounds(stop, start, size() + 1);
+        internal::check_bounds(start, 0, size() + 1LL);
+        internal::check_bounds(stop, start, size() + 1LL);
 
         std::string buffer = str_;
         buffer.erase(buffer.begin() + start, buffer.begin() + stop);
@@ -607,7 +607,7 @@ public:
         }
 
         internal::check_bounds(start, -size(), size());
-        internal::check_bounds(stop, -size() - 1, size() + 1);
+        internal::check_bounds(stop, -size() - 1, size() + 1LL);
 
         // convert
         start = start < 0 ? start + size() : start;
diff --git a/sources/utility.hpp b/sources/utility.hpp
index f073b24..c785057 100644
--- a/sources/utility.hpp
+++ b/sources/utility.hpp
@@ -29,7 +29,7 @@ namespace pyincpp::internal
 {
 
 // Check whether the index is valid (begin <= pos < end).
-static inline void check_bounds(int pos, int begin, int end)
+static inline void check_bounds(long long pos, long long begin, long long end)
 {
     if (pos < begin || pos >= end)
     {
-- 
2.43.0


From 8e89f8dc8dc4b5928137cafc15672a47adc56d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:30 +0000
Subject: [PATCH 34/34] fix: strip of the character 0xFF strips blanks instead

---
 sources/str.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sources/str.hpp b/sources/str.hpp
index 3bc7335..ee4df78 100644
--- a/sources/str.hpp
+++ b/sources/str.hpp
@@ -576,19 +576,19 @@ public:
     }
 
     /// Remove leading and trailing characters (default is blank character) of the string.
-    Str strip(const signed char& ch = -1) const
+    Str strip(int ch = INT_MIN) const // the default is no value of a character
     {
         std::string buffer = str_;
 
         int i = 0;
-        while (i < int(buffer.size()) && (ch == -1 ? (unsigned char)(buffer[i]) <= 0x20 : buffer[i] == ch))
+        while (i < int(buffer.size()) && (ch == INT_MIN ? (unsigned char)(buffer[i]) <= 0x20 : buffer[i] == char(ch)))
         {
             ++i;
         }
         buffer.erase(buffer.begin(), buffer.begin() + i);
 
         i = buffer.size() - 1;
-        while (i >= 0 && (ch == -1 ? (unsigned char)(buffer[i]) <= 0x20 : buffer[i] == ch))
+        while (i >= 0 && (ch == INT_MIN ? (unsigned char)(buffer[i]) <= 0x20 : buffer[i] == char(ch)))
         {
             --i;
         }
-- 
2.43.0

