From bdb1197616dd4299a0bd755ca1ceb16e1b36c3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:05 +0000
Subject: [PATCH 01/23] fix: to_string reserves a character for the sign

A negative value whose digit count is a multiple of 9 wrote its sign one byte
before the start of the buffer.
---
 src/BigInteger.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index a871090..c19995a 100644
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -871,11 +871,12 @@ std::string BigInteger::to_string() const {
 
     }
 
+    // The sign needs a slot of its own: the digits alone may fill all of cuDst * kcchBase.
     int cchMax;
-    if (cuDst > std::numeric_limits<int32_t>::max() / kcchBase) {
+    if (cuDst > (std::numeric_limits<int32_t>::max() - 1) / kcchBase) {
         throw std::overflow_error("SR.Format_TooLarge");
     } else {
-        cchMax = cuDst * kcchBase;
+        cchMax = cuDst * kcchBase + 1;
     }
 
     // We'll pass the rgch buffer to native code, which is going to treat it like a string of digits, so it needs
-- 
2.43.0


From 18f16593ac8bd75fe225ee4d04706139c380202c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:05 +0000
Subject: [PATCH 02/23] fix: to_string does not leak its buffer when an
 allocation fails

---
 src/BigInteger.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index c19995a..5f13664 100644
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -888,8 +888,7 @@ std::string BigInteger::to_string() const {
         rgchBufSize = cchMax + 1;
     }
 
-//    char rgch[rgchBufSize];
-    char *rgch = new char[rgchBufSize];
+    std::string rgch(rgchBufSize, '\0');
     int ichDst = cchMax;
     for (int iuDst = 0; iuDst < cuDst - 1; iuDst++) {
         uint32_t uDig = rguDst[iuDst];
@@ -911,9 +910,7 @@ std::string BigInteger::to_string() const {
             rgch[--ichDst] = negativeSign[i];
     }
 
-    auto s = std::string(&rgch[ichDst], cchMax - ichDst);
-    delete [] rgch;
-    return s;
+    return rgch.substr(ichDst, cchMax - ichDst);
 }
 
 bool BigInteger::get_parts_for_bit_manipulation(const BigInteger& x, uint_array& xd, int& xl) {
-- 
2.43.0


From 288120bc4c9c1ee301e904f5178028d37bfd74a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:05 +0000
Subject: [PATCH 03/23] fix: div_rem returns a negative remainder for a
 negative dividend

With a divisor of one word the remainder was negated as a uint32_t.
---
 src/BigInteger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index 5f13664..c177c12 100644
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -605,7 +605,7 @@ BigInteger BigInteger::div_rem(BigInteger& dividend, BigInteger& divisor, BigInt
         uint_array rbits = dividend.get_bits();
         uint_array bits = BigIntegerCalculator::divide(rbits, std::abs(divisor._sign), rest);
 
-        remainder = dividend._sign < 0 ? -1 * rest : rest;
+        remainder = dividend._sign < 0 ? -1 * static_cast<int64_t>(rest) : static_cast<int64_t>(rest);
         return BigInteger(bits, (dividend._sign < 0) ^ (divisor._sign < 0));
     }
 
-- 
2.43.0


From b6367d571828aa9083b073e840a0faa7354c54fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:05 +0000
Subject: [PATCH 04/23] fix: div_rem reads its operands before it assigns the
 remainder

The quotient was wrong when the remainder argument was the dividend or the
divisor itself.
---
 src/BigInteger.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index c177c12..ca00cd1 100644
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -589,8 +589,9 @@ BigInteger BigInteger::div_rem(BigInteger& dividend, BigInteger& divisor, BigInt
     if (trivialDividend && trivialDivisor) {
         if (divisor._sign == 0)
             throw DivideByZero();
+        int32_t quotient = dividend._sign / divisor._sign;
         remainder = dividend._sign % divisor._sign;
-        return dividend._sign / divisor._sign;
+        return quotient;
     }
 
     if (trivialDividend) {
@@ -605,8 +606,9 @@ BigInteger BigInteger::div_rem(BigInteger& dividend, BigInteger& divisor, BigInt
         uint_array rbits = dividend.get_bits();
         uint_array bits = BigIntegerCalculator::divide(rbits, std::abs(divisor._sign), rest);
 
+        BigInteger quotient(bits, (dividend._sign < 0) ^ (divisor._sign < 0));
         remainder = dividend._sign < 0 ? -1 * static_cast<int64_t>(rest) : static_cast<int64_t>(rest);
-        return BigInteger(bits, (dividend._sign < 0) ^ (divisor._sign < 0));
+        return quotient;
     }
 
     if (dividend.get_bits().size() < divisor.get_bits().size()) {
@@ -618,8 +620,9 @@ BigInteger BigInteger::div_rem(BigInteger& dividend, BigInteger& divisor, BigInt
         uint_array rbits = divisor.get_bits();
         uint_array bits = BigIntegerCalculator::divide(lbits, rbits, rest);
 
+        BigInteger quotient(bits, (dividend._sign < 0) ^ (divisor._sign < 0));
         remainder = BigInteger(rest, dividend._sign < 0);
-        return BigInteger(bits, (dividend._sign < 0) ^ (divisor._sign < 0));
+        return quotient;
     }
 }
 
-- 
2.43.0


From b43194b45f997615cf8e7ee9923759ca76a5ddc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:05 +0000
Subject: [PATCH 05/23] fix: mod_pow of a negative value returns a negative
 remainder

With a modulus of one word the result was negated as a uint32_t.
---
 src/BigInteger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index ca00cd1..ba0dadd 100644
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -1596,7 +1596,7 @@ BigInteger BigInteger::mod_pow(const BigInteger& value, const BigInteger& expone
             else
                 bits = BigIntegerCalculator::pow(value._bits, exponent._bits, std::abs(modulus._sign));
         }
-        return value._sign < 0 && !exponent.is_even() ? -1 * bits : bits;
+        return value._sign < 0 && !exponent.is_even() ? -1 * static_cast<int64_t>(bits) : static_cast<int64_t>(bits);
     } else {
         uint_array bits;
         if (trivialValue && trivialExponent) {
-- 
2.43.0


From ca4135273667c11845c1839bd00b41ac272f2f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:05 +0000
Subject: [PATCH 06/23] fix: mod_pow raises DivideByZero for a zero modulus and
 a large exponent

The process died of SIGFPE.
---
 src/BigIntegerCalculator/PowMod.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/BigIntegerCalculator/PowMod.cpp b/src/BigIntegerCalculator/PowMod.cpp
index ef69c5e..b895345 100644
--- a/src/BigIntegerCalculator/PowMod.cpp
+++ b/src/BigIntegerCalculator/PowMod.cpp
@@ -89,6 +89,8 @@ uint32_t BigIntegerCalculator::pow(const uint_array& value, uint32_t power, uint
 }
 
 uint32_t BigIntegerCalculator::pow_core(const uint_array& power, uint32_t modulus, uint64_t value, uint64_t result) {
+    if (modulus == 0)
+        throw DivideByZero();
     for (int i = 0; i < power.size() - 1; i++) {
         unsigned int p = power[i];
         for (int j = 0; j < 32; j++) {
-- 
2.43.0


From 08b9d219c8d8106b364cce93ebc67cef792ee485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:05 +0000
Subject: [PATCH 07/23] fix: Barrett reduction reduces the value in place

FastReducer worked on copies of its arrays, so mod_pow with a modulus of 32 or
more words never reduced anything, and it cleared the wrong words.
---
 include/FastReducer.h                    | 4 ++--
 src/BigIntegerCalculator/FastReducer.cpp | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/FastReducer.h b/include/FastReducer.h
index 1737648..e504836 100644
--- a/include/FastReducer.h
+++ b/include/FastReducer.h
@@ -6,7 +6,7 @@ struct FastReducer {
 public:
     FastReducer(uint_array modulus);
 
-    int Reduce(uint_array, int length);
+    int Reduce(uint_array& value, int length);
 
 private:
     uint_array _modulus;
@@ -17,6 +17,6 @@ private:
 
     int DivMul(uint_array& left, int leftLength, uint_array& right, int rightLength, uint_array& bits, int k);
 
-    int SubMod(uint_array left, int leftLength, uint_array right, int rightLength, uint_array modulus, int k);
+    int SubMod(uint_array& left, int leftLength, uint_array& right, int rightLength, uint_array& modulus, int k);
 
 };
\ No newline at end of file
diff --git a/src/BigIntegerCalculator/FastReducer.cpp b/src/BigIntegerCalculator/FastReducer.cpp
index ef96902..baac9a0 100644
--- a/src/BigIntegerCalculator/FastReducer.cpp
+++ b/src/BigIntegerCalculator/FastReducer.cpp
@@ -14,7 +14,7 @@ FastReducer::FastReducer(uint_array modulus) {
     _muLength = BigIntegerCalculator::actual_length(_mu);
 }
 
-int FastReducer::Reduce(uint_array value, int length) {
+int FastReducer::Reduce(uint_array& value, int length) {
     if (length < _modulus.size())
         return length;
 
@@ -42,7 +42,7 @@ int FastReducer::DivMul(uint_array& left, int leftLength, uint_array& right, int
     return 0;
 }
 
-int FastReducer::SubMod(uint_array left, int leftLength, uint_array right, int rightLength, uint_array modulus, int k) {
+int FastReducer::SubMod(uint_array& left, int leftLength, uint_array& right, int rightLength, uint_array& modulus, int k) {
     if (leftLength > k)
         leftLength = k;
 
@@ -61,6 +61,6 @@ int FastReducer::SubMod(uint_array left, int leftLength, uint_array right, int r
         leftLength = BigIntegerCalculator::actual_length(left, leftLength);
     }
 
-    std::fill(left.begin(), left.begin() + leftLength, left.size() - leftLength);
+    std::fill(left.begin() + leftLength, left.end(), 0);
     return leftLength;
 }
-- 
2.43.0


From 09f081763eba4c52cdb56631066c5afc10a9c1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:05 +0000
Subject: [PATCH 08/23] fix: the Barrett reducer has room for the largest
 quotient estimate

For a modulus that is a power of 2^32, mu has two words more than the modulus
and the product with a full-length value overran _q1 by one word.
---
 src/BigIntegerCalculator/FastReducer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BigIntegerCalculator/FastReducer.cpp b/src/BigIntegerCalculator/FastReducer.cpp
index baac9a0..0d7c973 100644
--- a/src/BigIntegerCalculator/FastReducer.cpp
+++ b/src/BigIntegerCalculator/FastReducer.cpp
@@ -8,7 +8,7 @@ FastReducer::FastReducer(uint_array modulus) {
     _mu = BigIntegerCalculator::divide(r, modulus);
     _modulus = modulus;
 
-    _q1 = uint_array(modulus.size() * 2 + 2);
+    _q1 = uint_array(modulus.size() * 2 + 3);
     _q2 = uint_array(modulus.size() * 2 + 1);
 
     _muLength = BigIntegerCalculator::actual_length(_mu);
-- 
2.43.0


From f69630d22cb884929fb8e13e15d6d7c50eb388b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:05 +0000
Subject: [PATCH 09/23] fix: mod_pow processes the last exponent word once

With a modulus of 32 or more words and an exponent of several words the last
exponent word was applied twice.
---
 src/BigIntegerCalculator/PowMod.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/BigIntegerCalculator/PowMod.cpp b/src/BigIntegerCalculator/PowMod.cpp
index b895345..c66caba 100644
--- a/src/BigIntegerCalculator/PowMod.cpp
+++ b/src/BigIntegerCalculator/PowMod.cpp
@@ -214,7 +214,8 @@ uint_array BigIntegerCalculator::pow_core(const uint_array& power, const uint_ar
 void
 BigIntegerCalculator::pow_core(const uint_array& power, FastReducer& reducer, BitsBuffer& value, BitsBuffer& result,
                                BitsBuffer& temp) {
-    for (auto p : power) {
+    for (size_t i = 0; i < power.size() - 1; i++) {
+        uint32_t p = power[i];
         for (int j = 0; j < 32; j++) {
             if ((p & 1) == 1) {
                 result.MultiplySelf(value, temp);
-- 
2.43.0


From 88c2cbd86f3307d4759625a61460b8589836eaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:05 +0000
Subject: [PATCH 10/23] fix: BitsBuffer clears the words above its new length

Overwrite and Refresh filled the low words with the new length instead.
---
 src/BigIntegerCalculator/BitsBuffer.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/BigIntegerCalculator/BitsBuffer.cpp b/src/BigIntegerCalculator/BitsBuffer.cpp
index f5bd7f7..c4845d0 100644
--- a/src/BigIntegerCalculator/BitsBuffer.cpp
+++ b/src/BigIntegerCalculator/BitsBuffer.cpp
@@ -55,7 +55,7 @@ void BitsBuffer::Reduce(BitsBuffer& modulus) {
 
 void BitsBuffer::Overwrite(uint64_t value) {
     if (_length > 2)
-        std::fill(_bits.begin(), _bits.begin() + (_length - 2), 2);
+        std::fill(_bits.begin() + 2, _bits.begin() + _length, 0);
     uint32_t lo = static_cast<uint32_t>(value); // unchecked()
     uint32_t hi = static_cast<uint32_t>(value >> 32);
     _bits[0] = lo;
@@ -65,14 +65,14 @@ void BitsBuffer::Overwrite(uint64_t value) {
 
 void BitsBuffer::Overwrite(uint32_t value) {
     if (_length > 1)
-        std::fill(_bits.begin(), _bits.begin() + (_length - 1), 1);
+        std::fill(_bits.begin() + 1, _bits.begin() + _length, 0);
     _bits[0] = value;
     _length = value != 0 ? 1 : 0;
 }
 
 void BitsBuffer::Refresh(int maxLength) {
     if (_length > maxLength)
-        std::fill(_bits.begin(), _bits.begin() + (_length - maxLength), maxLength);
+        std::fill(_bits.begin() + maxLength, _bits.begin() + _length, 0);
     _length = BigIntegerCalculator::actual_length(_bits, maxLength);
 }
 
-- 
2.43.0


From 85f580b838df6e161cc8ca855f63e31c4025fb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:05 +0000
Subject: [PATCH 11/23] fix: the Lehmer gcd step updates its operands

lehmer_core worked on copies, so the gcd of two values of three or more words
did not terminate.
---
 include/BitsBuffer.h                | 2 +-
 src/BigIntegerCalculator/GcdInv.cpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/BitsBuffer.h b/include/BitsBuffer.h
index 66f2918..b1894d3 100644
--- a/include/BitsBuffer.h
+++ b/include/BitsBuffer.h
@@ -27,7 +27,7 @@ public:
 
     void Overwrite(uint32_t value);
 
-    uint_array GetBits() { return _bits; }
+    uint_array& GetBits() { return _bits; }
 
     int GetSize() { return _bits.size(); }
 
diff --git a/src/BigIntegerCalculator/GcdInv.cpp b/src/BigIntegerCalculator/GcdInv.cpp
index 3f5936b..bf8a5e1 100644
--- a/src/BigIntegerCalculator/GcdInv.cpp
+++ b/src/BigIntegerCalculator/GcdInv.cpp
@@ -228,8 +228,8 @@ void BigIntegerCalculator::lehmer_core(BitsBuffer& xBuffer, BitsBuffer& yBuffer,
 
     // Executes the combined calculation of Lehmer's step.
 
-    uint_array x = xBuffer.GetBits();
-    uint_array y = yBuffer.GetBits();
+    uint_array& x = xBuffer.GetBits();
+    uint_array& y = yBuffer.GetBits();
 
     int length = yBuffer.GetLength();
 
-- 
2.43.0


From d79b3a314b75e0415b7b44cf6edf8e5266a80ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:05 +0000
Subject: [PATCH 12/23] fix: right shift of a negative value keeps the sign

-(2^64 - 1) >> 32 was 0 instead of -2^32: when only zero words were left of the
two's complement the result lost its sign.
---
 src/BigInteger.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index ba0dadd..9611b2e 100644
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -1071,6 +1071,9 @@ BigInteger& BigInteger::operator>>=(const int shift) {
         uint_array temp = xd;
         xd = temp;
         NumericsHelpers::dangerous_make_twos_complement(xd); // Mutates xd
+        // Keep the sign: the complement of e.g. [0xFFFFFFFF, 0xFFFFFFFF] is [1, 0]
+        xd.push_back(0xFFFFFFFF);
+        xl++;
     }
 
     int zl = xl - digitShift;
-- 
2.43.0


From 7b791133347e143d03c90eac723781536f23e726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:05 +0000
Subject: [PATCH 13/23] fix: to_byte_array(AllocateArray) of zero works without
 bytesWritten

The documented default argument is a null pointer, which was written through.
---
 src/BigInteger.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index 9611b2e..d2a6484 100644
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -1266,7 +1266,8 @@ byte_array BigInteger::to_byte_array(GetBytesMode mode, bool isUnsigned, bool is
                 *bytesWritten = 1;
                 return byte_array();
             default:
-                *bytesWritten = 1;
+                if (bytesWritten != nullptr)
+                    *bytesWritten = 1;
                 return byte_array(1, 0);
         }
     }
-- 
2.43.0


From a2450d6fc5062b0a301b160fe1fa7be378529670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:35 +0000
Subject: [PATCH 14/23] fix: conversions of the smallest integers do not negate
 them as signed values

Signed overflow is undefined behaviour.
---
 src/BigInteger.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index d2a6484..2c01cec 100644
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -51,7 +51,7 @@ BigInteger::BigInteger(int64_t value) {
     } else {
         uint64_t x = 0;
         if (value < 0) {
-            x = static_cast<uint64_t>(-value);
+            x = 0 - static_cast<uint64_t>(value);
             _sign = -1;
         } else {
             x = static_cast<uint64_t>(value);
@@ -1426,7 +1426,7 @@ BigInteger::operator int() {
     if (_bits[0] > kuMaskHighBit)
         throw std::overflow_error("SR.Overflow_Int32");
 
-    return -static_cast<int>(_bits[0]);
+    return static_cast<int>(0U - _bits[0]);
 }
 
 BigInteger::operator unsigned int() {
@@ -1457,7 +1457,7 @@ BigInteger::operator long() {
         uu = _bits[0];
     }
 
-    long ll = _sign > 0 ? static_cast<long>(uu) : -static_cast<long>(uu);
+    long ll = _sign > 0 ? static_cast<long>(uu) : static_cast<long>(0UL - uu);
     if ((ll > 0 && _sign > 0) || (ll < 0 && _sign < 0))
         return ll;
     throw std::overflow_error("SR.Overflow_Int64");
-- 
2.43.0


From e73f600e97223d2e4b3fc35b0dae4366471c9e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:35 +0000
Subject: [PATCH 15/23] fix: decoding bytes does not shift a negative int

Shifting a negative value to the left is undefined behaviour in C++17.
---
 src/BigInteger.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index 2c01cec..c0cbab0 100644
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -133,11 +133,11 @@ BigInteger::BigInteger(byte_array value, bool isUnsigned, bool isBigEndian) {
 
         if (isBigEndian) {
             for (int i = 0; i < byteCount; i++) {
-                _sign = (_sign << 8) | value[i];
+                _sign = static_cast<int>((static_cast<uint32_t>(_sign) << 8) | value[i]);
             }
         } else {
             for (int i = byteCount - 1; i >= 0; i--) {
-                _sign = (_sign << 8) | value[i];
+                _sign = static_cast<int>((static_cast<uint32_t>(_sign) << 8) | value[i]);
             }
         }
 
-- 
2.43.0


From 4e7ad1e0f2859eb7f8472a3a43197ff17cef0ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:35 +0000
Subject: [PATCH 16/23] fix: the floating-point classifiers do not break strict
 aliasing

---
 src/BigInteger.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index c0cbab0..da37335 100644
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -5,6 +5,7 @@
 #include <limits>
 #include <cassert>
 #include <cstdlib>
+#include <cstring>
 #include <any>
 #include <iostream>
 #include <cmath>
@@ -1760,17 +1761,20 @@ BigInteger::BigInteger(double value) {
 }
 
 bool BigInteger::double_IsFinite(double value) {
-    auto bits = *((long*) &value);
+    long bits;
+    std::memcpy(&bits, &value, sizeof(bits));
     return (bits & 0x7FFFFFFFFFFFFFFF) < 0x7FF0000000000000;
 }
 
 bool BigInteger::double_IsNaN(double value) {
-    auto bits = *((long*) &value);
+    long bits;
+    std::memcpy(&bits, &value, sizeof(bits));
     return (bits & 0x7FFFFFFFFFFFFFFF) > 0x7FF0000000000000;
 }
 
 bool BigInteger::double_IsInfinity(double value) {
-    auto bits = *((long*) &value);
+    long bits;
+    std::memcpy(&bits, &value, sizeof(bits));
     return (bits & 0x7FFFFFFFFFFFFFFF) == 0x7FF0000000000000;
 }
 
-- 
2.43.0


From b32f99188882c20d84cce660a19fe3471cb8be1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:35 +0000
Subject: [PATCH 17/23] fix: postfix increment and decrement return the
 previous value

They returned a reference to the changed object.
---
 include/public/bigintegercpp/BigInteger.h |  4 ++--
 src/BigInteger.cpp                        | 12 ++++++++----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/public/bigintegercpp/BigInteger.h b/include/public/bigintegercpp/BigInteger.h
index 7b25672..dfb90ba 100644
--- a/include/public/bigintegercpp/BigInteger.h
+++ b/include/public/bigintegercpp/BigInteger.h
@@ -126,7 +126,7 @@ public:
     BigInteger& operator+=(const BigInteger& rhs);
 
     BigInteger& operator++(); // prefix
-    BigInteger& operator++(int unused); // postfix
+    BigInteger operator++(int unused); // postfix
 
     static BigInteger add(BigInteger& lhs, const BigInteger& rhs);
 
@@ -138,7 +138,7 @@ public:
     BigInteger& operator-=(const BigInteger& rhs);
 
     BigInteger& operator--(); // prefix
-    BigInteger& operator--(int unused); // postfix
+    BigInteger operator--(int unused); // postfix
     static BigInteger subtract(BigInteger& lhs, const BigInteger& rhs);
 
     BigInteger subtract(const uint_array& lhs, int lhsSign, const uint_array& rhs, int rhsSign);
diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index da37335..730afe5 100644
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -640,8 +640,10 @@ BigInteger& BigInteger::operator++() {
     return *this;
 }
 
-BigInteger& BigInteger::operator++(int dummy) {
-    return ++(*this);
+BigInteger BigInteger::operator++(int dummy) {
+    BigInteger previous = *this;
+    ++(*this);
+    return previous;
 }
 
 BigInteger& BigInteger::operator--() {
@@ -650,8 +652,10 @@ BigInteger& BigInteger::operator--() {
     return *this;
 }
 
-BigInteger& BigInteger::operator--(int unused) {
-    return --(*this);
+BigInteger BigInteger::operator--(int unused) {
+    BigInteger previous = *this;
+    --(*this);
+    return previous;
 }
 
 
-- 
2.43.0


From 2cfc8dbcf35ee39d3d2a0c58f3583658225e73c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:35 +0000
Subject: [PATCH 18/23] fix: the shared constants are initialized before they
 can be used

A BigInteger computed during the static initialisation of a program that links
the library statically saw constants that were still zero, so that e.g.
BigInteger(INT_MIN) was 0.
---
 include/public/bigintegercpp/BigInteger.h | 6 ++++++
 src/BigInteger.cpp                        | 5 -----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/public/bigintegercpp/BigInteger.h b/include/public/bigintegercpp/BigInteger.h
index dfb90ba..f43236e 100644
--- a/include/public/bigintegercpp/BigInteger.h
+++ b/include/public/bigintegercpp/BigInteger.h
@@ -201,6 +201,12 @@ private:
     void assert_valid() const;
 };
 
+// Inline, so that they are initialized before any object of a translation unit that uses this header.
+inline const BigInteger BigInteger::s_bnMinInt = BigInteger(-1, uint_array{kuMaskHighBit});
+inline const BigInteger BigInteger::s_bnOneInt = BigInteger(1);
+inline const BigInteger BigInteger::s_bnZeroInt = BigInteger(0);
+inline const BigInteger BigInteger::s_bnMinusOneInt = BigInteger(-1);
+
 BigInteger operator+(BigInteger lhs, const BigInteger& rhs);
 
 BigInteger operator-(BigInteger lhs, const BigInteger& rhs);
diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index 730afe5..9420c1a 100644
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -12,11 +12,6 @@
 #include <algorithm>
 #include "../include/BigIntegerCalculator.h"
 
-const BigInteger BigInteger::s_bnMinInt = BigInteger(-1, uint_array{kuMaskHighBit});
-const BigInteger BigInteger::s_bnOneInt = BigInteger(1);
-const BigInteger BigInteger::s_bnZeroInt = BigInteger(0);
-const BigInteger BigInteger::s_bnMinusOneInt = BigInteger(-1);
-
 
 BigInteger::BigInteger() {
     _sign = 0;
-- 
2.43.0


From af844c5a7de5ca9e3565239d85849c6f737c59fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:10 +0000
Subject: [PATCH 19/23] fix: the Python buffer constructor honours the stride
 of the buffer

memoryview(b)[::2] was read as contiguous and [::-1] was read out of bounds.
---
 bindings/python/python-bindings.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bindings/python/python-bindings.cpp b/bindings/python/python-bindings.cpp
index 57abc12..210b770 100644
--- a/bindings/python/python-bindings.cpp
+++ b/bindings/python/python-bindings.cpp
@@ -93,7 +93,9 @@ PYBIND11_MODULE(pybiginteger, m) {
                   throw std::runtime_error("Incompatible buffer format!");
 
               auto data_ptr = static_cast<unsigned char *>(info.ptr);
-              std::vector<unsigned char> data(data_ptr, data_ptr + info.size);
+              std::vector<unsigned char> data(info.size);
+              for (py::ssize_t i = 0; i < info.size; i++)
+                  data[i] = data_ptr[i * info.strides[0]];
               return BigInteger(data);
             }), py::arg("value"))
             .def("__lt__", [](BigInteger& self, BigInteger& other) {
-- 
2.43.0


From b8f3da5b6f0c6df02075672992cb382cdfa8e15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:10 +0000
Subject: [PATCH 20/23] fix: divmod of an int by a BigInteger works for more
 than 4300 digits

The result went through text, which Python limits in length.
---
 bindings/python/python-bindings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/python-bindings.cpp b/bindings/python/python-bindings.cpp
index 210b770..80127e9 100644
--- a/bindings/python/python-bindings.cpp
+++ b/bindings/python/python-bindings.cpp
@@ -196,7 +196,7 @@ PYBIND11_MODULE(pybiginteger, m) {
                 BigInteger remainder;
                 auto big_self = to_biginteger(self);
                 auto div = BigInteger::div_rem(big_self, other, remainder);
-                return py::make_tuple(py::int_(py::str(div.to_string())), py::int_(py::str(remainder.to_string())));
+                return py::make_tuple(to_py_int(div), to_py_int(remainder));
             })
             .def("__pow__", [](BigInteger& base, BigInteger& exp) {
                 return BigInteger::pow(base, exp);
-- 
2.43.0


From 1b3379614edf44322b948121d965807a26ebcccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:10 +0000
Subject: [PATCH 21/23] fix: a Python BigInteger hashes like the int it is
 equal to

---
 bindings/python/python-bindings.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bindings/python/python-bindings.cpp b/bindings/python/python-bindings.cpp
index 80127e9..db47222 100644
--- a/bindings/python/python-bindings.cpp
+++ b/bindings/python/python-bindings.cpp
@@ -117,9 +117,8 @@ PYBIND11_MODULE(pybiginteger, m) {
                 return self == to_biginteger(other);
             })
             .def("__hash__", [](BigInteger& self) {
-                auto h = 2166136261;
-                h = (h * 16777619) ^ self.get_hash_code();
-                return h;
+                // Equal to an int of the same value, so it must hash like that int.
+                return py::hash(to_py_int(self));
             })
             .def("__gt__", [](BigInteger& self, BigInteger& other) {
                 return self > other;
-- 
2.43.0


From 3ab013cd1c6eb1431b577116f10c75a00fdbe885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:59 +0000
Subject: [PATCH 22/23] hook: thresholds can be scaled down for verification
 builds

Guarded by BIGINTEGERCPP_MC_THRESHOLD, which no build of the project defines.
---
 include/BigIntegerCalculator.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/BigIntegerCalculator.h b/include/BigIntegerCalculator.h
index d5b9e13..d42c080 100644
--- a/include/BigIntegerCalculator.h
+++ b/include/BigIntegerCalculator.h
@@ -112,10 +112,18 @@ public:
     static void gcd(BitsBuffer& left, BitsBuffer& right);
 
 private:
+#ifdef BIGINTEGERCPP_MC_THRESHOLD
+    // Verification builds only: small values, so that short operands reach every algorithm.
+    static constexpr int AllocationThreshold = 2 * BIGINTEGERCPP_MC_THRESHOLD;
+    static constexpr int ReducerThreshold = BIGINTEGERCPP_MC_THRESHOLD / 2;
+    static constexpr int MultiplyThreshold = BIGINTEGERCPP_MC_THRESHOLD;
+    static constexpr int SquareThreshold = BIGINTEGERCPP_MC_THRESHOLD;
+#else
     static constexpr int AllocationThreshold = 256;
     static constexpr int ReducerThreshold = 32;
     static constexpr int MultiplyThreshold = 32;
     static constexpr int SquareThreshold = 32;
+#endif
 
     static void
     add(const uint32_t* lhs, int lhsLength, const uint32_t* rhs, int rhsLength, uint32_t* bits, int bitsLength);
-- 
2.43.0


From cdd42adc589ab2f1dd26003f93dcf2db57a64c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:59 +0000
Subject: [PATCH 23/23] fix: right shift of negative values of 2^31 bits and
 more

The bit count overflowed an int and the result was -1.
---
 src/BigInteger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index 9420c1a..1dd5f3c 100644
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -1064,7 +1064,7 @@ BigInteger& BigInteger::operator>>=(const int shift) {
     negx = get_parts_for_bit_manipulation(*this, xd, xl);
 
     if (negx) {
-        if (shift >= (kcbitUint * xl)) {
+        if (shift >= static_cast<int64_t>(kcbitUint) * xl) {
             *this = s_bnMinusOneInt;
             return *this;
         }
-- 
2.43.0

