From ad3e3c817ca5d7fb058107b05679e7a9221a26f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:34 +0000
Subject: [PATCH 01/63] fix: big_num folds over the words truncated them to 32
 bits

std::reduce accumulates in the type of its initial value, so an int 0 lost the
upper half of every word in any_set, is_one and fit_in_64, and all_set started
its and-fold from zero.
---
 include/logic/big_num.hh | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index f9bc667..10e653c 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -771,7 +771,8 @@ public:
         // we use the fact that SIMD instructions are faster than compare and branch
         // so summation is faster than any_of in theory
         // also all unused bit are set to 0 by default
-        auto r = std::reduce(values.begin(), values.end(), 0, [](auto a, auto b) { return a | b; });
+        auto r = std::reduce(values.begin(), values.end(), big_num_holder_type{0},
+                             [](auto a, auto b) { return a | b; });
         return r != 0;
     }
 
@@ -787,7 +788,8 @@ public:
     [[maybe_unused]] void unmask() { std::fill(values.begin(), values.end(), 0); }
 
     [[nodiscard]] bool all_set() const {
-        auto v = std::reduce(values.begin(), values.begin() + s - 1, 0,
+        auto v = std::reduce(values.begin(), values.begin() + s - 1,
+                             std::numeric_limits<big_num_holder_type>::max(),
                              [](auto a, auto b) { return a & b; });
         auto constexpr max =
             std::numeric_limits<big_num_holder_type>::max() >> (s * big_num_threshold - size);
@@ -806,13 +808,14 @@ public:
         if constexpr (s == 1) {
             return values[0] == 1u;
         } else {
-            return values[0] == 1u && (std::reduce(values.begin() + 1, values.end(), 0,
-                                                   [](auto a, auto b) { return a | b; }) == 0u);
+            return values[0] == 1u &&
+                   (std::reduce(values.begin() + 1, values.end(), big_num_holder_type{0},
+                                [](auto a, auto b) { return a | b; }) == 0u);
         }
     }
 
     [[nodiscard]] bool fit_in_64() const {
-        return std::reduce(values.begin() + 1, values.end(), 0,
+        return std::reduce(values.begin() + 1, values.end(), big_num_holder_type{0},
                            [](auto a, auto b) { return a | b; }) == 0;
     }
 
-- 
2.43.0


From c796be0e4260c78271adba4dd8fe55d8dfd167d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:34 +0000
Subject: [PATCH 02/63] fix: big_num popcount did not compile and r_and
 inspected the wrong bits

---
 include/logic/big_num.hh | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index 10e653c..3359525 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -144,7 +144,8 @@ public:
     }
 
     [[maybe_unused]] [[nodiscard]] uint64_t popcount() const {
-        return std::accumulate(values.begin(), values.end(), std::popcount);
+        return std::accumulate(values.begin(), values.end(), uint64_t{0},
+                               [](auto a, auto v) { return a + std::popcount(v); });
     }
 
     void mask_off() {
@@ -302,14 +303,10 @@ public:
         auto b = std::all_of(values.begin(), values.begin() + s - 1, [](auto const v) {
             return v == std::numeric_limits<uint64_t>::max();
         });
-        if constexpr (values.size() * 8 == size) {
-            return b;
-        } else {
-            if (b) return false;
-
-            for (uint64_t i = (values.size() - 1); i < s; i++) {
-                if (!get(i)) return false;
-            }
+        if (!b) return false;
+        // the last word may only be partially used
+        for (uint64_t i = (s - 1) * big_num_threshold; i < size; i++) {
+            if (!get(i)) return false;
         }
         return true;
     }
-- 
2.43.0


From 64863ba3b4802e1535c5857da5dfc1b318b4c4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:34 +0000
Subject: [PATCH 03/63] fix: widening a signed big_num filled ones even for
 non-negative numbers

---
 include/logic/big_num.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index 3359525..22d5ca0 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -114,8 +114,9 @@ public:
             for (auto i = 0ul; i < s; i++) result.values[i] = values[i];
             // based on the sign, need to fill out leading ones
             if constexpr (signed_) {
+                auto const sign = negative();
                 for (uint64_t i = size; i < op_size; i++) {
-                    result.set(i, true);
+                    result.set(i, sign);
                 }
             }
             return result;
-- 
2.43.0


From 69a9982c0dc2b4ad0d0ad0d1e39855ffd003e82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:34 +0000
Subject: [PATCH 04/63] fix: big_num sums kept the carry out of the declared
 width

---
 include/logic/big_num.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index 22d5ca0..2715339 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -579,6 +579,7 @@ public:
             result.values[i] = (v << 64) >> 64;
             carry = v >> 64;
         }
+        result.mask_off();
         return result;
     }
 
@@ -748,7 +749,7 @@ public:
     [[nodiscard]] big_num<size, signed_> negate() const {
         // 2's complement
         big_num<size, signed_> result = ~(*this);
-        constexpr static auto v = big_num<size>(1ul);
+        auto const v = big_num<size, signed_>(1);
         result = result + v;
         return result;
     }
-- 
2.43.0


From 673ddf6a2c9c929a9b20f3b3ccde1fd8c12e3a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:34 +0000
Subject: [PATCH 05/63] fix: big_num multiplication wrote partial products past
 the last word

The word index was compared with the width in bits, and the single-word
shortcut kept bits beyond the declared width.
---
 include/logic/big_num.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index 2715339..d2fc1e0 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -631,6 +631,7 @@ public:
             __uint128_t c = a * b;
             result.values[0] = (c << 64) >> 64;
             result.values[1] = c >> 64;
+            result.mask_off();
             return result;
         }
         // we're not using Karatsuba's algorithm since it can get infinitely recursion or underflow
@@ -649,12 +650,12 @@ public:
                 uint64_t hi = c >> 64u;
                 uint64_t lo = (c << 64u) >> 64;
 
-                if ((i + j) < size) {
+                if ((i + j) < s) {
                     temp.values[i + j] = lo;
                     result = result + temp;
                     temp.values[i + j] = 0;
                 }
-                if ((i + j + 1) < size) {
+                if ((i + j + 1) < s) {
                     temp.values[i + j + 1] = hi;
                     result = result + temp;
                     temp.values[i + j + 1] = 0;
-- 
2.43.0


From 1fe83ef153c545ee9f3404de233e4816b75c2a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:57 +0000
Subject: [PATCH 06/63] fix: big_num compound assignments did not compile for
 wider or signed operands

---
 include/logic/big_num.hh | 38 ++++++++++++++++----------------------
 1 file changed, 16 insertions(+), 22 deletions(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index d2fc1e0..3db78c9 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -120,9 +120,15 @@ public:
                 }
             }
             return result;
-        } else {
+        } else if constexpr (op_size == size) {
             // just a copy
             return *this;
+        } else {
+            // drop the upper bits
+            big_num<op_size, signed_> result;
+            for (auto i = 0ul; i < result.s; i++) result.values[i] = values[i];
+            result.mask_off();
+            return result;
         }
     }
 
@@ -210,14 +216,10 @@ public:
     }
 
     template <uint64_t op_size, bool op_signed>
-    big_num<size, util::signed_result(signed_, op_signed)> &operator&=(
-        const big_num<op_size, op_signed> &op) {
+    big_num<size, signed_> &operator&=(const big_num<op_size, op_signed> &op) {
         auto v = (*this) & op;
-        if constexpr (op_size > size) {
-            // need to size it down
-            v = v.template slice<size>();
-        }
-        this->values = v.values;
+        // may need to size it down
+        this->values = v.template extend<size>().values;
         mask_off();
         return *this;
     }
@@ -248,14 +250,10 @@ public:
     }
 
     template <uint64_t op_size, bool op_signed>
-    big_num<size, util::signed_result(signed_, op_signed)> &operator^=(
-        const big_num<op_size, op_signed> &op) {
+    big_num<size, signed_> &operator^=(const big_num<op_size, op_signed> &op) {
         auto v = (*this) ^ op;
-        if constexpr (op_size > size) {
-            // need to size it down
-            v = v.template slice<size>();
-        }
-        this->values = v.values;
+        // may need to size it down
+        this->values = v.template extend<size>().values;
         mask_off();
         return *this;
     }
@@ -286,14 +284,10 @@ public:
     }
 
     template <uint64_t op_size, bool op_signed>
-    big_num<size, util::signed_result(signed_, op_signed)> &operator|=(
-        const big_num<op_size, op_signed> &op) const {
+    big_num<size, signed_> &operator|=(const big_num<op_size, op_signed> &op) {
         auto v = (*this) | op;
-        if constexpr (op_size > size) {
-            // need to size it down
-            v = v.template slice<size>();
-        }
-        this->values = v.values;
+        // may need to size it down
+        this->values = v.template extend<size>().values;
         mask_off();
         return *this;
     }
-- 
2.43.0


From 1b081870b3ffc69482c18b5d434e81fe3acb5934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:57 +0000
Subject: [PATCH 07/63] fix: big_num operator| was ambiguous for operands of
 the same width

---
 include/logic/big_num.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index 3db78c9..6a8b794 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -259,7 +259,7 @@ public:
     }
 
     template <uint64_t op_size, bool op_signed>
-    auto operator|(const big_num<op_size, op_signed> &op) const {
+    requires(op_size != size) auto operator|(const big_num<op_size, op_signed> &op) const {
         return this->template or_<util::max(size, op_size), op_size, op_signed>(op);
     }
 
-- 
2.43.0


From 1f2beee06504de416ac68b0386b4d1ff7a1b51e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:57 +0000
Subject: [PATCH 08/63] fix: big_num equality ignored the upper words and sign
 extension

The signed path did not compile, mixed signedness was compared as if the
narrower operand were unsigned, and the tail was folded in an int.
---
 include/logic/big_num.hh | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index 6a8b794..7c44930 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -431,8 +431,8 @@ public:
      */
     template <uint64_t op_size, bool op_signed>
     bool operator==(const big_num<op_size, op_signed> &op) const {
-        if constexpr (signed_ && op_signed) {
-            // doing signed comparison
+        if constexpr (signed_ || op_signed) {
+            // the narrower one has to be extended based on its sign
             if constexpr (op_size > size) {
                 // extend itself
                 auto t = this->template extend<op_size>();
@@ -442,8 +442,8 @@ public:
                 }
                 return true;
             } else {
-                auto op_t = op->template extend<size>();
-                for (auto i = 0u; i < size; i++) {
+                auto op_t = op.template extend<size>();
+                for (auto i = 0u; i < s; i++) {
                     if (values[i] != op_t.values[i]) return false;
                 }
                 return true;
@@ -458,7 +458,7 @@ public:
                 return true;
             } else {
                 // the rest has to be zero
-                return std::reduce(values.begin() + op_s, values.end(), 0,
+                return std::reduce(values.begin() + op_s, values.end(), big_num_holder_type{0},
                                    [](auto a, auto b) { return a | b; }) == 0;
             }
         } else {
@@ -466,7 +466,7 @@ public:
                 if (values[i] != op.values[i]) return false;
             }
             // the rest has to be zero
-            return std::reduce(op.values.begin() + s, op.values.end(), 0,
+            return std::reduce(op.values.begin() + s, op.values.end(), big_num_holder_type{0},
                                [](auto a, auto b) { return a | b; }) == 0;
         }
         return true;
@@ -474,9 +474,9 @@ public:
 
     template <typename T>
     requires(std::is_arithmetic_v<T>) bool operator==(T v) const {
-        auto v_casted = static_cast<uint64_t>(v);
-        if (v_casted != values[0]) return false;
-        return std::all_of(values.begin() + 1, values.end(), [](auto c) { return c == 0; });
+        auto op = big_num<sizeof(T) * 8, std::is_signed_v<T>>(v);
+        op.mask_off();
+        return (*this) == op;
     }
 
     template <uint64_t op_size, bool op_signed>
-- 
2.43.0


From 2033953311a2e7ea5459d6b4dc2a115737960955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:57 +0000
Subject: [PATCH 09/63] fix: big_num relational operators mishandled negative
 operands and mixed widths

---
 include/logic/big_num.hh | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index 7c44930..a5451bc 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -481,7 +481,11 @@ public:
 
     template <uint64_t op_size, bool op_signed>
     bool operator>(const big_num<op_size, op_signed> &op) const {
-        if constexpr (signed_ && op_signed) {
+        if constexpr (size != op_size) {
+            // the narrower one has to be extended based on its sign
+            auto constexpr target_size = util::max(size, op_size);
+            return this->template extend<target_size>() > op.template extend<target_size>();
+        } else if constexpr (signed_ && op_signed) {
             if (negative() && !op.negative()) {
                 return false;
             } else if (!negative() && op.negative()) {
@@ -489,11 +493,7 @@ public:
             }
             // if it's both positive or both negative, we fall back to the normal comparison
             // per LRM, signed comparison is only used when both operands are signed
-            // notice that if both of them are negative, we need to revert the result
-            // since the smaller number appears to be bigger due to 2's complement
-            else if (negative() && negative()) {
-                return negate() < op.negate();
-            }
+            // notice that it also works if both of them are negative due to 2's complement
         }
         // from top to bottom comparison
         auto top = util::max(s, big_num<op_size, op_signed>::s);
@@ -515,9 +515,8 @@ public:
 
     template <typename T>
     requires(std::is_arithmetic_v<T>) bool operator>(T v) const {
-        auto constexpr is_signed = std::is_signed_v<T>();
-        auto op = big_num<sizeof(T) * 8, is_signed>();
-        op.values[0] = static_cast<uint64_t>(v);
+        auto op = big_num<sizeof(T) * 8, std::is_signed_v<T>>(v);
+        op.mask_off();
         return (*this) > op;
     }
 
@@ -528,9 +527,8 @@ public:
 
     template <typename T>
     requires(std::is_arithmetic_v<T>) bool operator<=(T v) const {
-        auto constexpr is_signed = std::is_signed_v<T>();
-        auto op = big_num<sizeof(T) * 8, is_signed>();
-        op.values[0] = static_cast<uint64_t>(v);
+        auto op = big_num<sizeof(T) * 8, std::is_signed_v<T>>(v);
+        op.mask_off();
         return (*this) <= op;
     }
 
@@ -541,9 +539,8 @@ public:
 
     template <typename T>
     requires(std::is_arithmetic_v<T>) bool operator>=(T v) const {
-        auto constexpr is_signed = std::is_signed_v<T>();
-        auto op = big_num<sizeof(T) * 8, is_signed>();
-        op.values[0] = static_cast<uint64_t>(v);
+        auto op = big_num<sizeof(T) * 8, std::is_signed_v<T>>(v);
+        op.mask_off();
         return (*this) >= op;
     }
 
-- 
2.43.0


From 78af4e1061aaddd18f6a100c329b2e7b579dd5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:57 +0000
Subject: [PATCH 10/63] fix: signed big_num division did not compile and gave
 the remainder the wrong sign

---
 include/logic/big_num.hh | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index a5451bc..16d7686 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -827,14 +827,13 @@ public:
             // this implies that both of them are signed numbers
             auto op_pos = op.negative() ? op.negate() : op;
             auto this_pos = negative() ? negate() : *this;
-            std::tie(q, r) = this_pos.div_mode_(op);
+            std::tie(q, r) = big_num<size, false>(this_pos).div_mod_unsigned(op_pos);
             // if both of them are negative or positive, the sign will cancel out
-            if (op.negative() ^ negative()) {
-                q = q.negate();
-                r = r.negate();
-            }
+            if (op.negative() ^ negative()) q = q.negate();
+            // the sign of the remainder is the sign of the dividend
+            if (negative()) r = r.negate();
         } else {
-            std::tie(q, r) = div_mod_unsigned(op);
+            std::tie(q, r) = big_num<size, false>(*this).div_mod_unsigned(op);
         }
         return {q, r};
     }
-- 
2.43.0


From aa8452af771983ad65f082a2d52c6c0fa2848c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:57 +0000
Subject: [PATCH 11/63] fix: big_num sign extended native numbers by its own
 sign instead of the number's

---
 include/logic/big_num.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index 16d7686..31d613b 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -894,8 +894,8 @@ public:
 
     template <typename T>
     requires std::is_arithmetic_v<T>
-    explicit constexpr big_num(T v) : values({v}) {
-        if constexpr (signed_) {
+    explicit constexpr big_num(T v) : values({static_cast<big_num_holder_type>(v)}) {
+        if constexpr (std::is_signed_v<T>) {
             if (v < 0) {
                 for (auto i = 1u; i < s; i++) {
                     values[i] = std::numeric_limits<big_num_holder_type>::max();
-- 
2.43.0


From b427a00029554a03562e3dc605e77b6aff0de908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:13 +0000
Subject: [PATCH 12/63] fix: native bit vectors kept stray bits beyond their
 width

The excessive bits of the native holder are zero for unsigned vectors and copies
of the sign bit for signed ones; complement, mixed sign bitwise operators, sign
conversions, mask() and parsing did not maintain that.
---
 include/logic/bit.hh | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 769ab9b..ec2d0c2 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -323,13 +323,17 @@ public:
         }
     }
 
-    void mask_off() {
+    constexpr void mask_off() {
         if constexpr (native_num) {
             if constexpr (size > 1) {
                 auto constexpr amount = sizeof(T) * 8 - size;
                 auto constexpr mask_max = bit_mask();
                 auto mask = mask_max >> amount;
                 value &= mask;
+                if constexpr (signed_) {
+                    // the excessive bits of a signed native holder replicate the sign bit
+                    value = static_cast<T>(static_cast<T>(value << amount) >> amount);
+                }
             }
         } else {
             value.mask_off();
@@ -353,6 +357,7 @@ public:
             result.value = !value;
         } else {
             result.value = ~value;
+            result.mask_off();
         }
         return result;
     }
@@ -368,6 +373,7 @@ public:
     auto operator&(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
         result.value = value & op.value;
+        result.mask_off();
         return result;
     }
 
@@ -401,6 +407,7 @@ public:
     auto operator^(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
         result.value = value ^ op.value;
+        result.mask_off();
         return result;
     }
 
@@ -434,6 +441,7 @@ public:
     auto operator|(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
         result.value = value | op.value;
+        result.mask_off();
         return result;
     }
 
@@ -840,6 +848,7 @@ public:
                 res.value = value;
             } else {
                 res.value = static_cast<decltype(bit<size - 1, 0, true>::value)>(value);
+                res.mask_off();
             }
         } else {
             res.value = value.to_signed();
@@ -854,6 +863,7 @@ public:
                 res.value = value;
             } else {
                 res.value = static_cast<decltype(bit<size - 1, 0, false>::value)>(value);
+                res.mask_off();
             }
         } else {
             // big number is always unsigned
@@ -877,7 +887,8 @@ public:
             if constexpr (size == 1) {
                 value = true;
             } else {
-                value = std::numeric_limits<T>::max() >> (sizeof(T) * 8 - size);
+                value = static_cast<T>(bit_mask());
+                mask_off();
             }
         } else {
             value.mask();
@@ -1000,6 +1011,7 @@ public:
     explicit constexpr bit(std::string_view v) {
         if constexpr (native_num) {
             value = static_cast<T>(util::parse_raw_str(v));
+            mask_off();
         } else {
             util::parse_raw_str(v, size, value.values.data());
         }
-- 
2.43.0


From 0d00c1013ed3b40a614982f69aa2bcbdc7b7f335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:13 +0000
Subject: [PATCH 13/63] fix: bit construction and assignment did not truncate
 or extend to the target width

Assigning between a native and a multi-word vector, or to a narrower multi-word
one, did not compile; narrowing to a native vector kept stray bits.
---
 include/logic/bit.hh | 50 +++++++++++++++++++++++++++++++++++---------
 1 file changed, 40 insertions(+), 10 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index ec2d0c2..2c497ec 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -233,7 +233,9 @@ public:
     template <uint64_t target_size>
     requires(target_size < size)
         [[nodiscard]] constexpr bit<target_size - 1, 0, signed_> extend() const {
-        return slice<target_size - 1, 0>();
+        bit<target_size - 1, 0, signed_> result;
+        result = this->template slice<target_size - 1, 0>();
+        return result;
     }
 
     // native number, but extend to a big number
@@ -1017,14 +1019,18 @@ public:
         }
     }
 
-    explicit constexpr bit(T v) requires(util::native_num(size)) : value(v) {}
+    explicit constexpr bit(T v) requires(util::native_num(size)) : value(v) { mask_off(); }
+    template <typename K>
+    requires(std::is_arithmetic_v<K> && !std::is_same_v<K, T> &&
+             util::native_num(size)) explicit constexpr bit(K v)
+        : value(wrap_(v)) {}
     template <typename K>
     requires(std::is_arithmetic_v<K> && !util::native_num(size)) constexpr bit(K v)  // NOLINT
         : value(v) {}
 
     template <uint64_t new_size, bool new_signed>
     explicit bit(const big_num<new_size, new_signed> &big_num) requires(size <= big_num_threshold)
-        : value(big_num.values[0]) {}
+        : value(wrap_(big_num.values[0])) {}
 
     template <uint64_t op_hi, uint64_t op_lo, bool op_signed>
     constexpr bit(logic<op_hi, op_lo, op_signed> &&logic) {  // NOLINT
@@ -1040,21 +1046,32 @@ public:
     }
 
     // implicit conversion via assignment
+    // the value is extended based on the sign of the source, or truncated to the size
     template <int new_msb, int new_lsb, bool new_signed>
     bit &operator=(const bit<new_msb, new_lsb, new_signed> &b) {
-        value = b.value;
+        if constexpr (native_num) {
+            value = wrap_(b.to_uint64());
+        } else if constexpr (bit<new_msb, new_lsb>::native_num) {
+            value = big_num<size, signed_>(b.value);
+        } else {
+            value = b.value.template extend<size>();
+        }
         return *this;
     }
 
-    template <typename T>
-    bit &operator=(T v) requires(std::is_arithmetic<T>::value) {
-        value = v;
+    template <typename K>
+    bit &operator=(K v) requires(std::is_arithmetic<K>::value) {
+        if constexpr (native_num) {
+            value = wrap_(v);
+        } else {
+            value = big_num<size, signed_>(v);
+        }
         return *this;
     }
 
     template <int new_msb, int new_lsb>
     constexpr bit(const bit<new_msb, new_lsb, true> &b) {  // NOLINT
-        value = b.value;
+        *this = b;
     }
 
     static constexpr bit<0> one_() {
@@ -1096,10 +1113,23 @@ private:
         this->template unpack_<base + arg0_size>(args...);
     }
 
-    [[nodiscard]] T value_mask(uint64_t requested_size) const {
+    // keep the lower bits of a native number that fit in the size
+    template <typename K>
+    static constexpr T wrap_(K v) requires(native_num) {
+        auto const num = static_cast<uint64_t>(static_cast<int64_t>(v));
+        if constexpr (size == 1) {
+            return num & 1u;
+        } else if constexpr (signed_) {
+            return static_cast<T>(static_cast<int64_t>(num << (64 - size)) >> (64 - size));
+        } else {
+            return static_cast<T>(num & value_mask(size));
+        }
+    }
+
+    [[nodiscard]] static constexpr uint64_t value_mask(uint64_t requested_size) {
         auto mask = std::numeric_limits<uint64_t>::max();
         mask = mask >> (64ull - requested_size);
-        return static_cast<T>(mask);
+        return mask;
     }
 
     [[nodiscard]] inline bit<0> get_(int idx) const {
-- 
2.43.0


From 923a12fb85f28480af9fa6ee24af9b86e68e3f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:13 +0000
Subject: [PATCH 14/63] fix: compound assignments of bit did not compile for
 signed or wider operands

---
 include/logic/bit.hh | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 2c497ec..3d3d274 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -390,10 +390,9 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    bit<size - 1, 0, util::signed_result(signed_, op_signed)> &operator&=(
-        const bit<op_msb, op_lsb, op_signed> &op) {
+    bit &operator&=(const bit<op_msb, op_lsb, op_signed> &op) {
         auto res = (*this) & op;
-        value = res.value;
+        *this = res;
         mask_off();
         return *this;
     }
@@ -424,10 +423,9 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    bit<size - 1, 0, util::signed_result(signed_, op_signed)> &operator^=(
-        const bit<op_msb, op_lsb, op_signed> &op) {
+    bit &operator^=(const bit<op_msb, op_lsb, op_signed> &op) {
         auto res = (*this) ^ op;
-        value = res.value;
+        *this = res;
         mask_off();
         return *this;
     }
@@ -458,10 +456,9 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    bit<size - 1, 0, util::signed_result(signed_, op_signed)> &operator|=(
-        const bit<op_msb, op_lsb, op_signed> &op) {
+    bit &operator|=(const bit<op_msb, op_lsb, op_signed> &op) {
         auto res = (*this) | op;
-        value = res.value;
+        *this = res;
         mask_off();
         return *this;
     }
@@ -539,10 +536,9 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    bit<size - 1, 0, util::signed_result(signed_, op_signed)> &operator>>=(
-        const bit<op_msb, op_lsb, op_signed> &amount) {
+    bit &operator>>=(const bit<op_msb, op_lsb, op_signed> &amount) {
         auto res = (*this) >> amount;
-        value = res.value;
+        *this = res;
         return *this;
     }
 
@@ -570,10 +566,9 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    bit<size - 1, 0, util::signed_result(signed_, op_signed)> &operator<<=(
-        const bit<op_msb, op_lsb, op_signed> &amount) {
+    bit &operator<<=(const bit<op_msb, op_lsb, op_signed> &amount) {
         auto res = (*this) << amount;
-        value = res.value;
+        *this = res;
         return *this;
     }
 
-- 
2.43.0


From 1bb15b4588390a1e7d81e5c89f6fe2e92906cd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:42 +0000
Subject: [PATCH 15/63] fix: native bit arithmetic left the declared width and
 mixed signedness

Results were not reduced modulo 2^N, 32 and 64 bit signed arithmetic overflowed
(undefined behaviour), mixed signedness divided as signed numbers, and dividing
by zero trapped although multi-word vectors return 0.
---
 include/logic/bit.hh | 65 ++++++++++++++++++++++++++++++++++++--------
 1 file changed, 53 insertions(+), 12 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 3d3d274..97b4113 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -705,11 +705,13 @@ public:
     }
 
     constexpr bit<msb, lsb, signed_> operator-() const {
+        bit<msb, lsb, signed_> result;
         if constexpr (native_num) {
-            return bit<msb, lsb, signed_>(-value);
+            result = -static_cast<uint64_t>(value);
         } else {
-            return bit<msb, lsb, signed_>(value.negate());
+            result.value = value.negate();
         }
+        return result;
     }
 
     constexpr auto operator+() const { return *this; }
@@ -728,7 +730,11 @@ public:
     template <int op_lsb, bool op_signed>
     auto operator+(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
-        result.value = value + op.value;
+        if constexpr (native_num) {
+            result = static_cast<uint64_t>(value) + static_cast<uint64_t>(op.value);
+        } else {
+            result.value = value + op.value;
+        }
         return result;
     }
 
@@ -752,7 +758,11 @@ public:
     template <int op_lsb, bool op_signed>
     auto operator-(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
-        result.value = value - op.value;
+        if constexpr (native_num) {
+            result = static_cast<uint64_t>(value) - static_cast<uint64_t>(op.value);
+        } else {
+            result.value = value - op.value;
+        }
         return result;
     }
 
@@ -776,7 +786,11 @@ public:
     template <int op_lsb, bool op_signed>
     auto operator*(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
-        result.value = value * op.value;
+        if constexpr (native_num) {
+            result = static_cast<uint64_t>(value) * static_cast<uint64_t>(op.value);
+        } else {
+            result.value = value * op.value;
+        }
         return result;
     }
 
@@ -800,7 +814,20 @@ public:
     template <int op_lsb, bool op_signed>
     auto operator%(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
-        result.value = value % op.value;
+        if constexpr (!native_num) {
+            result.value = value % op.value;
+        } else if constexpr (signed_ != op_signed) {
+            // only signed if both operands are signed
+            result = to_unsigned() % op.to_unsigned();
+        } else {
+            // notice that if we divide by zero, we return 0, same as the big number
+            if (!op.any_set()) return result;
+            if constexpr (signed_) {
+                // the most negative number cannot be divided by -1 natively
+                if (op.all_set()) return result;
+            }
+            result.value = value % op.value;
+        }
         return result;
     }
 
@@ -824,7 +851,23 @@ public:
     template <int op_lsb, bool op_signed>
     auto operator/(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
-        result.value = value / op.value;
+        if constexpr (!native_num) {
+            result.value = value / op.value;
+        } else if constexpr (signed_ != op_signed) {
+            // only signed if both operands are signed
+            result = to_unsigned() / op.to_unsigned();
+        } else {
+            // notice that if we divide by zero, we return 0, same as the big number
+            if (!op.any_set()) return result;
+            if constexpr (signed_) {
+                // the most negative number cannot be divided by -1 natively
+                if (op.all_set()) {
+                    result = -(*this);
+                    return result;
+                }
+            }
+            result.value = value / op.value;
+        }
         return result;
     }
 
@@ -907,18 +950,16 @@ public:
 
     void negate() {
         if constexpr (native_num) {
-            value = (~value) + 1;
-            mask_off();
+            value = wrap_(~static_cast<uint64_t>(value) + 1);
         } else {
-            return value.negate();
+            value = value.negate();
         }
     }
 
     [[nodiscard]] bit<size - 1, 0> negate() const {
         bit<size - 1, 0> res;
         if constexpr (native_num) {
-            res.value = (~value) + 1;
-            res.mask_off();
+            res = ~static_cast<uint64_t>(value) + 1;
         } else {
             res.value = value.negate();
         }
-- 
2.43.0


From 87745550b5a985f6f0f418a6651a48d3c16ef976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:42 +0000
Subject: [PATCH 16/63] fix: bit reductions did not compile for native vectors
 or folded the wrong bits

---
 include/logic/bit.hh | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 97b4113..c1e5e56 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -319,7 +319,7 @@ public:
 
     [[nodiscard]] uint64_t popcount() const {
         if constexpr (native_num) {
-            return std::popcount(value);
+            return std::popcount(static_cast<uint64_t>(to_unsigned().value));
         } else {
             return value.popcount();
         }
@@ -465,11 +465,10 @@ public:
 
     // reduction
     [[nodiscard]] bool r_and() const requires(native_num) {
-        auto constexpr max = std::numeric_limits<T>::max() >> (sizeof(T) * 8 - size);
-        return value == max;
+        return all_set();
     }
 
-    [[nodiscard]] bool r_and() const requires(!native_num) { return value.r_xor(); }
+    [[nodiscard]] bool r_and() const requires(!native_num) { return value.r_and(); }
 
     [[maybe_unused]] [[nodiscard]] bool r_nand() const { return !r_and(); }
 
@@ -478,11 +477,7 @@ public:
     [[maybe_unused]] [[nodiscard]] bool r_nor() const { return !r_or(); }
 
     [[nodiscard]] bool r_xor() const requires(native_num) {
-        bool b = get<0>();
-        for (auto i = 1; i < size; i++) {
-            b = b ^ get(i);
-        }
-        return b;
+        return popcount() % 2;
     }
 
     [[nodiscard]] bool r_xor() const requires(!native_num) { return value.r_xor(); }
@@ -969,7 +964,7 @@ public:
     [[nodiscard]] bool all_set() const {
         if constexpr (native_num) {
             auto constexpr max = value_mask(size);
-            return value == max;
+            return static_cast<uint64_t>(to_unsigned().value) == max;
         } else {
             return value.all_set();
         }
-- 
2.43.0


From 761df0403ac8cfebaea1f0d30179ffcbfcb3ae2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:42 +0000
Subject: [PATCH 17/63] fix: native shifts were undefined once the amount
 reached the width

They also converted the amount to the type of the shifted vector, kept bits
beyond the width, and did not compile with a multi-word amount.
---
 include/logic/bit.hh | 64 +++++++++++++++++++++-----------------------
 1 file changed, 31 insertions(+), 33 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index c1e5e56..ef3fd51 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -484,23 +484,28 @@ public:
 
     [[maybe_unused]] [[nodiscard]] bool r_xnor() const { return !r_xor(); }
 
+    // shift amount is always treated as an unsigned number (LRM 11.4.10)
+    [[nodiscard]] uint64_t shift_amount() const {
+        if constexpr (native_num) {
+            return to_unsigned().value;
+        } else {
+            return value.fit_in_64() ? value.values[0] : std::numeric_limits<uint64_t>::max();
+        }
+    }
+
     template <int op_msb, int op_lsb, bool op_signed>
     auto operator>>(const bit<op_msb, op_lsb, op_signed> &amount) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> res;
         // couple cases
-        // 1. both of them are native number
-        if constexpr (native_num && bit<op_msb, op_lsb>::native_num) {
+        // 1. itself is a native number
+        if constexpr (native_num) {
             // make sure to mask off any bit dur to signed extension
-            res.value = (value >> static_cast<T>(amount.value)) & value_mask(size - amount.value);
-        } else if constexpr ((!native_num)) {
-            res.value = value >> amount.value;
+            auto const num = amount.shift_amount();
+            if (num < size) res = static_cast<uint64_t>(to_unsigned().value) >> num;
+        } else if constexpr (bit<op_msb, op_lsb>::native_num) {
+            res.value = value >> amount.shift_amount();
         } else {
-            // itself is a native number but amount is not
-            // convert to itself as a big number
-            big_num<size, signed_> big_num;
-            big_num.values[0] = static_cast<uint64_t>(value);
-            auto res_num = big_num >> amount;
-            res.value = static_cast<T>(res_num.values[0]);
+            res.value = value >> amount.value;
         }
 
         return res;
@@ -544,17 +549,13 @@ public:
         // 1. both of them are native number
         // clang doesn't allow accessing native_num as amount.native_num
         // see https://stackoverflow.com/a/44996066
-        if constexpr (native_num && bit<op_msb, op_lsb>::native_num) {
-            res.value = value << static_cast<T>(amount.value);
-        } else if constexpr ((!native_num)) {
-            res.value = value << amount.value;
+        if constexpr (native_num) {
+            auto const num = amount.shift_amount();
+            if (num < size) res = static_cast<uint64_t>(value) << num;
+        } else if constexpr (bit<op_msb, op_lsb>::native_num) {
+            res.value = value << amount.shift_amount();
         } else {
-            // itself is a native number but amount is not
-            // convert to itself as a big number
-            big_num<size> big_num;
-            big_num.values[0] = static_cast<uint64_t>(value);
-            auto res_num = big_num << amount;
-            res.value = static_cast<T>(res_num.values[0]);
+            res.value = value << amount.value;
         }
 
         return res;
@@ -571,19 +572,16 @@ public:
     auto ashr(const bit<op_msb, op_lsb, op_signed> &amount) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> res;
         // couple cases
-        // 1. both of them are native number
-        if constexpr (native_num && bit<op_msb, op_lsb>::native_num) {
-            // no need to mask since C++ does arithmetic shifts by default
-            res.value = value >> static_cast<T>(amount.value);
-        } else if constexpr ((!native_num)) {
-            res.value = value.ashr(amount.value);
+        // 1. itself is a native number
+        if constexpr (native_num) {
+            // C++ does arithmetic shifts by default, and every bit is the sign bit once the amount
+            // reaches the size
+            auto const num = amount.shift_amount();
+            res = value >> util::min<uint64_t>(num, sizeof(T) * 8 - 1);
+        } else if constexpr (bit<op_msb, op_lsb>::native_num) {
+            res.value = value.ashr(amount.shift_amount());
         } else {
-            // itself is a native number but amount is not
-            // convert to itself as a big number
-            big_num<size> big_num;
-            big_num.values[0] = static_cast<uint64_t>(value);
-            auto res_num = big_num.ashr(amount);
-            res.value = static_cast<T>(res_num.values[0]);
+            res.value = value.ashr(amount.value);
         }
 
         return res;
-- 
2.43.0


From 05968d3afef9d45b5f7d1a9ae32438bc545cbd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:42 +0000
Subject: [PATCH 18/63] fix: bit comparisons truncated the wider operand and
 skipped mixed storage

Equality cast the right operand to the left type, mixed signedness was compared
beyond the common width, and native/multi-word comparisons returned nothing.
---
 include/logic/bit.hh | 62 ++++++++++++++++++++++++++++++++------------
 1 file changed, 46 insertions(+), 16 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index ef3fd51..2ac2c19 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -593,21 +593,35 @@ public:
         return (*this) << amount;
     }
 
+    // operands of a comparison are brought to the same size, based on their own signs
+    template <uint64_t target_size>
+    requires(util::native_num(target_size)) [[nodiscard]] uint64_t unsigned_value() const {
+        return this->template extend<target_size>().to_unsigned().value;
+    }
+
     template <int op_msb, int op_lsb, bool op_signed>
     bool operator==(const bit<op_msb, op_lsb, op_signed> &v) const {
         if constexpr (native_num && bit<op_msb, op_lsb>::native_num) {
-            return value == static_cast<T>(v.value);
+            auto constexpr target_size = util::max(size, bit<op_msb, op_lsb>::size);
+            return this->template unsigned_value<target_size>() ==
+                   v.template unsigned_value<target_size>();
         } else {
-            return value == v.value;
+            auto constexpr target_size = util::max(size, bit<op_msb, op_lsb>::size);
+            return this->template extend<target_size>().value ==
+                   v.template extend<target_size>().value;
         }
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
     bool operator!=(const bit<op_msb, op_lsb, op_signed> &v) const {
         if constexpr (native_num && bit<op_msb, op_lsb>::native_num) {
-            return value != static_cast<T>(v.value);
+            auto constexpr target_size = util::max(size, bit<op_msb, op_lsb>::size);
+            return this->template unsigned_value<target_size>() !=
+                   v.template unsigned_value<target_size>();
         } else {
-            return value != v.value;
+            auto constexpr target_size = util::max(size, bit<op_msb, op_lsb>::size);
+            return this->template extend<target_size>().value !=
+                   v.template extend<target_size>().value;
         }
     }
 
@@ -628,10 +642,14 @@ public:
             if constexpr (signed_ && op_signed) {
                 return value > v.value;
             } else {
-                return static_cast<uint64_t>(value) > static_cast<uint64_t>(v.value);
+                auto constexpr target_size = util::max(size, bit<op_msb, op_lsb>::size);
+                return this->template unsigned_value<target_size>() >
+                       v.template unsigned_value<target_size>();
             }
-        } else if constexpr (!native_num) {
-            return value > v.value;
+        } else {
+            auto constexpr target_size = util::max(size, bit<op_msb, op_lsb>::size);
+            return this->template extend<target_size>().value >
+                   v.template extend<target_size>().value;
         }
     }
 
@@ -647,10 +665,14 @@ public:
             if constexpr (signed_ && op_signed) {
                 return value < v.value;
             } else {
-                return static_cast<uint64_t>(value) < static_cast<uint64_t>(v.value);
+                auto constexpr target_size = util::max(size, bit<op_msb, op_lsb>::size);
+                return this->template unsigned_value<target_size>() <
+                       v.template unsigned_value<target_size>();
             }
-        } else if constexpr (!native_num) {
-            return value < v.value;
+        } else {
+            auto constexpr target_size = util::max(size, bit<op_msb, op_lsb>::size);
+            return this->template extend<target_size>().value <
+                   v.template extend<target_size>().value;
         }
     }
 
@@ -666,10 +688,14 @@ public:
             if constexpr (signed_ && op_signed) {
                 return value >= v.value;
             } else {
-                return static_cast<uint64_t>(value) >= static_cast<uint64_t>(v.value);
+                auto constexpr target_size = util::max(size, bit<op_msb, op_lsb>::size);
+                return this->template unsigned_value<target_size>() >=
+                       v.template unsigned_value<target_size>();
             }
-        } else if constexpr (!native_num) {
-            return value >= v.value;
+        } else {
+            auto constexpr target_size = util::max(size, bit<op_msb, op_lsb>::size);
+            return this->template extend<target_size>().value >=
+                   v.template extend<target_size>().value;
         }
     }
 
@@ -685,10 +711,14 @@ public:
             if constexpr (signed_ && op_signed) {
                 return value <= v.value;
             } else {
-                return static_cast<uint64_t>(value) <= static_cast<uint64_t>(v.value);
+                auto constexpr target_size = util::max(size, bit<op_msb, op_lsb>::size);
+                return this->template unsigned_value<target_size>() <=
+                       v.template unsigned_value<target_size>();
             }
-        } else if constexpr (!native_num) {
-            return value <= v.value;
+        } else {
+            auto constexpr target_size = util::max(size, bit<op_msb, op_lsb>::size);
+            return this->template extend<target_size>().value <=
+                   v.template extend<target_size>().value;
         }
     }
 
-- 
2.43.0


From 9b624ad3006eb128e9300ce0190f8f2dfc4baf39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:42 +0000
Subject: [PATCH 19/63] fix: bit select and set mixed up the declared index
 range and the bit position

Multi-word ascending vectors were written at the mirrored position, ranges not
starting at 0 were read at the wrong one, signed native vectors lost their
canonical form, and out of range native accesses were undefined.
---
 include/logic/bit.hh | 77 ++++++++++++++++----------------------------
 1 file changed, 27 insertions(+), 50 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 2ac2c19..1b96353 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -47,36 +47,27 @@ public:
     bit<0> inline operator[](int idx) const requires(!array) { return get_(idx); }
 
     template <int idx>
-    requires(idx < size && native_num) [[nodiscard]] bit<0> inline get() const requires(!array) {
+    requires(idx < size) [[nodiscard]] bit<0> inline get() const requires(!array) {
         return this->operator[](idx);
     }
 
     template <int op_msb, int op_lsb, bool op_signed, bool op_array>
     bool inline get(const bit<op_msb, op_lsb, op_signed, op_array> &op) const requires(!array) {
-        int index;
-        if constexpr (bit<op_msb, op_lsb>::native_num) {
-            index = op.value - util::min(msb, lsb);
-        } else {
-            if (op.fit_in_64()) {
-                index = op.value.value[0] - util::min(msb, lsb);
-            } else {
-                return false;
-            }
-        }
-        return get_(index);
+        auto const index = op.shift_amount();
+        if (index > std::numeric_limits<int>::max()) return false;
+        return get_(static_cast<int>(index)).value;
     }
 
     void inline set(int idx, bool v) {
-        if constexpr (!big_endian) {
-            idx = lsb - idx;
-        }
-        auto i = static_cast<uint64_t>(idx - util::min(lsb, msb));
+        auto const i = bit_index(idx);
         if constexpr (native_num) {
+            if (i >= size) return;
             if (v) {
                 value |= 1ull << i;
             } else {
                 value &= ~(1ull << i);
             }
+            mask_off();
         } else {
             value.set(i, v);
         }
@@ -84,33 +75,21 @@ public:
 
     template <int idx>
     void set(bool v) requires(!array) {
-        constexpr auto idx_ = big_endian ? idx : (lsb - idx);
-        constexpr auto i = static_cast<uint64_t>(idx_ - util::min(lsb, msb));
+        constexpr auto i = bit_index(idx);
         if constexpr (native_num) {
             if (v) {
                 value |= 1ull << i;
             } else {
                 value &= ~(1ull << i);
             }
+            mask_off();
         } else {
             value.template set<i>(v);
         }
     }
 
     void inline set(int idx, bit<0> v) {
-        if constexpr (!big_endian) {
-            idx = lsb - idx;
-        }
-        auto i = static_cast<uint64_t>(idx - util::min(lsb, msb));
-        if constexpr (native_num) {
-            if (v) {
-                value |= 1ull << i;
-            } else {
-                value &= ~(1ull << i);
-            }
-        } else {
-            value.set(idx, v.value);
-        }
+        set(idx, v.value);
     }
 
     template <int idx>
@@ -120,14 +99,14 @@ public:
 
     template <int idx, bool v>
     void set() requires(!array) {
-        auto constexpr idx_ = big_endian ? idx : (lsb - idx);
-        constexpr auto i = idx_ - util::min(lsb, msb);
+        constexpr auto i = bit_index(idx);
         if constexpr (native_num) {
             if constexpr (v) {
                 value |= 1ull << i;
             } else {
                 value &= ~(1ull << i);
             }
+            mask_off();
         } else {
             value.template set<i, v>();
         }
@@ -1191,32 +1170,30 @@ private:
         return mask;
     }
 
+    // position of the indexed bit, counted from the least significant one
+    [[nodiscard]] static constexpr uint64_t bit_index(int idx) {
+        return static_cast<uint64_t>(static_cast<int64_t>(big_endian ? idx : lsb) -
+                                     (big_endian ? lsb : idx));
+    }
+
     [[nodiscard]] inline bit<0> get_(int idx) const {
-        if constexpr (!big_endian) {
-            idx = lsb - idx;
-        }
+        auto const i = bit_index(idx);
         if constexpr (native_num) {
-            return bit<0>((value >> idx) & 1);
+            // out of range access reads 0
+            if (i >= size) return bit<0>(false);
+            return bit<0>((value >> i) & 1);
         } else {
-            return bit<0>(value[idx]);
+            return bit<0>(value[i]);
         }
     }
 
     template <int idx>
     [[nodiscard]] inline bit<0> get_() const {
-        if constexpr (!big_endian) {
-            constexpr auto idx_ = lsb - idx;
-            if constexpr (native_num) {
-                return bit<0>((value >> idx_) & 1);
-            } else {
-                return bit<0>(value.template get<idx_>());
-            }
+        constexpr auto i = bit_index(idx);
+        if constexpr (native_num) {
+            return bit<0>((value >> i) & 1);
         } else {
-            if constexpr (native_num) {
-                return bit<0>((value >> idx) & 1);
-            } else {
-                return bit<0>(value.template get<idx>());
-            }
+            return bit<0>(value.template get<i>());
         }
     }
 
-- 
2.43.0


From a3a564f1c11fa4e745755be0c9b5c1bc0704ff72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:42 +0000
Subject: [PATCH 20/63] fix: part selects of signed vectors and of 65 bits were
 wrong

Signed native vectors lost the top selected bit or sign extended the result, and
a 65 bit select was treated as a native one.
---
 include/logic/bit.hh | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 1b96353..b0da5a4 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -137,8 +137,8 @@ public:
      * big number but small slice
      */
     template <int a, int b>
-    requires(util::max(a, b) < size && !native_num && util::native_num(util::abs_diff(a, b)) &&
-             b >= lsb) constexpr bit<util::abs_diff(a, b)> inline slice() const requires(!array) {
+    requires(util::max(a, b) < size && !native_num &&
+             util::native_num(util::abs_diff(a, b) + 1) && b >= lsb) constexpr bit<util::abs_diff(a, b)> inline slice() const requires(!array) {
         bit<util::abs_diff(a, b), false> result;
         auto res = value.template slice<a, b>();
         // need to shrink it down
@@ -150,8 +150,8 @@ public:
      * big number and big slice
      */
     template <int a, int b>
-    requires(util::max(a, b) < size && !native_num && !util::native_num(util::abs_diff(a, b)) &&
-             b >= lsb) constexpr bit<util::abs_diff(a, b)> inline slice() const requires(!array) {
+    requires(util::max(a, b) < size && !native_num &&
+             !util::native_num(util::abs_diff(a, b) + 1) && b >= lsb) constexpr bit<util::abs_diff(a, b)> inline slice() const requires(!array) {
         bit<util::abs_diff(a, b), false> result;
         result.value = value.template slice<a, b>();
         return result;
@@ -1213,14 +1213,8 @@ protected:
         } else {
             constexpr auto default_mask = bit_mask();
             uint64_t mask = default_mask << min;
-            uint64_t shmnt;
-            if constexpr (signed_) {
-                shmnt = 2;
-            } else {
-                shmnt = 1;
-            }
-            mask &= (default_mask >> (t_size - max - shmnt));
-            result.value = (value & static_cast<T>(mask)) >> min;
+            mask &= (default_mask >> (t_size - max - 1));
+            result.value = (static_cast<uint64_t>(value) & mask) >> min;
         }
         return result;
     }
@@ -1237,7 +1231,7 @@ protected:
             constexpr auto default_mask = bit_mask();
             uint64_t mask = default_mask << min;
             mask &= (default_mask >> (t_size - max - 1));
-            result.value = (value & static_cast<T>(mask)) >> min;
+            result = (static_cast<uint64_t>(value) & mask) >> min;
 
             return result;
         } else {
-- 
2.43.0


From 4b5f7407e679347af2bb6721f21f246086f819de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:42 +0000
Subject: [PATCH 21/63] fix: writing a range of a bit vector read the source at
 the target's index

---
 include/logic/bit.hh | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index b0da5a4..19cea6b 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -990,9 +990,9 @@ public:
             // we need to revert the index accessing scheme here, if the endian doesn't match
             int idx;
             if constexpr (bit<op_hi, op_lo>::big_endian ^ big_endian) {
-                idx = util::max(op_lo, op_hi) - i;
+                idx = util::max(op_lo, op_hi) - (i - start);
             } else {
-                idx = i;
+                idx = i - start;
             }
             auto b = op.operator[](idx);
             set(i, b);
@@ -1255,11 +1255,11 @@ protected:
             // we need to revert the index accessing scheme here, if the endian doesn't match
             uint64_t idx;
             if constexpr (bit<op_msb, op_lsb>::big_endian ^ big_endian) {
-                idx = util::max(op_lsb, op_msb) - i;
+                idx = util::max(op_lsb, op_msb) - (i - start);
             } else {
-                idx = i;
+                idx = i - start;
             }
-            auto b = op.operator[](idx - start);
+            auto b = op.operator[](idx);
             set(i, b);
         }
     }
-- 
2.43.0


From fcfa3f68ae8358460b08419648c453f5e8799672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:42 +0000
Subject: [PATCH 22/63] fix: concatenating bit vectors lost bits or did not
 compile

Native parts were shifted in their own (promoted) type, results of 64 bits and
more named a member that does not exist, and unpacking into bit did not compile.
---
 include/logic/bit.hh | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 19cea6b..4365b68 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -254,19 +254,22 @@ public:
     auto concat(const bit<arg0_msb, arg0_lsb, arg0_signed> &arg0) {
         auto constexpr arg0_size = bit<arg0_msb, arg0_lsb>::size;
         auto constexpr final_size = size + arg0_size;
-        if constexpr (final_size < big_num_threshold) {
-            return bit<final_size - 1>(value << arg0_size | arg0.value);
+        if constexpr (final_size <= big_num_threshold) {
+            auto const hi = static_cast<uint64_t>(to_unsigned().value);
+            auto const lo = static_cast<uint64_t>(arg0.to_unsigned().value);
+            return bit<final_size - 1>(hi << arg0_size | lo);
         } else {
             auto res = bit<final_size - 1>();
-            if constexpr (bit<arg0_msb, arg0_lsb>::native_num) {
-                // convert to big num
-                big_num<arg0_size, false> b(arg0.value);
-                auto big_num = value.concat(b);
-                res.big_num = big_num;
-            } else {
-                auto big_num = value.concat(arg0.value);
-                res.big_num = big_num;
-            }
+            // convert to big num
+            auto to_big_num = [](const auto &num) {
+                using num_type = std::remove_cvref_t<decltype(num)>;
+                if constexpr (num_type::native_num) {
+                    return big_num<num_type::size, false>(num.value);
+                } else {
+                    return num.value;
+                }
+            };
+            res.value = to_big_num(to_unsigned()).concat(to_big_num(arg0.to_unsigned()));
             return res;
         }
     }
@@ -1126,7 +1129,7 @@ private:
     requires(base < size) void unpack_(bit<arg0_msb, arg0_lsb, arg0_signed> &arg0) const {
         auto constexpr arg0_size = bit<arg0_msb, arg0_lsb, arg0_signed>::size;
         auto constexpr upper_bound = util::min(size - 1, arg0_size + base - 1);
-        arg0.value = this->template slice<base, upper_bound>();
+        arg0 = this->template slice<base, upper_bound>();
     }
 
     template <int base, int arg0_msb, int arg0_lsb, bool arg0_signed>
-- 
2.43.0


From 4525b9285f0fe808291d6dacae598f314bdc3090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:03 +0000
Subject: [PATCH 23/63] fix: four-state & and | looked at the wrong operand
 when the left one is unknown

x & 0 gave x, x | 0 gave 1, and z & z gave z.
---
 include/logic/logic.hh | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index 0c5933e..3ad9e4e 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -319,9 +319,10 @@ public:
         // only happens between 1 and x/z. Notice that 1 is encoded as (1, 0) and x is (, 1)
         //
         auto mask = (((xz_mask ^ op.xz_mask) & ~xz_mask) & value) |     // 1   & x/z
-                    (((op.xz_mask ^ xz_mask) & ~op.xz_mask) & ~value);  // x/z & 1
-        result.value &= ~mask;
+                    (((op.xz_mask ^ xz_mask) & ~op.xz_mask) & op.value);  // x/z & 1
         result.xz_mask |= mask;
+        // anything unknown becomes x
+        result.value &= ~result.xz_mask;
 
         return result;
     }
@@ -385,7 +386,7 @@ public:
         // z x x x x
         // compute the mask for case // 1 & x/z and x/z & 1
         auto mask = (((xz_mask ^ op.xz_mask) & ~xz_mask) & value) |     // 1   | x/z
-                    (((op.xz_mask ^ xz_mask) & ~op.xz_mask) & ~value);  // x/z | 1
+                    (((op.xz_mask ^ xz_mask) & ~op.xz_mask) & op.value);  // x/z | 1
         result.value |= mask;
         result.xz_mask &= ~mask;
         return result;
-- 
2.43.0


From 5751f7d1d509adbd3ff51ec5d4d697893576ac26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:03 +0000
Subject: [PATCH 24/63] fix: exclusive or of logic vectors of different widths
 computed an inclusive or

---
 include/logic/logic.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index 3ad9e4e..b0383ea 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -457,7 +457,7 @@ public:
         const logic<op_msb, op_lsb, op_signed> &op) const {
         auto l = this->template extend<target_size>();
         auto r = op.template extend<target_size>();
-        auto result = l | r;
+        auto result = l ^ r;
         return result;
     }
 
-- 
2.43.0


From 8ba2a5a8930678bc566dec3035eea0fd377414bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:03 +0000
Subject: [PATCH 25/63] fix: compound assignments of signed logic vectors did
 not compile

---
 include/logic/logic.hh | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index b0383ea..f9c7342 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -343,8 +343,7 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    logic<size - 1, 0, util::signed_result(signed_, op_signed)> &operator&=(
-        const logic<op_msb, op_lsb, op_signed> &op) {
+    logic &operator&=(const logic<op_msb, op_lsb, op_signed> &op) {
         auto const res = (*this) & op;
         this->value = res.value;
         this->xz_mask = res.xz_mask;
@@ -408,8 +407,7 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    logic<size - 1, 0, util::signed_result(signed_, op_signed)> &operator|=(
-        const logic<op_msb, op_lsb, op_signed> &op) {
+    logic &operator|=(const logic<op_msb, op_lsb, op_signed> &op) {
         auto const res = (*this) | op;
         this->value = res.value;
         this->xz_mask = res.xz_mask;
@@ -462,8 +460,7 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    logic<size - 1, 0, util::signed_result(signed_, op_signed)> &operator^=(
-        const logic<op_msb, op_lsb, op_signed> &op) {
+    logic &operator^=(const logic<op_msb, op_lsb, op_signed> &op) {
         auto const res = (*this) ^ op;
         this->value = res.value;
         this->xz_mask = res.xz_mask;
@@ -573,8 +570,7 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    logic<size - 1, 0, util::signed_result(signed_, op_signed)> &operator>>=(
-        const logic<op_msb, op_lsb, op_signed> &amount) {
+    logic &operator>>=(const logic<op_msb, op_lsb, op_signed> &amount) {
         auto res = (*this) >> amount;
         value = res.value;
         xz_mask = res.xz_mask;
@@ -601,8 +597,7 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    logic<size - 1, 0, util::signed_result(signed_, op_signed)> &operator<<=(
-        const logic<op_msb, op_lsb, op_signed> &amount) {
+    logic &operator<<=(const logic<op_msb, op_lsb, op_signed> &amount) {
         auto res = (*this) << amount;
         value = res.value;
         xz_mask = res.xz_mask;
-- 
2.43.0


From c379b923bc0881e9e0914448ccb398c5dcbab421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:03 +0000
Subject: [PATCH 26/63] fix: logic operators with a bit operand only compiled
 for the exact same type

Inside the class `logic` names the current specialization, so the operand was
converted to the wrong type; same-size bitwise operators were excluded.
---
 include/logic/logic.hh | 51 +++++++++++++++++++-----------------------
 1 file changed, 23 insertions(+), 28 deletions(-)

diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index f9c7342..28718aa 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -328,9 +328,8 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    requires((util::abs_diff(op_msb, op_lsb) + 1) != size) auto operator&(
-        const bit<op_msb, op_lsb, op_signed> &op) const {
-        return this->template operator&(logic(op));
+    auto operator&(const bit<op_msb, op_lsb, op_signed> &op) const {
+        return (*this) & ::logic::logic<op_msb, op_lsb, op_signed>(op);
     }
 
     template <uint64_t target_size, int op_msb, int op_lsb, bool op_signed>
@@ -392,9 +391,8 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    requires((util::abs_diff(op_msb, op_lsb) + 1) != size) auto operator|(
-        const bit<op_msb, op_lsb, op_signed> &op) const {
-        return this->template operator|(logic(op));
+    auto operator|(const bit<op_msb, op_lsb, op_signed> &op) const {
+        return (*this) | ::logic::logic<op_msb, op_lsb, op_signed>(op);
     }
 
     template <uint64_t target_size, int op_msb, int op_lsb, bool op_signed>
@@ -445,9 +443,8 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    requires((util::abs_diff(op_msb, op_lsb) + 1) != size) auto operator^(
-        const bit<op_msb, op_lsb, op_signed> &op) const {
-        return this->template operator^(logic(op));
+    auto operator^(const bit<op_msb, op_lsb, op_signed> &op) const {
+        return (*this) ^ ::logic::logic<op_msb, op_lsb, op_signed>(op);
     }
 
     template <uint64_t target_size, int op_msb, int op_lsb, bool op_signed>
@@ -564,9 +561,8 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    requires((util::abs_diff(op_msb, op_lsb) + 1) != size) auto operator>>(
-        const bit<op_msb, op_lsb, op_signed> &op) const {
-        return this->template operator>>(logic(op));
+    auto operator>>(const bit<op_msb, op_lsb, op_signed> &op) const {
+        return (*this) >> ::logic::logic<op_msb, op_lsb, op_signed>(op);
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
@@ -591,9 +587,8 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    requires((util::abs_diff(op_msb, op_lsb) + 1) != size) auto operator<<(
-        const bit<op_msb, op_lsb, op_signed> &op) const {
-        return this->template operator<<(logic(op));
+    auto operator<<(const bit<op_msb, op_lsb, op_signed> &op) const {
+        return (*this) << ::logic::logic<op_msb, op_lsb, op_signed>(op);
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
@@ -632,7 +627,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     auto ashl(const bit<op_msb, op_lsb, op_signed> &amount) const {
-        return this->template ashl(logic(amount));
+        return this->ashl(::logic::logic<op_msb, op_lsb, op_signed>(amount));
     }
 
     /*
@@ -646,7 +641,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     logic<0> operator==(const bit<op_msb, op_lsb, op_signed> &target) const {
-        return this->template operator==(logic(target));
+        return (*this) == ::logic::logic<op_msb, op_lsb, op_signed>(target);
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
@@ -657,7 +652,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     logic<0> operator!=(const bit<op_msb, op_lsb, op_signed> &target) const {
-        return this->template operator!=(logic(target));
+        return (*this) != ::logic::logic<op_msb, op_lsb, op_signed>(target);
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
@@ -667,7 +662,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     [[nodiscard]] bool match(const bit<op_msb, op_lsb, op_signed> &op) const {
-        return this->template match(logic(op));
+        return this->match(::logic::logic<op_msb, op_lsb, op_signed>(op));
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
@@ -688,7 +683,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     logic<0> operator>(const bit<op_msb, op_lsb, op_signed> &target) const {
-        return this->template operator>(logic(target));
+        return (*this) > ::logic::logic<op_msb, op_lsb, op_signed>(target);
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
@@ -699,7 +694,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     logic<0> operator<(const bit<op_msb, op_lsb, op_signed> &target) const {
-        return this->template operator<(logic(target));
+        return (*this) < ::logic::logic<op_msb, op_lsb, op_signed>(target);
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
@@ -710,7 +705,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     logic<0> operator>=(const bit<op_msb, op_lsb, op_signed> &target) const {
-        return this->template operator>=(logic(target));
+        return (*this) >= ::logic::logic<op_msb, op_lsb, op_signed>(target);
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
@@ -721,7 +716,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     logic<0> operator<=(const bit<op_msb, op_lsb, op_signed> &target) const {
-        return this->template operator<=(logic(target));
+        return (*this) <= ::logic::logic<op_msb, op_lsb, op_signed>(target);
     }
 
     constexpr auto operator-() const {
@@ -759,7 +754,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     auto operator+(const bit<op_msb, op_lsb, op_signed> &target) const {
-        return this->template operator+(logic(target));
+        return (*this) + ::logic::logic<op_msb, op_lsb, op_signed>(target);
     }
 
     template <uint64_t target_size, int op_msb, int op_lsb, bool op_signed>
@@ -790,7 +785,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     auto operator-(const bit<op_msb, op_lsb, op_signed> &target) const {
-        return this->template operator-(logic(target));
+        return (*this) - ::logic::logic<op_msb, op_lsb, op_signed>(target);
     }
 
     template <uint64_t target_size, int op_msb, int op_lsb, bool op_signed>
@@ -821,7 +816,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     auto operator*(const bit<op_msb, op_lsb, op_signed> &target) const {
-        return this->template operator*(logic(target));
+        return (*this) * ::logic::logic<op_msb, op_lsb, op_signed>(target);
     }
 
     template <uint64_t target_size, int op_msb, int op_lsb, bool op_signed>
@@ -853,7 +848,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     auto operator/(const bit<op_msb, op_lsb, op_signed> &target) const {
-        return this->template operator/(logic(target));
+        return (*this) / ::logic::logic<op_msb, op_lsb, op_signed>(target);
     }
 
     template <uint64_t target_size, int op_msb, int op_lsb, bool op_signed>
@@ -885,7 +880,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     auto operator%(const bit<op_msb, op_lsb, op_signed> &target) const {
-        return this->template operator%(logic(target));
+        return (*this) % ::logic::logic<op_msb, op_lsb, op_signed>(target);
     }
 
     template <uint64_t target_size, int op_msb, int op_lsb, bool op_signed>
-- 
2.43.0


From 3b3ae95f0eea3a5c75f5f26d9bd642481eb16909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:03 +0000
Subject: [PATCH 27/63] fix: logic reductions stopped at the first unknown bit
 and xor counted zeros

---
 include/logic/logic.hh | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index 28718aa..e2457c7 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -480,29 +480,31 @@ public:
     [[nodiscard]] logic<0> r_and() const {
         // zero trump everything
         // brute force way to compute
+        bool unknown = false;
         for (auto i = 0u; i < size; i++) {
             auto b = value[i];
             auto m = xz_mask[i];
             if (!b && !m)
                 return zero_();
             else if (m)
-                return x_();
+                unknown = true;
         }
-        return one_();
+        return unknown ? x_() : one_();
     }
 
     [[nodiscard]] logic<0> r_nand() const { return !r_and(); }
 
     [[nodiscard]] logic<0> r_or() const {
+        bool unknown = false;
         for (auto i = 0u; i < size; i++) {
             auto b = value[i];
             auto m = xz_mask[i];
             if (b && !m)
                 return one_();
             else if (m)
-                return x_();
+                unknown = true;
         }
-        return zero_();
+        return unknown ? x_() : zero_();
     }
 
     [[nodiscard]] logic<0> r_nor() const { return !r_or(); }
@@ -517,8 +519,7 @@ public:
         // if x/z is set, it's always x
         if (xz_mask.any_set()) return x_();
         auto bits_count = value.popcount();
-        auto zeros = size - bits_count;
-        return (zeros % 2) ? one_() : zero_();
+        return (bits_count % 2) ? one_() : zero_();
     }
 
     [[nodiscard]] logic<0> r_xnor() const { return !r_xor(); }
-- 
2.43.0


From 8a926db64d1a9f6204da9a88396ff016dd23e9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:03 +0000
Subject: [PATCH 28/63] fix: selecting an unknown bit of a logic vector
 returned a known bit

The selected x or z was stored at the source index of the one bit result, and
indexing with a vector did not compile.
---
 include/logic/logic.hh | 36 ++++++++++--------------------------
 1 file changed, 10 insertions(+), 26 deletions(-)

diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index e2457c7..1160005 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -55,9 +55,9 @@ public:
         if (idx <= util::max(msb, lsb) && idx >= util::min(msb, lsb)) [[likely]] {
             logic<0> r;
             if (x_set(idx)) [[unlikely]] {
-                r.set_x(idx);
+                r.set_x(0);
             } else if (z_set(idx)) [[unlikely]] {
-                r.set_z(idx);
+                r.set_z(0);
             } else {
                 r.value = value[idx];
                 r.xz_mask.value = false;
@@ -73,9 +73,9 @@ public:
     requires(idx < size) [[nodiscard]] inline logic<0> get() const requires(!array) {
         logic<0> r{false};
         if (this->template x_set<idx>()) [[unlikely]] {
-            r.set_x<idx>();
+            r.set_x(0);
         } else if (this->template z_set<idx>()) [[unlikely]] {
-            r.set_z<idx>();
+            r.set_z(0);
         } else {
             r.value = value.template get<idx>();
         }
@@ -85,32 +85,16 @@ public:
     template <int op_msb, int op_lsb, bool op_signed, bool op_array>
     logic<0> inline get(const logic<op_msb, op_lsb, op_signed, op_array> &op) const
         requires(!array) {
-        int index;
-        if constexpr (util::native_num(util::total_size(msb, lsb))) {
-            index = op.value - util::min(msb, lsb);
-        } else {
-            if (op.fit_in_64() && !op.xz_mask.any_set()) {
-                index = op.value.value[0] - util::min(msb, lsb);
-            } else {
-                return x_();
-            }
-        }
-        return operator[](index);
+        auto const index = op.value.shift_amount();
+        if (op.xz_mask.any_set() || index > std::numeric_limits<int>::max()) return x_();
+        return operator[](static_cast<int>(index));
     }
 
     template <int op_msb, int op_lsb, bool op_signed, bool op_array>
     logic<0> inline get(const bit<op_msb, op_lsb, op_signed, op_array> &op) const requires(!array) {
-        int index;
-        if constexpr (util::native_num(util::total_size(msb, lsb))) {
-            index = op.value - util::min(msb, lsb);
-        } else {
-            if (op.fit_in_64()) {
-                index = op.value.value[0] - util::min(msb, lsb);
-            } else {
-                return x_();
-            }
-        }
-        return operator[](index);
+        auto const index = op.shift_amount();
+        if (index > std::numeric_limits<int>::max()) return x_();
+        return operator[](static_cast<int>(index));
     }
 
     void set(int idx, bool v) requires(!array) {
-- 
2.43.0


From 58ca5be955da978e52e292252e541b9030477eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:03 +0000
Subject: [PATCH 29/63] fix: concatenating a logic with a bit vector left the
 unknown bits in place

The result of a concatenation is also always unsigned (LRM 11.8.1).
---
 include/logic/logic.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index 1160005..49d9042 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -223,7 +223,7 @@ public:
     template <int arg0_msb, int arg0_lsb, bool arg0_signed>
     constexpr auto concat(const logic<arg0_msb, arg0_lsb, arg0_signed> &arg0) {
         auto constexpr final_size = size + logic<arg0_msb, arg0_lsb, arg0_signed>::size;
-        auto res = logic<final_size - 1, 0, signed_>();
+        auto res = logic<final_size - 1>();
         res.value = value.concat(arg0.value);
         // concat masks as well
         res.xz_mask = xz_mask.concat(arg0.xz_mask);
@@ -233,10 +233,10 @@ public:
     template <int arg0_msb, int arg0_lsb, bool arg0_signed>
     constexpr auto concat(const bit<arg0_msb, arg0_lsb, arg0_signed> &arg0) {
         auto constexpr final_size = size + bit<arg0_msb, arg0_lsb, arg0_signed>::size;
-        auto res = logic<final_size - 1, 0, signed_>();
+        auto res = logic<final_size - 1>();
         res.value = value.concat(arg0);
         // concat masks as well
-        res.xz_mask = xz_mask.template extend<final_size>();
+        res.xz_mask = xz_mask.concat(bit<arg0_msb, arg0_lsb>());
         return res;
     }
 
-- 
2.43.0


From 651acd2e6b7ca2e64d535c8490099182b502d84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:03 +0000
Subject: [PATCH 30/63] fix: widening a signed logic vector did not replicate
 an unknown sign bit

---
 include/logic/logic.hh | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index 49d9042..1cb291b 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -213,7 +213,12 @@ public:
         [[nodiscard]] constexpr logic<target_size - 1, 0, signed_> extend() const {
         logic<target_size - 1, 0, signed_> result;
         result.value = value.template extend<target_size>();
-        result.xz_mask = xz_mask.template extend<target_size>();
+        if constexpr (signed_) {
+            // an unknown sign bit gets replicated as well
+            result.xz_mask = xz_mask.to_signed().template extend<target_size>();
+        } else {
+            result.xz_mask = xz_mask.template extend<target_size>();
+        }
         return result;
     }
 
@@ -1014,7 +1019,12 @@ public:
     template <int new_msb, int new_lsb, bool new_signed>
     logic &operator=(const logic<new_msb, new_lsb, new_signed> &b) {
         value = b.value;
-        xz_mask = b.xz_mask;
+        if constexpr (new_signed) {
+            // an unknown sign bit gets replicated as well
+            xz_mask = b.xz_mask.to_signed();
+        } else {
+            xz_mask = b.xz_mask;
+        }
         return *this;
     }
 
@@ -1027,8 +1037,7 @@ public:
 
     template <int new_msb, int new_lsb>
     constexpr logic(const logic<new_msb, new_lsb, true> &b) {  // NOLINT
-        value = b.value;
-        xz_mask = b.xz_mask;
+        *this = b;
     }
 
     // useful constants
-- 
2.43.0


From df18523bf5a84755088e6b0efce4b8b5929f6fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:03 +0000
Subject: [PATCH 31/63] fix: writing a range from a vector of the other
 endianness subtracted the start twice

---
 include/logic/logic.hh | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index 1cb291b..f95a743 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -1126,11 +1126,10 @@ protected:
             // we need to revert the index accessing scheme here, if the endian doesn't match
             uint64_t idx;
             if constexpr (logic<op_hi, op_lo, op_signed>::big_endian ^ big_endian) {
-                idx = util::max(op_lo, op_hi) - i;
+                idx = util::max(op_lo, op_hi) - (i - start);
             } else {
-                idx = i;
+                idx = i - start;
             }
-            idx = idx - start;
             logic<0, 0> b;
             if (idx > util::max(op_lo, op_hi) || idx < util::min(op_lo, op_hi)) {
                 // out of bound access, set to 0
@@ -1151,11 +1150,10 @@ protected:
             // we need to revert the index accessing scheme here, if the endian doesn't match
             uint64_t idx;
             if constexpr (logic<op_hi, op_lo, op_signed>::big_endian ^ big_endian) {
-                idx = util::max(op_lo, op_hi) - i;
+                idx = util::max(op_lo, op_hi) - (i - start);
             } else {
-                idx = i;
+                idx = i - start;
             }
-            idx = idx - start;
             logic<0, 0> b;
             if (idx > util::max(op_lo, op_hi) || idx < util::min(op_lo, op_hi)) {
                 // out of bound access, set to 0
-- 
2.43.0


From 380ee0fb3c6ca399ba167a4ceeb8d6b8dc81de5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:15 +0000
Subject: [PATCH 32/63] fix: unsigned arithmetic right shift by the full width
 or more gives zero

---
 include/logic/bit.hh | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 4365b68..829f46a 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -556,10 +556,14 @@ public:
         // couple cases
         // 1. itself is a native number
         if constexpr (native_num) {
-            // C++ does arithmetic shifts by default, and every bit is the sign bit once the amount
-            // reaches the size
+            // C++ does arithmetic shifts by default for signed numbers, and every bit is the sign bit
+            // once the amount reaches the size
             auto const num = amount.shift_amount();
-            res = value >> util::min<uint64_t>(num, sizeof(T) * 8 - 1);
+            if constexpr (signed_) {
+                res = value >> util::min<uint64_t>(num, sizeof(T) * 8 - 1);
+            } else if (num < size) {
+                res = value >> num;
+            }
         } else if constexpr (bit<op_msb, op_lsb>::native_num) {
             res.value = value.ashr(amount.shift_amount());
         } else {
-- 
2.43.0


From b2a72a955591b830795cd9d97a29ca12a1633e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:15 +0000
Subject: [PATCH 33/63] fix: case equality extends unknown sign bits of the
 narrower operand

---
 include/logic/logic.hh | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index f95a743..d2cf170 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -647,7 +647,12 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     [[nodiscard]] bool match(const logic<op_msb, op_lsb, op_signed> &op) const {
-        return value == op.value && xz_mask == op.xz_mask;
+        // unknown bits extend the same way as the known ones
+        auto constexpr target_size =
+            util::max(size, ::logic::logic<op_msb, op_lsb, op_signed>::size);
+        auto l = this->template extend<target_size>();
+        auto r = op.template extend<target_size>();
+        return l.value == r.value && l.xz_mask == r.xz_mask;
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-- 
2.43.0


From e2c2669abe27931b68cdc01b39003b7ee47c5885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:39 +0000
Subject: [PATCH 34/63] fix: lower case hexadecimal digits in literals

---
 src/util.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.cc b/src/util.cc
index fd5dfcc..a9d2e5f 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -97,7 +97,7 @@ constexpr uint64_t parse_raw_str_(std::string_view value, char base) {
                 else if (c >= '0' && c <= '9')
                     s = c - '0';
                 else if (c >= 'a' && c <= 'f')
-                    s = c - 'a';
+                    s = c - 'a' + 10;
                 else if (c >= 'A' && c <= 'F')
                     s = c - 'A' + 10;
                 result |= s << (idx * 4ull);
-- 
2.43.0


From 4c3de3a62221de1a9455176d683fb225d4580a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:39 +0000
Subject: [PATCH 35/63] fix: unknown digits of binary literals in upper case or
 beyond bit 31

---
 src/util.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/util.cc b/src/util.cc
index a9d2e5f..ddb80b2 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -57,7 +57,7 @@ constexpr uint64_t parse_raw_str_(std::string_view value, char base) {
             uint64_t idx = 0;
             for (auto i = 0ull; i < value.size(); i++) {
                 auto c = value[value.size() - i - 1];
-                if (c == '1' || c == 'z') {
+                if (c == '1' || c == 'z' || c == 'Z') {
                     result |= 1ull << idx;
                 }
                 if (c != '_') idx++;
@@ -132,8 +132,8 @@ uint64_t parse_xz_raw_str_(std::string_view value, char base) {
             uint64_t idx = 0;
             for (auto i = 0u; i < value.size(); i++) {
                 auto c = value[value.size() - i - 1];
-                if (c == 'x' || c == 'z') {
-                    result |= 1u << idx;
+                if (c == 'x' || c == 'X' || c == 'z' || c == 'Z') {
+                    result |= 1ull << idx;
                 }
                 if (c != '_') idx++;
             }
-- 
2.43.0


From e3c10192076a3fa9e092a4bf5056a6b16c6658a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:39 +0000
Subject: [PATCH 36/63] fix: digits of a literal beyond 64 bits are dropped
 instead of shifted out of range

---
 src/util.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/util.cc b/src/util.cc
index ddb80b2..966cc55 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -55,7 +55,7 @@ constexpr uint64_t parse_raw_str_(std::string_view value, char base) {
         case 'B': {
             // need to take care of 1 and z
             uint64_t idx = 0;
-            for (auto i = 0ull; i < value.size(); i++) {
+            for (auto i = 0ull; i < value.size() && idx < 64; i++) {
                 auto c = value[value.size() - i - 1];
                 if (c == '1' || c == 'z' || c == 'Z') {
                     result |= 1ull << idx;
@@ -68,7 +68,7 @@ constexpr uint64_t parse_raw_str_(std::string_view value, char base) {
         case 'O': {
             // same for x
             uint64_t idx = 0;
-            for (auto i = 0ull; i < value.size(); i++) {
+            for (auto i = 0ull; i < value.size() && idx * 3 < 64; i++) {
                 auto c = value[value.size() - i - 1];
                 uint64_t s;
                 // this will be taken care of by the xz mask parsing
@@ -86,7 +86,7 @@ constexpr uint64_t parse_raw_str_(std::string_view value, char base) {
         case 'h':
         case 'H': {
             uint64_t idx = 0;
-            for (auto i = 0ull; i < value.size(); i++) {
+            for (auto i = 0ull; i < value.size() && idx * 4 < 64; i++) {
                 auto c = value[value.size() - i - 1];
                 uint64_t s = 0;
                 // this will be taken care of by the xz mask parsing
@@ -130,7 +130,7 @@ uint64_t parse_xz_raw_str_(std::string_view value, char base) {
         case 'b':
         case 'B': {
             uint64_t idx = 0;
-            for (auto i = 0u; i < value.size(); i++) {
+            for (auto i = 0u; i < value.size() && idx < 64; i++) {
                 auto c = value[value.size() - i - 1];
                 if (c == 'x' || c == 'X' || c == 'z' || c == 'Z') {
                     result |= 1ull << idx;
@@ -143,7 +143,7 @@ uint64_t parse_xz_raw_str_(std::string_view value, char base) {
         case 'O': {
             // same for x
             uint64_t idx = 0;
-            for (auto i = 0u; i < value.size(); i++) {
+            for (auto i = 0u; i < value.size() && idx * 3 < 64; i++) {
                 auto c = value[value.size() - i - 1];
                 uint64_t s;
                 // this will be taken care of by the xz mask parsing
@@ -158,7 +158,7 @@ uint64_t parse_xz_raw_str_(std::string_view value, char base) {
         case 'h':
         case 'H': {
             uint64_t idx = 0;
-            for (auto i = 0u; i < value.size(); i++) {
+            for (auto i = 0u; i < value.size() && idx * 4 < 64; i++) {
                 auto c = value[value.size() - i - 1];
                 uint64_t s;
                 // this will be taken care of by the xz mask parsing
-- 
2.43.0


From bebbb81fad292785c507081b0626eef3d5b9126e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:07 +0000
Subject: [PATCH 37/63] fix: multi-word literals keep digits that straddle
 words, follow underscores, or are decimal

---
 src/util.cc | 76 +++++++++++++++++++++++++++++------------------------
 1 file changed, 42 insertions(+), 34 deletions(-)

diff --git a/src/util.cc b/src/util.cc
index 966cc55..e6addd6 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -201,48 +201,56 @@ uint64_t get_stride(char base) {
     }
 }
 
+void mask_top_word(uint64_t size, uint64_t* ptr) {
+    if (size % 64) ptr[size / 64] &= std::numeric_limits<uint64_t>::max() >> (64 - size % 64);
+}
+
+// digits that straddle two words or are separated by underscores have to be placed one by one
+template <typename T>
+void parse_digits(std::string_view value, char base, uint64_t size, uint64_t* ptr, T parse_digit) {
+    auto const stride = get_stride(base);
+    auto const num_array = (size % 64 == 0) ? size / 64 : (size / 64 + 1);
+    auto const raw = base == 's' || base == 'S';
+    std::fill(ptr, ptr + num_array, 0);
+    uint64_t pos = 0;
+    for (auto i = value.size(); i > 0 && pos < size; i--) {
+        if (value[i - 1] == '_' && !raw) continue;
+        uint64_t const digit = parse_digit(value.substr(i - 1, 1), base);
+        auto const idx = pos / 64;
+        auto const offset = pos % 64;
+        ptr[idx] |= digit << offset;
+        if (offset + stride > 64 && idx + 1 < num_array) ptr[idx + 1] |= digit >> (64 - offset);
+        pos += stride;
+    }
+    mask_top_word(size, ptr);
+}
+
 void parse_raw_str(std::string_view value, uint64_t size, uint64_t* ptr) {
-    // use existing functions to parse single uint64_t values, except for decimals.
-    // big number decimals are just inefficient, and I don't know why would anyone use it.
+    // use existing functions to parse single digits, except for decimals.
     auto [base, start_pos] = get_input_base(value);
     value = value.substr(start_pos);
-    auto remaining_size = value.size();
-    auto end = value.size();
-    auto const stride = get_stride(base);
-    auto const batch_size = 64 / stride;
-
-    auto num_array = (size % 64 == 0) ? size / 64 : (size / 64 + 1);
-    uint64_t idx = 0;
-    while (remaining_size > 0 && idx < num_array) {
-        auto begin = remaining_size >= batch_size ? remaining_size - batch_size : 0;
-        ptr[idx] = parse_raw_str_(value.substr(begin, end - begin), base);
-
-        idx++;
-        end = begin;
-        remaining_size = remaining_size > batch_size ? remaining_size - batch_size : 0;
+    if (base == 'd' || base == 'D') {
+        auto const num_array = (size % 64 == 0) ? size / 64 : (size / 64 + 1);
+        std::fill(ptr, ptr + num_array, 0);
+        for (auto c : value) {
+            if (c < '0' || c > '9') continue;
+            // multiply by 10 and add the digit
+            auto carry = static_cast<__uint128_t>(c - '0');
+            for (auto i = 0u; i < num_array; i++) {
+                carry += static_cast<__uint128_t>(ptr[i]) * 10;
+                ptr[i] = static_cast<uint64_t>(carry);
+                carry >>= 64;
+            }
+        }
+        mask_top_word(size, ptr);
+        return;
     }
+    parse_digits(value, base, size, ptr, parse_raw_str_);
 }
 
 void parse_xz_raw_str(std::string_view value, uint64_t size, uint64_t* ptr) {
-    // use existing functions to parse single uint64_t values, except for decimals.
-    // big number decimals are just inefficient, and I don't know why would anyone use it.
     auto [base, start_pos] = get_input_base(value);
-    value = value.substr(start_pos);
-    auto remaining_size = value.size();
-    auto end = value.size();
-    auto const stride = get_stride(base);
-    auto const batch_size = 64 / stride;
-
-    auto num_array = (size % 64 == 0) ? size / 64 : (size / 64 + 1);
-    uint64_t idx = 0;
-    while (remaining_size > 0 && idx < num_array) {
-        auto begin = remaining_size >= batch_size ? remaining_size - batch_size : 0;
-        ptr[idx] = parse_xz_raw_str_(value.substr(begin, end - begin), base);
-
-        idx++;
-        end = begin;
-        remaining_size = remaining_size > batch_size ? remaining_size - batch_size : 0;
-    }
+    parse_digits(value.substr(start_pos), base, size, ptr, parse_xz_raw_str_);
 }
 
 constexpr std::array<uint64_t, 128> compute_decimal_size() {
-- 
2.43.0


From 7857dd57a4016df63611eb1656cda3d4b8e41c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:00 +0000
Subject: [PATCH 38/63] fix: literals wider than a four-state vector are cut to
 its width

---
 include/logic/logic.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index d2cf170..be72874 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -999,8 +999,8 @@ public:
     explicit logic(const char *str) : logic(std::string_view(str)) {}
     explicit constexpr logic(std::string_view v) {
         if constexpr (util::native_num(size)) {
-            value.value = util::parse_raw_str(v);
-            xz_mask.value = util::parse_xz_raw_str(v);
+            value = bit<msb, lsb, signed_>(util::parse_raw_str(v));
+            xz_mask = bit<msb, lsb>(util::parse_xz_raw_str(v));
         } else {
             util::parse_raw_str(v, size, value.value.values.data());
             util::parse_xz_raw_str(v, size, xz_mask.value.values.data());
-- 
2.43.0


From 0dd1b3b0bb9020ceb0f39d852a5436f6873ddfd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:00 +0000
Subject: [PATCH 39/63] fix: two-state octal, hexadecimal and string rendering

---
 src/util.cc | 51 ++-------------------------------------------------
 1 file changed, 2 insertions(+), 49 deletions(-)

diff --git a/src/util.cc b/src/util.cc
index e6addd6..3545303 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -389,55 +389,8 @@ std::string format_value_2power(char base, uint64_t value) {
 }
 
 std::string to_string(std::string_view fmt, uint64_t size, uint64_t value, bool is_negative) {
-    char base;
-    uint64_t actual_size;
-    bool padding;
-    parse_fmt(fmt, size, base, actual_size, padding);
-
-    // now print out the format
-    std::stringstream ss;
-    switch (base) {
-        case 'b':
-        case 'B': {
-            auto b = std::bitset<64>(value);
-            auto s = b.to_string().substr(64 - size);
-            // need to reverse it
-            std::reverse(s.begin(), s.end());
-            ss << s;
-            break;
-        }
-        case 'o':
-        case 'O':
-        case 'x':
-        case 'h':
-        case 'X':
-        case 'H': {
-            ss << format_value_2power(base, value);
-            break;
-        }
-        case 's':
-        case 'S':
-            for (auto i = 0u; i < size; i += 8) {
-                auto c = value >> (i * 8) & 0xFF;
-                ss << c;
-            }
-            break;
-        case 'd':
-        case 'D': {
-            if (value == 0) {
-                ss << 0;
-            } else {
-                while (value > 0) {
-                    auto r = value % 10;
-                    ss << r;
-                    value /= 10;
-                }
-            }
-            break;
-        }
-        default:;
-    }
-    return pad_result(is_negative, base, actual_size, padding, ss);
+    // same as a four-state value without any unknown bits
+    return to_string(fmt, size, value, 0, is_negative);
 }
 
 uint64_t get_mask(uint64_t stride) { return std::numeric_limits<uint64_t>::max() >> (64 - stride); }
-- 
2.43.0


From 3379cfb2e3dab64403fb7f28b7e9ce7fc84b477e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:00 +0000
Subject: [PATCH 40/63] fix: all x or z most significant digit that is only
 partially inside the vector

---
 src/util.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util.cc b/src/util.cc
index 3545303..c9528cd 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -397,9 +397,10 @@ uint64_t get_mask(uint64_t stride) { return std::numeric_limits<uint64_t>::max()
 
 std::string fmt_value(char base, uint64_t size, uint64_t value, uint64_t xz_mask) {
     auto stride = get_stride(base);
-    const auto mask = get_mask(stride);
     std::stringstream ss;
     for (auto i = 0u; i < size; i += stride) {
+        // the most significant digit may not have all of its bits
+        const auto mask = get_mask(std::min<uint64_t>(stride, size - i));
         auto v = (value >> i) & mask;
         auto xz = (xz_mask >> i) & mask;
         if (xz != 0) {
-- 
2.43.0


From 8e1fa6f9daf906bf1a187e2b3c971736880a296c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:00 +0000
Subject: [PATCH 41/63] fix: natural decimal width of vectors of 128 bits and
 more

---
 src/util.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/util.cc b/src/util.cc
index c9528cd..91a9702 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -311,10 +311,11 @@ void parse_fmt(const std::string_view& fmt, uint64_t size, char& base, uint64_t&
         }
         case 'd':
         case 'D': {
-            // give up if the size is larger than 128
-            // will implement this in the future
-            if (size > 128) {
-                possible_size = size;
+            // the table only has 128 entries
+            if (size >= decimal_size_table.size()) {
+                // log10(2)
+                possible_size =
+                    static_cast<uint64_t>(static_cast<double>(size) * 0.30102999566398119521) + 1;
             } else {
                 possible_size = decimal_size_table[size];
             }
-- 
2.43.0


From 93b2deed5cd2b17e7d1d73603528eea4290d593f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:00 +0000
Subject: [PATCH 42/63] fix: multi-word rendering of the top word, of digits
 across words, of padding and of decimals

---
 src/util.cc | 187 +++++++++++++---------------------------------------
 1 file changed, 44 insertions(+), 143 deletions(-)

diff --git a/src/util.cc b/src/util.cc
index 91a9702..071b7a3 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -549,70 +549,45 @@ std::string to_string(std::string_view fmt, uint64_t size, uint64_t value, uint6
     return to_string_(fmt, size, value, xz_mask, is_negative, true);
 }
 
-std::string to_string_(std::string_view fmt, uint64_t size, const uint64_t* value, bool is_negative,
-                       bool use_padding) {
-    char base;
-    uint64_t actual_size;
-    bool padding;
-    parse_fmt(fmt, size, base, actual_size, padding);
+std::string fmt_decimal(uint64_t size, const uint64_t* value, const uint64_t* xz_mask) {
+    bool has_x = false, has_z = false, has_known = false;
+    for (uint64_t i = 0; i < size; i++) {
+        auto v = (value[i / 64] >> (i % 64)) & 1;
+        auto xz = (xz_mask[i / 64] >> (i % 64)) & 1;
+        if (!xz)
+            has_known = true;
+        else if (v)
+            has_z = true;
+        else
+            has_x = true;
+    }
+    if (has_x) return has_known || has_z ? "X" : "x";
+    if (has_z) return has_known ? "Z" : "z";
 
+    // long division by 10, least significant digit first
     auto num_array = (size % 64 == 0) ? size / 64 : (size / 64 + 1);
-
+    std::vector<uint64_t> q(value, value + num_array);
     std::stringstream ss;
-    if (base != 'd' && base != 'D') {
-        // notice that because in oct format, 3 is not a power of 2, we need to be extra careful
-        if (base == 'o' || base == 'O') {
-            auto num_chunks = static_cast<uint64_t>(std::ceil(static_cast<double>(size) / 3));
-            for (auto i = 0u; i < num_chunks; i++) {
-                auto start = i * 3;
-                auto value_idx = start / 64;
-                auto start_idx = start % 64;
-                // if it's across the 64-bit boundary
-                uint64_t v;
-                if ((64 - start_idx) < 3) {
-                    v = (value[value_idx] >> start_idx) & 0x7;
-                    v |= (value[value_idx + 1]) & (0x7 >> (64 - start_idx));
-                } else {
-                    v = (value[value_idx] >> start_idx) & 0x7;
-                }
-                auto s = to_string(fmt, 3, v, false);
-                ss << s;
-            }
-        } else {
-            for (auto i = 0u; i < num_array - 1; i++) {
-                ss << to_string(fmt, 64, value[i], false);
-            }
-            if (size % 64) {
-                ss << to_string(fmt, size % 64, value[num_array - 1], false);
-            }
-        }
-    } else {
-        // FIXME
-        // give up. display the least significant two parts
-        auto size_ = size > 128 ? 128 : size;
-        __uint128_t v = 0;
-        if (size_ > 64) {
-            v |= value[1];
-            v = v << 64;
-        }
-        v |= value[0];
-        auto q = v;
-        while (q != 0) {
-            auto r = q % 10;
-            ss << static_cast<uint64_t>(r);
-            q = q / 10;
-        }
-    }
-
-    if (use_padding)
-        return pad_result(is_negative, base, actual_size, padding, ss);
-    else
-        return ss.str();
+    bool done;
+    do {
+        __uint128_t r = 0;
+        done = true;
+        for (auto i = num_array; i > 0; i--) {
+            r = (r << 64) | q[i - 1];
+            q[i - 1] = static_cast<uint64_t>(r / 10);
+            r = r % 10;
+            if (q[i - 1]) done = false;
+        }
+        ss << static_cast<uint64_t>(r);
+    } while (!done);
+    return ss.str();
 }
 
 std::string to_string(std::string_view fmt, uint64_t size, const uint64_t* value,
                       bool is_negative) {
-    return to_string_(fmt, size, value, is_negative, true);
+    // same as a four-state value without any unknown bits
+    std::vector<uint64_t> xz_mask((size + 63) / 64);
+    return to_string(fmt, size, value, xz_mask.data(), is_negative);
 }
 
 std::string to_string(std::string_view fmt, uint64_t size, const uint64_t* value,
@@ -622,96 +597,22 @@ std::string to_string(std::string_view fmt, uint64_t size, const uint64_t* value
     bool padding;
     parse_fmt(fmt, size, base, actual_size, padding);
 
-    auto num_array = (size % 64 == 0) ? size / 64 : (size / 64 + 1);
-
     std::stringstream ss;
     if (base != 'd' && base != 'D') {
-        // notice that because in oct format, 3 is not a power of 2, we need to be extra careful
-        if (base == 'o' || base == 'O') {
-            auto num_chunks = static_cast<uint64_t>(std::ceil(static_cast<double>(size) / 3));
-            for (auto i = 0u; i < num_chunks; i++) {
-                auto start = i * 3;
-                auto value_idx = start / 64;
-                auto start_idx = start % 64;
-                // if it's across the 64-bit boundary
-                uint64_t v;
-                uint64_t xz;
-                if ((64 - start_idx) < 3) {
-                    v = (value[value_idx] >> start_idx) & 0x7;
-                    v |= (value[value_idx + 1]) & (0x7 >> (64 - start_idx));
-                    xz = (xz_mask[value_idx] >> start_idx) & 0x7;
-                    xz |= (xz_mask[value_idx + 1]) & (0x7 >> (64 - start_idx));
-                } else {
-                    v = (value[value_idx] >> start_idx) & 0x7;
-                    xz = (xz_mask[value_idx] >> start_idx) & 0x7;
-                }
-                auto s = to_string_(fmt, 3, v, xz, false, false);
-                ss << s;
-            }
-        } else {
-            for (auto i = 0u; i < num_array - 1; i++) {
-                ss << to_string_(fmt, 64, value[i], xz_mask[i], false, false);
-            }
-            if (size % 64) {
-                ss << to_string_(fmt, size % 64, value[num_array - 1], xz_mask[num_array - 1],
-                                 false, false);
-            }
+        // notice that in oct format, 3 is not a power of 2, so a digit may be across the 64-bit
+        // boundary
+        auto const stride = get_stride(base);
+        auto get = [](const uint64_t* ptr, uint64_t start, uint64_t len) {
+            auto v = ptr[start / 64] >> (start % 64);
+            if (start % 64 + len > 64) v |= ptr[start / 64 + 1] << (64 - start % 64);
+            return v & get_mask(len);
+        };
+        for (uint64_t i = 0; i < size; i += stride) {
+            auto const len = std::min<uint64_t>(stride, size - i);
+            ss << to_string_(fmt, len, get(value, i, len), get(xz_mask, i, len), false, false);
         }
-
     } else {
-        // FIXME
-        // give up. display the least significant two parts
-        auto size_ = size > 128 ? 128 : size;
-        __uint128_t v = 0;
-        __uint128_t xz = 0;
-        if (size_ > 64) {
-            v |= value[1];
-            v = v << 64;
-            xz |= xz_mask[1];
-            xz = xz << 64;
-        }
-        v |= value[0];
-        xz |= xz_mask[0];
-        if (xz != 0) {
-            // contains x/z
-            if ((~xz) == 0) {
-                // all x or z
-                if (v == 0) {
-                    ss << 'x';
-                } else {
-                    if ((~v) == 0) {
-                        // all z
-                        ss << 'z';
-                    } else {
-                        ss << 'X';
-                    }
-                }
-            } else {
-                // has some real digits
-                bool has_x = false;
-                for (auto i = 0u; i < size_; i++) {
-                    auto x = (xz >> i) & 1;
-                    if (x) {
-                        auto vv = (v >> i) & 1;
-                        if (vv == 0) {
-                            has_x = true;
-                            break;
-                        }
-                    }
-                }
-                if (has_x)
-                    ss << "X";
-                else
-                    ss << "Z";
-            }
-        } else {
-            auto q = v;
-            while (q != 0) {
-                auto r = q % 10;
-                ss << static_cast<uint64_t>(r);
-                q = q / 10;
-            }
-        }
+        ss << fmt_decimal(size, value, xz_mask);
     }
 
     return pad_result(is_negative, base, actual_size, padding, ss);
-- 
2.43.0


From 67d578833d0affb7dacb2ef9332c68561a7ff0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:00 +0000
Subject: [PATCH 43/63] fix: a field width of 0 removes leading zeros in every
 base

---
 src/util.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/util.cc b/src/util.cc
index 071b7a3..640e537 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -364,6 +364,9 @@ std::string pad_result(bool is_negative, char base, uint64_t actual_size, bool p
                 result.append(pad_char);
             }
         }
+    } else if (base != 'd' && base != 'D' && base != 's' && base != 'S') {
+        // LRM 21.2.1.3: no leading zeros if the field width is 0
+        while (result.size() > 1 && result.back() == '0') result.pop_back();
     }
     std::reverse(result.begin(), result.end());
     return result;
-- 
2.43.0


From 2fba94b9723a80cfe1813f5b73d20800df034f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:08 +0000
Subject: [PATCH 44/63] fix: rendering of signed vectors with unknown bits and
 of the most negative number

---
 include/logic/bit.hh   | 4 ++--
 include/logic/logic.hh | 7 ++++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 829f46a..3666c1b 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -29,9 +29,9 @@ public:
     [[nodiscard]] std::string str(std::string_view fmt = "b") const {
         if constexpr (native_num) {
             if (signed_ && negative() && util::decimal_fmt(fmt)) {
-                return util::to_string(fmt, size, negate().value, true);
+                return util::to_string(fmt, size, negate().to_unsigned().value, true);
             } else {
-                return util::to_string(fmt, size, value, false);
+                return util::to_string(fmt, size, to_unsigned().value, false);
             }
         } else {
             if (signed_ && negative() && util::decimal_fmt(fmt)) {
diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index be72874..a798bd6 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -26,9 +26,10 @@ public:
     // basic formatting
     [[nodiscard]] std::string str(std::string_view fmt = "b") const {
         if constexpr (signed_) {
-            auto is_negative = value.negative();
+            // unknown bits do not have a sign
+            auto is_negative = value.negative() && !xz_mask.any_set();
             if (is_negative && util::decimal_fmt(fmt)) {
-                auto value_ = value.negate().value;
+                auto value_ = value.negate().to_unsigned().value;
                 if constexpr (util::native_num(size)) {
                     uint64_t xz = xz_mask.value;
                     return util::to_string(fmt, size, value_, xz, true);
@@ -39,7 +40,7 @@ public:
             }
         }
         if constexpr (util::native_num(size)) {
-            uint64_t v = value.value;
+            uint64_t v = value.to_unsigned().value;
             uint64_t xz = xz_mask.value;
             return util::to_string(fmt, size, v, xz, false);
         } else {
-- 
2.43.0


From 2871ce7b20bb67f3894a69d2dc61cb02cb8df5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:45 +0000
Subject: [PATCH 45/63] fix: rendering of unsigned multi-word two-state vectors
 compiles

---
 include/logic/bit.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 3666c1b..6fabbad 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -118,8 +118,10 @@ public:
     [[nodiscard]] bool negative() const {
         if constexpr (native_num) {
             return value < 0;
-        } else {
+        } else if constexpr (signed_) {
             return value.negative();
+        } else {
+            return false;
         }
     }
 
-- 
2.43.0


From f3a06f08c29b4ce170c306d2dd15648dc5d14c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:45 +0000
Subject: [PATCH 46/63] fix: literals wider than a one-bit two-state vector are
 cut to its width

---
 include/logic/bit.hh | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 6fabbad..17111be 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -1059,8 +1059,7 @@ public:
      */
     explicit constexpr bit(std::string_view v) {
         if constexpr (native_num) {
-            value = static_cast<T>(util::parse_raw_str(v));
-            mask_off();
+            value = wrap_(util::parse_raw_str(v));
         } else {
             util::parse_raw_str(v, size, value.values.data());
         }
-- 
2.43.0


From c6084db15b5cd8239497a9d0105b45c7b63bbf43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:48 +0000
Subject: [PATCH 47/63] fix: writing an element of a packed array overwrites
 the lowest bit of the next one

---
 include/logic/array.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/logic/array.hh b/include/logic/array.hh
index 62b0b2e..b3b06d6 100644
--- a/include/logic/array.hh
+++ b/include/logic/array.hh
@@ -92,7 +92,8 @@ public:
             }
             auto idx = index - util::min(msb, lsb);
             auto start_addr = idx * base_size;
-            auto end_addr = (idx + 1) * base_size;
+            // the end is inclusive
+            auto end_addr = (idx + 1) * base_size - 1;
             return VT::template slice<base_size>(start_addr, end_addr);
         }
     }
@@ -111,7 +112,8 @@ public:
             }
             auto idx = index - util::min(msb, lsb);
             int start_addr = idx * base_size;
-            int end_addr = (idx + 1) * base_size;
+            // the end is inclusive
+            int end_addr = (idx + 1) * base_size - 1;
             VT::template update_(start_addr, end_addr, value);
         }
     }
-- 
2.43.0


From 4b648b76697c4bee6152f70812a9f17ba89a8a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:48 +0000
Subject: [PATCH 48/63] fix: range check of packed array indices uses the
 number of elements and every index bit

---
 include/logic/array.hh | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/include/logic/array.hh b/include/logic/array.hh
index b3b06d6..ed12d4e 100644
--- a/include/logic/array.hh
+++ b/include/logic/array.hh
@@ -42,6 +42,20 @@ private:
     }
     using VT = typename util::get_array_type<T, msb, lsb, T::is_4state>::type;
 
+    // position of the element, -1 if the index is unknown or out of range
+    template <int op_msb, int op_lsb, bool op_signed>
+    static int64_t get_index(const logic<op_msb, op_lsb, op_signed> &op) {
+        if (op.xz_mask.any_set()) [[unlikely]] return -1;
+        auto const index = static_cast<int64_t>(op.to_uint64());
+        // the index may not fit
+        if (!op_signed && index < 0) [[unlikely]] return -1;
+        if constexpr (!util::native_num(logic<op_msb, op_lsb>::size)) {
+            if (op.value != bit<63, 0, op_signed>(index)) [[unlikely]] return -1;
+        }
+        if (index < util::min(msb, lsb) || index > util::max(msb, lsb)) [[unlikely]] return -1;
+        return index - util::min(msb, lsb);
+    }
+
 public:
     // compute the base size
     static constexpr auto base_size = T::size;
@@ -79,38 +93,24 @@ public:
     template <int op_msb, int op_lsb, bool op_signed>
     auto operator[](const logic<op_msb, op_lsb, op_signed> &op) const {
         // if the value is too big, we return X
-        static const auto size_logic = logic<31, 0>(array_size);
-        if (op.xz_mask.any_set() || op >= size_logic) [[unlikely]] {
+        auto const idx = get_index(op);
+        if (idx < 0) [[unlikely]] {
             using T_ = typename util::get_array_base_type<T, base_size, T::is_4state>::type;
             return T_{};
         } else {
-            int index;
-            if constexpr (util::native_num(logic<op_msb, op_lsb>::size)) {
-                index = op.value.value;
-            } else {
-                index = op.value.value[0];
-            }
-            auto idx = index - util::min(msb, lsb);
-            auto start_addr = idx * base_size;
+            int start_addr = idx * base_size;
             // the end is inclusive
-            auto end_addr = (idx + 1) * base_size - 1;
+            int end_addr = (idx + 1) * base_size - 1;
             return VT::template slice<base_size>(start_addr, end_addr);
         }
     }
 
     template <int op_msb, int op_lsb, bool op_signed, typename K>
     void update(const logic<op_msb, op_lsb, op_signed> &op, const K &value) {
-        static const auto size_logic = logic<31, 0>(array_size);
-        if (op.xz_mask.any_set() || op >= size_logic) [[unlikely]] {
+        auto const idx = get_index(op);
+        if (idx < 0) [[unlikely]] {
             return;
         } else {
-            int index;
-            if constexpr (util::native_num(logic<op_msb, op_lsb>::size)) {
-                index = op.value.value;
-            } else {
-                index = op.value.value[0];
-            }
-            auto idx = index - util::min(msb, lsb);
             int start_addr = idx * base_size;
             // the end is inclusive
             int end_addr = (idx + 1) * base_size - 1;
-- 
2.43.0


From 7625a994178f0fbb0338255d2d95ef60424b937b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:48 +0000
Subject: [PATCH 49/63] fix: range check of unpacked array updates is relative
 to the range

---
 include/logic/array.hh | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/logic/array.hh b/include/logic/array.hh
index ed12d4e..5aa8435 100644
--- a/include/logic/array.hh
+++ b/include/logic/array.hh
@@ -143,11 +143,12 @@ public:
 
     template <int idx, typename V>
     auto update(const V v) {
-        if (idx >= size) return;
         // need to compute the base
-        auto constexpr i = idx - util::min(msb, lsb);
-        // use the underlying logic implementation
-        value[i] = v;
+        auto constexpr i = static_cast<uint32_t>(idx - util::min(msb, lsb));
+        if constexpr (i < size) {
+            // use the underlying logic implementation
+            value[i] = v;
+        }
     }
 
 private:
-- 
2.43.0


From 5fd722814719d37e253bc222db309767c52fb636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:43 +0000
Subject: [PATCH 50/63] fix: unpacked array index subtraction does not overflow

---
 include/logic/array.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/logic/array.hh b/include/logic/array.hh
index 5aa8435..565598e 100644
--- a/include/logic/array.hh
+++ b/include/logic/array.hh
@@ -133,7 +133,7 @@ public:
 
     const T &operator[](int idx) const {
         const static T x_ = T{};
-        auto i = static_cast<uint32_t>(idx - util::min(msb, lsb));
+        auto i = static_cast<uint32_t>(idx) - static_cast<uint32_t>(util::min(msb, lsb));
         if (i >= size) {
             return x_;
         } else {
-- 
2.43.0


From 6f2350205ce23d1c631c83ff8b9957d6f755f4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:43 +0000
Subject: [PATCH 51/63] fix: slices and range updates of two-state packed
 arrays compile

---
 include/logic/bit.hh | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 17111be..834dbfc 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -1227,6 +1227,20 @@ protected:
         return result;
     }
 
+    template <int a, int b>
+    requires(util::max(a, b) < size && !native_num) constexpr bit<util::abs_diff(a, b)>
+    inline slice_() const {
+        bit<util::abs_diff(a, b), false> result;
+        auto res = value.template slice<a, b>();
+        if constexpr (util::native_num(util::abs_diff(a, b) + 1)) {
+            // need to shrink it down
+            result.value = res.values[0];
+        } else {
+            result.value = res;
+        }
+        return result;
+    }
+
     template <uint32_t target_size>
     [[nodiscard]] auto slice_(int a, int b) const {
         bit<target_size - 1, false> result;
@@ -1254,6 +1268,11 @@ protected:
         return result;
     }
 
+    template <int hi, int lo, int op_msb, int op_lsb, bool op_signed>
+    void update_(const bit<op_msb, op_lsb, op_signed> &op) requires(hi < size && lo < size) {
+        update_(hi, lo, op);
+    }
+
     template <int op_msb, int op_lsb, bool op_signed>
     void update_(int hi, int lo, const bit<op_msb, op_lsb, op_signed> &op) {
         auto start = util::min(hi, lo);
-- 
2.43.0


From e37323fea4184ff60b2a299e3df5f185dc77d2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:06 +0000
Subject: [PATCH 52/63] fix: comparing vectors whose range does not end at 0
 compiles

---
 include/logic/bit.hh | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 834dbfc..25eed35 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -207,7 +207,9 @@ public:
     template <uint64_t target_size>
     requires(target_size == size)
         [[nodiscard]] constexpr bit<target_size - 1, 0, signed_> extend() const {
-        return *this;
+        bit<target_size - 1, 0, signed_> result;
+        result.value = value;
+        return result;
     }
 
     // new size is smaller. this is just a slice
@@ -215,7 +217,8 @@ public:
     requires(target_size < size)
         [[nodiscard]] constexpr bit<target_size - 1, 0, signed_> extend() const {
         bit<target_size - 1, 0, signed_> result;
-        result = this->template slice<target_size - 1, 0>();
+        // the assignment drops the upper bits
+        result = *this;
         return result;
     }
 
-- 
2.43.0


From 46c9580c91e2d491cd369d67a04493b48ba46b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:01 +0000
Subject: [PATCH 53/63] fix: part selects of ascending ranges and of ranges
 that do not end at 0

The bounds were taken as bit positions instead of declared indices, or the
select was rejected.
---
 include/logic/bit.hh   | 32 +++++++++++++++-----------------
 include/logic/logic.hh |  9 ++-------
 include/logic/util.hh  |  5 +++++
 3 files changed, 22 insertions(+), 24 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 25eed35..0fd6ad4 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -132,17 +132,17 @@ public:
      * native holder always produce native numbers
      */
     template <int a, int b>
-    requires(util::max(a, b) < size && native_num && b >= lsb) bit<util::abs_diff(a, b)>
+    requires(util::in_bounds(a, b, msb, lsb) && native_num) bit<util::abs_diff(a, b)>
     constexpr inline slice() const requires(!array) { return this->template slice_<a, b>(); }
 
     /*
      * big number but small slice
      */
     template <int a, int b>
-    requires(util::max(a, b) < size && !native_num &&
-             util::native_num(util::abs_diff(a, b) + 1) && b >= lsb) constexpr bit<util::abs_diff(a, b)> inline slice() const requires(!array) {
+    requires(util::in_bounds(a, b, msb, lsb) && !native_num &&
+             util::native_num(util::abs_diff(a, b) + 1)) constexpr bit<util::abs_diff(a, b)> inline slice() const requires(!array) {
         bit<util::abs_diff(a, b), false> result;
-        auto res = value.template slice<a, b>();
+        auto res = value.template slice<bit_index(a), bit_index(b)>();
         // need to shrink it down
         result.value = res.values[0];
         return result;
@@ -152,10 +152,10 @@ public:
      * big number and big slice
      */
     template <int a, int b>
-    requires(util::max(a, b) < size && !native_num &&
-             !util::native_num(util::abs_diff(a, b) + 1) && b >= lsb) constexpr bit<util::abs_diff(a, b)> inline slice() const requires(!array) {
+    requires(util::in_bounds(a, b, msb, lsb) && !native_num &&
+             !util::native_num(util::abs_diff(a, b) + 1)) constexpr bit<util::abs_diff(a, b)> inline slice() const requires(!array) {
         bit<util::abs_diff(a, b), false> result;
-        result.value = value.template slice<a, b>();
+        result.value = value.template slice<bit_index(a), bit_index(b)>();
         return result;
     }
 
@@ -1210,12 +1210,11 @@ private:
 
 protected:
     template <int a, int b>
-    requires(util::max(a, b) < size && native_num && b >= lsb) bit<util::abs_diff(a, b)>
+    requires(util::in_bounds(a, b, msb, lsb) && native_num) bit<util::abs_diff(a, b)>
     constexpr inline slice_() const {
         // assume the import has type-checked properly, e.g. by a compiler
-        constexpr auto base = util::min(msb, lsb);
-        constexpr auto max = util::max(a, b) - base;
-        constexpr auto min = util::min(a, b) - base;
+        constexpr auto max = util::max(bit_index(a), bit_index(b));
+        constexpr auto min = util::min(bit_index(a), bit_index(b));
         constexpr auto t_size = sizeof(T) * 8;
         constexpr auto target_size = util::abs_diff(a, b) + 1;
         bit<target_size - 1, false> result;
@@ -1231,10 +1230,10 @@ protected:
     }
 
     template <int a, int b>
-    requires(util::max(a, b) < size && !native_num) constexpr bit<util::abs_diff(a, b)>
+    requires(util::in_bounds(a, b, msb, lsb) && !native_num) constexpr bit<util::abs_diff(a, b)>
     inline slice_() const {
         bit<util::abs_diff(a, b), false> result;
-        auto res = value.template slice<a, b>();
+        auto res = value.template slice<bit_index(a), bit_index(b)>();
         if constexpr (util::native_num(util::abs_diff(a, b) + 1)) {
             // need to shrink it down
             result.value = res.values[0];
@@ -1249,9 +1248,8 @@ protected:
         bit<target_size - 1, false> result;
         if constexpr (native_num) {
             // assume the import has type-checked properly, e.g. by a compiler
-            auto base = util::min(msb, lsb);
-            auto max = util::max(a, b) - base;
-            auto min = util::min(a, b) - base;
+            auto max = util::max(bit_index(a), bit_index(b));
+            auto min = util::min(bit_index(a), bit_index(b));
             auto t_size = sizeof(T) * 8;
             constexpr auto default_mask = bit_mask();
             uint64_t mask = default_mask << min;
@@ -1261,7 +1259,7 @@ protected:
             return result;
         } else {
             // may need to shrink
-            auto v = value.template slice<target_size>(a, b);
+            auto v = value.template slice<target_size>(bit_index(a), bit_index(b));
             if constexpr (util::native_num(target_size)) {
                 result.value = static_cast<decltype(result.value)>(v.values[0]);
             } else {
diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index a798bd6..9fd99fb 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -161,7 +161,7 @@ public:
      * slices
      */
     template <int a, int b>
-    requires(util::max(a, b) < size) constexpr logic<util::abs_diff(a, b)> inline slice() const
+    requires(util::in_bounds(a, b, msb, lsb)) constexpr logic<util::abs_diff(a, b)> inline slice() const
         requires(!array) {
         return this->template slice_<a, b>();
     }
@@ -1107,12 +1107,7 @@ private:
 
 protected:
     template <int a, int b>
-    requires(util::max(a, b) < size) constexpr logic<util::abs_diff(a, b)> inline slice_() const {
-        if constexpr (size <= util::max(a, b)) {
-            // out of bound access will be X
-            return logic<util::abs_diff(a, b)>{};
-        }
-
+    requires(util::in_bounds(a, b, msb, lsb)) constexpr logic<util::abs_diff(a, b)> inline slice_() const {
         logic<util::abs_diff(a, b), 0, false> result;
         result.value = value.template slice<a, b>();
         // copy over masks
diff --git a/include/logic/util.hh b/include/logic/util.hh
index 11e9464..fed0909 100644
--- a/include/logic/util.hh
+++ b/include/logic/util.hh
@@ -77,6 +77,11 @@ constexpr bool match_endian(int op1_hi, int op1_lo, int op2_hi, int op2_lo) {
     return ((op1_hi >= op1_lo) && (op2_hi >= op2_lo)) || ((op1_hi < op1_lo) && (op2_hi < op2_lo));
 }
 
+// whether both indices are inside the declared range
+constexpr bool in_bounds(int a, int b, int msb, int lsb) {
+    return max(a, b) <= max(msb, lsb) && min(a, b) >= min(msb, lsb);
+}
+
 constexpr uint64_t total_size(int msb, int lsb) { return abs_diff(msb, lsb) + 1; }
 
 template <uint64_t s, bool signed_, typename enable = void>
-- 
2.43.0


From f4cdb3775677fa032d2b67eafa6d7c4fa80f0140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:30 +0000
Subject: [PATCH 54/63] fix: unpacking ascending vectors and vectors whose
 range does not end at 0

Four-state ones did not compile, two-state ones read the wrong bits or beyond
the vector.
---
 include/logic/bit.hh   | 14 ++++++++------
 include/logic/logic.hh |  7 ++++---
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 0fd6ad4..a1f20c4 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -1134,28 +1134,30 @@ private:
      * unpacking, which is basically slicing as syntax sugars
      */
     template <int base, int arg0_msb, int arg0_lsb, bool arg0_signed>
-    requires(base < size) void unpack_(bit<arg0_msb, arg0_lsb, arg0_signed> &arg0) const {
+    requires(base <= util::max(msb, lsb)) void unpack_(bit<arg0_msb, arg0_lsb, arg0_signed> &arg0) const {
         auto constexpr arg0_size = bit<arg0_msb, arg0_lsb, arg0_signed>::size;
-        auto constexpr upper_bound = util::min(size - 1, arg0_size + base - 1);
+        auto constexpr upper_bound =
+            util::min(util::max(msb, lsb), base + static_cast<int>(arg0_size) - 1);
         arg0 = this->template slice<base, upper_bound>();
     }
 
     template <int base, int arg0_msb, int arg0_lsb, bool arg0_signed>
-    requires(base < size) void unpack_(logic<arg0_msb, arg0_lsb, arg0_signed> &arg0) const {
+    requires(base <= util::max(msb, lsb)) void unpack_(logic<arg0_msb, arg0_lsb, arg0_signed> &arg0) const {
         auto constexpr arg0_size = bit<arg0_msb, arg0_lsb, arg0_signed>::size;
-        auto constexpr upper_bound = util::min(size - 1, arg0_size + base - 1);
+        auto constexpr upper_bound =
+            util::min(util::max(msb, lsb), base + static_cast<int>(arg0_size) - 1);
         arg0.value = this->template slice<base, upper_bound>();
         arg0.xz_mask.clear();
     }
 
-    template <int base = 0, int arg0_msb, int arg0_lsb, bool arg0_signed, typename... Ts>
+    template <int base = util::min(msb, lsb), int arg0_msb, int arg0_lsb, bool arg0_signed, typename... Ts>
     [[maybe_unused]] auto unpack_(bit<arg0_msb, arg0_lsb, arg0_signed> &arg0, Ts &...args) const {
         auto constexpr arg0_size = bit<arg0_msb, arg0_lsb, arg0_signed>::size;
         this->template unpack_<base, arg0_msb, arg0_lsb, arg0_signed>(arg0);
         this->template unpack_<base + arg0_size>(args...);
     }
 
-    template <int base = 0, int arg0_msb, int arg0_lsb, bool arg0_signed, typename... Ts>
+    template <int base = util::min(msb, lsb), int arg0_msb, int arg0_lsb, bool arg0_signed, typename... Ts>
     [[maybe_unused]] auto unpack_(logic<arg0_msb, arg0_lsb, arg0_signed> &arg0, Ts &...args) const {
         auto constexpr arg0_size = bit<arg0_msb, arg0_lsb, arg0_signed>::size;
         this->template unpack_<base, arg0_msb, arg0_lsb, arg0_signed>(arg0);
diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index 9fd99fb..96e2449 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -1080,14 +1080,15 @@ private:
      * unpacking, which is basically slicing as syntax sugars
      */
     template <int base, int arg0_msb, int arg0_lsb, int arg0_signed>
-    requires(base < size) void unpack_(logic<arg0_msb, arg0_lsb, arg0_signed> &arg0) const {
+    requires(base <= util::max(msb, lsb)) void unpack_(logic<arg0_msb, arg0_lsb, arg0_signed> &arg0) const {
         auto constexpr arg0_size = logic<arg0_msb, arg0_lsb, arg0_signed>::size;
-        auto constexpr upper_bound = util::min(size - 1, arg0_size + base - 1);
+        auto constexpr upper_bound =
+            util::min(util::max(msb, lsb), base + static_cast<int>(arg0_size) - 1);
         arg0.value = value.template slice<base, upper_bound>();
         arg0.xz_mask = xz_mask.template slice<base, upper_bound>();
     }
 
-    template <int base = lsb, int arg0_msb, int arg0_lsb, bool arg0_signed, typename... Ts>
+    template <int base = util::min(msb, lsb), int arg0_msb, int arg0_lsb, bool arg0_signed, typename... Ts>
     [[maybe_unused]] auto unpack_(logic<arg0_msb, arg0_lsb, arg0_signed> &arg0, Ts &...args) const {
         auto constexpr arg0_size = logic<arg0_msb, arg0_lsb, arg0_signed>::size;
         this->template unpack_<base, arg0_msb, arg0_lsb, arg0_signed>(arg0);
-- 
2.43.0


From bdf56d17089998914d64e7ce6159c0dab5b2ed18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:27 +0000
Subject: [PATCH 55/63] fix: writing ranges of vectors, or from vectors, whose
 range does not end at 0

The bounds and the source bits were addressed as if both ranges ended at 0, and
ascending targets took the upper instead of the lower bits of a wider source.
---
 include/logic/bit.hh   | 42 ++++++++++------------------------
 include/logic/logic.hh | 51 ++++++++++--------------------------------
 include/logic/util.hh  | 11 ++++++++-
 3 files changed, 34 insertions(+), 70 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index a1f20c4..f42c6e5 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -160,7 +160,7 @@ public:
     }
 
     template <int a, int b>
-    requires(util::max(a, b) < size) auto inline slice_ref() requires(!array) {
+    requires(util::in_bounds(a, b, msb, lsb)) auto inline slice_ref() requires(!array) {
         return slice_ref_fixed<a, b, decltype(*this)>(*this);
     }
 
@@ -994,21 +994,9 @@ public:
      */
     // setting values
     template <int hi, int lo = hi, int op_hi, int op_lo, bool op_signed>
-    void update(const bit<op_hi, op_lo, op_signed> &op) requires(hi < size && lo < size) {
-        auto constexpr start = util::min(hi, lo);
-        auto constexpr end = util::max(hi, lo) + 1;
-        for (auto i = start; i < end; i++) {
-            // notice that if it is out of range, 0 will be returned
-            // we need to revert the index accessing scheme here, if the endian doesn't match
-            int idx;
-            if constexpr (bit<op_hi, op_lo>::big_endian ^ big_endian) {
-                idx = util::max(op_lo, op_hi) - (i - start);
-            } else {
-                idx = i - start;
-            }
-            auto b = op.operator[](idx);
-            set(i, b);
-        }
+    void update(const bit<op_hi, op_lo, op_signed> &op) requires(
+        util::in_bounds(hi, lo, msb, lsb)) {
+        update_(hi, lo, op);
     }
 
     template <int op_hi, int op_lo, bool op_signed>
@@ -1185,8 +1173,7 @@ private:
 
     // position of the indexed bit, counted from the least significant one
     [[nodiscard]] static constexpr uint64_t bit_index(int idx) {
-        return static_cast<uint64_t>(static_cast<int64_t>(big_endian ? idx : lsb) -
-                                     (big_endian ? lsb : idx));
+        return static_cast<uint64_t>(util::bit_position(msb, lsb, idx));
     }
 
     [[nodiscard]] inline bit<0> get_(int idx) const {
@@ -1272,25 +1259,20 @@ protected:
     }
 
     template <int hi, int lo, int op_msb, int op_lsb, bool op_signed>
-    void update_(const bit<op_msb, op_lsb, op_signed> &op) requires(hi < size && lo < size) {
+    void update_(const bit<op_msb, op_lsb, op_signed> &op) requires(
+        util::in_bounds(hi, lo, msb, lsb)) {
         update_(hi, lo, op);
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
     void update_(int hi, int lo, const bit<op_msb, op_lsb, op_signed> &op) {
-        auto start = util::min(hi, lo);
-        auto end = util::max(hi, lo) + 1;
+        auto const hi_ = util::bit_position(msb, lsb, hi), lo_ = util::bit_position(msb, lsb, lo);
+        auto const start = util::min(hi_, lo_);
+        auto const end = util::max(hi_, lo_) + 1;
         for (auto i = start; i < end; i++) {
             // notice that if it is out of range, 0 will be returned
-            // we need to revert the index accessing scheme here, if the endian doesn't match
-            uint64_t idx;
-            if constexpr (bit<op_msb, op_lsb>::big_endian ^ big_endian) {
-                idx = util::max(op_lsb, op_msb) - (i - start);
-            } else {
-                idx = i - start;
-            }
-            auto b = op.operator[](idx);
-            set(i, b);
+            auto b = op.operator[](util::declared_index(op_msb, op_lsb, i - start));
+            set(util::declared_index(msb, lsb, i), b);
         }
     }
 
diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index 96e2449..ae53263 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -167,7 +167,7 @@ public:
     }
 
     template <int a, int b>
-    requires(util::max(a, b) < size) auto inline slice_ref() requires(!array) {
+    requires(util::in_bounds(a, b, msb, lsb)) auto inline slice_ref() requires(!array) {
         return slice_ref_fixed<a, b, decltype(*this)>(*this);
     }
 
@@ -909,7 +909,7 @@ public:
     // setting values
     template <int hi, int lo = hi, int op_hi, int op_lo, bool op_signed>
     requires(!array) void update(const logic<op_hi, op_lo, op_signed> &op) requires(
-        hi < size && lo < size && util::match_endian(hi, lo, msb, lsb)) {
+        util::in_bounds(hi, lo, msb, lsb) && util::match_endian(hi, lo, msb, lsb)) {
         this->template update_<hi, lo>(op);
     }
 
@@ -1101,7 +1101,7 @@ private:
     }
 
     template <bool l_signed>
-    void set_(uint64_t idx, const logic<0, 0, l_signed> &l) {
+    void set_(int idx, const logic<0, 0, l_signed> &l) {
         value.set(idx, l.value.value);
         xz_mask.set(idx, l.xz_mask.value);
     }
@@ -1118,52 +1118,25 @@ protected:
     }
 
     template <int hi, int lo = hi, int op_hi, int op_lo, bool op_signed>
-    void update_(const logic<op_hi, op_lo, op_signed> &op) requires(hi < size && lo < size &&
-                                                                    util::match_endian(hi, lo, msb,
-                                                                                       lsb)) {
-        auto constexpr start = util::min(hi, lo);
-        auto constexpr end = util::max(hi, lo) + 1;
-        for (auto i = start; i < end; i++) {
-            // notice that if it is out of range, 0 will be returned
-            // we need to revert the index accessing scheme here, if the endian doesn't match
-            uint64_t idx;
-            if constexpr (logic<op_hi, op_lo, op_signed>::big_endian ^ big_endian) {
-                idx = util::max(op_lo, op_hi) - (i - start);
-            } else {
-                idx = i - start;
-            }
-            logic<0, 0> b;
-            if (idx > util::max(op_lo, op_hi) || idx < util::min(op_lo, op_hi)) {
-                // out of bound access, set to 0
-                b = zero_();
-            } else {
-                b = op.operator[](idx);
-            }
-            set_(i, b);
-        }
+    void update_(const logic<op_hi, op_lo, op_signed> &op) requires(
+        util::in_bounds(hi, lo, msb, lsb) && util::match_endian(hi, lo, msb, lsb)) {
+        update_(hi, lo, op);
     }
 
     template <int op_hi, int op_lo, bool op_signed>
     void update_(int hi, int lo, const logic<op_hi, op_lo, op_signed> &op) {
-        auto start = util::min(hi, lo);
-        auto end = util::max(hi, lo) + 1;
+        auto const hi_ = util::bit_position(msb, lsb, hi), lo_ = util::bit_position(msb, lsb, lo);
+        auto const start = util::min(hi_, lo_);
+        auto const end = util::max(hi_, lo_) + 1;
         for (auto i = start; i < end; i++) {
-            // notice that if it is out of range, 0 will be returned
-            // we need to revert the index accessing scheme here, if the endian doesn't match
-            uint64_t idx;
-            if constexpr (logic<op_hi, op_lo, op_signed>::big_endian ^ big_endian) {
-                idx = util::max(op_lo, op_hi) - (i - start);
-            } else {
-                idx = i - start;
-            }
             logic<0, 0> b;
-            if (idx > util::max(op_lo, op_hi) || idx < util::min(op_lo, op_hi)) {
+            if (static_cast<uint64_t>(i - start) >= logic<op_hi, op_lo, op_signed>::size) {
                 // out of bound access, set to 0
                 b = zero_();
             } else {
-                b = op.operator[](idx);
+                b = op.operator[](util::declared_index(op_hi, op_lo, i - start));
             }
-            set_(i, b);
+            set_(util::declared_index(msb, lsb, i), b);
         }
     }
 };
diff --git a/include/logic/util.hh b/include/logic/util.hh
index fed0909..fc9d9db 100644
--- a/include/logic/util.hh
+++ b/include/logic/util.hh
@@ -74,7 +74,8 @@ constexpr auto reverse_tuple(T_R &&t) {
 }
 
 constexpr bool match_endian(int op1_hi, int op1_lo, int op2_hi, int op2_lo) {
-    return ((op1_hi >= op1_lo) && (op2_hi >= op2_lo)) || ((op1_hi < op1_lo) && (op2_hi < op2_lo));
+    // a single bit matches either
+    return op1_hi == op1_lo || (op1_hi > op1_lo) == (op2_hi >= op2_lo);
 }
 
 // whether both indices are inside the declared range
@@ -82,6 +83,14 @@ constexpr bool in_bounds(int a, int b, int msb, int lsb) {
     return max(a, b) <= max(msb, lsb) && min(a, b) >= min(msb, lsb);
 }
 
+// position of an index, counted from the least significant bit, and the index of a position
+constexpr int64_t bit_position(int msb, int lsb, int64_t index) {
+    return msb >= lsb ? index - lsb : lsb - index;
+}
+constexpr int declared_index(int msb, int lsb, int64_t position) {
+    return static_cast<int>(msb >= lsb ? lsb + position : lsb - position);
+}
+
 constexpr uint64_t total_size(int msb, int lsb) { return abs_diff(msb, lsb) + 1; }
 
 template <uint64_t s, bool signed_, typename enable = void>
-- 
2.43.0


From ec6202fab450794d274302e7c187c2f354309992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:21 +0000
Subject: [PATCH 56/63] fix: and/or reductions of four-state vectors whose
 range does not end at 0

---
 include/logic/logic.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index ae53263..59ea33b 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -471,7 +471,7 @@ public:
         // zero trump everything
         // brute force way to compute
         bool unknown = false;
-        for (auto i = 0u; i < size; i++) {
+        for (auto i = util::min(msb, lsb); i <= util::max(msb, lsb); i++) {
             auto b = value[i];
             auto m = xz_mask[i];
             if (!b && !m)
@@ -486,7 +486,7 @@ public:
 
     [[nodiscard]] logic<0> r_or() const {
         bool unknown = false;
-        for (auto i = 0u; i < size; i++) {
+        for (auto i = util::min(msb, lsb); i <= util::max(msb, lsb); i++) {
             auto b = value[i];
             auto m = xz_mask[i];
             if (b && !m)
-- 
2.43.0


From 190d835eb2fae187e772d587ef6d3b735bf8a4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:21 +0000
Subject: [PATCH 57/63] fix: constructing a vector from one of a different
 range compiles

---
 include/logic/logic.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index 59ea33b..6dc5fe6 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -1018,8 +1018,10 @@ public:
     template <int new_msb, int new_lsb, bool new_signed>
     requires(util::abs_diff(new_msb, new_lsb) ==
              util::abs_diff(msb,
-                            lsb)) explicit logic(const logic<new_msb, new_lsb, new_signed> &target)
-        : value(target.value), xz_mask(target.xz_mask) {}
+                            lsb)) explicit logic(const logic<new_msb, new_lsb, new_signed> &target) {
+        value = target.value;
+        xz_mask = target.xz_mask;
+    }
 
     // implicit conversion via assignment
     template <int new_msb, int new_lsb, bool new_signed>
-- 
2.43.0


From 4e4d34059c195922f2d4ffa638ca0501d4aa7ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:21 +0000
Subject: [PATCH 58/63] fix: post increment and decrement of vectors whose
 range does not end at 0 compile

---
 include/logic/bit.hh   | 6 ++++--
 include/logic/logic.hh | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index f42c6e5..4785228 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -510,14 +510,16 @@ public:
 
     // NOLINTNEXTLINE
     bit<size - 1, 0, signed_> operator++(int) {
-        bit<size - 1, 0, signed_> v = *this;
+        bit<size - 1, 0, signed_> v;
+        v = *this;
         this->operator++();
         return v;
     }
 
     // NOLINTNEXTLINE
     bit<size - 1, 0, signed_> operator--(int) {
-        bit<size - 1, 0, signed_> v = *this;
+        bit<size - 1, 0, signed_> v;
+        v = *this;
         this->operator--();
         return v;
     }
diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index 6dc5fe6..cd88234 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -526,14 +526,16 @@ public:
 
     // NOLINTNEXTLINE
     logic<size - 1, 0, signed_> operator++(int) {
-        logic<size - 1, 0, signed_> v = *this;
+        logic<size - 1, 0, signed_> v;
+        v = *this;
         this->operator++();
         return v;
     }
 
     // NOLINTNEXTLINE
     logic<size - 1, 0, signed_> operator--(int) {
-        logic<size - 1, 0, signed_> v = *this;
+        logic<size - 1, 0, signed_> v;
+        v = *this;
         this->operator--();
         return v;
     }
-- 
2.43.0


From 217b1ec737f9c8773e50e00e0317ed3b2dea8c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:12 +0000
Subject: [PATCH 59/63] fix: operators accept ascending right operands of the
 same width

---
 include/logic/bit.hh   | 40 ++++++++++++++++++++++++----------------
 include/logic/logic.hh | 40 ++++++++++++++++++++++++----------------
 2 files changed, 48 insertions(+), 32 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 4785228..7186315 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -358,8 +358,9 @@ public:
         return this->template and_<target_size, op_msb, op_lsb, op_signed>(op);
     }
 
-    template <int op_lsb, bool op_signed>
-    auto operator&(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
+    template <int op_msb, int op_lsb, bool op_signed>
+    requires((util::abs_diff(op_msb, op_lsb) + 1) == size) auto operator&(
+        const bit<op_msb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
         result.value = value & op.value;
         result.mask_off();
@@ -391,8 +392,9 @@ public:
         return this->template xor_<target_size, op_msb, op_lsb, op_signed>(op);
     }
 
-    template <int op_lsb, bool op_signed>
-    auto operator^(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
+    template <int op_msb, int op_lsb, bool op_signed>
+    requires((util::abs_diff(op_msb, op_lsb) + 1) == size) auto operator^(
+        const bit<op_msb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
         result.value = value ^ op.value;
         result.mask_off();
@@ -424,8 +426,9 @@ public:
         return this->template or_<target_size, op_msb, op_lsb, op_signed>(op);
     }
 
-    template <int op_lsb, bool op_signed>
-    auto operator|(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
+    template <int op_msb, int op_lsb, bool op_signed>
+    requires((util::abs_diff(op_msb, op_lsb) + 1) == size) auto operator|(
+        const bit<op_msb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
         result.value = value | op.value;
         result.mask_off();
@@ -743,8 +746,9 @@ public:
         return this->template add<target_size, op_msb, op_lsb, op_signed>(op);
     }
 
-    template <int op_lsb, bool op_signed>
-    auto operator+(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
+    template <int op_msb, int op_lsb, bool op_signed>
+    requires((util::abs_diff(op_msb, op_lsb) + 1) == size) auto operator+(
+        const bit<op_msb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
         if constexpr (native_num) {
             result = static_cast<uint64_t>(value) + static_cast<uint64_t>(op.value);
@@ -771,8 +775,9 @@ public:
         return this->template minus<target_size, op_msb, op_lsb, op_signed>(op);
     }
 
-    template <int op_lsb, bool op_signed>
-    auto operator-(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
+    template <int op_msb, int op_lsb, bool op_signed>
+    requires((util::abs_diff(op_msb, op_lsb) + 1) == size) auto operator-(
+        const bit<op_msb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
         if constexpr (native_num) {
             result = static_cast<uint64_t>(value) - static_cast<uint64_t>(op.value);
@@ -799,8 +804,9 @@ public:
         return this->template multiply<target_size, op_msb, op_lsb, op_signed>(op);
     }
 
-    template <int op_lsb, bool op_signed>
-    auto operator*(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
+    template <int op_msb, int op_lsb, bool op_signed>
+    requires((util::abs_diff(op_msb, op_lsb) + 1) == size) auto operator*(
+        const bit<op_msb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
         if constexpr (native_num) {
             result = static_cast<uint64_t>(value) * static_cast<uint64_t>(op.value);
@@ -827,8 +833,9 @@ public:
         return this->template mod<target_size, op_msb, op_lsb, op_signed>(op);
     }
 
-    template <int op_lsb, bool op_signed>
-    auto operator%(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
+    template <int op_msb, int op_lsb, bool op_signed>
+    requires((util::abs_diff(op_msb, op_lsb) + 1) == size) auto operator%(
+        const bit<op_msb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
         if constexpr (!native_num) {
             result.value = value % op.value;
@@ -864,8 +871,9 @@ public:
         return this->template divide<target_size, op_msb, op_lsb, op_signed>(op);
     }
 
-    template <int op_lsb, bool op_signed>
-    auto operator/(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
+    template <int op_msb, int op_lsb, bool op_signed>
+    requires((util::abs_diff(op_msb, op_lsb) + 1) == size) auto operator/(
+        const bit<op_msb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
         if constexpr (!native_num) {
             result.value = value / op.value;
diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index cd88234..562d81a 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -288,8 +288,9 @@ public:
         return this->template and_<target_size, op_msb, op_lsb, op_signed>(op);
     }
 
-    template <int op_lsb, bool op_signed>
-    auto operator&(const logic<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
+    template <int op_msb, int op_lsb, bool op_signed>
+    requires((util::abs_diff(op_msb, op_lsb) + 1) == size) auto operator&(
+        const logic<op_msb, op_lsb, op_signed> &op) const {
         // this is the truth table
         //   0 1 x z
         // 0 0 0 0 0
@@ -346,8 +347,9 @@ public:
         return this->template or_<target_size, op_msb, op_lsb, op_signed>(op);
     }
 
-    template <int op_lsb, bool op_signed>
-    auto operator|(const logic<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
+    template <int op_msb, int op_lsb, bool op_signed>
+    requires((util::abs_diff(op_msb, op_lsb) + 1) == size) auto operator|(
+        const logic<op_msb, op_lsb, op_signed> &op) const {
         // this is the truth table
         //   0 1 x z
         // 0 0 1 x x
@@ -409,8 +411,9 @@ public:
         return this->template xor_<target_size, op_msb, op_lsb, op_signed>(op);
     }
 
-    template <int op_lsb, bool op_signed>
-    auto operator^(const logic<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
+    template <int op_msb, int op_lsb, bool op_signed>
+    requires((util::abs_diff(op_msb, op_lsb) + 1) == size) auto operator^(
+        const logic<op_msb, op_lsb, op_signed> &op) const {
         // this is the truth table
         //   0 1 x z
         // 0 1 0 x x
@@ -741,8 +744,9 @@ public:
         return this->template add<target_size, op_msb, op_lsb, op_signed>(op);
     }
 
-    template <int op_lsb, bool op_signed>
-    auto operator+(const logic<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
+    template <int op_msb, int op_lsb, bool op_signed>
+    requires((util::abs_diff(op_msb, op_lsb) + 1) == size) auto operator+(
+        const logic<op_msb, op_lsb, op_signed> &op) const {
         if (xz_mask.any_set() || op.xz_mask.any_set()) [[unlikely]] {
             return logic<size - 1, 0, util::signed_result(signed_, op_signed)>();
         } else {
@@ -772,8 +776,9 @@ public:
         return this->template minus<target_size, op_msb, op_lsb, op_signed>(op);
     }
 
-    template <int op_lsb, bool op_signed>
-    auto operator-(const logic<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
+    template <int op_msb, int op_lsb, bool op_signed>
+    requires((util::abs_diff(op_msb, op_lsb) + 1) == size) auto operator-(
+        const logic<op_msb, op_lsb, op_signed> &op) const {
         if (xz_mask.any_set() || op.xz_mask.any_set()) [[unlikely]] {
             return logic<size - 1, 0, util::signed_result(signed_, op_signed)>();
         } else {
@@ -803,8 +808,9 @@ public:
         return this->template multiply<target_size, op_msb, op_lsb, op_signed>(op);
     }
 
-    template <int op_lsb, bool op_signed>
-    auto operator*(const logic<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
+    template <int op_msb, int op_lsb, bool op_signed>
+    requires((util::abs_diff(op_msb, op_lsb) + 1) == size) auto operator*(
+        const logic<op_msb, op_lsb, op_signed> &op) const {
         if (xz_mask.any_set() || op.xz_mask.any_set()) [[unlikely]] {
             return logic<size - 1, 0, util::signed_result(signed_, op_signed)>();
         } else {
@@ -834,8 +840,9 @@ public:
         return this->template divide<target_size, op_msb, op_lsb, op_signed>(op);
     }
 
-    template <int op_lsb, bool op_signed>
-    auto operator/(const logic<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
+    template <int op_msb, int op_lsb, bool op_signed>
+    requires((util::abs_diff(op_msb, op_lsb) + 1) == size) auto operator/(
+        const logic<op_msb, op_lsb, op_signed> &op) const {
         // if the op is 0, return x
         if (xz_mask.any_set() || op.xz_mask.any_set() || !op.value.any_set()) [[unlikely]] {
             return logic<size - 1, 0, util::signed_result(signed_, op_signed)>();
@@ -866,8 +873,9 @@ public:
         return this->template mod<target_size, op_msb, op_lsb, op_signed>(op);
     }
 
-    template <int op_lsb, bool op_signed>
-    auto operator%(const logic<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
+    template <int op_msb, int op_lsb, bool op_signed>
+    requires((util::abs_diff(op_msb, op_lsb) + 1) == size) auto operator%(
+        const logic<op_msb, op_lsb, op_signed> &op) const {
         // if the op is 0, return x
         if (xz_mask.any_set() || op.xz_mask.any_set() || !op.value.any_set()) [[unlikely]] {
             return logic<size - 1, 0, util::signed_result(signed_, op_signed)>();
-- 
2.43.0


From 48313c3f346059a791bd701fd8c839b05539bf43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:21 +0000
Subject: [PATCH 60/63] fix: inverting a big_num left ones beyond its width

---
 include/logic/big_num.hh | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index 31d613b..016e49f 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -178,9 +178,7 @@ public:
             result.values[i] = ~values[i];
         }
         // mask off the top bit, if any
-        for (auto i = size; i < s * big_num_threshold; i++) {
-            result.set(i, false);
-        }
+        result.mask_off();
         return result;
     }
 
-- 
2.43.0


From 837d1a862cd9ebc663ab1b9d7356a6f166130a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:24 +0000
Subject: [PATCH 61/63] fix: constant bit selects and updates accept every
 index of ranges not ending at 0

---
 include/logic/bit.hh   | 3 ++-
 include/logic/logic.hh | 7 ++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 7186315..dc14b72 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -47,7 +47,8 @@ public:
     bit<0> inline operator[](int idx) const requires(!array) { return get_(idx); }
 
     template <int idx>
-    requires(idx < size) [[nodiscard]] bit<0> inline get() const requires(!array) {
+    requires(util::in_bounds(idx, idx, msb, lsb)) [[nodiscard]] bit<0> inline get() const
+        requires(!array) {
         return this->operator[](idx);
     }
 
diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index 562d81a..ebab210 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -71,7 +71,8 @@ public:
     }
 
     template <int idx>
-    requires(idx < size) [[nodiscard]] inline logic<0> get() const requires(!array) {
+    requires(util::in_bounds(idx, idx, msb, lsb)) [[nodiscard]] inline logic<0> get() const
+        requires(!array) {
         logic<0> r{false};
         if (this->template x_set<idx>()) [[unlikely]] {
             r.set_x(0);
@@ -1081,9 +1082,9 @@ public:
     }
 
 private:
-    void unmask_bit(uint64_t idx) { xz_mask.set(idx, false); }
+    void unmask_bit(int idx) { xz_mask.set(idx, false); }
 
-    template <uint64_t idx>
+    template <int idx>
     void unmask_bit() {
         xz_mask.template set<idx, false>();
     }
-- 
2.43.0


From e02f3346554de2e9e1d2792dfe40ceb6c8acdc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:50 +0000
Subject: [PATCH 62/63] fix: signed indices select by their numeric value

---
 include/logic/bit.hh   | 15 +++++++++++++--
 include/logic/logic.hh |  9 +++++----
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index dc14b72..c95106b 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -54,8 +54,8 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed, bool op_array>
     bool inline get(const bit<op_msb, op_lsb, op_signed, op_array> &op) const requires(!array) {
-        auto const index = op.shift_amount();
-        if (index > std::numeric_limits<int>::max()) return false;
+        auto const index = op.index_value();
+        if (index < util::min(msb, lsb) || index > util::max(msb, lsb)) return false;
         return get_(static_cast<int>(index)).value;
     }
 
@@ -484,6 +484,17 @@ public:
         }
     }
 
+    // the numeric value used as an index, the maximum if it does not fit
+    [[nodiscard]] int64_t index_value() const {
+        auto const index = static_cast<int64_t>(to_uint64());
+        auto constexpr overflow = std::numeric_limits<int64_t>::max();
+        if (!signed_ && index < 0) [[unlikely]] return overflow;
+        if constexpr (!native_num) {
+            if (*this != bit<63, 0, signed_>(index)) [[unlikely]] return overflow;
+        }
+        return index;
+    }
+
     template <int op_msb, int op_lsb, bool op_signed>
     auto operator>>(const bit<op_msb, op_lsb, op_signed> &amount) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> res;
diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index ebab210..3abe330 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -87,15 +87,16 @@ public:
     template <int op_msb, int op_lsb, bool op_signed, bool op_array>
     logic<0> inline get(const logic<op_msb, op_lsb, op_signed, op_array> &op) const
         requires(!array) {
-        auto const index = op.value.shift_amount();
-        if (op.xz_mask.any_set() || index > std::numeric_limits<int>::max()) return x_();
+        auto const index = op.value.index_value();
+        if (op.xz_mask.any_set() || index < util::min(msb, lsb) || index > util::max(msb, lsb))
+            return x_();
         return operator[](static_cast<int>(index));
     }
 
     template <int op_msb, int op_lsb, bool op_signed, bool op_array>
     logic<0> inline get(const bit<op_msb, op_lsb, op_signed, op_array> &op) const requires(!array) {
-        auto const index = op.shift_amount();
-        if (index > std::numeric_limits<int>::max()) return x_();
+        auto const index = op.index_value();
+        if (index < util::min(msb, lsb) || index > util::max(msb, lsb)) return x_();
         return operator[](static_cast<int>(index));
     }
 
-- 
2.43.0


From ca62cf04345aa3f32b810a85af1038394b2806fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:02 +0000
Subject: [PATCH 63/63] fix: elements of ascending packed arrays are counted
 from the right bound

---
 include/logic/array.hh | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/logic/array.hh b/include/logic/array.hh
index 565598e..a498144 100644
--- a/include/logic/array.hh
+++ b/include/logic/array.hh
@@ -42,6 +42,11 @@ private:
     }
     using VT = typename util::get_array_type<T, msb, lsb, T::is_4state>::type;
 
+    // position of the element, counted from the least significant one
+    constexpr static int position(int64_t index) {
+        return static_cast<int>(util::bit_position(msb, lsb, index));
+    }
+
     // position of the element, -1 if the index is unknown or out of range
     template <int op_msb, int op_lsb, bool op_signed>
     static int64_t get_index(const logic<op_msb, op_lsb, op_signed> &op) {
@@ -53,7 +58,7 @@ private:
             if (op.value != bit<63, 0, op_signed>(index)) [[unlikely]] return -1;
         }
         if (index < util::min(msb, lsb) || index > util::max(msb, lsb)) [[unlikely]] return -1;
-        return index - util::min(msb, lsb);
+        return position(index);
     }
 
 public:
@@ -69,8 +74,8 @@ public:
         // copy values over
         // maybe use SIMD to copy?
         // need to compute base address
-        auto constexpr min_idx = util::min(hi, lo) - util::min(msb, lsb);
-        auto constexpr max_idx = util::max(hi, lo) - util::min(msb, lsb);
+        auto constexpr min_idx = util::min(position(hi), position(lo));
+        auto constexpr max_idx = util::max(position(hi), position(lo));
         auto constexpr start_addr = min_idx * base_size;
         auto constexpr end_addr = (max_idx + 1) * base_size;
 
@@ -82,8 +87,8 @@ public:
     template <int hi, int lo, typename V>
     auto update(V &&v) {
         // need to compute the base
-        auto constexpr min_idx = util::min(hi, lo) - util::min(msb, lsb);
-        auto constexpr max_idx = util::max(hi, lo) - util::min(msb, lsb);
+        auto constexpr min_idx = util::min(position(hi), position(lo));
+        auto constexpr max_idx = util::max(position(hi), position(lo));
         auto constexpr start_addr = min_idx * base_size;
         auto constexpr end_addr = (max_idx + 1) * base_size;
         // use the underlying logic implementation
-- 
2.43.0

