From e706407a3e5f69d0f03dca447a44b1e7d7419a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:24 +0000
Subject: [PATCH 001/100] fix: round ceildiv() up when a signed divisor is
 converted to unsigned

best::div() divides in the common type of both operands, but ceildiv() looked
at the sign of the unconverted divisor, so e.g. ceildiv(10u, -3) was 0.
---
 best/math/overflow.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/best/math/overflow.h b/best/math/overflow.h
index d7633ac..05e76c0 100644
--- a/best/math/overflow.h
+++ b/best/math/overflow.h
@@ -76,7 +76,8 @@ template <best::is_int A, best::is_int B>
 BEST_INLINE_ALWAYS constexpr overflow<best::common_int<A, B>> ceildiv(
   overflow<A> a, overflow<B> b) {
   auto [q, r] = best::div(a, b);
-  if ((r.value > 0 && b.value > 0) || (r.value < 0 && b.value < 0)) {
+  best::common_int<A, B> cb = b.value;
+  if ((r.value > 0 && cb > 0) || (r.value < 0 && cb < 0)) {
     return q + 1;
   }
   return q;
-- 
2.43.0


From bb9a6bfc2834fa7e64a3d64bbe5df82e9de4d416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:15 +0000
Subject: [PATCH 002/100] fix: overflow<> conversions flag out-of-range values,
 not in-range ones

The two bounds comparisons were inverted, so converting any value other than
the extremes was recorded as an overflow, and real overflows were not.
---
 best/math/overflow.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/best/math/overflow.h b/best/math/overflow.h
index 05e76c0..065ce7c 100644
--- a/best/math/overflow.h
+++ b/best/math/overflow.h
@@ -188,8 +188,8 @@ struct overflow {
   constexpr overflow(overflow<J> that)
     : value(that.value),
       overflowed(that.overflowed ||
-                 best::int_cmp(best::min_of<Int>, that.value) < 0 ||
-                 best::int_cmp(best::max_of<Int>, that.value) > 0) {}
+                 best::int_cmp(best::min_of<Int>, that.value) > 0 ||
+                 best::int_cmp(best::max_of<Int>, that.value) < 0) {}
 
   /// # `overflow::wrap()`
   ///
-- 
2.43.0


From ddcfc71aa952c24fb47c4ec47c06daef8e35ed01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:03 +0000
Subject: [PATCH 003/100] fix: do not read past the end of a truncated UTF-8
 sequence

decode8_size() did not compare the length announced by the lead byte with the
size of the input, so decoding e.g. {0xe2} read two bytes out of bounds.
---
 best/text/internal/utf.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/best/text/internal/utf.h b/best/text/internal/utf.h
index 1501dc2..77c6531 100644
--- a/best/text/internal/utf.h
+++ b/best/text/internal/utf.h
@@ -85,7 +85,9 @@ constexpr int32_t decode8_size(best::span<const char> input) {
   if (input.is_empty()) { return OutOfBounds; }
   uint32_t ones = best::leading_ones(uint8_t(*input.data()));
   if (ones == 1 || ones > 4) { return Invalid; }
-  return ones + (ones == 0);
+  uint32_t bytes = ones + (ones == 0);
+  if (input.size() < bytes) { return OutOfBounds; }
+  return bytes;
 }
 
 // This function is unfortunately a build-time hot-spot, so we can't use
-- 
2.43.0


From fbe4cffc4ba968e415bd0a2edc3bb9f441ad87fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:47 +0000
Subject: [PATCH 004/100] fix: reject stray continuation bytes and overlong
 sequences when validating UTF-8

validate_utf8_fast() accepted {0x80} and {0xc0, 0x80}, which utf8::decode()
rejects, so best::text could hold text that does not decode.
---
 best/text/internal/utf.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/best/text/internal/utf.h b/best/text/internal/utf.h
index 77c6531..c8d399d 100644
--- a/best/text/internal/utf.h
+++ b/best/text/internal/utf.h
@@ -39,6 +39,8 @@ namespace best::utf_internal {
 inline constexpr int32_t OutOfBounds = ~int32_t(encoding_error::OutOfBounds);
 inline constexpr int32_t Invalid = ~int32_t(encoding_error::Invalid);
 
+constexpr int32_t encode8_size(uint32_t rune);
+
 constexpr bool validate_utf8_fast(const char* data, size_t len) {
   // This function is hit whenever we create a `best::str` from a literal, so
   // we need to avoid optional/span here.
@@ -52,7 +54,9 @@ constexpr bool validate_utf8_fast(const char* data, size_t len) {
     size_t bytes = best::leading_ones(uint8_t(value));
     value &= 0x7f >> bytes;
 
-    if (bytes > 4 || (end - data) < bytes - 1) { return false; }
+    // A lone continuation byte (bytes == 1) cannot start a rune.
+    if (bytes == 1 || bytes > 4 || (end - data) < bytes - 1) { return false; }
+    size_t total = bytes;
     while (--bytes > 0) {
       char c = data[0];
       ++data;
@@ -62,6 +66,9 @@ constexpr bool validate_utf8_fast(const char* data, size_t len) {
       value |= c & 0b00'111111;
     }
 
+    // Reject oversized encodings.
+    if (total != encode8_size(value)) { return false; }
+
     if (value >= 0x11'0000 || (value >= 0xd800 && value <= 0xdfff)) {
       return false;
     }
-- 
2.43.0


From a99f938ae10588ffb2d73f9450fa68cadb5b29bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:20 +0000
Subject: [PATCH 005/100] fix: match the lead byte's length when decoding UTF-8
 in reverse

undecode8() returned a value for e.g. {0x02, 0xb6} and {0xf6}, which are not
well-formed and which the forward decoder rejects.
---
 best/text/internal/utf.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/best/text/internal/utf.h b/best/text/internal/utf.h
index c8d399d..b8bbe36 100644
--- a/best/text/internal/utf.h
+++ b/best/text/internal/utf.h
@@ -129,6 +129,11 @@ constexpr int32_t undecode8(best::span<const char>* input) {
     if (best::leading_ones(byte) != 1) { break; }
   }
   if (len == 5) { return Invalid; }
+
+  // The lead byte must announce exactly the bytes we just walked over.
+  size_t ones =
+    best::leading_ones(uint8_t(input->data().raw()[input->size() - len]));
+  if (ones + (ones == 0) != len) { return Invalid; }
   *input = {input->data(), input->size() - len};
 
   return decode8(input->data().offset(input->size()).raw(), len);
-- 
2.43.0


From adea9c5ef020c1aec7c4f3d0006260c0d0258248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:19 +0000
Subject: [PATCH 006/100] fix: refuse to encode unpaired surrogates as UTF-8,
 UTF-16 or UTF-32

These encodings declare allows_surrogates = false and refuse to decode
surrogates, but encode() wrote them, producing ill-formed text.
---
 best/text/utf16.h | 1 +
 best/text/utf32.h | 1 +
 best/text/utf8.h  | 8 +++++++-
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/best/text/utf16.h b/best/text/utf16.h
index b0ebd93..106333b 100644
--- a/best/text/utf16.h
+++ b/best/text/utf16.h
@@ -55,6 +55,7 @@ struct utf16 final {
 
   static constexpr best::result<void, encoding_error> encode(
     best::span<char16_t>* output, rune rune) {
+    if (rune.is_unpaired_surrogate()) { return encoding_error::Invalid; }
     auto size =
       best::utf_internal::encode16(output->data().raw(), output->size(), rune);
     if (size < 0) { return encoding_error(~size); }
diff --git a/best/text/utf32.h b/best/text/utf32.h
index 19079d7..ebe0f56 100644
--- a/best/text/utf32.h
+++ b/best/text/utf32.h
@@ -58,6 +58,7 @@ struct utf32 final {
   template <int = 0>
   static constexpr best::result<void, encoding_error> encode(
     best::span<char32_t>* output, rune rune) {
+    if (rune.is_unpaired_surrogate()) { return encoding_error::Invalid; }
     auto next = output->take_first(1).ok_or(encoding_error::OutOfBounds);
     BEST_GUARD(next);
 
diff --git a/best/text/utf8.h b/best/text/utf8.h
index 53ba36c..12d1d1a 100644
--- a/best/text/utf8.h
+++ b/best/text/utf8.h
@@ -58,6 +58,7 @@ struct utf8 final {
 
   static constexpr best::result<void, encoding_error> encode(
     best::span<char>* output, rune rune) {
+    if (rune.is_unpaired_surrogate()) { return encoding_error::Invalid; }
     size_t bytes = best::utf_internal::encode8_size(rune);
     if (output->size() < bytes) { return encoding_error::OutOfBounds; }
     best::utf_internal::encode8(output->data().raw(), rune, bytes);
@@ -115,7 +116,12 @@ struct wtf8 final {
 
   static constexpr best::result<void, encoding_error> encode(
     best::span<char>* output, rune rune) {
-    return utf8::encode(output, rune);
+    size_t bytes = best::utf_internal::encode8_size(rune);
+    if (output->size() < bytes) { return encoding_error::OutOfBounds; }
+    best::utf_internal::encode8(output->data().raw(), rune, bytes);
+
+    *output = (*output)[{.start = bytes}];
+    return best::ok();
   }
 
   static constexpr best::result<rune, encoding_error> decode(
-- 
2.43.0


From 9029a76f71587c688762c3ecb9e1736c8880ba0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:26 +0000
Subject: [PATCH 007/100] fix: report errors from decode16_size() and check for
 truncated surrogate pairs

It returned its negative error codes as size_t, so utf16::decode() never saw
them: empty input and a trailing high surrogate were read out of bounds, and a
leading low surrogate crashed.
---
 best/text/internal/utf.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/best/text/internal/utf.h b/best/text/internal/utf.h
index b8bbe36..0d8a803 100644
--- a/best/text/internal/utf.h
+++ b/best/text/internal/utf.h
@@ -171,10 +171,10 @@ constexpr bool is_low_surrogate(char16_t code) {
   return (code & 0xfc00) == Low;
 }
 
-constexpr size_t decode16_size(best::span<const char16_t> input) {
+constexpr int32_t decode16_size(best::span<const char16_t> input) {
   if (input.is_empty()) { return OutOfBounds; }
   auto value = input.data().raw()[0];
-  if (is_high_surrogate(value)) { return 2; }
+  if (is_high_surrogate(value)) { return input.size() < 2 ? OutOfBounds : 2; }
   if (is_low_surrogate(value)) { return Invalid; }
   return 1;
 }
-- 
2.43.0


From 94c294c9cd484c1006024be748ed7658f0849c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:38 +0000
Subject: [PATCH 008/100] fix: decode Latin-1 code units as unsigned

The upper half of Latin-1 was sign-extended and hence rejected.
---
 best/text/ascii.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/best/text/ascii.h b/best/text/ascii.h
index 0309343..4bbf41c 100644
--- a/best/text/ascii.h
+++ b/best/text/ascii.h
@@ -110,7 +110,8 @@ struct latin1 final {
     auto next = input->take_first(1).ok_or(encoding_error::OutOfBounds);
     BEST_GUARD(next);
 
-    return rune::from_int((*next.ok())[0]).ok_or(encoding_error::Invalid);
+    return rune::from_int(uint32_t(uint8_t((*next.ok())[0])))
+      .ok_or(encoding_error::Invalid);
   }
 
   static constexpr best::result<rune, encoding_error> undecode(
@@ -118,7 +119,8 @@ struct latin1 final {
     auto next = input->take_last(1).ok_or(encoding_error::OutOfBounds);
     BEST_GUARD(next);
 
-    return rune::from_int((*next.ok())[0]).ok_or(encoding_error::Invalid);
+    return rune::from_int(uint32_t(uint8_t((*next.ok())[0])))
+      .ok_or(encoding_error::Invalid);
   }
 
   constexpr bool operator==(const latin1&) const = default;
-- 
2.43.0


From bc57158b20c269c6a49042240b6b5cc52244ebd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:32 +0000
Subject: [PATCH 009/100] fix: refuse {.including_end = max_of<size_t>} as out
 of bounds

The count wrapped around to zero, so that the bounds check passed and an empty
range was produced.
---
 best/iter/bounds.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/best/iter/bounds.h b/best/iter/bounds.h
index 82efd80..a80933e 100644
--- a/best/iter/bounds.h
+++ b/best/iter/bounds.h
@@ -364,6 +364,11 @@ constexpr int_range<Int>::opt_t int_range<Int>::try_compute_count(
 {
   if (!max_size && !end && !including_end && !count) { return {}; }
 
+  // The length of this range is one larger than the largest size.
+  if (!end && including_end && start == 0 && *including_end == Max) {
+    return {};
+  }
+
   auto count = normalize(max_size).count;
   if (!max_size) { return count; }
 
-- 
2.43.0


From 4803e940ce8462286a906ed5495ec4fc96932ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:48 +0000
Subject: [PATCH 010/100] fix: make int_range iterators agree with the integers
 they yield

last() of an empty range was start - 1; count(), size_hint() and next_back()
were wrong, did not compile or overflowed for signed ranges wider than max_of;
size_hint() missed the final element of a full range.
---
 best/iter/bounds.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/best/iter/bounds.h b/best/iter/bounds.h
index a80933e..83341b3 100644
--- a/best/iter/bounds.h
+++ b/best/iter/bounds.h
@@ -247,7 +247,7 @@ struct int_range final {
         return {};
       }
 
-      auto ret = start_ + count_ - !plus_one_;
+      auto ret = (best::overflow(start_) + count_ - Int(!plus_one_)).wrap();
       count_ = (best::overflow(count_) - 1).wrap();
       return ret;
     }
@@ -255,15 +255,19 @@ struct int_range final {
     constexpr std::array<size_t, 2> size_hint() const {
       // TODO(mcyoung): This will overflow for uint64 ranges, need to return
       // something else.
-      return {count_, count_};
+      size_t total =
+        best::saturating_add(size_t(best::to_unsigned(count_)),
+                             size_t(plus_one_));
+      return {total, total};
     }
 
     constexpr size_t count() && {
       // We can just wrap here if count_ is larger than best::max_of<size_t>.
-      return size_t(count_) + size_t(plus_one_);
+      return size_t(best::to_unsigned(count_)) + size_t(plus_one_);
     }
 
-    constexpr best::option<Int> last() && {
+    constexpr opt_t last() && {
+      if (count_ == 0 && !plus_one_) { return {}; }
       return (best::overflow(start_) + count_ + Int(plus_one_) - 1).wrap();
     }
   };
-- 
2.43.0


From ebb80686c49200cd53bd532c1f7bc43c615ecf35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:57 +0000
Subject: [PATCH 011/100] fix: iterate {.start, .count} ranges that end at the
 largest integer

Such a range was treated as overflowing, and so as empty, although all of its
elements are representable.
---
 best/iter/bounds.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/best/iter/bounds.h b/best/iter/bounds.h
index 83341b3..35eadb4 100644
--- a/best/iter/bounds.h
+++ b/best/iter/bounds.h
@@ -342,7 +342,8 @@ constexpr int_range<Int> int_range<Int>::normalize(opt_t max_size) const {
   }
 
   if (count) {
-    if ((best::overflow(start) + *count).overflowed) {
+    // Only the last element must be representable, not the one past it.
+    if (*count != 0 && (best::overflow(start) + Int(*count - 1)).overflowed) {
       return {.start = start};
     }
     return {.start = start, .count = count};
-- 
2.43.0


From d70081c9ea158eaeea7593cfaffff1e031903f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:29 +0000
Subject: [PATCH 012/100] fix: reject short negative numerals when parsing
 unsigned integers

atoi<uint32_t>("-5") wrapped around to 4294967291, while longer numerals such as
"-0000000005" were errors.
---
 best/math/conv.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/best/math/conv.h b/best/math/conv.h
index 47d472c..1f811b2 100644
--- a/best/math/conv.h
+++ b/best/math/conv.h
@@ -77,12 +77,14 @@ constexpr best::result<Int, best::atoi_error> atoi_with_sign(
     // is when the radix is 16; in this case, if the length is less than or
     // equal to the maximum number if nybbles, it will not overflow. However, if
     // it is a signed type, we need to subtract off one extra code unit, since
-    // e.g. `80` will overflow `int8_t`.
+    // e.g. `80` will overflow `int8_t`. Negating an unsigned value can always
+    // overflow.
     size_t total_codes = best::size(str);
     size_t maximum_codes_without_overflow =
       sizeof(Int) * 2 - best::is_signed<Int>;
     size_t cannot_overflow =
-      radix <= 16 && total_codes <= maximum_codes_without_overflow;
+      radix <= 16 && total_codes <= maximum_codes_without_overflow &&
+      !(is_negative && best::is_unsigned<Int>);
 
 #define BEST_ATOI_LOOP_(result_, op_)                             \
   do {                                                            \
-- 
2.43.0


From 056c1db42d4fa089b1e27c40fd0b99e1ada38988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:46 +0000
Subject: [PATCH 013/100] fix: honor is_negative in atoi_with_sign() for
 non-pretext strings

The argument was dropped, so atoi_with_sign<int>(best::str("5"), true, 10) was 5.
---
 best/math/conv.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/math/conv.h b/best/math/conv.h
index 1f811b2..674efc5 100644
--- a/best/math/conv.h
+++ b/best/math/conv.h
@@ -124,7 +124,7 @@ constexpr best::result<Int, best::atoi_error> atoi_with_sign(
 
 #undef BEST_ATOI_LOOP_
   } else {
-    return best::atoi<Int>(best::pretext(str), radix);
+    return best::atoi_with_sign<Int>(best::pretext(str), is_negative, radix);
   }
 }
 
-- 
2.43.0


From 4c584320022b1521ff88a6126ef33e34964a8c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:31 +0000
Subject: [PATCH 014/100] fix: make iter::rev() compile for iterators that
 provide their own rev()

The fallback return was not in an else branch, so return type deduction failed
for e.g. it.rev().rev().
---
 best/iter/iter.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/best/iter/iter.h b/best/iter/iter.h
index d2c8d7b..26b1d7a 100644
--- a/best/iter/iter.h
+++ b/best/iter/iter.h
@@ -496,8 +496,11 @@ class rev_ final {
 template <typename I>
 constexpr auto iter<I>::rev() && requires double_ended
 {
-  BEST_ITER_FWD(rev);
-  return best::iter(best::iter_internal::rev_(std::move(*this)));
+  if constexpr (requires { BEST_MOVE(impl_).rev(); }) {
+    return BEST_MOVE(impl_).rev();
+  } else {
+    return best::iter(best::iter_internal::rev_(std::move(*this)));
+  }
 }
 
 #undef BEST_ITER_FWD
-- 
2.43.0


From da3a545a77d01f1e3452e4032374f8f3a07307ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:31 +0000
Subject: [PATCH 015/100] fix: do not return a dangling reference from
 iter::inspect()

With a callback that takes no arguments, the yielded value was returned as a
reference to a temporary that no longer exists.
---
 best/iter/iter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/iter/iter.h b/best/iter/iter.h
index 26b1d7a..f45d105 100644
--- a/best/iter/iter.h
+++ b/best/iter/iter.h
@@ -391,7 +391,7 @@ constexpr auto iter<Impl>::inspect(best::callable<void()> auto&& cb) && {
     std::move(*this),
     [cb = BEST_FWD(cb)](auto&& value) -> decltype(auto) {
       best::call(cb);
-      return BEST_FWD(value);
+      return item(BEST_FWD(value));
     },
   });
 }
-- 
2.43.0


From 2d59d1839f0b6d070c09617b64e3260a05cab33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:08 +0000
Subject: [PATCH 016/100] fix: cap both ends of take()'s size hint

The lower bound was that of the underlying iterator, which can exceed the number
of elements taken.
---
 best/iter/iter.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/best/iter/iter.h b/best/iter/iter.h
index f45d105..9357afc 100644
--- a/best/iter/iter.h
+++ b/best/iter/iter.h
@@ -449,7 +449,10 @@ class take final {
 
   constexpr best::size_hint size_hint() const {
     auto [min, max] = iter_.size_hint();
-    return {min, count_};
+    return {
+      min < count_ ? min : count_,
+      max && *max < count_ ? *max : count_,
+    };
   }
 
  private:
-- 
2.43.0


From 0ca8df3abab1b68794325a7260935672f25522ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:41 +0000
Subject: [PATCH 017/100] fix: make text::from_partial() compile and measure
 the valid prefix

---
 best/text/str.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/best/text/str.h b/best/text/str.h
index e14f346..f4223af 100644
--- a/best/text/str.h
+++ b/best/text/str.h
@@ -1230,10 +1230,10 @@ constexpr best::option<text<E>> text<E>::from(pretext data) {
 template <typename E>
 constexpr best::row<text<E>, pretext<E>> text<E>::from_partial(pretext data) {
   size_t split_at = 0;
-  auto runes = data.runes();
-  for (auto r : runes) {
+  auto runes = data.try_runes();
+  while (auto r = runes.next()) {
     if (r->err()) { break; }
-    split_at = data.size() - runes->rest();
+    split_at = data.size() - runes->rest().size();
   }
 
   unsafe u("the loop above did an implicit bounds check for us");
-- 
2.43.0


From 82342437c2dcd29f13c059cb9cedb21dda37be9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:12 +0000
Subject: [PATCH 018/100] fix: read the inclusive end in span::at(unsafe,
 {.including_end})

---
 best/memory/span.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/memory/span.h b/best/memory/span.h
index fdfea2f..9dfc6d0 100644
--- a/best/memory/span.h
+++ b/best/memory/span.h
@@ -1006,7 +1006,7 @@ constexpr best::span<T> span<T, n>::at(unsafe, best::bounds range) const {
   if (range.end) {
     count = *range.end - range.start;
   } else if (range.including_end) {
-    count = *range.end - range.start + 1;
+    count = *range.including_end - range.start + 1;
   } else if (range.count) {
     count = *range.count;
   }
-- 
2.43.0


From 6c44371ce161b81a9d560ce1f76e1ede387fdc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:22 +0000
Subject: [PATCH 019/100] fix: let text::rune_indices() construct its iterator

---
 best/text/str.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/best/text/str.h b/best/text/str.h
index f4223af..25d4478 100644
--- a/best/text/str.h
+++ b/best/text/str.h
@@ -912,12 +912,12 @@ class text<E>::rune_index_iter_impl final {
   /// # `iter->rest()`
   ///
   /// Returns the content not yet yielded.
-  constexpr pretext rest() const { return iter_->rest(); }
+  constexpr text rest() const { return iter_->rest(); }
 
   using BestIterArrow = void;
 
  private:
-  friend pretext;
+  friend text;
   friend best::iter<rune_index_iter_impl>;
   friend best::iter<rune_index_iter_impl&>;
 
-- 
2.43.0


From a68d17ffa04db16769b0c8627142db536908c62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:10 +0000
Subject: [PATCH 020/100] fix: crash when a static span is built from a
 different length

---
 best/memory/span.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/best/memory/span.h b/best/memory/span.h
index 9dfc6d0..2d51f77 100644
--- a/best/memory/span.h
+++ b/best/memory/span.h
@@ -845,8 +845,11 @@ template <best::is_object T, best::option<best::dependent<size_t, T>> n>
 constexpr span<T, n>::span(best::ptr<T> data, size_t size, best::location loc)
   : data_(data) {
   if constexpr (is_static) {
-    best::bounds bounds_check = {.start = this->size(), .count = 0};
-    bounds_check.compute_count(this->size(), loc);
+    if (size != this->size()) {
+      crash_internal::crash(
+        {"static span length mismatch: expected %zu, got %zu", loc},
+        this->size(), size);
+    }
   } else {
     size_ = size;
   }
-- 
2.43.0


From af5d96b0b86d7931aa94c28462dd5dfd0ab68c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:32 +0000
Subject: [PATCH 021/100] fix: return a pointer to const from as_ptr() of a
 const choice

---
 best/container/internal/choice.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/container/internal/choice.h b/best/container/internal/choice.h
index 50b350d..fcba448 100644
--- a/best/container/internal/choice.h
+++ b/best/container/internal/choice.h
@@ -239,7 +239,7 @@ class impl : public storage<Ts...> {
     return *get(u, i);
   }
   template <size_t n>
-  BEST_INLINE_SYNTHETIC constexpr best::as_raw_ptr<type<n>> ptr(
+  BEST_INLINE_SYNTHETIC constexpr best::as_raw_ptr<const type<n>> ptr(
     unsafe u, best::index_t<n> i = {}) const {
     return get(u, i).operator->();
   }
-- 
2.43.0


From 2762969549a184c22832a94d2127cc9c35c447a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:53 +0000
Subject: [PATCH 022/100] fix: make span::split() compile for ranges and keep a
 temporary predicate alive

---
 best/memory/span.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/best/memory/span.h b/best/memory/span.h
index 2d51f77..84a1611 100644
--- a/best/memory/span.h
+++ b/best/memory/span.h
@@ -1262,13 +1262,14 @@ template <best::contiguous R>
 constexpr auto span<T, n>::split(const R& needle) const
   requires best::equatable<T, best::data_type<R>> && (!best::equatable<T, R>)
 {
-  return split_iter(split_impl<const R&>(needle, *this));
+  best::span pat(needle);
+  return split_iter<decltype(pat)>(split_impl<decltype(pat)>(pat, *this));
 }
 template <best::is_object T, best::option<best::dependent<size_t, T>> n>
 constexpr auto span<T, n>::split(
   best::callable<void(const T&)> auto&& pred) const {
-  return split_iter<decltype(pred)>(
-    split_impl<decltype(pred)>(BEST_FWD(pred), *this));
+  using P = best::as_auto<decltype(pred)>;
+  return split_iter<P>(split_impl<P>(BEST_FWD(pred), *this));
 }
 
 template <best::is_object T, best::option<best::dependent<size_t, T>> n>
-- 
2.43.0


From 8a0547736425ab8bb80747d6db06baa3d5aad480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:53 +0000
Subject: [PATCH 023/100] fix: make span::split_once() and rsplit_once()
 compile for predicates

---
 best/memory/span.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/best/memory/span.h b/best/memory/span.h
index 84a1611..4b2d10c 100644
--- a/best/memory/span.h
+++ b/best/memory/span.h
@@ -1206,7 +1206,7 @@ constexpr best::option<best::row<span<T>, span<T>>> span<T, n>::split_once(
   auto idx = find(pred);
   if (!idx) { return best::none; }
   return {{
-    best::span(data(), idx),
+    best::span(data(), *idx),
     best::span(data() + *idx + 1, size() - *idx - 1),
   }};
 }
@@ -1241,7 +1241,7 @@ constexpr best::option<best::row<span<T>, span<T>>> span<T, n>::rsplit_once(
   auto idx = rfind(pred);
   if (!idx) { return best::none; }
   return {{
-    best::span(data(), idx),
+    best::span(data(), *idx),
     best::span(data() + *idx + 1, size() - *idx - 1),
   }};
 }
-- 
2.43.0


From ae4e29e4e9212e115eea7231dc0df65b60b9f0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:53 +0000
Subject: [PATCH 024/100] fix: make find() and rfind() compile for spans of
 static extent

---
 best/memory/span.h | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/best/memory/span.h b/best/memory/span.h
index 4b2d10c..00c8177 100644
--- a/best/memory/span.h
+++ b/best/memory/span.h
@@ -1065,14 +1065,16 @@ constexpr best::option<size_t> span<T, n>::find(const R& needle) const
   if constexpr (best::is_span<R>) {
     using U = best::data_type<R>;
     if constexpr (best::bytes_internal::constexpr_byte_comparable<T, U>) {
-      return best::bytes_internal::search(*this, needle);
+      return best::bytes_internal::search(as_dynamic(*this),
+                                            best::span<U>(needle));
     } else if (!std::is_constant_evaluated()) {
       if constexpr (best::bytes_internal::byte_comparable<T, U>) {
-        return best::bytes_internal::search(*this, needle);
+        return best::bytes_internal::search(as_dynamic(*this),
+                                              best::span<U>(needle));
       }
     }
 
-    auto haystack = *this;
+    as_dynamic haystack = *this;
     auto [first, rest] = *needle.split_first();
     while (haystack.size() >= needle.size()) {
       // Skip to the next possible start.
@@ -1090,7 +1092,9 @@ constexpr best::option<size_t> span<T, n>::find(const R& needle) const
                      .start = next + 1});
 
       // Now check if we found the full needle.
-      if (haystack.starts_with(rest)) { return size() - haystack.size() - 1; }
+      if (haystack.starts_with(best::span<U>(rest))) {
+        return size() - haystack.size() - 1;
+      }
     }
     return best::none;
   } else {
@@ -1108,7 +1112,8 @@ constexpr best::option<size_t> span<T, n>::rfind(const R& needle) const
   if (best::size(needle) == 0) { return 0; }
 
   if constexpr (best::is_span<R>) {
-    auto haystack = *this;
+    using U = best::data_type<R>;
+    as_dynamic haystack = *this;
     auto [last, rest] = *needle.split_last();
     while (haystack.size() >= needle.size()) {
       // Skip to the next possible end.
@@ -1126,7 +1131,9 @@ constexpr best::option<size_t> span<T, n>::rfind(const R& needle) const
                      .end = next});
 
       // Now check if we found the full needle.
-      if (haystack.ends_with(rest)) { return haystack.size() - rest.size(); }
+      if (haystack.ends_with(best::span<U>(rest))) {
+        return haystack.size() - rest.size();
+      }
     }
     return best::none;
   } else {
-- 
2.43.0


From 6d74381c07cd7dae0ecb76260dade08e3dd18426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:53 +0000
Subject: [PATCH 025/100] fix: advance from the last candidate in the generic
 span::find()

---
 best/memory/span.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/best/memory/span.h b/best/memory/span.h
index 00c8177..e2c57af 100644
--- a/best/memory/span.h
+++ b/best/memory/span.h
@@ -1086,7 +1086,8 @@ constexpr best::option<size_t> span<T, n>::find(const R& needle) const
       if (next == haystack.size()) { return best::none; }
 
       // Skip forward.
-      haystack = at(unsafe("we just did a bounds check; avoid going through "
+      haystack =
+        haystack.at(unsafe("we just did a bounds check; avoid going through "
                            "best::option here for constexpr speed"),
                     {// SKip the first element for a speedier comparison.
                      .start = next + 1});
-- 
2.43.0


From 5595fb1d1ffcf32cc9e0c756e83f06b285963419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:53 +0000
Subject: [PATCH 026/100] fix: stop splitting by an empty separator

---
 best/memory/span.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/best/memory/span.h b/best/memory/span.h
index e2c57af..c3f2f09 100644
--- a/best/memory/span.h
+++ b/best/memory/span.h
@@ -778,7 +778,9 @@ class span<T, n>::split_impl final {
 
   constexpr best::option<best::span<T>> next() {
     if (done_) { return best::none; }
-    if (auto found = span_.split_once(*pat_)) {
+    // An empty separator would match forever without consuming anything.
+    if (auto found = span_.split_once(*pat_);
+        found && found->first().size() + found->second().size() < span_.size()) {
       span_ = found->second();
       return found->first();
     }
@@ -790,7 +792,9 @@ class span<T, n>::split_impl final {
 
   constexpr best::option<best::span<T>> next_back() {
     if (done_) { return best::none; }
-    if (auto found = span_.rsplit_once(*pat_)) {
+    // An empty separator would match forever without consuming anything.
+    if (auto found = span_.rsplit_once(*pat_);
+        found && found->first().size() + found->second().size() < span_.size()) {
       span_ = found->first();
       return found->second();
     }
-- 
2.43.0


From 88c28be3e44bb6f1260476e10e47082a18e3f4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:53 +0000
Subject: [PATCH 027/100] fix: keep the search window inside the haystack after
 a misaligned memmem() match

---
 best/memory/internal/bytes.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/memory/internal/bytes.h b/best/memory/internal/bytes.h
index 0595947..957b99a 100644
--- a/best/memory/internal/bytes.h
+++ b/best/memory/internal/bytes.h
@@ -169,7 +169,7 @@ constexpr best::option<size_t> search_memmem(best::span<T> haystack,
     // stride of T.
     size_t misalign = sizeof(T) - offset % sizeof(T);
     data += misalign;
-    size -= offset + misalign;
+    size = haystack.size() * sizeof(T) - (data - start);
   }
 }
 
-- 
2.43.0


From 4deb045f9ea619df026646b9772021469385316f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:06 +0000
Subject: [PATCH 028/100] fix: do not memcmp() unrelated classes or adjusted
 base pointers

---
 best/memory/internal/bytes.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/best/memory/internal/bytes.h b/best/memory/internal/bytes.h
index 957b99a..29a3338 100644
--- a/best/memory/internal/bytes.h
+++ b/best/memory/internal/bytes.h
@@ -53,6 +53,9 @@ struct tag {};
 template <typename T, typename U>
 void can_memcmp(tag<T>, tag<U>) requires requires {
   requires sizeof(T) == sizeof(U);
+  // The builtin only speaks about comparing a type with itself.
+  requires best::same<best::as_auto<T>, best::as_auto<U>> ||
+             (std::is_integral_v<T> && std::is_integral_v<U>);
 #if BEST_HAS_BUILTIN(__is_trivially_equality_comparable)
   requires __is_trivially_equality_comparable(T);
   requires __is_trivially_equality_comparable(U);
@@ -67,6 +70,8 @@ void can_memcmp(tag<T*>, tag<U*>) requires requires {
   // Function pointer equality is all kinds of messed up.
 
   requires !best::is_func<T> && !best::is_func<U>;
+  // Comparing pointers to a class and to its base may adjust them first.
+  requires best::same<best::as_auto<T>, best::as_auto<U>>;
   // libc++ asserts there's something weird about virtual bases.
   // This is not perfect detection for that case but allows a
   // lot more "reasonable" code than libc++'s constraint.
-- 
2.43.0


From 6d3c8a38a8231dadb4ca740c9fc448b1abe0fb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:06 +0000
Subject: [PATCH 029/100] fix: make span::find() compile for one-byte types
 other than char

---
 best/memory/internal/bytes.h | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/best/memory/internal/bytes.h b/best/memory/internal/bytes.h
index 29a3338..4abd48b 100644
--- a/best/memory/internal/bytes.h
+++ b/best/memory/internal/bytes.h
@@ -136,11 +136,28 @@ BEST_INLINE_ALWAYS constexpr best::ord compare(best::span<T> lhs,
   return result <=> 0;
 }
 
+// Wraps `memchr()` for any `is_char` type; __builtin_char_memchr only accepts
+// `const char*`.
+template <typename T, typename U>
+constexpr T* find_char(T* data, const U& needle, size_t len) {
+  if constexpr (best::same<best::as_auto<T>, char>) {
+    return (T*)BEST_memchr_(data, needle, len);
+  } else {
+    if (!std::is_constant_evaluated()) {
+      return (T*)best::bytes_internal::memchr(data, needle, len);
+    }
+    for (; len > 0; ++data, --len) {
+      if (*data == static_cast<T>(needle)) { return data; }
+    }
+    return nullptr;
+  }
+}
+
 template <typename T, typename U>
 constexpr best::option<size_t> search_byte(best::span<T> haystack,
                                            best::span<U> needle) {
-  auto* found =
-    BEST_memchr_(haystack.data().raw(), *needle.data(), haystack.size());
+  auto* found = bytes_internal::find_char(haystack.data().raw(),
+                                          *needle.data(), haystack.size());
   if (!found) { return best::none; }
   return found - haystack.data().raw();
 }
@@ -148,7 +165,7 @@ constexpr best::option<size_t> search_byte(best::span<T> haystack,
 template <typename T, typename U>
 constexpr best::option<size_t> search_memmem(best::span<T> haystack,
                                              best::span<U> needle) {
-  if constexpr (sizeof(U) == 1) {
+  if constexpr (is_char<T> && is_char<U>) {
     if (needle.size() == 1) { return search_byte(haystack, needle); }
   }
 
@@ -201,7 +218,7 @@ BEST_INLINE_ALWAYS constexpr best::option<size_t> search_constexpr(
     if (len < nz) { return best::none; }
 
     // Skip to the next possible candidate.
-    hp = (T*)BEST_memchr_(hp, first, len);
+    hp = bytes_internal::find_char(hp, first, len);
     if (hp == nullptr) { return best::none; }
 
     // Check if we actually found the string.
-- 
2.43.0


From 4289e7a31afbfb8123954443746d02fb2bf37536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:06 +0000
Subject: [PATCH 030/100] fix: do not order spans of multi-byte integers with
 memcmp()

---
 best/memory/internal/bytes.h | 10 ++++++++++
 best/memory/span.h           | 11 +++++++----
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/best/memory/internal/bytes.h b/best/memory/internal/bytes.h
index 4abd48b..680b811 100644
--- a/best/memory/internal/bytes.h
+++ b/best/memory/internal/bytes.h
@@ -109,6 +109,16 @@ concept constexpr_byte_comparable = requires {
   requires bool(BEST_CONSTEXPR_MEMCMP_);
 };
 
+/// # `best::byte_ordered`
+///
+/// Whether a pair of types' ordering is modeled by `memcmp()`. This is only the
+/// case for bytes: `memcmp()` gets the bytes of larger integers in the wrong
+/// order on little-endian, and knows nothing of user-defined orderings.
+template <typename T, typename U = T>
+concept byte_ordered = is_char<T> && is_char<U> &&
+                       !best::same<best::as_auto<T>, signed char> &&
+                       !best::same<best::as_auto<U>, signed char>;
+
 template <typename T, typename U>
 BEST_INLINE_ALWAYS constexpr bool equate(best::span<T> lhs, best::span<U> rhs) {
   if (lhs.size() != rhs.size()) { return false; }
diff --git a/best/memory/span.h b/best/memory/span.h
index c3f2f09..642769d 100644
--- a/best/memory/span.h
+++ b/best/memory/span.h
@@ -1433,12 +1433,15 @@ constexpr auto span<T, n>::operator<=>(span<U, m> that) const
   requires best::comparable<T, U>
 {
   if (std::is_constant_evaluated()) {
-    if constexpr (best::bytes_internal::constexpr_byte_comparable<T, U>) {
-      return best::bytes_internal::compare(best::span(*this), best::span(that));
+    if constexpr (best::bytes_internal::constexpr_byte_comparable<T, U> &&
+                  best::bytes_internal::byte_ordered<T, U>) {
+      return best::bytes_internal::compare(best::span<T>(*this),
+                                           best::span<U>(that));
     }
   } else {
-    if constexpr (best::bytes_internal::byte_comparable<T, U>) {
-      return best::bytes_internal::compare(best::span(*this), best::span(that));
+    if constexpr (best::bytes_internal::byte_ordered<T, U>) {
+      return best::bytes_internal::compare(best::span<T>(*this),
+                                           best::span<U>(that));
     }
   }
 
-- 
2.43.0


From 0a9ce2ddf023b6e8111c5fed6c05f74879dbef5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:19 +0000
Subject: [PATCH 031/100] fix: relocate overlapping ranges in an order that
 does not trample them

---
 best/memory/ptr.h | 37 +++++++------------------------------
 1 file changed, 7 insertions(+), 30 deletions(-)

diff --git a/best/memory/ptr.h b/best/memory/ptr.h
index 5a43185..84e279e 100644
--- a/best/memory/ptr.h
+++ b/best/memory/ptr.h
@@ -1031,22 +1031,10 @@ BEST_INLINE_ALWAYS constexpr void ptr<T>::relo_overlapping(ptr<T> that,
   // | xxxx | yyyyyyyyyyyy | yyyyyy | ------------ | xxxx |
   //        src            dst      src + count    dst + count
   //
-  // The moved part is subdivided as follows according to how it needs to be
-  // moved:
-  // | aaaa | bbbbbbbbbbbb | cccc |
-  // src    src + overlap  dst    src + count
-  //
-  // Where overlap = src + count - dst. The c part is move-constructed
-  // but not destroyed; then the b part is relocated, and the a part is
-  // move-assigned and then destroyed.
-  //
   // Overlapping backward shift. Happens when dst < src < dest + count, need to
   // destroy {.start = dst + count, .end = src + count }
   // | xxxx | ------------ | yyyyyy | yyyyyyyyyyyy | xxxx |
   //        dst            src      dst + count    src + count
-  //
-  // The moved part is divided in the analogous way, but the move/relocate/
-  // assign regions are in the opposite order.
 
   // Non-overlapping case.
   if (src + count <= dst || dst + count <= src) {
@@ -1063,28 +1051,17 @@ BEST_INLINE_ALWAYS constexpr void ptr<T>::relo_overlapping(ptr<T> that,
     }
   }
 
-  // Forward case.
-  if (src < dst && dst < src + count) {
-    size_t overlap0 = src + count - dst;
-    size_t overlap1 = dst - src;
-    // Need to make the copies in backward order to avoid trampling.
-    (dst + overlap1).move(src + overlap1, count - overlap1);
-    (dst + overlap0).relo(src + overlap0, overlap1 - overlap0);
-    dst.relo_assign(src, overlap0);
+  // Forward case. Every element must be relocated before anything lands on it,
+  // so we go backwards.
+  if (src < dst) {
+    for (size_t i = count; i > 0; --i) {
+      (dst + (i - 1)).relo(src + (i - 1));
+    }
     return;
   }
 
   // Backward case.
-  if (dst < src && src < dst + count) {
-    size_t overlap0 = dst + count - src;
-    size_t overlap1 = src - dst;
-
-    dst.move(src, overlap0);
-    (dst + overlap0).relo(src + overlap0, overlap1 - overlap0);
-    (dst + overlap1).relo_assign(src + overlap1, count - overlap1);
-
-    return;
-  }
+  for (size_t i = 0; i < count; ++i) { (dst + i).relo(src + i); }
 }
 }  // namespace best
 
-- 
2.43.0


From c09bc97ac763ec25e634c3906b8595793eb2fd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:55 +0000
Subject: [PATCH 032/100] fix: destroy the values that ptr::relo_assign()
 overwrites

---
 best/memory/ptr.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/best/memory/ptr.h b/best/memory/ptr.h
index 84e279e..6e79703 100644
--- a/best/memory/ptr.h
+++ b/best/memory/ptr.h
@@ -754,7 +754,9 @@ class ptr final {
     constexpr bool can_memcpy() const {
       return best::same<const best::pointee<T>, const best::pointee<U>> &&
              (best::copyable<T, trivially> ||
-              (best::relocatable<T, trivially> && kind == how::Relo));
+              (best::relocatable<T, trivially> && kind == how::Relo &&
+               // A value that is assigned over must be destroyed.
+               (!assign || best::destructible<T, trivially>)));
     }
 
     bool should_memcpy() const {
-- 
2.43.0


From 26a139fa6b9cb81f2bf6d9058d49f533b6296ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:48 +0000
Subject: [PATCH 033/100] fix: let span::copy_from() copy between overlapping
 spans

---
 best/memory/ptr.h  | 18 +++++++++++++++++-
 best/memory/span.h |  2 +-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/best/memory/ptr.h b/best/memory/ptr.h
index 6e79703..f9cf55a 100644
--- a/best/memory/ptr.h
+++ b/best/memory/ptr.h
@@ -994,7 +994,23 @@ BEST_INLINE_SYNTHETIC constexpr void ptr<T>::copy_impl(ptr<U> that,
     }
   }
 
-  for (size_t i = 0; i < count; ++i) {
+  // If the destination begins inside the source, go backwards, so that no
+  // element is trampled before it is read.
+  bool backwards = false;
+  if constexpr (how.overlapping && best::same<const best::pointee<T>,
+                                              const best::pointee<U>>) {
+    if (!std::is_constant_evaluated()) {
+      backwards = that.raw() < raw();
+    } else {
+      // Unrelated pointers can only be compared for equality here.
+      for (size_t i = 1; i < count; ++i) {
+        backwards |= that.raw() + i == raw();
+      }
+    }
+  }
+
+  for (size_t j = 0; j < count; ++j) {
+    size_t i = backwards ? count - 1 - j : j;
     if constexpr (how.assign) {
       if constexpr (how.kind == how::Copy) {
         offset(i).assign(that.offset(i).deref());
diff --git a/best/memory/span.h b/best/memory/span.h
index 642769d..680fe5e 100644
--- a/best/memory/span.h
+++ b/best/memory/span.h
@@ -1382,7 +1382,7 @@ template <typename U>
 constexpr void span<T, n>::copy_from(best::span<U> src) const
   requires (!is_const)
 {
-  data().copy_assign(src.data(), best::min(size(), src.size()));
+  data().copy_assign_overlapping(src.data(), best::min(size(), src.size()));
 }
 template <best::is_object T, best::option<best::dependent<size_t, T>> n>
 template <typename U>
-- 
2.43.0


From cad6810f4839cee92f4a0bfeabcc142fcce8088f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:02 +0000
Subject: [PATCH 034/100] fix: crash when the size of an allocation plus its
 cookie overflows

---
 best/memory/allocator.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/best/memory/allocator.cc b/best/memory/allocator.cc
index fec2148..90c8ad5 100644
--- a/best/memory/allocator.cc
+++ b/best/memory/allocator.cc
@@ -42,6 +42,11 @@ best::layout embiggen(best::layout layout) {
   size_t grow_by = best::size_of<best::layout>;
   if (grow_by < new_align) { grow_by = new_align; }
 
+  if (layout.size() > ~size_t{0} - grow_by) {
+    best::crash_internal::crash("attempted to allocate too many bytes: %zu",
+                                layout.size());
+  }
+
   return best::layout(
     unsafe("the alignment is a power of two, because it is either `layout`'s "
            "alignment or that of `best::layout`"),
-- 
2.43.0


From e3509572273130bcd0e08ca8d4ff7d5829c8e0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:37 +0000
Subject: [PATCH 035/100] fix: enforce the size limit that layout::array()
 documents

---
 best/memory/layout.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/memory/layout.h b/best/memory/layout.h
index 7f21d2a..c15f1ce 100644
--- a/best/memory/layout.h
+++ b/best/memory/layout.h
@@ -90,7 +90,7 @@ class layout final {
   template <typename T>
   static constexpr layout array(size_t n) {
     auto [sz, of] = best::overflow(size_of<T>) * n;
-    if (of || sz > best::max_of<size_t>) {
+    if (of || sz > best::max_of<size_t> / 2) {
       best::crash_internal::crash(
         "attempted to allocate more than max_of<size_t>/2 bytes");
     }
-- 
2.43.0


From 8eb7005aed34c200e271bfdfd820e2afe7038427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:39 +0000
Subject: [PATCH 036/100] fix: reallocate over-aligned blocks from their own
 start and layout

---
 best/memory/allocator.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/best/memory/allocator.cc b/best/memory/allocator.cc
index 90c8ad5..80c5fea 100644
--- a/best/memory/allocator.cc
+++ b/best/memory/allocator.cc
@@ -136,11 +136,13 @@ best::ptr<void> malloc::zalloc(best::layout layout) {
 best::ptr<void> malloc::realloc(best::ptr<void> ptr, best::layout old,
                                 best::layout layout) {
   check_addr(ptr);
-  check_layout(ptr, old);
+  auto base = ptr;
+  auto old_actual = old;
+  check_layout(base, old_actual);
   auto actual = UseCookies ? embiggen(layout) : layout;
 
-  if (actual.align() <= MaxAlign) {
-    void* p = ::realloc(ptr.raw(), actual.size());
+  if (actual.align() <= MaxAlign && old_actual.align() <= MaxAlign) {
+    void* p = ::realloc(base.raw(), actual.size());
     if (best::unlikely(p == nullptr)) {
       best::crash_internal::crash(
         "realloc() returned a null pointer on layout %zu:%zu -> %zu:%zu",
@@ -156,7 +158,7 @@ best::ptr<void> malloc::realloc(best::ptr<void> ptr, best::layout old,
   auto p = alloc(layout);
   size_t common = best::min(old.size(), layout.size());
   std::memcpy(p.raw(), ptr.raw(), common);
-  dealloc(ptr, layout);
+  dealloc(ptr, old);
   return p;
 }
 
-- 
2.43.0


From bba92cce0568fe4db4ba05d828f2b6362c9dda9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:08 +0000
Subject: [PATCH 037/100] fix: make vec::at(bounds) return a span

---
 best/container/vec.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/best/container/vec.h b/best/container/vec.h
index be4e4aa..2ad8213 100644
--- a/best/container/vec.h
+++ b/best/container/vec.h
@@ -274,8 +274,10 @@ class vec final {
   /// out-of-bounds, returns `best::none`.
   best::option<const T&> at(size_t idx) const { return as_span().at(idx); }
   best::option<T&> at(size_t idx) { return as_span().at(idx); }
-  best::option<const T&> at(best::bounds b) const { return as_span().at(b); }
-  best::option<T&> at(best::bounds b) { return as_span().at(b); }
+  best::option<best::span<const T>> at(best::bounds b) const {
+    return as_span().at(b);
+  }
+  best::option<best::span<T>> at(best::bounds b) { return as_span().at(b); }
 
   /// # `vec::citer`, `vec::iter`, `vec::begin()`, `vec::end()`.
   ///
-- 
2.43.0


From e501fa60db5b2271edb79c421d7f428914ede4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:42 +0000
Subject: [PATCH 038/100] fix: make the vec constructor from a box compile

---
 best/container/vec.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/best/container/vec.h b/best/container/vec.h
index 2ad8213..14acc50 100644
--- a/best/container/vec.h
+++ b/best/container/vec.h
@@ -166,7 +166,11 @@ class vec final {
   /// allocation.
   vec(box<T[], alloc>&& box)
     : alloc_(best::in_place, BEST_MOVE(box.allocator())) {
-    raw_ = BEST_MOVE(box).leak();
+    auto ptr = BEST_MOVE(box).leak();
+    // A moved-from box has no allocation to take ownership of.
+    if (ptr.raw() == ptr.dangling().raw()) { return; }
+
+    raw_ = best::span<T>(ptr.raw(), ptr.meta());
     store_size(~raw_.size());
   }
 
-- 
2.43.0


From 4b42bb73f31d3eea26ed0c04a90985d98abff257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:37 +0000
Subject: [PATCH 039/100] fix: crash when vec::reserve() overflows instead of
 truncating

---
 best/container/vec.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/best/container/vec.h b/best/container/vec.h
index 14acc50..5108acd 100644
--- a/best/container/vec.h
+++ b/best/container/vec.h
@@ -314,7 +314,9 @@ class vec final {
   ///
   /// Ensures that pushing an additional `count` elements would not cause this
   /// vector to resize, by resizing the internal array eagerly.
-  void reserve(size_t count) { resize_uninit(size() + count); }
+  void reserve(size_t count) {
+    resize_uninit((best::overflow(size()) + count).strict());
+  }
 
   /// # `vec::shrink_to_fit()`
   ///
-- 
2.43.0


From f4871b7af32cec4e0a73bee171c318b2a472c204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:15 +0000
Subject: [PATCH 040/100] fix: make vec::shrink_to_fit() shrink

---
 best/container/vec.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/best/container/vec.h b/best/container/vec.h
index 5108acd..c60e9c9 100644
--- a/best/container/vec.h
+++ b/best/container/vec.h
@@ -323,7 +323,8 @@ class vec final {
   /// Resizes the underlying allocation such that `capacity == size`.
   void shrink_to_fit() {
     if (size() == capacity() || !on_heap()) { return; }
-    spill_to_heap(size());
+    if (is_empty()) { return destroy(); }
+    spill_to_heap(size(), true);
   }
 
   /// # `vec::truncate()`.
-- 
2.43.0


From 502c10edd5344147ff7491e5efcf380b72efa611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:48 +0000
Subject: [PATCH 041/100] fix: let vec::assign() take a part of the vector
 itself

---
 best/container/vec.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/best/container/vec.h b/best/container/vec.h
index c60e9c9..7b3a8c0 100644
--- a/best/container/vec.h
+++ b/best/container/vec.h
@@ -699,6 +699,15 @@ void vec<T, max_inline, A>::assign(const contiguous auto& that) {
     }
   }
 
+  if (best::span span = that; !span.is_empty() && as_span().has_subarray(span)) {
+    // Growing or destroying elements would invalidate the range, so drop
+    // everything around it instead.
+    size_t start = span.data().raw() - data().raw();
+    truncate(start + span.size());
+    erase({.start = 0, .count = start});
+    return;
+  }
+
   auto that_data = best::ptr(best::data(that));
   auto old_size = size();
   auto new_size = best::size(that);
-- 
2.43.0


From 291515fbf9239d8ed5f422aced12df2349801ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:25 +0000
Subject: [PATCH 042/100] fix: keep the heap bit clear of an inline vec's size

---
 best/container/vec.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/container/vec.h b/best/container/vec.h
index 7b3a8c0..85b9c86 100644
--- a/best/container/vec.h
+++ b/best/container/vec.h
@@ -480,7 +480,7 @@ class vec final {
 
   /// The number of bytes needed to store the size of an inlined vector.
   static constexpr size_t SizeBytes = [] {
-    size_t bits = best::bits_for(max_inline);
+    size_t bits = best::bits_for(max_inline) + (max_inline > 0);
     // We need to pay one extra bit, which is the sign bit of the MSB of size_,
     // which is used to tell whether or not this is an inlined string or not.
     return best::ceildiv(bits, 8).wrap();
-- 
2.43.0


From 21a7a4d65be16e88b110aae42806fe0d5b77850b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:38 +0000
Subject: [PATCH 043/100] fix: keep the elements of an inline vec that is moved
 elementwise

---
 best/container/vec.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/best/container/vec.h b/best/container/vec.h
index 85b9c86..dd4cf67 100644
--- a/best/container/vec.h
+++ b/best/container/vec.h
@@ -611,11 +611,13 @@ void vec<T, max_inline, A>::move_construct(vec&& that, bool assign) {
     } else {
       data().relo_assign(that.data(), new_size);
     }
+    set_size(unsafe("we just relocated this many elements"), new_size);
   } else {
     destroy();
     auto new_size = that.size();
     reserve(new_size);
     data().relo(that.data(), new_size);
+    set_size(unsafe("we just relocated this many elements"), new_size);
   }
 
   if (assign) { alloc_ = std::move(that.alloc_); }
-- 
2.43.0


From 59328872a9ebae96ae31d9d4d02b5ad2379b02a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:30 +0000
Subject: [PATCH 044/100] fix: choice::object() && returns the object it found

---
 best/container/choice.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/best/container/choice.h b/best/container/choice.h
index e095b1d..ba5abc2 100644
--- a/best/container/choice.h
+++ b/best/container/choice.h
@@ -477,14 +477,18 @@ constexpr best::option<
   const best::object<typename choice<A...>::template type<n>>&&>
 choice<A...>::object(best::index_t<n> i) const&& {
   if (which() != n) { return {}; }
-  return BEST_MOVE(impl().object(unsafe{"checked which() before this"}, i));
+  return best::option(
+    best::bind,
+    BEST_MOVE(impl().object(unsafe{"checked which() before this"}, i)));
 }
 template <typename... A>
 template <size_t n>
 constexpr best::option<best::object<typename choice<A...>::template type<n>>&&>
 choice<A...>::object(best::index_t<n> i) && {
   if (which() != n) { return {}; }
-  BEST_MOVE(impl().object(unsafe{"checked which() before this"}, i));
+  return best::option(
+    best::bind,
+    BEST_MOVE(impl().object(unsafe{"checked which() before this"}, i)));
 }
 
 template <typename... A>
-- 
2.43.0


From b2bc63a36f534f49f1857df43b334b02525a15dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:27 +0000
Subject: [PATCH 045/100] fix: option::ok_or() and err_or() do not move out of
 lvalues

---
 best/container/option.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/best/container/option.h b/best/container/option.h
index 57075e2..fe4e4cb 100644
--- a/best/container/option.h
+++ b/best/container/option.h
@@ -562,12 +562,12 @@ class option final {
     if (has_value()) return make_ok(); return best::err(BEST_FWD(arg));
   }
   template <int&... deduction_barrier>
-  constexpr auto ok_or(auto&& arg) const&& -> best::result<T, best::as_auto<decltype(arg)>>
+  constexpr auto ok_or(auto&& arg) & -> best::result<T, best::as_auto<decltype(arg)>>
   requires best::constructible<T, ref> && (!best::callable<decltype(arg), void()>) {
     if (has_value()) return make_ok(); return best::err(BEST_FWD(arg));
   }
   template <int&... deduction_barrier>
-  constexpr auto ok_or(auto&& arg) & -> best::result<T, best::as_auto<decltype(arg)>>
+  constexpr auto ok_or(auto&& arg) const&& -> best::result<T, best::as_auto<decltype(arg)>>
   requires best::constructible<T, crref> && (!best::callable<decltype(arg), void()>) {
     if (has_value()) return BEST_MOVE(*this).make_ok(); return best::err(BEST_FWD(arg));
   }
@@ -581,12 +581,12 @@ class option final {
   requires best::constructible<T, cref> {
     if (has_value()) return make_ok(); return best::err(best::call(BEST_FWD(arg)));
   }
-  constexpr auto ok_or(best::callable<void()> auto&& arg) const&&
+  constexpr auto ok_or(best::callable<void()> auto&& arg) &
   -> best::result<T, decltype(best::call(BEST_FWD(arg)))>
   requires best::constructible<T, ref> {
     if (has_value()) return make_ok(); return best::err(best::call(BEST_FWD(arg)));
   }
-  constexpr auto ok_or(best::callable<void()> auto&& arg) &
+  constexpr auto ok_or(best::callable<void()> auto&& arg) const&&
   -> best::result<T, decltype(best::call(BEST_FWD(arg)))>
   requires best::constructible<T, crref> {
     if (has_value()) return BEST_MOVE(*this).make_ok(); return best::err(best::call(BEST_FWD(arg)));
@@ -624,13 +624,13 @@ class option final {
     if (has_value()) return make_err(); return best::ok(BEST_FWD(arg));
   }
   template <int&... deduction_barrier>
-  constexpr auto err_or(auto&& arg) const&&
+  constexpr auto err_or(auto&& arg) &
   -> best::result<best::as_auto<decltype(arg)>, T>
   requires best::constructible<T, ref> && (!best::callable<decltype(arg), void()>) {
     if (has_value()) return make_err(); return best::ok(BEST_FWD(arg));
   }
   template <int&... deduction_barrier>
-  constexpr auto err_or(auto&& arg) &
+  constexpr auto err_or(auto&& arg) const&&
   -> best::result<best::as_auto<decltype(arg)>, T>
   requires best::constructible<T, crref> && (!best::callable<decltype(arg), void()>) {
     if (has_value()) return BEST_MOVE(*this).make_err(); return best::ok(BEST_FWD(arg));
@@ -646,12 +646,12 @@ class option final {
   requires best::constructible<T, cref> {
     if (has_value()) return make_err(); return best::ok(best::call(BEST_FWD(arg)));
   }
-  constexpr auto err_or(best::callable<void()> auto&& arg) const&&
+  constexpr auto err_or(best::callable<void()> auto&& arg) &
   -> best::result<decltype(best::call(BEST_FWD(arg))), T>
   requires best::constructible<T, ref> {
     if (has_value()) return make_err(); return best::ok(best::call(BEST_FWD(arg)));
   }
-  constexpr auto err_or(best::callable<void()> auto&& arg) &
+  constexpr auto err_or(best::callable<void()> auto&& arg) const&&
   -> best::result<decltype(best::call(BEST_FWD(arg))), T>
   requires best::constructible<T, crref> {
     if (has_value()) return BEST_MOVE(*this).make_err(); return best::ok(best::call(BEST_FWD(arg)));
-- 
2.43.0


From 6c49bd825c79a0d2ab031c099b8ca54233bf3403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:12 +0000
Subject: [PATCH 046/100] fix: best::option<T> does not inherit the niche of T

---
 best/container/option.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/best/container/option.h b/best/container/option.h
index fe4e4cb..4518646 100644
--- a/best/container/option.h
+++ b/best/container/option.h
@@ -24,6 +24,7 @@
 #include <type_traits>
 
 #include "best/base/fwd.h"
+#include "best/base/niche.h"
 #include "best/base/tags.h"
 #include "best/container/choice.h"
 #include "best/log/internal/crash.h"
@@ -131,6 +132,7 @@ class option final {
   static constexpr bool not_forbidden_conversion =
     (!best::same<best::in_place_t, best::as_auto<U>>)&&  //
     (!best::same<option, best::as_auto<U>>)&&            //
+    (!best::same<best::niche, best::as_auto<U>>)&&       //
     (!best::same<bool, best::un_qual<T>>);
 
  public:
-- 
2.43.0


From 88f64124832960fa066fe5dbf59405c27c63ff0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:08 +0000
Subject: [PATCH 047/100] fix: comparing option<T&> to a null pointer does not
 dereference it

---
 best/container/option.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/best/container/option.h b/best/container/option.h
index 4518646..38618da 100644
--- a/best/container/option.h
+++ b/best/container/option.h
@@ -722,7 +722,8 @@ class option final {
   constexpr bool operator==(const U* u) const requires best::is_ref<T>
   {
     return (!has_value() && u == nullptr) ||
-           (has_value() && value(unsafe("just checked has_value()")) == *u);
+           (has_value() && u != nullptr &&
+            value(unsafe("just checked has_value()")) == *u);
   }
   constexpr bool operator==(const best::none_t&) const { return is_empty(); }
 
-- 
2.43.0


From 9540384845782e35564223551a5e071913eab7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:07 +0000
Subject: [PATCH 048/100] fix: dereferencing a result with a void error
 compiles

---
 best/text/format.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/best/text/format.h b/best/text/format.h
index 155d79f..02ecd97 100644
--- a/best/text/format.h
+++ b/best/text/format.h
@@ -591,7 +591,11 @@ namespace result_internal {
 struct fmt final {
   template <typename T, typename E>
   BEST_INLINE_SYNTHETIC static void check_ok(const best::result<T, E>* result) {
-    if (auto err = result->err()) {
+    if constexpr (best::is_void<E>) {
+      if (result->is_err()) {
+        best::crash_internal::crash("unwrapped a best::err(void)");
+      }
+    } else if (auto err = result->err()) {
       auto message = best::format("unwrapped a best::err({:?})",
                                   best::make_formattable(*err));
       best::crash_internal::crash("%.*s", message.size(), message.data());
-- 
2.43.0


From 4cce0ac5061a52dd24c1f8e92f55bca5863818e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:02 +0000
Subject: [PATCH 049/100] fix: order results against their values like results:
 successes first

---
 best/container/result.h | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/best/container/result.h b/best/container/result.h
index c329ba2..b24c5ab 100644
--- a/best/container/result.h
+++ b/best/container/result.h
@@ -335,31 +335,39 @@ class [[nodiscard(
   }
   BEST_INLINE_SYNTHETIC constexpr auto operator<=>(
     const best::comparable<T> auto& u) const {
-    if (auto v = ok()) { return v <=> u; }
-    return best::ord::less;
+    using Output = best::order_type<T, decltype(u)>;
+    if (is_ok()) { return Output(impl()[best::index<0>] <=> u); }
+    return Output(best::ord::greater);
   }
   BEST_INLINE_SYNTHETIC constexpr auto operator<=>(
     const best::comparable<E> auto& u) const {
-    if (auto v = err()) { return v <=> u; }
-    return best::ord::greater;
+    using Output = best::order_type<E, decltype(u)>;
+    if (is_err()) { return Output(impl()[best::index<1>] <=> u); }
+    return Output(best::ord::less);
   }
   template <best::comparable<T> U>
   BEST_INLINE_SYNTHETIC constexpr auto operator<=>(best::ok<U> u) const {
-    if (auto v = ok()) { return v <=> u.args.args[best::index<0>]; }
-    return best::ord::less;
+    using Output = best::order_type<T, U>;
+    if (is_ok()) {
+      return Output(impl()[best::index<0>] <=> u.args.row[best::index<0>]);
+    }
+    return Output(best::ord::greater);
   }
   template <best::comparable<E> U>
   BEST_INLINE_SYNTHETIC constexpr auto operator<=>(best::err<U> u) const {
-    if (auto v = ok()) { return v <=> u.args.args[best::index<0>]; }
-    return best::ord::less;
+    using Output = best::order_type<E, U>;
+    if (is_err()) {
+      return Output(impl()[best::index<1>] <=> u.args.row[best::index<0>]);
+    }
+    return Output(best::ord::less);
   }
   BEST_INLINE_SYNTHETIC constexpr auto operator<=>(best::ok<> u) const {
     if (ok()) { return best::ord::equal; }
-    return best::ord::less;
+    return best::ord::greater;
   }
   BEST_INLINE_SYNTHETIC constexpr auto operator<=>(best::err<> u) const {
     if (err()) { return best::ord::equal; }
-    return best::ord::greater;
+    return best::ord::less;
   }
 
   friend void BestFmt(auto& fmt, const result& res) requires requires {
-- 
2.43.0


From 6a1bbeb2447493aed967b46230541d2ba4ed9d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:18 +0000
Subject: [PATCH 050/100] fix: format the least value of signed integer types

---
 best/text/internal/format_impls.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/best/text/internal/format_impls.h b/best/text/internal/format_impls.h
index 2caee1f..765efc2 100644
--- a/best/text/internal/format_impls.h
+++ b/best/text/internal/format_impls.h
@@ -23,6 +23,7 @@
 #include <cstddef>
 #include <type_traits>
 
+#include "best/math/int.h"
 #include "best/meta/reflect.h"
 #include "best/text/rune.h"
 #include "best/text/str.h"
@@ -141,19 +142,21 @@ void BestFmt(auto& fmt, best::is_int auto value) {
       break;
   }
 
+  // The magnitude does not necessarily fit in the type of `value` itself.
   bool negative = value < 0;
-  if (negative) { value = -value; }
+  auto magnitude = best::to_unsigned(value);
+  if (negative) { magnitude = 0 - magnitude; }
 
   // Construct the actual digits.
   char buf[128];
   size_t count = 0;
   do {
-    rune r = *rune::from_digit(value % base, base);
+    rune r = *rune::from_digit(magnitude % base, base);
     if (uppercase) { r = r.to_ascii_upper(); }
 
     buf[128 - count++ - 1] = r;
-    value /= base;
-  } while (value != 0);
+    magnitude /= base;
+  } while (magnitude != 0);
 
   best::str digits(unsafe("all characters are ascii"),
                    best::span(buf + 128 - count, count));
-- 
2.43.0


From 5fdccedcbee93bd099c39f0d8410ba4cf533fb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:32 +0000
Subject: [PATCH 051/100] fix: match and permute rvalue choices as rvalues

---
 best/container/choice.h          | 7 +++++--
 best/container/internal/choice.h | 4 ++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/best/container/choice.h b/best/container/choice.h
index ba5abc2..472af6f 100644
--- a/best/container/choice.h
+++ b/best/container/choice.h
@@ -305,7 +305,7 @@ class choice final {
 #undef BEST_CHOICE_CLANG_FORMAT_HACK_
     requires (inverse.has_value())
   {
-    return index_match([&](auto tag, auto&&... value) {
+    return BEST_MOVE(*this).index_match([&](auto tag, auto&&... value) {
       return best::choice<type<p>...>(best::index<(*inverse)[tag.value]>,
                                       BEST_FWD(value)...);
     });
@@ -367,7 +367,10 @@ class choice final {
 
   constexpr const auto& impl() const& { return BEST_CHOICE_IMPL_; }
   constexpr auto& impl() & { return BEST_CHOICE_IMPL_; }
-  constexpr const auto&& impl() const&& { return BEST_MOVE(BEST_CHOICE_IMPL_); }
+  constexpr const auto&& impl() const&& {
+    return static_cast<const choice_internal::impl<Alts...>&&>(
+      BEST_CHOICE_IMPL_);
+  }
   constexpr auto&& impl() && { return BEST_MOVE(BEST_CHOICE_IMPL_); }
 
  public:
diff --git a/best/container/internal/choice.h b/best/container/internal/choice.h
index fcba448..9748066 100644
--- a/best/container/internal/choice.h
+++ b/best/container/internal/choice.h
@@ -289,11 +289,11 @@ class impl : public storage<Ts...> {
   template <typename F>
   BEST_INLINE_SYNTHETIC constexpr decltype(auto) index_match(
     F&& callback) const&& {
-    return jump_table(make_index_match_arm(*this, BEST_FWD(callback)));
+    return jump_table(make_index_match_arm(BEST_MOVE(*this), BEST_FWD(callback)));
   }
   template <typename F>
   BEST_INLINE_SYNTHETIC constexpr decltype(auto) index_match(F&& callback) && {
-    return jump_table(make_index_match_arm(*this, BEST_FWD(callback)));
+    return jump_table(make_index_match_arm(BEST_MOVE(*this), BEST_FWD(callback)));
   }
 
  private:
-- 
2.43.0


From e449398a1507dff44de0f4674531f5abe00a8db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:34 +0000
Subject: [PATCH 052/100] fix: self-assigning a sum type with a non-assignable
 payload keeps the payload

---
 best/container/internal/choice.h | 2 ++
 best/container/option.h          | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/best/container/internal/choice.h b/best/container/internal/choice.h
index 9748066..d5cf0df 100644
--- a/best/container/internal/choice.h
+++ b/best/container/internal/choice.h
@@ -182,6 +182,7 @@ class impl : public storage<Ts...> {
   = default;
   constexpr impl& operator=(const impl& that) requires (!info.trivial_copy())
   {
+    if (this == &that) { return *this; }
     that.index_match(
       [&](auto tag, auto&... value) { emplace<tag.value>(value...); });
     return *this;
@@ -200,6 +201,7 @@ class impl : public storage<Ts...> {
   = default;
   constexpr impl& operator=(impl&& that) requires (!info.trivial_move())
   {
+    if (this == &that) { return *this; }
     that.index_match([&](auto tag, auto&... value) {
       emplace<tag.value>(BEST_MOVE(value)...);
     });
diff --git a/best/container/option.h b/best/container/option.h
index 38618da..7ba4cec 100644
--- a/best/container/option.h
+++ b/best/container/option.h
@@ -223,8 +223,8 @@ class option final {
   }
   template <is_option U>
   constexpr option& operator=(U&& that)
-    requires best::constructible<T,
-                                 best::copy_ref<best::option_type<U>, U&&>> &&
+    requires (!best::same<option, best::as_auto<U>>) &&
+             best::constructible<T, best::copy_ref<best::option_type<U>, U&&>> &&
              cannot_init_from<U>
   {
     if (that.has_value()) {
-- 
2.43.0


From 0699765f847d5f96a83856a33817784d50bce9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:02 +0000
Subject: [PATCH 053/100] fix: order rows, and honour the types given to
 row::scatter()

---
 best/container/row.h | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/best/container/row.h b/best/container/row.h
index 922c1b7..5d05a57 100644
--- a/best/container/row.h
+++ b/best/container/row.h
@@ -521,16 +521,15 @@ class row final
   }
 
   template <typename... Us>
-  constexpr auto operator<=>(const choice<Us...>& that) const
+  constexpr best::common_ord<best::order_type<Elems, Us>...> operator<=>(
+    const row<Us...>& that) const
     requires (best::comparable<Elems, Us> && ...)
   {
     using Output = best::common_ord<best::order_type<Elems, Us>...>;
-    Output result = Output::equivalent;
-
-    return indices.each([&](auto i) {
+    Output result = best::Equal;
+    indices.each([&](auto i) {
       if (result == 0) { result = get(i) <=> that.get(i); }
     });
-
     return result;
   }
 };
@@ -1345,7 +1344,7 @@ BEST_ROW_MUST_USE(scatter)
 constexpr auto row<A...>::scatter(best::tlist<Ts...> those_types,
                                   best::is_row auto&& those,
                                   best::vlist<n...>) const& {
-  return row_internal::scatter<n...>(*this, those.types, BEST_FWD(those));
+  return row_internal::scatter<n...>(*this, those_types, BEST_FWD(those));
 }
 
 template <typename... A>
@@ -1354,7 +1353,7 @@ BEST_ROW_MUST_USE(scatter)
 constexpr auto row<A...>::scatter(best::tlist<Ts...> those_types,
                                   best::is_row auto&& those,
                                   best::vlist<n...>) & {
-  return row_internal::scatter<n...>(*this, those.types, BEST_FWD(those));
+  return row_internal::scatter<n...>(*this, those_types, BEST_FWD(those));
 }
 
 template <typename... A>
@@ -1363,7 +1362,7 @@ BEST_ROW_MUST_USE(scatter)
 constexpr auto row<A...>::scatter(best::tlist<Ts...> those_types,
                                   best::is_row auto&& those,
                                   best::vlist<n...>) const&& {
-  return row_internal::scatter<n...>(BEST_MOVE(*this), those.types,
+  return row_internal::scatter<n...>(BEST_MOVE(*this), those_types,
                                      BEST_FWD(those));
 }
 
@@ -1373,7 +1372,7 @@ BEST_ROW_MUST_USE(scatter)
 constexpr auto row<A...>::scatter(best::tlist<Ts...> those_types,
                                   best::is_row auto&& those,
                                   best::vlist<n...>) && {
-  return row_internal::scatter<n...>(BEST_MOVE(*this), those.types,
+  return row_internal::scatter<n...>(BEST_MOVE(*this), those_types,
                                      BEST_FWD(those));
 }
 
-- 
2.43.0


From 062bf6e70990d03b70cb31330f9ad96c88cf3180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:09 +0000
Subject: [PATCH 054/100] fix: copy-assigning to a moved-from box

---
 best/container/box.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/best/container/box.h b/best/container/box.h
index 7327f45..28fa5ec 100644
--- a/best/container/box.h
+++ b/best/container/box.h
@@ -325,7 +325,11 @@ template <typename T, typename A>
 constexpr box<T, A>& box<T, A>::operator=(const box& that)
   requires requires(ptr p) { p.copy_assign(p); }
 {
-  if (layout() != that.layout()) {
+  if (best::equal(this, &that)) { return *this; }
+
+  // A moved-from box has no storage to assign into.
+  if (ptr_.raw() == best::ptr<T>::dangling().raw() ||
+      layout() != that.layout()) {
     this->~box();
     return *new (this) box(that);
   } else {
-- 
2.43.0


From 2a6f7ee8878227d3f0ba51b251c644744a03eaeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:56 +0000
Subject: [PATCH 055/100] fix: print the address of a box formatted with {:p}

---
 best/container/box.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/best/container/box.h b/best/container/box.h
index 28fa5ec..e477597 100644
--- a/best/container/box.h
+++ b/best/container/box.h
@@ -246,8 +246,10 @@ class BEST_RELOCATABLE box final {
 
   friend void BestFmt(auto& fmt, const box& box) {
     if constexpr (requires { fmt.format(*box); }) {
-      if (fmt.current_spec().method != 'p') { fmt.format(*box); }
-      return;
+      if (fmt.current_spec().method != 'p') {
+        fmt.format(*box);
+        return;
+      }
     }
     fmt.format(box.as_ptr());
   }
-- 
2.43.0


From a96c6742118f16c5d2e30731e87e2dbc0c8fed23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:37 +0000
Subject: [PATCH 056/100] fix: index tap results by the bound index

---
 best/func/tap.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/best/func/tap.h b/best/func/tap.h
index fd62e71..9408aa4 100644
--- a/best/func/tap.h
+++ b/best/func/tap.h
@@ -175,27 +175,27 @@ constexpr auto tap<Guard, Cb>::operator()(auto&&... args) && {
   });
 }
 template <typename Guard, typename Cb>
-constexpr auto tap<Guard, Cb>::operator[](auto&& arg) const& {
+constexpr auto tap<Guard, Cb>::operator[](auto&& idx) const& {
   return best::tap([&](auto&& arg) -> decltype(auto) {
-    return ((BEST_FWD(arg))->**this)[BEST_FWD(arg)];
+    return ((BEST_FWD(arg))->**this)[BEST_FWD(idx)];
   });
 }
 template <typename Guard, typename Cb>
-constexpr auto tap<Guard, Cb>::operator[](auto&& arg) & {
+constexpr auto tap<Guard, Cb>::operator[](auto&& idx) & {
   return best::tap([&](auto&& arg) -> decltype(auto) {
-    return ((BEST_FWD(arg))->**this)[BEST_FWD(arg)];
+    return ((BEST_FWD(arg))->**this)[BEST_FWD(idx)];
   });
 }
 template <typename Guard, typename Cb>
-constexpr auto tap<Guard, Cb>::operator[](auto&& arg) const&& {
+constexpr auto tap<Guard, Cb>::operator[](auto&& idx) const&& {
   return best::tap([&](auto&& arg) -> decltype(auto) {
-    return ((BEST_FWD(arg))->*BEST_MOVE(*this))[BEST_FWD(arg)];
+    return ((BEST_FWD(arg))->*BEST_MOVE(*this))[BEST_FWD(idx)];
   });
 }
 template <typename Guard, typename Cb>
-constexpr auto tap<Guard, Cb>::operator[](auto&& arg) && {
+constexpr auto tap<Guard, Cb>::operator[](auto&& idx) && {
   return best::tap([&](auto&& arg) -> decltype(auto) {
-    return ((BEST_FWD(arg))->*BEST_MOVE(*this))[BEST_FWD(arg)];
+    return ((BEST_FWD(arg))->*BEST_MOVE(*this))[BEST_FWD(idx)];
   });
 }
 
-- 
2.43.0


From 6a1b00be3f11f4120366777da85716f475d7e954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:41 +0000
Subject: [PATCH 057/100] fix: best::inspect() returns its argument

---
 best/func/tap.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/best/func/tap.h b/best/func/tap.h
index 9408aa4..38853d6 100644
--- a/best/func/tap.h
+++ b/best/func/tap.h
@@ -201,14 +201,14 @@ constexpr auto tap<Guard, Cb>::operator[](auto&& idx) && {
 
 constexpr auto inspect(auto&& cb) {
   return best::tap([cb = BEST_FWD(cb)](auto&& arg) -> decltype(auto) {
-    (void)best::call(cb, BEST_FWD(arg));
-    BEST_FWD(arg);
+    (void)best::call(cb, arg);
+    return BEST_FWD(arg);
   });
 }
 constexpr auto inspect(best::bind_t, auto&& cb) {
   return best::tap([&](auto&& arg) -> decltype(auto) {
-    (void)best::call(BEST_FWD(cb), BEST_FWD(arg));
-    BEST_FWD(arg);
+    (void)best::call(BEST_FWD(cb), arg);
+    return BEST_FWD(arg);
   });
 }
 }  // namespace best
-- 
2.43.0


From b34621bc2647e6c3cc6890e6f9f888c1faa3d071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:36 +0000
Subject: [PATCH 058/100] fix: ptr::try_copy_assign() destroys the destination
 as its own dynamic type

---
 best/memory/ptr.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/best/memory/ptr.h b/best/memory/ptr.h
index f9cf55a..76cde4e 100644
--- a/best/memory/ptr.h
+++ b/best/memory/ptr.h
@@ -650,7 +650,14 @@ class ptr final {
   BEST_INLINE_ALWAYS constexpr ptr
   try_copy_assign(ptr from) const {
     if (!from.can_copy()) { return nullptr; }
-    from.meta_().copy(raw(), from.raw(), true);
+    if constexpr (can_statically_copy()) {
+      from.meta_().copy(raw(), from.raw(), true);
+    } else if (raw() != from.raw()) {
+      // The two may have different dynamic types: the destination is destroyed
+      // according to its own metadata.
+      meta_().destroy(raw());
+      from.meta_().copy(raw(), from.raw(), false);
+    }
     return ptr{raw(), from.meta()};
   }
 
-- 
2.43.0


From 6cf6b7e9abe947a5d1893e93c99758f652bc253d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:42 +0000
Subject: [PATCH 059/100] fix: a best::defer whose action calls run() or throws
 runs once

---
 best/func/defer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/func/defer.h b/best/func/defer.h
index 5c87e3b..e8164c2 100644
--- a/best/func/defer.h
+++ b/best/func/defer.h
@@ -64,8 +64,8 @@ class [[nodiscard(
   /// Forcibly runs the defer. Further calls to run() will have no effect.
   constexpr void run() {
     if (!cancelled_) {
-      best::call(cb_);
       cancel();
+      best::call(cb_);
     }
   }
 
-- 
2.43.0


From a3d2c306ddac2dfaf686c785b9c7e10a4ae29453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:54 +0000
Subject: [PATCH 060/100] fix: reject missing and overflowing numbers in format
 templates

---
 best/text/internal/format_parser.h | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/best/text/internal/format_parser.h b/best/text/internal/format_parser.h
index 02ab19b..412d9bd 100644
--- a/best/text/internal/format_parser.h
+++ b/best/text/internal/format_parser.h
@@ -140,21 +140,23 @@ constexpr bool visit_template(const char* data, size_t len, Print print,
       continue;
     }
 
-    auto atoi = [&]() -> uint32_t {
-      // Parse digits for an explicit index.
+    // Parses a non-empty run of digits that fits in a uint32_t.
+    auto atoi = [&](uint32_t& out) -> bool {
       auto count = find(data, len, [](char c) { return c < '0' || c > '9'; });
       // We should find a non-digit rune, because otherwise this is an invalid
       // string.
-      if (count == -1) { -1; }
+      if (count == -1 || count == 0) { return false; }
 
-      uint32_t result = 0;
+      uint64_t result = 0;
       for (size_t i = 0; i < count; ++i) {
         result *= 10;
         result += data[i] - '0';
+        if (result > uint32_t(-1)) { return false; }
       }
       data += count;
       len -= count;
-      return result;
+      out = result;
+      return true;
     };
 
     size_t cur_idx;
@@ -162,8 +164,9 @@ constexpr bool visit_template(const char* data, size_t len, Print print,
       cur_idx = idx++;
     } else {
       // Parse digits for an explicit index.
-      cur_idx = atoi();
-      if (cur_idx == -1) { return false; }
+      uint32_t explicit_idx = 0;
+      if (!atoi(explicit_idx)) { return false; }
+      cur_idx = explicit_idx;
 
       // The next rune must be either ':' or '}'. If it's ':' we consume it.
       if (!consume_prefix(data, len, ':')) {
@@ -224,9 +227,8 @@ constexpr bool visit_template(const char* data, size_t len, Print print,
 
     // Now, try parsing a width.
     if (data[0] >= '0' && data[0] <= '9') {
-      args.width = atoi();
       // Width must be positive.
-      if (args.width == 0 || args.width == -1) { return false; }
+      if (!atoi(args.width) || args.width == 0) { return false; }
     } else {
       // Using the alignment or '0' flags requires specifying a width.
       if (have_align || args.sign_aware_padding) { return false; }
@@ -234,8 +236,9 @@ constexpr bool visit_template(const char* data, size_t len, Print print,
 
     // And then a precision.
     if (consume_prefix(data, len, '.')) {
-      args.prec = atoi();
-      if (args.prec == -1) { return false; }
+      uint32_t prec = 0;
+      if (!atoi(prec)) { return false; }
+      args.prec = prec;
     }
     if (len == 0) { return false; }
 
-- 
2.43.0


From b911528be2f15c6d4f3de2bdbb00de917a851f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:50 +0000
Subject: [PATCH 061/100] fix: honour the index and options of {n:!...} in
 format templates

---
 best/text/internal/format_parser.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/best/text/internal/format_parser.h b/best/text/internal/format_parser.h
index 412d9bd..28a6887 100644
--- a/best/text/internal/format_parser.h
+++ b/best/text/internal/format_parser.h
@@ -180,8 +180,7 @@ constexpr bool visit_template(const char* data, size_t len, Print print,
     if (consume_prefix(data, len, '!')) {
       args.pass_through = true;
       args.debug = true;
-      if (!best::call(interpolate, idx++, args)) { return false; }
-      continue;
+      if (len == 0) { return false; }
     }
 
     bool have_align = false;
-- 
2.43.0


From 566662edce0f7a25e8d49317d9e7192f44059e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:35 +0000
Subject: [PATCH 062/100] fix: validate format templates without reading past
 the queries or calling a null method

---
 best/text/internal/format_parser.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/best/text/internal/format_parser.h b/best/text/internal/format_parser.h
index 28a6887..f8db5a2 100644
--- a/best/text/internal/format_parser.h
+++ b/best/text/internal/format_parser.h
@@ -266,13 +266,15 @@ constexpr bool validate(best::span<const typename spec::query> queries,
   return format_internal::visit_template<spec>(
     templ.data().raw(), templ.size() - 1, nullptr,
     [&](size_t n, const spec& s) {
-      if (n > queries.size()) { return false; }
+      if (n >= queries.size()) { return false; }
       auto& q = queries[n];
 
       if (q.requires_debug && !s.debug) { return false; }
       if (!q.supports_width && s.width > 0) { return false; }
       if (!q.supports_prec && s.prec) { return false; }
-      if (s.method && !q.uses_method(*s.method)) { return false; }
+      if (s.method && !(q.uses_method && q.uses_method(*s.method))) {
+        return false;
+      }
       return true;
     });
 }
-- 
2.43.0


From db4e05c80aa80f02048c7133d376f860436b2591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:33 +0000
Subject: [PATCH 063/100] fix: print nothing of a string formatted with
 precision zero

---
 best/text/internal/format_impls.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/best/text/internal/format_impls.h b/best/text/internal/format_impls.h
index 765efc2..de10ae5 100644
--- a/best/text/internal/format_impls.h
+++ b/best/text/internal/format_impls.h
@@ -217,11 +217,9 @@ void BestFmt(auto& fmt, const best::is_string auto& s) {
     }
 
     if (auto prec = spec.prec) {
-      size_t max = *prec;
       auto runes = str.runes();
-      for (auto r : runes) {
-        (void)r;
-        if (--max == 0) { break; }
+      for (size_t i = 0; i < *prec; ++i) {
+        if (!runes.next()) { break; }
       }
       str = str[{.end = str.size() - runes->rest().size()}];
     }
-- 
2.43.0


From 54950a0eca0677a8dfc426d53bdb857d76e33674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:39 +0000
Subject: [PATCH 064/100] fix: indent multi-line strings without dropping text
 or repeating newlines

---
 best/text/format.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/best/text/format.h b/best/text/format.h
index 02ecd97..85750c5 100644
--- a/best/text/format.h
+++ b/best/text/format.h
@@ -435,12 +435,12 @@ void formatter::write(const best::is_string auto& string) {
     size_t watermark = 0;
     for (auto [idx, r] : string.rune_indices()) {
       if (r != '\n') { continue; }
-      if (idx != watermark + 1 && idx > 0) {
+      if (idx != watermark) {
         update_indent();
-        out_->push_lossy(string[{.start = watermark, .end = idx - 1}]);
+        out_->push_lossy(string[{.start = watermark, .end = idx}]);
       }
 
-      watermark = idx;
+      watermark = idx + 1;
       out_->push_lossy("\n");
       at_new_line_ = true;
     }
-- 
2.43.0


From 14baae7c709ad093864f3d6fe7a657f2ceaaccce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:44 +0000
Subject: [PATCH 065/100] fix: finishing a formatter block makes its destructor
 a no-op

---
 best/text/format.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/best/text/format.cc b/best/text/format.cc
index 3f8e7ab..ccce376 100644
--- a/best/text/format.cc
+++ b/best/text/format.cc
@@ -71,6 +71,7 @@ void formatter::block::finish() {
   if (uses_indent_ && entries_ > 0) { fmt_->write(",\n"); }
   if (uses_indent_) { --fmt_->indent_; }
   fmt_->write(config_.close);
+  fmt_ = nullptr;
 }
 
 void formatter::block::advise_size(size_t n) {
-- 
2.43.0


From ccb77d9ddbd2ca03e005878d8a026d801566660f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:26 +0000
Subject: [PATCH 066/100] fix: escape control runes as hexadecimal

---
 best/text/rune.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/text/rune.h b/best/text/rune.h
index 2c2760d..118df4a 100644
--- a/best/text/rune.h
+++ b/best/text/rune.h
@@ -456,7 +456,7 @@ void BestFmt(auto& fmt, const decltype(rune().escaped())& esc) {
   }
 
   if (esc._private.is_ascii_control()) {  // TODO: unicode is_control
-    fmt.format("\\x{:02}", esc._private.to_int());
+    fmt.format("\\x{:02x}", esc._private.to_int());
   } else if (esc._private == 0x200d) {
     // Handle the ZWJ explicitly for now, since it appears in some of our tests.
     fmt.write("\\u200D");
-- 
2.43.0


From 8d0e16c245822e92990ad5751fb27154fb6ec97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:37 +0000
Subject: [PATCH 067/100] fix: make text::consume_suffix() compile

---
 best/text/str.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/best/text/str.h b/best/text/str.h
index 25d4478..3c03b43 100644
--- a/best/text/str.h
+++ b/best/text/str.h
@@ -360,21 +360,21 @@ class text final {
   }
   constexpr bool consume_suffix(rune r) requires (About.is_self_syncing)
   {
-    auto prefix = consume_suffix(r);
+    auto prefix = strip_suffix(r);
     if (prefix) { *this = *prefix; }
     return prefix.has_value();
   }
   constexpr bool consume_suffix(const best::is_string auto& s)
     requires (About.is_self_syncing)
   {
-    auto prefix = consume_suffix(s);
+    auto prefix = strip_suffix(s);
     if (prefix) { *this = *prefix; }
     return prefix.has_value();
   }
   constexpr bool consume_suffix(best::callable<bool(rune)> auto&& p)
     requires (About.is_self_syncing)
   {
-    auto prefix = consume_suffix(BEST_FWD(p));
+    auto prefix = strip_suffix(BEST_FWD(p));
     if (prefix) { *this = *prefix; }
     return prefix.has_value();
   }
-- 
2.43.0


From 9d23437f266752648212202cd1c0bb35bbc1e326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:31 +0000
Subject: [PATCH 068/100] fix: searching for a rune the encoding lacks finds
 nothing

---
 best/text/str.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/best/text/str.h b/best/text/str.h
index 3c03b43..3a00cc2 100644
--- a/best/text/str.h
+++ b/best/text/str.h
@@ -1178,6 +1178,7 @@ constexpr std::array<size_t, 2> splits(best::pretext<E> haystack,
                                        best::rune needle) {
   code<E> buf[E::About.max_codes_per_rune];
   auto encoded = needle.encode(buf, haystack.enc());
+  if (!encoded.ok()) { return {-1, -1}; }
   return str_internal::splits(haystack,
                               best::pretext<E>(*encoded.ok(), haystack.enc()));
 }
@@ -1187,6 +1188,7 @@ constexpr std::array<size_t, 2> rsplits(best::pretext<E> haystack,
                                         best::rune needle) {
   code<E> buf[E::About.max_codes_per_rune];
   auto encoded = needle.encode(buf, haystack.enc());
+  if (!encoded.ok()) { return {-1, -1}; }
   return str_internal::rsplits(haystack,
                                best::pretext<E>(*encoded.ok(), haystack.enc()));
 }
-- 
2.43.0


From 3ad702f1b750d1874c6e626cec571490919e076d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:19 +0000
Subject: [PATCH 069/100] fix: order strings of non-lexicographic encodings by
 rune

---
 best/text/str.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/text/str.h b/best/text/str.h
index 3a00cc2..7f03b51 100644
--- a/best/text/str.h
+++ b/best/text/str.h
@@ -1769,7 +1769,7 @@ constexpr best::ord pretext<E>::operator<=>(
   const best::is_string auto& str) const {
   if constexpr (best::is_pretext<best::as_auto<decltype(str)>>) {
     if constexpr (best::bytes_internal::byte_comparable<code> &&
-                  About.is_self_syncing &&
+                  About.is_self_syncing && About.is_lexicographic &&
                   best::same_encoding_code<pretext, decltype(str)>()) {
       return span_ <=> str.as_codes();
     }
-- 
2.43.0


From def016b8e0702cf92b13aec9caefacab76293996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:08 +0000
Subject: [PATCH 070/100] fix: a string is greater than a rune it properly
 starts with

---
 best/text/str.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/text/str.h b/best/text/str.h
index 7f03b51..31b7269 100644
--- a/best/text/str.h
+++ b/best/text/str.h
@@ -1761,7 +1761,7 @@ constexpr best::ord pretext<E>::operator<=>(rune r) const {
   auto iter = runes();
   if (auto result = *iter.next() <=> r; result != 0) { return result; }
 
-  return 0 <=> iter->rest().size();
+  return iter->rest().size() <=> 0;
 }
 
 template <typename E>
-- 
2.43.0


From 643eb057d6c870e0d7f54fc21023e6f2b2ce3948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:59 +0000
Subject: [PATCH 071/100] fix: compare code units only between strings of the
 same encoding

---
 best/text/str.h | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/best/text/str.h b/best/text/str.h
index 31b7269..a97b289 100644
--- a/best/text/str.h
+++ b/best/text/str.h
@@ -1094,8 +1094,7 @@ constexpr std::array<size_t, 2> splits(best::pretext<N> haystack,
 
   if constexpr (best::bytes_internal::byte_comparable<code<H>> &&
                 haystack.About.is_self_syncing &&
-                best::same_encoding_code<decltype(haystack),
-                                         decltype(needle)>()) {
+                best::same<N, H>) {
     auto found = haystack.as_codes().find(needle.as_codes());
     if (!found) { return {-1, -1}; }
     return {{*found, *found + needle.size()}};
@@ -1137,8 +1136,7 @@ constexpr std::array<size_t, 2> rsplits(best::pretext<N> haystack,
 
   if constexpr (best::bytes_internal::byte_comparable<code<H>> &&
                 haystack.About.is_self_syncing &&
-                best::same_encoding_code<decltype(haystack),
-                                         decltype(needle)>()) {
+                best::same<N, H>) {
     auto found = haystack.as_codes().rfind(needle.as_codes());
     if (!found) { return {-1, -1}; }
     return {{*found, *found + needle.size()}};
@@ -1556,7 +1554,7 @@ template <typename E>
 constexpr best::option<pretext<E>> pretext<E>::strip_prefix(
   const best::is_string auto& s) const {
   if constexpr (best::is_pretext<best::as_auto<decltype(s)>>) {
-    if constexpr (best::same_encoding_code<pretext, decltype(s)>() &&
+    if constexpr (best::same<E, best::encoding_type<decltype(s)>> &&
                   About.is_self_syncing) {
       auto rest = span_.strip_prefix(s.as_codes());
       BEST_GUARD(rest);
@@ -1581,7 +1579,7 @@ constexpr best::option<pretext<E>> pretext<E>::strip_suffix(
   const best::is_string auto& s) const requires (About.is_self_syncing)
 {
   if constexpr (best::is_pretext<best::as_auto<decltype(s)>>) {
-    if constexpr (best::same_encoding_code<pretext, decltype(s)>() /*&&
+    if constexpr (best::same<E, best::encoding_type<decltype(s)>> /*&&
                   About.is_self_syncing*/) {
       auto rest = span_.strip_suffix(s.as_codes());
       BEST_GUARD(rest);
@@ -1770,7 +1768,7 @@ constexpr best::ord pretext<E>::operator<=>(
   if constexpr (best::is_pretext<best::as_auto<decltype(str)>>) {
     if constexpr (best::bytes_internal::byte_comparable<code> &&
                   About.is_self_syncing && About.is_lexicographic &&
-                  best::same_encoding_code<pretext, decltype(str)>()) {
+                  best::same<E, best::encoding_type<decltype(str)>>) {
       return span_ <=> str.as_codes();
     }
 
-- 
2.43.0


From ee637bbc9ac72959cd98834caa4e7ee7741ea728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:48 +0000
Subject: [PATCH 072/100] fix: find every match of a needle in another encoding

---
 best/text/str.h | 48 +++++++++---------------------------------------
 1 file changed, 9 insertions(+), 39 deletions(-)

diff --git a/best/text/str.h b/best/text/str.h
index a97b289..be2be59 100644
--- a/best/text/str.h
+++ b/best/text/str.h
@@ -1101,29 +1101,14 @@ constexpr std::array<size_t, 2> splits(best::pretext<N> haystack,
   }
 
   auto runes = haystack.try_runes();
-  auto needle_suf = needle.runes();
-  auto first = *needle_suf.next();
-
   while (!runes->rest().is_empty()) {
-    // We need to know what index we were at before we find `first` in
-    // runes, since that's the end of the prefix half.
-    size_t before = 0;
-    bool found = false;
-    while (auto next = runes.next()) {
-      if (!next->ok()) { return {-1, -1}; }
-      if (*next->ok() == first) {
-        found = true;
-        break;
-      }
-      before = haystack.size() - runes->rest().size();
-    }
-    if (!found) { break; }
-
     // Check if we found what we're looking for.
     // TODO: Avoid strip_prefix here, since that instantiates option<pretext>.
-    if (auto suf = runes->rest().strip_prefix(needle_suf->rest())) {
-      return {before, haystack.size() - suf->size()};
+    auto rest = runes->rest();
+    if (auto suf = rest.strip_prefix(needle)) {
+      return {haystack.size() - rest.size(), haystack.size() - suf->size()};
     }
+    if (!runes.next()->ok()) { break; }
   }
 
   return {-1, -1};
@@ -1143,29 +1128,14 @@ constexpr std::array<size_t, 2> rsplits(best::pretext<N> haystack,
   }
 
   auto runes = haystack.try_runes();
-  auto needle_pre = needle.runes();
-  auto last = *needle_pre.next_back();
-
   while (!runes->rest().is_empty()) {
-    // We need to know what index we were at before we find `first` in
-    // runes, since that's the end of the prefix half.
-    size_t before = 0;
-    bool found = false;
-    while (auto next = runes.next_back()) {
-      if (!next->ok()) { return {-1, -1}; }
-      if (*next->ok() == last) {
-        found = true;
-        break;
-      }
-      before = runes->rest().size();
-    }
-    if (!found) { break; }
-
     // Check if we found what we're looking for.
-    // TODO: Avoid strip_prefix here, since that instantiates option<pretext>.
-    if (auto suf = runes->rest().strip_suffix(needle_pre->rest())) {
-      return {suf->size(), before};
+    // TODO: Avoid strip_suffix here, since that instantiates option<pretext>.
+    auto rest = runes->rest();
+    if (auto pre = rest.strip_suffix(needle)) {
+      return {pre->size(), rest.size()};
     }
+    if (!runes.next_back()->ok()) { break; }
   }
 
   return {-1, -1};
-- 
2.43.0


From 1c63cd207057f51bb2af612f924519ef3e8f1043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:34 +0000
Subject: [PATCH 073/100] fix: end the last piece of rsplit_once(predicate) at
 the end of the string

---
 best/text/str.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/text/str.h b/best/text/str.h
index be2be59..41a2f1f 100644
--- a/best/text/str.h
+++ b/best/text/str.h
@@ -1179,7 +1179,7 @@ constexpr std::array<size_t, 2> splits(best::pretext<E> haystack,
 template <typename E>
 constexpr std::array<size_t, 2> rsplits(
   best::pretext<E> haystack, best::callable<bool(rune)> auto&& pred) {
-  size_t before = 0;
+  size_t before = haystack.size();
   auto runes = haystack.try_runes();
   while (auto next = runes.next_back()) {
     if (!*next) { break; }
-- 
2.43.0


From 7efa4a3ebca928c3485557aff49e1645addcf166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:18 +0000
Subject: [PATCH 074/100] fix: an empty needle matches nothing but the start of
 a string

---
 best/text/str.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/best/text/str.h b/best/text/str.h
index 41a2f1f..56000f1 100644
--- a/best/text/str.h
+++ b/best/text/str.h
@@ -1040,7 +1040,9 @@ class pretext<E>::split_impl final {
 
   constexpr best::option<pretext> next() {
     if (done_) { return best::none; }
-    if (auto found = text_.split_once(*pat_)) {
+    // An empty separator would match forever without consuming anything.
+    if (auto found = text_.split_once(*pat_);
+        found && found->first().size() + found->second().size() < text_.size()) {
       text_ = found->second();
       return found->first();
     }
@@ -1052,7 +1054,9 @@ class pretext<E>::split_impl final {
 
   constexpr best::option<pretext> next_back() {
     if (done_) { return best::none; }
-    if (auto found = text_.rsplit_once(*pat_)) {
+    // An empty separator would match forever without consuming anything.
+    if (auto found = text_.rsplit_once(*pat_);
+        found && found->first().size() + found->second().size() < text_.size()) {
       text_ = found->first();
       return found->second();
     }
@@ -1090,7 +1094,7 @@ namespace str_internal {
 template <typename N, typename H>
 constexpr std::array<size_t, 2> splits(best::pretext<N> haystack,
                                        best::pretext<H> needle) {
-  if (needle.is_empty()) { return {0, haystack.size()}; }
+  if (needle.is_empty()) { return {0, 0}; }
 
   if constexpr (best::bytes_internal::byte_comparable<code<H>> &&
                 haystack.About.is_self_syncing &&
@@ -1117,7 +1121,7 @@ constexpr std::array<size_t, 2> splits(best::pretext<N> haystack,
 template <typename N, typename H>
 constexpr std::array<size_t, 2> rsplits(best::pretext<N> haystack,
                                         best::pretext<H> needle) {
-  if (needle.is_empty()) { return {0, haystack.size()}; }
+  if (needle.is_empty()) { return {0, 0}; }
 
   if constexpr (best::bytes_internal::byte_comparable<code<H>> &&
                 haystack.About.is_self_syncing &&
-- 
2.43.0


From 6232a8e9b792f011df1d2b870d3195cd285985a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:03 +0000
Subject: [PATCH 075/100] fix: keep the predicate given to a string's split()
 alive

---
 best/text/str.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/best/text/str.h b/best/text/str.h
index 56000f1..ea94887 100644
--- a/best/text/str.h
+++ b/best/text/str.h
@@ -1373,7 +1373,7 @@ constexpr auto text<E>::split(const best::is_string auto& needle) const {
 }
 template <typename E>
 constexpr auto text<E>::split(best::callable<bool(rune)> auto&& pred) const {
-  return text_.split(BEST_MOVE(pred)).map([](auto pre) {
+  return text_.split(BEST_FWD(pred)).map([](auto pre) {
     return text{unsafe("valid because text_ was already valid"), pre};
   });
 }
@@ -1712,8 +1712,8 @@ constexpr auto pretext<E>::split(const best::is_string auto& needle) const {
 }
 template <typename E>
 constexpr auto pretext<E>::split(best::callable<bool(rune)> auto&& pred) const {
-  return split_iter<decltype(pred)>(
-    split_impl<decltype(pred)>(BEST_FWD(pred), *this));
+  using P = best::as_auto<decltype(pred)>;
+  return split_iter<P>(split_impl<P>(BEST_FWD(pred), *this));
 }
 
 template <typename E>
-- 
2.43.0


From 481dab3bff6ca725e16f47f5428779ab100e529a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:13 +0000
Subject: [PATCH 076/100] fix: append a string buffer to itself without reading
 freed memory

---
 best/text/strbuf.h | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/best/text/strbuf.h b/best/text/strbuf.h
index 0b47589..a403358 100644
--- a/best/text/strbuf.h
+++ b/best/text/strbuf.h
@@ -346,6 +346,12 @@ class textbuf final {
   }
 
  private:
+  // Whether `that` is a view of this very string, which growing it would
+  // invalidate.
+  bool is_within(const best::is_string auto& that) const {
+    return best::data(that) >= data() && best::data(that) < data() + size();
+  }
+
   buf buf_;
   [[no_unique_address]] encoding enc_;
 };
@@ -392,6 +398,12 @@ bool textbuf<E, A>::push(const best::is_string auto& that) {
 
   if constexpr (best::is_text<decltype(that)> ||
                 best::is_pretext<decltype(that)>) {
+    if constexpr (best::same_encoding_code<textbuf, decltype(that)>()) {
+      if (is_within(that)) {
+        return push(best::pretext(buf(best::span<const code>(that)).as_span(), that.enc()));
+      }
+    }
+
     size_t watermark = size();
     for (auto r : that.runes()) {
       reserve(About.max_codes_per_rune);
@@ -435,6 +447,13 @@ void textbuf<E, A>::push_lossy(const best::is_string auto& that) {
 
   if constexpr (best::is_text<decltype(that)> ||
                 best::is_pretext<decltype(that)>) {
+    if constexpr (best::same_encoding_code<textbuf, decltype(that)>()) {
+      if (is_within(that)) {
+        push_lossy(best::pretext(buf(best::span<const code>(that)).as_span(), that.enc()));
+        return;
+      }
+    }
+
     for (auto r : that.runes()) {
       reserve(About.max_codes_per_rune);
       best::span<code> buf = {buf_.data() + buf_.size(),
-- 
2.43.0


From f3c8b9b222dd4b66bdc68a00ccb4140dfe3c38d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:28 +0000
Subject: [PATCH 077/100] fix: do not read short flags from arguments that
 start with no dash

---
 best/cli/parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/cli/parser.cc b/best/cli/parser.cc
index 257eb2a..3ed4f61 100644
--- a/best/cli/parser.cc
+++ b/best/cli/parser.cc
@@ -384,7 +384,7 @@ best::result<void, cli::error> cli::parse(
     ctx.cur = ctx.sub;
     if (!done_with_flags) {
       bool is_flag = next->starts_with("-");
-      bool is_letter = !next->starts_with("--");
+      bool is_letter = is_flag && !next->starts_with("--");
 
       if (next == "--") {
         done_with_flags = true;
-- 
2.43.0


From 1e19ca317386dad3ef8473d7871a8a6340c3223b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:41 +0000
Subject: [PATCH 078/100] fix: do not ignore an argument that is a lone dash or
 an empty flag

---
 best/cli/parser.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/best/cli/parser.cc b/best/cli/parser.cc
index 3ed4f61..c3d3cb5 100644
--- a/best/cli/parser.cc
+++ b/best/cli/parser.cc
@@ -383,7 +383,8 @@ best::result<void, cli::error> cli::parse(
   while (auto next = iter.next()) {
     ctx.cur = ctx.sub;
     if (!done_with_flags) {
-      bool is_flag = next->starts_with("-");
+      // A lone - is conventionally a positional argument.
+      bool is_flag = next->starts_with("-") && next != "-";
       bool is_letter = is_flag && !next->starts_with("--");
 
       if (next == "--") {
@@ -501,8 +502,6 @@ best::result<void, cli::error> cli::parse(
           BEST_GUARD(f.parse(ctx, ""));
           flag = runes->rest();
         }
-
-        if (flag.is_empty()) { goto again; }
       }
 
       ctx.token = *next;
-- 
2.43.0


From 39b2164b54f9270d8423e1dd73872014c63ab432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:52 +0000
Subject: [PATCH 079/100] fix: look nested groups up in the group that contains
 them

---
 best/cli/parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/cli/parser.cc b/best/cli/parser.cc
index c3d3cb5..768cbf1 100644
--- a/best/cli/parser.cc
+++ b/best/cli/parser.cc
@@ -439,7 +439,7 @@ best::result<void, cli::error> cli::parse(
         }
 
         // And nest.
-        ctx.cur = ctx.sub->impl_->groups[idx].child;
+        ctx.cur = ctx.cur->impl_->groups[idx].child;
         return best::ok();
       };
 
-- 
2.43.0


From 9c77ab71556d27ce93d0aa4181b8a5d122c48774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:02 +0000
Subject: [PATCH 080/100] fix: start a subcommand at its first positional
 argument

---
 best/cli/parser.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/best/cli/parser.cc b/best/cli/parser.cc
index 768cbf1..ad16220 100644
--- a/best/cli/parser.cc
+++ b/best/cli/parser.cc
@@ -565,6 +565,7 @@ best::result<void, cli::error> cli::parse(
     // Look for a relevant subcommand.
     if (auto e = ctx.cur->impl_->find_sub(*next)) {
       ctx.sub = ctx.cur->impl_->subs[e->idx].child;
+      ctx.next_positional = 0;
       goto again;
     }
 
-- 
2.43.0


From 4cb3f8f2d528fa89846df18acc95a7228ac792e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:26 +0000
Subject: [PATCH 081/100] fix: accept either of _ and - in the name of a flag
 or subcommand

---
 best/cli/parser.cc | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/best/cli/parser.cc b/best/cli/parser.cc
index ad16220..a6b71f8 100644
--- a/best/cli/parser.cc
+++ b/best/cli/parser.cc
@@ -93,16 +93,28 @@ struct cli::impl {
   /// Pointers to all required flags.
   std::unordered_map<const flag*, best::strbuf> required;
 
+  /// Names are insensitive to which of `_` or `-` is used as a separator; keys
+  /// only use `-`.
+  static best::vec<char> normalized(best::pretext<wtf8> tok) {
+    best::vec<char> key(best::span<const char>{tok});
+    for (char& c : key) {
+      if (c == '_') { c = '-'; }
+    }
+    return key;
+  }
+
   best::option<const entry&> find_flag(best::pretext<wtf8> tok) const {
+    auto key = normalized(tok);
     return sorted_flags.as_span()
-      .bisect(tok, &entry::key)
+      .bisect(best::pretext<wtf8>(key.as_span()), &entry::key)
       .ok()
       .map([&](size_t idx) -> auto&& { return sorted_flags[idx]; });
   }
 
   best::option<const entry&> find_sub(best::pretext<wtf8> tok) const {
+    auto key = normalized(tok);
     return sorted_subs.as_span()
-      .bisect(tok, &entry::key)
+      .bisect(best::pretext<wtf8>(key.as_span()), &entry::key)
       .ok()
       .map([&](size_t idx) -> auto&& { return sorted_subs[idx]; });
   }
-- 
2.43.0


From 575b808a58b86e6fa5099d8b245921b094aa42b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:57 +0000
Subject: [PATCH 082/100] fix: report the missing required flags of a
 subcommand

---
 best/cli/parser.cc | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/best/cli/parser.cc b/best/cli/parser.cc
index a6b71f8..2b98b4f 100644
--- a/best/cli/parser.cc
+++ b/best/cli/parser.cc
@@ -595,11 +595,14 @@ best::result<void, cli::error> cli::parse(
   again:;
   }
 
-  for (const auto& [req, name] : impl_->required) {
-    if (!seen.contains(req)) {
-      return best::err(
-        best::format("{0}: fatal: missing flag --{1}", ctx.exe, name),
-        /*is_fatal=*/true);
+  // Subcommands have required flags of their own.
+  for (auto* impl = ctx.sub->impl_.get(); impl; impl = impl->parent) {
+    for (const auto& [req, name] : impl->required) {
+      if (!seen.contains(req)) {
+        return best::err(
+          best::format("{0}: fatal: missing flag --{1}", ctx.exe, name),
+          /*is_fatal=*/true);
+      }
     }
   }
 
-- 
2.43.0


From 850471b636e3410ff474306e9c94899c7ce39fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:08 +0000
Subject: [PATCH 083/100] fix: report missing required positional arguments

---
 best/cli/parser.cc | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/best/cli/parser.cc b/best/cli/parser.cc
index 2b98b4f..6b636ff 100644
--- a/best/cli/parser.cc
+++ b/best/cli/parser.cc
@@ -391,6 +391,20 @@ best::result<void, cli::error> cli::parse(
   // us to generate errors for e.g. flag duplication or missing flags.
   std::unordered_set<const flag*> seen;
 
+  // Checks that no positional that is yet to be parsed is required.
+  auto check_positionals = [&]() -> best::result<void, error> {
+    const auto& args = ctx.sub->impl_->args;
+    for (size_t i = ctx.next_positional; i < args.size(); ++i) {
+      if (args[i].get_count() != Required) { continue; }
+      return best::err(
+        best::format("{0}: fatal: missing argument <{1}>", ctx.exe,
+                     args[i].tag->name.is_empty() ? args[i].about.field
+                                                  : args[i].tag->name),
+        /*is_fatal=*/true);
+    }
+    return best::ok();
+  };
+
   auto iter = argv.iter();
   while (auto next = iter.next()) {
     ctx.cur = ctx.sub;
@@ -576,6 +590,7 @@ best::result<void, cli::error> cli::parse(
 
     // Look for a relevant subcommand.
     if (auto e = ctx.cur->impl_->find_sub(*next)) {
+      BEST_GUARD(check_positionals());
       ctx.sub = ctx.cur->impl_->subs[e->idx].child;
       ctx.next_positional = 0;
       goto again;
@@ -595,6 +610,8 @@ best::result<void, cli::error> cli::parse(
   again:;
   }
 
+  BEST_GUARD(check_positionals());
+
   // Subcommands have required flags of their own.
   for (auto* impl = ctx.sub->impl_.get(); impl; impl = impl->parent) {
     for (const auto& [req, name] : impl->required) {
-- 
2.43.0


From e4e00835dd27adff93fc578dd39ade8d912480d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:26 +0000
Subject: [PATCH 084/100] fix: say which positional argument could not be
 parsed, not a stale token

---
 best/cli/parser.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/best/cli/parser.h b/best/cli/parser.h
index e44e7a5..b0d1dd7 100644
--- a/best/cli/parser.h
+++ b/best/cli/parser.h
@@ -191,9 +191,10 @@ void cli::type_erase_field(auto f) {
         auto result = BestFromArgv(argv, Downcast(ctx.args));
         if (result) { return best::ok(); }
 
-        return best::err(best::format("{}: fatal: could not parse argument: {}",
-                                      ctx.exe, ctx.token, *result.err()),
-                         /*is_fatal=*/true);
+        return best::err(
+          best::format("{}: fatal: could not parse argument {:?}: {}", ctx.exe,
+                       argv, *result.err()),
+          /*is_fatal=*/true);
       });
   }
 }
-- 
2.43.0


From dfd917112223f35991287378800f510eafe017da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:43 +0000
Subject: [PATCH 085/100] fix: accept groups that have a letter but no name

---
 best/cli/parser.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/best/cli/parser.h b/best/cli/parser.h
index b0d1dd7..a3d025b 100644
--- a/best/cli/parser.h
+++ b/best/cli/parser.h
@@ -146,7 +146,9 @@ void cli::type_erase_field(auto f) {
       about.names.push(best::format("{}", group.letter), group.vis);
     }
 
-    about.names.push(best::strbuf(group.name), group.vis);
+    if (group.letter == '\0' || !group.name.is_empty()) {
+      about.names.push(best::strbuf(group.name), group.vis);
+    }
   }
 
   aliases.each([&](auto alias) {
-- 
2.43.0


From 0c39c4b540489180b21a6ec7fb55f8400d6e9cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:07 +0000
Subject: [PATCH 086/100] fix: show the help of a nested group rather than of
 its parent

---
 best/cli/parser.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/best/cli/parser.cc b/best/cli/parser.cc
index 6b636ff..12f36ec 100644
--- a/best/cli/parser.cc
+++ b/best/cli/parser.cc
@@ -283,6 +283,8 @@ void cli::init() {
 
         if (entry.magic == entry.Ordinary) {
           entry.idx += entry.is_group ? group_offset : flag_offset;
+        } else if (entry.idx != -1) {
+          entry.idx += group_offset;  // The help of a nested group.
         } else {
           entry.idx = idx;
         }
-- 
2.43.0


From b53d0f45a0913143b468c1afc34102997a0370bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:36 +0000
Subject: [PATCH 087/100] fix: let end take priority over including_end when
 iterating a range

---
 best/iter/bounds.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/best/iter/bounds.h b/best/iter/bounds.h
index 35eadb4..a7db89e 100644
--- a/best/iter/bounds.h
+++ b/best/iter/bounds.h
@@ -294,8 +294,8 @@ template <typename Int>
 constexpr auto int_range<Int>::iter() const {
   // Deal with a funny special case: we need to yield every integer. This
   // happens when start == min and end/count is not set or including_end is
-  // Max.
-  if (start == Min && ((including_end && *including_end == Max) ||
+  // Max (and end, which takes priority, is not set).
+  if (start == Min && ((!end && including_end && *including_end == Max) ||
                        (!including_end && !end && !count))) {
     return best::iter(
       iter_impl{.start_ = Min, .count_ = Int(-1), .plus_one_ = true});
-- 
2.43.0


From c0470a58c175085086a55c3dfbbe49177a4d3532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:10 +0000
Subject: [PATCH 088/100] fix: let a textbuf keep the allocator passed to
 from(), and expose it

---
 best/text/strbuf.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/best/text/strbuf.h b/best/text/strbuf.h
index a403358..ae48664 100644
--- a/best/text/strbuf.h
+++ b/best/text/strbuf.h
@@ -215,8 +215,8 @@ class textbuf final {
   /// # `textbuf::allocator()`
   ///
   /// Returns a reference to his vector's allocator.
-  best::as_ref<const alloc> allocator() const { return buf_.alloc(); }
-  best::as_ref<alloc> allocator() { return buf_.alloc(); }
+  best::as_ref<const alloc> allocator() const { return buf_.allocator(); }
+  best::as_ref<alloc> allocator() { return buf_.allocator(); }
 
   /// # `textbuf::enc()`
   ///
@@ -367,7 +367,7 @@ best::option<textbuf<E, A>> textbuf<E, A>::from(alloc alloc, pretext t) {
   auto validated = text::from(t);
   BEST_GUARD(validated);
 
-  return textbuf(best::unsafe("just did validation above"), *validated);
+  return textbuf(std::move(alloc), *validated);
 }
 
 template <typename E, allocator A>
-- 
2.43.0


From b273cbcab8a9f8ef73d1d92cdee4054c4e5794ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:32 +0000
Subject: [PATCH 089/100] fix: do not let aliases shift the table of error
 names

---
 best/io/errnos.inc | 171 ++++++++++++++++++++++-----------------------
 best/io/errnos.py  |   3 +
 2 files changed, 88 insertions(+), 86 deletions(-)

diff --git a/best/io/errnos.inc b/best/io/errnos.inc
index 6dd8e52..a45edc9 100644
--- a/best/io/errnos.inc
+++ b/best/io/errnos.inc
@@ -10,53 +10,53 @@
 /*0009*/ e{"EBADF", "Bad file descriptor"},
 /*0010*/ e{"ECHILD", "No child processes"},
 /*0011*/ e{"EAGAIN", "Resource temporarily unavailable"},
-/*0012*/ e{"EWOULDBLOCK", "Resource temporarily unavailable"},
-/*0013*/ e{"ENOMEM", "Cannot allocate memory"},
-/*0014*/ e{"EACCES", "Permission denied"},
-/*0015*/ e{"EFAULT", "Bad address"},
-/*0016*/ e{"ENOTBLK", "Block device required"},
-/*0017*/ e{"EBUSY", "Device or resource busy"},
-/*0018*/ e{"EEXIST", "File exists"},
-/*0019*/ e{"EXDEV", "Invalid cross-device link"},
-/*0020*/ e{"ENODEV", "No such device"},
-/*0021*/ e{"ENOTDIR", "Not a directory"},
-/*0022*/ e{"EISDIR", "Is a directory"},
-/*0023*/ e{"EINVAL", "Invalid argument"},
-/*0024*/ e{"ENFILE", "Too many open files in system"},
-/*0025*/ e{"EMFILE", "Too many open files"},
-/*0026*/ e{"ENOTTY", "Inappropriate ioctl for device"},
-/*0027*/ e{"ETXTBSY", "Text file busy"},
-/*0028*/ e{"EFBIG", "File too large"},
-/*0029*/ e{"ENOSPC", "No space left on device"},
-/*0030*/ e{"ESPIPE", "Illegal seek"},
-/*0031*/ e{"EROFS", "Read-only file system"},
-/*0032*/ e{"EMLINK", "Too many links"},
-/*0033*/ e{"EPIPE", "Broken pipe"},
-/*0034*/ e{"EDOM", "Numerical argument out of domain"},
-/*0035*/ e{"ERANGE", "Numerical result out of range"},
-/*0036*/ e{"EDEADLK", "Resource deadlock avoided"},
-/*0037*/ e{"EDEADLOCK", "Resource deadlock avoided"},
-/*0038*/ e{"ENAMETOOLONG", "File name too long"},
-/*0039*/ e{"ENOLCK", "No locks available"},
-/*0040*/ e{"ENOSYS", "Function not implemented"},
-/*0041*/ e{"ENOTEMPTY", "Directory not empty"},
-/*0042*/ e{"ELOOP", "Too many levels of symbolic links"},
-/*0043*/ e{"ENOMSG", "No message of desired type"},
-/*0044*/ e{"EIDRM", "Identifier removed"},
-/*0045*/ e{"ECHRNG", "Channel number out of range"},
-/*0046*/ e{"EL2NSYNC", "Level 2 not synchronized"},
-/*0047*/ e{"EL3HLT", "Level 3 halted"},
-/*0048*/ e{"EL3RST", "Level 3 reset"},
-/*0049*/ e{"ELNRNG", "Link number out of range"},
-/*0050*/ e{"EUNATCH", "Protocol driver not attached"},
-/*0051*/ e{"ENOCSI", "No CSI structure available"},
-/*0052*/ e{"EL2HLT", "Level 2 halted"},
-/*0053*/ e{"EBADE", "Invalid exchange"},
-/*0054*/ e{"EBADR", "Invalid request descriptor"},
-/*0055*/ e{"EXFULL", "Exchange full"},
-/*0056*/ e{"ENOANO", "No anode"},
-/*0057*/ e{"EBADRQC", "Invalid request code"},
-/*0058*/ e{"EBADSLT", "Invalid slot"},
+/*0012*/ e{"ENOMEM", "Cannot allocate memory"},
+/*0013*/ e{"EACCES", "Permission denied"},
+/*0014*/ e{"EFAULT", "Bad address"},
+/*0015*/ e{"ENOTBLK", "Block device required"},
+/*0016*/ e{"EBUSY", "Device or resource busy"},
+/*0017*/ e{"EEXIST", "File exists"},
+/*0018*/ e{"EXDEV", "Invalid cross-device link"},
+/*0019*/ e{"ENODEV", "No such device"},
+/*0020*/ e{"ENOTDIR", "Not a directory"},
+/*0021*/ e{"EISDIR", "Is a directory"},
+/*0022*/ e{"EINVAL", "Invalid argument"},
+/*0023*/ e{"ENFILE", "Too many open files in system"},
+/*0024*/ e{"EMFILE", "Too many open files"},
+/*0025*/ e{"ENOTTY", "Inappropriate ioctl for device"},
+/*0026*/ e{"ETXTBSY", "Text file busy"},
+/*0027*/ e{"EFBIG", "File too large"},
+/*0028*/ e{"ENOSPC", "No space left on device"},
+/*0029*/ e{"ESPIPE", "Illegal seek"},
+/*0030*/ e{"EROFS", "Read-only file system"},
+/*0031*/ e{"EMLINK", "Too many links"},
+/*0032*/ e{"EPIPE", "Broken pipe"},
+/*0033*/ e{"EDOM", "Numerical argument out of domain"},
+/*0034*/ e{"ERANGE", "Numerical result out of range"},
+/*0035*/ e{"EDEADLK", "Resource deadlock avoided"},
+/*0036*/ e{"ENAMETOOLONG", "File name too long"},
+/*0037*/ e{"ENOLCK", "No locks available"},
+/*0038*/ e{"ENOSYS", "Function not implemented"},
+/*0039*/ e{"ENOTEMPTY", "Directory not empty"},
+/*0040*/ e{"ELOOP", "Too many levels of symbolic links"},
+/*0041*/ e{},
+/*0042*/ e{"ENOMSG", "No message of desired type"},
+/*0043*/ e{"EIDRM", "Identifier removed"},
+/*0044*/ e{"ECHRNG", "Channel number out of range"},
+/*0045*/ e{"EL2NSYNC", "Level 2 not synchronized"},
+/*0046*/ e{"EL3HLT", "Level 3 halted"},
+/*0047*/ e{"EL3RST", "Level 3 reset"},
+/*0048*/ e{"ELNRNG", "Link number out of range"},
+/*0049*/ e{"EUNATCH", "Protocol driver not attached"},
+/*0050*/ e{"ENOCSI", "No CSI structure available"},
+/*0051*/ e{"EL2HLT", "Level 2 halted"},
+/*0052*/ e{"EBADE", "Invalid exchange"},
+/*0053*/ e{"EBADR", "Invalid request descriptor"},
+/*0054*/ e{"EXFULL", "Exchange full"},
+/*0055*/ e{"ENOANO", "No anode"},
+/*0056*/ e{"EBADRQC", "Invalid request code"},
+/*0057*/ e{"EBADSLT", "Invalid slot"},
+/*0058*/ e{},
 /*0059*/ e{"EBFONT", "Bad font file format"},
 /*0060*/ e{"ENOSTR", "Device not a stream"},
 /*0061*/ e{"ENODATA", "No data available"},
@@ -94,42 +94,41 @@
 /*0093*/ e{"EPROTONOSUPPORT", "Protocol not supported"},
 /*0094*/ e{"ESOCKTNOSUPPORT", "Socket type not supported"},
 /*0095*/ e{"EOPNOTSUPP", "Operation not supported"},
-/*0096*/ e{"ENOTSUP", "Operation not supported"},
-/*0097*/ e{"EPFNOSUPPORT", "Protocol family not supported"},
-/*0098*/ e{"EAFNOSUPPORT", "Address family not supported by protocol"},
-/*0099*/ e{"EADDRINUSE", "Address already in use"},
-/*0100*/ e{"EADDRNOTAVAIL", "Cannot assign requested address"},
-/*0101*/ e{"ENETDOWN", "Network is down"},
-/*0102*/ e{"ENETUNREACH", "Network is unreachable"},
-/*0103*/ e{"ENETRESET", "Network dropped connection on reset"},
-/*0104*/ e{"ECONNABORTED", "Software caused connection abort"},
-/*0105*/ e{"ECONNRESET", "Connection reset by peer"},
-/*0106*/ e{"ENOBUFS", "No buffer space available"},
-/*0107*/ e{"EISCONN", "Transport endpoint is already connected"},
-/*0108*/ e{"ENOTCONN", "Transport endpoint is not connected"},
-/*0109*/ e{"ESHUTDOWN", "Cannot send after transport endpoint shutdown"},
-/*0110*/ e{"ETOOMANYREFS", "Too many references: cannot splice"},
-/*0111*/ e{"ETIMEDOUT", "Connection timed out"},
-/*0112*/ e{"ECONNREFUSED", "Connection refused"},
-/*0113*/ e{"EHOSTDOWN", "Host is down"},
-/*0114*/ e{"EHOSTUNREACH", "No route to host"},
-/*0115*/ e{"EALREADY", "Operation already in progress"},
-/*0116*/ e{"EINPROGRESS", "Operation now in progress"},
-/*0117*/ e{"ESTALE", "Stale file handle"},
-/*0118*/ e{"EUCLEAN", "Structure needs cleaning"},
-/*0119*/ e{"ENOTNAM", "Not a XENIX named type file"},
-/*0120*/ e{"ENAVAIL", "No XENIX semaphores available"},
-/*0121*/ e{"EISNAM", "Is a named type file"},
-/*0122*/ e{"EREMOTEIO", "Remote I/O error"},
-/*0123*/ e{"EDQUOT", "Disk quota exceeded"},
-/*0124*/ e{"ENOMEDIUM", "No medium found"},
-/*0125*/ e{"EMEDIUMTYPE", "Wrong medium type"},
-/*0126*/ e{"ECANCELED", "Operation canceled"},
-/*0127*/ e{"ENOKEY", "Required key not available"},
-/*0128*/ e{"EKEYEXPIRED", "Key has expired"},
-/*0129*/ e{"EKEYREVOKED", "Key has been revoked"},
-/*0130*/ e{"EKEYREJECTED", "Key was rejected by service"},
-/*0131*/ e{"EOWNERDEAD", "Owner died"},
-/*0132*/ e{"ENOTRECOVERABLE", "State not recoverable"},
-/*0133*/ e{"ERFKILL", "Operation not possible due to RF-kill"},
-/*0134*/ e{"EHWPOISON", "Memory page has hardware error"},
+/*0096*/ e{"EPFNOSUPPORT", "Protocol family not supported"},
+/*0097*/ e{"EAFNOSUPPORT", "Address family not supported by protocol"},
+/*0098*/ e{"EADDRINUSE", "Address already in use"},
+/*0099*/ e{"EADDRNOTAVAIL", "Cannot assign requested address"},
+/*0100*/ e{"ENETDOWN", "Network is down"},
+/*0101*/ e{"ENETUNREACH", "Network is unreachable"},
+/*0102*/ e{"ENETRESET", "Network dropped connection on reset"},
+/*0103*/ e{"ECONNABORTED", "Software caused connection abort"},
+/*0104*/ e{"ECONNRESET", "Connection reset by peer"},
+/*0105*/ e{"ENOBUFS", "No buffer space available"},
+/*0106*/ e{"EISCONN", "Transport endpoint is already connected"},
+/*0107*/ e{"ENOTCONN", "Transport endpoint is not connected"},
+/*0108*/ e{"ESHUTDOWN", "Cannot send after transport endpoint shutdown"},
+/*0109*/ e{"ETOOMANYREFS", "Too many references: cannot splice"},
+/*0110*/ e{"ETIMEDOUT", "Connection timed out"},
+/*0111*/ e{"ECONNREFUSED", "Connection refused"},
+/*0112*/ e{"EHOSTDOWN", "Host is down"},
+/*0113*/ e{"EHOSTUNREACH", "No route to host"},
+/*0114*/ e{"EALREADY", "Operation already in progress"},
+/*0115*/ e{"EINPROGRESS", "Operation now in progress"},
+/*0116*/ e{"ESTALE", "Stale file handle"},
+/*0117*/ e{"EUCLEAN", "Structure needs cleaning"},
+/*0118*/ e{"ENOTNAM", "Not a XENIX named type file"},
+/*0119*/ e{"ENAVAIL", "No XENIX semaphores available"},
+/*0120*/ e{"EISNAM", "Is a named type file"},
+/*0121*/ e{"EREMOTEIO", "Remote I/O error"},
+/*0122*/ e{"EDQUOT", "Disk quota exceeded"},
+/*0123*/ e{"ENOMEDIUM", "No medium found"},
+/*0124*/ e{"EMEDIUMTYPE", "Wrong medium type"},
+/*0125*/ e{"ECANCELED", "Operation canceled"},
+/*0126*/ e{"ENOKEY", "Required key not available"},
+/*0127*/ e{"EKEYEXPIRED", "Key has expired"},
+/*0128*/ e{"EKEYREVOKED", "Key has been revoked"},
+/*0129*/ e{"EKEYREJECTED", "Key was rejected by service"},
+/*0130*/ e{"EOWNERDEAD", "Owner died"},
+/*0131*/ e{"ENOTRECOVERABLE", "State not recoverable"},
+/*0132*/ e{"ERFKILL", "Operation not possible due to RF-kill"},
+/*0133*/ e{"EHWPOISON", "Memory page has hardware error"},
diff --git a/best/io/errnos.py b/best/io/errnos.py
index a5afdb4..961afaa 100755
--- a/best/io/errnos.py
+++ b/best/io/errnos.py
@@ -31,6 +31,9 @@ def main():
       print(f"constexpr ioerr ioerr::{name.title()}({n});")
     return
 
+  # Some numbers have aliases, which must not take up entries of their own.
+  errnos = [t for i, t in enumerate(errnos) if i == 0 or errnos[i - 1][0] != t[0]]
+
   next = 0
   for n, name, message in errnos:
     while next < n:
-- 
2.43.0


From 3de1f5e4396aaca235e4e14a81ded7e6be3750ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:41 +0000
Subject: [PATCH 090/100] fix: make best::ioerr formattable

---
 best/io/ioerr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/io/ioerr.h b/best/io/ioerr.h
index 1fe66db..ae99a38 100644
--- a/best/io/ioerr.h
+++ b/best/io/ioerr.h
@@ -80,7 +80,7 @@ class ioerr final {
     }
     fmt.format("Error {}: ({}), {}", e.raw(), *e.name(), *e.message());
   }
-  friend void BestFmtQuery(auto& query, ioerr*) {
+  constexpr friend void BestFmtQuery(auto& query, ioerr*) {
     query.requires_debug = false;
   }
 
-- 
2.43.0


From 878b4b768be2698f40a55e4469a24a82ae07d55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:57 +0000
Subject: [PATCH 091/100] fix: keep the location when copying a non-const
 track_location

---
 best/log/location.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/best/log/location.h b/best/log/location.h
index 4b2da81..b1772e0 100644
--- a/best/log/location.h
+++ b/best/log/location.h
@@ -54,7 +54,9 @@ class track_location {
   template <typename Arg = T>
   constexpr track_location(
     Arg&& arg, std::source_location loc = std::source_location::current())
-    requires std::convertible_to<Arg, T>
+    requires (std::convertible_to<Arg, T> &&
+              // A copy of a location must not point to where it was copied.
+              !best::same<best::as_auto<Arg>, track_location>)
     : value_(BEST_FWD(arg)), impl_(loc) {}
 
   /// Constructs a new location from the given location.
-- 
2.43.0


From 109837792b2c2847ea4adbae7b5f4fc68e269179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:57 +0000
Subject: [PATCH 092/100] fix: report division by zero at the caller of
 best::div

---
 best/math/overflow.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/math/overflow.h b/best/math/overflow.h
index 065ce7c..29a5ae0 100644
--- a/best/math/overflow.h
+++ b/best/math/overflow.h
@@ -66,7 +66,7 @@ BEST_INLINE_ALWAYS constexpr best::div_t<common_int<A, B>> div(
 template <best::is_int A, best::is_int B>
 BEST_INLINE_ALWAYS constexpr best::div_t<common_int<A, B>> div(
   A a, B b, best::location loc = best::here) {
-  return best::div(overflow(a), overflow(b));
+  return best::div(overflow(a), overflow(b), loc);
 }
 
 /// # `best::ceildiv()`
-- 
2.43.0


From acb020f042abaa009a0fdc9ef0c061cd96ff26ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:57 +0000
Subject: [PATCH 093/100] fix: print the operands of a failed bounds check

---
 best/iter/bounds.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/best/iter/bounds.cc b/best/iter/bounds.cc
index eebbabb..cafdf61 100644
--- a/best/iter/bounds.cc
+++ b/best/iter/bounds.cc
@@ -47,15 +47,15 @@ namespace best::bounds_internal {
 
   if (end && *end > len) {
     crash_internal::crash({"bounds-check failed: %zu (end) > %zu (len)", loc},
-                          end, len);
+                          *end, len);
   }
 
   if (including_end && *including_end >= len) {
     crash_internal::crash({"bounds-check failed: %zu (end) >= %zu (len)", loc},
-                          end, len);
+                          *including_end, len);
   }
 
-  if (count && start + *count > len) {
+  if (count && *count > len - start) {
     crash_internal::crash(
       {"bounds-check failed: %zu + %zu (start + count) > %zu (len)", loc},
       start, *count, len);
-- 
2.43.0


From 5957791e353275d4727db6f3146da0cf84da3941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:57 +0000
Subject: [PATCH 094/100] fix: do not print past the end of the buffer when
 crashing with a long message

---
 best/log/internal/crash.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/best/log/internal/crash.cc b/best/log/internal/crash.cc
index 80ff887..20e5835 100644
--- a/best/log/internal/crash.cc
+++ b/best/log/internal/crash.cc
@@ -60,8 +60,9 @@ inline constexpr char Red[] = "\N{ESCAPE}[31m";
   va_list va;
   va_start(va, fmt);
   die(fmt.location(), [&](char* scratch, size_t scratch_len, auto write) {
+    // vsnprintf() returns the length the message would have had, untruncated.
     size_t len = ::vsnprintf(scratch, scratch_len, *fmt, va);
-    write(scratch, len);
+    write(scratch, len < scratch_len ? len : scratch_len - 1);
   });
   va_end(va);
 }
-- 
2.43.0


From 1f0dc3be9208728107531b481fccc516ea4ecd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:57 +0000
Subject: [PATCH 095/100] fix: pass an int precision when unwrapping a
 best::err

---
 best/text/format.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/text/format.h b/best/text/format.h
index 85750c5..b3d2f5d 100644
--- a/best/text/format.h
+++ b/best/text/format.h
@@ -598,7 +598,7 @@ struct fmt final {
     } else if (auto err = result->err()) {
       auto message = best::format("unwrapped a best::err({:?})",
                                   best::make_formattable(*err));
-      best::crash_internal::crash("%.*s", message.size(), message.data());
+      best::crash_internal::crash("%.*s", int(message.size()), message.data());
     }
   }
 };
-- 
2.43.0


From dfbd5c34feede8e755446932af803719de8ac815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:25 +0000
Subject: [PATCH 096/100] fix: do not read past the table when matching an
 unreflected enum value

---
 best/meta/reflect.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/best/meta/reflect.h b/best/meta/reflect.h
index f97d63b..c17c268 100644
--- a/best/meta/reflect.h
+++ b/best/meta/reflect.h
@@ -479,8 +479,8 @@ constexpr decltype(auto) reflected_type<desc_>::match(reflected value,
 {
   auto choice = apply([&](auto... values) {
     size_t idx = 0;
-    ((value == values.value ? true : (++idx, false)) || ...);
-    return ChoiceTable<>[idx + 1];
+    bool found = ((++idx, value == values.value) || ...);
+    return ChoiceTable<>[found ? idx : 0];
   });
   return choice.match(BEST_FWD(cases)...);
 }
-- 
2.43.0


From a73d43bddc315645d047bb375721ad5e644d4793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:59 +0000
Subject: [PATCH 097/100] fix: cli::error::print_and_exit ignores the caller's
 exit status

---
 best/cli/cli.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/cli/cli.cc b/best/cli/cli.cc
index dbbd9ea..02882f3 100644
--- a/best/cli/cli.cc
+++ b/best/cli/cli.cc
@@ -31,7 +31,7 @@ inline constexpr best::str Red = "\N{ESCAPE}[31m";
 void cli::error::print_and_exit(int bad_exit) const {
   if (is_fatal()) {
     best::eprintln("{}{}{}", Red, message(), Reset);
-    std::exit(128);
+    std::exit(bad_exit);
   } else {
     best::println("{}", message());
     std::exit(0);
-- 
2.43.0


From bf5c3afca0aad737513b92e8a3b81c3f0982687e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:25 +0000
Subject: [PATCH 098/100] fix: usage summary lists hidden subcommands

---
 best/cli/parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/cli/parser.cc b/best/cli/parser.cc
index 12f36ec..68f1d76 100644
--- a/best/cli/parser.cc
+++ b/best/cli/parser.cc
@@ -694,7 +694,7 @@ best::strbuf cli::usage(best::pretext<wtf8> exe, bool hidden) const {
   // Append all of the subcommands.
   bool first = true;
   for (const auto& s : cmd->sorted_subs) {
-    if (s.is_alias) { continue; }
+    if (s.is_alias || !visible(s.vis, hidden)) { continue; }
     if (std::exchange(first, false)) {
       out.push(" [");
     } else {
-- 
2.43.0


From 68d0590497563aab77b0a170161d0bb94e642514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:54 +0000
Subject: [PATCH 099/100] fix: hidden flag groups appear in --help

---
 best/cli/parser.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/best/cli/parser.cc b/best/cli/parser.cc
index 68f1d76..1cbca5a 100644
--- a/best/cli/parser.cc
+++ b/best/cli/parser.cc
@@ -270,6 +270,7 @@ void cli::init() {
           .is_group = true,
           .is_letter = is_letter,
           .is_alias = name_idx > size_t(has_letter),
+          .vis = vis,
         });
 
         // Letter names for groups are parsed in a different way that does not
@@ -899,6 +900,7 @@ best::strbuf cli::usage(best::pretext<wtf8> exe, bool hidden) const {
 
     // This makes us prefer to alphabetize by name.
     if ((has_letter || !e.is_group) && e.is_letter) { continue; }
+    if (!visible(e.vis, hidden)) { continue; }
 
     if (std::exchange(first, false)) { out.push("\n"); }
     print_flag(e);
-- 
2.43.0


From b6eee8c48244c7d76173ba464233a2645f61bb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:43 +0000
Subject: [PATCH 100/100] fix: help omits flag groups that only have a letter

---
 best/cli/parser.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/best/cli/parser.cc b/best/cli/parser.cc
index 1cbca5a..f799216 100644
--- a/best/cli/parser.cc
+++ b/best/cli/parser.cc
@@ -801,7 +801,8 @@ best::strbuf cli::usage(best::pretext<wtf8> exe, bool hidden) const {
     out.push("  ");
     if (auto [letter, vis] = about->names[0];
         has_letter && !e.is_copy && visible(vis, hidden)) {
-      best::format(out, "-{}, ", letter);
+      best::format(out, "-{}", letter);
+      out.push(about->names.size() > 1 ? best::str(", ") : best::str(" "));
     } else {
       indent(4);
     }
@@ -814,6 +815,13 @@ best::strbuf cli::usage(best::pretext<wtf8> exe, bool hidden) const {
     auto names = about->names[{.start = has_letter ? 1 : 0}].iter();
     auto helps = help.split("\n");
     bool first = true;
+    if (has_letter && about->names.size() == 1) {
+      // This is a group that only has a letter.
+      out.push(arg);
+      indent_dots(Width + 2 - (out.size() - start));
+      out.push(helps.next().value_or());
+      out.push("\n");
+    }
     for (auto [name, vis] : names) {
       if (!visible(vis, hidden)) { continue; }
 
@@ -894,8 +902,9 @@ best::strbuf cli::usage(best::pretext<wtf8> exe, bool hidden) const {
 
     bool has_letter = false;
     if (e.is_group) {
+      // A group with a letter need not have a name.
       const auto& g = impl_->groups[e.idx];
-      has_letter = g.tag->letter != '\0';
+      has_letter = g.tag->letter != '\0' && g.about.names.size() > 1;
     }
 
     // This makes us prefer to alphabetize by name.
-- 
2.43.0

