// Integer parsing accepts exactly the representable numerals.
// BOUND: arbitrary byte strings (any byte value) of length 0..2 (0..3 for u8; quick) / 0..3 (0..4; thorough) for i8,u8,i16,u16,u64; UTF-16 strings of length 0..2 / 0..3
// BOUND: 16-bit numerals of 1..4 (quick) / 1..6 (thorough) arbitrary digits; for 8..64-bit types numerals made of a prefix within 1 of limit/radix^k and k <= 2 (quick) / 3..5 (thorough) arbitrary digits, radixes 2,10,16,36; every 32-bit radix for strings up to length 1 (quick) / 2 (thorough); every radix for 2-digit 8-bit numerals with a sign, in either case; radix 17 (thorough: 8,17,23,36) for 4-digit 16-bit numerals
#include "best/math/conv.h"
#include "best/text/format.h"
#include "best/log/wtf.h"
#include "best/text/str.h"
#include "best/text/utf16.h"
#include "vp.h"
using namespace vp;

static int digit(u32 c) {
  if (c >= '0' && c <= '9') return c - '0';
  if (c >= 'a' && c <= 'z') return c - 'a' + 10;
  if (c >= 'A' && c <= 'Z') return c - 'A' + 10;
  return 99;
}
// V: an unsigned type wide enough for any magnitude of n digits
template <class V, class C> static bool ref_digits(const C* p, size_t n, u32 radix, bool neg, V lo, V hi, i128* out) {
  if (n == 0) return false;
  V v = 0;
  bool ok = true;
  for (size_t i = 0; i < n; i++) {
    int d = sizeof(C) == 1 ? digit((u8)p[i]) : digit((u16)p[i]);
    ok &= (u32)d < radix;
    v = v * radix + (u32)d;
  }
  *out = (i128)(neg ? (u128)0 - v : v);
  return ok & (neg ? v <= lo : v <= hi);
}
template <size_t> struct wide { using t = u64; };
template <> struct wide<8> { using t = u128; };
template <class T> using V = typename wide<sizeof(T)>::t;
template <class T> constexpr u128 HI = (__make_unsigned(T))-1 >> ((T)-1 < 0);
template <class T> constexpr u128 LO = (T)-1 < 0 ? HI<T> + 1 : 0;  // magnitude of the least value

template <class T, class C> static bool ref(const C* p, size_t n, u32 radix, i128* out) {
  bool neg = n > 0 && p[0] == '-';
  if (n > 0 && (p[0] == '-' || p[0] == '+')) p++, n--;
  return ref_digits<V<T>>(p, n, radix, neg, (V<T>)LO<T>, (V<T>)HI<T>, out);
}
template <class T, class R> static void agree(R&& r, bool ok, i128 v) {
  VP_CHECK(bool(r) == ok);
  if (bool(r)) { VP_CHECK((i128)*r.ok() == v); vp_observe((u64)*r.ok()); }
}
template <class T, class E = best::utf8> static void any_string(size_t n, u32 radix) {
  using C = typename E::code;
  buf<C> b(n, "c");
  best::pretext<E> s(best::span<const C>(b.p, n));
  i128 v = 0; bool ok = ref<T>(b.p, n, radix, &v);
  agree<T>(best::atoi<T>(s, radix), ok, v);
  VP_REACH();
}
template <class T> static void digits_string(size_t n, u32 radix) {
  buf<char> b(n, "c");
  bool neg = b[0] == '-';
  for (size_t i = 0; i < n; i++) {
    if (i == 0 && pick(1, "sign")) { vp_assume(n > 1 && (b[0] == '-' || b[0] == '+')); continue; }
    if (radix <= 10) vp_assume(b[i] >= '0' && b[i] < '0' + (int)radix);
    else if (pick(1, "alpha") && i < 3) vp_assume(b[i] >= 'a' && b[i] < 'a' + (int)radix - 10);
    else vp_assume(b[i] >= '0' && b[i] <= '9');
  }
  best::pretext<best::utf8> s(best::span<const char>(b.p, n));
  i128 v = 0; bool ok = ref<T>(b.p, n, radix, &v);
  agree<T>(best::atoi<T>(s, radix), ok, v);
  VP_REACH();
}
static u32 some_radix() {
  switch (pick(3, "radix")) { case 0: return 2; case 1: return 10; case 2: return 16; default: return 36; }
}
VP_ENTRY(any_i8) { any_string<i8>(pick(VPQ(2, 3)), some_radix()); }
VP_ENTRY(any_u8) { any_string<u8>(pick(VPQ(3, 4)), some_radix()); }
VP_ENTRY(any_i16) { any_string<i16>(pick(VPQ(2, 3)), some_radix()); }
VP_ENTRY(any_u16) { any_string<u16>(pick(VPQ(2, 3)), some_radix()); }
VP_ENTRY(any_u64) { any_string<u64>(pick(VPQ(2, 3)), some_radix()); }
VP_ENTRY(any_u8_utf16) { any_string<u8, best::utf16>(pick(VPQ(2, 3)), some_radix()); }
// numerals near the limits of T: a sign, a fixed prefix around limit / radix^k, then k arbitrary digits
template <class T> static void near_limit(u32 radix, unsigned kmax) {
  unsigned k = pick(kmax);
  u128 lim = HI<T>;
  for (unsigned i = 0; i < k; i++) lim /= radix;
  lim = lim + pick(2, "delta") - 1;
  char tmp[80]; size_t n = 0;
  while (lim > 0) { int d = (int)(lim % radix); tmp[n++] = d < 10 ? '0' + d : 'a' + d - 10; lim /= radix; }
  size_t zeros = pick(1, "zeros"), sign = pick(2, "sign");
  size_t len = n + k + zeros + (sign > 0);
  buf<char> b(len);
  size_t at = 0;
  if (sign) b[at++] = sign == 1 ? '-' : '+';
  for (size_t i = 0; i < zeros; i++) b[at++] = '0';
  for (size_t i = 0; i < n; i++) b[at++] = tmp[n - 1 - i];
  for (unsigned i = 0; i < k; i++) {
    b[at] = any<char>("c");
    vp_assume(b[at] >= '0' && b[at] < '0' + (int)(radix < 10 ? radix : 10));
    at++;
  }
  best::pretext<best::utf8> s(best::span<const char>(b.p, len));
  i128 v = 0; bool ok = ref<T>(b.p, len, radix, &v);
  agree<T>(best::atoi<T>(s, radix), ok, v);
  VP_REACH();
}
VP_ENTRY(digits_i16) { digits_string<i16>(1 + pick(VPQ(3, 5)), 10); }
VP_ENTRY(digits_u16) { digits_string<u16>(1 + pick(VPQ(3, 5)), 10); }
VP_ENTRY(hex_i16) { digits_string<i16>(1 + pick(VPQ(3, 4)), 16); }
VP_ENTRY(hex_u16) { digits_string<u16>(1 + pick(VPQ(3, 4)), 16); }
VP_ENTRY(b36_u16) { digits_string<u16>(1 + pick(2), 36); }
VP_ENTRY(limit_i8) { near_limit<i8>(10, 2); }
VP_ENTRY(limit_i16) { near_limit<i16>(10, VPQ(2, 3)); }
VP_ENTRY(limit_u16) { near_limit<u16>(10, VPQ(2, 3)); }
VP_ENTRY(limit_i32) { near_limit<i32>(10, VPQ(2, 4)); }
VP_ENTRY(limit_u32) { near_limit<u32>(10, VPQ(2, 4)); }
VP_ENTRY(limit_i64) { near_limit<i64>(10, VPQ(2, 3)); }
VP_ENTRY(limit_u64) { near_limit<u64>(10, VPQ(2, 3)); }
VP_ENTRY(limit16_i32) { near_limit<i32>(16, VPQ(2, 3)); }
VP_ENTRY(limit16_u64) { near_limit<u64>(16, VPQ(2, 3)); }
VP_ENTRY(limit36_i64) { near_limit<i64>(36, VPQ(2, 3)); }
VP_ENTRY(limit36_u32) { near_limit<u32>(36, VPQ(2, 3)); }
VP_ENTRY(limit2_i8) { near_limit<i8>(2, VPQ(3, 5)); }
VP_ENTRY(limit2_u32) { near_limit<u32>(2, VPQ(3, 5)); }
// every radix
template <class T> static void radix_all() {
  u32 radix = any<u32>("radix");
  size_t n = pick(VPQ(1, 2));
  buf<char> b(n, "c");
  best::pretext<best::utf8> s(best::span<const char>(b.p, n));
  VP_CRASHES_IFF(radix > 36, {
    auto r = best::atoi<T>(s, radix);
    i128 v = 0; bool ok = ref<T>(b.p, n, radix, &v);
    agree<T>(r, ok, v);
  });
  VP_REACH();
}
VP_ENTRY(radix_u8) { radix_all<u8>(); }
VP_ENTRY(radix_i32) { radix_all<i32>(); }
// every radix, with as many digits as the type has nybbles
template <class T> static void nybbles(u32 radix) {
  size_t n = sizeof(T) * 2, sign = pick(sizeof(T) == 1 || VP_TIER ? 2 : 0, "sign"), len = n + (sign > 0);
  buf<char> b(len);
  if (sign) b[0] = sign == 1 ? '-' : '+';
  for (size_t i = len - n; i < len; i++) {
    b[i] = any<char>("c");
    int k = radix <= 10 ? 0 : pick(sizeof(T) == 1 || VP_TIER ? 2 : 1, "case");
    vp_assume(k == 0 ? b[i] >= '0' && b[i] < '0' + (int)(radix < 10 ? radix : 10) : k == 1 ? b[i] >= 'a' && b[i] < 'a' + (int)radix - 10 : b[i] >= 'A' && b[i] < 'A' + (int)radix - 10);
  }
  best::pretext<best::utf8> s(best::span<const char>(b.p, len));
  i128 v = 0; bool ok = ref<T>(b.p, len, radix, &v);
  agree<T>(best::atoi<T>(s, radix), ok, v);
  VP_REACH();
}
VP_ENTRY(nybbles_u8) { nybbles<u8>(2 + pick(34, "radix")); }
VP_ENTRY(nybbles_i8) { nybbles<i8>(2 + pick(34, "radix")); }
VP_ENTRY(nybbles_u16) { u32 r[] = {17, 8, 36, 23}; nybbles<u16>(r[pick(VPQ(0, 3), "radix")]); }
// sign given separately; validated text
template <class T> static void with_sign() {
  size_t n = pick(VPQ(2, 3));
  buf<char> b(n, "c");
  bool neg = any<bool>("neg");
  u32 radix = some_radix();
  best::pretext<best::utf8> s(best::span<const char>(b.p, n));
  i128 v = 0; bool ok = ref_digits<V<T>>(b.p, n, radix, neg, (V<T>)LO<T>, (V<T>)HI<T>, &v);
  agree<T>(best::atoi_with_sign<T>(s, neg, radix), ok, v);
  auto t = best::text<best::utf8>::from(s);
  if (t.has_value()) agree<T>(best::atoi_with_sign<T>(*t, neg, radix), ok, v);
  VP_REACH();
}
VP_ENTRY(sign_i8) { with_sign<i8>(); }
VP_ENTRY(sign_u8) { with_sign<u8>(); }
VP_ENTRY(sign_u32) { with_sign<u32>(); }
VP_ENTRY(text_i8) {
  size_t n = pick(VPQ(2, 3));
  buf<char> b(n, "c");
  best::pretext<best::utf8> s(best::span<const char>(b.p, n));
  auto t = best::text<best::utf8>::from(s);
  if (!t.has_value()) return;
  i128 v = 0; bool ok = ref<i8>(b.p, n, 10, &v);
  agree<i8>(best::atoi<i8>(*t), ok, v);
  VP_REACH();
}
// 0x, 0b, 0o, 0 prefixes
template <class T> static void prefix(size_t n) {
  buf<char> b(n, "c");
  best::pretext<best::utf8> s(best::span<const char>(b.p, n));
  const char* p = b.p; size_t m = n;
  bool neg = m > 0 && p[0] == '-';
  if (m > 0 && (p[0] == '-' || p[0] == '+')) p++, m--;
  u32 radix = 10;
  i128 v = 0; bool ok;
  if (m == 1 && p[0] == '0') ok = true;
  else {
    if (m >= 1 && p[0] == '0') {
      p++; m--; radix = 8;
      if (m >= 1 && (p[0] == 'x' || p[0] == 'b' || p[0] == 'o')) { radix = p[0] == 'x' ? 16 : p[0] == 'b' ? 2 : 8; p++; m--; }
    }
    ok = ref_digits<V<T>>(p, m, radix, neg, (V<T>)LO<T>, (V<T>)HI<T>, &v);
  }
  agree<T>(best::atoi_with_prefix<T>(s), ok, v);
  auto t = best::text<best::utf8>::from(s);
  if (VP_TIER && t.has_value()) agree<T>(best::atoi_with_prefix<T>(*t), ok, v);
  VP_REACH();
}
VP_ENTRY(prefix_i8) { prefix<i8>(pick(VPQ(3, 4))); }
VP_ENTRY(prefix_u8) { prefix<u8>(pick(VPQ(3, 4))); }
VP_ENTRY(prefix_i32) { prefix<i32>(pick(VPQ(3, 4))); }
