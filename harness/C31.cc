// Formatting an integer yields its exact numeral.
// BOUND: all values of every integer type up to 64 bits in bases 2, 8, 10 and 16 (both cases; quick: negative or 57-bit and longer values for signed 64-bit binary); all 8-bit values with every combination of width (up to 7 quick / 16 thorough), alignment, ASCII fill, sign-aware padding and alternate form, and all 16-bit values with decorations in decimal and hexadecimal
// ORACLE: the digits are read back and equal the value, there is no superfluous leading digit, and sign, prefix and padding are laid out by an independent definition; widths above 8 bits compare against the digit recurrence
#include "fmt.h"
using namespace vp;

// How many code units of `s` (from `at`) are digits of `base` that read as `mag`.
template <class U> static size_t digits_of(U mag, unsigned base, bool upper, char* out) {
  char t[64]; size_t k = 0;
  do { unsigned d = (unsigned)(mag % base); t[k++] = (upper ? "0123456789ABCDEF" : "0123456789abcdef")[d]; mag /= base; } while (mag != 0);
  for (size_t i = 0; i < k; i++) out[i] = t[k - 1 - i];
  return k;
}
struct base_t { unsigned base; const char* prefix; bool upper; };
static base_t with_method(best::format_spec& s, int m) {
  switch (m) {
    case 0: return {10, "", false};
    case 1: s.method = best::rune('b'); return {2, "0b", false};
    case 2: s.method = best::rune('o'); return {8, "0", false};
    case 3: s.method = best::rune('x'); return {16, "0x", false};
    default: s.method = best::rune('X'); return {16, "0x", true};
  }
}
template <class T> struct uns { using type = std::make_unsigned_t<T>; };
template <class T> static void check(T v, best::format_spec s, base_t b) {
  using U = typename uns<T>::type;
  bool neg = v < 0; U mag = neg ? (U)(0 - (U)v) : (U)v;
  char d[64]; size_t k = digits_of<U>(mag, b.base, b.upper, d);
  size_t pl = s.alt ? strlen(b.prefix) : 0, len = k + neg + pl;
  size_t pad = s.width > len ? s.width - len : 0, l = 0, z = 0, r = 0;
  if (s.sign_aware_padding) z = pad;
  else if (s.alignment == best::format_spec::Left) r = pad;
  else if (s.alignment == best::format_spec::Center) { l = pad / 2; r = pad - l; }
  else l = pad;
  expect e;
  for (size_t i = 0; i < l; i++) e.rune(s.fill.to_int());
  if (neg) e.c('-');
  if (s.alt) e.s(b.prefix);
  for (size_t i = 0; i < z; i++) e.c('0');
  size_t at = e.n;
  e.raw(d, k);
  for (size_t i = 0; i < r; i++) e.rune(s.fill.to_int());
  best::strbuf got = best::format("{:?}", spec_of<T>{s, v});
  e.is(got);
  // reading the digits back gives the magnitude
  if (sizeof(T) == 1 || (sizeof(T) == 2 && s.width == 0)) {
    u32 back = 0;
    for (size_t i = 0; i < k; i++) { unsigned c = (u8)got.data()[at + i]; unsigned dg = c <= '9' ? c - '0' : (c | 32) - 'a' + 10; VP_CHECK(dg < b.base && (c > '9' ? !(c & 32) == b.upper : c >= '0')); back = back * b.base + dg; }
    VP_CHECK(back == mag && (k == 1 || got.data()[at] != '0'));
  }
  VP_REACH();
}
template <class T> static void plain(int lo, int hi, bool flags = true) {
  best::format_spec s; base_t b = with_method(s, lo + (int)pick(hi - lo, "method"));
  if (flags) { s.alt = any<bool>("alt"); s.debug = any<bool>("debug"); }
  check<T>(any<T>("v"), s, b);
}
template <class T> static void decorated(int m, size_t width) {
  best::format_spec s = arb_layout(width); base_t b = with_method(s, m);
  s.alt = any<bool>("alt"); if (!s.alignment.has_value()) s.sign_aware_padding = any<bool>("zero");
  check<T>(any<T>("v"), s, b);
}
VP_ENTRY(i8) { plain<i8>(0, 4); }
VP_ENTRY(u8) { plain<u8>(0, 4); }
VP_ENTRY(char_) { plain<char>(0, 4); }
VP_ENTRY(i16) { plain<i16>(0, 4, VPQ(0, 1)); }
VP_ENTRY(u16) { plain<u16>(0, 4); }
VP_ENTRY(i32_dec) { plain<i32>(0, 0); }
VP_ENTRY(u32_dec) { plain<u32>(0, 0); }
VP_ENTRY(i64_dec) { plain<long>(0, 0); }
VP_ENTRY(u64_dec) { plain<unsigned long>(0, 0); }
VP_ENTRY(ll_dec) { plain<long long>(0, 0); }
VP_ENTRY(ull_dec) { plain<unsigned long long>(0, 0); }
VP_ENTRY(i32_pow2) { plain<i32>(1, 4, VPQ(0, 1)); }
VP_ENTRY(u32_pow2) { plain<u32>(1, 4); }
VP_ENTRY(i64_bin) { if (VPQ(1, 0)) { long v = any<long>("v"); vp_assume(v < 0 || v >= 1l << 56); best::format_spec s; base_t b = with_method(s, 1); check<long>(v, s, b); } else plain<long>(1, 1); }
VP_ENTRY(i64_oct) { plain<long>(2, 2, VPQ(0, 1)); }
VP_ENTRY(i64_hex) { plain<long>(3, 4, VPQ(0, 1)); }
VP_ENTRY(u64_bin) { plain<unsigned long>(1, 1, VPQ(0, 1)); }
VP_ENTRY(u64_oct) { plain<unsigned long>(2, 2, VPQ(0, 1)); }
VP_ENTRY(u64_hex) { plain<unsigned long>(3, 4, VPQ(0, 1)); }
VP_ENTRY(i8_dec_laid_out) { decorated<i8>(0, VPQ(7, 16)); }
VP_ENTRY(i8_bin_laid_out) { decorated<i8>(1, VPQ(6, 16)); }
VP_ENTRY(i8_oct_laid_out) { decorated<i8>(2, VPQ(7, 16)); }
VP_ENTRY(i8_hex_laid_out) { decorated<i8>(3, VPQ(7, 16)); }
VP_ENTRY(u8_HEX_laid_out) { decorated<u8>(4, VPQ(7, 16)); }
VP_ENTRY(i16_dec_laid_out) { decorated<i16>(0, VPQ(4, 24)); }
VP_ENTRY(u16_hex_laid_out) { decorated<u16>(3, VPQ(8, 24)); }

// A non-ASCII fill, and widths far beyond the numeral.
VP_ENTRY(wide_fill) {
  best::format_spec s; i8 v = any<i8>("v"); s.alt = any<bool>("alt"); base_t b = with_method(s, 3);
  u32 f = any<u32>("fill"); vp_assume(f < 0xd800 && f >= 0x80); s.fill = *best::rune::from_int(f);
  s.width = pick(VPQ(6, 12), "width"); s.alignment = best::format_spec::Center;
  check<i8>(v, s, b);
}
// The padding of any width: what the field lacks, all on one side, or split with the odd rune to the right.
VP_ENTRY(padding) {
  best::format_spec s; s.width = any<u32>("width"); size_t n = any<size_t>("runes"), a = pick(3, "alignment"); int d = (int)pick(2, "default");
  auto side = [](size_t i) { return i == 0 ? best::format_spec::Left : i == 1 ? best::format_spec::Center : best::format_spec::Right; };
  if (a < 3) s.alignment = side(a);
  auto r = s.compute_padding(n, side(d)); size_t l = r.first(), t = r.second(), pad = s.width > n ? s.width - n : 0; size_t w = a < 3 ? a : d;
  VP_CHECK(l <= pad && t == pad - l);
  VP_CHECK(w == 0 ? l == 0 : w == 2 ? t == 0 : t - l <= 1);
  VP_REACH();
}
VP_ENTRY(wide_field) {
  best::format_spec s; i8 v = any<i8>("v"); vp_assume(v >= -20 && v < 20); base_t b = with_method(s, 0); size_t w = pick(3, "w");
  s.width = 256 * (1 + w / 2) + w % 2; size_t a = pick(2, "alignment"); s.alignment = a == 0 ? best::format_spec::Left : a == 1 ? best::format_spec::Center : best::format_spec::Right; s.sign_aware_padding = any<bool>("zero");
  check<i8>(v, s, b);
}
// Templates reach the same code.
VP_ENTRY(templates) {
  i8 v = any<i8>("v"); expect e; u8 u = v;
  e.num(u); e.c(' '); e.s("0x"); if (u < 16) e.c('0'); e.hex(u); e.c('|');
  char d[8]; size_t k = digits_of<u8>(u, 10, false, d); for (size_t i = k; i < 5; i++) e.c('*'); e.raw(d, k); e.c('|');
  k = digits_of<u8>(u, 2, false, d); e.raw(d, k); for (size_t i = k; i < 10; i++) e.c(' ');
  e.is(best::format("{0} {0:#04x}|{0:*>5}|{0:<10b}", u));
  VP_REACH();
}
VP_ENTRY(byte_and_bool) {
  u8 v = any<u8>("v"); bool t = any<bool>("t"); expect e;
  e.num(v); e.c(','); e.hex(v); e.c(','); e.s(t ? "true" : "false");
  e.is(best::format("{},{:x},{:?}", std::byte(v), std::byte(v), t));
  VP_REACH();
}
