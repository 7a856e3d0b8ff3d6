// Runes are exactly the Unicode values; classification and digits follow their definitions.
// BOUND: none: every 32-bit integer, every rune, every 32-bit digit value and radix
#include "best/container/option.h"
#include "best/text/rune.h"
#include "best/text/utf8.h"
#include "vp.h"
using namespace vp;
static best::rune any_rune() {
  u32 v = any<u32>("rune");
  vp_assume(v < 0x110000);
  auto r = best::rune::from_int_allow_surrogates(v);
  VP_CHECK(r.has_value());
  return *r;
}
VP_ENTRY(from_int) {
  u32 v = any<u32>("v");
  bool surr = v >= 0xd800 && v <= 0xdfff, uni = v <= 0x10ffff;
  auto a = best::rune::from_int(v);
  VP_CHECK(a.has_value() == (uni && !surr));
  if (a.has_value()) VP_CHECK(a->to_int() == v && (u32)*a == v);
  auto b = best::rune::from_int((i32)v);
  VP_CHECK(b.has_value() == (uni && !surr));
  if (b.has_value()) VP_CHECK(b->to_int() == v);
  auto c = best::rune::from_int_allow_surrogates(v);
  VP_CHECK(c.has_value() == uni);
  if (c.has_value()) VP_CHECK(c->to_int() == v);
  auto d = best::rune::from_int_allow_surrogates((i32)v);
  VP_CHECK(d.has_value() == uni);
  if (d.has_value()) VP_CHECK(d->to_int() == v);
  vp_observe(a.has_value()); vp_observe(c.has_value());
  VP_REACH();
}
VP_ENTRY(classes) {
  best::rune r = any_rune();
  u32 v = r.to_int();
  bool lower = v >= 'a' && v <= 'z', upper = v >= 'A' && v <= 'Z', dig = v >= '0' && v <= '9';
  VP_CHECK(r.is_unpaired_surrogate() == (v >= 0xd800 && v <= 0xdfff));
  VP_CHECK(r.is_high_surrogate() == (v >= 0xd800 && v <= 0xdbff));
  VP_CHECK(r.is_low_surrogate() == (v >= 0xdc00 && v <= 0xdfff));
  VP_CHECK(r.is_ascii() == (v < 0x80));
  VP_CHECK(r.is_ascii_lower() == lower);
  VP_CHECK(r.is_ascii_upper() == upper);
  VP_CHECK(r.is_ascii_alpha() == (lower || upper));
  VP_CHECK(r.is_ascii_digit() == dig);
  VP_CHECK(r.is_ascii_alnum() == (lower || upper || dig));
  VP_CHECK(r.is_ascii_control() == (v < 0x20 || v == 0x7f));
  VP_CHECK(r.is_ascii_hex() == (dig || (v >= 'a' && v <= 'f') || (v >= 'A' && v <= 'F')));
  VP_CHECK(r.is_ascii_space() == (v == ' ' || v == 9 || v == 10 || v == 12 || v == 13));
  VP_CHECK(r.is_ascii_punct() == (v > 0x20 && v < 0x7f && !lower && !upper && !dig));
  VP_CHECK(r.to_ascii_lower().to_int() == (upper ? v + 32 : v));
  VP_CHECK(r.to_ascii_upper().to_int() == (lower ? v - 32 : v));
  vp_observe(r.is_ascii_punct());
  VP_REACH();
}
static u32 dig(u32 v) {
  if (v >= '0' && v <= '9') return v - '0';
  if (v >= 'a' && v <= 'z') return v - 'a' + 10;
  if (v >= 'A' && v <= 'Z') return v - 'A' + 10;
  return 1000;
}
VP_ENTRY(to_digit) {
  best::rune r = any_rune();
  u32 v = r.to_int(), radix = any<u32>("radix");
  VP_CRASHES_IFF(radix > 36, {
    auto d = r.to_digit(radix);
    VP_CHECK(d.has_value() == (dig(v) < radix));
    if (d.has_value()) { VP_CHECK(*d == dig(v)); vp_observe(*d); }
  });
  VP_CRASHES_IFF(radix > 36, VP_CHECK(r.is_digit(radix) == (dig(v) < radix)));
  VP_REACH();
}
VP_ENTRY(from_digit) {
  u32 n = any<u32>("n"), radix = any<u32>("radix");
  VP_CRASHES_IFF(radix > 36, {
    auto r = best::rune::from_digit(n, radix);
    VP_CHECK(r.has_value() == (n < radix));
    if (r.has_value()) {
      VP_CHECK(r->to_int() == (n < 10 ? '0' + n : 'a' + n - 10));
      auto back = r->to_digit(radix);
      VP_CHECK(back.has_value() && *back == n);
      vp_observe(r->to_int());
    }
  });
  VP_REACH();
}
VP_ENTRY(compare) {
  best::rune a = any_rune(), b = any_rune();
  VP_CHECK((a == b) == (a.to_int() == b.to_int()));
  VP_CHECK((a < b) == (a.to_int() < b.to_int()));
  best::rune c = a;
  VP_CHECK(c == a);
  c = b;
  VP_CHECK(c == b);
  VP_REACH();
}
VP_ENTRY(default_is_nul) {
  best::rune r{};
  VP_CHECK(r.to_int() == 0);
  VP_CHECK(best::rune::Replacement.to_int() == 0xfffd);
  // an optional rune never confuses absence with a rune
  best::rune x = any_rune();
  best::option<best::rune> o = x;
  VP_CHECK(o.has_value() && *o == x);
  best::option<best::rune> e = best::none;
  VP_CHECK(!e.has_value() && !(o == e));
  VP_REACH();
}
