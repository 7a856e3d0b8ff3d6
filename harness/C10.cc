// The UTF-16, UTF-32, WTF-8, ASCII and Latin-1 codecs.
// BOUND: buffers of length 0..4 (quick) / 0..5 (thorough) code units, every code unit value; WTF-8 0..4 / 0..6
// BOUND: every rune (all 2^21 values of the code space, surrogates included), every output capacity 0..5
#include "best/text/ascii.h"
#include "best/text/rune.h"
#include "best/text/utf16.h"
#include "best/text/utf32.h"
#include "best/text/utf8.h"
#include "utfref.h"
#include "vp.h"
using namespace vp;

struct U16 {
  using E = best::utf16; using C = char16_t;
  static i32 ref(const C* p, size_t n, i32* l) { return ref16((const u16*)p, n, l); }
  static bool ok(u32 v) { return !(v >= 0xd800 && v < 0xe000); }
  static size_t len(u32 v) { return v < 0x10000 ? 1 : 2; }
};
struct U32 {
  using E = best::utf32; using C = char32_t;
  static i32 ref(const C* p, size_t n, i32* l) { return ref32((const u32*)p, n, l); }
  static bool ok(u32 v) { return !(v >= 0xd800 && v < 0xe000); }
  static size_t len(u32) { return 1; }
};
struct W8 {
  using E = best::wtf8; using C = char;
  static i32 ref(const C* p, size_t n, i32* l) { return ref8((const u8*)p, n, true, l); }
  static bool ok(u32) { return true; }
  static size_t len(u32 v) { return v < 0x80 ? 1 : v < 0x800 ? 2 : v < 0x10000 ? 3 : 4; }
};
struct AS {
  using E = best::ascii; using C = char;
  static i32 ref(const C* p, size_t n, i32* l) { return refascii((const u8*)p, n, l); }
  static bool ok(u32 v) { return v < 0x80; }
  static size_t len(u32) { return 1; }
};
struct L1 {
  using E = best::latin1; using C = char;
  static i32 ref(const C* p, size_t n, i32* l) { return reflatin1((const u8*)p, n, l); }
  static bool ok(u32 v) { return v < 0x100; }
  static size_t len(u32) { return 1; }
};

template <class X> void decode_n(size_t n) {
  using C = typename X::C; using sp = best::span<const C>;
  buf<C> b(n, "b");
  sp s(b.p, n);
  i32 len, want = X::ref(b.p, n, &len);
  auto r = best::rune::decode(&s, typename X::E{});
  VP_CHECK(bool(r) == (want >= 0));
  if (want >= 0) {
    VP_CHECK(r.ok()->to_int() == (u32)want);
    VP_CHECK(s.size() == n - len && s.data().raw() == b.p + len);
    vp_observe(r.ok()->to_int());
  } else {
    VP_CHECK(s.size() == n && s.data().raw() == b.p);
    if (n == 0) VP_CHECK(*r.err() == best::encoding_error::OutOfBounds);
  }
  VP_REACH();
}
template <class X> void undecode_n(size_t n) {
  using C = typename X::C; using sp = best::span<const C>;
  buf<C> b(n, "b");
  sp s(b.p, n);
  i32 want = -1, len = 0;
  for (int k = 1; k <= 4 && (size_t)k <= n; k++) {
    i32 l, v = X::ref(b.p + n - k, k, &l);
    if (v >= 0 && l == k) { want = v; len = k; }
  }
  auto r = best::rune::undecode(&s, typename X::E{});
  VP_CHECK(bool(r) == (want >= 0));
  if (want >= 0) {
    VP_CHECK(r.ok()->to_int() == (u32)want);
    VP_CHECK(s.size() == n - len && s.data().raw() == b.p);
    vp_observe(r.ok()->to_int());
  } else {
    VP_CHECK(s.size() == n && s.data().raw() == b.p);
    if (n == 0) VP_CHECK(*r.err() == best::encoding_error::OutOfBounds);
  }
  VP_REACH();
}
template <class X> void validate_n(size_t n) {
  using C = typename X::C; using sp = best::span<const C>;
  buf<C> b(n, "b");
  bool want = true;
  for (size_t k = 0; k < n;) {
    i32 l;
    if (X::ref(b.p + k, n - k, &l) < 0) { want = false; break; }
    k += l;
  }
  bool got = best::rune::validate(sp(b.p, n), typename X::E{});
  VP_CHECK(got == want);
  vp_observe(got);
  u64 i = any<u64>("i");
  if (want) {
    bool bd = i == n;
    for (size_t k = 0; k < n;) { if (i == k) bd = true; i32 l; X::ref(b.p + k, n - k, &l); k += l; }
    VP_CHECK(best::rune::is_boundary(sp(b.p, n), i, typename X::E{}) == bd);
  }
  VP_REACH();
}
template <class X> void encode_all() {
  using C = typename X::C; using sp = best::span<const C>;
  u32 v = any<u32>("rune");
  auto rr = best::rune::from_int_allow_surrogates(v);
  if (!rr.has_value()) { VP_CHECK(v >= 0x110000); return; }
  best::rune r = *rr;
  bool ok = X::ok(v);
  size_t cap = pick(5), len = X::len(v);
  buf<C> out(cap);
  for (size_t i = 0; i < cap; i++) out[i] = 0x55;
  best::span<C> o(out.p, cap);
  auto res = r.encode(&o, typename X::E{});
  VP_CHECK(bool(res) == (ok && cap >= len));
  if (bool(res)) {
    VP_CHECK(res.ok()->size() == len && res.ok()->data().raw() == out.p);
    VP_CHECK(o.size() == cap - len && o.data().raw() == out.p + len);
    i32 l, back = X::ref(out.p, cap, &l);
    VP_CHECK(back == (i32)v && l == (i32)len);
    sp in(out.p, len);
    auto d = best::rune::decode(&in, typename X::E{});
    VP_CHECK(bool(d) && d.ok()->to_int() == v && in.is_empty());
    sp in2(out.p, len);
    auto u = best::rune::undecode(&in2, typename X::E{});
    VP_CHECK(bool(u) && u.ok()->to_int() == v && in2.is_empty());
    for (size_t i = len; i < cap; i++) VP_CHECK(out[i] == 0x55);
    vp_observe(v);
  } else {
    VP_CHECK(o.size() == cap && o.data().raw() == out.p);
    if (ok) VP_CHECK(*res.err() == best::encoding_error::OutOfBounds);
    else if (cap >= len) VP_CHECK(*res.err() == best::encoding_error::Invalid);
    for (size_t i = 0; i < cap; i++) VP_CHECK(out[i] == 0x55);
  }
  auto sz = r.size(typename X::E{});
  VP_CHECK(bool(sz) == ok);
  if (ok) VP_CHECK(*sz.ok() == len);
  VP_REACH();
}
#define ALL(N, X, Q, T) \
  VP_ENTRY(decode_##N) { decode_n<X>(pick(VPQ(Q, T))); } \
  VP_ENTRY(undecode_##N) { undecode_n<X>(pick(VPQ(Q, T))); } \
  VP_ENTRY(validate_##N) { validate_n<X>(pick(VPQ(Q, T))); } \
  VP_ENTRY(encode_##N) { encode_all<X>(); }
ALL(utf16, U16, 4, 5)
ALL(utf32, U32, 4, 5)
ALL(wtf8, W8, 4, 6)
ALL(ascii, AS, 4, 5)
ALL(latin1, L1, 4, 5)
