// UTF-8 decoding, validation and encoding.
// BOUND: byte buffers of length 0..5 (quick) / 0..6 (thorough) for decode/undecode, 0..4 / 0..6 for validation, every byte value
// BOUND: every rune (all 2^21 values of the code space), every output capacity 0..6
#include "best/text/rune.h"
#include "best/text/utf8.h"
#include "best/text/str.h"
#include "vp.h"
#include "utfref.h"
using namespace vp;
using sp = best::span<const char>;

template <bool W> static auto dec(sp* s) {
  if constexpr (W) return best::rune::decode(s, best::wtf8{}); else return best::rune::decode(s);
}
template <bool W> static auto undec(sp* s) {
  if constexpr (W) return best::rune::undecode(s, best::wtf8{}); else return best::rune::undecode(s);
}
template <bool W> static void decode_n(size_t n) {
  buf<char> b(n, "b");
  sp s(b.p, n);
  i32 len, want = ref8((u8*)b.p, n, W, &len);
  auto r = dec<W>(&s);
  VP_CHECK(bool(r) == (want >= 0));
  if (want >= 0) {
    VP_CHECK(r.ok()->to_int() == (u32)want);
    VP_CHECK(s.size() == n - len && s.data().raw() == b.p + len);
    vp_observe(r.ok()->to_int());
  } else {
    VP_CHECK(s.size() == n && s.data().raw() == b.p);
    if (n == 0) VP_CHECK(*r.err() == best::encoding_error::OutOfBounds);
  }
  VP_REACH();
}
template <bool W> static void undecode_n(size_t n) {
  buf<char> b(n, "b");
  sp s(b.p, n);
  // the only suffix that can be one well-formed sequence
  i32 want = -1, len = 0;
  for (int k = 1; k <= 4 && (size_t)k <= n; k++) {
    i32 l, v = ref8((u8*)b.p + n - k, k, W, &l);
    if (v >= 0 && l == k) { want = v; len = k; }
  }
  auto r = undec<W>(&s);
  VP_CHECK(bool(r) == (want >= 0));
  if (want >= 0) {
    VP_CHECK(r.ok()->to_int() == (u32)want);
    VP_CHECK(s.size() == n - len && s.data().raw() == b.p);
    vp_observe(r.ok()->to_int());
  } else {
    VP_CHECK(s.size() == n && s.data().raw() == b.p);
    if (n == 0) VP_CHECK(*r.err() == best::encoding_error::OutOfBounds);
  }
  VP_REACH();
}
VP_ENTRY(decode) { decode_n<false>(pick(VPQ(5, 6))); }
VP_ENTRY(undecode) { undecode_n<false>(pick(VPQ(5, 6))); }
VP_ENTRY(validate) {
  size_t n = pick(VPQ(4, 6));
  buf<char> b(n, "b");
  bool want = refvalid8((u8*)b.p, n, false);
  bool got = best::rune::validate(sp(b.p, n));
  VP_CHECK(got == want);
  vp_observe(got);
  VP_REACH();
}
VP_ENTRY(validate_text) {
  size_t n = pick(VPQ(4, 5));
  buf<char> b(n, "b");
  auto t = best::text<best::utf8>::from(sp(b.p, n));
  VP_CHECK(t.has_value() == refvalid8((u8*)b.p, n, false));
  if (t.has_value()) VP_CHECK(t->size() == n && t->data() == b.p);
  VP_REACH();
}
template <bool W> static void encode_all() {
  u32 v = any<u32>("rune");
  auto rr = best::rune::from_int_allow_surrogates(v);
  if (!rr.has_value()) { VP_CHECK(v >= 0x110000); return; }
  best::rune r = *rr;
  bool ok = W || !(v >= 0xd800 && v < 0xe000);
  size_t cap = pick(6);
  buf<char> out(cap);
  for (size_t i = 0; i < cap; i++) out[i] = 0x55;
  best::span<char> o(out.p, cap);
  size_t len = v < 0x80 ? 1 : v < 0x800 ? 2 : v < 0x10000 ? 3 : 4;
  auto res = [&] { if constexpr (W) return r.encode(&o, best::wtf8{}); else return r.encode(&o); }();
  VP_CHECK(bool(res) == (ok && cap >= len));
  if (bool(res)) {
    VP_CHECK(res.ok()->size() == len && res.ok()->data().raw() == out.p);
    VP_CHECK(o.size() == cap - len && o.data().raw() == out.p + len);
    i32 l, back = ref8((u8*)out.p, cap, W, &l);
    VP_CHECK(back == (i32)v && l == (i32)len);
    sp in(out.p, len);
    auto d = dec<W>(&in);
    VP_CHECK(bool(d) && d.ok()->to_int() == v && in.is_empty());
    sp in2(out.p, len);
    auto u = undec<W>(&in2);
    VP_CHECK(bool(u) && u.ok()->to_int() == v && in2.is_empty());
    for (size_t i = len; i < cap; i++) VP_CHECK(out[i] == 0x55);
    vp_observe(v);
  } else {
    VP_CHECK(o.size() == cap && o.data().raw() == out.p);
    if (ok) VP_CHECK(*res.err() == best::encoding_error::OutOfBounds);
    else if (cap >= len) VP_CHECK(*res.err() == best::encoding_error::Invalid);
    for (size_t i = 0; i < cap; i++) VP_CHECK(out[i] == 0x55);
  }
  VP_REACH();
}
VP_ENTRY(encode) { encode_all<false>(); }
VP_ENTRY(rune_size) {
  u32 v = any<u32>("rune");
  auto rr = best::rune::from_int_allow_surrogates(v);
  if (!rr.has_value()) return;
  auto s = rr->size();
  VP_CHECK(bool(s) == !(v >= 0xd800 && v < 0xe000));
  if (bool(s)) VP_CHECK(*s.ok() == size_t(v < 0x80 ? 1 : v < 0x800 ? 2 : v < 0x10000 ? 3 : 4));
  VP_REACH();
}
// decoding everything forward and backward visits the same runes
VP_ENTRY(boundary) {
  size_t n = pick(VPQ(4, 6));
  buf<char> b(n, "b");
  vp_assume(refvalid8((u8*)b.p, n, false));
  u64 i = any<u64>("i");
  bool want = i == n;
  for (size_t k = 0; k < n;) {
    if (i == k) want = true;
    i32 l; ref8((u8*)b.p + k, n - k, false, &l);
    k += l;
  }
  VP_CHECK(best::rune::is_boundary(sp(b.p, n), i) == want);
  VP_REACH();
}
