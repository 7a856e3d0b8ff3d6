// Slicing text.
// BOUND: strings of 0..4 (quick) / 0..6 (thorough) code units in UTF-8, 0..3 / 0..5 in WTF-8 and UTF-16, 0..2 / 0..4 in UTF-32, ASCII and Latin-1, every content
// BOUND: every start, end, inclusive end and count at full machine width
#include "best/text/str.h"
#include "best/text/format.h"
#include "best/log/wtf.h"
#include "enc.h"
using namespace vp;

template <class X> constexpr size_t N() {
  if (__is_same(X, U8)) return VPQ(4, 6);
  if (__is_same(X, W8)) return VPQ(3, 5);
  if (__is_same(X, U16)) return VPQ(3, 5);
  return VPQ(2, 4);
}

template <class X> static void slice() {
  str<X> s(pick(N<X>()));
  size_t n = s.b.n;
  best::bounds b;
  u64 st = any<u64>("start"), e = any<u64>("end");
  b.start = st;
  u128 end = n;
  u64 form = pick(3, "form");
  bool rev = false;
  if (form == 1) b.end = e, end = e;
  if (form == 2) b.including_end = e, end = (u128)e + 1, rev = e < st;
  if (form == 3) b.count = e, end = (u128)st + e;
  bool in = !rev && st <= end && end <= n;
  bool ok = in & s.boundary(st) & s.boundary((size_t)end);
  auto t = s.text();
  auto r = t.at(b);
  VP_CHECK(r.has_value() == ok);
  if (r.has_value()) {
    VP_CHECK(r->data() == s.b.p + st && r->size() == (size_t)end - st);
    // the slice is itself valid
    VP_CHECK(decode_all<X>(r->data(), r->size()).valid);
    VP_CHECK(best::text<typename X::E>::from(r->as_codes()).has_value());
    auto u = t.at(best::unsafe("checked"), b);
    VP_CHECK(u.data() == r->data() && u.size() == r->size());
    vp_observe(r->size());
  }
  VP_CRASHES_IFF(!ok, auto i = t[b]; VP_CHECK(i.data() == s.b.p + st && i.size() == (size_t)end - st));
  VP_REACH();
}
template <class X> static void boundary() {
  str<X> s(pick(N<X>()));
  u64 i = any<u64>("idx");
  bool got = s.text().is_rune_boundary(i);
  VP_CHECK(got == s.boundary(i));
  vp_observe(got);
  VP_REACH();
}
template <class X> static void split_at() {
  str<X> s(pick(N<X>()));
  u64 i = any<u64>("idx");
  auto t = s.text();
  auto r = t.split_at(i);
  VP_CHECK(r.has_value() == s.boundary(i));
  if (r.has_value()) {
    VP_CHECK(r->first().data() == s.b.p && r->first().size() == i);
    VP_CHECK(r->second().data() == s.b.p + i && r->second().size() == s.b.n - i);
  }
  // unvalidated text splits anywhere
  auto p = s.pre().split_at(i);
  VP_CHECK(p.has_value() == (i <= s.b.n));
  if (p.has_value()) VP_CHECK(p->first().size() == i && p->second().data() == s.b.p + i && p->second().size() == s.b.n - i);
  VP_REACH();
}
template <class X> static void from() {
  raw<X> s(pick(N<X>()));
  auto d = decode_all<X>(s.b.p, s.b.n);
  auto t = best::text<typename X::E>::from(s.pre());
  VP_CHECK(t.has_value() == d.valid);
  if (t.has_value()) VP_CHECK(t->data() == s.b.p && t->size() == s.b.n && t->is_empty() == (s.b.n == 0));
  VP_REACH();
}
// The longest valid prefix, and the rest.
template <class X> static void from_partial() {
  raw<X> s(pick(N<X>()));
  size_t i = 0;
  while (i < s.b.n) {
    i32 l, v = X::ref(s.b.p + i, s.b.n - i, &l);
    if (v < 0) break;
    i += l;
  }
  auto r = best::text<typename X::E>::from_partial(s.pre());
  VP_CHECK(r.first().data() == s.b.p && r.first().size() == i);
  VP_CHECK(r.second().data() == s.b.p + i && r.second().size() == s.b.n - i);
  vp_observe(i);
  VP_REACH();
}
template <class X> static void from_nul() {
  size_t n = pick(N<X>());
  buf<typename X::C> b(n + 1, "s");
  vp_assume(b[n] == 0);
  size_t k = 0;
  while (b[k] != 0) k++;
  auto p = best::pretext<typename X::E>::from_nul(b.p);
  VP_CHECK(p.data() == b.p && p.size() == k);
  auto t = best::text<typename X::E>::from_nul(b.p);
  VP_CHECK(t.has_value() == decode_all<X>(b.p, k).valid);
  if (t.has_value()) VP_CHECK(t->data() == b.p && t->size() == k);
  auto z = best::text<typename X::E>::from_nul(nullptr);
  VP_CHECK(z.has_value() && z->is_empty());
  VP_REACH();
}
// Slicing unvalidated text checks only the range.
VP_ENTRY(pretext_slice) {
  raw<U8> s(pick(VPQ(3, 5)));
  u64 st = any<u64>("start"), e = any<u64>("end");
  bool ok = st <= e && e <= s.b.n;
  auto p = s.pre();
  auto r = p.at({.start = st, .end = e});
  VP_CHECK(r.has_value() == ok);
  if (ok) VP_CHECK(r->data() == s.b.p + st && r->size() == e - st);
  VP_CRASHES_IFF(!ok, auto x = p[best::bounds{.start = st, .end = e}]; VP_CHECK(x.data() == s.b.p + st && x.size() == e - st));
  VP_REACH();
}
VP_ENTRY(defaults) {
  best::text<best::utf8> t; best::pretext<best::utf16> p;
  VP_CHECK(t.is_empty() && t.size() == 0 && t.data() != nullptr && p.is_empty() && p.data() != nullptr);
  best::text<best::utf8> l = "ab"; 
  VP_CHECK(l.size() == 2 && l.data()[1] == 'b' && l.is_rune_boundary(2) && !l.is_rune_boundary(3));
  VP_REACH();
}
#define ALL(f) \
  VP_ENTRY(f##_utf8) { f<U8>(); } \
  VP_ENTRY(f##_utf16) { f<U16>(); } \
  VP_ENTRY(f##_utf32) { f<U32>(); } \
  VP_ENTRY(f##_wtf8) { f<W8>(); } \
  VP_ENTRY(f##_ascii) { f<AS>(); } \
  VP_ENTRY(f##_latin1) { f<L1>(); }
ALL(slice) ALL(boundary) ALL(split_at) ALL(from) ALL(from_partial) ALL(from_nul)
