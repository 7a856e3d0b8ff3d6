// Rune iteration.
// BOUND: valid strings of 0..4 (quick) / 0..6 (thorough) code units in UTF-8, 0..3 / 0..5 in WTF-8 and UTF-16, 0..3 / 0..4 in UTF-32, ASCII and Latin-1, every content
// BOUND: arbitrary strings of the same lengths, except UTF-8 0..3 / 0..5 (whole iterations; one step: 0..4 / 0..6)
// BOUND: every interleaving of next() and next_back()
#include "best/text/str.h"
#include "best/text/format.h"
#include "best/log/wtf.h"
#include "enc.h"
using namespace vp;

template <class X> constexpr size_t N() {
  if (__is_same(X, U8)) return VPQ(4, 6);
  if (__is_same(X, W8)) return VPQ(3, 5);
  if (__is_same(X, U16)) return VPQ(3, 5);
  return VPQ(3, 4);
}
static bool holds(best::size_hint h, size_t n) { return h.lower <= n && (!h.upper.has_value() || n <= *h.upper); }

template <class I> static void ended(I& it) {
  VP_CHECK(!it.next().has_value() && !it.next_back().has_value() && !it.next().has_value());
  VP_CHECK(it->rest().is_empty());
}
// Valid text: runes, from both ends.
template <class X> static void text_runes() {
  str<X> s(pick(N<X>()));
  auto& d = s.d;
  auto t = s.text();
  auto it = t.runes();
  size_t a = 0, b = d.k;
  while (a < b) {
    VP_CHECK(holds(it.size_hint(), b - a));
    VP_CHECK(it->rest().data() == s.b.p + d.off[a] && it->rest().size() == d.off[b] - d.off[a]);
    if (pick(1, "back")) {
      auto r = it.next_back();
      VP_CHECK(r.has_value() && r->to_int() == d.r[--b]);
    } else {
      auto r = it.next();
      VP_CHECK(r.has_value() && r->to_int() == d.r[a++]);
    }
  }
  VP_CHECK(holds(it.size_hint(), 0));
  ended(it);
  VP_CHECK(t.runes().count() == d.k);
  size_t i = 0;
  for (best::rune r : t.runes()) { VP_CHECK(i < d.k && r.to_int() == d.r[i]); i++; }
  VP_CHECK(i == d.k);
  vp_observe(i);
  VP_REACH();
}
template <class X> static void text_indices() {
  str<X> s(pick(N<X>()));
  auto& d = s.d;
  auto t = s.text();
  auto it = t.rune_indices();
  size_t a = 0, b = d.k;
  while (a < b) {
    VP_CHECK(holds(it.size_hint(), b - a));
    VP_CHECK(it->rest().data() == s.b.p + d.off[a] && it->rest().size() == d.off[b] - d.off[a]);
    if (pick(1, "back")) {
      auto r = it.next_back();
      --b;
      VP_CHECK(r.has_value() && r->first() == d.off[b] && r->second().to_int() == d.r[b]);
    } else {
      auto r = it.next();
      VP_CHECK(r.has_value() && r->first() == d.off[a] && r->second().to_int() == d.r[a]);
      a++;
    }
  }
  ended(it);
  VP_CHECK(t.rune_indices().count() == d.k);
  size_t i = 0;
  for (auto [at, r] : t.rune_indices()) { VP_CHECK(i < d.k && at == d.off[i] && r.to_int() == d.r[i]); i++; }
  VP_CHECK(i == d.k);
  VP_REACH();
}
// Unvalidated text: one code unit at a time is skipped where nothing decodes.
struct step { i32 v; size_t lo, hi; };
template <class X> static step fwd(const typename X::C* p, size_t a, size_t b) {
  i32 l, v = X::ref(p + a, b - a, &l);
  return {v, a, v < 0 ? a + 1 : a + l};
}
template <class X> static step bwd(const typename X::C* p, size_t a, size_t b) {
  for (size_t k = 1; k <= 4 && k <= b - a; k++) {
    i32 l, v = X::ref(p + b - k, k, &l);
    if (v >= 0 && (size_t)l == k) return {v, b - k, b};
  }
  return {-1, b - 1, b};
}
template <class X> constexpr size_t NR() { return __is_same(X, U8) ? VPQ(3, 4) : __is_same(X, W8) ? VPQ(2, 4) : N<X>(); }
template <class X> static void pre_runes() {
  raw<X> s(pick(NR<X>()));
  auto t = s.pre();
  auto e = t.try_runes();
  auto r = t.runes();
  auto x = t.rune_indices();
  size_t a = 0, b = s.b.n;
  while (a < b) {
    VP_CHECK(e->rest().data() == s.b.p + a && e->rest().size() == b - a);
    VP_CHECK(r->rest().data() == s.b.p + a && r->rest().size() == b - a);
    VP_CHECK(x->rest().data() == s.b.p + a && x->rest().size() == b - a);
    // some number of steps remains; each takes one to four code units
    auto h = r.size_hint();
    VP_CHECK(h.lower <= b - a && (!h.upper || *h.upper >= (b - a + 3) / 4));
    bool back = pick(1, "back");
    step w = back ? bwd<X>(s.b.p, a, b) : fwd<X>(s.b.p, a, b);
    auto ge = back ? e.next_back() : e.next();
    auto gr = back ? r.next_back() : r.next();
    auto gx = back ? x.next_back() : x.next();
    VP_CHECK(ge.has_value() && gr.has_value() && gx.has_value());
    VP_CHECK(bool(*ge) == (w.v >= 0));
    u32 v = w.v < 0 ? 0xfffd : (u32)w.v;
    if (w.v >= 0) VP_CHECK(ge->ok()->to_int() == v);
    VP_CHECK(gr->to_int() == v);
    VP_CHECK(gx->first() == w.lo && gx->second().to_int() == v);
    if (back) b = w.lo; else a = w.hi;
  }
  ended(e); ended(r); ended(x);
  VP_REACH();
}
template <class X> constexpr size_t NP() { return __is_same(X, U8) ? VPQ(3, 5) : N<X>(); }
template <class X> static void pre_all() {
  raw<X> s(pick(NP<X>()));
  auto t = s.pre();
  size_t n = 0, a = 0;
  step w[8];
  while (a < s.b.n) { w[n] = fwd<X>(s.b.p, a, s.b.n); a = w[n++].hi; }
  VP_CHECK(holds(t.runes().size_hint(), n) && holds(t.try_runes().size_hint(), n) && holds(t.rune_indices().size_hint(), n));
  VP_CHECK(t.runes().count() == n && t.rune_indices().count() == n);
  a = 0;
  for (best::rune r : t.runes()) {
    VP_CHECK(a < n && r.to_int() == (w[a].v < 0 ? 0xfffdu : (u32)w[a].v));
    a++;
  }
  VP_CHECK(a == n);
  VP_REACH();
}
// One step from either end, in a longer string.
template <class X> static void pre_step() {
  raw<X> s(1 + pick(N<X>() - 1));
  auto t = s.pre();
  auto e = t.try_runes();
  auto x = t.rune_indices();
  bool back = pick(1, "back");
  size_t n = s.b.n;
  step w = back ? bwd<X>(s.b.p, 0, n) : fwd<X>(s.b.p, 0, n);
  auto ge = back ? e.next_back() : e.next();
  auto gx = back ? x.next_back() : x.next();
  VP_CHECK(ge.has_value() && gx.has_value());
  VP_CHECK(bool(*ge) == (w.v >= 0));
  if (w.v >= 0) VP_CHECK(ge->ok()->to_int() == (u32)w.v);
  VP_CHECK(gx->first() == w.lo && gx->second().to_int() == (w.v < 0 ? 0xfffdu : (u32)w.v));
  VP_CHECK(e->rest().size() == (back ? w.lo : n - w.hi) && e->rest().data() == s.b.p + (back ? 0 : w.hi));
  VP_REACH();
}
#define ALL(f) \
  VP_ENTRY(f##_utf8) { f<U8>(); } \
  VP_ENTRY(f##_utf16) { f<U16>(); } \
  VP_ENTRY(f##_utf32) { f<U32>(); } \
  VP_ENTRY(f##_wtf8) { f<W8>(); } \
  VP_ENTRY(f##_ascii) { f<AS>(); } \
  VP_ENTRY(f##_latin1) { f<L1>(); }
ALL(text_runes) ALL(text_indices) ALL(pre_runes) ALL(pre_all) ALL(pre_step)
