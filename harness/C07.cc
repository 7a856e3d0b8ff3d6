// Integer ranges yield each integer once, in order.
// BOUND: every start at full width for u8,i8,u16,i32,u64,i64, lengths 0..4 (quick) / 0..7 (thorough) consumed from both ends in every interleaving;
// BOUND: count/last/size hint for every length at full width; the full u8/i8 range is iterated completely
#include "best/container/option.h"
#include "best/iter/bounds.h"
#include "best/iter/iter.h"
#include "vp.h"
using namespace vp;
template <class T> constexpr i128 MAX = (i128)(T)((__make_unsigned(T))-1 >> ((T)-1 < 0));
template <class T> constexpr i128 MIN = -(MAX<T> + 1) * ((T)-1 < 0);

// a range of exactly n integers from s, in one of the three forms
template <class T> static best::int_range<T> make(T s, u64 n) {
  best::int_range<T> r{.start = s};
  switch (pick(2, "form")) {
    case 0: vp_assume((i128)s + (i128)n <= MAX<T>); r.end = (T)((i128)s + (i128)n); break;
    case 1: vp_assume(n >= 1 && (i128)s + (i128)n - 1 <= MAX<T>); r.including_end = (T)((i128)s + (i128)n - 1); break;
    default: vp_assume((i128)n <= MAX<T> && (i128)s + (i128)n - 1 <= MAX<T>); r.count = (T)n; break;
  }
  return r;
}
template <class T> static void walk() {
  T s = any<T>("start");
  u64 n = pick(VPQ(4, 7), "len");
  auto r = make<T>(s, n);
  auto it = r.iter();
  T lo = s; u64 left = n;
  while (true) {
    auto h = it.size_hint();
    VP_CHECK(h.lower <= left && (!h.upper.has_value() || *h.upper >= left));
    bool back = any<bool>("back");
    auto v = back ? it.next_back() : it.next();
    VP_CHECK(v.has_value() == (left > 0));
    if (left == 0) break;
    vp_observe((u64)*v);
    if (back) VP_CHECK((i128)*v == (i128)lo + (i128)left - 1);
    else { VP_CHECK(*v == lo); lo = (T)((i128)lo + 1); }
    left--;
  }
  VP_CHECK(!it.next().has_value());
  VP_CHECK(!it.next_back().has_value());
  VP_REACH();
}
template <class T> static void queries() {
  T s = any<T>("start");
  u64 n = any<u64>("len");
  vp_assume((i128)n <= MAX<T> - MIN<T>);
  auto r = make<T>(s, n);
  auto h = r.iter().size_hint();
  VP_CHECK(h.lower <= n && (!h.upper.has_value() || *h.upper >= n));
  VP_CHECK(r.iter().count() == n);
  auto l = r.iter().last();
  VP_CHECK(l.has_value() == (n > 0));
  if (n > 0) { VP_CHECK((i128)*l == (i128)s + (i128)n - 1); vp_observe((u64)*l); }
  VP_REACH();
}
// after consuming some elements
template <class T> static void queries_after() {
  T s = any<T>("start");
  u64 n = any<u64>("len");
  vp_assume((i128)n <= MAX<T> - MIN<T> && n >= 2);
  auto r = make<T>(s, n);
  auto a = r.iter(); a.next(); a.next();
  VP_CHECK(BEST_MOVE(a).count() == n - 2);
  auto b = r.iter(); b.next_back();
  auto l = BEST_MOVE(b).last();
  VP_CHECK(l.has_value() && (i128)*l == (i128)s + (i128)n - 2);
  auto c = r.iter(); c.next(); c.next();
  auto m = BEST_MOVE(c).last();
  VP_CHECK(m.has_value() == (n > 2));
  if (n > 2) VP_CHECK((i128)*m == (i128)s + (i128)n - 1);
  VP_REACH();
}
template <class T> static void range_for() {
  T s = any<T>("start");
  u64 n = pick(VPQ(3, 6), "len");
  auto r = make<T>(s, n);
  u64 k = 0;
  for (auto v : r) { VP_CHECK((i128)v == (i128)s + (i128)k); k++; }
  VP_CHECK(k == n);
  VP_REACH();
}
template <class T> static void reversed() {  // a range whose end precedes its start has no elements
  T s = any<T>("start"), e = any<T>("end");
  vp_assume(e < s);
  best::int_range<T> r{.start = s};
  if (any<bool>("incl")) r.including_end = e; else r.end = e;
  VP_CHECK(!r.iter().next().has_value());
  VP_CHECK(!r.iter().next_back().has_value());
  VP_CHECK(r.iter().count() == 0);
  VP_CHECK(!r.iter().last().has_value());
  VP_REACH();
}
template <class T> static void full() {  // every integer of the type
  best::int_range<T> r{.start = (T)MIN<T>};
  if (any<bool>("incl")) r.including_end = (T)MAX<T>;
  u128 want = (u128)(MAX<T> - MIN<T>) + 1;
  VP_CHECK(r.iter().count() == (u64)want);
  auto l = r.iter().last();
  VP_CHECK(l.has_value() && *l == (T)MAX<T>);
  auto it = r.iter();
  auto h = it.size_hint();
  if (want <= (u64)-1) VP_CHECK(h.lower <= want && (!h.upper.has_value() || *h.upper >= want));
  auto x = it.next(), y = it.next_back(), z = it.next();
  VP_CHECK(x.has_value() && *x == (T)MIN<T>);
  VP_CHECK(y.has_value() && *y == (T)MAX<T>);
  VP_CHECK(z.has_value() && *z == (T)(MIN<T> + 1));
  h = it.size_hint();
  VP_CHECK(h.lower <= want - 3 && (!h.upper.has_value() || *h.upper >= want - 3));
  VP_CHECK(BEST_MOVE(it).count() == (u64)(want - 3));
  VP_REACH();
}
template <class T> static void all8() {
  best::int_range<T> r{.start = (T)MIN<T>};
  int k = 0;
  bool back = any<bool>("back");
  auto it = r.iter();
  while (true) {
    auto v = back ? it.next_back() : it.next();
    if (!v.has_value()) break;
    VP_CHECK((int)*v == (back ? (int)MAX<T> - k : (int)MIN<T> + k));
    k++;
    if (k > 256) break;
  }
  VP_CHECK(k == 256);
  VP_REACH();
}
// When more than one way to end the range is given, the first of end, including_end and count wins.
template <class T> static void priority() {
  T s = any<T>("start"), e = any<T>("end"), ie = any<T>("including_end"), c = any<T>("count");
  best::int_range<T> r{.start = s};
  u32 mask = pick(8, "set");
  if (mask & 1) r.end = e;
  if (mask & 2) r.including_end = ie;
  if (mask & 4) { vp_assume(c >= 0); r.count = c; }
  i128 n;
  if (mask & 1) n = (i128)e - s;
  else if (mask & 2) n = (i128)ie - s + 1;
  else if (mask & 4) n = c;
  else return;
  if (n < 0) n = 0;
  vp_assume((i128)s + n - 1 <= MAX<T>);
  VP_CHECK(r.iter().count() == (u64)n);
  auto x = r.iter().next();
  VP_CHECK(x.has_value() == (n > 0));
  if (n > 0) VP_CHECK(*x == s);
  auto l = r.iter().last();
  VP_CHECK(l.has_value() == (n > 0));
  if (n > 0) { VP_CHECK((i128)*l == (i128)s + n - 1); vp_observe((u64)*l); }
  VP_REACH();
}
#define ALL(T) \
  VP_ENTRY(walk_##T) { walk<T>(); } \
  VP_ENTRY(queries_##T) { queries<T>(); } \
  VP_ENTRY(after_##T) { queries_after<T>(); } \
  VP_ENTRY(for_##T) { range_for<T>(); } \
  VP_ENTRY(reversed_##T) { reversed<T>(); } \
  VP_ENTRY(full_##T) { full<T>(); } \
  VP_ENTRY(prio_##T) { priority<T>(); }
ALL(u8) ALL(i8) ALL(u16) ALL(i32) ALL(u64) ALL(i64)
VP_ENTRY(all8_u8) { all8<u8>(); }
VP_ENTRY(all8_i8) { all8<i8>(); }
