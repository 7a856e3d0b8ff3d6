// Access to spans.
// BOUND: spans of 0..4 (quick) / 0..8 (thorough) elements, of 1-, 4- and 12-byte element types, dynamic extent and static extents 0..4
// BOUND: every index, start, end, inclusive end and count at full machine width
#include <array>
#include "best/memory/span.h"
#include "best/text/format.h"
#include "best/log/wtf.h"
#include "vp.h"
using namespace vp;
struct trio { int a, b, c; bool operator==(const trio&) const = default; };
template <class T> static void put(T& x, u64 v) { if constexpr (__is_same(T, trio)) x = {(int)v, 1, 2}; else x = (T)v; }
constexpr size_t N() { return VPQ(4, 8); }

template <class T> struct mk {
  buf<T> b;
  explicit mk(size_t n) : b(n) { for (size_t i = 0; i < n; i++) put(b[i], i + 1); }
  best::span<T> s() { return best::span<T>(b.p, b.n); }
};
template <class S, class P> static void is(const S& s, P* p, size_t n) { VP_CHECK(s.data().raw() == p && s.size() == n); }

struct form { best::bounds b; u64 st; u128 end; bool rev; };
static form any_range(size_t n) {
  form f{};
  u64 e = any<u64>("end");
  f.st = any<u64>("start");
  f.b.start = f.st;
  f.end = n;
  u64 k = pick(3, "form");
  if (k == 1) f.b.end = e, f.end = e;
  if (k == 2) f.b.including_end = e, f.end = (u128)e + 1, f.rev = e < f.st;
  if (k == 3) f.b.count = e, f.end = (u128)f.st + e;
  return f;
}
template <class T> static void index() {
  mk<T> m(pick(N()));
  size_t n = m.b.n;
  u64 i = any<u64>("i");
  auto s = m.s();
  best::span<const T> c = s;
  auto r = s.at((size_t)i);
  VP_CHECK(r.has_value() == (i < n));
  if (i < n) {
    VP_CHECK(&*r == m.b.p + i);
    VP_CHECK(&s.at(best::unsafe("i < n"), (size_t)i) == m.b.p + i);
    VP_CHECK(&*c.at((size_t)i) == m.b.p + i);
  }
  VP_CRASHES_IFF(i >= n, T& x = s[i]; VP_CHECK(&x == m.b.p + i));
  VP_REACH();
}
template <class T> static void slice() {
  mk<T> m(pick(N()));
  size_t n = m.b.n;
  form f = any_range(n);
  bool ok = !f.rev & (f.st <= f.end) & (f.end <= n);
  auto s = m.s();
  auto r = s.at(f.b);
  VP_CHECK(r.has_value() == ok);
  if (ok) {
    is(*r, m.b.p + f.st, (size_t)f.end - f.st);
    is(s.at(best::unsafe("ok"), f.b), m.b.p + f.st, (size_t)f.end - f.st);
    vp_observe(r->size());
  }
  VP_CRASHES_IFF(!ok, auto x = s[f.b]; is(x, m.b.p + f.st, (size_t)f.end - f.st));
  VP_REACH();
}
template <class T, size_t n> static void fixed_one() {
  mk<T> m(n);
  best::span<T, n> s(m.b.p, n);
  is(s, m.b.p, n);
  u64 i = any<u64>("i");
  auto r = s.at((size_t)i);
  VP_CHECK(r.has_value() == (i < n));
  if (i < n) VP_CHECK(&*r == m.b.p + i);
  form f = any_range(n);
  bool ok = !f.rev & (f.st <= f.end) & (f.end <= n);
  auto q = s.at(f.b);
  VP_CHECK(q.has_value() == ok);
  if (ok) is(*q, m.b.p + f.st, (size_t)f.end - f.st);
  VP_REACH();
  VP_CRASHES_IFF(!ok, auto x = s[f.b]; is(x, m.b.p + f.st, (size_t)f.end - f.st));
  VP_CRASHES_IFF(i >= n, T& x = s[i]; VP_CHECK(&x == m.b.p + i));
}
// A static span can only designate exactly that many elements.
template <class T, size_t n> static void fixed_ctor() {
  mk<T> m(n);
  u64 k = any<u64>("k");
  VP_CRASHES_IFF(k != n, best::span<T, n> s(m.b.p, k); is(s, m.b.p, n));
  size_t j = pick(N(), "j");
  mk<T> o(j);
  best::span<T> d = o.s();
  VP_CRASHES_IFF(j != n, best::span<T, n> s(d); is(s, o.b.p, n));
  VP_REACH();
}
template <class T> static void ends() {
  mk<T> m(pick(N()));
  size_t n = m.b.n;
  T* p = m.b.p;
  auto s = m.s();
  VP_CHECK(s.is_empty() == (n == 0));
  VP_CHECK(s.first().has_value() == (n > 0) && s.last().has_value() == (n > 0));
  if (n) VP_CHECK(&*s.first() == p && &*s.last() == p + n - 1);
  auto sf = s.split_first();
  auto sl = s.split_last();
  VP_CHECK(sf.has_value() == (n > 0) && sl.has_value() == (n > 0));
  if (n) {
    VP_CHECK(&sf->first() == p && &sl->first() == p + n - 1);
    is(sf->second(), p + 1, n - 1);
    is(sl->second(), p, n - 1);
  }
  VP_REACH();
}
template <class T, size_t k> static void ends_k() {
  mk<T> m(pick(N()));
  size_t n = m.b.n;
  T* p = m.b.p;
  auto s = m.s();
  auto f = s.first(best::index<k>);
  auto l = s.last(best::index<k>);
  auto sf = s.split_first(best::index<k>);
  auto sl = s.split_last(best::index<k>);
  VP_CHECK(f.has_value() == (k <= n) && l.has_value() == (k <= n) && sf.has_value() == (k <= n) && sl.has_value() == (k <= n));
  if (k <= n) {
    is(*f, p, k); is(*l, p + n - k, k);
    is(sf->first(), p, k); is(sf->second(), p + k, n - k);
    is(sl->first(), p + n - k, k); is(sl->second(), p, n - k);
  }
  VP_REACH();
  VP_CRASHES_IFF(k >= n, T& x = s[best::index<k>]; VP_CHECK(&x == p + k));
}
template <class T> static void split_at() {
  mk<T> m(pick(N()));
  size_t n = m.b.n;
  T* p = m.b.p;
  u64 i = any<u64>("i");
  auto s = m.s();
  auto r = s.split_at(i);
  VP_CHECK(r.has_value() == (i <= n));
  if (r.has_value()) { is((*r)[0], p, i); is((*r)[1], p + i, n - i); }
  VP_REACH();
}
template <class T> static void take() {
  mk<T> m(pick(N()));
  size_t n = m.b.n;
  T* p = m.b.p;
  auto s = m.s();
  size_t a = 0, b = n;
  for (int k = 0; k < 2; k++) {
    u64 i = any<u64>("i");
    bool last = pick(1, "last");
    auto r = last ? s.take_last(i) : s.take_first(i);
    VP_CHECK(r.has_value() == (i <= b - a));
    if (r.has_value()) {
      if (last) { is(*r, p + b - i, i); b -= i; } else { is(*r, p + a, i); a += i; }
    }
    is(s, p + a, b - a);
  }
  VP_REACH();
}
template <class T> static void iterate() {
  mk<T> m(pick(N()));
  size_t n = m.b.n;
  T* p = m.b.p;
  auto s = m.s();
  auto it = s.iter();
  size_t a = 0, b = n;
  while (a < b) {
    VP_CHECK(it.size_hint().lower == b - a && *it.size_hint().upper == b - a);
    is(it->rest(), p + a, b - a);
    if (pick(1, "back")) { auto r = it.next_back(); VP_CHECK(r.has_value() && &*r == p + --b); }
    else { auto r = it.next(); VP_CHECK(r.has_value() && &*r == p + a++); }
  }
  VP_CHECK(!it.next().has_value() && !it.next_back().has_value() && !it.next().has_value());
  VP_CHECK(s.iter().count() == n);
  auto l = s.iter().last();
  VP_CHECK(l.has_value() == (n > 0) && (n == 0 || &*l == p + n - 1));
  size_t i = 0;
  for (T& x : s) { VP_CHECK(i < n && &x == p + i); i++; }
  VP_CHECK(i == n);
  VP_REACH();
}
template <class T> static void rearrange() {
  size_t n = pick(N());
  buf<T> b(n);
  for (size_t i = 0; i < n; i++) put(b[i], i + 1);
  best::span<T> s(b.p, n);
  u64 i = any<u64>("i"), j = any<u64>("j");
  VP_CRASHES_IFF(i >= n || j >= n,
    s.swap(i, j);
    for (size_t k = 0; k < n; k++) { T want; put(want, (k == i ? j : k == j ? i : k) + 1); VP_CHECK(b[k] == want); }
    s.swap(i, j));
  s.reverse();
  for (size_t k = 0; k < n; k++) { T want; put(want, n - k); VP_CHECK(b[k] == want); }
  VP_REACH();
}
template <class T> static void subarray() {
  mk<T> m(pick(N()));
  size_t n = m.b.n;
  u64 a = pick(N(), "a"), b = pick(N(), "b"), c = pick(N(), "c"), d = pick(N(), "d");
  vp_assume(a <= b && b <= n && c <= d && d <= n);
  best::span<T> x(m.b.p + a, b - a), y(m.b.p + c, d - c);
  bool got = x.has_subarray(y);
  VP_CHECK(got == (a <= c && d <= b));
  VP_REACH();
}
template <class T> static void from_nul() {
  size_t n = pick(N());
  buf<T> b(n + 1, "s");
  vp_assume(b[n] == T{0});
  size_t k = 0;
  while (b[k] != T{0}) k++;
  auto s = best::span<T>::from_nul(b.p);
  is(s, b.p, k);
  auto z = best::span<T>::from_nul(nullptr);
  VP_CHECK(z.is_empty());
  VP_REACH();
}
template <class T> static void compile_time_ranges() {
  mk<T> m(4);
  best::span<T, 4> s(m.b.p, 4);
  is(s[best::vals<best::bounds{.start = 1, .end = 3}>], m.b.p + 1, 2);
  is(s[best::vals<best::bounds{.start = 1, .including_end = 3}>], m.b.p + 1, 3);
  is(s[best::vals<best::bounds{.start = 2, .count = 2}>], m.b.p + 2, 2);
  is(s[best::vals<best::bounds{.start = 4}>], m.b.p + 4, 0);
  is(s[best::vals<best::bounds{.end = 0}>], m.b.p, 0);
  VP_CHECK(&s[best::index<3>] == m.b.p + 3);
  auto f = s.split_first(); 
  is(f->second(), m.b.p + 1, 3);
  auto l = s.split_last(best::index<3>);
  is(l->first(), m.b.p + 1, 3); is(l->second(), m.b.p, 1);
  is(*s.first(best::index<4>), m.b.p, 4);
  VP_CHECK(!s.first(best::index<5>).has_value() && !s.last(best::index<5>).has_value());
  VP_REACH();
}
VP_ENTRY(from_ranges) {
  int a[3] = {1, 2, 3};
  std::array<int, 2> ar = {4, 5};
  best::span s(a);
  is(s, &a[0], 3);
  best::span t(ar);
  is(t, ar.data(), 2);
  best::span<int, 3> u(a);
  is(u, &a[0], 3);
  auto v = best::from_static(a);
  is(v, &a[0], 3);
  best::span<const int> w = s;
  is(w, &a[0], 3);
  best::span<int> e;
  VP_CHECK(e.is_empty() && e.size() == 0 && e.data().raw() == nullptr);
  best::span<int, 0> z;
  VP_CHECK(z.is_empty() && !z.first() && !z.last() && !z.at(0));
  VP_CHECK(best::size(a) == 3 && best::data(a) == a && best::size(ar) == 2 && best::size(s) == 3);
  VP_REACH();
}
#define ALL(f) VP_ENTRY(f##_char) { f<char>(); } VP_ENTRY(f##_int) { f<int>(); } VP_ENTRY(f##_trio) { f<trio>(); }
ALL(index) ALL(slice) ALL(ends) ALL(split_at) ALL(take) ALL(iterate) ALL(rearrange) ALL(subarray) ALL(compile_time_ranges)
VP_ENTRY(from_nul_char) { from_nul<char>(); }
VP_ENTRY(from_nul_u16) { from_nul<char16_t>(); }
VP_ENTRY(from_nul_int) { from_nul<int>(); }
#define K(k) VP_ENTRY(ends_##k##_int) { ends_k<int, k>(); } VP_ENTRY(ends_##k##_trio) { ends_k<trio, k>(); } \
  VP_ENTRY(fixed_ctor_##k) { fixed_ctor<int, k>(); } VP_ENTRY(fixed_##k##_int) { fixed_one<int, k>(); } VP_ENTRY(fixed_##k##_char) { fixed_one<char, k>(); }
K(0) K(1) K(2) K(3) K(4)
