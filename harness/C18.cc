// Comparing, sorting, bisecting and copying spans.
// BOUND: pairs of spans of 0..3 (quick) / 0..4 (thorough) elements, every content, for characters, 16-, 32- and 64-bit integers of both signs, pointers, enums, and classes with their own order
// BOUND: sorting 0..4 / 0..5 elements (the library sort used for longer spans switches algorithm at 16, which is outside)
#include "best/memory/span.h"
#include "best/memory/span_sort.h"
#include "best/text/format.h"
#include "best/log/wtf.h"
#include "vp.h"
using namespace vp;

struct dec { // ordered by descending value, all bits significant
  int v;
  bool operator==(const dec&) const = default;
  best::ord operator<=>(const dec& o) const { return o.v <=> v; }
};
struct par { // partially ordered: negative values are unordered with everything but themselves
  int v;
  bool operator==(const par&) const = default;
  best::partial_ord operator<=>(const par& o) const {
    if (v == o.v) return best::partial_ord::equivalent;
    if (v < 0 || o.v < 0) return best::partial_ord::unordered;
    return v <=> o.v;
  }
};
enum class en : i16 {};
static int pool[4];
template <class T> static void fill(T& x) {
  if constexpr (__is_same(T, dec) || __is_same(T, par)) x.v = any<int>("x");
  else if constexpr (__is_same(T, int*)) x = pool + upto(3, "x");
  else if constexpr (__is_same(T, en)) x = en(any<i16>("x"));
  else x = any<T>("x");
}
template <class T> struct seq {
  buf<T> b;
  seq(size_t n) : b(n) { for (size_t i = 0; i < n; i++) fill(b[i]); }
  best::span<T> s() { return best::span<T>(b.p, b.n); }
  best::span<const T> c() { return best::span<const T>(b.p, b.n); }
};
constexpr size_t N() { return VPQ(3, 4); }
// characters compare as bytes do
template <class T> static auto cmp1(const T& a, const T& b) {
  if constexpr (__is_same(T, char)) return (u8)a <=> (u8)b; else return a <=> b;
}
template <class T> static best::partial_ord lex(const buf<T>& a, const buf<T>& b) {
  for (size_t i = 0; i < a.n && i < b.n; i++) {
    best::partial_ord o = cmp1(a[i], b[i]);
    if (o != 0) return o;
  }
  return a.n <=> b.n;
}
template <class T> static void order() {
  seq<T> a(pick(N(), "n")), b(pick(N(), "m"));
  best::partial_ord want = lex(a.b, b.b);
  best::partial_ord got = a.s() <=> b.c();
  VP_CHECK(got == want);
  bool eq = a.b.n == b.b.n;
  for (size_t i = 0; i < a.b.n && i < b.b.n; i++) eq &= a.b[i] == b.b[i];
  VP_CHECK((a.s() == b.c()) == eq && (a.c() != b.s()) == !eq);
  VP_CHECK((a.s() < b.s()) == (want < 0) && (a.s() >= b.s()) == (want >= 0));
  vp_observe((want < 0) + 2 * (want == 0));
  VP_REACH();
}
// the same elements at the same address
VP_ENTRY(order_alias) {
  seq<int> a(3);
  size_t i = pick(3, "i"), j = pick(3, "j");
  best::span<int> x(a.b.p, i), y(a.b.p, j);
  VP_CHECK((x <=> y) == (i <=> j) && (x == y) == (i == j));
  seq<char> c(3);
  best::span<char> p(c.b.p, i), q(c.b.p, j);
  VP_CHECK((p <=> q) == (i <=> j) && (p == q) == (i == j));
  VP_REACH();
}
VP_ENTRY(order_mixed) {
  size_t n = pick(3, "n"), m = pick(3, "m");
  buf<i16> a(n, "x"); buf<int> b(m, "y");
  best::span<i16> s(a.p, n); best::span<int> t(b.p, m);
  best::partial_ord want = n <=> m;
  for (size_t i = n < m ? n : m; i-- > 0;) if (a[i] != b[i]) want = a[i] < b[i] ? best::partial_ord::less : best::partial_ord::greater;
  VP_CHECK((s <=> t) == want && (s == t) == (want == 0));
  VP_REACH();
}
VP_ENTRY(order_fixed) {
  buf<int> a(2, "x"), b(3, "y");
  best::span<int, 2> s(a.p, 2); best::span<int, 3> t(b.p, 3);
  best::partial_ord want = lex(a, b);
  VP_CHECK((s <=> t) == want && !(s == t));
  best::span<int, 2> u(b.p, 2);
  VP_CHECK((s == u) == (a[0] == b[0] && a[1] == b[1]));
  VP_REACH();
}
// A permutation of the old contents, in order; `stable` keeps equal keys in order.
struct kv { int k, id; };
template <class Less> static void sorted(const buf<kv>& b, const buf<kv>& old, Less less, bool stable) {
  size_t n = b.n;
  for (size_t i = 0; i + 1 < n; i++) {
    VP_CHECK(!less(b[i + 1].k, b[i].k));
    if (stable) VP_CHECK(less(b[i].k, b[i + 1].k) || b[i].id < b[i + 1].id);
  }
  // the identities are 0..n-1, and each still has its key
  u32 seen = 0;
  for (size_t i = 0; i < n; i++) {
    VP_CHECK(b[i].id >= 0 && b[i].id < (int)n);
    seen |= 1u << (b[i].id & 7);
    int key = 0;
    for (size_t j = 0; j < n; j++) if (b[i].id == (int)j) key = old[j].k;
    VP_CHECK(b[i].k == key);
  }
  VP_CHECK(seen == (1u << n) - 1);
}
template <bool stable, int how> static void sorts() {
  size_t n = pick(VPQ(stable ? 3 : 4, 5), "n");
  buf<kv> b(n), old(n);
  for (size_t i = 0; i < n; i++) old[i] = b[i] = {any<int>("k"), (int)i};
  best::span<kv> s(b.p, n);
  auto up = [](int x, int y) { return x < y; };
  auto down = [](int x, int y) { return x > y; };
  if constexpr (how == 0) {  // by key
    auto key = [](const kv& x) -> const int& { return x.k; };
    if (stable) s.stable_sort(key); else s.sort(key);
    sorted(b, old, up, stable);
  } else {                   // by comparison
    auto c = [](const kv& x, const kv& y) -> best::partial_ord { return y.k <=> x.k; };
    if (stable) s.stable_sort(c); else s.sort(c);
    sorted(b, old, down, stable);
  }
  VP_REACH();
}
VP_ENTRY(sort_key) { sorts<false, 0>(); }
VP_ENTRY(sort_cmp) { sorts<false, 1>(); }
VP_ENTRY(stable_sort_key) { sorts<true, 0>(); }
VP_ENTRY(stable_sort_cmp) { sorts<true, 1>(); }
template <bool stable> static void sort_plain() {
  size_t n = pick(VPQ(stable ? 3 : 4, 5), "n");
  buf<dec> b(n), old(n);
  for (size_t i = 0; i < n; i++) old[i].v = b[i].v = any<int>("x");
  best::span<dec> s(b.p, n);
  if (stable) s.stable_sort(); else s.sort();
  for (size_t i = 0; i + 1 < n; i++) VP_CHECK(b[i] <= b[i + 1]);
  // every value occurs as often as before
  for (size_t i = 0; i < n; i++) {
    size_t c = 0, d = 0;
    for (size_t j = 0; j < n; j++) c += b[j] == b[i], d += old[j] == b[i];
    VP_CHECK(c == d);
  }
  VP_REACH();
}
VP_ENTRY(sort) { sort_plain<false>(); }
VP_ENTRY(stable_sort) { sort_plain<true>(); }
// In an ordered span: found where it is, or refused with its place.
template <class F> static void bisects(F f) {
  size_t n = pick(VPQ(5, 9), "n");
  buf<int> b(n, "x");
  for (size_t i = 0; i + 1 < n; i++) vp_assume(b[i] <= b[i + 1]);
  int x = any<int>("sought");
  bool has = false;
  for (size_t i = 0; i < n; i++) has |= b[i] == x;
  auto r = f(best::span<const int>(b.p, n), x);
  VP_CHECK(bool(r) == has);
  if (r) { VP_CHECK(*r.ok() < n && b[*r.ok()] == x); vp_observe(*r.ok()); }
  else {
    size_t i = *r.err();
    VP_CHECK(i <= n && (i == 0 || b[i - 1] < x) && (i == n || x < b[i]));
    vp_observe(i);
  }
  VP_REACH();
}
VP_ENTRY(bisect_value) { bisects([](auto s, int x) { return s.bisect(x); }); }
VP_ENTRY(bisect_key) { bisects([](auto s, int x) { return s.bisect((long)x, [](const int& y) { return (long)y; }); }); }
VP_ENTRY(bisect_cmp) { bisects([](auto s, int x) { return s.bisect([=](const int& y) -> best::partial_ord { return y <=> x; }); }); }
// any comparison at all: terminates in bounds
VP_ENTRY(bisect_arbitrary) {
  size_t n = pick(VPQ(6, 9), "n");
  buf<int> b(n);
  best::span<int> s(b.p, n);
  auto r = s.bisect([&](const int& y) -> best::partial_ord {
    VP_CHECK(&y >= b.p && &y < b.p + n);
    u64 k = pick(2, "c");
    return k == 0 ? best::partial_ord::less : k == 1 ? best::partial_ord::equivalent : best::partial_ord::greater;
  });
  VP_CHECK(r ? *r.ok() < n : *r.err() <= n);
  VP_REACH();
}
template <class T, class U = T> static void copies() {
  size_t n = pick(N(), "n"), m = pick(N(), "m");
  buf<T> d(n, "d"), old(n); buf<U> s(m, "s");
  for (size_t i = 0; i < n; i++) old[i] = d[i];
  best::span<T>(d.p, n).copy_from(best::span<const U>(s.p, m));
  for (size_t i = 0; i < n; i++) VP_CHECK(d[i] == (i < m ? (T)s[i] : old[i]));
  VP_REACH();
}
VP_ENTRY(copy_int) { copies<int>(); }
VP_ENTRY(copy_char) { copies<char>(); }
VP_ENTRY(copy_widen) { copies<int, i16>(); }
// Source and destination in the same array.
template <class T> static void copy_overlap() {
  size_t n = VPQ(4, 6), a = pick(n, "a"), b = pick(n, "b"), k = pick(n, "k");
  vp_assume(a + k <= n && b + k <= n);
  buf<T> d(n, "d"), old(n);
  for (size_t i = 0; i < n; i++) old[i] = d[i];
  best::span<T>(d.p + a, k).copy_from(best::span<const T>(d.p + b, k));
  for (size_t i = 0; i < n; i++) VP_CHECK(d[i] == (i >= a && i < a + k ? old[i - a + b] : old[i]));
  VP_REACH();
}
VP_ENTRY(copy_overlap_int) { copy_overlap<int>(); }
VP_ENTRY(copy_overlap_tracked) {
  size_t a = pick(4, "a"), b = pick(4, "b"), k = pick(4, "k");
  vp_assume(a + k <= 4 && b + k <= 4);
  {
    tracked d[4] = {10, 11, 12, 13};
    best::span<tracked>(d + a, k).copy_from(best::span<const tracked>(d + b, k));
    for (size_t i = 0; i < 4; i++) VP_CHECK(d[i].v == (int)(i >= a && i < a + k ? 10 + i - a + b : 10 + i));
    VP_CHECK(L.live == 4);
  }
  VP_CHECK(L.live == 0);
  VP_REACH();
}
VP_ENTRY(copy_tracked) {
  size_t n = pick(N(), "n"), m = pick(N(), "m");
  {
    tracked d[4], s[4];
    for (int i = 0; i < 4; i++) d[i].v = 10 + i, s[i].v = 20 + i;
    int ctor = L.ctor + L.copy;
    best::span<tracked>(d, n).copy_from(best::span<const tracked>(s, m));
    for (size_t i = 0; i < 4; i++) VP_CHECK(d[i] == (int)(i < n && i < m ? 20 + i : 10 + i) && s[i] == (int)(20 + i));
    VP_CHECK(L.ctor + L.copy == ctor + (int)(n < m ? n : m) && L.live == 8);
  }
  VP_CHECK(L.live == 0);
  VP_REACH();
}
VP_ENTRY(emplace_and_destroy) {
  size_t n = pick(N(), "n"), m = pick(N(), "m");
  {
    tracked s[4];
    for (int i = 0; i < 4; i++) s[i].v = 20 + i;
    tracked* d = (tracked*)malloc(n * sizeof(tracked));
    best::span<tracked> t(d, n);
    t.emplace_from(best::span<const tracked>(s, m));
    size_t k = n < m ? n : m;
    VP_CHECK(L.live == 4 + (int)k);
    for (size_t i = 0; i < k; i++) VP_CHECK(d[i] == (int)(20 + i) && s[i] == (int)(20 + i));
    best::span<tracked>(d, k).destroy();
    VP_CHECK(L.live == 4);
    free(d);
  }
  VP_CHECK(L.live == 0);
  VP_REACH();
}
#define O(t, n) VP_ENTRY(order_##n) { order<t>(); }
O(char, char) O(unsigned char, uchar) O(signed char, schar) O(bool, bool) O(u16, u16) O(i16, i16) O(int, int) O(u32, u32) O(i64, i64) O(char16_t, c16) O(char32_t, c32)
O(dec, cls) O(par, partial) O(en, enum) O(int*, ptr)
