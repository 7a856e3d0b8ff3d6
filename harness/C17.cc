// Searching, stripping and splitting spans.
// BOUND: haystacks of 0..4 (quick) / 0..6 (thorough) elements and needles of 0..3, every content, for 1-, 2-, 4-byte integers, pointers, a class with its own equality, and mixed element types
#include "best/memory/span.h"
#include "best/text/format.h"
#include "best/log/wtf.h"
#include "vp.h"
using namespace vp;

// equal when the low two bits agree
struct low2 { int v; bool operator==(const low2& o) const { return ((v ^ o.v) & 3) == 0; } };
template <class T> struct gen { static void fill(T& x) { x = any<T>("x"); } };
template <> struct gen<low2> { static void fill(low2& x) { x.v = any<int>("x"); } };
static int pool[4];
template <> struct gen<int*> { static void fill(int*& x) { x = pool + upto(3, "x"); } };
template <class T> struct seq {
  buf<T> b;
  seq(size_t n) : b(n) { for (size_t i = 0; i < n; i++) gen<T>::fill(b[i]); }
  best::span<T> s() { return best::span<T>(b.p, b.n); }
  best::span<const T> c() { return best::span<const T>(b.p, b.n); }
};
constexpr size_t N() { return VPQ(4, 6); }

// b occurs in a at i
template <class T, class U> static bool at(const buf<T>& a, const buf<U>& b, size_t i) {
  bool r = true;
  for (size_t k = 0; k < b.n; k++) r &= a[i + k] == b[k];
  return r;
}
template <class T, class U> static i64 naive(const buf<T>& a, const buf<U>& b) {
  i64 r = -1;
  for (size_t i = a.n + 1; i-- > 0;) if (i + b.n <= a.n && at(a, b, i)) r = (i64)i;
  return r;
}
template <class T, class U> static i64 rnaive(const buf<T>& a, const buf<U>& b) {
  i64 r = -1;
  if (b.n == 0) return 0;  // as documented by the tests
  for (size_t i = 0; i + b.n <= a.n; i++) if (at(a, b, i)) r = (i64)i;
  return r;
}
template <class O> static void same(const O& o, i64 want) {
  VP_CHECK(o.has_value() == (want >= 0));
  if (o.has_value()) { VP_CHECK((i64)*o == want); vp_observe(*o); }
}
template <class S, class P> static void is(const S& s, P* p, size_t n) { VP_CHECK(s.data().raw() == p && s.size() == n); }
template <class O, class T> static void halves(const O& o, i64 want, const buf<T>& h, size_t m) {
  VP_CHECK(o.has_value() == (want >= 0));
  if (o.has_value()) {
    is(o->first(), h.p, (size_t)want);
    is(o->second(), h.p + want + m, h.n - want - m);
  }
}
template <class T, class U = T> static void find_seq() {
  seq<T> h(pick(N(), "n")); seq<U> d(pick(3, "m"));
  same(h.s().find(d.c()), naive(h.b, d.b));
  VP_REACH();
}
template <class T, class U = T> static void rfind_seq() {
  seq<T> h(pick(N(), "n")); seq<U> d(pick(3, "m"));
  same(h.s().rfind(d.c()), rnaive(h.b, d.b));
  VP_REACH();
}
template <class T, class U = T> static void split_seq() {
  seq<T> h(pick(VPQ(3, 5), "n")); seq<U> d(pick(2, "m"));
  i64 w = naive(h.b, d.b);
  VP_CHECK(h.s().contains(d.c()) == (w >= 0));
  halves(h.s().split_once(d.c()), w, h.b, d.b.n);
  halves(h.s().rsplit_once(d.c()), rnaive(h.b, d.b), h.b, d.b.n);
  VP_REACH();
}
template <class T, class U = T> static void one() {
  seq<T> h(pick(N(), "n")); seq<U> d(1);
  i64 w = naive(h.b, d.b), r = rnaive(h.b, d.b);
  const U& x = d.b[0];
  same(h.s().find(x), w);
  same(h.s().rfind(x), r);
  VP_CHECK(h.s().contains(x) == (w >= 0));
  VP_REACH();
}
template <class T, class U = T> static void split_one() {
  seq<T> h(pick(VPQ(3, 5), "n")); seq<U> d(1);
  halves(h.s().split_once(d.b[0]), naive(h.b, d.b), h.b, 1);
  halves(h.s().rsplit_once(d.b[0]), rnaive(h.b, d.b), h.b, 1);
  VP_REACH();
}
template <class T, class U = T> static void affixes() {
  seq<T> h(pick(N(), "n")); seq<U> d(pick(3, "m"));
  size_t n = h.b.n, m = d.b.n;
  bool pre = m <= n && at(h.b, d.b, 0), suf = m <= n && at(h.b, d.b, n - m);
  VP_CHECK(h.s().starts_with(d.c()) == pre && h.s().ends_with(d.c()) == suf);
  auto a = h.s().strip_prefix(d.c());
  auto b = h.s().strip_suffix(d.c());
  VP_CHECK(a.has_value() == pre && b.has_value() == suf);
  if (pre) is(*a, h.b.p + m, n - m);
  if (suf) is(*b, h.b.p, n - m);
  auto s = h.s();
  VP_CHECK(s.consume_prefix(d.c()) == pre);
  is(s, h.b.p + (pre ? m : 0), n - (pre ? m : 0));
  auto t = h.s();
  VP_CHECK(t.consume_suffix(d.c()) == suf);
  is(t, h.b.p, n - (suf ? m : 0));
  VP_REACH();
}
// Predicates: any set of positions.
template <class T> static void predicate() {
  seq<T> h(pick(N(), "n"));
  size_t n = h.b.n;
  bool hit[8];
  i64 w = -1, r = -1;
  for (size_t i = 0; i < n; i++) hit[i] = any<bool>("hit");
  for (size_t i = 0; i < n; i++) { if (hit[i]) r = i; if (hit[n - 1 - i]) w = n - 1 - i; }
  auto p = [&](const T& x) { size_t i = &x - h.b.p; VP_CHECK(i < n); return hit[i]; };
  same(h.s().find(p), w);
  same(h.s().rfind(p), r);
  VP_CHECK(h.s().contains(p) == (w >= 0));
  halves(h.s().split_once(p), w, h.b, 1);
  halves(h.s().rsplit_once(p), r, h.b, 1);
  VP_REACH();
}
// The pieces of a split, from the front and (reversed) from the back.
struct pieces { size_t s[8], e[8], k; };
template <class T, class U> static pieces cut(const buf<T>& h, const buf<U>& d, bool back) {
  pieces r{};
  size_t lo = 0, hi = h.n, m = d.n;
  while (m) {
    i64 f = -1;
    if (!back) { for (size_t i = lo; i + m <= hi; i++) if (at(h, d, i)) { f = i; break; } }
    else { for (size_t i = hi - lo >= m ? hi - m + 1 : lo; i-- > lo;) if (at(h, d, i)) { f = i; break; } }
    if (f < 0) break;
    if (!back) { r.s[r.k] = lo; r.e[r.k++] = f; lo = f + m; }
    else { r.s[r.k] = f + m; r.e[r.k++] = hi; hi = f; }
  }
  r.s[r.k] = lo; r.e[r.k++] = hi;
  return r;
}
template <class T, class I> static void walk(const buf<T>& h, const pieces& w, I it, bool back) {
  size_t k = 0;
  while (true) {
    auto hint = it.size_hint();
    VP_CHECK(hint.lower <= w.k - k && (!hint.upper || w.k - k <= *hint.upper));
    auto x = back ? it.next_back() : it.next();
    if (!x.has_value()) break;
    VP_CHECK(k < w.k && x->data().raw() == h.p + w.s[k] && x->size() == w.e[k] - w.s[k]);
    if (k >= w.k) return;
    k++;
  }
  VP_CHECK(k == w.k);
  VP_CHECK(!it.next().has_value() && !it.next_back().has_value());
}
template <class T, class U = T> static void splits() {
  seq<T> h(pick(VPQ(3, 5), "n")); seq<U> d(pick(2, "m"));
  bool back = pick(1, "back");
  auto nd = d.c();
  walk(h.b, cut(h.b, d.b, back), h.s().split(nd), back);
  VP_REACH();
}
template <class T> static void splits_one() {
  seq<T> h(pick(N(), "n")); seq<T> d(1);
  bool back = pick(1, "back");
  walk(h.b, cut(h.b, d.b, back), h.s().split(d.b[0]), back);
  VP_REACH();
}
// The iterator owns a pattern given as a temporary.
VP_ENTRY(splits_temporary) {
  seq<int> h(pick(3, "n")); seq<int> d(1);
  struct key { int* v; key(int x) : v(new int(x)) {} key(const key& o) : v(new int(*o.v)) {} ~key() { *v = 77; delete v; }
    bool operator==(int o) const { return *v == o; } };
  auto it = h.s().split(key(d.b[0]));
  walk(h.b, cut(h.b, d.b, false), it, false);
  key k2(d.b[0]);
  auto jt = h.s().split([k = key(d.b[0])](const int& x) { return k == x; });
  walk(h.b, cut(h.b, d.b, false), jt, false);
  VP_REACH();
}
template <class T> static void splits_pred() {
  seq<T> h(pick(N(), "n")); seq<T> d(1);
  bool back = pick(1, "back");
  auto p = [&](const T& x) { return x == d.b[0]; };
  walk(h.b, cut(h.b, d.b, back), h.s().split(p), back);
  VP_REACH();
}
VP_ENTRY(fixed_find) {
  buf<int> a(3, "x"), b(2, "y");
  best::span<int, 3> s(a.p, 3); best::span<const int, 2> d(b.p, 2);
  same(s.find(d), naive(a, b));
  VP_CHECK(s.contains(d) == (naive(a, b) >= 0));
  VP_REACH();
}
VP_ENTRY(fixed_rfind) {
  buf<int> a(3, "x"), b(2, "y");
  best::span<int, 3> s(a.p, 3); best::span<const int, 2> d(b.p, 2);
  same(s.rfind(d), rnaive(a, b));
  VP_REACH();
}
VP_ENTRY(fixed_one) {
  buf<int> a(3, "x"), z(1, "z");
  best::span<int, 3> s(a.p, 3);
  same(s.find(z[0]), naive(a, z));
  same(s.rfind(z[0]), rnaive(a, z));
  VP_REACH();
}
// pointers to a base at an offset
struct b1 { int a; }; struct b2 { int b; }; struct dv : b1, b2 {};
VP_ENTRY(find_base_pointer) {
  dv o[2];
  buf<b2*> h(2); buf<dv*> d(1);
  h[0] = o + upto(1, "i"); h[1] = o + upto(1, "j"); d[0] = o + upto(1, "k");
  best::span<b2*> s(h.p, 2); best::span<dv*> t(d.p, 1);
  same(s.find(t), naive(h, d));
  same(s.rfind(t), rnaive(h, d));
  VP_CHECK(s.starts_with(t) == (h[0] == d[0]));
  VP_CHECK((s[{.count = 1}] == t) == (h[0] == d[0]));
  VP_REACH();
}
#define ALL(f) VP_ENTRY(f##_char) { f<char>(); } VP_ENTRY(f##_u16) { f<u16>(); } VP_ENTRY(f##_int) { f<int>(); } VP_ENTRY(f##_cls) { f<low2>(); } VP_ENTRY(f##_ptr) { f<int*>(); }
ALL(find_seq) ALL(rfind_seq) ALL(split_seq) ALL(one) ALL(split_one) ALL(affixes) ALL(splits) ALL(splits_one)
VP_ENTRY(predicate) { predicate<int>(); }
VP_ENTRY(splits_pred) { splits_pred<int>(); }
// elements of different types
VP_ENTRY(find_mixed_width) { find_seq<i16, int>(); }
VP_ENTRY(rfind_mixed_width) { rfind_seq<i16, int>(); }
VP_ENTRY(affixes_mixed_width) { affixes<i16, int>(); }
VP_ENTRY(one_mixed_width) { one<i16, int>(); }
VP_ENTRY(find_bool) { seq<bool> h(pick(4,"n")), d(pick(2,"m")); same(h.s().find(d.c()), naive(h.b, d.b)); same(h.s().find(true), [&]{ buf<bool> t(1); t[0]=true; return naive(h.b, t); }()); VP_REACH(); }
VP_ENTRY(find_uchar) { find_seq<unsigned char>(); }
VP_ENTRY(one_uchar) { one<unsigned char>(); }
