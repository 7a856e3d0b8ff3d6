// Bulk element transfer: values, lifetimes and footprint.
// BOUND: a pool of 6 (quick) / 7 (thorough) elements, every run length and every pair of (possibly overlapping) positions in it; integers, a class with non-trivial copies, a lifetime-tracked class, and a trivially relocatable owning class
#include "best/memory/ptr.h"
#include "best/memory/span.h"
#include "best/text/format.h"
#include "best/log/wtf.h"
#include "vp.h"
using namespace vp;

// trivially relocatable, but owns a block
struct BEST_RELOCATABLE own {
  int v; unsigned* tok;
  void ok() const { vp_assert(*tok == 0xA11FEu, "use of an object outside its lifetime"); }
  own(int x = 0) : v(x), tok(tracked::mk()) { L.live++; }
  own(const own& o) : v(o.v), tok(tracked::mk()) { o.ok(); L.live++; }
  own(own&& o) : v(o.v), tok(tracked::mk()) { o.ok(); o.v = -1; L.live++; }
  own& operator=(const own& o) { ok(); o.ok(); v = o.v; return *this; }
  own& operator=(own&& o) { ok(); o.ok(); int t = o.v; if (this != &o) o.v = -1; v = t; return *this; }
  ~own() { ok(); free(tok); tok = nullptr; L.live--; }
};
static_assert(best::relocatable<own, best::trivially> && !best::copyable<own, best::trivially>);
static_assert(!best::relocatable<tracked, best::trivially>);
// non-trivial copies that count; trivial destructor
static int ncopy, nmove;
struct cnt {
  int v;
  cnt(int x = 0) : v(x) {}
  cnt(const cnt& o) : v(o.v) { ncopy++; }
  cnt(cnt&& o) : v(o.v) { nmove++; }
  cnt& operator=(const cnt& o) { v = o.v; ncopy++; return *this; }
  cnt& operator=(cnt&& o) { v = o.v; nmove++; return *this; }
};
template <class T> static int val(const T& x) {
  if constexpr (__is_same(T, own) || __is_same(T, tracked)) { x.ok(); return x.v; }
  else if constexpr (__is_same(T, cnt)) return x.v;
  else return (int)x;
}
constexpr size_t P() { return VPQ(6, 7); }
template <class T> struct pool {
  T* p; int v[8]; bool on[8] = {};
  pool() : p((T*)malloc(P() * sizeof(T))) {}
  ~pool() { free(p); }
  void make(size_t i) { v[i] = any<int>("v"); if (__is_same(T, u8)) v[i] &= 0xff; new (p + i) T(v[i]); on[i] = true; }
  best::ptr<T> at(size_t i) { return best::ptr<T>(p + i); }
  void finish() {  // every slot that should be alive is, with its value; and nothing else is
    int alive = 0;
    for (size_t i = 0; i < P(); i++) if (on[i]) { VP_CHECK(val(p[i]) == v[i]); alive++; }
    if (!__is_trivially_copyable(T) && !__is_same(T, cnt)) VP_CHECK(L.live == alive);
    for (size_t i = 0; i < P(); i++) if (on[i]) { vp_observe(v[i]); p[i].~T(); }
  }
};
struct run { size_t s, d, n; bool src(size_t i) { return i >= s && i < s + n; } bool dst(size_t i) { return i >= d && i < d + n; } };
static run pickrun(bool overlap) {
  run r; r.n = pick(P(), "n"); r.s = pick(P() - r.n, "s"); r.d = pick(P() - r.n, "d");
  if (!overlap) vp_assume(r.n == 0 || r.s + r.n <= r.d || r.d + r.n <= r.s);
  return r;
}
enum kind { Copy, Move, Relo };
// transfer `r` in a pool where everything outside the destination is alive, and the destination
// is alive iff it is assigned to (or is part of the source)
template <class T, kind k, bool assign, class F> static void transfer(bool overlap, F f) {
  run r = pickrun(overlap);
  pool<T> p;
  for (size_t i = 0; i < P(); i++) if (!r.dst(i) || assign || r.src(i)) p.make(i);
  int w[8];
  for (size_t i = 0; i < r.n; i++) w[i] = p.v[r.s + i];
  int c0 = L.copy + ncopy, m0 = L.move + nmove, d0 = L.dtor;
  f(p, r);
  for (size_t i = 0; i < P(); i++) {
    if (r.src(i) && !r.dst(i)) {
      if (k == Relo) p.on[i] = false;
      else if (k == Move && (__is_same(T, own) || __is_same(T, tracked))) p.v[i] = -1;
    }
    if (r.dst(i)) { p.on[i] = true; p.v[i] = w[i - r.d]; }
  }
  if (__is_same(T, tracked) || __is_same(T, cnt)) {  // exactly one transfer per element
    bool same = r.s == r.d && !assign;
    int c = L.copy + ncopy - c0, m = L.move + nmove - m0;
    VP_CHECK(k == Copy ? c == (int)r.n && m == 0 : c == 0 && (same || m == (int)r.n));
    if (__is_same(T, tracked) && !same) VP_CHECK(L.dtor - d0 == (k == Relo ? (int)r.n : 0));
  }
  p.finish();
  VP_REACH();
}
#define OP(name, k, as, ov, call) \
  VP_ENTRY(name##_int) { transfer<int, k, as>(ov, [](auto& p, run r) { call; }); } \
  VP_ENTRY(name##_cnt) { transfer<cnt, k, as>(ov, [](auto& p, run r) { call; }); }
#define OPT(name, k, as, ov, call) OP(name, k, as, ov, call) \
  VP_ENTRY(name##_own) { transfer<own, k, as>(ov, [](auto& p, run r) { call; }); } \
  VP_ENTRY(name##_tracked) { transfer<tracked, k, as>(ov, [](auto& p, run r) { call; }); }
OPT(copy, Copy, false, false, p.at(r.d).copy(p.at(r.s), r.n))
OPT(move, Move, false, false, p.at(r.d).move(p.at(r.s), r.n))
OPT(relo, Relo, false, false, p.at(r.d).relo(p.at(r.s), r.n))
OPT(copy_assign, Copy, true, false, p.at(r.d).copy_assign(p.at(r.s), r.n))
OPT(move_assign, Move, true, false, p.at(r.d).move_assign(p.at(r.s), r.n))
OPT(relo_assign, Relo, true, false, p.at(r.d).relo_assign(p.at(r.s), r.n))
OPT(relo_overlapping, Relo, false, true, p.at(r.d).relo_overlapping(p.at(r.s), r.n))
OPT(copy_assign_overlapping, Copy, true, true, p.at(r.d).copy_assign_overlapping(p.at(r.s), r.n))
OP(move_assign_overlapping, Move, true, true, p.at(r.d).move_assign_overlapping(p.at(r.s), r.n))
OP(copy_overlapping, Copy, false, true, p.at(r.d).copy_overlapping(p.at(r.s), r.n))
OP(move_overlapping, Move, false, true, p.at(r.d).move_overlapping(p.at(r.s), r.n))
OPT(shift_within, Relo, false, true, best::span(p.p, P()).shift_within(best::unsafe("test"), r.d, r.s, r.n))
OPT(emplace_from, Copy, false, false, (best::span(p.p + r.d, r.n).emplace_from(best::span(p.p + r.s, r.n))))
OPT(copy_from, Copy, true, true, (best::span(p.p + r.d, r.n).copy_from(best::span(p.p + r.s, r.n))))

// spans of different lengths: only the common prefix
VP_ENTRY(from_shorter) {
  size_t n = pick(3, "n"), m = pick(3, "m"), k = n < m ? n : m;
  pool<tracked> p;
  for (size_t i = 0; i < 6; i++) p.make(i);
  best::span(p.p, n).copy_from(best::span<const tracked>(p.p + 3, m));
  for (size_t i = 0; i < k; i++) p.v[i] = p.v[3 + i];
  p.finish();
  VP_REACH();
}
// converting transfers
template <class D, class S> static void convert() {
  size_t n = pick(4, "n");
  buf<S> s(n, "x"); buf<D> d(n, "y"), e(n);
  best::ptr<D>(d.p).copy_assign(best::ptr<S>(s.p), n);
  best::ptr<D>(e.p).copy(best::ptr<S>(s.p), n);
  for (size_t i = 0; i < n; i++) { VP_CHECK(d[i] == (D)s[i] && e[i] == (D)s[i]); vp_observe((u64)d[i]); }
  VP_REACH();
}
VP_ENTRY(convert_widen) { convert<int, i16>(); }
VP_ENTRY(convert_narrow) { convert<i16, int>(); }
VP_ENTRY(convert_sign) { convert<unsigned, int>(); }
VP_ENTRY(convert_long) { convert<u64, i8>(); }
VP_ENTRY(convert_bool) { convert<bool, int>(); }
// destroying a span
VP_ENTRY(destroy) {
  size_t n = pick(5, "n"), a = pick(5, "a"); vp_assume(a <= n);
  tracked* p = (tracked*)malloc(n * sizeof(tracked));
  for (size_t i = 0; i < n; i++) new (p + i) tracked((int)i);
  best::span(p + a, n - a).destroy();
  VP_CHECK(L.live == (int)a);
  for (size_t i = 0; i < a; i++) { VP_CHECK(p[i] == (int)i); best::ptr(p + i).destroy(); }
  VP_CHECK(L.live == 0);
  free(p);
  VP_REACH();
}
// single objects
VP_ENTRY(construct_assign) {
  tracked* p = (tracked*)malloc(sizeof(tracked));
  best::ptr<tracked> q(p);
  int x = any<int>("x"), y = any<int>("y");
  q.construct(x); VP_CHECK(*q == x && L.live == 1);
  q.assign(y); VP_CHECK(*q == y && L.live == 1);
  tracked t(x); q.assign(t); VP_CHECK(*q == x && t == x && L.live == 2);
  q.assign(best::args(y)); VP_CHECK(*q == y && L.live == 2);
  tracked* r = (tracked*)malloc(sizeof(tracked));
  auto c = best::ptr<tracked>(r).try_copy(q);
  VP_CHECK(c.raw() == r && *c == y && L.live == 3);
  q.assign(x);
  auto d = c.try_copy_assign(q);
  VP_CHECK(d.raw() == r && *d == x && L.live == 3);
  c.destroy(); q.destroy();
  VP_CHECK(L.live == 1);
  free(p); free(r);
  VP_REACH();
}
// types that cannot be copied report so
struct nocopy { int v; nocopy(int x) : v(x) {} nocopy(nocopy&&) = default; };
VP_ENTRY(nocopy) {
  nocopy a(any<int>("x")), b(any<int>("y")); int k = b.v;
  best::ptr<nocopy> p(&a), q(&b);
  VP_CHECK(!p.can_copy() && q.try_copy(p) == nullptr && q.try_copy_assign(p) == nullptr && b.v == k);
  VP_REACH();
}
// arrays
VP_ENTRY(bounded_array) {
  using A = tracked[3];
  tracked x[3] = {any<int>("x"), any<int>("x"), any<int>("x")};
  int v[3]; for (int i = 0; i < 3; i++) v[i] = x[i].v;
  A* p = (A*)malloc(sizeof(A));
  best::ptr<A> q(p);
  q.construct(x);
  for (int i = 0; i < 3; i++) VP_CHECK((*p)[i] == v[i] && x[i] == v[i]);
  VP_CHECK(L.live == 6);
  (*p)[1].v = 7;
  q.assign(x); VP_CHECK((*p)[1] == v[1] && L.live == 6);
  q.assign(static_cast<A&&>(x));
  for (int i = 0; i < 3; i++) VP_CHECK((*p)[i] == v[i] && x[i] == -1);
  q.destroy();
  VP_CHECK(L.live == 3);
  free(p);
  VP_REACH();
}
VP_ENTRY(unbounded_array) {
  size_t n = pick(4, "n");
  tracked* s = (tracked*)malloc(n * sizeof(tracked)); tracked* d = (tracked*)malloc(n * sizeof(tracked));
  int v[4];
  for (size_t i = 0; i < n; i++) { v[i] = any<int>("v"); new (s + i) tracked(v[i]); }
  best::ptr<tracked[]> src(s, n), dst(d, n);
  VP_CHECK(src.layout().size() == n * sizeof(tracked));
  auto c = dst.try_copy(src);
  VP_CHECK(c.meta() == n && c->size() == n && L.live == (int)(2 * n));
  for (size_t i = 0; i < n; i++) { VP_CHECK(d[i] == v[i]); d[i].v = 0; }
  auto e = dst.try_copy_assign(src);
  VP_CHECK(e.meta() == n && L.live == (int)(2 * n));
  for (size_t i = 0; i < n; i++) VP_CHECK(d[i] == v[i] && s[i] == v[i]);
  dst.destroy(); VP_CHECK(L.live == (int)n);
  src.destroy(); VP_CHECK(L.live == 0);
  free(s); free(d);
  VP_REACH();
}
// filling touches exactly the given elements
VP_ENTRY(fill) {
  size_t n = pick(4, "n"), a = pick(4, "a"); vp_assume(a <= n);
  buf<u16> b(n, "x"); u16 old[4]; for (size_t i = 0; i < n; i++) old[i] = b[i];
  u8 f = any<u8>("f");
  best::ptr<u16>(b.p + a).fill(f, n - a);
  for (size_t i = 0; i < n; i++) VP_CHECK(b[i] == (i < a ? old[i] : (u16)(f * 0x101)));
  VP_REACH();
}
// pointer arithmetic and distance
VP_ENTRY(arith) {
  buf<int> b(6); size_t i = pick(6, "i"), j = pick(6, "j");
  best::ptr<int> p(b.p), q = p + i, r = p + j;
  VP_CHECK(q.raw() == b.p + i && (r - q) == (ptrdiff_t)j - (ptrdiff_t)i && r - (ptrdiff_t)j == p);
  VP_CHECK((q == r) == (i == j) && (q < r) == (i < j) && (q <=> r) == (i <=> j));
  VP_CHECK(q.to_addr() - p.to_addr() == 4 * i);
  VP_CHECK((q != nullptr) && best::ptr<int>(nullptr) == nullptr);
  if (i < 6) { *q = 5; VP_CHECK(b[i] == 5); }
  if (i + 1 < 6) { q++; VP_CHECK(q.raw() == b.p + i + 1); ++q; q -= 2; VP_CHECK(q.raw() == b.p + i); }
  VP_REACH();
}
VP_ENTRY(null_crashes) {
  uintptr_t a = any<uintptr_t>("a"); vp_assume(a < 0x1000);
  VP_REACH();
  auto p = best::ptr<int>::from_addr(a & ~3ull);
  VP_CRASHES_IFF(best::is_debug(), if (best::is_debug()) (void)*p; );
}
