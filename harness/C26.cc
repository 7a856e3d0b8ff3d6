// Rows are faithful heterogeneous sequences.
// BOUND: every field value, for rows of zero to six elements over integers of several widths, references, void, an owning box, a lifetime-checked class and a move-only class; every index, range and permutation listed in the harness
// ORACLE: the list of the element values, edited as a list.
#include "best/container/row.h"
#include "best/container/box.h"
#include "best/text/format.h"
#include "best/log/wtf.h"
#include "vp.h"
using namespace vp;
template <size_t n> constexpr best::index_t<n> ix = {};
struct mover { tracked t; int pad = 0; mover(int x) : t(x) {} mover(mover&&) = default; mover& operator=(mover&&) = default; };
static int val(const mover& t) { t.t.ok(); return t.t.v; }
static int val(const tracked& t) { t.ok(); return t.v; }
static int val(const best::box<int>& b) { return *b; }
static int val(best::empty) { return 0; }
template <class T> requires std::is_integral_v<T> static int val(const T& x) { return (int)x; }

// a row's elements, left to right, against the expected values
template <class R, class... V> static void is(const R& r, V... v) {
  i64 want[sizeof...(V) + 1] = {(i64)v...}; size_t n = 0;
  VP_CHECK(R::size() == sizeof...(V) && R::is_empty() == (sizeof...(V) == 0));
  r.apply([&](const auto&... e) { ((VP_CHECK(val(e) == (int)want[n]), n++), ...); });
  VP_CHECK(n == sizeof...(V));
}
template <class... T, class R> static void types(const R&) { static_assert(__is_same(R, best::row<T...>)); }
template <auto... x> constexpr auto vals = best::vals<x...>;
template <size_t a, size_t b> constexpr auto rg = best::vals<best::bounds{.start = a, .end = b}>;

struct five {
  int a = any<int>("a"); i64 b = any<i16>("b"); u8 c = any<u8>("c"); int d = any<int>("d"); int e = any<int>("e");
  best::row<int, i64, u8, int, tracked> r{a, b, c, d, e};
};
VP_ENTRY(access) {
  five f; auto& r = f.r; const auto& k = r;
  is(r, f.a, f.b, f.c, f.d, f.e);
  VP_CHECK(r[ix<0>] == f.a && r[ix<1>] == f.b && r[ix<2>] == f.c && r[ix<3>] == f.d && val(r[ix<4>]) == f.e);
  VP_CHECK(&r.at(ix<3>) == &k[ix<3>] && &k.at(ix<3>) == &r.get(ix<3>) && &k.get(ix<3>) == &*r.object(ix<3>) && &*k.object(ix<3>) == &r.at<3>());
  VP_CHECK(&r.first() == &r[ix<0>] && &r.second() == &r[ix<1>] && &r.last() == &r[ix<4>] && &k.first() == &r.first() && &k.second() == &r.second() && &k.last() == &r.last());
  auto&& m = ((decltype(f.r)&&)r)[ix<4>]; VP_CHECK(&m == &r[ix<4>]);
  r[ix<3>] = 7; is(r, f.a, f.b, f.c, 7, f.e);
  auto& [x0, x1, x2, x3, x4] = r; x0 = 9; VP_CHECK(x1 == f.b && x2 == f.c && x3 == 7 && val(x4) == f.e); is(r, 9, f.b, f.c, 7, f.e);
  best::row<> z; is(z); best::row<int> one{f.a}; is(one, f.a); VP_CHECK(one.first() == f.a && one.last() == f.a);
  best::row<int, u8> two{f.a, f.c}; is(two, f.a, f.c); VP_CHECK(two.second() == f.c && two.last() == f.c);
  VP_REACH();
}
VP_ENTRY(copy_move) {
  L = {};
  {
    five f, g;
    auto c = f.r; is(c, f.a, f.b, f.c, f.d, f.e); c = g.r; is(c, g.a, g.b, g.c, g.d, g.e); is(g.r, g.a, g.b, g.c, g.d, g.e);
    auto& s = c; c = s; is(c, g.a, g.b, g.c, g.d, g.e);
    auto d = (decltype(c)&&)c; is(d, g.a, g.b, g.c, g.d, g.e); d = (decltype(c)&&)f.r; is(d, f.a, f.b, f.c, f.d, f.e);
    VP_REACH();
  }
  VP_CHECK(L.live == 0);
}
VP_ENTRY(slices) {
  five f; auto& r = f.r; const auto& k = r;
  is(r[rg<0, 0>]); is(r[rg<0, 1>], f.a); is(k[rg<1, 3>], f.b, f.c); is(r[rg<2, 5>], f.c, f.d, f.e); is(r.at(rg<0, 5>), f.a, f.b, f.c, f.d, f.e); is(r[rg<5, 5>]);
  is(r.at(vals<best::bounds{.start = 3}>), f.d, f.e); is(r.at(vals<best::bounds{.count = 2}>), f.a, f.b); is(k.at(vals<best::bounds{.start = 1, .count = 3}>), f.b, f.c, f.d);
  is(r.at(vals<best::bounds{.start = 1, .including_end = 3}>), f.b, f.c, f.d);
  types<i64, u8>(r[rg<1, 3>]);
  is(((decltype(f.r)&&)r)[rg<3, 5>], f.d, f.e);
  VP_REACH();
}
VP_ENTRY(gathering) {
  five f; const auto& r = f.r;
  is(r.gather<4, 0>(), f.e, f.a); is(r.gather<1, 1, 1>(), f.b, f.b, f.b); is(r.gather<4, 3, 2, 1, 0>(), f.e, f.d, f.c, f.b, f.a);
  is(r.gather(best::vals<(size_t)3, (size_t)1>), f.d, f.b); types<int, i64>(r.gather<3, 1>());
  is(r.select<int>(), f.a, f.d); is(r.select<u8>(), f.c); is(r.select<char>()); is(r.select(best::types<tracked>), f.e);
  best::row x{f.c, f.a};
  is(r.scatter<0>(x), f.c, f.b, f.c, f.d, f.e); is(r.scatter<3, 0>(x), f.a, f.b, f.c, f.c, f.e); is(r.scatter<4, 2>(x), f.a, f.b, f.a, f.d, f.c);
  types<int, i64, u8, u8, tracked>(r.scatter<3>(x)); types<int, i64, int, int, u8>(r.scatter<4, 2>(x));
  is(r.scatter<4, 2>(best::types<int, i64>, x), f.a, f.b, f.a, f.d, f.c); types<int, i64, i64, int, int>(r.scatter<4, 2>(best::types<int, i64>, x));
  is(r, f.a, f.b, f.c, f.d, f.e);
  VP_REACH();
}
VP_ENTRY(splicing) {
  five f; auto& r = f.r; const auto& k = r; int y = any<int>("y");
  is(r.push(y), f.a, f.b, f.c, f.d, f.e, y); is(k.push(best::types<i64>, y), f.a, f.b, f.c, f.d, f.e, y);
  auto p = r.push(best::bind, y); is(p, f.a, f.b, f.c, f.d, f.e, y); VP_CHECK(&p[ix<5>] == &y); types<int, i64, u8, int, tracked, int&>(p);
  is(r.insert<0>(y), y, f.a, f.b, f.c, f.d, f.e); is(k.insert<3>(y), f.a, f.b, f.c, y, f.d, f.e); is(r.insert<5>(y), f.a, f.b, f.c, f.d, f.e, y);
  auto q = k.insert<2>(best::bind, y); is(q, f.a, f.b, y, f.c, f.d, f.e); VP_CHECK(&q[ix<2>] == &y);
  is(r.insert<1>(best::types<i64>, y), f.a, y, f.b, f.c, f.d, f.e);
  is(r.update<0>(y), y, f.b, f.c, f.d, f.e); is(k.update<2>(y), f.a, f.b, y, f.d, f.e); is(r.update<4>(y), f.a, f.b, f.c, f.d, y);
  is(k.update<3>(best::types<i64>, y), f.a, f.b, f.c, y, f.e); types<int, i64, int, int, tracked>(r.update<2>(y));
  auto u = r.update<1>(best::bind, y); is(u, f.a, y, f.c, f.d, f.e); VP_CHECK(&u[ix<1>] == &y);
  is(r.remove<0>(), f.b, f.c, f.d, f.e); is(k.remove<2>(), f.a, f.b, f.d, f.e); is(r.remove<4>(), f.a, f.b, f.c, f.d);
  is(r.erase(rg<0, 0>), f.a, f.b, f.c, f.d, f.e); is(k.erase(rg<1, 3>), f.a, f.d, f.e); is(r.erase(rg<0, 5>)); is(r.erase(rg<2, 5>), f.a, f.b); is(k.erase(rg<0, 2>), f.c, f.d, f.e);
  best::row z{y, f.c};
  is(r.splice(z, rg<0, 0>), y, f.c, f.a, f.b, f.c, f.d, f.e); is(k.splice(z, rg<1, 4>), f.a, y, f.c, f.e); is(r.splice(z, rg<5, 5>), f.a, f.b, f.c, f.d, f.e, y, f.c); is(r.splice(z, rg<0, 5>), y, f.c);
  is(r.splice(best::types<i64, int>, z, rg<2, 3>), f.a, f.b, y, f.c, f.d, f.e); types<int, i64, i64, int, int, tracked>(r.splice(best::types<i64, int>, z, rg<2, 3>));
  is(r.splice(r, rg<1, 2>), f.a, f.a, f.b, f.c, f.d, f.e, f.c, f.d, f.e);
  is(r, f.a, f.b, f.c, f.d, f.e); VP_REACH();
}
VP_ENTRY(joining) {
  five f; auto& r = f.r; int y = any<int>("y"), w = any<int>("w");
  best::row<> e; best::row a{y}; best::row<u8, int> b{f.c, w}; const auto& kb = b;
  is(e + e); is(e + a, y); is(a + e, y); is(a + b, y, f.c, w); is(b + a, f.c, w, y); is(b + b, f.c, w, f.c, w); is(kb + r, f.c, w, f.a, f.b, f.c, f.d, f.e);
  is(r.join(a, e, b), f.a, f.b, f.c, f.d, f.e, y, f.c, w); is(a.join(), y); is(e.join(b, a, b), f.c, w, y, f.c, w);
  types<int, u8, int>(a + b);
  is(r, f.a, f.b, f.c, f.d, f.e); VP_REACH();
}
VP_ENTRY(applying) {
  five f; auto& r = f.r; const auto& k = r; int n = 0; i64 want[] = {f.a, f.b, f.c, f.d, f.e};
  auto see = [&](const auto& x) { VP_CHECK(n < 5 && val(x) == (int)want[n]); n++; };
  r.each(see); VP_CHECK(n == 5); n = 0; k.each(see); VP_CHECK(n == 5); n = 0; ((decltype(f.r)&&)r).each(see); VP_CHECK(n == 5);
  VP_CHECK(r.apply([&](auto& p, auto& q, auto& s, auto& t, auto& u) { return &t == &r[ix<3>] && &u == &r[ix<4>] && &p == &r[ix<0>]; }));
  VP_CHECK(k.apply([](int a, i64 b, u8 c, int d, const tracked& e) { return (i64)a - b + c * 3 - (i64)d * 5 + e.v; }) == (i64)f.a - f.b + f.c * 3 - (i64)f.d * 5 + f.e);
  auto refs = r.as_ref(); VP_CHECK(&refs[ix<3>] == &r[ix<3>] && &refs[ix<4>] == &r[ix<4>]); is(refs, f.a, f.b, f.c, f.d, f.e); auto cref = k.as_ref(); VP_CHECK(&cref[ix<2>] == &r[ix<2>]);
  best::row<int, void, u8> v{f.a, 0, f.c}; is(v, f.a, 0, f.c); n = 0; v.each([&](auto&&...) { n++; }); VP_CHECK(n == 3 && v[ix<0>] == f.a && v[ix<2>] == f.c);
  int y = any<int>("y"); best::row<int&, int> rf{y, y}; auto rc = rf; VP_CHECK(&rc[ix<0>] == &y); int z = any<int>("z"); best::row<int&, int> rz{z, 1}; rf = rz; VP_CHECK(&rf[ix<0>] == &z && &rc[ix<0>] == &y && rf[ix<1>] == 1);
  is(r, f.a, f.b, f.c, f.d, f.e); VP_REACH();
}
// rvalue rows hand their elements over; nothing is copied, lost or duplicated
VP_ENTRY(move_only) {
  L = {};
  {
    int x = any<int>("x"), y = any<int>("y"), z = any<int>("z");
    using R = best::row<mover, int, best::box<int>>;
    auto mk = [&] { return R(mover(x), y, best::box<int>(best::in_place, z)); };
    is(mk(), x, y, z);
    R a = mk(); R b = (R&&)a; is(b, x, y, z);
    is(mk().push(mover(y)), x, y, z, y); is(mk().insert<0>(mover(z)), z, x, y, z); is(mk().insert<2>(5), x, y, 5, z);
    is(mk().update<2>(3), x, y, 3); is(mk().remove<1>(), x, z); is(mk().erase(rg<0, 2>), z); is(mk().gather<2, 0>(), z, x);
    is(mk()[rg<1, 3>], y, z); is(mk().splice(best::row(8, 9), rg<1, 2>), x, 8, 9, z); is(mk() + mk(), x, y, z, x, y, z); is(mk().join(best::row<>(), best::row(4)), x, y, z, 4);
    is(mk().scatter<1>(best::row(true)), x, 1, z);
    mover m = mk().first(); VP_CHECK(val(m) == x); best::box<int> q = mk().last(); VP_CHECK(*q == z);
    VP_CHECK(mk().apply([](mover&& p, int&& i, best::box<int>&& bx) { mover s = (mover&&)p; return val(s) ^ i ^ *bx; }) == (x ^ y ^ z));
    is(mk().as_args().row, x, y, z);
    VP_CHECK(L.copy == 0); VP_REACH();
  }
  VP_CHECK(L.live == 0);
}
template <class R, class S> static void cmp(const R& a, const S& b, const i64* x, const i64* y, size_t n) {
  int want = 0; for (size_t i = 0; i < n && !want; i++) want = x[i] < y[i] ? -1 : x[i] > y[i] ? 1 : 0;
  VP_CHECK((a == b) == (want == 0) && (a != b) == (want != 0) && (b == a) == (want == 0));
  VP_CHECK((a < b) == (want < 0) && (a > b) == (want > 0) && (a <= b) == (want <= 0) && (a >= b) == (want >= 0) && (b < a) == (want > 0));
}
VP_ENTRY(compare) {
  i64 x[4], y[4]; for (auto& v : x) v = any<i8>("x"); for (auto& v : y) v = any<i8>("y");
  best::row<> e; VP_CHECK(e == e && !(e < e) && (e <=> e) == 0);
  cmp(best::row<int>(x[0]), best::row<int>(y[0]), x, y, 1);
  cmp(best::row<int, i8>(x[0], x[1]), best::row<i64, int>(y[0], y[1]), x, y, 2);
  cmp(best::row<int, i8, i64, i16>(x[0], x[1], x[2], x[3]), best::row<int, i8, i64, i16>(y[0], y[1], y[2], y[3]), x, y, 4);
  VP_REACH();
}
VP_ENTRY(args) {
  int x = any<int>("x"), y = any<int>("y");
  struct pair { int a; int b; pair(int a, int b) : a(a), b(b) {} };
  pair p = best::args(x, y); VP_CHECK(p.a == x && p.b == y);
  best::row<int> r{x}; auto q = r.push(best::types<pair>, best::args(y, x)); VP_CHECK(q[ix<0>] == x && q[ix<1>].a == y && q[ix<1>].b == x);
  VP_REACH();
}
