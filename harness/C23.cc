// Optional values obey their algebra.
// BOUND: every pair of emptiness states and every payload value, for int, int64, a rune (with niche), a pointer, an int reference, an owning box (with niche), a lifetime-checked class, a nested optional and void
// ORACLE: an (empty?, value) pair.
#include "best/container/option.h"
#include "best/container/result.h"
#include "best/container/box.h"
#include "best/text/rune.h"
#include "best/text/format.h"
#include "best/log/wtf.h"
#include "vp.h"
using namespace vp;

static int G[4];
template <class T_> struct plain { using T = T_; static T mk(int x) { return (T)x; } static int val(const T& t) { return (int)t; } static int any() { return vp::any<T_>("v"); } };
struct k_int : plain<int> {};
struct k_i64 : plain<i64> { static int any() { return vp::any<int>("v"); } };
struct k_u8 : plain<u8> {};
struct k_rune { using T = best::rune; static T mk(int x) { return *best::rune::from_int(x); } static int val(const T& t) { return (int)t.to_int(); } static int any() { u32 x = vp::any<u32>("v"); vp_assume(x < 0x110000 && (x < 0xd800 || x > 0xdfff)); return x; } };
struct k_ptr { using T = int*; static T mk(int x) { return x == 3 ? nullptr : &G[x]; } static int val(const T& t) { return t ? (int)(t - G) : 3; } static int any() { return pick(3, "v"); } };
struct k_ref { using T = int&; static T mk(int x) { return G[x]; } static int val(const int& t) { return (int)(&t - G); } static int any() { return pick(3, "v"); } };
struct k_box { using T = best::box<int>; static T mk(int x) { return best::box<int>(best::in_place, x); } static int val(const T& t) { return *t; } static int any() { return vp::any<int>("v"); } };
struct k_own { using T = tracked; static T mk(int x) { return T(x); } static int val(const T& t) { t.ok(); return t.v; } static int any() { int x = vp::any<int>("v"); return x; } };
struct k_nest { using T = best::option<int>; static T mk(int x) { return x == 0 ? T() : T(x); } static int val(const T& t) { return t.has_value() ? *t : 0; } static int any() { return vp::any<int>("v"); } };

template <class K> struct mo {
  using O = best::option<typename K::T>;
  bool has; int x; O o;
  mo() : has(any<bool>("has")), x(K::any()) {
    if constexpr (best::is_ref<typename K::T>) { if (has) o.emplace(K::mk(x)); }
    else if (has) { if (pick(1, "how")) o = O(best::in_place, K::mk(x)); else o.emplace(K::mk(x)); }
  }
  void check() const { check(o, has, x); }
  template <class P> static void check(const P& p, bool has, int x) {
    VP_CHECK(p.has_value() == has && p.is_empty() == !has && bool(p) == has);
    VP_CHECK((p.as_ptr() != nullptr) == has && (p == best::none) == !has);
    if (has) VP_CHECK(K::val(*p) == x && K::val(p.value()) == x);
  }
};
template <class K> struct ops {
  using M = mo<K>; using O = typename M::O; using T = typename K::T;
  static void query() {
    M m; m.check();
    int calls = 0; bool want = any<bool>("want");
    VP_CHECK(m.o.has_value([&](const auto& v) { calls++; VP_CHECK(K::val(v) == m.x); return want; }) == (m.has && want) && calls == (int)m.has);
    O e; M::check(e, false, 0); O f(best::none); M::check(f, false, 0);
    O c = m.o; M::check(c, m.has, m.x); m.check();
    O d = static_cast<O&&>(c); M::check(d, m.has, m.x);
    e = d; M::check(e, m.has, m.x); d = best::none; M::check(d, false, 0); e.reset(); M::check(e, false, 0);
    if constexpr (!best::is_ref<T>) { e = m.o.copy(); M::check(e, m.has, m.x); m.check(); }
    auto r = m.o.as_ref(); VP_CHECK(r.has_value() == m.has); if (m.has) VP_CHECK(K::val(*r) == m.x && r.as_ptr() == m.o.as_ptr());
    const O& k = m.o; auto q = k.as_ref(); VP_CHECK(q.has_value() == m.has); if (m.has) VP_CHECK(q.as_ptr() == k.as_ptr() && &*k == k.as_ptr());
    VP_CHECK(k.as_object().has_value() == m.has && m.o.as_object().has_value() == m.has);
    VP_CHECK(static_cast<O&&>(m.o).as_object().has_value() == m.has);
    if (m.has) VP_CHECK(K::val(m.o.value(best::unsafe("has")))  == m.x);
    m.check(); VP_REACH();
  }
  static void access_crash() {
    M m; vp_leak_ok(); VP_REACH();
    switch (pick(6, "form")) {
      case 0: VP_CRASHES_IFF(!m.has, (void)K::val(m.o.value())); break;
      case 1: VP_CRASHES_IFF(!m.has, (void)K::val(*m.o)); break;
      case 2: VP_CRASHES_IFF(!m.has, (void)K::val(*((const O&)m.o))); break;
      case 3: VP_CRASHES_IFF(!m.has, (void)(m.o.operator->())); break;
      case 4: VP_CRASHES_IFF(!m.has, (void)(((const O&)m.o).operator->())); break;
      case 5: VP_CRASHES_IFF(!m.has, (void)K::val(*(O&&)m.o)); break;
      default: VP_CRASHES_IFF(!m.has, (void)K::val(((const O&)m.o).value())); break;
    }
  }
  static void pairs() {
    M a, b;
    bool any2 = a.has || b.has;
    M::check(a.o & b.o, a.has && b.has, b.x);
    M::check(a.o | b.o, any2, a.has ? a.x : b.x);
    M::check(a.o ^ b.o, a.has != b.has, a.has ? a.x : b.x);
    M::check(O(a.o) | O(b.o), any2, a.has ? a.x : b.x);
    M::check(O(a.o) ^ O(b.o), a.has != b.has, a.has ? a.x : b.x);
    M::check(O(a.o) & O(b.o), a.has && b.has, b.x);
    a.check(); b.check();
    O c = a.o; c = b.o; M::check(c, b.has, b.x); b.check();
    O d = b.o; O e = a.o; e = static_cast<O&&>(d); M::check(e, b.has, b.x);
    O* pe = &e; e = *pe; M::check(e, b.has, b.x);
    VP_REACH();
  }
  static void combine() {
    M m; int calls = 0;
    auto f = [&](const auto& v) { calls++; return (i64)K::val(v) + 1; };
    auto r = m.o.map(f); VP_CHECK(r.has_value() == m.has && calls == (int)m.has); if (m.has) VP_CHECK(*r == (i64)m.x + 1);
    auto r2 = ((const O&)m.o).map(f); VP_CHECK(r2 == r);
    auto r3 = O(m.o).map(f); VP_CHECK(r3 == r);
    i64 d = any<i64>("d");
    VP_CHECK(m.o.map(d, f) == (m.has ? (i64)m.x + 1 : d) && ((const O&)m.o).map(d, f) == (m.has ? (i64)m.x + 1 : d) && O(m.o).map(d, f) == (m.has ? (i64)m.x + 1 : d));
    VP_CHECK(m.o.map([&] { return d; }, f) == (m.has ? (i64)m.x + 1 : d));
    calls = 0;
    bool want = any<bool>("want");
    auto g = [&](const auto& v) -> best::option<i64> { calls++; if (!want) return best::none; return (i64)K::val(v) - 1; };
    auto t = m.o.then(g); VP_CHECK(t.has_value() == (m.has && want) && calls == (int)m.has); if (t) VP_CHECK(*t == (i64)m.x - 1);
    VP_CHECK(((const O&)m.o).then(g) == t && O(m.o).then(g) == t);
    calls = 0;
    auto h = [&](const auto& v) { calls++; VP_CHECK(K::val(v) == m.x); };
    VP_CHECK(&m.o.inspect(h) == &m.o && calls == (int)m.has);
    VP_CHECK(&((const O&)m.o).inspect(h) == &m.o);
    M::check(static_cast<O&&>(m.o).inspect(h), m.has, m.x);
    auto p = [&](const auto& v) { return want; };
    M::check(m.o.filter(p), m.has && want, m.x);
    M::check(O(m.o).filter(p), m.has && want, m.x);
    m.check(); VP_REACH();
  }
  static void defaults() {
    M m; int d = K::any();
    VP_CHECK(K::val(m.o.value_or(K::mk(d))) == (m.has ? m.x : d));
    int calls = 0;
    VP_CHECK(K::val(m.o.value_or([&] { calls++; return K::mk(d); })) == (m.has ? m.x : d) && calls == (int)!m.has);
    m.check();
    VP_CHECK(K::val(O(m.o).value_or(K::mk(d))) == (m.has ? m.x : d));
    VP_CHECK(K::val(O(m.o).value_or([&] { return K::mk(d); })) == (m.has ? m.x : d));
    O a = m.o; auto&& r = a.or_emplace(K::mk(d)); VP_CHECK(K::val(r) == (m.has ? m.x : d)); M::check(a, true, m.has ? m.x : d);
    auto&& s = m.o.emplace(K::mk(d)); VP_CHECK(K::val(s) == d); M::check(m.o, true, d);
    VP_REACH();
  }
  static void results() {
    M m; int e = any<int>("e"); int calls = 0;
    auto ok = [&](auto&& r) { VP_CHECK(r.is_ok() == m.has && r.is_err() == !m.has); if (m.has) VP_CHECK(K::val(*r.ok()) == m.x); else VP_CHECK(r.err()->v == e); };
    auto er = [&](auto&& r) { VP_CHECK(r.is_err() == m.has && r.is_ok() == !m.has); if (m.has) VP_CHECK(K::val(*r.err()) == m.x); else VP_CHECK(r.ok()->v == e); };
    struct E { int v; E(int v) : v(v) {} };
    const O& c = m.o;
    ok(m.o.template ok_or<E>(e)); m.check(); ok(c.template ok_or<E>(e)); m.check(); ok(O(m.o).template ok_or<E>(e));
    ok(m.o.ok_or(E(e))); m.check(); ok(c.ok_or(E(e))); m.check(); ok(O(m.o).ok_or(E(e)));
    ok(m.o.ok_or([&] { calls++; return E(e); })); m.check(); ok(c.ok_or([&] { calls++; return E(e); })); m.check(); ok(O(m.o).ok_or([&] { calls++; return E(e); }));
    VP_CHECK(calls == (m.has ? 0 : 3));
    er(m.o.template err_or<E>(e)); m.check(); er(c.template err_or<E>(e)); m.check(); er(O(m.o).template err_or<E>(e));
    er(m.o.err_or(E(e))); m.check(); er(c.err_or(E(e))); m.check(); er(O(m.o).err_or(E(e)));
    er(m.o.err_or([&] { return E(e); })); m.check(); er(c.err_or([&] { return E(e); })); m.check(); er(O(m.o).err_or([&] { return E(e); }));
    VP_REACH();
  }
};
static int sgn(best::partial_ord o) { return o == 0 ? 0 : o < 0 ? -1 : o > 0 ? 1 : 2; }
template <class K, class K2> static void compare() {
  mo<K> a; mo<K2> b;
  i64 x = a.x, y = b.x;
  int want = a.has != b.has ? (a.has ? 1 : -1) : !a.has || x == y ? 0 : x < y ? -1 : 1;
  VP_CHECK((a.o == b.o) == (want == 0) && (a.o != b.o) == (want != 0));
  VP_CHECK(sgn(a.o <=> b.o) == want && sgn(b.o <=> a.o) == -want);
  VP_CHECK((a.o < b.o) == (want < 0) && (a.o >= b.o) == (want >= 0));
  VP_CHECK((a.o == best::none) == !a.has && (a.o != best::none) == a.has && sgn(a.o <=> best::none) == (int)a.has);
  if constexpr (!best::is_ref<typename K2::T>) {
    auto v = K2::mk(b.x);
    VP_CHECK((a.o == v) == (a.has && x == y) && (v == a.o) == (a.has && x == y));
    VP_CHECK(sgn(a.o <=> v) == (!a.has ? -1 : x == y ? 0 : x < y ? -1 : 1));
  }
  VP_REACH();
}
#define OPS(tag) VP_ENTRY(query_##tag) { ops<k_##tag>::query(); } VP_ENTRY(crash_##tag) { ops<k_##tag>::access_crash(); } VP_ENTRY(pairs_##tag) { ops<k_##tag>::pairs(); } \
  VP_ENTRY(combine_##tag) { ops<k_##tag>::combine(); }
#define OPS2(tag) OPS(tag) VP_ENTRY(defaults_##tag) { ops<k_##tag>::defaults(); }  VP_ENTRY(results_##tag) { ops<k_##tag>::results(); }
OPS2(int) OPS2(i64) OPS2(rune) OPS2(ptr) OPS2(box) OPS2(own) OPS(nest) OPS(ref)
VP_ENTRY(compare_int) { compare<k_int, k_int>(); }
VP_ENTRY(compare_u8) { compare<k_u8, k_u8>(); }
VP_ENTRY(compare_int_i64) { compare<k_int, k_i64>(); }
VP_ENTRY(compare_rune) { compare<k_rune, k_rune>(); }

// references and pointers
VP_ENTRY(ref_ptr) {
  int a = any<int>("a"), b = any<int>("b"); bool null = any<bool>("null"), has = any<bool>("has"), other = any<bool>("other");
  int* p = null ? nullptr : &a;
  best::option<int&> r = p; VP_CHECK(r.has_value() == !null && r.as_ptr() == p);
  best::option<int&> s; if (has) s = b; VP_CHECK(s.has_value() == has && s.as_ptr() == (has ? &b : nullptr));
  s = p; VP_CHECK(s.as_ptr() == p);
  int* q = other ? &b : nullptr;
  VP_CHECK((r == q) == (null == !other && (null || a == b)));
  VP_CHECK(sgn(r <=> q) == (null ? -(int)other : !other ? 1 : a < b ? -1 : a > b));
  best::option<int> o = r; VP_CHECK(o.has_value() == !null); if (!null) VP_CHECK(*o == a);
  best::option<int&> t = o; VP_CHECK(t.has_value() == !null && t.as_ptr() == o.as_ptr());
  best::option<const int&> u = t; VP_CHECK(u.as_ptr() == t.as_ptr());
  best::option<const int&> w = o; VP_CHECK(w.as_ptr() == o.as_ptr());
  best::option<i64> l = o; VP_CHECK(l.has_value() == !null && (null || *l == a));
  l = s; VP_CHECK(l.has_value() == !null && (null || *l == a));
  best::option<int> c = r.copy(); VP_CHECK(c == o);
  int n = 0; int d = any<int>("d");
  VP_CHECK(r.map([&](int& x) { n++; return &x == &a; }).has_value() == !null && n == (int)!null);
  VP_CHECK(r.map(d, [&](int& x) { return x; }) == (null ? d : a));
  VP_CHECK(r.value_or(d) == (null ? d : a));
  auto ok = r.ok_or(7u); VP_CHECK(ok.is_ok() == !null); if (!null) VP_CHECK(ok.ok().as_ptr() == &a); else VP_CHECK(*ok.err() == 7);
  VP_CHECK(a == a && (r & s).as_ptr() == p);
  r = best::none; VP_CHECK(!r.has_value());
  VP_REACH();
}
VP_ENTRY(void_) {
  bool has = any<bool>("has"), has2 = any<bool>("has2"), want = any<bool>("want");
  using O = best::option<void>;
  O a, b; if (has) a = best::VoidOption; if (has2) b.emplace();
  VP_CHECK(a.has_value() == has && b.has_value() == has2 && a.is_empty() == !has && bool(a) == has);
  O c = a; VP_CHECK(c.has_value() == has); c = b; VP_CHECK(c.has_value() == has2);
  VP_CHECK((a == b) == (has == has2) && sgn(a <=> b) == (int)has - (int)has2);
  VP_CHECK((a & b).has_value() == (has && has2) && (a | b).has_value() == (has || has2) && (a ^ b).has_value() == (has != has2));
  int n = 0;
  auto m = a.map([&] { n++; return 5; }); VP_CHECK(m.has_value() == has && n == (int)has); if (has) VP_CHECK(*m == 5);
  VP_CHECK(a.has_value([&] { return want; }) == (has && want) && a.filter([&] { return want; }).has_value() == (has && want));
  auto t = a.then([&]() -> best::option<int> { if (want) return 3; return best::none; }); VP_CHECK(t.has_value() == (has && want));
  a.inspect([&] { n++; }); VP_CHECK(n == 2 * has);
  auto r = a.ok_or(9); VP_CHECK(r.is_ok() == has); if (!has) VP_CHECK(*r.err() == 9);
  auto e = a.err_or(9); VP_CHECK(e.is_err() == has);
  VP_CRASHES_IFF(!has, a.value());
  a.reset(); VP_CHECK(!a.has_value());
  VP_REACH();
}
VP_ENTRY(nested) {
  int level = pick(2, "level"); int x = any<int>("x");
  best::option<best::option<int&>> r; if (level == 1) r.emplace(); if (level == 2) r.emplace(x);
  VP_CHECK(r.has_value() == (level > 0)); if (level) VP_CHECK(r->has_value() == (level == 2)); if (level == 2) VP_CHECK(r->as_ptr() == &x);
  auto c = r; VP_CHECK(c.has_value() == (level > 0)); if (level) VP_CHECK(c->has_value() == (level == 2));
  best::option<best::option<best::box<int>>> b; if (level == 1) b.emplace(); if (level == 2) b.emplace(best::box<int>(best::in_place, x));
  VP_CHECK(b.has_value() == (level > 0)); if (level) VP_CHECK(b->has_value() == (level == 2)); if (level == 2) VP_CHECK(***b == x);
  auto d = b; VP_CHECK(d.has_value() == (level > 0)); if (level) VP_CHECK(d->has_value() == (level == 2));
  d = static_cast<decltype(d)&&>(b); VP_CHECK(d.has_value() == (level > 0)); if (level == 2) VP_CHECK(***d == x);
  VP_REACH();
}
