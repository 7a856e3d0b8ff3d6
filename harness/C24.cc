// Results carry exactly one of success and error.
// BOUND: every pair of sides and every payload value, for payloads int, int64, void, an int reference, an owning box and a lifetime-checked class in several combinations
// ORACLE: a (side, value) pair.
#include "best/container/option.h"
#include "best/container/result.h"
#include "best/container/box.h"
#include "best/text/format.h"
#include "best/log/wtf.h"
#include "vp.h"
using namespace vp;

static int G[4];
template <class T_> struct plain { using T = T_; static T mk(int x) { return (T)x; } static int val(const T& t) { return (int)t; } static int any() { return vp::any<int>("v"); } };
struct k_int : plain<int> {};
struct k_i64 : plain<i64> {};
struct err_t { int c; explicit err_t(int c) : c(c) {} friend auto operator<=>(const err_t&, const err_t&) = default; friend void BestFmt(auto& f, const err_t& e) { f.format("e{}", e.c); } };
struct k_err { using T = err_t; static T mk(int x) { return T(x); } static int val(const T& t) { return t.c; } static int any() { return vp::any<int>("v"); } };
struct k_ref { using T = int&; static T mk(int x) { return G[x]; } static int val(const int& t) { return (int)(&t - G); } static int any() { return pick(3, "v"); } };
struct k_box { using T = best::box<int>; static T mk(int x) { return best::box<int>(best::in_place, x); } static int val(const T& t) { return *t; } static int any() { return vp::any<int>("v"); } };
struct k_own { using T = tracked; static T mk(int x) { return T(x); } static int val(const T& t) { t.ok(); return t.v; } static int any() { return vp::any<int>("v"); } };

template <class A, class B> struct mr {
  using R = best::result<typename A::T, typename B::T>;
  bool ok; int x;
  R r;
  static R mk(bool ok, int x) { if (ok) return best::ok(A::mk(x)); return best::err(B::mk(x)); }
  mr() : ok(any<bool>("ok")), x(ok ? A::any() : B::any()), r(mk(ok, x)) {}
  void check() const { check(r, ok, x); }
  template <class P> static void check(const P& p, bool ok, int x) {
    VP_CHECK(p.is_ok() == ok && p.is_err() == !ok && bool(p) == ok && p.ok().has_value() == ok && p.err().has_value() == !ok);
    if (ok) VP_CHECK(A::val(*p.ok()) == x); else VP_CHECK(B::val(*p.err()) == x);
  }
};
template <class A, class B> struct ops {
  using M = mr<A, B>; using R = typename M::R;
  static void query() {
    M m; m.check(); const R& c = m.r;
    auto o = m.r.ok(); VP_CHECK(o.has_value() == m.ok); auto co = c.ok(); VP_CHECK(co.has_value() == m.ok && co.as_ptr() == o.as_ptr());
    auto e = m.r.err(); VP_CHECK(e.has_value() == !m.ok); auto ce = c.err(); VP_CHECK(ce.has_value() == !m.ok && ce.as_ptr() == e.as_ptr());
    if (m.ok) VP_CHECK(A::val(*m.r) == m.x && A::val(*c) == m.x && m.r.operator->() == o.as_ptr() && c.operator->() == o.as_ptr());
    R d(m.r); M::check(d, m.ok, m.x); m.check();
    R f(static_cast<R&&>(d)); M::check(f, m.ok, m.x);
    auto ro = static_cast<R&&>(f).ok(); VP_CHECK(ro.has_value() == m.ok); if (m.ok) VP_CHECK(A::val(*ro) == m.x);
    auto re = static_cast<R&&>(f).err(); VP_CHECK(re.has_value() == !m.ok); if (!m.ok) VP_CHECK(B::val(*re) == m.x);
    if (m.ok) VP_CHECK(A::val(*static_cast<R&&>(f)) == m.x);
    m.check(); VP_REACH();
  }
  static void access_crash() {
    M m; vp_leak_ok(); VP_REACH();
    switch (pick(4, "form")) {
      case 0: VP_CRASHES_IFF(!m.ok, (void)A::val(*m.r)); break;
      case 1: VP_CRASHES_IFF(!m.ok, (void)A::val(*(const R&)m.r)); break;
      case 2: VP_CRASHES_IFF(!m.ok, (void)m.r.operator->()); break;
      case 3: VP_CRASHES_IFF(!m.ok, (void)((const R&)m.r).operator->()); break;
      default: VP_CRASHES_IFF(!m.ok, (void)A::val(*(R&&)m.r)); break;
    }
  }
  static void assign() {
    M a, b;
    R c(a.r); c = b.r; M::check(c, b.ok, b.x); b.check();
    R d(a.r), e(b.r); d = static_cast<R&&>(e); M::check(d, b.ok, b.x);
    R* p = &d; d = *p; M::check(d, b.ok, b.x);
    d = M::mk(a.ok, a.x); M::check(d, a.ok, a.x);
    a.check(); VP_REACH();
  }
  static void combine() {
    M m; int n = 0; const R& c = m.r;
    auto f = [&](const auto& v) { n++; return (i64)A::val(v) + 1; };
    auto g = [&](const auto& v) { n++; return (i64)B::val(v) - 1; };
    auto okm = [&](auto&& r) { VP_CHECK(r.is_ok() == m.ok); if (m.ok) VP_CHECK(*r.ok() == (i64)m.x + 1); else VP_CHECK(B::val(*r.err()) == m.x); };
    auto erm = [&](auto&& r) { VP_CHECK(r.is_ok() == m.ok); if (m.ok) VP_CHECK(A::val(*r.ok()) == m.x); else VP_CHECK(*r.err() == (i64)m.x - 1); };
    okm(m.r.map(f)); okm(c.map(f)); m.check(); VP_CHECK(n == 2 * m.ok); okm(R(m.r).map(f));
    n = 0;
    erm(m.r.map_err(g)); erm(c.map_err(g)); m.check(); VP_CHECK(n == 2 * !m.ok); erm(R(m.r).map_err(g));
    n = 0; bool want = any<bool>("want");
    using Q = best::result<i64, typename B::T>;
    int z = B::any();
    auto h = [&](const auto& v) -> Q { n++; if (want) return best::ok((i64)A::val(v) * 2); return best::err(B::mk(z)); };
    auto th = [&](auto&& r) {
      VP_CHECK(r.is_ok() == (m.ok && want));
      if (m.ok && want) VP_CHECK(*r.ok() == 2 * (i64)m.x); else VP_CHECK(B::val(*r.err()) == (m.ok ? z : m.x));
    };
    th(m.r.then(h)); th(c.then(h)); VP_CHECK(n == 2 * m.ok); th(R(m.r).then(h)); m.check();
    VP_REACH();
  }
};
#define OPS(tag, A, B) VP_ENTRY(query_##tag) { ops<A, B>::query(); } VP_ENTRY(crash_##tag) { ops<A, B>::access_crash(); } VP_ENTRY(assign_##tag) { ops<A, B>::assign(); } VP_ENTRY(combine_##tag) { ops<A, B>::combine(); }
OPS(int_err, k_int, k_err) OPS(int_int, k_int, k_int) OPS(own_err, k_own, k_err) OPS(err_own, k_err, k_own) OPS(box_own, k_box, k_own) OPS(own_box, k_own, k_box) OPS(i64_box, k_i64, k_box)
OPS(ref_err, k_ref, k_err)

static int sgn(best::partial_ord o) { return o == 0 ? 0 : o < 0 ? -1 : o > 0 ? 1 : 2; }
template <class A, class B, class A2, class B2> static void compare() {
  mr<A, B> a; mr<A2, B2> b;
  int want = a.ok != b.ok ? (a.ok ? -1 : 1) : a.x == b.x ? 0 : a.x < b.x ? -1 : 1;  // successes first
  VP_CHECK((a.r == b.r) == (want == 0) && (a.r != b.r) == (want != 0));
  VP_CHECK(sgn(a.r <=> b.r) == want && sgn(b.r <=> a.r) == -want && (a.r < b.r) == (want < 0));
  auto v = A2::mk(b.x); auto e = B2::mk(b.x);
  VP_CHECK((a.r == best::ok(v)) == (a.ok && a.x == b.x) && (a.r == best::err(e)) == (!a.ok && a.x == b.x));
  VP_CHECK((a.r == best::ok()) == a.ok && (a.r == best::err()) == !a.ok);
  int c = a.x == b.x ? 0 : a.x < b.x ? -1 : 1;
  VP_CHECK(sgn(a.r <=> best::ok(v)) == (a.ok ? c : 1) && sgn(a.r <=> best::err(e)) == (!a.ok ? c : -1));
  VP_CHECK(sgn(a.r <=> best::ok()) == (a.ok ? 0 : 1) && sgn(a.r <=> best::err()) == (!a.ok ? 0 : -1));
  if constexpr (!__is_same(typename A2::T, typename B2::T)) {
    VP_CHECK((a.r == v) == (a.ok && a.x == b.x) && (a.r == e) == (!a.ok && a.x == b.x));
    VP_CHECK(sgn(a.r <=> v) == (a.ok ? c : 1) && sgn(a.r <=> e) == (!a.ok ? c : -1));
  }
  VP_REACH();
}
VP_ENTRY(compare_int_err) { compare<k_int, k_err, k_int, k_err>(); }
VP_ENTRY(compare_err_int) { compare<k_err, k_int, k_err, k_i64>(); }
VP_ENTRY(convert) {
  mr<k_int, k_err> m;
  best::result<int&, err_t&> r = m.r; VP_CHECK(r.is_ok() == m.ok); if (m.ok) VP_CHECK(r.ok().as_ptr() == m.r.ok().as_ptr()); else VP_CHECK(r.err().as_ptr() == m.r.err().as_ptr());
  best::result<i64, err_t> w = m.r; VP_CHECK(w.is_ok() == m.ok); if (m.ok) VP_CHECK(*w == m.x); else VP_CHECK(w.err()->c == m.x);
  mr<k_int, k_err> n; w = n.r; VP_CHECK(w.is_ok() == n.ok); if (n.ok) VP_CHECK(*w == n.x); else VP_CHECK(w.err()->c == n.x);
  best::result<i64, err_t> z = static_cast<best::result<int, err_t>&&>(n.r); VP_CHECK(z.is_ok() == n.ok); if (n.ok) VP_CHECK(*z == n.x); else VP_CHECK(z.err()->c == n.x);
  best::result<int, err_t> u = m.x; VP_CHECK(u.is_ok() && *u == m.x);
  best::result<int, err_t> e = err_t(m.x); VP_CHECK(e.is_err() && e.err()->c == m.x);
  auto o = m.r.ok(); best::option<int> cp = o.copy(); VP_CHECK(cp.has_value() == m.ok); 
  VP_REACH();
}
VP_ENTRY(void_sides) {
  bool k = any<bool>("k"), want = any<bool>("want"); int x = any<int>("x"); int n = 0;
  auto mk = [](bool k, int x) -> best::result<void, int> { if (k) return best::ok(); return best::err(x); };
  auto r = mk(k, x);
  VP_CHECK(r.is_ok() == k && r.ok().has_value() == k && r.err().has_value() == !k); if (!k) VP_CHECK(*r.err() == x);
  auto m = r.map([&] { n++; return 7; }); VP_CHECK(m.is_ok() == k && n == (int)k); if (k) VP_CHECK(*m == 7); else VP_CHECK(*m.err() == x);
  auto e = r.map_err([&](int y) { n++; return y ^ 1; }); VP_CHECK(e.is_ok() == k && n == 1); if (!k) VP_CHECK(*e.err() == (x ^ 1));
  auto t = r.then([&]() -> best::result<int, int> { if (want) return best::ok(1); return best::err(2); });
  VP_CHECK(t.is_ok() == (k && want)); if (!t.is_ok()) VP_CHECK(*t.err() == (k ? 2 : x));
  auto c = r; VP_CHECK(c.is_ok() == k); c = mk(want, 5); VP_CHECK(c.is_ok() == want && (want || *c.err() == 5));
  VP_CHECK((c == r) == (k == want && (k || x == 5)));
  auto mk2 = [](bool k, int x) -> best::result<int, void> { if (k) return best::ok(x); return best::err(); };
  auto s = mk2(k, x); VP_CHECK(s.is_ok() == k && s.err().has_value() == !k && (!k || *s == x));
  auto s2 = s.map([](int y) { return (i64)y + 1; }); VP_CHECK(s2.is_ok() == k && (!k || *s2 == (i64)x + 1));
  auto s3 = s.map_err([&] { return 3; }); VP_CHECK(s3.is_ok() == k && (k ? *s3.ok() == x : *s3.err() == 3));
  VP_REACH();
}
