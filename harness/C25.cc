// A choice holds exactly the alternative it was given.
// BOUND: every stored alternative, payload value, and pair of states, for choices of one to five alternatives over integers, references, pointers, void, an owning box, a rune, a lifetime-checked class, an array and repeated types, in tagged and niche representations
// ORACLE: a pair (alternative number, value).
#include "best/container/choice.h"
#include "best/container/option.h"
#include "best/container/result.h"
#include "best/container/box.h"
#include "best/text/rune.h"
#include "best/text/format.h"
#include "best/log/wtf.h"
#include "vp.h"
using namespace vp;

static int G[4] = {0, 1, 2, 3};
// per-type payloads: how to make one from a number, how to read the number back
template <class T> struct pay { static constexpr bool vd = false; static T mk(int x) { return (T)x; } static int val(const T& t) { return (int)t; } static int any() { return (int)vp::any<T>("v"); } };
template <> struct pay<i64> { static constexpr bool vd = false; static i64 mk(int x) { return x; } static int val(const i64& t) { return (int)t; } static int any() { return vp::any<int>("v"); } };
template <> struct pay<u64> { static constexpr bool vd = false; static u64 mk(int x) { return (u64)(unsigned)x; } static int val(const u64& t) { return (int)t; } static int any() { return vp::any<int>("v"); } };
template <> struct pay<void> { static constexpr bool vd = true; static int any() { return 0; } };
template <> struct pay<best::empty> { static constexpr bool vd = false; static best::empty mk(int) { return {}; } static int val(const best::empty&) { return 0; } static int any() { return 0; } };
template <> struct pay<int&> { static constexpr bool vd = false; static int& mk(int x) { return G[x]; } static int val(const int& t) { return (int)(&t - G); } static int any() { return pick(3, "v"); } };
template <> struct pay<const int&> : pay<int&> {};
template <> struct pay<int*> { static constexpr bool vd = false; static int* mk(int x) { return &G[x]; } static int val(int* const& t) { return (int)(t - G); } static int any() { return pick(3, "v"); } };
template <> struct pay<best::rune> { static constexpr bool vd = false; static best::rune mk(int x) { return *best::rune::from_int(x); } static int val(const best::rune& t) { return (int)t.to_int(); } static int any() { u32 x = vp::any<u32>("v"); vp_assume(x < 0x110000 && (x < 0xd800 || x > 0xdfff)); return x; } };
template <> struct pay<best::box<int>> { static constexpr bool vd = false; static best::box<int> mk(int x) { return best::box<int>(best::in_place, x); } static int val(const best::box<int>& t) { return *t; } static int any() { return vp::any<int>("v"); } };
template <> struct pay<tracked> { static constexpr bool vd = false; static tracked mk(int x) { return tracked(x); } static int val(const tracked& t) { t.ok(); return t.v; } static int any() { return vp::any<int>("v"); } };
struct movable { tracked t; int m = 0; movable(int x) : t(x) {} movable(movable&&) = default; movable& operator=(movable&&) = default; };
template <> struct pay<movable> { static constexpr bool vd = false; static movable mk(int x) { return movable(x); } static int val(const movable& t) { t.t.ok(); return t.t.v; } static int any() { return vp::any<int>("v"); } };

template <size_t n> constexpr best::index_t<n> ix = {};
template <class... A> struct mc {
  using C = best::choice<A...>;
  static constexpr size_t N = sizeof...(A);
  static constexpr bool copies = !(__is_same(A, movable) || ...);
  template <size_t n> using ty = typename C::template type<n>;
  template <size_t n> using py = pay<ty<n>>;
  size_t w; int x; C c;
  template <size_t n> static C make(int x) {
    if constexpr (py<n>::vd) return C(ix<n>); else return C(ix<n>, py<n>::mk(x));
  }
  template <size_t n = 0> static C make(size_t w, int x) {
    if constexpr (n + 1 < N) { if (w != n) return make<n + 1>(w, x); }
    return make<n>(x);
  }
  template <size_t n = 0> static int anyv(size_t w) {
    if constexpr (n + 1 < N) { if (w != n) return anyv<n + 1>(w); }
    return py<n>::any();
  }
  mc() : w(pick(N - 1, "which")), x(anyv(w)), c(make(w, x)) {}
  template <size_t n = 0> static void check(const C& c, size_t w, int x) {
    if constexpr (n == 0) VP_CHECK(c.which() == w);
    if constexpr (py<n>::vd) {
      VP_CHECK((c.as_ptr(ix<n>) != nullptr) == (w == n) && c.at(ix<n>).has_value() == (w == n));
    } else {
      auto p = c.as_ptr(ix<n>); VP_CHECK((p != nullptr) == (w == n));
      auto a = c.at(ix<n>); VP_CHECK(a.has_value() == (w == n));
      if (w == n) VP_CHECK(py<n>::val(*p) == x && py<n>::val(*a) == x && py<n>::val(c[ix<n>]) == x && p == best::addr(*a));
    }
    VP_CHECK(c.object(ix<n>).has_value() == (w == n));
    if constexpr (n + 1 < N) check<n + 1>(c, w, x);
  }
  void check() const { check(c, w, x); }
};
template <size_t n, class M, class F> static void each(F f) { f(ix<n>); if constexpr (n + 1 < M::N) each<n + 1, M>(f); }

template <class... A> struct ops {
  using M = mc<A...>; using C = typename M::C;
  static constexpr size_t N = M::N;
  static constexpr bool copies = M::copies;
  static void query() {
    M m; m.check();
    const C& k = m.c;
    each<0, M>([&](auto i) {
      constexpr size_t n = i.value;
      bool here = m.w == n;
      VP_CHECK((m.c.as_ptr(i) != nullptr) == here && m.c.as_ptr(i) == k.as_ptr(i));
      VP_CHECK(m.c.at(i).has_value() == here && m.c.object(i).has_value() == here);
      VP_CHECK(((C&&)m.c).object(i).has_value() == here && ((const C&&)k).object(i).has_value() == here);
      if constexpr (!M::template py<n>::vd) VP_CHECK(((C&&)m.c).at(i).has_value() == here && ((const C&&)k).at(i).has_value() == here);
      if constexpr (!M::template py<n>::vd) if (here) {
        VP_CHECK(best::addr(*m.c.at(i)) == m.c.as_ptr(i) && best::addr(m.c[i]) == m.c.as_ptr(i));
        auto&& r = ((C&&)m.c)[i]; VP_CHECK(best::addr(r) == m.c.as_ptr(i));
        VP_CHECK(M::template py<n>::val(m.c.at(best::unsafe("here"), i)) == m.x && M::template py<n>::val(k.at(best::unsafe("here"), i)) == m.x);
      }
    });
    m.check(); VP_REACH();
  }
  static void access_crash() {
    M m; vp_leak_ok(); VP_REACH();
    size_t want = pick(N - 1, "want"), form = pick(2, "form");
    each<0, M>([&](auto i) {
      if (i.value != want) return;
      if (form == 0) VP_CRASHES_IFF(m.w != want, (void)m.c[i]);
      else if (form == 1) VP_CRASHES_IFF(m.w != want, (void)((const C&)m.c)[i]);
      else VP_CRASHES_IFF(m.w != want, (void)((C&&)m.c)[i]);
    });
  }
  // exactly the arm of the stored alternative runs, once, with the stored value, in every value category
  static void matching() {
    M m; int calls = 0;
    auto im = [&](auto i, const auto&... v) -> int { calls++; VP_CHECK(i.value == m.w); (VP_CHECK(M::template py<i.value>::val(v) == m.x), ...); return (int)i.value + 10; };
    int want = 10 + (int)m.w;
    VP_CHECK(m.c.index_match(im) == want && calls == 1);
    VP_CHECK(((const C&)m.c).index_match(im) == want && calls == 2);
    VP_CHECK(((const C&&)m.c).index_match(im) == want && calls == 3);
    VP_CHECK(((C&&)m.c).index_match(im) == want && calls == 4);
    auto mm = [&](const auto&... v) -> int { calls++; return (int)sizeof...(v); };
    int has = 1; each<0, M>([&](auto i) { if constexpr (M::template py<i.value>::vd) if (m.w == i.value) has = 0; });
    VP_CHECK(m.c.match(mm) == has && calls == 5 && ((const C&)m.c).match(mm) == has && calls == 6);
    VP_CHECK(((const C&&)m.c).match(mm) == has && ((C&&)m.c).match(mm) == has && calls == 8);
    // a mutable match reaches the stored object itself; an rvalue one hands over an rvalue
    m.c.index_match([&](auto) {}, [&](auto i, auto& v) { VP_CHECK((void*)best::addr(v) == (void*)m.c.as_ptr(i)); });
    ((C&&)m.c).index_match([&](auto) {}, [&](auto i, auto&& v) {
      using T = typename M::template ty<i.value>;
      VP_CHECK((void*)best::addr(v) == (void*)m.c.as_ptr(i));
      if constexpr (best::is_object<T>) VP_CHECK((__is_same(decltype(v), T&&)));
    });
    ((C&&)m.c).match([&]() {}, [&](auto&& v) { if constexpr (!std::is_lvalue_reference_v<decltype(v)>) calls++; });
    m.check(); VP_REACH();
  }
  static void moves() {
    M a, b;
    C c = (C&&)a.c; M::check(c, a.w, a.x);
    c = (C&&)b.c; M::check(c, b.w, b.x);
    VP_REACH();
  }
  static void copying() {
    if constexpr (copies) {
      M a, b;
      C c = a.c; M::check(c, a.w, a.x); a.check();
      c = b.c; M::check(c, b.w, b.x); b.check();
      C& s = c; c = s; M::check(c, b.w, b.x);
      VP_REACH();
    }
  }
  static void emplacing() {
    M a; size_t to = pick(N - 1, "to");
    each<0, M>([&](auto i) {
      constexpr size_t n = i.value;
      if (n != to) return;
      int y = M::template py<n>::any();
      if constexpr (M::template py<n>::vd) a.c.emplace(i);
      else { auto&& r = a.c.emplace(i, M::template py<n>::mk(y)); VP_CHECK(best::addr(r) == a.c.as_ptr(i) && M::template py<n>::val(r) == y); }
      M::check(a.c, n, y);
    });
    VP_REACH();
  }
  static void ordering() {
    M a, b;
    if constexpr (requires { a.c == b.c; }) {
      bool eq = a.w == b.w && a.x == b.x;
      VP_CHECK((a.c == b.c) == eq && (a.c != b.c) == !eq && a.c == a.c);
      if constexpr (requires { a.c <=> b.c; }) {
        bool lt = a.w < b.w || (a.w == b.w && a.x < b.x);
        VP_CHECK((a.c < b.c) == lt && (a.c > b.c) == (!lt && !eq) && (a.c <= b.c) == (lt || eq) && (a.c >= b.c) == !lt);
      }
      a.check(); b.check();
    }
    VP_REACH();
  }
  static void all() {}
};
// permuting: alternative k of the source is alternative (position of k in p) of the target
template <class M, auto... p> static void perm() {
  M m; constexpr size_t P[] = {p...}; size_t at = 0;
  for (size_t i = 0; i < M::N; i++) if (P[i] == m.w) at = i;
  auto see = [&](const auto& q) {
    VP_CHECK(q.which() == at);
    q.index_match([&](auto i, const auto&... v) { VP_CHECK(i.value == at); (VP_CHECK(M::template py<P[i.value]>::val(v) == m.x), ...); });
  };
  if constexpr (M::copies) {
    auto q = m.c.template permute<p...>(); see(q); m.check();
    auto r = ((const typename M::C&)m.c).permute(best::vals<p...>); see(r); m.check();
  }
  auto s = ((typename M::C&&)m.c).template permute<p...>(); see(s);
  VP_REACH();
}
#define E(tag, ...)                                                        \
  VP_ENTRY(query_##tag) { ops<__VA_ARGS__>::query(); }                     \
  VP_ENTRY(access_##tag) { ops<__VA_ARGS__>::access_crash(); }             \
  VP_ENTRY(match_##tag) { ops<__VA_ARGS__>::matching(); }                  \
  VP_ENTRY(move_##tag) { ops<__VA_ARGS__>::moves(); }                      \
  VP_ENTRY(emplace_##tag) { ops<__VA_ARGS__>::emplacing(); }
#define EC(tag, ...) E(tag, __VA_ARGS__)                                   \
  VP_ENTRY(copy_##tag) { ops<__VA_ARGS__>::copying(); }                    \
  VP_ENTRY(order_##tag) { ops<__VA_ARGS__>::ordering(); }

EC(one, tracked)
EC(ints, int, i64, u8)
EC(same, int, int)
EC(own, tracked, int)
EC(mix, best::box<int>, int&, void, tracked, u8)
EC(nichel, best::rune, void)
EC(nicher, void, best::box<int>)
EC(nichee, best::empty, best::rune)
EC(ref, int&, void)
EC(ptrs, int*, const int&, best::empty)
E(mov, movable, int, movable)

VP_ENTRY(perm_ints) { perm<mc<int, i64, u8>, 2, 0, 1>(); }
VP_ENTRY(perm_same) { perm<mc<int, int>, 1, 0>(); }
VP_ENTRY(perm_id) { perm<mc<int, u8>, 0, 1>(); }
VP_ENTRY(perm_own) { perm<mc<tracked, int, void>, 1, 2, 0>(); }
VP_ENTRY(perm_mov) { perm<mc<movable, int, best::box<int>>, 2, 1, 0>(); }
VP_ENTRY(perm_niche) { perm<mc<void, best::box<int>>, 1, 0>(); }
VP_ENTRY(perm_five) { perm<mc<int, u8, i64, void, tracked>, 4, 3, 0, 2, 1>(); }

// an implicit conversion picks the unique alternative that accepts the argument
VP_ENTRY(convert) {
  int x = any<int>();
  best::choice<int*, best::rune, tracked> a = &G[1]; VP_CHECK(a.which() == 0 && *a.as_ptr(ix<0>) == &G[1]);
  best::choice<int*, tracked> b = x; VP_CHECK(b.which() == 1 && b[ix<1>].v == x);
  best::choice<void, int> c = x; VP_CHECK(c.which() == 1 && c[ix<1>] == x);
  b = &G[2]; VP_CHECK(b.which() == 0 && b[ix<0>] == &G[2]);
  VP_REACH();
}
// choices of different but comparable types
VP_ENTRY(order_mixed) {
  int x = any<int>(); i64 y = any<i64>(); bool w = any<bool>(), v = any<bool>();
  best::choice<int, int> a = w ? best::choice<int, int>(ix<1>, x) : best::choice<int, int>(ix<0>, x);
  best::choice<i64, i64> b = v ? best::choice<i64, i64>(ix<1>, y) : best::choice<i64, i64>(ix<0>, y);
  bool eq = w == v && x == y, lt = w < v || (w == v && x < y);
  VP_CHECK((a == b) == eq && (a < b) == lt && (a > b) == (!lt && !eq));
  VP_REACH();
}
