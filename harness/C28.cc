// Sum types manage lifetimes across all state changes.
// BOUND: every history of 2 (quick) / 3 (thorough) operations (copy, move and self assignment, construction, emplacing, resetting, replacing by a value, combinators) over two objects in arbitrary states, for options, results and choices of assignable, non-assignable and move-only lifetime-checked classes
// ORACLE: the model state of each object, the number of live payloads and the engine's heap (each payload owns a block: losing, reusing or destroying one twice is a memory error).
#include "best/container/choice.h"
#include "best/container/option.h"
#include "best/container/result.h"
#include "best/container/box.h"
#include "best/text/format.h"
#include "best/log/wtf.h"
#include "vp.h"
using namespace vp;
constexpr int LEN = VPQ(2, 3);

struct fixed {  // cannot be assigned: a change of value has to destroy and construct
  tracked t;
  fixed(int x) : t(x) {}
  fixed(const fixed&) = default; fixed(fixed&&) = default;
  fixed& operator=(const fixed&) = delete;
};
struct mover {  // can only be moved
  tracked t; int pad = 0;
  mover(int x) : t(x) {}
  mover(mover&&) = default; mover& operator=(mover&&) = default;
};
static int val(const tracked& t) { t.ok(); return t.v; }
static int val(const fixed& t) { return val(t.t); }
static int val(const mover& t) { return val(t.t); }

// option<T>: state = engaged? and value
template <class T> struct opt {
  using O = best::option<T>;
  bool has; int x; O o;
  static constexpr bool copies = !__is_same(T, mover);
  opt() : has(any<bool>("has")), x(any<int>("x")) { if (has) o.emplace(x); }
  void check() const { VP_CHECK(o.has_value() == has); if (has) VP_CHECK(val(*o) == x); }
};
template <class T> static void option_history() {
  L = {};
  {
    using M = opt<T>; using O = typename M::O;
    M m[2];
    for (int s = 0; s < LEN; s++) {
      int op = pick(11, "op"), i = s ? pick(1, "i") : 0, j = op == 0 || op == 1 || op == 6 || op == 7 ? pick(1, "j") : 0;
      M &a = m[i], &b = m[j];
      switch (op) {
        case 0: if constexpr (M::copies) { a.o = b.o; a.has = b.has; a.x = b.x; } break;
        case 1: if (i != j) { a.o = static_cast<O&&>(b.o); a.has = b.has; a.x = b.x; b.o.reset(); b.has = false; } break;
        case 2: { int y = any<int>("y"); auto& r = a.o.emplace(y); VP_CHECK(val(r) == y); a.has = true; a.x = y; break; }
        case 3: a.o.reset(); a.has = false; break;
        case 4: a.o = best::none; a.has = false; break;
        case 5: { int y = any<int>("y"); a.o = T(y); a.has = true; a.x = y; break; }
        case 6: if constexpr (M::copies) { O c = b.o; VP_CHECK(c.has_value() == b.has); if (i != j) { a.o = static_cast<O&&>(c); a.has = b.has; a.x = b.x; } } break;
        case 7: if (i != j) { O c = static_cast<O&&>(a.o); a.o = static_cast<O&&>(b.o); b.o = static_cast<O&&>(c); bool h = a.has; int v = a.x; a.has = b.has; a.x = b.x; b.has = h; b.x = v; } break;
        case 8: { int y = any<int>("y"); auto&& r = a.o.or_emplace(y); if (!a.has) a.x = y; a.has = true; VP_CHECK(val(r) == a.x); break; }
        case 9: { // an rvalue's combinators hand over the value itself
          O c = static_cast<O&&>(a.o);
          int want = a.x; auto r = static_cast<O&&>(c).map([&](auto&& v) { VP_CHECK(val(v) == want); return T(static_cast<T&&>(v)); });
          VP_CHECK(r.has_value() == a.has); a.o = static_cast<O&&>(r); break; }
        case 10: { O c = static_cast<O&&>(a.o); auto r = static_cast<O&&>(c).then([](auto&& v) -> O { return O(static_cast<T&&>(v)); }); a.o = static_cast<O&&>(r); break; }
        default: { int y = any<int>("y"); O c = static_cast<O&&>(a.o); T r = static_cast<O&&>(c).value_or(T(y)); VP_CHECK(val(r) == (a.has ? a.x : y)); a.o.reset(); a.has = false; }
      }
      m[0].check(); m[1].check();
    }
    if constexpr (M::copies) { O& self = m[0].o; m[0].o = self; m[0].check(); }
    VP_REACH();
  }
  VP_CHECK(L.live == 0 && L.ctor + L.copy >= 0);
}
VP_ENTRY(option_tracked) { option_history<tracked>(); }
VP_ENTRY(option_fixed) { option_history<fixed>(); }
VP_ENTRY(option_mover) { option_history<mover>(); }

template <class A, class B> struct res {
  using R = best::result<A, B>;
  bool ok; int x; R r;
  static R mk(bool ok, int x) { if (ok) return best::ok(A(x)); return best::err(B(x)); }
  res() : ok(any<bool>("ok")), x(any<int>("x")), r(mk(ok, x)) {}
  void check() const { VP_CHECK(r.is_ok() == ok && r.is_err() == !ok); if (ok) VP_CHECK(val(*r.ok()) == x); else VP_CHECK(val(*r.err()) == x); }
};
template <class A, class B> static void result_history() {
  L = {};
  {
    using M = res<A, B>; using R = typename M::R;
    constexpr bool copies = !__is_same(A, mover) && !__is_same(B, mover);
    M m[2];
    for (int s = 0; s < LEN; s++) {
      int op = pick(6, "op"), i = s ? pick(1, "i") : 0, j = op == 2 || op == 3 || op == 6 ? 0 : pick(1, "j"); int y = any<int>("y"); bool k = any<bool>("k");
      M &a = m[i], &b = m[j];
      switch (op) {
        case 0: if constexpr (copies) { a.r = b.r; a.ok = b.ok; a.x = b.x; } break;
        case 1: if (i != j) { a.r = static_cast<R&&>(b.r); a.ok = b.ok; a.x = b.x; b.r = M::mk(k, y); b.ok = k; b.x = y; } break;
        case 2: a.r = M::mk(k, y); a.ok = k; a.x = y; break;
        case 3: if (k) a.r = best::ok(A(y)); else a.r = best::err(B(y)); a.ok = k; a.x = y; break;
        case 4: if constexpr (copies) { R c = b.r; a.r = static_cast<R&&>(c); a.ok = b.ok; a.x = b.x; } break;
        case 5: if (i != j) { R c = static_cast<R&&>(a.r); a.r = static_cast<R&&>(b.r); b.r = static_cast<R&&>(c); bool h = a.ok; int v = a.x; a.ok = b.ok; a.x = b.x; b.ok = h; b.x = v; } break;
        default: { R c = static_cast<R&&>(a.r); auto o = static_cast<R&&>(c).ok(); VP_CHECK(o.has_value() == a.ok); if (a.ok) { A t = *static_cast<decltype(o)&&>(o); VP_CHECK(val(t) == a.x); } a.r = M::mk(k, y); a.ok = k; a.x = y; }
      }
      m[0].check(); m[1].check();
    }
    VP_REACH();
  }
  VP_CHECK(L.live == 0);
}
VP_ENTRY(result_tracked_fixed) { result_history<tracked, fixed>(); }
VP_ENTRY(result_mover_tracked) { result_history<mover, tracked>(); }

template <size_t n> constexpr best::index_t<n> ix = {};
using C4 = best::choice<tracked, fixed, void, best::box<int>>;
using C2 = best::choice<fixed, fixed>;
using CN = best::choice<best::box<int>, void>;
template <class C> struct cho;
template <> struct cho<C4> {
  static constexpr size_t N = 4;
  static C4 mk(size_t w, int x) { switch (w) { case 0: return C4(ix<0>, x); case 1: return C4(ix<1>, x); case 2: return C4(ix<2>); default: return C4(ix<3>, best::box<int>(best::in_place, x)); } }
  static void put(C4& c, size_t w, int x) { switch (w) { case 0: c.emplace(ix<0>, x); break; case 1: c.emplace(ix<1>, x); break; case 2: c.emplace(ix<2>); break; default: c.emplace(ix<3>, best::box<int>(best::in_place, x)); } }
  static void check(const C4& c, size_t w, int x) { VP_CHECK(c.which() == w); if (w == 0) VP_CHECK(val(c[ix<0>]) == x); if (w == 1) VP_CHECK(val(c[ix<1>]) == x); if (w == 3) VP_CHECK(*c[ix<3>] == x); }
};
template <> struct cho<C2> {
  static constexpr size_t N = 2;
  static C2 mk(size_t w, int x) { if (w == 0) return C2(ix<0>, x); return C2(ix<1>, x); }
  static void put(C2& c, size_t w, int x) { if (w == 0) c.emplace(ix<0>, x); else c.emplace(ix<1>, x); }
  static void check(const C2& c, size_t w, int x) { VP_CHECK(c.which() == w); VP_CHECK((w ? val(c[ix<1>]) : val(c[ix<0>])) == x); }
};
template <> struct cho<CN> {
  static constexpr size_t N = 2;
  static CN mk(size_t w, int x) { if (w == 0) return CN(ix<0>, best::box<int>(best::in_place, x)); return CN(ix<1>); }
  static void put(CN& c, size_t w, int x) { if (w == 0) c.emplace(ix<0>, best::box<int>(best::in_place, x)); else c.emplace(ix<1>); }
  static void check(const CN& c, size_t w, int x) { VP_CHECK(c.which() == w); if (w == 0) VP_CHECK(*c[ix<0>] == x); }
};
template <class C, int LEN2 = LEN> static void choice_history() {
  L = {};
  {
    using K = cho<C>;
    struct M { size_t w; int x; C c; M() : w(pick(K::N - 1, "which")), x(any<int>("x")), c(K::mk(w, x)) {} void check() { K::check(c, w, x); } } m[2];
    for (int s = 0; s < LEN2; s++) {
      int op = pick(4, "op"), i = s ? pick(1, "i") : 0, j = op == 2 ? 0 : pick(1, "j"); int y = any<int>("y");
      M &a = m[i], &b = m[j];
      switch (op) {
        case 0: a.c = b.c; a.w = b.w; a.x = b.x; break;
        case 1: { size_t w = pick(K::N - 1, "w"); if (i != j) { a.c = static_cast<C&&>(b.c); a.w = b.w; a.x = b.x; } K::put(b.c, w, y); b.w = w; b.x = y; break; }
        case 2: { size_t w = pick(K::N - 1, "w"); a.c = K::mk(w, y); a.w = w; a.x = y; break; }
        case 3: { C t = b.c; a.c = static_cast<C&&>(t); a.w = b.w; a.x = b.x; break; }
        default: if (i != j) { C t = static_cast<C&&>(a.c); a.c = static_cast<C&&>(b.c); b.c = static_cast<C&&>(t); size_t w = a.w; int v = a.x; a.w = b.w; a.x = b.x; b.w = w; b.x = v; }
      }
      m[0].check(); m[1].check();
    }
    VP_REACH();
  }
  VP_CHECK(L.live == 0);
}
VP_ENTRY(choice_four) { choice_history<C4>(); }
VP_ENTRY(choice_two) { choice_history<C2, LEN>(); }
VP_ENTRY(choice_niche) { choice_history<CN, LEN>(); }
// self-move leaves the object usable and owning
VP_ENTRY(self_move) {
  L = {};
  {
    size_t w = pick(3, "w"); C4 c = cho<C4>::mk(w, any<int>("x")); C4& s = c; c = static_cast<C4&&>(s);
    VP_CHECK(c.which() == w || w == 3);
    cho<C4>::put(c, 0, 1); cho<C4>::check(c, 0, 1);
    best::option<fixed> o; if (any<bool>("h")) o.emplace(3); auto& p = o; o = static_cast<best::option<fixed>&&>(p); o.emplace(4); VP_CHECK(val(*o) == 4);
    VP_REACH();
  }
  VP_CHECK(L.live == 0);
}
