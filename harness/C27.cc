// An owning pointer owns exactly one value.
// BOUND: every history of 2 (quick) / 3 (thorough) operations (construction, copy, move and self assignment, try_copy, leak and re-wrap, optional wrapping) over two boxes that hold arbitrary values or have been moved from, for boxes of scalars, lifetime-checked classes, move-only classes, fixed arrays, runtime-sized arrays up to length 2, and interface objects of two dynamic types; every allocation returned is checked against the layout it was requested with
// ORACLE: a model of each box's content; exact construction/destruction and allocation counts; the engine's heap (each payload owns a block, so losing, reusing or destroying one twice is a memory error)
#include "best/container/box.h"
#include "best/func/dyn.h"
#include "best/text/format.h"
#include "best/log/wtf.h"
#include "vp.h"
using namespace vp;
constexpr int LEN = VPQ(2, 3);

// An allocator that checks its own use, and carries an identity.
struct counting {
  static inline int out = 0, total = 0;
  struct hdr { size_t size, align; };
  constexpr counting() = default;  constexpr bool operator==(const counting&) const = default;
  static best::ptr<void> alloc(best::layout l) {
    out++; total++;
    hdr* h = (hdr*)malloc(sizeof(hdr) + l.size());
    *h = {l.size(), l.align()};
    return best::ptr<void>(h + 1);
  }
  static best::ptr<void> zalloc(best::layout l) { auto p = alloc(l); memset(p.raw(), 0, l.size()); return p; }
  static best::ptr<void> realloc(best::ptr<void>, best::layout, best::layout) { __builtin_trap(); }
  static void dealloc(best::ptr<void> p, best::layout l) {
    out--;
    hdr* h = (hdr*)p.raw() - 1;
    VP_CHECK(h->size == l.size() && h->align == l.align());
    free(h);
  }
};
static_assert(best::allocator<counting>);

struct mover { tracked t; int pad = 0; mover(int x) : t(x) {} mover(mover&&) = default; mover& operator=(mover&&) = default; };
static int val(const tracked& t) { t.ok(); return t.v; }
static int val(const mover& t) { return val(t.t); }
static int val(int x) { return x; }

template <class B> static bool live(const B& b) { return b.raw() != best::ptr<typename B::type>::dangling().raw(); }

// A box of one object.
template <class T, class A> static void object_history() {
  L = {}; int base = counting::out;
  {
    using B = best::box<T, A>;
    constexpr bool copies = best::copyable<T>;
    struct M {
      int x; bool has; B b;
      M() : x(any<int>("x")), has(true), b(best::in_place, x) { if (any<bool>("moved")) { has = false; B other(static_cast<B&&>(b)); } }
      void check() const { VP_CHECK(live(b) == has); if (has) VP_CHECK(val(*b) == x); }
    } m[2];
    for (int s = 0; s < LEN; s++) {
      int op = pick(8, "op"), i = s ? pick(1, "i") : 0, j = op <= 2 || op == 5 ? pick(1, "j") : 0;
      M &a = m[i], &b = m[j]; int y = any<int>("y");
      switch (op) {
        case 0: if constexpr (copies) if (b.has) { auto& r = (a.b = b.b); VP_CHECK(&r == &a.b); a.has = true; a.x = b.x; } break;
        case 1: { a.b = static_cast<B&&>(b.b); if (i != j) { a.has = b.has; a.x = b.x; b.has = false; } break; }
        case 2: if constexpr (copies) if (b.has) { B c = b.b; VP_CHECK(c.raw() != b.b.raw()); a.b = static_cast<B&&>(c); VP_CHECK(!live(c)); a.has = true; a.x = b.x; } break;
        case 3: a.b = B(best::in_place, y); a.has = true; a.x = y; break;
        case 4: { auto rowp = static_cast<B&&>(a.b).into_raw(); a.has = false; a.check(); if (rowp.first() != best::ptr<T>::dangling()) { a.b = B(best::unsafe("test"), static_cast<A&&>(rowp.second()), rowp.first()); a.has = true; } break; }
        case 5: if (b.has) { auto c = b.b.try_copy(); VP_CHECK(c.has_value() == copies); if (c.has_value()) { VP_CHECK(val(**c) == b.x && c->raw() != b.b.raw()); a.b = *static_cast<decltype(c)&&>(c); a.has = true; a.x = b.x; } } break;
        case 6: if (a.has) { *a.b = T(y); a.x = y; VP_CHECK(a.b.layout().size() == sizeof(T) && a.b.layout().align() == alignof(T)); } break;
        case 7: if (a.has) { T t = *static_cast<B&&>(a.b); VP_CHECK(val(t) == a.x); *a.b = static_cast<T&&>(t); } break;
        default: { best::option<B> o; VP_CHECK(!o.has_value()); if (a.has) { o = static_cast<B&&>(a.b); VP_CHECK(val(**o) == a.x); a.b = *static_cast<decltype(o)&&>(o); } o.reset(); }
      }
      m[0].check(); m[1].check();
    }
    if constexpr (__is_same(A, counting)) VP_CHECK(counting::out - base == m[0].has + m[1].has);
    VP_REACH();
  }
  VP_CHECK(L.live == 0 && counting::out == base);
}
VP_ENTRY(box_int) { object_history<int, best::malloc>(); }
VP_ENTRY(box_int_counting) { object_history<int, counting>(); }
VP_ENTRY(box_tracked) { object_history<tracked, counting>(); }
VP_ENTRY(box_mover) { object_history<mover, counting>(); }
VP_ENTRY(box_tracked_malloc) { object_history<tracked, best::malloc>(); }

// A box of a runtime-sized array.
template <class T, class A> static void array_history() {
  L = {}; int base = counting::out;
  {
    using B = best::box<T[], A>;
    struct M {
      size_t n; int x[2]; bool has = true; B b;
      static B mk(size_t n, const int* x) {
        if (n == 0) { if (any<bool>("dflt")) return B(); return B(best::in_place, best::span<const T>()); }
        if (n == 1) { T t[] = {T(x[0])}; return B(best::in_place, best::span<const T>(t, 1)); }
        T t[] = {T(x[0]), T(x[1])}; return B(best::in_place, best::span<const T>(t, 2));
      }
      M(bool second = false) : n(pick(2, "n")), x{any<int>("x0"), any<int>("x1")}, b(mk(n, x)) { if (second && any<bool>("moved")) { has = false; n = 0; B other(static_cast<B&&>(b)); } }
      void check() const { if (n || !has) VP_CHECK(live(b) == has); if (!has) return; VP_CHECK(b->size() == n); for (size_t i = 0; i < n; i++) { VP_CHECK(val((*b)[i]) == x[i]); VP_CHECK(val(b[i]) == x[i]); } VP_CHECK(b.layout().size() == n * sizeof(T)); }
      void take(const M& o) { n = o.n; x[0] = o.x[0]; x[1] = o.x[1]; has = o.has; }
    } m[2] = {false, true};
    for (int s = 0; s < LEN; s++) {
      int op = pick(6, "op"), i = s ? pick(1, "i") : 0, j = op <= 2 || op == 5 ? pick(1, "j") : 0;
      M &a = m[i], &b = m[j]; int y[2] = {any<int>("y0"), any<int>("y1")};
      switch (op) {
        case 0: if (b.has) { bool was = a.has; a.b = b.b; a.take(b); if (!b.n) a.has = live(a.b); (void)was; } break;
        case 1: a.b = static_cast<B&&>(b.b); if (i != j) { a.take(b); b.has = false; b.n = 0; } break;
        case 2: if (b.has) { B c = b.b; VP_CHECK(c.raw() != b.b.raw()); a.b = static_cast<B&&>(c); a.take(b); } break;
        case 3: { size_t n = pick(2, "k"); a.b = M::mk(n, y); a.n = n; a.x[0] = y[0]; a.x[1] = y[1]; a.has = true; break; }
        case 4: { auto p = static_cast<B&&>(a.b).into_raw(); bool had = a.has; size_t n = a.n; a.has = false; a.n = 0; a.check(); if (had) { a.b = B(best::unsafe("test"), static_cast<A&&>(p.second()), p.first()); a.has = true; a.n = n; } break; }
        case 5: if (b.has) { auto c = b.b.try_copy(); VP_CHECK(c.has_value()); a.b = *static_cast<decltype(c)&&>(c); a.take(b); } break;
        default: { best::option<B> o; if (a.has) { o = static_cast<B&&>(a.b); VP_CHECK((*o)->size() == a.n); a.b = *static_cast<decltype(o)&&>(o); } }
      }
      m[0].check(); m[1].check();
    }
    VP_REACH();
  }
  VP_CHECK(L.live == 0 && counting::out == base);
}
VP_ENTRY(box_ints) { array_history<int, counting>(); }
VP_ENTRY(box_trackeds) { array_history<tracked, counting>(); }

// A box of a fixed array.
VP_ENTRY(box_fixed_array) {
  L = {}; int base = counting::out;
  {
    using B = best::box<tracked[2], counting>;
    int x[4]; for (int& v : x) v = any<int>("x");
    tracked s[2] = {x[0], x[1]}, t[2] = {x[2], x[3]};
    B a(best::in_place, s), b(best::in_place, static_cast<tracked(&&)[2]>(t));
    VP_CHECK((*a)[0] == x[0] && (*a)[1] == x[1] && (*b)[0] == x[2] && (*b)[1] == x[3]);
    VP_CHECK(L.live == 8);
    int op = pick(3, "op");
    if (op == 0) { a = b; VP_CHECK((*a)[0] == x[2] && (*a)[1] == x[3] && (*b)[0] == x[2] && (*b)[1] == x[3] && a.raw() != b.raw()); }
    if (op == 1) { a = static_cast<B&&>(b); VP_CHECK((*a)[0] == x[2] && (*a)[1] == x[3] && !live(b)); b = a; VP_CHECK((*b)[1] == x[3]); }
    if (op == 2) { B c = a; VP_CHECK((*c)[0] == x[0] && (*c)[1] == x[1] && c.raw() != a.raw()); }
    if (op == 3) { B& r = a; a = r; VP_CHECK((*a)[0] == x[0] && (*a)[1] == x[1]); }
    VP_REACH();
  }
  VP_CHECK(L.live == 0 && counting::out == base);
}

// Construction forms and element destruction order do not lose elements.
VP_ENTRY(box_init_list) {
  L = {};
  {
    int x = any<int>("x"), y = any<int>("y");
    best::box b({tracked(x), tracked(y)});
    VP_CHECK(b->size() == 2 && b[0] == x && b[1] == y);
    auto c = b; c = b;
    best::box d({tracked(y)}); c = d; VP_CHECK(c->size() == 1 && c[0] == y);
    best::box e(tracked{x}); VP_CHECK(*e == x); VP_CHECK(e->v == x);
    best::box<tracked> f(x); VP_CHECK(*f == x && *e == *f && e == f);
    VP_REACH();
  }
  VP_CHECK(L.live == 0);
}

// Boxes compare, order and print as their contents.
VP_ENTRY(box_compare) {
  int x = any<int>("x"), y = any<int>("y");
  best::box<int> a(x), b(y);
  VP_CHECK((a == b) == (x == y) && (a != b) == (x != y) && (a < b) == (x < y) && (a <= b) == (x <= y) && (a > b) == (x > y));
  VP_CHECK((a == y) == (x == y) && (a < y) == (x < y));
  best::box<int[]> p({x, y}), q({y, x});
  VP_CHECK((p == q) == (x == y) && (p < q) == (x < y));
  VP_REACH();
}
VP_ENTRY(box_format) {
  int x = any<i8>("x");
  best::box<int> a(x);
  best::strbuf u = best::format("{}", a), v = best::format("{}", x);
  VP_CHECK(u == v);
  best::strbuf p = best::format("{:p}", a), r = best::format("{:p}", a.as_ptr());
  VP_CHECK(p == r && !p.is_empty());
  VP_REACH();
}

// Interface objects.
class Get : public best::interface_base<Get> {
 public:
  BEST_INTERFACE(Get, (int, get, (), const), (void, set, (int x)));
};
struct small { tracked t; small(int x) : t(x) {} int get() const { return val(t); } void set(int x) { t.ok(); t.v = x; } };
struct large { long pad = 7; tracked t; large(int x) : t(x) {} int get() const { return val(t) ^ 1; } void set(int x) { t.ok(); t.v = x ^ 1; } };
struct same_size { tracked t; same_size(int x) : t(x) {} int get() const { return ~val(t); } void set(int x) { t.ok(); t.v = ~x; } };
struct uncopied { tracked t; uncopied(int x) : t(x) {} uncopied(uncopied&&) = default; int get() const { return val(t); } void set(int x) { t.ok(); t.v = x; } };
VP_ENTRY(box_dyn) {
  L = {};
  {
    using B = best::dynbox<Get>;
    struct M {
      int k, x; bool has = true; B b;
      static B mk(int k, int x) { switch (k) { case 0: return best::box<small>(x); case 1: return best::box<large>(x); case 2: return best::box<same_size>(x); default: return best::box<uncopied>(best::in_place, x); } }
      static int seen(int k, int x) { return k == 1 ? x ^ 1 : k == 2 ? ~x : x; }
      M() : k(pick(3, "kind")), x(any<int>("x")), b(mk(k, x)) {}
      void check() const { VP_CHECK((b.raw() != B::ptr::dangling().raw()) == has); if (has) { VP_CHECK(b->get() == seen(k, x)); VP_CHECK(b.layout().size() == (k == 1 ? sizeof(large) : sizeof(small))); } }
    } m[2];
    for (int s = 0; s < LEN; s++) {
      int op = pick(5, "op"), i = s ? pick(1, "i") : 0, j = op <= 1 ? pick(1, "j") : 0;
      M &a = m[i], &b = m[j]; int y = any<int>("y");
      switch (op) {
        case 0: a.b = static_cast<B&&>(b.b); if (i != j) { a.k = b.k; a.x = b.x; a.has = b.has; b.has = false; } break;
        case 1: if (b.has) { auto c = b.b.try_copy(); VP_CHECK(c.has_value() == (b.k != 3)); if (c.has_value()) { VP_CHECK(c->raw() != b.b.raw()); (*c)->set(y); a.b = *static_cast<decltype(c)&&>(c); if (i != j) b.check(); a.k = b.k; a.x = M::seen(a.k, y); a.has = true; } } break;
        case 2: { int k = pick(3, "k"); a.b = M::mk(k, y); a.k = k; a.x = y; a.has = true; break; }
        case 3: if (a.has) { a.b->set(y); a.x = M::seen(a.k, y); } break;
        case 4: { auto p = static_cast<B&&>(a.b).leak(); bool had = a.has; a.has = false; a.check(); if (had) { a.b = B(best::unsafe("test"), p); a.has = true; } break; }
        default: if (a.has) { best::option<B> o = static_cast<B&&>(a.b); VP_CHECK((*o)->get() == M::seen(a.k, a.x)); a.b = *static_cast<decltype(o)&&>(o); }
      }
      m[0].check(); m[1].check();
    }
    VP_REACH();
  }
  VP_CHECK(L.live == 0);
}
