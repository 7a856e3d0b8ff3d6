// Function references, dynamic interfaces and scope guards call the right target.
// BOUND: all argument and state values; every choice of target kind (function, capturing and mutable closures, other references, member pointers, bound pointers, null); every sequence of 4 (quick) / 6 (thorough) guard operations; interface objects of two dynamic types with defaulted and overridden functions through references, pointers, raw pointers and boxes; taps with bound arguments and indices; by-value arguments are lifetime-checked
// ORACLE: call counters and the direct result of calling the same target
#include "best/func/call.h"
#include "best/func/defer.h"
#include "best/func/dyn.h"
#include "best/func/fnref.h"
#include "best/func/tap.h"
#include "best/func/arrow.h"
#include "best/container/box.h"
#include "best/container/vec.h"
#include "best/text/format.h"
#include "best/log/wtf.h"
#include "vp.h"
using namespace vp;

static int calls, last;
static int f1(int x) { calls++; last = x; return x ^ 0x55; }
static int f2(int x) { calls += 16; last = x; return x ^ 0x77; }
static void v1(int& x) { calls++; x ^= 3; }
struct rec { int k; int call(int x) const { calls++; last = x; return x ^ k; } int mut(int x) { calls++; k ^= x; return k; } int f; };

using CF = best::fnref<int(int) const>;
using MF = best::fnref<int(int)>;
static int through(CF f, int x) { return f(x); }
static int through_m(MF f, int x) { return f(x); }

VP_ENTRY(fnref_const) {
  calls = 0; int x = any<int>("x"), k = any<int>("k");
  auto cap = [&](int y) { calls++; last = y; return y ^ k; };
  auto val = [k](int y) { calls++; last = y; return y ^ k; };
  struct obj { int k; int operator()(int y) const { calls++; last = y; return y ^ k; } } o{k};
  int which = pick(8, "which"), got = 0, want = x ^ k, n = 1;
  switch (which) {
    case 0: got = through(f1, x); want = x ^ 0x55; break;
    case 1: got = through(&f2, x); want = x ^ 0x77; n = 16; break;
    case 2: got = through(cap, x); break;
    case 3: got = through(val, x); break;
    case 4: got = through(o, x); break;
    case 5: got = through([](int y) { calls++; last = y; return y ^ 9; }, x); want = x ^ 9; break;
    case 6: { CF a = cap; CF b = f1; CF c = a; a = b; got = c(x); calls--; got = through(c, x); VP_CHECK(a && b && c); b = nullptr; VP_CHECK(!b && b == nullptr && c != nullptr); break; }
    case 7: { CF a = cap; MF b = f1; b = a; got = b(x); break; }
    default: { // an arbitrary pointer with an explicit function
      typename CF::fnptr raw = [](const int& d, int y) { calls++; last = y; return y ^ d; };
      CF f(best::unsafe("test"), &k, raw); got = f(x); }
  }
  VP_CHECK(got == want && calls == n && last == x);
  VP_REACH();
}
VP_ENTRY(fnref_mutable) {
  calls = 0; int x = any<int>("x"), y = any<int>("y"), k = any<int>("k");
  auto m = [k](int v) mutable { calls++; return k ^= v; };
  MF f = m; MF g = f;
  VP_CHECK(f(x) == (k ^ x)); VP_CHECK(g(y) == (k ^ x ^ y)); VP_CHECK(m(0) == (k ^ x ^ y));
  VP_CHECK(through_m(m, y) == (k ^ x));
  VP_CHECK(calls == 4);
  struct both { int operator()(int v) { calls++; return v ^ 1; } int operator()(int v) const { calls += 100; return v ^ 2; } } b;
  calls = 0; VP_CHECK(through_m(b, x) == (x ^ 1) && calls == 1);
  VP_CHECK(through(b, x) == (x ^ 2) && calls == 101);
  MF n = nullptr; VP_CHECK(!n); n = f1; VP_CHECK(!!n && n(x) == (x ^ 0x55));
  typename MF::fnptr raw = [](int& d, int v) { return d ^= v; };
  MF u(best::unsafe("test"), &k, raw); int k0 = k; VP_CHECK(u(x) == (k0 ^ x) && k == (k0 ^ x));
  VP_CHECK(!!raw && !typename MF::fnptr(nullptr));
  VP_REACH();
}
VP_ENTRY(fnref_arguments) {
  L = {}; calls = 0;
  {
    int x = any<int>("x"), y = any<int>("y");
    best::fnref<void(int&) const> v = v1; int z = x; v(z); VP_CHECK(z == (x ^ 3) && calls == 1);
    auto discard = [&](int& w) { w = y; return 17; };  // the result is dropped
    best::fnref<void(int&) const> d = discard; d(z); VP_CHECK(z == y);
    // by value
    auto take = [](tracked t, int w) { return tracked(t.v ^ w); };
    best::fnref<tracked(tracked, int) const> t = take;
    tracked a(x); tracked r = t(a, y); VP_CHECK(a == x && r == (x ^ y));
    tracked q = t(static_cast<tracked&&>(a), y); VP_CHECK(q == (x ^ y));
    // a conversion of the result
    auto narrow = [](int w) { return (i8)w; };
    best::fnref<long(int) const> c = narrow; VP_CHECK(c(x) == (i8)x);
    auto mem = &rec::call; rec o{y, 0};
    best::fnref<int(const rec&, int) const> mp = mem; VP_CHECK(mp(o, x) == (x ^ y));
    VP_REACH();
  }
  VP_CHECK(L.live == 0);
}
VP_ENTRY(call_forms) {
  calls = 0; int x = any<int>("x"), k = any<int>("k"); rec r{k, x}; rec* p = &r; const rec cr{k, x};
  switch (pick(9, "form")) {
    case 0: VP_CHECK(best::call(f1, x) == (x ^ 0x55)); break;
    case 1: VP_CHECK(best::call(&rec::call, r, x) == (x ^ k)); break;
    case 2: VP_CHECK(best::call(&rec::call, p, x) == (x ^ k)); break;
    case 3: VP_CHECK(best::call(&rec::call, cr, x) == (x ^ k)); break;
    case 4: VP_CHECK(best::call(&rec::mut, r, x) == (x ^ k) && r.k == (x ^ k)); break;
    case 5: VP_CHECK(best::call(&rec::mut, p, x) == (x ^ k) && r.k == (x ^ k)); break;
    case 6: { calls++; best::call(&rec::f, r) = 5; VP_CHECK(r.f == 5 && &best::call(&rec::f, p) == &r.f); break; }
    case 7: VP_CHECK(best::call<int>([]<class T>(T a) { calls++; return a ^ (int)sizeof(T); }, x) == (x ^ 4)); break;
    case 8: VP_CHECK(best::call<7>([]<int n>(int a) { calls++; return a ^ n; }, x) == (x ^ 7)); break;
    default: { int z = x; auto e = best::call_devoid(v1, z); static_assert(__is_same(decltype(e), best::empty)); VP_CHECK(z == (x ^ 3)); VP_CHECK(best::call_devoid([&] { return &z; }) == &z); best::call(); }
  }
  VP_CHECK(calls == 1);
  VP_REACH();
}

// Interfaces.
struct arg { int v; };
class Num : public best::interface_base<Num> {
 public:
  BEST_INTERFACE(Num, (int, get, (), const), (void, set, (int x)), (int, mix, (int a, arg b), const), (void, reset, ()), (int, twice, ()));
 private:
  void reset(best::defaulted) { set(0); }
  int twice(best::defaulted) { return get() * 2u; }
};
class Tag : public best::interface_base<Tag> {
 public:
  BEST_INTERFACE(Tag, (const void*, self, (), const), (int, tag, ()));
 private:
  int tag(best::defaulted) { return 42; }
};
struct A {
  int v; int get() const { calls++; return v; } void set(int x) { calls++; v = x; }
  int mix(int a, arg b) const { calls++; return v ^ a ^ b.v; }
  const void* self() const { return this; }
};
struct B {
  long pad; int v; int get() const { calls++; return ~v; } int set(int x) { calls++; v = ~x; return 1; }
  int mix(int a, const arg& b) const { calls++; return v + 0u + a - b.v; }
  void reset() { calls++; v = 77; } int twice() { calls++; return 5; }
  const void* self() const { return this; } long tag() { return v; }
};
template <class T> static void dyn_one() {
  L = {};
  {
    constexpr bool isA = __is_same(T, A);
    int x = any<int>("x"), y = any<int>("y"), a = any<int>("a"), b = any<int>("b");
    T t; t.v = x; auto seen = [&](int v) { return isA ? v : ~v; };
    auto use = [&](auto&& d) {  // d()->... reaches t
      calls = 0; VP_CHECK(d()->get() == seen(t.v) && calls == 1);
      d()->set(y); VP_CHECK(calls == 2 && seen(t.v) == y);
      arg q{b}; VP_CHECK(d()->mix(a, q) == (isA ? t.v ^ a ^ b : (int)(t.v + 0u + a - b)) && calls == 3 && q.v == b);
      VP_CHECK(d()->mix(a, static_cast<arg&&>(q)) == (isA ? t.v ^ a ^ b : (int)(t.v + 0u + a - b)) && calls == 4);
      VP_CHECK(d()->twice() == (isA ? (int)(t.v * 2u) : 5) && calls == 5);
      d()->reset(); VP_CHECK(t.v == (isA ? 0 : 77) && calls == 6);
    };
    T* raw = &t; best::ptr<T> p = &t; best::dynptr<Num> dp = &t; best::dynptr<Tag> dt = &t; best::dynptr<Num, Tag> two = &t;
    switch (pick(7, "via")) {
      case 0: use([&] { return Num::of(t); }); break;
      case 1: use([&] { return Num::of(raw); }); break;
      case 2: use([&] { return Num::of(p); }); break;
      case 3: use([&] { return Num::of(dp); }); break;
      case 4: use([&] { return Num::of(two); }); break;
      case 5: use([&] { return dp; }); break;
      case 6: use([&] { return two[best::types<Num>]; }); VP_CHECK(two[best::types<Tag>]->self() == &t && Tag::of(two)->tag() == (isA ? 42 : t.v)); break;
      default: { best::dynptr<const Num> c = dp; calls = 0; VP_CHECK(c->get() == seen(x) && calls == 1); best::dynptr<const Num> e = dp.as_const(); VP_CHECK(e->get() == seen(x) && dt->self() == &t); VP_CHECK(c.raw() == &t && c.layout().size() == sizeof(T)); }
    }
    VP_REACH();
  }
  VP_CHECK(L.live == 0);
}
VP_ENTRY(dyn_A) { dyn_one<A>(); }
VP_ENTRY(dyn_B) { dyn_one<B>(); }

// Type-erased copying: the destination's own destructor runs, and then the source's copy.
class Val : public best::interface_base<Val> { public: BEST_INTERFACE(Val, (int, val, (), const)); };
struct ta { tracked t; ta(int x) : t(x) {} int val() const { t.ok(); return t.v; } };
struct tb { int pad[2]; tracked t; tb(int x) : t(x) {} int val() const { t.ok(); return t.v ^ 1; } };
struct tc { tracked t; tc(int x) : t(x) {} tc(tc&&) = default; int val() const { t.ok(); return t.v; } };
VP_ENTRY(dyn_try_copy) {
  L = {};
  {
    using D = best::dynptr<Val>;
    int x = any<int>("x"), y = any<int>("y");
    union store { char c; ta a; tb b; tc d; store() {} ~store() {} } s, d;
    auto put = [](store& st, int k, int v) -> D { switch (k) { case 0: return new (&st.a) ta(v); case 1: return new (&st.b) tb(v); default: return new (&st.d) tc(v); } };
    int ks = pick(2, "ks"); D src = put(s, ks, x); VP_CHECK(src.can_copy() == (ks != 2));
    if (any<bool>("assign")) {
      int kd = pick(2, "kd"); D dst = put(d, kd, y); VP_CHECK(dst->val() == (kd == 1 ? y ^ 1 : y));
      D r = dst.try_copy_assign(src);
      if (ks == 2) { VP_CHECK(r == nullptr && dst->val() == (kd == 1 ? y ^ 1 : y)); dst.destroy(); }
      else { VP_CHECK(r->val() == src->val() && r.raw() == dst.raw() && r.meta() == src.meta()); r.destroy(); }
    } else {
      D blank(best::ptr<void>(&d), {}); D r = blank.try_copy(src);
      if (ks == 2) VP_CHECK(r == nullptr);
      else { VP_CHECK(r->val() == src->val() && r.raw() == &d && r.meta() == src.meta()); r.destroy(); }
    }
    VP_CHECK(src->val() == (ks == 1 ? x ^ 1 : x)); VP_CHECK(L.live == 1);
    src.destroy();
    VP_REACH();
  }
  VP_CHECK(L.live == 0);
}
VP_ENTRY(dyn_binder) {
  using V = best::vtable_binder<int(int)>; using VC = best::vtable_binder<int(int) const>;
  int x = any<int>("x"), k = any<int>("k"); rec r{k, 0};
  V v = [](rec& s, int y) { return s.mut(y); }; VC c = [](const rec& s, int y) { return s.call(y); };
  VP_CHECK(!!v && v != nullptr && V() == nullptr && !V(nullptr));
  calls = 0; VP_CHECK(c(&r, x) == (x ^ k) && calls == 1); VP_CHECK(v(&r, x) == (x ^ k) && r.k == (x ^ k) && calls == 2);
  V::fnptr raw = v; VP_CHECK(raw(&r, x) == k);
  VP_REACH();
}

// Scope guards.
VP_ENTRY(defer_history) {
  int runs = 0, want = 0; bool armed = true;
  {
    best::defer d = [&] { runs++; };
    for (int s = 0; s < VPQ(4, 6); s++) {
      switch (pick(2, "op")) {
        case 0: d.run(); if (armed) want++; armed = false; break;
        case 1: d.cancel(); armed = false; break;
        default: break;
      }
      VP_CHECK(runs == want);
    }
    if (armed) want++;
    VP_REACH();
  }
  VP_CHECK(runs == want);
}
VP_ENTRY(defer_nesting) {
  int log = 0; bool a = any<bool>("a"), b = any<bool>("b");
  {
    best::defer d1 = [&] { log = log * 10 + 1; };
    auto f = [&] { log = log * 10 + 2; };
    best::defer d2(best::bind, f);
    if (a) d1.cancel();
    if (b) { d2.cancel(); }
  }
  VP_CHECK(log == (b ? (a ? 0 : 1) : (a ? 2 : 21)));
  // the action may itself finish or cancel the guard
  int n = 0; bool how = any<bool>("how");
  struct reent { best::defer<best::tags_internal_do_not_use::ctad_guard, best::fnref<void()>>* d = nullptr; } h;
  {
    auto act = [&] { n++; VP_CHECK(n < 3); if (how) h.d->run(); else h.d->cancel(); };
    best::defer<best::tags_internal_do_not_use::ctad_guard, best::fnref<void()>> d(best::fnref<void()>{act});
    h.d = &d;
    if (any<bool>("early")) d.run();
  }
  VP_CHECK(n == 1);
  VP_REACH();
}
VP_ENTRY(defer_owns) {
  L = {}; int x = any<int>("x"), got = 0;
  { best::defer d = [&, t = tracked(x)] { t.ok(); got += t.v; }; VP_CHECK(L.live >= 1); }
  VP_CHECK(got == x && L.live == 0);
  VP_REACH();
}

// Taps.
VP_ENTRY(taps) {
  calls = 0; int x = any<int>("x"), y = any<int>("y"), z = any<int>("z");
  switch (pick(7, "form")) {
    case 0: VP_CHECK((x->*best::tap([](int v) { calls++; return v ^ 1; })) == (x ^ 1)); break;
    case 1: { const best::tap t = [&](int v) { calls++; return v ^ y; }; VP_CHECK((x->*t) == (x ^ y)); break; }
    case 2: { best::tap t = [k = y](int v) mutable { calls++; return k ^= v; }; VP_CHECK((x->*t) == (x ^ y) && (z->*t) == (x ^ y ^ z)); calls--; break; }
    case 3: { auto f = [&](int v) { calls++; return [v, &y](int a, int b) { return v ^ (y + 0u + a) ^ (b * 2u); }; }; best::tap t = static_cast<decltype(f)&&>(f); int a = z, b = 3; VP_CHECK((x->*t(a, b)) == (int)(x ^ (y + 0u + z) ^ 6u)); break; }
    case 4: { int arr[3] = {x, y, z}; best::tap id = [](auto&& v) -> decltype(auto) { calls++; return BEST_FWD(v); }; size_t i = pick(2, "i"); VP_CHECK((arr->*id[i]) == arr[i]); break; }
    case 5: { const int arr[3] = {x, y, z}; size_t i = pick(2, "i"); VP_CHECK((arr->*best::tap([](const int* v) { calls++; return v; })[i]) == arr[i]); break; }
    case 6: { int v = x; int& r = v->*best::inspect([&](int& w) { calls++; w ^= y; return 3; }); VP_CHECK(v == (x ^ y) && &r == &v); break; }
    default: { auto f = [&](const tracked& w) { calls++; VP_CHECK(w == x); }; tracked t(x); tracked u = static_cast<tracked&&>(t)->*best::inspect(best::bind, f); VP_CHECK(u == x); }
  }
  VP_CHECK(calls == 1);
  VP_REACH();
}
VP_ENTRY(arrows) {
  int x = any<int>("x"); rec r{x, x};
  best::arrow<rec> a(r); VP_CHECK(best::arrow<rec>(r).operator->()->call(1) == (1 ^ x));
  best::arrow fn = [&](int y) { return x ^ y; }; VP_CHECK(fn(5) == (x ^ 5));
  VP_REACH();
}
