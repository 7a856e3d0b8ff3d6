// A vector next to the array that it should be equal to.
#ifndef VECM_H_
#define VECM_H_
#include "best/container/vec.h"
#include "best/container/box.h"
#include "best/iter/bounds.h"
#include "best/text/format.h"
#include "best/log/wtf.h"
#include "vp.h"
namespace vp {
// trivially relocatable, but owns a block
struct BEST_RELOCATABLE own {
  int v; unsigned* tok;
  void ok() const { vp_assert(*tok == 0xA11FEu, "use of an object outside its lifetime"); }
  own(int x = 0) : v(x), tok(tracked::mk()) { L.live++; }
  own(const own& o) : v(o.v), tok(tracked::mk()) { o.ok(); L.live++; }
  own(own&& o) : v(o.v), tok(tracked::mk()) { o.ok(); o.v = -1; L.live++; }
  own& operator=(const own& o) { ok(); o.ok(); v = o.v; return *this; }
  own& operator=(own&& o) { ok(); o.ok(); int t = o.v; if (this != &o) o.v = -1; v = t; return *this; }
  ~own() { ok(); *tok = 0xDEADu; free(tok); tok = nullptr; L.live--; }
  bool operator==(const own& o) const { ok(); o.ok(); return v == o.v; }
};
static_assert(best::relocatable<own, best::trivially>);
struct alignas(32) wide { int v; wide(int x = 0) : v(x) {} bool operator==(const wide&) const = default; };

template <class T> int val(const T& x) {
  if constexpr (__is_same(T, own) || __is_same(T, tracked)) { x.ok(); return x.v; }
  else if constexpr (__is_same(T, wide)) { vp_assert((uintptr_t)&x % 32 == 0, "misaligned element"); return x.v; }
  else return (int)x;
}
template <class T> int anyval() {
  int x = any<int>("v");
  return val(__is_same(T, u8) ? (int)(u8)x : x);
}
template <class V> struct vm {
  using T = typename V::type;
  V v;
  int m[24]; size_t n = 0;
  vm() {}
  // an arbitrary vector: any size up to `max`; inline, or on the heap with or without room
  explicit vm(size_t max) {
    size_t k = pick(max, "size"), mode = pick(2, "mode");
    if (mode == 1) v.spill_to_heap(k, true);
    if (mode == 2) v.spill_to_heap(k + 2);
    for (size_t i = 0; i < k; i++) { m[i] = anyval<T>(); v.push(m[i]); }
    n = k;
  }
  void ins(size_t at, const int* x, size_t k) {
    int t[24];
    for (size_t i = 0; i < k; i++) t[i] = x[i];
    for (size_t i = n; i-- > at;) m[i + k] = m[i];
    for (size_t i = 0; i < k; i++) m[at + i] = t[i];
    n += k;
  }
  void del(size_t at, size_t k) {
    for (size_t i = at; i + k < n; i++) m[i] = m[i + k];
    n -= k;
  }
  void set(const int* x, size_t k) { for (size_t i = 0; i < k; i++) m[i] = x[i]; n = k; }
  void check() const {
    const V& c = v;
    VP_CHECK(c.size() == n && c.is_empty() == (n == 0) && c.capacity() >= n);
    VP_CHECK(c.as_span().size() == n && c.as_span().data() == c.data());
    VP_CHECK(c.is_inlined() == (c.data().raw() == (const T*)(const void*)&c));
    VP_CHECK(c.spare_capacity().size() == c.capacity() - n && c.spare_capacity().data() == c.data() + n);
    for (size_t i = 0; i < n; i++) VP_CHECK(val(c[i]) == m[i]);
    for (size_t i = 0; i < n; i++) vp_observe((unsigned)val(c[i]));
  }
};
// Foreign elements in their own exactly sized block.
template <class T> struct seq {
  T* p; size_t n; int m[8];
  explicit seq(size_t k) : p((T*)malloc(k * sizeof(T))), n(k) { for (size_t i = 0; i < n; i++) { m[i] = anyval<T>(); new (p + i) T(m[i]); } }
  ~seq() { for (size_t i = 0; i < n; i++) { vp_assert(val(p[i]) == m[i], "the source of a copy changed"); p[i].~T(); } free(p); }
  seq(const seq&) = delete;
  best::span<const T> span() const { return best::span<const T>(p, n); }
};
constexpr size_t VN() { return VPQ(3, 5); }

template <class V> struct ops {
  using T = typename V::type;
  static void push() { vm<V> s(VN()); int x = anyval<T>(); auto& r = s.v.push(x); s.ins(s.n, &x, 1); VP_CHECK(val(r) == x && &r == &s.v[s.n - 1]); s.check(); VP_REACH(); }
  static void insert() {
    vm<V> s(VN()); size_t i = pick(s.n, "i"); int x = anyval<T>();
    auto& r = s.v.insert(i, x); s.ins(i, &x, 1); VP_CHECK(val(r) == x && &r == &s.v[i]); s.check(); VP_REACH();
  }
  static void insert_oob() {
    vm<V> s(VN()); size_t i = any<size_t>("i"); vp_leak_ok(); vp_assume(i > s.n);
    VP_REACH(); VP_CRASHES_IFF(true, s.v.insert(i, 1));
  }
  static void pop() {
    vm<V> s(VN());
    auto x = s.v.pop();
    VP_CHECK(x.has_value() == (s.n > 0));
    if (s.n) { VP_CHECK(val(*x) == s.m[s.n - 1]); s.n--; }
    s.check(); VP_REACH();
  }
  static void remove() {
    vm<V> s(VN()); if (s.n == 0) return; size_t i = pick(s.n - 1, "i");
    T x = s.v.remove(i); VP_CHECK(val(x) == s.m[i]); s.del(i, 1); s.check(); VP_REACH();
  }
  static void remove_oob() {
    vm<V> s(VN()); size_t i = any<size_t>("i"); vp_leak_ok(); vp_assume(i >= s.n);
    VP_REACH(); VP_CRASHES_IFF(true, (void)s.v.remove(i));
  }
  static void erase() {
    vm<V> s(VN()); size_t i = pick(s.n, "i"), k = pick(s.n - i, "k");
    switch (pick(3, "form")) {
      case 0: s.v.erase({.start = i, .count = k}); break;
      case 1: s.v.erase({.start = i, .end = i + k}); break;
      case 2: k = s.n - i; s.v.erase({.start = i}); break;
      default: if (k == 0) return; s.v.erase({.start = i, .including_end = i + k - 1}); break;
    }
    s.del(i, k); s.check(); VP_REACH();
  }
  static void erase_oob() {
    vm<V> s(VN()); size_t i = any<size_t>("i"), k = any<size_t>("k"); vp_leak_ok();
    vp_assume(i > s.n || k > s.n - i);
    VP_REACH(); VP_CRASHES_IFF(true, s.v.erase({.start = i, .count = k}));
  }
  static void truncate() {
    vm<V> s(VN()); size_t k = any<size_t>("k"); size_t j = k <= s.n ? vp_pick(k) : k;
    s.v.truncate(j); if (j < s.n) s.n = j; s.check(); VP_REACH();
  }
  static void clear() { vm<V> s(VN()); size_t c = s.v.capacity(); s.v.clear(); s.n = 0; VP_CHECK(s.v.capacity() == c); s.check(); s.v.push(4); VP_CHECK(val(s.v[0]) == 4); VP_REACH(); }
  static void reserve() {
    vm<V> s(VN()); size_t k = pick(VPQ(5, 9), "k"); s.v.reserve(k);
    VP_CHECK(s.v.capacity() >= s.n + k); s.check();
    size_t c = s.v.capacity(); auto d = s.v.data();
    for (size_t i = 0; i < k; i++) { int x = 7; s.v.push(x); s.ins(s.n, &x, 1); }
    VP_CHECK(s.v.capacity() == c && s.v.data() == d);
    s.check(); VP_REACH();
  }
  static void reserve_huge() {
    vm<V> s; s.v.push(1); s.v.push(2); size_t k = any<size_t>("k"); vp_leak_ok(); vp_assume(k > (1ull << 46));
    VP_REACH(); VP_CRASHES_IFF(true, s.v.reserve(k));
  }
  static void spill() {
    vm<V> s(VN());
    size_t k = pick(6, "k"), form = pick(2, "form");
    if (form == 0) s.v.spill_to_heap();
    if (form == 1) s.v.spill_to_heap(k);
    if (form == 2) { s.v.spill_to_heap(k, true); if (k > s.n) VP_CHECK(s.v.capacity() == k); }
    if (form != 0 && k > 0) VP_CHECK(s.v.capacity() >= k);
    if (form != 0 && k > s.n || s.n > 0) VP_CHECK(s.v.is_on_heap());
    s.check(); VP_REACH();
  }
  static void shrink() {
    vm<V> s(VN()); bool h = s.v.is_on_heap(); s.v.shrink_to_fit();
    if (h) VP_CHECK(s.v.capacity() == s.n || s.v.is_inlined());
    s.check(); int x = anyval<T>(); s.v.push(x); s.ins(s.n, &x, 1); s.check(); VP_REACH();
  }
  static void append() { vm<V> s(VN()); seq<T> q(pick(VN(), "m")); s.v.append(q.span()); s.ins(s.n, q.m, q.n); s.check(); VP_REACH(); }
  static void splice() { vm<V> s(VN()); seq<T> q(pick(VN(), "m")); size_t i = pick(s.n, "i"); s.v.splice(i, q.span()); s.ins(i, q.m, q.n); s.check(); VP_REACH(); }
  static void splice_oob() {
    vm<V> s(2); seq<T> q(pick(1, "m")); size_t i = any<size_t>("i"); vp_leak_ok(); vp_assume(i > s.n);
    VP_REACH(); VP_CRASHES_IFF(true, s.v.splice(i, q.span()));
  }
  // a vector spliced into itself
  static void splice_self() {
    vm<V> s(VPQ(4, 5)); size_t i = pick(s.n, "i"), a = pick(s.n, "a"), k = pick(s.n - a, "k");
    s.v.splice(i, s.v[{.start = a, .count = k}]);
    s.ins(i, s.m + a, k); s.check(); VP_REACH();
  }
  static void append_self() { vm<V> s(VPQ(4, 5)); s.v.append(s.v); s.ins(s.n, s.m, s.n); s.check(); VP_REACH(); }
  static void assign() { vm<V> s(VN()); seq<T> q(pick(VN() + 1, "m")); s.v.assign(q.span()); s.set(q.m, q.n); s.check(); VP_REACH(); }
  static void assign_self() { vm<V> s(VN()); s.v.assign(s.v); s.check(); s.v = s.v; s.check(); s.v = static_cast<V&&>(s.v); s.check(); VP_REACH(); }
  static void assign_part() {
    vm<V> s(VPQ(4, 5)); size_t a = pick(s.n, "a"), k = pick(s.n - a, "k");
    s.v.assign(s.v[{.start = a, .count = k}]);
    for (size_t i = 0; i < k; i++) s.m[i] = s.m[a + i];
    s.n = k; s.check(); VP_REACH();
  }
  static void copy_ctor() { vm<V> s(VN()); vm<V> t; { V c(s.v); t.v = c; t.set(s.m, s.n); s.check(); s.v.clear(); s.n = 0; } t.check(); s.check(); VP_REACH(); }
  static void copy_assign() {
    vm<V> s(VN()), t(VPQ(2, 4));
    s.v = t.v; s.set(t.m, t.n); s.check(); t.check();
    t.v.push(5); int x = 5; t.ins(t.n, &x, 1); t.check(); s.check(); VP_REACH();
  }
  static void move_ctor() {
    vm<V> s(VN()); V c(static_cast<V&&>(s.v));
    VP_CHECK(c.size() == s.n && s.v.size() == 0);
    for (size_t i = 0; i < s.n; i++) VP_CHECK(val(c[i]) == s.m[i]);
    s.n = 0; s.check(); s.v.push(3); VP_CHECK(s.v.size() == 1 && val(s.v[0]) == 3); VP_REACH();
  }
  static void move_assign() {
    vm<V> s(VN()), t(VPQ(2, 4));
    s.v = static_cast<V&&>(t.v); s.set(t.m, t.n); t.n = 0; s.check(); t.check();
    int x = 5; t.v.push(x); t.ins(0, &x, 1); s.v.push(x); s.ins(s.n, &x, 1); t.check(); s.check(); VP_REACH();
  }
  static void to_box() {
    vm<V> s(VN());
    {
      auto b = static_cast<V&&>(s.v).to_box();
      VP_CHECK(b->size() == s.n && s.v.size() == 0);
      for (size_t i = 0; i < s.n; i++) VP_CHECK(val((*b)[i]) == s.m[i]);
      vm<V> t; V c(static_cast<decltype(b)&&>(b)); t.set(s.m, s.n);
      t.v = static_cast<V&&>(c); t.check();
      int x = 9; t.v.push(x); t.ins(t.n, &x, 1); t.check();
    }
    s.n = 0; s.check(); VP_REACH();
  }
  static void list() {
    int x = anyval<T>(), y = anyval<T>(), z = anyval<T>();
    V v{T(x), T(y), T(z)};
    VP_CHECK(v.size() == 3 && val(v[0]) == x && val(v[1]) == y && val(v[2]) == z);
    V w{}; VP_CHECK(w.is_empty());
    seq<T> q(pick(VN(), "m")); V u(q.span());
    VP_CHECK(u.size() == q.n); for (size_t i = 0; i < q.n; i++) VP_CHECK(val(u[i]) == q.m[i]);
    VP_REACH();
  }
  static void access() {
    vm<V> s(VN()); const V& c = s.v;
    size_t i = any<size_t>("i");
    VP_CHECK(c.at(i).has_value() == (i < s.n) && s.v.at(i).has_value() == (i < s.n));
    VP_CHECK(c.first().has_value() == (s.n > 0) && c.last().has_value() == (s.n > 0) && s.v.first().has_value() == (s.n > 0) && s.v.last().has_value() == (s.n > 0));
    if (s.n) VP_CHECK(val(*c.first()) == s.m[0] && val(*c.last()) == s.m[s.n - 1] && &*s.v.last() == &s.v[s.n - 1]);
    size_t k = 0;
    for (auto& x : c) { VP_CHECK(val(x) == s.m[k]); k++; }
    VP_CHECK(k == s.n); k = 0;
    for (auto& x : s.v) { VP_CHECK(val(x) == s.m[k]); k++; }
    VP_CHECK(k == s.n);
    VP_CHECK(s.v->size() == s.n && c->size() == s.n && c.iter().count() == s.n);
    if (i < s.n) { size_t j = vp_pick(i); VP_CHECK(val(*c.at(j)) == s.m[j]); s.v[j] = T(6); s.m[j] = 6; }
    s.check(); VP_REACH();
  }
  static void access_range() {
    vm<V> s(VN()); const V& c = s.v;
    size_t i = any<size_t>("i"), k = any<size_t>("k");
    bool in = i <= s.n && k <= s.n - i;
    auto r = c.at({.start = i, .count = k}); auto q = s.v.at({.start = i, .count = k});
    VP_CHECK(r.has_value() == in && q.has_value() == in);
    if (in) { i = vp_pick(i); k = vp_pick(k); auto t = c[{.start = i, .count = k}]; VP_CHECK(r->size() == k && q->size() == k && t.size() == k && r->data() == c.data() + i && q->data() == r->data() && t.data() == r->data()); }
    VP_REACH();
  }
  static void index_oob() { vm<V> s(VN()); size_t i = any<size_t>("i"); vp_leak_ok(); VP_REACH(); VP_CRASHES_IFF(i >= s.n, (void)val(s.v[i])); }
  static void equal() {
    vm<V> s(2), t(2);
    bool e = s.n == t.n; for (size_t i = 0; i < s.n && i < t.n; i++) e &= s.m[i] == t.m[i];
    VP_CHECK((s.v == t.v) == e && (s.v == t.v.as_span()) == e && (s.v != t.v) == !e);
    VP_REACH();
  }
  // every history of a few operations, from the empty vector
  static void history() {
    vm<V> s, t;
    size_t steps = VPQ(3, 4);
    for (size_t k = 0; k < steps; k++) {
      int x = anyval<T>();
      switch (pick(10, "op")) {
        case 0: s.v.push(x); s.ins(s.n, &x, 1); break;
        case 1: s.v.insert(0, x); s.ins(0, &x, 1); break;
        case 2: if (!s.n) { VP_CHECK(!s.v.pop().has_value()); break; } VP_CHECK(val(*s.v.pop()) == s.m[s.n - 1]); s.n--; break;
        case 3: if (!s.n) return; VP_CHECK(val(s.v.remove(0)) == s.m[0]); s.del(0, 1); break;
        case 4: s.v.append(s.v); s.ins(s.n, s.m, s.n); break;
        case 5: s.v.shrink_to_fit(); break;
        case 6: t.v = s.v; t.set(s.m, s.n); break;
        case 7: { vm<V> u; u.v = static_cast<V&&>(s.v); u.set(s.m, s.n); s.v = static_cast<V&&>(t.v); s.set(t.m, t.n); t.v = static_cast<V&&>(u.v); t.set(u.m, u.n); break; }
        case 8: s.v.reserve(3); break;
        case 9: if (!s.n) return; s.v.erase({.start = 0, .count = s.n}); s.n = 0; break;
        default: { int y[2] = {x, x}; T z[2] = {T(x), T(x)}; size_t at = s.n / 2; s.v.splice(at, best::span<const T>(z, 2)); s.ins(at, y, 2); break; }
      }
      s.check(); t.check();
    }
    VP_REACH();
  }
};
#define VEC_OP(V, tag, op) VP_ENTRY(tag##_##op) { ops<V>::op(); }
#define VEC_OPS(tag, ...) using V_##tag = __VA_ARGS__; \
  VEC_OP(V_##tag, tag, push) VEC_OP(V_##tag, tag, insert) VEC_OP(V_##tag, tag, insert_oob) VEC_OP(V_##tag, tag, pop) VEC_OP(V_##tag, tag, remove) VEC_OP(V_##tag, tag, remove_oob) \
  VEC_OP(V_##tag, tag, erase) VEC_OP(V_##tag, tag, erase_oob) VEC_OP(V_##tag, tag, truncate) VEC_OP(V_##tag, tag, clear) VEC_OP(V_##tag, tag, reserve) \
  VEC_OP(V_##tag, tag, spill) VEC_OP(V_##tag, tag, shrink) VEC_OP(V_##tag, tag, append) VEC_OP(V_##tag, tag, splice) VEC_OP(V_##tag, tag, splice_oob) VEC_OP(V_##tag, tag, splice_self) \
  VEC_OP(V_##tag, tag, append_self) VEC_OP(V_##tag, tag, assign) VEC_OP(V_##tag, tag, assign_self) VEC_OP(V_##tag, tag, assign_part) VEC_OP(V_##tag, tag, copy_ctor) VEC_OP(V_##tag, tag, copy_assign) \
  VEC_OP(V_##tag, tag, move_ctor) VEC_OP(V_##tag, tag, move_assign) VEC_OP(V_##tag, tag, to_box) VEC_OP(V_##tag, tag, list) VEC_OP(V_##tag, tag, access) VEC_OP(V_##tag, tag, access_range) \
  VEC_OP(V_##tag, tag, index_oob) VEC_OP(V_##tag, tag, equal) VEC_OP(V_##tag, tag, history)
}  // namespace vp
#endif
