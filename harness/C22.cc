// A vector constructs and destroys each element exactly once and returns its storage exactly once.
// BOUND: one operation from every vector of 0..3 (quick) / 0..5 (thorough) lifetime-checked elements, inline or on the heap with or without spare room; and every history of 3 / 4 operations from empty
// BOUND: a non-trivially relocatable class with inline capacity 0 and 2, a trivially relocatable owning class with inline capacity 2, and allocators of different identity
#include "ident.h"
#include "vecm.h"
using namespace vp;

VEC_OPS(t0, best::vec<tracked, 0>)
VEC_OPS(t2, best::vec<tracked, 2>)
VEC_OPS(o2, best::vec<own, 2>)

template <class T, size_t k> static void allocators() {
  using V = best::vec<T, k, ident>;
  V a(ident{1}), b(ident{(int)pick(2, "id") + 1});
  int m[4], w[4]; size_t n = pick(3, "n"), z = pick(3, "z");
  for (size_t i = 0; i < n; i++) { m[i] = anyval<T>(); a.push(m[i]); }
  for (size_t i = 0; i < z; i++) { w[i] = anyval<T>(); b.push(w[i]); }
  auto is = [](V& v, int* x, size_t c) { VP_CHECK(v.size() == c); for (size_t i = 0; i < c; i++) VP_CHECK(val(v[i]) == x[i]); };
  switch (pick(4, "op")) {
    case 0: a = b; is(a, w, z); is(b, w, z); b.push(1); a.push(2); break;
    case 1: a = static_cast<V&&>(b); is(a, w, z); VP_CHECK(b.size() == 0); a.push(2); b.push(3); break;
    case 2: { V c(b); is(c, w, z); is(b, w, z); c.push(1); break; }
    case 3: { V c(static_cast<V&&>(a)); is(c, m, n); VP_CHECK(a.size() == 0); c.push(1); a.push(2); c.shrink_to_fit(); break; }
    default: { auto x = static_cast<V&&>(a).to_box(); VP_CHECK(x->size() == n); V c(static_cast<decltype(x)&&>(x)); is(c, m, n); c.push(3); a.push(4); break; }
  }
  VP_REACH();
}
VP_ENTRY(alloc_int) { allocators<int, 2>(); }
VP_ENTRY(alloc_tracked) { allocators<tracked, 2>(); }
VP_ENTRY(alloc_tracked0) { allocators<tracked, 0>(); }
VP_ENTRY(alloc_own) { allocators<own, 2>(); }
