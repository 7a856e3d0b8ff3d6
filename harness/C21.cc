// A vector behaves as a sequence.
// BOUND: one operation from every vector of 0..3 (quick) / 0..5 (thorough) arbitrary elements, inline or on the heap with or without spare room, with arbitrary (machine-width) positions; and every history of 3 / 4 operations from empty
// BOUND: int with inline capacity 0, 2 and the default of 5, bytes with inline capacity 23, an over-aligned class
#include "vecm.h"
using namespace vp;

VEC_OPS(i0, best::vec<int, 0>)
VEC_OPS(i2, best::vec<int, 2>)
VEC_OPS(i5, best::vec<int>)
VEC_OPS(u8, best::vec<u8>)
VEC_OPS(w1, best::vec<wide, 1>)

VEC_OP(V_i0, i0, reserve_huge)
VEC_OP(V_i2, i2, reserve_huge)
// inline sizes that need the top bit of the last byte
template <size_t k> static void wide_inline() {
  best::vec<u8, k> v;
  size_t n = k - 2 + pick(3, "n");
  for (size_t i = 0; i < n; i++) v.push((u8)i);
  u8 x = any<u8>("x"); size_t at = pick(1, "at") * (n / 2);
  v.insert(at, x);
  VP_CHECK(v.size() == n + 1 && v[at] == x && (at == 0 || v[at - 1] == (u8)(at - 1)) && v[n] == (u8)(n - 1));
  VP_CHECK(v.is_inlined() == (n + 1 <= k) && v.capacity() >= n + 1);
  best::vec<u8, k> w(v); VP_CHECK(w.size() == n + 1 && w[at] == x);
  best::vec<u8, k> u(static_cast<best::vec<u8, k>&&>(v)); VP_CHECK(u.size() == n + 1 && v.size() == 0 && u[at] == x);
  VP_CHECK(u.remove(at) == x && u.size() == n && u[n - 1] == (u8)(n - 1));
  VP_REACH();
}
VP_ENTRY(inline_127) { wide_inline<127>(); }
VP_ENTRY(inline_128) { wide_inline<128>(); }
VP_ENTRY(inline_200) { wide_inline<200>(); }
VP_ENTRY(inline_255) { wide_inline<255>(); }
VP_ENTRY(inline_256) { wide_inline<256>(); }
// vectors of the same elements with different inline capacities
template <class V, class W> static void cross() {
  vm<V> s(VPQ(4, 6)); vm<W> t(VPQ(3, 5));
  switch (pick(4, "form")) {
    case 0: s.v.assign(t.v); s.set(t.m, t.n); break;
    case 1: s.v.append(t.v); s.ins(s.n, t.m, t.n); break;
    case 2: { V c(t.v); s.v = c; s.set(t.m, t.n); break; }
    case 3: s.v = V(static_cast<W&&>(t.v)); s.set(t.m, t.n); t.n = 0; if (t.v.size()) return; break;
    default: { size_t i = pick(s.n, "i"); s.v.splice(i, t.v); s.ins(i, t.m, t.n); break; }
  }
  s.check(); t.check();
  int x = 5; s.v.push(x); s.ins(s.n, &x, 1); t.v.push(x); t.ins(t.n, &x, 1); s.check(); t.check();
  VP_REACH();
}
VP_ENTRY(cross_2_9) { cross<best::vec<int, 2>, best::vec<int, 9>>(); }
VP_ENTRY(cross_9_2) { cross<best::vec<int, 9>, best::vec<int, 2>>(); }
VP_ENTRY(cross_0_5) { cross<best::vec<int, 0>, best::vec<int>>(); }
VP_ENTRY(cross_5_0) { cross<best::vec<int>, best::vec<int, 0>>(); }
VP_ENTRY(cross_own) { cross<best::vec<own, 1>, best::vec<own, 6>>(); }
