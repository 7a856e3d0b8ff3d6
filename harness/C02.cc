// Rounding division and saturating arithmetic.
// BOUND: every operand value at full width; type pairs as listed per entry
#include "best/math/overflow.h"
#include "vp.h"
using namespace vp;
template <class C> C clamp(i128 w) {
  if (w < (i128)best::min_of<C>) return best::min_of<C>;
  if (w > (i128)best::max_of<C>) return best::max_of<C>;
  return (C)w;
}
template <class A, class B> void sat() {
  using C = best::common_int<A, B>;
  A a = any<A>("a"); B b = any<B>("b");
  auto s = best::saturating_add(a, b), d = best::saturating_sub(a, b);
  static_assert(__is_same(decltype(s), C));
  VP_CHECK(s == clamp<C>((i128)(C)a + (i128)(C)b));
  VP_CHECK(d == clamp<C>((i128)(C)a - (i128)(C)b));
  vp_observe((u64)s); vp_observe((u64)d);
  VP_REACH();
}
template <class A, class B> void satmul() {
  using C = best::common_int<A, B>;
  A a = any<A>("a"); B b = any<B>("b");
  auto m = best::saturating_mul(a, b);
  // an overflowing product has the sign of the exact product: negative iff the signs differ
  C w; bool of = __builtin_mul_overflow((C)a, (C)b, &w);
  bool neg = ((C)a < 0) != ((C)b < 0);
  VP_CHECK(m == (!of ? w : neg ? best::min_of<C> : best::max_of<C>));
  vp_observe((u64)m);
  VP_REACH();
}
template <class A, class B> void divs() {
  using C = best::common_int<A, B>;
  A a = any<A>("a"); B b = any<B>("b");
  C x = a, y = b;
  VP_CRASHES_IFF(y == 0, (void)best::div(a, b));
  auto [q, r] = best::div(a, b);
  if (best::is_signed<C> && x == best::min_of<C> && y == (C)-1) {
    VP_CHECK(q.overflowed && r.overflowed && q.value == x);
    VP_CHECK(best::ceildiv(a, b).overflowed);
    VP_REACH();
    return;
  }
  VP_CHECK(!q.overflowed && !r.overflowed);
  VP_CHECK(q.value == (C)(x / y));
  VP_CHECK(r.value == (C)(x % y));
  auto c = best::ceildiv(a, b);
  C rr = x % y;
  // q rounds towards zero; the exact quotient is above q iff there is a remainder of the divisor's sign
  C want = (C)(x / y) + (C)(rr != 0 && ((rr < 0) == (y < 0)));
  VP_CHECK(!c.overflowed);
  VP_CHECK(c.value == want);
  vp_observe((u64)q.value); vp_observe((u64)r.value); vp_observe((u64)c.value);
  VP_REACH();
}
template <class A> void ceil0() {
  A a = any<A>("a"), b = any<A>("b");
  VP_CRASHES_IFF(b == 0, (void)best::ceildiv(a, b));
}
#define P2(f, n, A, B) VP_ENTRY(f##_##n) { f<A, B>(); }
#define ALLP(f) P2(f, i32_i32, i32, i32) P2(f, i32_u32, i32, u32) P2(f, u32_i32, u32, i32) P2(f, u32_u32, u32, u32) P2(f, i64_i64, i64, i64) P2(f, i32_i64, i32, i64) P2(f, i64_u32, i64, u32) P2(f, u64_u64, u64, u64) P2(f, u64_i32, u64, i32)
#define SMALLP(f) P2(f, i8_i8, i8, i8) P2(f, u8_u8, u8, u8) P2(f, i8_u8, i8, u8) P2(f, i16_i16, i16, i16) P2(f, u16_i8, u16, i8) P2(f, u16_u16, u16, u16) P2(f, i8_i32, i8, i32)
ALLP(sat) SMALLP(sat) ALLP(satmul) SMALLP(satmul) ALLP(divs)
VP_ENTRY(ceil0_i64) { ceil0<i64>(); }
VP_ENTRY(ceil0_u32) { ceil0<u32>(); }
