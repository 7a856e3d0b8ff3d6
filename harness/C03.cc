// Integer comparison, range tests and checked casts behave as if on mathematical integers.
// BOUND: every operand value at full width, all pairs of the eight fixed-width integer types; min/max with up to 4 arguments
#include "best/math/int.h"
#include "best/container/option.h"
#include "vp.h"
using namespace vp;
template <class A, class B> void cmp1() {
  A a = any<A>("a"); B b = any<B>("b");
  i128 x = a, y = b;
  auto c = best::int_cmp(a, b);
  VP_CHECK((c < 0) == (x < y));
  VP_CHECK((c > 0) == (x > y));
  VP_CHECK((c == 0) == (x == y));
  bool fits = (i128)(B)a == x;
  VP_CHECK(best::int_fits<B>(a) == fits);
  auto o = best::checked_cast<B>(a);
  VP_CHECK(o.has_value() == fits);
  if (o.has_value()) VP_CHECK((i128)*o == x);
  vp_observe(c < 0); vp_observe(fits);
  VP_REACH();
}
using ll = long long;
#define ROW(f, A) f(A, i8) f(A, u8) f(A, i16) f(A, u16) f(A, i32) f(A, u32) f(A, i64) f(A, u64) f(A, char) f(A, ll)
#define CMP(A, B) VP_ENTRY(cmp_##A##_##B) { cmp1<A, B>(); }
ROW(CMP, i8) ROW(CMP, u8) ROW(CMP, i16) ROW(CMP, u16) ROW(CMP, i32) ROW(CMP, u32) ROW(CMP, i64) ROW(CMP, u64) ROW(CMP, char) ROW(CMP, ll)
template <class T> void signs() {
  T a = any<T>("a"), b = any<T>("b");
  using S = __make_signed(T); using U = __make_unsigned(T);
  VP_CHECK(best::to_signed(a) == (S)a);
  VP_CHECK(best::to_unsigned(a) == (U)a);
  VP_CHECK((best::signed_cmp(a, b) < 0) == ((S)a < (S)b));
  VP_CHECK((best::unsigned_cmp(a, b) < 0) == ((U)a < (U)b));
  VP_CHECK((best::signed_cmp(a, b) == 0) == (a == b));
  VP_CHECK((best::unsigned_cmp(a, b) == 0) == (a == b));
  VP_CHECK(a <= best::max_of<T> && a >= best::min_of<T>);
  VP_CHECK((U)((U)best::max_of<T> + 1u) == (U)best::min_of<T>);
}
VP_ENTRY(signs) { signs<i8>(); signs<u8>(); signs<i16>(); signs<u16>(); signs<i32>(); signs<u32>(); signs<i64>(); signs<u64>(); VP_REACH(); }
template <class... T> void mm(T... t) {
  auto lo = best::min(t...); auto hi = best::max(t...);
  VP_CHECK((((i128)lo <= (i128)t) && ...));
  VP_CHECK((((i128)hi >= (i128)t) && ...));
  VP_CHECK((((i128)lo == (i128)t) || ...));
  VP_CHECK((((i128)hi == (i128)t) || ...));
  vp_observe((u64)lo); vp_observe((u64)hi);
  VP_REACH();
}
VP_ENTRY(minmax_signed) { mm(any<i8>("a")); mm(any<i8>("a"), any<i64>("b")); mm(any<i64>("a"), any<i8>("b"), any<i32>("c")); mm(any<i32>("a"), any<i16>("b"), any<i64>("c"), any<i8>("d")); }
VP_ENTRY(minmax_unsigned) { mm(any<u64>("a")); mm(any<u64>("a"), any<u8>("b")); mm(any<u8>("a"), any<u32>("b"), any<u64>("c")); mm(any<u32>("a"), any<u32>("b"), any<u16>("c"), any<u64>("d")); }
