// Overflow-tracking arithmetic is exact.
// BOUND: none on the operands: every value of every operand at its full width (8..64 bits as listed per entry)
// BOUND: operand types: pairs over {i8,i16,i32,u32,i64,u64} for + - *; 32/64-bit types for / % & | ^ ~ << >> and unary -
#include "best/math/overflow.h"
#include "best/container/option.h"
#include "vp.h"
using namespace vp;

template <class T> best::overflow<T> anyo(const char* n) { return best::overflow<T>(any<T>(n), any<bool>("of")); }
// The result of an operation whose exact value is `w`, on operands already flagged or not.
template <class R> void exact(best::overflow<R> r, i128 w, bool prior) {
  VP_CHECK(r.value == (R)w);
  VP_CHECK(r.overflowed == (prior || (i128)(R)w != w));
  VP_CHECK(r.wrap() == (R)w);
  auto c = r.checked();
  VP_CHECK(c.has_value() == !r.overflowed);
  if (c.has_value()) VP_CHECK(*c == (R)w);
  vp_observe((u64)r.value); vp_observe(r.overflowed);
}
template <class A, class B> void addsub() {
  using C = best::common_int<A, B>;
  auto a = anyo<A>("a"); auto b = anyo<B>("b");
  bool p = a.overflowed || b.overflowed;
  exact<C>(a + b, (i128)(C)a.value + (i128)(C)b.value, p);
  exact<C>(a - b, (i128)(C)a.value - (i128)(C)b.value, p);
  exact<C>(a + b.value, (i128)(C)a.value + (i128)(C)b.value, a.overflowed);
  exact<C>(a.value - b, (i128)(C)a.value - (i128)(C)b.value, b.overflowed);
  auto x = best::overflow<C>((C)a.value, a.overflowed);
  x += b; exact<C>(x, (i128)(C)a.value + (i128)(C)b.value, p);
  x = best::overflow<C>((C)a.value, a.overflowed);
  x -= b.value; exact<C>(x, (i128)(C)a.value - (i128)(C)b.value, a.overflowed);
  VP_REACH();
}
template <class A, class B> void mul() {
  using C = best::common_int<A, B>;
  auto a = anyo<A>("a"); auto b = anyo<B>("b");
  bool p = a.overflowed || b.overflowed;
  i128 w; bool big = false;
  if constexpr (best::is_unsigned<C> && sizeof(C) == 8) {
    u128 W = (u128)(C)a.value * (u128)(C)b.value;
    big = (W >> 64) != 0; w = (i128)(C)W;
  } else w = (i128)(C)a.value * (i128)(C)b.value;
  auto r = a * b;
  VP_CHECK(r.value == (C)w);
  VP_CHECK(r.overflowed == (p || big || (i128)(C)w != w));
  auto x = best::overflow<C>((C)a.value, a.overflowed);
  x *= b;
  VP_CHECK(x.value == r.value && x.overflowed == r.overflowed);
  vp_observe((u64)r.value); vp_observe(r.overflowed);
  VP_REACH();
}
template <class A, class B> void divrem() {
  using C = best::common_int<A, B>;
  auto a = anyo<A>("a"); auto b = anyo<B>("b");
  bool p = a.overflowed || b.overflowed;
  C x = a.value, y = b.value;
  constexpr bool same = __is_same(A, B);  // mixed operands of / and % are ambiguous overloads
  VP_CRASHES_IFF(y == 0, (void)best::div(a, b));
  if (best::is_signed<C> && x == best::min_of<C> && y == (C)-1) {
    auto [q, r] = best::div(a, b);
    VP_CHECK(q.overflowed && q.value == x && r.overflowed);
    if constexpr (same) {
      VP_CHECK((a / b).overflowed); VP_CHECK((a / b).value == x);
      VP_CHECK((a % b).overflowed);
    }
    VP_REACH();
  } else {
    auto [q, r] = best::div(a, b);
    exact<C>(q, (i128)(C)(x / y), p);
    exact<C>(r, (i128)(C)(x % y), p);
    if constexpr (same) {
      exact<C>(a / b, (i128)(C)(x / y), p);
      exact<C>(a % b, (i128)(C)(x % y), p);
    }
    VP_REACH();
  }
}
template <class A> void rem0() {
  A a = any<A>("a"), b = any<A>("b");
  VP_CRASHES_IFF(b == 0, (void)(best::overflow(a) / b));
  VP_REACH();
}
template <class A> void rem1() {
  A a = any<A>("a"), b = any<A>("b");
  VP_CRASHES_IFF(b == 0, (void)(best::overflow(a) % b));
}
template <class A, class B> void bitwise() {
  using C = best::common_int<A, B>;
  auto a = anyo<A>("a"); auto b = anyo<B>("b");
  bool p = a.overflowed || b.overflowed;
  exact<C>(a & b, (i128)(C)((C)a.value & (C)b.value), p);
  exact<C>(a | b, (i128)(C)((C)a.value | (C)b.value), p);
  exact<C>(a ^ b, (i128)(C)((C)a.value ^ (C)b.value), p);
  exact<A>(~a, (i128)(A)~a.value, a.overflowed);
  exact<A>(-a, -(i128)a.value, a.overflowed);
  exact<A>(+a, (i128)a.value, a.overflowed);
  VP_REACH();
}
template <class A, class B> void shifts() {
  auto a = anyo<A>("a"); auto b = anyo<B>("b");
  bool p = a.overflowed || b.overflowed;
  bool bad = (i128)b.value < 0 || (i128)b.value >= (i128)sizeof(A) * 8;
  unsigned s = (unsigned)(b.value & (sizeof(A) * 8 - 1));
  auto l = a << b; auto r = a >> b;
  VP_CHECK(l.overflowed == (p || bad));
  VP_CHECK(r.overflowed == (p || bad));
  VP_CHECK(l.value == (A)(best::to_unsigned(a.value) << s));
  VP_CHECK(r.value == (A)(a.value >> s));
  vp_observe((u64)l.value); vp_observe((u64)r.value);
  VP_REACH();
}
template <class A, class B> void convert() {
  auto b = anyo<B>("b");
  best::overflow<A> a = b;
  VP_CHECK(a.value == (A)b.value);
  VP_CHECK(a.overflowed == (b.overflowed || (i128)(A)b.value != (i128)b.value));
  VP_CRASHES_IFF(a.overflowed, vp_observe((u64)a.strict()));
  
  VP_REACH();
}
#define P2(f, n, A, B) VP_ENTRY(f##_##n) { f<A, B>(); }
#define ALLP(f) P2(f, i32_i32, i32, i32) P2(f, i32_u32, i32, u32) P2(f, u32_i32, u32, i32) P2(f, u32_u32, u32, u32) P2(f, i64_i64, i64, i64) P2(f, i32_i64, i32, i64) P2(f, i64_u32, i64, u32) P2(f, u64_u64, u64, u64) P2(f, u64_i32, u64, i32) P2(f, i64_u64, i64, u64)
#define SMALLP(f) P2(f, i8_i8, i8, i8) P2(f, u8_u8, u8, u8) P2(f, i8_u8, i8, u8) P2(f, i16_i16, i16, i16) P2(f, u16_i8, u16, i8) P2(f, i8_i32, i8, i32) P2(f, u64_i8, u64, i8)
ALLP(addsub) SMALLP(addsub) ALLP(mul) SMALLP(mul) ALLP(divrem) ALLP(bitwise) ALLP(shifts)
P2(shifts, i32_i8, i32, i8) P2(shifts, u64_u8, u64, u8)
ALLP(convert) SMALLP(convert) P2(convert, i8_i64, i8, i64) P2(convert, u8_i32, u8, i32) P2(convert, i32_u64, i32, u64) P2(convert, u64_i64, u64, i64) P2(convert, u32_i64, u32, i64)
VP_ENTRY(rem0_i32) { rem0<i32>(); }
VP_ENTRY(rem0_u64) { rem0<u64>(); }
VP_ENTRY(rem1_i64) { rem1<i64>(); }
VP_ENTRY(rem1_u32) { rem1<u32>(); }
