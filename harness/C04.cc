// Bit-level helpers agree with their definitions.
// BOUND: every value at full width; shift amounts over all of uint32_t; reference loops are fully unrolled (at most 64 bits)
#include "best/math/bit.h"
#include "best/container/option.h"
#include "vp.h"
using namespace vp;
template <class T> void counts(T x) {
  using U = __make_unsigned(T);
  constexpr unsigned N = sizeof(T) * 8;
  unsigned ones = 0, lz = 0, lo = 0, tz = 0, to = 0; bool a = true, b = true, c = true, d = true;
  for (unsigned i = 0; i < N; i++) {
    bool bl = ((U)x >> i) & 1, bh = ((U)x >> (N - 1 - i)) & 1;
    ones += bl;
    a = a && !bh; b = b && bh; c = c && !bl; d = d && bl;
    lz += a; lo += b; tz += c; to += d;
  }
  VP_CHECK(best::count_ones(x) == ones);
  VP_CHECK(best::leading_zeros(x) == lz);
  VP_CHECK(best::trailing_zeros(x) == tz);
  if constexpr (sizeof(T) >= 4) VP_CHECK(best::count_zeros(x) == N - ones);
  VP_CHECK(best::leading_ones(x) == lo);
  VP_CHECK(best::trailing_ones(x) == to);
  observe(ones, lz, lo, tz, to);
  VP_REACH();
}
#define C(t) VP_ENTRY(counts_##t) { counts<t>(any<t>()); }
C(u8) C(i8) C(u16) C(i16) C(u32) C(i32) C(u64) C(i64)
template <class T> void shifts() {
  using U = __make_unsigned(T); using S = __make_signed(T);
  constexpr unsigned N = sizeof(T) * 8;
  T x = any<T>(); u32 n = any<u32>("n");
  VP_CHECK(best::shift_left(x, n) == (n >= N ? (T)0 : (T)((u64)(U)x << (n & 63))));
  VP_CHECK(best::shift_right(x, n) == (n >= N ? (T)0 : (T)((u64)(U)x >> (n & 63))));
  VP_CHECK((T)best::shift_sign((S)x, n) == (n >= N ? (T)((S)x < 0 ? -1 : 0) : (T)((i64)(S)x >> (n & 63))));
  observe((u64)best::shift_left(x, n), (u64)best::shift_right(x, n));
  VP_REACH();
}
#define SH(t) VP_ENTRY(shifts_##t) { shifts<t>(); }
SH(u8) SH(i8) SH(u16) SH(i16) SH(u32) SH(i32) SH(u64) SH(i64)
template <class T> void rot() {
  constexpr unsigned N = sizeof(T) * 8;
  T x = any<T>(); u32 n = any<u32>("n"); vp_assume(n <= 0x7fffffff);
  unsigned k = n % N;
  T l = k ? (T)((T)(x << k) | (T)(x >> (N - k))) : x, r = k ? (T)((T)(x >> k) | (T)(x << (N - k))) : x;
  VP_CHECK(best::rotate_left(x, n) == l);
  VP_CHECK(best::rotate_right(x, n) == r);
  VP_CHECK(best::rotate_right(best::rotate_left(x, n), n) == x);
  observe(l, r);
  VP_REACH();
}
#define RT(t) VP_ENTRY(rotate_##t) { rot<t>(); }
RT(u8) RT(u16) RT(u32) RT(u64)
template <class T> void pow2() {
  constexpr unsigned N = sizeof(T) * 8;
  T x = any<T>();
  // x < 2^k for the smallest such k
  unsigned k = 0; for (unsigned i = 0; i < N; i++) if ((x >> i) & 1) k = i + 1;
  bool p = false; for (unsigned i = 0; i < N; i++) p = p || x == (T)((T)1 << i);
  VP_CHECK(best::is_pow2(x) == p);
  u128 next = (u128)1 << k;
  VP_CHECK(best::next_pow2_minus1(x) == (T)(next - 1));
  VP_REACH();
  if constexpr (N >= 32) {  // narrower types promote to a wider result
    VP_CHECK(best::wrapping_next_pow2(x) == (T)next);
    auto c = best::checked_next_pow2(x);
    VP_CHECK(c.has_value() == (k < N));
    if (c.has_value()) VP_CHECK(*c == (T)next);
    VP_CRASHES_IFF(k == N, vp_observe(best::next_pow2(x)));
    VP_CHECK(best::next_pow2(x) == (T)next);
  }
  VP_REACH();
}
#define PW(t) VP_ENTRY(pow2_##t) { pow2<t>(); }
PW(u8) PW(u16) PW(u32) PW(u64)
template <class T> void bitsfor() {
  T x = any<T>();
  unsigned k = 0; for (unsigned i = 0; i < sizeof(T) * 8; i++) if ((x >> i) & 1) k = i + 1;
  VP_CHECK(best::bits_for(x) == k);
  VP_REACH();
}
#define BF(t) VP_ENTRY(bitsfor_##t) { bitsfor<t>(); }
BF(u8) BF(u16) BF(u32) BF(u64)
