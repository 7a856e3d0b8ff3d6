// The harness interface.  The same source is executed symbolically by engine/sx and
// natively (with one solver assignment) by rt.cc.
#ifndef VP_H_
#define VP_H_
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

extern "C" {
uint64_t vp_val(unsigned bits, const char* name);  // an arbitrary value of `bits` bits
void vp_assume(bool c);
void vp_assert(bool c, const char* msg);           // the property
void vp_reach(const char* id);                     // vacuity witness: must be reachable
void vp_observe(uint64_t v);                       // compared between engine and native run
uint64_t vp_pick(uint64_t v);                      // splits on every feasible value of v
void vp_crash_begin(bool must);                    // the enclosed operation crashes iff `must`
void vp_crash_end();
void vp_leak_ok();
void vp_kf_begin(const char* id);                  // scope of a recorded known finding
void vp_kf_end();
uint64_t vp_live_heap();                           // live heap blocks
int vp_is_symbolic();
void vp_on_exit(void (*)(int));                    // judge process exit with this function instead (natively)
[[noreturn]] void vp_done();                       // this path ends here and is fine
}

#ifndef VP_TIER
#define VP_TIER 0
#endif
// Q(quick, thorough)
#define VPQ(q, t) (VP_TIER ? (t) : (q))
#define VP_ENTRY(name) extern "C" __attribute__((used, noinline, visibility("default"))) void vpx_##name()
#define VP_STR_(x) #x
#define VP_STR(x) VP_STR_(x)
#define VP_CHECK(c) vp_assert((c), #c " @" VP_STR(__LINE__))
#define VP_REACH() vp_reach(__FILE_NAME__ ":" VP_STR(__LINE__))
#define VP_NOINLINE __attribute__((noinline))
// The enclosed statements crash exactly when `must` holds.
#define VP_CRASHES_IFF(must, ...) \
  do {                            \
    vp_crash_begin(must);         \
    __VA_ARGS__;                  \
    vp_crash_end();               \
  } while (0)

namespace vp {
using u8 = uint8_t;
using u16 = uint16_t;
using u32 = uint32_t;
using u64 = uint64_t;
using i8 = int8_t;
using i16 = int16_t;
using i32 = int32_t;
using i64 = int64_t;
using i128 = __int128;
using u128 = unsigned __int128;

template <class T>
inline T any(const char* name = "x") {
  if constexpr (__is_same(T, bool)) return vp_val(1, name) != 0;
  else return (T)vp_val(sizeof(T) * 8, name);
}
// an arbitrary value in [0, max], kept symbolic
inline u64 upto(u64 max, const char* name = "n") {
  u64 v = vp_val(64, name);
  vp_assume(v <= max);
  return v;
}
// an arbitrary value in [0, max], one path per value
inline u64 pick(u64 max, const char* name = "n") {
  unsigned b = 1;
  while (b < 63 && (max >> b)) b++;
  u64 v = vp_val(b, name);
  vp_assume(v <= max);
  return vp_pick(v);
}
// `n` elements in an exactly sized heap block (so that any access outside is seen).
template <class T>
struct buf {
  T* p;
  size_t n;
  explicit buf(size_t n_) : p((T*)malloc(n_ * sizeof(T))), n(n_) {}
  buf(size_t n_, const char* name) : buf(n_) {
    for (size_t i = 0; i < n; i++) p[i] = any<T>(name);
  }
  buf(const buf&) = delete;
  ~buf() { free(p); }
  T& operator[](size_t i) { return p[i]; }
  const T& operator[](size_t i) const { return p[i]; }
};
inline void observe() {}
template <class T, class... R>
inline void observe(T x, R... r) { vp_observe((u64)x); observe(r...); }
}  // namespace vp

// An element type with a checked lifetime: constructing over, using, or destroying an object
// that is not in the expected state is a violation, and so is losing one.
namespace vp {
struct life_stats { int live; int ctor, copy, move, dtor; };
inline life_stats L;
struct tracked {
  int v;
  unsigned* tok;  // own heap block while alive: leaks and double destruction are memory errors
  static unsigned* mk() { unsigned* p = (unsigned*)malloc(4); *p = 0xA11FEu; return p; }
  void ok() const { vp_assert(*tok == 0xA11FEu, "use of an object outside its lifetime"); }
  tracked(int x = 0) : v(x), tok(mk()) { L.live++; L.ctor++; }
  tracked(const tracked& o) : v(o.v), tok(mk()) { o.ok(); L.live++; L.copy++; }
  tracked(tracked&& o) : v(o.v), tok(mk()) { o.ok(); o.v = -1; L.live++; L.move++; }
  tracked& operator=(const tracked& o) { ok(); o.ok(); v = o.v; L.copy++; return *this; }
  tracked& operator=(tracked&& o) { ok(); o.ok(); int t = o.v; if (this != &o) o.v = -1; v = t; L.move++; return *this; }
  ~tracked() { ok(); *tok = 0xDEADu; free(tok); tok = nullptr; v = -2; L.live--; L.dtor++; }
  bool operator==(const tracked& o) const { ok(); o.ok(); return v == o.v; }
  bool operator==(int o) const { ok(); return v == o; }
};
}  // namespace vp
#endif
