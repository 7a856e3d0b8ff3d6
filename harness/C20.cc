// Allocation: size, alignment, contents, and size arithmetic.
// BOUND: alignments 1..256; sizes of 0..3 (quick) / 0..4 (thorough) times the alignment (plus every size beyond 2^26 at full machine width); one allocation followed by up to two reallocations between any two layouts, and a release
// BOUND: layout arithmetic at full machine width
#include "best/memory/allocator.h"
#include "best/memory/layout.h"
#include "best/text/format.h"
#include "best/log/wtf.h"
#include "vp.h"
using namespace vp;

static best::layout lay(size_t s, size_t a) { return best::layout(best::unsafe("test"), s, a); }
static best::layout anylay() {
  size_t a = 1ull << pick(VPQ(7, 8), "la");
  size_t k = pick(VPQ(3, 4), "k");
  return lay(k * a, a);
}
// three cooperating blocks, so that an accidentally aligned address does not hide an error
template <class F> static void blocks(F f) {
  for (int i = 0; i < 3; i++) f(i);
}
static void same(best::ptr<void> p, best::layout l) {
  VP_CHECK(p != nullptr);
  VP_CHECK(p.to_addr() % l.align() == 0);
}
static u8* bytes(best::ptr<void> p) { return (u8*)p.raw(); }

VP_ENTRY(alloc) {
  best::layout l = anylay();
  best::ptr<void> p[3] = {nullptr, nullptr, nullptr};
  blocks([&](int i) { p[i] = best::malloc::alloc(l); same(p[i], l); });
  blocks([&](int i) { for (size_t j = 0; j < l.size(); j += 7) bytes(p[i])[j] = any<u8>("c"); if (l.size()) bytes(p[i])[l.size() - 1] = 3; });
  VP_CHECK(p[0].to_addr() != p[1].to_addr() && p[1].to_addr() != p[2].to_addr());
  VP_CHECK(vp_live_heap() == 3);
  blocks([&](int i) { best::malloc::dealloc(p[i], l); });
  VP_CHECK(vp_live_heap() == 0);
  VP_REACH();
}
VP_ENTRY(zalloc) {
  best::layout l = anylay();
  best::ptr<void> p[3] = {nullptr, nullptr, nullptr};
  blocks([&](int i) { p[i] = best::malloc::zalloc(l); same(p[i], l); });
  blocks([&](int i) { for (size_t j = 0; j < l.size(); j++) VP_CHECK(bytes(p[i])[j] == 0); });
  blocks([&](int i) { best::malloc::dealloc(p[i], l); });
  VP_CHECK(vp_live_heap() == 0);
  VP_REACH();
}
// the contents follow the block through reallocations to any layout
template <int steps> static void re(bool samealign) {
  best::layout l = anylay();
  auto p = best::malloc::alloc(l); same(p, l);
  u8 want[1100]; size_t n = l.size();
  for (size_t j = 0; j < n; j++) bytes(p)[j] = want[j] = any<u8>("c");
  for (int k = 0; k < steps; k++) {
    best::layout m = anylay();
    if (samealign) vp_assume(m.align() == l.align());
    auto q = best::malloc::realloc(p, l, m);
    same(q, m);
    if (m.size() < n) n = m.size();
    for (size_t j = 0; j < n; j++) VP_CHECK(bytes(q)[j] == want[j]);
    if (m.size()) { bytes(q)[0] ^= 1; bytes(q)[m.size() - 1] = want[m.size() - 1] = 77; if (m.size() > 1) want[0] ^= 1; else want[0] = 77; if (n == 0) n = 0; }
    if (m.size()) bytes(q)[m.size() - 1] = 77;
    VP_CHECK(vp_live_heap() == 1);
    p = q; l = m;
  }
  best::malloc::dealloc(p, l);
  VP_CHECK(vp_live_heap() == 0);
  VP_REACH();
}
VP_ENTRY(realloc) { re<1>(false); }
VP_ENTRY(realloc_twice) { re<2>(true); }
// the blocks that reallocation produces are aligned
VP_ENTRY(realloc_align) {
  best::layout l = lay(16, 16), m = anylay();
  best::ptr<void> p[3] = {nullptr, nullptr, nullptr};
  blocks([&](int i) { p[i] = best::malloc::alloc(l); });
  blocks([&](int i) { p[i] = best::malloc::realloc(p[i], l, m); same(p[i], m); });
  blocks([&](int i) { best::malloc::dealloc(p[i], m); });
  VP_CHECK(vp_live_heap() == 0);
  VP_REACH();
}
// requests that cannot be met crash, also when bookkeeping overflows the size
template <class F> static void huge(F f) {
  size_t a = 1ull << pick(8, "la");
  size_t n = any<size_t>("n");
  vp_assume(n > (1ull << 46) && n % a == 0);
  VP_REACH();
  VP_CRASHES_IFF(true, f(lay(n, a)));
}
VP_ENTRY(alloc_huge) { huge([](best::layout l) { best::malloc::alloc(l); }); }
VP_ENTRY(zalloc_huge) { huge([](best::layout l) { best::malloc::zalloc(l); }); }
VP_ENTRY(realloc_huge) {
  vp_leak_ok();
  auto p = best::malloc::alloc(lay(64, 64)); auto q = best::malloc::alloc(lay(8, 8));
  bool b = any<bool>("b");
  huge([&](best::layout l) { b ? best::malloc::realloc(p, lay(64, 64), l) : best::malloc::realloc(q, lay(8, 8), l); });
}
// in debug builds, releasing with another size is caught
VP_ENTRY(wrong_size) {
  if (!best::is_debug()) { VP_REACH(); return; }
  vp_leak_ok();
  size_t a = 1ull << pick(4, "la"), s = any<size_t>("s");
  auto p = best::malloc::alloc(lay(32, a));
  vp_assume(s < (1ull << 60) && s % a == 0);
  VP_REACH();
  VP_CRASHES_IFF(s != 32, best::malloc::dealloc(p, lay(s, a)));
}
VP_ENTRY(wrong_pointer) {
  uintptr_t a = any<uintptr_t>("a"); vp_assume(a < 0x1000);
  auto p = best::ptr<void>::from_addr(a);
  VP_REACH();
  bool b = any<bool>("b");
  VP_CRASHES_IFF(true, b ? best::malloc::dealloc(p, lay(8, 8)) : (void)best::malloc::realloc(p, lay(8, 8), lay(16, 8)));
}
// layout arithmetic
template <class T> static void array() {
  size_t n = any<size_t>("n");
  u128 want = (u128)n * sizeof(T);
  best::layout l;
  VP_REACH();
  VP_CRASHES_IFF(want > SIZE_MAX / 2, l = best::layout::array<T>(n));
  VP_CHECK(l.size() == want && l.align() == alignof(T));
  vp_observe(l.size());
}
struct s24 { char* p; u64 x; char c; };
struct alignas(64) s64 { char c; };
VP_ENTRY(array_u8) { array<u8>(); }
VP_ENTRY(array_u16) { array<u16>(); }
VP_ENTRY(array_u64) { array<u64>(); }
VP_ENTRY(array_s24) { array<s24>(); }
VP_ENTRY(array_s64) { array<s64>(); }
VP_ENTRY(array_b3) { array<char[3]>(); }
VP_ENTRY(fits_in) {
  size_t s = any<size_t>("s"), t = any<size_t>("t"), i = pick(12, "i"), j = pick(12, "j");
  best::layout a = lay(s, 1ull << i), b = lay(t, 1ull << j);
  VP_CHECK(a.fits_in(b) == (s <= t && i <= j));
  VP_CHECK((a == b) == (s == t && i == j));
  VP_REACH();
}
template <class... M> struct st;
template <class A> struct st<A> { A a; };
template <class A, class B> struct st<A, B> { A a; B b; };
template <class A, class B, class C> struct st<A, B, C> { A a; B b; C c; };
template <class... M> union un;
template <class A, class B, class C> union un<A, B, C> { A a; B b; C c; };
template <class A, class B, class C> static void comp() {
  VP_CHECK(best::layout::of_struct<A>().size() == sizeof(st<A>));
  VP_CHECK((best::layout::of_struct<A, B>().size() == sizeof(st<A, B>)));
  VP_CHECK((best::layout::of_struct<A, B, C>().size() == sizeof(st<A, B, C>)) && (best::layout::of_struct<A, B, C>().align() == alignof(st<A, B, C>)));
  VP_CHECK((best::layout::of_union<A, B, C>().size() == sizeof(un<A, B, C>)) && (best::layout::of_union<A, B, C>().align() == alignof(un<A, B, C>)));
}
VP_ENTRY(composite) {
  comp<u8, u16, u32>(); comp<u64, u8, u16>(); comp<u8, u64, u8>(); comp<s24, u8, s24>(); comp<u8, s64, u16>(); comp<char[3], u16, char[5]>(); comp<u16, char[3], u8>(); comp<u32, char[9], u64>();
  VP_REACH();
}
