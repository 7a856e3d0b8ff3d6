// The built-in encodings, with their independent reference decoders and encoders.
#ifndef ENC_H_
#define ENC_H_
#include "best/text/ascii.h"
#include "best/text/rune.h"
#include "best/text/utf16.h"
#include "best/text/utf32.h"
#include "best/text/utf8.h"
#include "best/text/str.h"
#include "utfref.h"
#include "vp.h"
namespace vp {
struct U8 {
  using E = best::utf8; using C = char;
  static i32 ref(const C* p, size_t n, i32* l) { return ref8((const u8*)p, n, false, l); }
  static bool ok(u32 v) { return !(v >= 0xd800 && v < 0xe000); }
  static size_t len(u32 v) { return v < 0x80 ? 1 : v < 0x800 ? 2 : v < 0x10000 ? 3 : 4; }
};
struct U16 {
  using E = best::utf16; using C = char16_t;
  static i32 ref(const C* p, size_t n, i32* l) { return ref16((const u16*)p, n, l); }
  static bool ok(u32 v) { return !(v >= 0xd800 && v < 0xe000); }
  static size_t len(u32 v) { return v < 0x10000 ? 1 : 2; }
};
struct U32 {
  using E = best::utf32; using C = char32_t;
  static i32 ref(const C* p, size_t n, i32* l) { return ref32((const u32*)p, n, l); }
  static bool ok(u32 v) { return !(v >= 0xd800 && v < 0xe000); }
  static size_t len(u32) { return 1; }
};
struct W8 {
  using E = best::wtf8; using C = char;
  static i32 ref(const C* p, size_t n, i32* l) { return ref8((const u8*)p, n, true, l); }
  static bool ok(u32) { return true; }
  static size_t len(u32 v) { return v < 0x80 ? 1 : v < 0x800 ? 2 : v < 0x10000 ? 3 : 4; }
};
struct AS {
  using E = best::ascii; using C = char;
  static i32 ref(const C* p, size_t n, i32* l) { return refascii((const u8*)p, n, l); }
  static bool ok(u32 v) { return v < 0x80; }
  static size_t len(u32) { return 1; }
};
struct L1 {
  using E = best::latin1; using C = char;
  static i32 ref(const C* p, size_t n, i32* l) { return reflatin1((const u8*)p, n, l); }
  static bool ok(u32 v) { return v < 0x100; }
  static size_t len(u32) { return 1; }
};
// The runes of a valid string: values, offsets (off[k] is the size), and how many.
struct runes_of { u32 r[8]; size_t off[9]; size_t k; bool valid; };
template <class X> inline runes_of decode_all(const typename X::C* p, size_t n) {
  runes_of o{};
  o.valid = true;
  size_t i = 0;
  o.k = 0;
  while (i < n) {
    i32 l, v = X::ref(p + i, n - i, &l);
    if (v < 0) { o.valid = false; return o; }
    o.off[o.k] = i; o.r[o.k++] = (u32)v;
    i += l;
  }
  o.off[o.k] = n;
  return o;
}
// Any valid string of n code units (in an exactly sized block).
template <class X> struct str {
  using C = typename X::C; using E = typename X::E;
  buf<C> b;
  runes_of d;
  str(size_t n, const char* name = "s") : b(n, name), d(decode_all<X>(b.p, n)) { vp_assume(d.valid); }
  best::pretext<E> pre() const { return best::pretext<E>(best::span<const C>(b.p, b.n)); }
  best::text<E> text() const { return best::text<E>(best::unsafe("validated by the reference"), pre()); }
  bool boundary(size_t i) const {
    bool r = false;
    for (size_t j = 0; j <= d.k; j++) r |= d.off[j] == i;
    return r;
  }
};
// Any string of n code units, valid or not.
template <class X> struct raw {
  using C = typename X::C; using E = typename X::E;
  buf<C> b;
  raw(size_t n, const char* name = "s") : b(n, name) {}
  best::pretext<E> pre() const { return best::pretext<E>(best::span<const C>(b.p, b.n)); }
};
}  // namespace vp
#endif
