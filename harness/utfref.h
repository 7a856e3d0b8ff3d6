// Reference definitions of the encodings, straight from the Unicode standard's tables
// (independent of the implementation under test).
#ifndef UTFREF_H_
#define UTFREF_H_
#include "vp.h"
namespace vp {
// The scalar value of the well-formed UTF-8 sequence that starts at p (Table 3-7), or -1.
// With `w`, surrogates are allowed too.
inline i32 ref8(const u8* p, size_t n, bool w, i32* len) {
  *len = 0;
  if (n == 0) return -1;
  u8 a = p[0];
  if (a < 0x80) { *len = 1; return a; }
  if (a < 0xC2 || a > 0xF4) return -1;
  if (a < 0xE0) {
    if (n < 2) return -1;
    if (p[1] < 0x80 || p[1] > 0xBF) return -1;
    *len = 2; return (a - 0xC0) * 64 + (p[1] - 0x80);
  }
  if (a < 0xF0) {
    if (n < 3) return -1;
    u8 lo = a == 0xE0 ? 0xA0 : 0x80, hi = a == 0xED && !w ? 0x9F : 0xBF;
    if (p[1] < lo || p[1] > hi || p[2] < 0x80 || p[2] > 0xBF) return -1;
    *len = 3; return (a - 0xE0) * 4096 + (p[1] - 0x80) * 64 + (p[2] - 0x80);
  }
  if (n < 4) return -1;
  u8 lo = a == 0xF0 ? 0x90 : 0x80, hi = a == 0xF4 ? 0x8F : 0xBF;
  if (p[1] < lo || p[1] > hi || p[2] < 0x80 || p[2] > 0xBF || p[3] < 0x80 || p[3] > 0xBF) return -1;
  *len = 4; return (a - 0xF0) * 262144 + (p[1] - 0x80) * 4096 + (p[2] - 0x80) * 64 + (p[3] - 0x80);
}
inline bool refvalid8(const u8* p, size_t n, bool w) {
  while (n) { i32 l; if (ref8(p, n, w, &l) < 0) return false; p += l; n -= l; }
  return true;
}
inline i32 ref16(const u16* p, size_t n, i32* len) {
  *len = 0;
  if (n == 0) return -1;
  if (p[0] < 0xD800 || p[0] > 0xDFFF) { *len = 1; return p[0]; }
  if (p[0] > 0xDBFF || n < 2) return -1;
  if (p[1] < 0xDC00 || p[1] > 0xDFFF) return -1;
  *len = 2; return 0x10000 + (p[0] - 0xD800) * 1024 + (p[1] - 0xDC00);
}
inline i32 ref32(const u32* p, size_t n, i32* len) {
  *len = 0;
  if (n == 0) return -1;
  if (p[0] >= 0x110000 || (p[0] >= 0xD800 && p[0] <= 0xDFFF)) return -1;
  *len = 1; return (i32)p[0];
}
inline i32 refascii(const u8* p, size_t n, i32* len) {
  *len = 0;
  if (n == 0 || p[0] >= 0x80) return -1;
  *len = 1; return p[0];
}
inline i32 reflatin1(const u8* p, size_t n, i32* len) {
  *len = 0;
  if (n == 0) return -1;
  *len = 1; return p[0];
}
}  // namespace vp
#endif
