// Formatting with an arbitrary (run-time) specification, through the public interface.
#ifndef FMT_H_
#define FMT_H_
#include "best/text/format.h"
#include "best/log/wtf.h"
#include "vp.h"
namespace vp {
template <class T>
struct spec_of {
  best::format_spec s;
  const T& v;
  friend void BestFmt(auto& fmt, const spec_of& w) { fmt.format(w.s, w.v); }
};
// Expected output.
struct expect {
  char b[640]; size_t n = 0;
  void c(char x) { b[n++] = x; }
  void s(const char* x) { while (*x) c(*x++); }
  void raw(const char* p, size_t k) { for (size_t i = 0; i < k; i++) c(p[i]); }
  void rune(u32 v) {
    if (v < 0x80) { c(v); return; }
    if (v < 0x800) { c(0xC0 | v >> 6); c(0x80 | (v & 63)); return; }
    if (v < 0x10000) { c(0xE0 | v >> 12); c(0x80 | ((v >> 6) & 63)); c(0x80 | (v & 63)); return; }
    c(0xF0 | v >> 18); c(0x80 | ((v >> 12) & 63)); c(0x80 | ((v >> 6) & 63)); c(0x80 | (v & 63));
  }
  void num(u64 v) { char t[20]; int k = 0; do { t[k++] = '0' + v % 10; v /= 10; } while (v); while (k) c(t[--k]); }
  void hex(u64 v) { char t[16]; int k = 0; do { t[k++] = "0123456789abcdef"[v % 16]; v /= 16; } while (v); while (k) c(t[--k]); }
  void is(const best::strbuf& got) const {
    VP_CHECK(got.size() == n);
    bool same = true;
    for (size_t i = 0; i < n; i++) same &= got.data()[i] == b[i];
    VP_CHECK(same);
  }
};
inline best::format_spec arb_layout(size_t max_width, bool any_fill = true) {
  best::format_spec s;
  switch (pick(3, "align")) {
    case 0: break;
    case 1: s.alignment = best::format_spec::Left; break;
    case 2: s.alignment = best::format_spec::Center; break;
    default: s.alignment = best::format_spec::Right;
  }
  s.width = pick(max_width, "width");
  if (any_fill) { u32 f = any<u8>("fill"); vp_assume(f < 0x80); s.fill = *best::rune::from_int(f); }
  return s;
}
}  // namespace vp
#endif
