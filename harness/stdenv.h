// The process environment of code that prints and exits: what a run writes to stdout and stderr,
// and the status it exits with.  Symbolically, the functions below stand in for libc's; natively
// libc itself runs, with the two streams redirected into memory.
#ifndef STDENV_H_
#define STDENV_H_
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "vp.h"
namespace vp {
enum { OutCap = 2048 };
static char OutBuf[2][OutCap]; static size_t OutN[2];  // stdout, stderr (symbolic runs)
static char* OutPtr[2]; static size_t OutLen[2]; static FILE* OutFile[2];  // native runs
static void (*ExitCheck)(int);
static char ErrMark, OutMark;
inline size_t printed(int which) { if (vp_is_symbolic()) return OutN[which]; fflush(OutFile[which]); return OutLen[which]; }
inline const char* text(int which) { return vp_is_symbolic() ? OutBuf[which] : OutPtr[which]; }
// Redirects both streams; `at_exit` (if any) judges the exit status and ends the path with vp_done().
inline void capture(void (*at_exit)(int) = nullptr) {
  ExitCheck = at_exit;
  if (vp_is_symbolic()) { stdout = (FILE*)&OutMark; stderr = (FILE*)&ErrMark; return; }
  for (int i : {0, 1}) OutFile[i] = open_memstream(&OutPtr[i], &OutLen[i]);
  stdout = OutFile[0]; stderr = OutFile[1];
  if (at_exit) vp_on_exit(at_exit);
}
inline void outc(FILE* f, char c) {
  VP_CHECK((void*)f == &OutMark || (void*)f == &ErrMark);
  int w = (void*)f == &ErrMark; VP_CHECK(OutN[w] < OutCap); OutBuf[w][OutN[w]++] = c;
}
// printf, with integers left opaque: a mark and the eight bytes of the value
template <class Put> static int form(const char* f, va_list va, Put put) {
  int n = 0; auto out = [&](char c) { put(c); n++; };
  for (; *f; f++) {
    if (*f != '%') { out(*f); continue; }
    f++; u64 v; bool num = false;
    if (*f == '%') out('%');
    else if (*f == 's') { const char* s = va_arg(va, const char*); while (*s) out(*s++); }
    else if (f[0] == '.' && f[1] == '*' && f[2] == 's') { int k = va_arg(va, int); const char* s = va_arg(va, const char*); for (int i = 0; (k < 0 || i < k) && s[i]; i++) out(s[i]); f += 2; }
    else if (*f == 'u') v = va_arg(va, unsigned), num = true;
    else if (*f == 'd') v = (u64)(i64)va_arg(va, int), num = true;
    else if (f[0] == 'z' && f[1] == 'u') v = va_arg(va, size_t), num = true, f++;
    else vp_assert(false, "a printf conversion outside the model");
    if (num) { out(1); for (int i = 0; i < 8; i++) out((char)(v >> (8 * i))); }
  }
  return n;
}
// what the run must have printed
struct transcript {
  char b[OutCap]; size_t n = 0;
  void c(char x) { b[n++] = x; }
  void s(const char* x) { while (*x) c(*x++); }
  void raw(const char* p, size_t k) { for (size_t i = 0; i < k; i++) c(p[i]); }
  void num(u64 v) {
    if (vp_is_symbolic()) { c(1); for (int i = 0; i < 8; i++) c((char)(v >> (8 * i))); return; }
    char t[24]; snprintf(t, sizeof t, "%zu", (size_t)v); s(t);
  }
  bool is(int which) const {
    if (printed(which) != n) return false;
    bool same = true; for (size_t i = 0; i < n; i++) same &= text(which)[i] == b[i];
    return same;
  }
};
}  // namespace vp
extern "C" {
#define VP_ENV __attribute__((used, noinline))
VP_ENV size_t vp_env_fwrite(const void* p, size_t sz, size_t n, FILE* f) { for (size_t i = 0; i < sz * n; i++) vp::outc(f, ((const char*)p)[i]); return n; }
VP_ENV int vp_env_fputc(int c, FILE* f) { vp::outc(f, (char)c); return (unsigned char)c; }
VP_ENV int vp_env_fputs(const char* s, FILE* f) { while (*s) vp::outc(f, *s++); return 1; }
VP_ENV int vp_env_fflush(FILE*) { return 0; }
VP_ENV int vp_env_fprintf(FILE* f, const char* t, ...) { va_list va; va_start(va, t); int n = vp::form(t, va, [&](char c) { vp::outc(f, c); }); va_end(va); return n; }
VP_ENV int vp_env_vsnprintf(char* o, size_t k, const char* t, va_list va) { size_t i = 0; int n = vp::form(t, va, [&](char c) { if (i + 1 < k) o[i++] = c; }); if (k) o[i] = 0; return n; }
VP_ENV pthread_t vp_env_pthread_self() { return (pthread_t)1; }
VP_ENV int vp_env_pthread_getname_np(pthread_t, char* o, size_t n) { const char* s = "thr"; if (n < 4) return 34; memcpy(o, s, 4); return 0; }
VP_ENV void vp_env_exit(int code) { if (!vp::ExitCheck) vp_assert(false, "unexpected process exit"); vp::ExitCheck(code); vp_assert(false, "the exit check returned"); }
}
#endif
