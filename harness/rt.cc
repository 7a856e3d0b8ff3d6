// Native runtime of the harness interface: runs one entry on one concrete assignment and
// judges it.  usage: prog ENTRY FILE   (FILE: lines "name#k bits value")
#include <dlfcn.h>
#include <signal.h>
#include <stdlib.h>
#include <stdio.h>
#include <unistd.h>
#include <map>
#include <string>
#include "vp.h"
extern "C" { extern int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*)) __attribute__((weak));
void __lsan_disable() __attribute__((weak)); }
static std::map<std::string, uint64_t>* vals;
static std::map<std::string, int>* cnt;
static bool crashOn, crashMust, running, leakOk;
static long live; static bool busy;
static FILE* obs;
static void hm(const volatile void*, size_t) { if (running && !busy) live++; }
static void hf(const volatile void* p) { if (running && !busy && p) live--; }
[[noreturn]] static void done(int code, const char* what, const char* msg) {
  running = false;
  fprintf(obs, "%s %s\n", what, msg); fflush(obs);
  _exit(code);
}
static void died(const char* how) {
  if (!running) return;
  if (!crashOn) done(71, "VIOLATION", how);
  if (!crashMust) done(71, "VIOLATION", how);
  done(60, "CRASHED", "as required");
}
static void onexit() { died("crash: process exit"); }
static void onsig(int s) { if (s == SIGABRT || s == SIGTRAP || s == SIGILL) died("crash: signal"); done(73, "VIOLATION", "memory: fatal signal"); }
extern "C" {
uint64_t vp_val(unsigned bits, const char* name) {
  busy = true;
  std::string f = std::string(name) + "#" + std::to_string((*cnt)[name]++);
  auto it = vals->find(f);
  uint64_t v = it == vals->end() ? 0 : it->second;
  busy = false;
  return bits >= 64 ? v : v & ((1ull << bits) - 1);
}
void vp_assume(bool c) { if (!c) done(77, "ASSUME", "assumption does not hold"); }
void vp_assert(bool c, const char* m) { if (!c) done(70, "VIOLATION assert:", m); }
void vp_reach(const char*) {}
void vp_observe(uint64_t v) { busy = true; fprintf(obs, "OBS %llu\n", (unsigned long long)v); busy = false; }
uint64_t vp_pick(uint64_t v) { return v; }
void vp_crash_begin(bool m) { crashOn = true; crashMust = m; }
void vp_crash_end() { crashOn = false; if (crashMust) done(72, "VIOLATION", "operation returned for inputs on which it must crash"); }
void vp_leak_ok() { leakOk = true; }
void vp_kf_begin(const char*) {}
void vp_kf_end() {}
uint64_t vp_live_heap() { return live; }
int vp_is_symbolic() { return 0; }
static void (*exitFn)(int);
static void exiting(int code, void*) { if (!running) return; exitFn(code); done(71, "VIOLATION", "the exit check returned"); }
void vp_on_exit(void (*f)(int)) { exitFn = f; on_exit(exiting, nullptr); }
void vp_done() { running = false; fprintf(obs, "OK\n"); fflush(obs); _exit(0); }
void vp_assume_failed() { done(75, "VIOLATION", "assume: an assumption stated to the compiler is false"); }
}
int main(int argc, char** argv) {
  obs = fdopen(dup(1), "w");
  vals = new std::map<std::string, uint64_t>; cnt = new std::map<std::string, int>;
  FILE* f = fopen(argv[2], "r");
  char nm[256]; unsigned b; unsigned long long v;
  while (f && fscanf(f, "%255s %u %llu", nm, &b, &v) == 3) (*vals)[nm] = v;
  if (f) fclose(f);
  void (*e)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
  if (!e) { fprintf(stderr, "no entry %s\n", argv[1]); return 90; }
  atexit(onexit);
  signal(SIGABRT, onsig); signal(SIGTRAP, onsig); signal(SIGILL, onsig);
  bool hooks = __sanitizer_install_malloc_and_free_hooks && __sanitizer_install_malloc_and_free_hooks(hm, hf);
  running = true;
  e();
  running = false;
  if (hooks && !leakOk && live != 0) done(74, "VIOLATION", "leak: heap blocks still allocated at the end");
  fprintf(obs, "OK\n"); fflush(obs);
  _exit(0);
}
