// What a crash reports, and what printing prints.
// BOUND: crash messages of 0..3 and 505..520 bytes (thorough: up to 600) with arbitrary first and last bytes; every range and length at full machine width; printed strings of up to 2 (thorough 4) arbitrary runes
// ORACLE: the documented layout (location line, then the message), with libc's stdio modelled symbolically (integers opaque) and real natively
#include "best/container/choice.h"
#include "best/container/result.h"
#include "best/container/vec.h"
#include "best/iter/bounds.h"
#include "best/math/overflow.h"
#include "best/memory/span.h"
#include "best/text/rune.h"
#include "best/text/format.h"
#include "best/log/wtf.h"
#include "stdenv.h"
using namespace vp;
static transcript Want; static unsigned Line; static size_t Body;
static const char Begin[] = "\033[31mlibbest: ", End[] = "\n\033[0m";
static void head(const char* file, u64 line) {
  char name[512]; pthread_getname_np(pthread_self(), name, sizeof name);
  Want.s("\033[31mlibbest: thread '"); Want.s(name); Want.s("' crashed at "); Want.s(file); Want.c(':'); Want.num(line); Want.s("\n\033[0m");
}
static void status(int code) { VP_CHECK(code == 128); VP_CHECK(printed(0) == 0); }
// exactly the expected message
static void exact(int code) { status(code); Want.s(End); VP_CHECK(Want.is(1)); VP_REACH(); vp_done(); }
// the expected message, or at least 511 bytes of it
static void prefix(int code) {
  status(code);
  size_t n = printed(1), t = sizeof End - 1; VP_CHECK(n >= Body + t && n <= Want.n + t);
  size_t k = n - t; VP_CHECK(k == Want.n || k - Body >= 511);
  bool same = true; for (size_t i = 0; i < k; i++) same &= text(1)[i] == Want.b[i];
  for (size_t i = 0; i < t; i++) same &= text(1)[k + i] == End[i];
  VP_CHECK(same); VP_REACH(); vp_done();
}
// only the message: its location is the library's
static void anywhere(int code) {
  status(code); Want.s(End);
  size_t n = printed(1); VP_CHECK(n > Want.n); bool same = true;
  for (size_t i = 0; i < Want.n; i++) same &= text(1)[n - Want.n + i] == Want.b[i];
  VP_CHECK(same); VP_REACH(); vp_done();
}
#define HERE (Line = __LINE__, head(__FILE__, Line), Want.s(Begin), Body = Want.n)
VP_ENTRY(shim) {
  capture(exact);
  u64 n = any<u64>("a"); unsigned u = any<unsigned>("u");
  HERE; Want.s("one "); Want.num(n); Want.s(", "); Want.num(u); Want.s(" 100%"); best::crash_internal::crash("one %zu, %u 100%%", (size_t)n, u);
}
VP_ENTRY(long_message) {
  capture(prefix);
  size_t n = pick(VPQ(19, 99)); if (n > 3) n += 501; char m[700]; memset(m, 'x', sizeof m); m[n] = 0;
  for (size_t i : {(size_t)0, n - 2, n - 1}) if (i < n) { m[i] = any<char>("c"); vp_assume(m[i] != 0); }
  HERE; Want.s(m); best::crash_internal::crash("%s", m);
}
static best::strbuf sample(size_t n) { best::strbuf s; for (size_t i = 0; i < n; i++) s.push('x'); return s; }
VP_ENTRY(wtf) {
  capture(exact); vp_leak_ok();
  size_t n = pick(2); size_t len[] = {0, 3, 600}; auto s = sample(len[n]); u8 v = any<u8>("v");
  if (any<bool>("none")) { HERE; Want.s("explicit call to best::wtf()"); best::wtf(); }
  HERE; Want.s("<"); for (size_t i = 0; i < len[n]; i++) Want.c('x'); Want.s("> "); Want.s(v & 1 ? "true" : "false"); best::wtf("<{}> {}", s, v & 1 ? best::str("true") : best::str("false"));
}
VP_ENTRY(unwrap_err) {
  capture(anywhere); vp_leak_ok();
  size_t n = pick(2); size_t len[] = {0, 3, 480};
  Want.s(Begin); Want.s("unwrapped a best::err(");
  switch (pick(2, "kind")) {
    case 0: { best::result<int, void> r = best::err(); Want.s("void)"); (void)*r; break; }
    case 1: { best::result<void, best::str> r = best::err(best::str("n\"")); Want.s("\"n\\\"\")"); *r; break; }
    default: { auto s = sample(len[n]); best::result<int, best::strbuf> r = best::err(s); Want.c('"'); for (size_t i = 0; i < len[n]; i++) Want.c('x'); Want.s("\")"); int x = *r; vp_observe(x); }
  }
  VP_CHECK(false);
}
VP_ENTRY(unwrap_none) {
  capture(exact);
  best::option<int> a; const best::option<int&> b; best::option<void> c; Want.n = 0;
  switch (pick(3)) {
    case 0: HERE; Want.s("unwrapped a best::none"); vp_observe((u64)a.value()); break;
    case 1: HERE; Want.s("unwrapped a best::none"); vp_observe((u64)(long)&b.value()); break;
    case 2: HERE; Want.s("unwrapped a best::none"); vp_observe((u64)BEST_MOVE(a).value()); break;
    default: HERE; Want.s("unwrapped a best::none"); c.value(); break;
  }
  VP_CHECK(false);
}
VP_ENTRY(unwrap_op) {
  capture(anywhere); best::option<int> a; Want.s(Begin); Want.s("unwrapped a best::none");
  if (any<bool>("arrow")) vp_observe((u64)(long)a.operator->()); else vp_observe((u64)*a);
  VP_CHECK(false);
}
VP_ENTRY(variant) {
  capture(anywhere);
  best::choice<int, u8, void> c(best::index<0>, 1); size_t k = pick(2, "have"), w = pick(2, "want"); vp_assume(k != w);
  if (k == 1) c = best::choice<int, u8, void>(best::index<1>, 2); if (k == 2) c = best::choice<int, u8, void>(best::index<2>);
  Want.s(Begin); Want.s("attempted access of incorrect variant of best::choice; "); Want.num(w); Want.s(" != "); Want.num(k);
  if (w == 0) vp_observe((u64)c[best::index<0>]); else if (w == 1) vp_observe(c[best::index<1>]); else c[best::index<2>];
  VP_CHECK(false);
}
VP_ENTRY(arithmetic) {
  capture(exact); int a = any<int>("a"), b = any<int>("b");
  switch (pick(2)) {
    case 0: vp_assume(b == 0); HERE; Want.s("division by zero"); vp_observe((u64)best::div(a, b).quot.value); break;
    case 1: vp_assume(b == 0); HERE; Want.s("division by zero"); vp_observe((u64)best::div(best::overflow(a), best::overflow(b)).rem.value); break;
    default: { auto s = best::overflow(a) + b; vp_assume(s.overflowed); HERE; Want.s("arithmetic overflow"); vp_observe((u64)s.strict()); }
  }
  VP_CHECK(false);
}
VP_ENTRY(radix) {
  capture(anywhere); unsigned r = any<unsigned>("radix"); vp_assume(r > 36); Want.s(Begin); Want.s("from_digit() radix too large: "); Want.num(r); Want.s(" > 36");
  if (any<bool>("to")) vp_observe((u64)best::rune('a').to_digit(r).has_value()); else vp_observe((u64)best::rune::from_digit(1, r).has_value());
  VP_CHECK(false);
}
// ---- bounds: the report names the caller's line and a relation that really holds between the operands
static u64 Start, EndV, Incl, Count, Len; static bool HasEnd, HasIncl, HasCount;
static const char* At; static bool eat(const char* s) { size_t n = strlen(s); if (memcmp(At, s, n) != 0) return false; At += n; return true; }
static u64 number() {
  u64 v = 0;
  if (vp_is_symbolic()) { VP_CHECK(*At == 1); At++; for (int i = 0; i < 8; i++) v |= (u64)(u8)*At++ << (8 * i); return v; }
  VP_CHECK(*At >= '0' && *At <= '9'); while (*At >= '0' && *At <= '9') v = v * 10 + (*At++ - '0');
  return v;
}
static void oob(int code) {
  status(code); size_t n = printed(1); VP_CHECK(n > Want.n);
  bool same = true; for (size_t i = 0; i < Want.n; i++) same &= text(1)[i] == Want.b[i];
  VP_CHECK(same);
  char m[256]; VP_CHECK(n - Want.n < 255); memcpy(m, text(1) + Want.n, n - Want.n); m[n - Want.n] = 0; At = m;
  VP_CHECK(eat("bounds-check failed: "));
  u64 a = number(), b = 0; bool sum = eat(" + "); if (sum) { b = number(); VP_CHECK(eat(" (start + count)")); VP_CHECK(a == Start && HasCount && b == Count); }
  else if (eat(" (start)")) VP_CHECK(a == Start);
  else { VP_CHECK(eat(" (end)")); VP_CHECK((HasEnd & (a == EndV)) | (HasIncl & (a == Incl))); }
  bool ge = eat(" >= "); if (!ge) VP_CHECK(eat(" > "));
  u64 c = number(); if (eat(" (len)")) VP_CHECK(c == Len); else { VP_CHECK(eat(" (end)")); VP_CHECK((HasEnd & (c == EndV)) | (HasIncl & (c == Incl))); }
  VP_CHECK(eat(End) && *At == 0);
  u128 l = (u128)a + b; VP_CHECK(ge ? l >= c : l > c);  // the relation it states holds
  VP_REACH(); vp_done();
}
VP_ENTRY(bounds) {
  capture(oob);
  Start = any<u64>("start"); EndV = any<u64>("end"); Incl = any<u64>("incl"); Count = any<u64>("count"); Len = any<u64>("len");
  best::bounds r{.start = Start};
  if ((HasEnd = any<bool>("has_end"))) r.end = EndV;
  if ((HasIncl = any<bool>("has_incl"))) r.including_end = Incl;
  if ((HasCount = any<bool>("has_count"))) r.count = Count;
  if (r.try_compute_count(Len)) vp_done();
  HERE; vp_observe(r.compute_count(Len));
  VP_CHECK(false);
}
VP_ENTRY(slices) {
  capture(oob); int m[3] = {1, 2, 3}; best::span<int> s(m, 3); best::vec<int> v{1, 2, 3}; vp_leak_ok(); best::str t = "abc"; Len = 3; Start = any<u64>("start"); EndV = any<u64>("end"); Count = any<u64>("count");
  switch (pick(9, "op")) {
    case 0: vp_assume(Start >= Len); HERE; vp_observe((u64)s[Start]); break;
    case 1: vp_assume(Start >= Len); HERE; vp_observe((u64)v[Start]); break;
    case 2: HasEnd = true; vp_assume(Start > EndV || EndV > Len); HERE; vp_observe(s[{.start = Start, .end = EndV}].size()); break;
    case 3: HasEnd = true; vp_assume(Start > EndV || EndV > Len); HERE; vp_observe(v[{.start = Start, .end = EndV}].size()); break;
    case 4: HasCount = true; vp_assume(Start > Len || Count > Len - Start); HERE; vp_observe(s[{.start = Start, .count = Count}].size()); break;
    case 5: HasCount = true; vp_assume(Start > Len || Count > Len - Start); HERE; vp_observe(t[{.start = Start, .count = Count}].size()); break;
    case 6: HasIncl = true; Incl = EndV; vp_assume(Incl >= Len); HERE; vp_observe(v[{.start = Start, .including_end = Incl}].size()); break;
    case 7: vp_assume(Start > Len); HERE; vp_observe(t[{.start = Start}].size()); break;
    case 8: vp_assume(Start >= Len); HERE; s.swap(0, Start); break;
    default: vp_assume(Start >= Len); HERE; s.swap(Start, 1); break;
  }
  VP_CHECK(false);
}
VP_ENTRY(mid_rune) {
  capture(exact); best::str t = "\u00e9\U00010000"; size_t a = pick(6), b = pick(6); vp_assume(a <= b);
  auto cut = [](size_t i) { return i == 1 || (i > 2 && i < 6); }; vp_assume(cut(a) || cut(b));
  HERE; Want.s("string slice operation sliced through the middle of a character: {.start = "); Want.num(a); Want.s(", .end = "); Want.num(b); Want.c('}'); vp_observe(t[{.start = a, .end = b}].size());
  VP_CHECK(false);
}
VP_ENTRY(static_span) {
  capture(exact); int m[3] = {}; u64 n = any<u64>("n"); vp_assume(n != 3);
  HERE; Want.s("static span length mismatch: expected "); Want.num(3); Want.s(", got "); Want.num(n); best::span<int, 3> s(m, n); vp_observe(s.size());
  VP_CHECK(false);
}
// ---- printing
VP_ENTRY(print) {
  if (!vp_is_symbolic()) vp_leak_ok();  // the native capture allocates
  capture(); best::strbuf s; size_t n = pick(VPQ(2, 4)); transcript want;
  for (size_t i = 0; i < n; i++) { u32 v = any<u32>("r"); vp_assume(v < 0x110000 && (v < 0xd800 || v > 0xdfff)); s.push(*best::rune::from_int(v)); }
  bool err = any<bool>("err"), ln = any<bool>("ln"); want.c('<'); want.raw(s.data(), s.size()); want.c('>'); if (ln) want.c('\n');
  if (err) { if (ln) best::eprintln("<{}>", s); else best::eprint("<{}>", s); } else if (ln) best::println("<{}>", s); else best::print("<{}>", s);
  VP_CHECK(want.is(err) && printed(!err) == 0);
  VP_REACH();
}
VP_ENTRY(where) {
  auto l = [](best::location w = best::here) { return w; }; best::track_location<int> t = 5; unsigned line = __LINE__; best::location a = best::here; auto b = l(); auto c = best::track_location<u8>(any<u8>("v"), a);
  auto t2 = t; auto& tr = t; best::track_location<int> t3(tr); best::location d = t2, e = a; const auto ct = t; auto t4 = ct; auto t5 = BEST_MOVE(t2); t2 = t5;
  VP_CHECK(*t3 == 5 && *t4 == 5 && *t5 == 5);
  for (auto w : {a, b, t.location(), c.location(), d, e, t3.location(), t4.location(), t5.location(), t2.location()}) VP_CHECK(w.line() == line && w.file() == best::str::from_nul(__FILE__) && w.col() > 0);
  VP_CHECK(*t == 5 && t == 5);
  VP_REACH();
}
