// An application starts once, with exactly its arguments, and its result becomes the exit status.
// VP-LINK-CLI
// BOUND: 0..2 arguments of 0..2 arbitrary non-zero bytes each (thorough: 0..3 of 0..2), every int as status, every way of declaring a main function
// ORACLE: the argument vector itself, and the exit status and output an environment model records
#include "best/cli/app.h"
#include "best/container/vec.h"
#include "best/text/format.h"
#include "best/log/wtf.h"
#include "stdenv.h"
using namespace vp;
namespace c40 {
using best::cli;
struct opts {
  best::str word; best::option<bool> flag;
  constexpr friend auto BestReflect(auto& m, opts*) { return m.infer().with(&opts::word, cli::flag{.letter = 'w'}).with(&opts::flag, cli::flag{.letter = 'f'}); }
};
}  // namespace c40
using c40::opts;
static int Want, Code; static bool Ran, Err; static const char* Arg[5]; static int Argc; static size_t OutWant;
static char Bytes[4][4]; static char* Argv[6];
static void arguments() {
  Argc = 1 + (int)pick(VPQ(2, 3), "args"); static char exe[4] = "exe"; Argv[0] = exe; exe[0] = any<char>("exe"); vp_assume(exe[0] != 0);
  for (int i = 1; i < Argc; i++) { size_t n = pick(2, "len"); for (size_t j = 0; j < n; j++) { Bytes[i][j] = any<char>("c"); vp_assume(Bytes[i][j] != 0); } Argv[i] = Bytes[i]; }
  Argv[Argc] = nullptr;
}
static int vpcmp(const char* a, const char* b) { while (*a && *a == *b) a++, b++; return *a - *b; }
static bool same(best::pretext<best::wtf8> s, const char* t) { size_t n = strlen(t); if (s.size() != n) return false; bool r = true; for (size_t i = 0; i < n; i++) r &= s.as_codes().data().raw()[i] == t[i]; return r; }
static void seen() {
  VP_CHECK(!Ran); Ran = true; VP_CHECK(same(best::app::exe(), Argv[0]));
  auto a = best::app::argv(); VP_CHECK(a.size() == (size_t)Argc - 1);
  for (int i = 1; i < Argc; i++) VP_CHECK(same(a[i - 1], Argv[i]));
}
// ran main, printed nothing, and exited with its status
static void quiet(int code) { VP_CHECK(Ran && code == Want && printed(0) == 0 && printed(1) == 0); VP_REACH(); vp_done(); }
static void fails(int code) { VP_CHECK(code == 128 && printed(0) == 0 && printed(1) > 0); VP_REACH(); vp_done(); }
static void start() { vp_leak_ok(); best::app::start(Argc, Argv); VP_CHECK(false); }
VP_ENTRY(plain) { capture(quiet); arguments(); Want = 0; best::app a = [] { seen(); }; start(); }
VP_ENTRY(status) { capture(quiet); arguments(); Want = Code = any<int>("status"); best::app a = [] { seen(); return Code; }; start(); }
VP_ENTRY(result_ok) { capture(quiet); arguments(); Want = 0; Code = any<int>("v"); best::app a = []() -> best::result<int, int> { seen(); return best::ok(Code); }; start(); }
VP_ENTRY(result_void) { capture(quiet); arguments(); Want = 0; best::app a = []() -> best::result<void, int> { seen(); return best::ok(); }; start(); }
VP_ENTRY(result_err) {
  capture(+[](int code) { VP_CHECK(Ran); fails(code); }); arguments(); Code = (int)pick(2, "v");
  if (any<bool>("void")) { best::app a = []() -> best::result<void, best::str> { seen(); return best::err(best::str("no")); }; start(); }
  best::app a = []() -> best::result<int, int> { seen(); return best::err(Code); }; start();
}
// no arguments at all
VP_ENTRY(empty) {
  capture(quiet); Argc = 0; Argv[0] = nullptr; Want = 0;
  VP_CHECK(best::app::exe().is_empty() && best::app::argv().is_empty());
  best::app a = [] { Ran = true; VP_CHECK(best::app::exe().is_empty() && best::app::argv().is_empty()); }; start();
}
// ---- declarations with flags: parsed first; a failure is printed and main never runs
static bool Word, Flag;
static void ended(int code) {
  // (the parse itself is C34's business; here: exactly one of main and an error report)
  bool help = false; for (int i = 1; i < Argc; i++) help |= !vpcmp(Argv[i], "-h");
  if (Ran) VP_CHECK(code == Want && printed(0) == 0 && printed(1) == 0);
  else if (printed(0)) { VP_CHECK(code == 0 && printed(1) == 0 && help); VP_CHECK(text(0)[printed(0) - 1] == '\n'); }
  else { VP_CHECK(code == 128 && printed(1) > 0); const char* e = "\033[31m"; VP_CHECK(printed(1) > 10 && memcmp(text(1), e, 5) == 0 && memcmp(text(1) + printed(1) - 5, "\033[0m\n", 5) == 0); }
  VP_REACH(); vp_done();
}
static void parsed(opts& o) {
  seen(); bool f = false, w = false; const char* word = "";
  for (int i = 1; i < Argc; i++) { if (!vpcmp(Argv[i], "-f")) f = true; else if (!vpcmp(Argv[i], "-w")) { w = true; VP_CHECK(i + 1 < Argc); word = Argv[++i]; } }
  VP_CHECK(o.flag.has_value() == f && (!f || *o.flag)); (void)w;
  VP_CHECK(o.word.size() == strlen(word) && memcmp(o.word.data(), word, strlen(word)) == 0);
}
static void script() {
  static const char* words[] = {"-f", "-w", "x", "-h", "-q", "-fw"}; Argc = 1 + (int)pick(3, "args"); static char exe[] = "exe"; Argv[0] = exe;
  for (int i = 1; i < Argc; i++) Argv[i] = (char*)words[pick(5, "word")];
  for (int i = 1; i < Argc; i++) if (!vpcmp(Argv[i], "-fw")) vp_assume(i == 1 && Argc == 2);  // an error: its argument is missing
}
VP_ENTRY(flags_void) { capture(ended); script(); Want = 0; best::app a = [](opts& o) { parsed(o); }; start(); }
VP_ENTRY(flags_int) { capture(ended); script(); Want = Code = any<int>("status"); best::app a = [](opts& o) { parsed(o); return Code; }; start(); }
VP_ENTRY(flags_result) { capture(ended); script(); Want = 0; best::app a = [](opts& o) -> best::result<void, int> { parsed(o); return best::ok(); }; start(); }
VP_ENTRY(flags_err) { capture(+[](int code) { if (!Ran) ended(code); fails(code); }); script(); best::app a = [](opts& o) -> best::result<int, int> { parsed(o); return best::err(3); }; start(); }
// ---- misuse
VP_ENTRY(none) { capture(fails); arguments(); start(); }
VP_ENTRY(two) { capture(fails); best::app a = [] { VP_CHECK(false); }; best::app b = [] { VP_CHECK(false); }; VP_CHECK(false); }
VP_ENTRY(twice) { capture(+[](int code) { VP_CHECK(Ran); fails(code); }); arguments(); best::app a = [] { seen(); best::app::start(Argc, Argv); }; start(); }
// the other way out: an error or a piece of help printed by hand, with the caller's status
static int Bad; static bool Fatal;
static void byhand(int code) {
  if (Fatal) VP_CHECK(code == Bad && printed(0) == 0 && printed(1) > 0);
  else VP_CHECK(code == 0 && printed(1) == 0 && printed(0) > 0);
  VP_REACH(); vp_done();
}
VP_ENTRY(by_hand) {
  capture(byhand); vp_leak_ok(); Bad = any<int>("status"); Fatal = any<bool>("fatal");
  best::pretext<best::wtf8> bad[] = {"-q"}, help[] = {"--help"};
  auto r = best::parse_flags<opts>("exe", Fatal ? best::span<const best::pretext<best::wtf8>>(bad) : best::span<const best::pretext<best::wtf8>>(help));
  VP_CHECK(r.err().has_value() && r.err()->is_fatal() == Fatal);
  r.err()->print_and_exit(Bad); VP_CHECK(false);
}
