// Help shows everything that is visible, and nothing that is not.
// VP-LINK-CLI
// BOUND: 12 declarations covering every visibility of flags, aliases, groups and subcommands, letters, named, lettered and flattened groups, one- and two-line, missing and arbitrary help texts (up to 4 bytes), every count and name of a positional, present and absent application data; every way of asking for help; executable names of up to 3 (thorough 4) arbitrary bytes
// ORACLE: a model of the help page, laid out as the golden tests have it
#include "best/cli/parser.h"
#include "best/log/wtf.h"
#include "best/text/format.h"
#include "enc.h"
using namespace vp;
using best::cli;
namespace std { inline namespace __1 {
size_t __next_prime(size_t n) { for (;; n++) { bool k = n > 1; for (size_t d = 2; d * d <= n; d++) k &= n % d != 0; if (k) return n; } }
} }
namespace decl {
char Help[5] = "abcd";                      // a help text whose bytes each entry chooses
struct cfg {
  int fv, av, gv, gk, sv, sa, help; bool letter, avset; int pos; int app;
};
// every pair of choices that meet on one line of the page
constexpr cfg All[] = {
  //  fv av gv gk sv sa help letter avset pos app
  {0, 1, 0, 3, 0, 0, 0, true, true, 0, 7}, {1, 1, 1, 2, 1, 1, 1, true, false, 1, 0}, {2, 2, 2, 1, 2, 2, 2, true, false, 2, 1}, {3, 3, 3, 0, 3, 0, 0, true, false, 3, 2},
  {0, 0, 1, 1, 0, 2, 2, false, false, 4, 3}, {1, 2, 0, 0, 1, 0, 2, false, true, 5, 4}, {0, 2, 2, 3, 0, 1, 1, false, true, 0, 5}, {1, 1, 0, 1, 2, 0, 0, true, true, 1, 6},
  {0, 3, 1, 3, 1, 2, 0, true, true, 3, 1}, {0, 0, 0, 2, 2, 1, 0, false, false, 2, 2}, {2, 2, 1, 0, 0, 1, 1, false, true, 4, 0}, {0, 1, 3, 2, 1, 0, 2, true, true, 5, 5},
};
constexpr cfg Of(int k) { return All[k]; }
constexpr cli::visibility vis(int v) { return cli::visibility(v); }
inline constexpr best::str Sym(best::unsafe("ascii"), best::pretext<best::utf8>(best::span<const char>(Help, 4)));
template <int k> struct Grp {
  i8 inner = 0; best::option<bool> plain;
  constexpr friend auto BestReflect(auto& m, Grp*) {
    constexpr cfg c = Of(k);
    return m.infer().with(&Grp::inner, cli::flag{.letter = 'i', .vis = vis(c.sv == 3 ? 0 : c.sv), .arg = "N", .help = "inside"}, cli::alias{"within"})
      .with(&Grp::plain, cli::flag{.help = "plain\nthing"});
  }
};
template <int k> struct Sub {
  best::option<bool> quick; best::str what;
  constexpr friend auto BestReflect(auto& m, Sub*) { return m.infer().with(&Sub::quick, cli::flag{.letter = 'q', .help = "be quick"}).with(&Sub::what, cli::positional{.count = cli::Optional}); }
};
template <int k> struct Top {
  i8 flag = 0; best::option<bool> silent; i8 an_option_with_a_long_name = 0; Grp<k> grp; Sub<k> sub; best::str first; best::vec<best::str> rest;
  constexpr friend auto BestReflect(auto& m, Top*) {
    constexpr cfg c = Of(k);
    constexpr best::rune letter = c.letter ? best::rune('f') : best::rune(), gl = c.gk & 1 ? best::rune('X') : best::rune();
    constexpr best::str help = c.help == 0 ? Sym : c.help == 1 ? best::str("one line") : best::str("two\nlines");
    constexpr best::str gname = c.gk & 2 ? best::str("grp") : best::str("");
    constexpr cli::alias alias{"flog", c.avset ? best::option<cli::visibility>(vis(c.av)) : best::option<cli::visibility>()};
    constexpr cli::positional first{.name = c.pos & 1 ? best::str("file") : best::str(""), .count = c.pos / 2 == 0 ? cli::Optional : c.pos / 2 == 1 ? cli::Required : cli::Repeated};
    return m.infer()
      .with(cli::app{.name = c.app & 1 ? best::str("tool") : best::str(""), .authors = c.app & 2 ? best::str("me") : best::str(""), .about = c.app & 4 ? best::str("what it does") : best::str(""), .version = c.app & 1 ? best::str("2.1") : best::str(""),
        .url = c.app & 4 ? best::str("a.b") : best::str(""), .copyright_year = c.app & 1 ? best::option<uint32_t>(1999) : best::option<uint32_t>(), .license = c.app & 4 ? best::str("MIT") : best::str("")})
      .with(&Top::flag, cli::flag{.letter = letter, .vis = vis(c.fv), .help = help}, alias)
      .with(&Top::silent, cli::flag{})
      .with(&Top::an_option_with_a_long_name, cli::flag{.arg = "N", .help = "long\nlonger"})
      .with(&Top::grp, cli::group{.name = gname, .letter = gl, .vis = vis(c.gv), .help = c.help == 1 ? best::str("") : best::str("a group")})
      .with(&Top::sub, cli::subcommand{.vis = vis(c.sv), .help = "a command", .about = c.sa == 1 ? best::str("more about it") : best::str("")}, cli::alias{"zub", c.sa == 2 ? best::option<cli::visibility>(cli::Invisible) : best::option<cli::visibility>()})
      .with(&Top::first, first);
  }
};
}  // namespace decl
using decl::cfg;
// ---- the model
static char Page[4096]; static size_t Len;
static void put(const char* s, size_t n) { VP_CHECK(Len + n < sizeof Page); memcpy(Page + Len, s, n); Len += n; }
static void put(const char* s) { put(s, strlen(s)); }
static void blank(size_t n) { while (n--) put(" ", 1); }
static void dots(size_t n) { for (size_t i = 0; i < n; i++) put(i == 0 || i == n - 1 || (n - i) % 2 == 1 ? " " : ".", 1); }
static bool Hidden;
static bool vis(int v) { return v == 0 || (Hidden && v == 1); }
static int max(int a, int b) { return a > b ? a : b; }
struct names { const char* s[2]; int v[2]; int n; };
// one flag or group: its letter, its visible names one to a line, and its help text beside and below them
static void line(char letter, const char* prefix, names n, const char* arg, const char* help, size_t hn) {
  size_t at = 0; bool first = true, left = true; size_t start = Len;
  auto next = [&] { size_t e = at; while (e < hn && help[e] != '\n') e++; put(help + at, e - at); if (e < hn) at = e + 1; else left = false; };
  if (hn == 0) help = "<undocumented>", hn = strlen(help);
  if (letter) { char l[] = {' ', ' ', '-', letter, ',', ' ', 0}; put(l); } else blank(6);
  bool any = false; for (int i = 0; i < n.n; i++) any |= vis(n.v[i]);
  if (!any) { Len -= 2; put(" "); put(arg); dots(30 - (Len - start)); next(); put("\n"); }   // nothing but a letter
  for (int i = 0; i < n.n; i++) {
    if (!vis(n.v[i])) continue;
    if (!first) { start = Len; blank(6); }
    put("--"); put(prefix); put(n.s[i]); if (*arg) { put(" "); put(arg); }
    for (int j = i + 1; j < n.n; j++) if (vis(n.v[j])) { put(","); break; }
    size_t used = Len - start;
    if (used <= 28) { if (first) dots(30 - used); else blank(30 - used); if (left) next(); }
    else if (left) { put("\n"); blank(30); next(); }
    put("\n"); first = false;
  }
  while (left) { blank(30); next(); put("\n"); }
}
static void line(char letter, const char* prefix, names n, const char* arg, const char* help) { line(letter, prefix, n, arg, help, strlen(help)); }

enum where { TOP, GRP, SUB };
static char Exe[8]; static size_t ExeN, ExeAt;
static void page(const cfg& c, where w) {
  Len = 0; bool g_name = c.gk & 2, g_letter = c.gk & 1, flat = c.gk == 0;
  int iv = c.sv == 3 ? 0 : c.sv, zv = c.sa == 2 ? 2 : c.sv, av = c.avset ? c.av : c.fv;
  // the summary
  put("Usage: "); put(Exe + ExeAt, ExeN - ExeAt);
  if (w == GRP) { put(g_letter ? " -X" : " --grp"); put(" [SUBOPTION]"); }
  if (w == SUB) put(" sub -hq [OPTIONS] [ARG1]\n");
  else {
    put(" -"); if (g_letter && vis(c.gv)) put("X"); if (c.letter && vis(c.fv)) put("f"); put("h"); if (flat && vis(max(iv, c.gv))) put("i");
    put(" [OPTIONS]");
    bool s = vis(c.sv), z = vis(zv); if (s || z) { put(" ["); if (s) put("sub"); if (s && z) put("|"); if (z) put("zub"); put("]"); }
    const char* n = c.pos & 1 ? "file" : "ARG1"; int k = c.pos / 2;
    put(k == 1 ? " <" : " ["); put(n); put(k == 0 ? "]" : k == 1 ? ">" : "]..."); put(" [ARG2]...\n");
  }
  const char* about = w == SUB ? (c.sa == 1 ? "more about it" : "a command") : w == GRP ? (c.help == 1 ? "" : "a group") : c.app & 4 ? "what it does" : "";
  if (*about) { put(about); put("\n\n"); }
  if (w == TOP && (vis(c.sv) || vis(zv))) {
    put("# Subcommands\n");
    if (vis(c.sv)) { blank(6); put("sub"); dots(21); put("a command\n"); }
    if (vis(zv)) { blank(6); put("zub"); dots(21); put("a command\n"); }
    put("\n");
  }
  put("# Flags\n");
  if (w == TOP) {
    line(0, "", {{"an-option-with-a-long-name"}, {0}, 1}, "N", "long\nlonger");
    const char* h = c.help == 0 ? decl::Help : c.help == 1 ? "one line" : "two\nlines";
    if (vis(c.fv)) line(c.letter ? 'f' : 0, "", {{"flag", "flog"}, {c.fv, av}, 2}, "ARG", h, c.help == 0 ? 4 : strlen(h));
  }
  if (w == SUB) line('q', "", {{"quick"}, {0}, 1}, "", "be quick");
  if (w == GRP || (w == TOP && flat)) {
    int o = w == GRP ? 0 : c.gv;
    if (vis(max(iv, o))) line('i', "", {{"inner", "within"}, {max(iv, o), max(iv, o)}, 2}, "N", "inside");
    if (vis(o)) line(0, "", {{"plain"}, {o}, 1}, "", "plain\nthing");
  }
  if (w == TOP) {
    if (Hidden) line(0, "", {{"silent"}, {0}, 1}, "", "");
    if (!flat && vis(c.gv)) {
      put("\n"); line(g_letter ? 'X' : 0, "", {{"grp"}, {c.gv}, g_name ? 1 : 0}, "FLAG", c.help == 1 ? "" : "a group");
      if (g_name && Hidden && vis(iv)) line(0, "grp.", {{"inner", "within"}, {max(iv, c.gv), max(iv, c.gv)}, 2}, "N", "inside");
      if (g_name && Hidden) line(0, "grp.", {{"plain"}, {c.gv}, 1}, "", "plain\nthing");
    }
  }
  put("\n  -h, --help"); dots(18); put("show usage and exit\n");
  if (Hidden) { put("      --help-hidden"); dots(11); put("show extended usage and exit\n"); }
  if (c.app & 5) { put("\n"); if (c.app & 1) { put("Version: tool v2.1\n"); } if (c.app & 4) put("Website: <a.b>\n"); }
  if (c.app & 2) { put("\n(c) "); if (c.app & 1) put("1999 "); put("me"); put(c.app & 4 ? ", licensed MIT\n" : ", all rights reserved\n"); }
}
template <int k> static best::result<decl::Top<k>, cli::error> run(best::span<const best::pretext<best::wtf8>> v) { return best::parse_flags<decl::Top<k>>(best::pretext<best::wtf8>(best::span<const char>(Exe, ExeN)), v); }
template <int k> static void ask(where w, best::span<const best::pretext<best::wtf8>> v) {
  auto r = run<k>(v); constexpr cfg c = decl::Of(k);
  VP_CHECK(!r.ok().has_value() && !r.err()->is_fatal());
  page(c, w); best::str got = r.err()->message(); 
#ifdef DUMP
  fprintf(stderr, "--want\n%.*s--got\n%.*s--\n", (int)Len, Page, (int)got.size(), got.data());
#endif
  VP_CHECK(got.size() == Len);
  bool same = true; for (size_t i = 0; i < Len; i++) same &= got.data()[i] == Page[i]; VP_CHECK(same); VP_REACH();
}
using arg = best::pretext<best::wtf8>;
template <int k> static void help() {
  constexpr cfg c = decl::Of(k); Hidden = any<bool>("hidden"); int w = (int)pick(2, "where"); arg v[3]; size_t n = 0;
  bool alt = any<bool>("alt");
  if (w == GRP) {
    vp_assume(c.gk != 0 && c.gv != 3);
    if ((c.gk & 2) && (!(c.gk & 1) || any<bool>("long"))) { if (alt) v[n++] = Hidden ? arg("--grp.help-hidden") : arg("--grp.help"); else v[n++] = "--grp", v[n++] = Hidden ? arg("help-hidden") : arg("help"); }
    else if (alt) { vp_assume(!Hidden); v[n++] = "-Xh"; } else v[n++] = "-X", v[n++] = Hidden ? arg("help-hidden") : arg("help");
  } else {
    if (w == SUB) { if (c.pos / 2 == 1) v[n++] = "first"; bool z = any<bool>("alias"); vp_assume(c.sv != 3); v[n++] = z ? arg("zub") : arg("sub"); }
    if (alt) { vp_assume(!Hidden); v[n++] = "-h"; } else v[n++] = Hidden ? arg("--help-hidden") : arg("--help");
  }
  ask<k>(where(w), best::span<const arg>(v, n));
}
template <int k> static void name() {  // the executable's name: what follows the last slash
  ExeN = pick(VPQ(3, 4), "exe"); ExeAt = 0;
  for (size_t i = 0; i < ExeN; i++) { Exe[i] = any<char>("e"); vp_assume(Exe[i] > 0); if (Exe[i] == '/') ExeAt = i + 1; }
  help<k>();
}
template <int k> static void text() {  // any help text
  for (size_t i = 0; i < 4; i++) { decl::Help[i] = any<char>("h"); vp_assume(decl::Help[i] > 0); }
  help<k>();
}
// every name is as active as its visibility says, and is parsed the same whatever the visibility
template <int k> static void active() {
  constexpr cfg c = decl::Of(k); arg v[4]; size_t n = 0; bool ok = true; u8 d = any<u8>("d"); vp_assume(d < 10); char num[2] = {char('0' + d), 0}; int what = (int)pick(6, "what");
  bool gg = c.gk != 0; int av = c.avset ? c.av : c.fv, iv = c.sv == 3 ? 0 : c.sv; arg N(best::span<const char>(num, 1));
  if (c.pos / 2 == 1) v[n++] = "first";
  switch (what) {
    case 0: v[n++] = "--flag"; ok = c.fv != 3; break;
    case 1: v[n++] = "--flog"; ok = av != 3; break;
    case 2: v[n++] = "-f"; ok = c.letter && c.fv != 3; break;
    case 3: v[n++] = "--silent"; break;
    case 4: if (!gg) v[n++] = "--inner"; else if (c.gk & 1) v[n++] = "-Xinner"; else v[n++] = "--grp.inner"; ok = c.gv != 3; break;
    case 5: if (!gg) v[n++] = "--within"; else if (c.gk & 2) v[n++] = "--grp.within"; else v[n++] = "-X", v[n++] = "within"; ok = c.gv != 3; break;
    case 6: v[n++] = "sub"; ok = c.sv != 3; break;
  }
  if (what != 3 && what != 6) v[n++] = N;
  auto r = run<k>(best::span<const arg>(v, n)); (void)iv;
  if (what == 6) {  // a deleted subcommand is just an argument
    VP_CHECK(r.ok().has_value()); VP_REACH(); return;
  }
  VP_CHECK(r.ok().has_value() == ok); if (!ok) { VP_CHECK(r.err()->is_fatal()); VP_REACH(); return; }
  VP_CHECK(r->flag == (what <= 2 ? d : 0) && r->grp.inner == (what == 4 || what == 5 ? d : 0) && r->silent.has_value() == (what == 3)); VP_REACH();
}
#define CASE(K) case K: F(std::integral_constant<int, K>{}); break;
#define OVER(B, ...) do { auto F = [](auto K) { __VA_ARGS__<K()>(); }; switch (B + pick(2, "k")) { CASE(B) CASE(B + 1) CASE(B + 2) } } while (0)
static void exe() { ExeN = 3; memcpy(Exe, "exe", 3); }
VP_ENTRY(help0) { exe(); OVER(0, help); }
VP_ENTRY(help1) { exe(); OVER(3, help); }
VP_ENTRY(help2) { exe(); OVER(6, help); }
VP_ENTRY(help3) { exe(); OVER(9, help); }
VP_ENTRY(active0) { exe(); OVER(0, active); }
VP_ENTRY(active1) { exe(); OVER(3, active); }
VP_ENTRY(active2) { exe(); OVER(6, active); }
VP_ENTRY(active3) { exe(); OVER(9, active); }
VP_ENTRY(exe_name) { name<1>(); }
VP_ENTRY(text_letter) { exe(); text<0>(); }
VP_ENTRY(text_alias) { exe(); text<9>(); }
