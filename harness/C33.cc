// Quoted and debug formatting escape exactly and reversibly.
// BOUND: every rune; every valid string of up to 2 code units (thorough: 3 ASCII), single runes of up to 4 code units and pairs of runes of 5 (thorough: 6) in UTF-8; every width up to 5, precision up to 4, alignment and ASCII fill; containers, sum types, rows, boxes and records of up to 3 elements with arbitrary values, compact and multi-line; every history of 3 / 4 block operations
// ORACLE: the expected output, built by an independent definition of the escapes, the padding and the block layout
#include "best/container/box.h"
#include "best/container/choice.h"
#include "best/container/option.h"
#include "best/container/result.h"
#include "best/container/row.h"
#include "best/container/vec.h"
#include "best/memory/layout.h"
#include "best/meta/reflect.h"
#include "fmt.h"
#include "enc.h"
using namespace vp;
using spec = best::format_spec;

// The escape of a rune; every one starts with a backslash, which is itself escaped, so this can be undone.
static void escape(expect& e, u32 r) {
  switch (r) {
    case '\'': e.s("\\'"); return;
    case '"': e.s("\\\""); return;
    case '\\': e.s("\\\\"); return;
    case 0: e.s("\\0"); return;
    case 7: e.s("\\a"); return;
    case 8: e.s("\\b"); return;
    case 9: e.s("\\t"); return;
    case 10: e.s("\\n"); return;
    case 11: e.s("\\v"); return;
    case 12: e.s("\\f"); return;
    case 13: e.s("\\r"); return;
    case 0x200d: e.s("\\u200D"); return;
  }
  if (r < 0x20 || r == 0x7f) { e.s("\\x"); e.c("0123456789abcdef"[r >> 4]); e.c("0123456789abcdef"[r & 15]); }
  else e.rune(r);
}
static best::rune any_rune() { u32 v = any<u32>("rune"); vp_assume(v < 0xd800 || (v >= 0xe000 && v < 0x110000)); return *best::rune::from_int(v); }
VP_ENTRY(rune_plain) { best::rune r = any_rune(); expect e; e.rune(r.to_int()); e.is(best::format("{}", r)); VP_REACH(); }
VP_ENTRY(rune_debug) { best::rune r = any_rune(); expect e; e.c('\''); escape(e, r.to_int()); e.c('\''); e.is(best::format("{:?}", r)); VP_REACH(); }
VP_ENTRY(rune_quoted) { best::rune r = any_rune(); expect e; e.c('\''); escape(e, r.to_int()); e.c('\''); e.is(best::format("{:q}", r)); VP_REACH(); }
VP_ENTRY(rune_escaped) { best::rune r = any_rune(); expect e; escape(e, r.to_int()); e.is(best::format("{}", r.escaped())); VP_REACH(); }
VP_ENTRY(code_units) {
  char16_t u = any<u16>("u"); vp_assume(!(u >= 0xd800 && u < 0xe000));
  expect e; e.rune(u); e.is(best::format("{:?}", spec_of<char16_t>{spec{}, u}));
  VP_REACH();
}
VP_ENTRY(char32s) {
  char32_t u = any<u32>("u"); expect e;
  if (u >= 0xd800 && u < 0xe000) vp_assume(false);
  if (u < 0x110000) e.rune(u);
  else { e.s("<U+"); char t[8]; int k = 0; for (u32 v = u; v; v /= 16) t[k++] = "0123456789ABCDEF"[v % 16]; while (k) e.c(t[--k]); e.c('>'); }
  e.is(best::format("{:?}", spec_of<char32_t>{spec{}, u}));
  VP_REACH();
}

// Strings.
template <class X> static void quoted(size_t lo, size_t hi) {
  vp::str<X> s(lo + pick(hi - lo, "n")); if (lo) vp_assume(s.d.k <= 1 + (s.b.n > 4));
  bool q = any<bool>("q"); spec sp; sp.debug = !q; if (q) sp.method = best::rune('q');
  if (any<bool>("precise")) sp.prec = any<u32>("prec"); sp.width = any<u32>("width");  // a quoted string is never cut short
  expect e; e.c('"'); for (size_t i = 0; i < s.d.k; i++) escape(e, s.d.r[i]); e.c('"');
  auto t = s.text(); e.is(best::format("{:?}", spec_of<decltype(t)>{sp, t}));
  VP_REACH();
}
VP_ENTRY(quoted_utf8) { quoted<U8>(0, 2); }
VP_ENTRY(quoted_utf16) { quoted<U16>(0, 2); }
VP_ENTRY(quoted_utf32) { quoted<U32>(0, 2); }
VP_ENTRY(quoted_latin1) { quoted<L1>(0, 2); }
VP_ENTRY(quoted_ascii) { quoted<AS>(0, VPQ(2, 3)); }
VP_ENTRY(quoted_long_runes) { quoted<U8>(3, VPQ(5, 6)); }
VP_ENTRY(quoted_surrogates) { quoted<U16>(2, 3); }

static void padded(expect& e, const runes_of& d, const spec& s) {
  size_t k = d.k; if (s.prec && *s.prec < k) k = *s.prec;
  size_t pad = s.width > k ? s.width - k : 0, l = 0, r = pad;
  if (s.alignment == spec::Right) { l = pad; r = 0; }
  if (s.alignment == spec::Center) { l = pad / 2; r = pad - l; }
  for (size_t i = 0; i < l; i++) e.rune(s.fill.to_int());
  for (size_t i = 0; i < k; i++) e.rune(d.r[i]);
  for (size_t i = 0; i < r; i++) e.rune(s.fill.to_int());
}
template <class X> static void laid_out(size_t n) {
  vp::str<X> s(pick(n, "n")); spec sp = arb_layout(VPQ(4, 5));
  size_t p = pick(VPQ(3, 4), "prec"); if (p) sp.prec = (u32)(p - 1);
  expect e; padded(e, s.d, sp);
  if (any<bool>("text")) { auto t = s.text(); e.is(best::format("{:?}", spec_of<decltype(t)>{sp, t})); }
  else { auto t = s.pre(); e.is(best::format("{:?}", spec_of<decltype(t)>{sp, t})); }
  VP_REACH();
}
VP_ENTRY(padded_utf8) { laid_out<U8>(VPQ(2, 4)); }
VP_ENTRY(padded_utf16) { laid_out<U16>(VPQ(1, 2)); }
VP_ENTRY(padded_latin1) { laid_out<L1>(2); }
VP_ENTRY(wide_fill) {
  vp::str<U8> s(pick(3, "n")); spec sp; sp.width = pick(5, "width"); sp.alignment = spec::Center; sp.fill = any_rune();
  expect e; padded(e, s.d, sp); auto t = s.text(); e.is(best::format("{:?}", spec_of<best::str>{sp, t})); VP_REACH();
}
VP_ENTRY(c_strings) {
  size_t n = pick(VPQ(2, 4), "n"); buf<char> b(n + 1, "s"); b[n] = 0;
  size_t k = 0; while (b[k]) k++;
  runes_of d = decode_all<U8>(b.p, k); vp_assume(d.valid);
  const char* c = b.p; expect e;
  bool dbg = any<bool>("debug"); spec sp; sp.debug = dbg;
  if (dbg) e.c('"'); for (size_t i = 0; i < d.k; i++) if (dbg) escape(e, d.r[i]); else e.rune(d.r[i]); if (dbg) e.c('"');
  e.is(best::format("{:?}", spec_of<const char*>{sp, c}));
  VP_REACH();
}
VP_ENTRY(buffers) {
  vp::str<U8> s(pick(VPQ(1, 3), "n")); best::strbuf o(s.text()); expect e;
  for (size_t i = 0; i < s.d.k; i++) e.rune(s.d.r[i]); e.c('|'); e.c('"'); for (size_t i = 0; i < s.d.k; i++) escape(e, s.d.r[i]); e.c('"'); e.c('|'); e.s("x");
  e.is(best::format("{}|{:?}|{}", o, o, "x"));
  best::strbuf out("pre"); best::format(out, "-{}", o);
  expect f; f.s("pre-"); for (size_t i = 0; i < s.d.k; i++) f.rune(s.d.r[i]); f.is(out);
  VP_REACH();
}

// Blocks: compact, or one entry per line, indented, with a trailing comma.
struct model : expect {
  bool alt; int depth = 0;
  void nl() { c('\n'); for (int i = 0; i < depth; i++) s("  "); }
  struct blk { int n = 0; bool lines; };
  blk open(const char* o) { s(o); blk b; b.lines = alt; if (alt) depth++; return b; }
  void sep(blk& b) { if (b.n) c(','); if (b.lines) nl(); else if (b.n) c(' '); b.n++; }
  void close(blk& b, const char* t) { if (b.lines) { if (b.n) c(','); depth--; if (b.n) nl(); } s(t); }
};
template <class T> static best::strbuf show(bool alt, bool debug, const T& v) { spec s; s.alt = alt; s.debug = debug; return best::format("{:?}", spec_of<T>{s, v}); }
// As an element: ints print as numerals, strings quoted (debug) or plain.
static void put(model& m, bool debug, const runes_of& d) { if (debug) m.c('"'); for (size_t i = 0; i < d.k; i++) if (debug) escape(m, d.r[i]); else m.rune(d.r[i]); if (debug) m.c('"'); }

VP_ENTRY(lists) {
  size_t n = pick(3, "n"); best::vec<u8> v; for (size_t i = 0; i < n; i++) v.push(any<u8>("x"));
  model m; m.alt = any<bool>("alt"); auto b = m.open("["); for (u8 x : v) { m.sep(b); m.num(x); } m.close(b, "]");
  m.is(show(m.alt, any<bool>("debug"), v));
  if (!m.alt) { m.is(show(false, true, v.as_span())); }
  VP_REACH();
}
VP_ENTRY(nested_lists) {
  best::vec<best::vec<u8>> v; size_t n = pick(2, "n"), k[2]; for (size_t i = 0; i < n; i++) { k[i] = pick(2, "k"); best::vec<u8> w; for (size_t j = 0; j < k[i]; j++) w.push((u8)(any<bool>("x") ? 7 : 250)); v.push(w); }
  model m; m.alt = any<bool>("alt"); auto b = m.open("[");
  for (size_t i = 0; i < n; i++) { m.sep(b); auto c = m.open("["); for (u8 x : v[i]) { m.sep(c); m.num(x); } m.close(c, "]"); }
  m.close(b, "]"); m.is(show(m.alt, true, v));
  VP_REACH();
}
VP_ENTRY(string_lists) {
  vp::str<U8> s(pick(2, "n")); best::vec<best::str> v; v.push(s.text()); v.push(best::str("z"));
  bool debug = any<bool>("debug"); model m; m.alt = any<bool>("alt"); vp_assume(debug || !m.alt);
  auto b = m.open("["); m.sep(b); put(m, debug, s.d); m.sep(b); if (debug) m.s("\"z\""); else m.c('z'); m.close(b, "]");
  m.is(show(m.alt, debug, v));
  VP_REACH();
}
// The caller's options reach the elements.
VP_ENTRY(forwarded) {
  best::vec<u8> v; u8 x = any<u8>("x"), y = any<u8>("y"); v.push(x); v.push(y);
  auto hex2 = [](expect& e, u8 a) { e.c("0123456789abcdef"[a >> 4]); e.c("0123456789abcdef"[a & 15]); };
  expect e; e.c('['); hex2(e, x); e.s(", "); hex2(e, y); e.c(']'); e.is(best::format("{:02x}", v));
  best::option<u8> o = x; expect f; f.s("option("); hex2(f, x); f.c(')'); f.is(best::format("{:02x?}", o));
  best::box<u8> bx(best::in_place, y); expect g; hex2(g, y); g.is(best::format("{:02x}", bx));
  VP_REACH();
}
// Sum types say which alternative they hold, and its value.
VP_ENTRY(options) {
  vp::str<U8> s(pick(2, "n")); bool has = any<bool>("has"), debug = any<bool>("debug");
  best::option<best::str> o; if (has) o = s.text();
  model m; if (!has) m.s("none"); else { m.s("option("); put(m, debug, s.d); m.c(')'); }
  m.is(show(false, debug, o));
  u8 x = any<u8>("x"); best::option<u8> p; if (has) p = x; model k; if (!has) k.s("none"); else { k.s("option("); k.num(x); k.c(')'); } k.is(best::format("{:?}", p));
  best::option<void> u; if (has) u = best::option<void>(best::VoidOption); model q; q.s(has ? "option(void)" : "none"); q.is(best::format("{:?}", u));
  best::option<best::option<u8>> nn; if (has) nn = best::option<best::option<u8>>(best::option<u8>());
  model w; w.s(has ? "option(none)" : "none"); w.is(best::format("{:?}", nn));
  VP_REACH();
}
VP_ENTRY(results) {
  bool ok = any<bool>("ok"); u8 x = any<u8>("x"); vp::str<U8> s(pick(2, "n"));
  using R = best::result<u8, best::str>; R r = ok ? R(best::ok(x)) : R(best::err(s.text()));
  model m; if (ok) { m.s("ok("); m.num(x); } else { m.s("err("); put(m, true, s.d); } m.c(')'); m.is(best::format("{:?}", r));
  using V = best::result<void, u8>; V v = ok ? V(best::ok()) : V(best::err(x));
  model k; if (ok) k.s("ok(void"); else { k.s("err("); k.num(x); } k.c(')'); k.is(best::format("{:?}", v));
  VP_REACH();
}
VP_ENTRY(choices) {
  int i = pick(2, "i"); u8 x = any<u8>("x"); vp::str<U8> s(pick(2, "n"));
  using C = best::choice<u8, best::str, void>;
  C c = i == 0 ? C(best::index<0>, x) : i == 1 ? C(best::index<1>, s.text()) : C(best::index<2>);
  model m; m.s("choice<"); m.c('0' + i); m.s(">("); if (i == 0) m.num(x); else if (i == 1) put(m, true, s.d); else m.s("void"); m.c(')');
  m.is(best::format("{:?}", c));
  VP_REACH();
}
VP_ENTRY(rows) {
  u8 x = any<u8>("x"); vp::str<U8> s(pick(VPQ(1, 2), "n")); model m; m.alt = any<bool>("alt");
  best::row<u8, best::str, best::row<>> r(x, s.text(), best::row<>());
  auto b = m.open("("); m.sep(b); m.num(x); m.sep(b); put(m, true, s.d); m.sep(b); auto c = m.open("("); m.close(c, ")"); m.close(b, ")");
  m.is(show(m.alt, true, r));
  VP_REACH();
}
struct point { int x; best::str name; best::vec<u8> v;
  constexpr friend auto BestReflect(auto& m, point*) { return m.infer(); } };
enum class colour { red, green = 5 };
constexpr auto BestReflect(auto& m, colour*) { return m.infer(); }
VP_ENTRY(records) {
  u8 x = any<u8>("x"), k = pick(2, "k"); vp::str<U8> s(pick(1, "n")); model m; m.alt = any<bool>("alt");
  point p{x, s.text(), {}}; for (int i = 0; i < k; i++) p.v.push(i);
  auto b = m.open("point {"); m.sep(b); m.s("x: "); m.num(x); m.sep(b); m.s("name: "); put(m, true, s.d);
  m.sep(b); m.s("v: "); auto c = m.open("["); for (int i = 0; i < k; i++) { m.sep(c); m.num(i); } m.close(c, "]"); m.close(b, "}");
  m.is(show(m.alt, true, p));
  VP_REACH();
}
VP_ENTRY(enums) {
  int v = any<u8>("v"); expect e;
  if (v == 0) e.s("colour::red"); else if (v == 5) e.s("colour::green"); else { e.s("colour("); e.num(v); e.c(')'); }
  e.is(best::format("{:?}", (colour)v));
  VP_REACH();
}
VP_ENTRY(layouts_ranges_orders) {
  u8 n = any<u8>("n"); best::layout l = best::layout::array<u16>(n);
  expect e; e.s("{size: "); e.num(2u * n); e.s(", align: 2}"); e.is(best::format("{:?}", l));
  u8 a = any<u8>("a"), z = any<u8>("z"); best::bounds r{.start = a}; int kind = pick(3, "kind");
  if (kind == 1) r.end = z; if (kind == 2) r.including_end = z; if (kind == 3) r.count = z;
  expect f; f.c('{'); if (a) { f.s(".start = "); f.num(a); } if (kind) { if (a) f.s(", "); f.s(kind == 1 ? ".end = " : kind == 2 ? ".including_end = " : ".count = "); f.num(z); } f.c('}');
  f.is(best::format("{:?}", r));
  best::partial_ord o = a < z ? best::partial_ord::less : a > z ? best::partial_ord::greater : best::partial_ord::equivalent;
  if (kind == 3) o = best::partial_ord::unordered;
  expect g; g.s(kind == 3 ? "Unordered" : a < z ? "Less" : a > z ? "Greater" : "Equal"); g.is(best::format("{:?}", o));
  VP_REACH();
}
VP_ENTRY(pointers) {
  u8 hi = any<u8>("hi"); unsigned long a = ((unsigned long)hi << 12) | 0x40; expect e; e.s("0x"); e.hex(a);
  e.is(best::format("{:p}", (int*)a)); e.is(best::format("{:?}", best::ptr<int>((int*)a)));
  expect n; n.s("nullptr"); n.is(best::format("{:?}", (int*)nullptr));
  VP_REACH();
}

// Text inside an indented block: each non-empty line is indented.
struct inside { best::str s; bool rune;
  friend void BestFmt(auto& fmt, const inside& x) {
    auto l = fmt.list();
    l.entry(spec{}, x.s);
  } };
VP_ENTRY(multi_line) {
  size_t n = pick(VPQ(3, 4), "n"); buf<char> b(n, "s"); for (size_t i = 0; i < n; i++) vp_assume(b[i] == '\n' || b[i] == 'a' || b[i] == 'b');
  best::str s(best::unsafe("ascii"), best::span<const char>(b.p, n));
  expect e; e.s("[\n"); bool bol = true;
  for (size_t i = 0; i < n; i++) { if (b[i] == '\n') bol = true; else if (bol) { e.s("  "); bol = false; } e.c(b[i]); }
  if (bol) e.s("  "); e.s(",\n]");
  e.is(best::format("{:#?}", inside{s, false}));
  VP_REACH();
}

// Every history of block operations.
struct script { script() {} int kind; int n; int op[4]; int size; bool title;
  friend void BestFmt(auto& fmt, const script& x) {
    {
      auto b = x.kind == 0 ? fmt.list(x.title ? best::str("T") : best::str("")) : x.kind == 1 ? fmt.tuple(x.title ? best::str("T") : best::str("")) : fmt.record(x.title ? best::str("T") : best::str(""));
      if (x.size) b.advise_size(x.size);
      for (int i = 0; i < x.n; i++) switch (x.op[i]) {
        case 0: b.entry(1); break;
        case 1: b.field("k", 2); break;
        case 2: b.pair('c', best::str("v")); break;
        case 3: b.finish(); break;
        case 4: b.entry(spec{.width = 3}, 4); break;
        case 5: b.pair(spec{}, best::str("q"), spec{.width = 2}, 6); break;
        default: b.field("w", spec{.alt = true, .method = best::rune('x')}, 7);
      }
    }
    fmt.write("$");
  } };
VP_ENTRY(blocks) {
  script x; x.kind = pick(2, "kind"); x.n = pick(VPQ(3, 4), "n"); x.title = any<bool>("title"); x.size = pick(2, "size");
  model m; m.alt = any<bool>("alt"); bool fin = false;
  if (x.title) m.s("T ");
  auto b = m.open(x.kind == 0 ? "[" : x.kind == 1 ? "(" : "{"); const char* end = x.kind == 0 ? "]" : x.kind == 1 ? ")" : "}";
  if (x.size == 1 && b.lines) { b.lines = false; m.depth--; }
  for (int i = 0; i < x.n; i++) {
    x.op[i] = pick(6, "op"); if (fin) continue;
    if (x.op[i] == 3) { m.close(b, end); fin = true; continue; }
    m.sep(b);
    m.s(x.op[i] == 0 ? "1" : x.op[i] == 1 ? "k: 2" : x.op[i] == 2 ? "99: \"v\"" : x.op[i] == 4 ? "  4" : x.op[i] == 5 ? "q:  6" : "w: 0x7");
  }
  if (!fin) m.close(b, end);
  m.c('$');
  m.is(show(m.alt, true, x));
  VP_REACH();
}
// Types without a formatting implementation print as bytes.
class opaque { [[maybe_unused]] u8 a, b; public: opaque(u8 x, u8 y) : a(x), b(y) {} };
VP_ENTRY(unprintable) {
  u8 a = any<u8>("a"), b = any<u8>("b"); opaque o{a, b}; expect e; e.s("unprintable 2-byte value: `");
  for (u8 x : {a, b}) { e.c("0123456789abcdef"[x >> 4]); e.c("0123456789abcdef"[x & 15]); }
  e.c('`'); e.is(best::format("{:?}", best::make_formattable(o)));
  VP_REACH();
}
