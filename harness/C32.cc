// Format templates are parsed exactly as documented.
// BOUND: every valid-UTF-8 template of up to 4 bytes (quick) / 5 (thorough), and every completion by up to 3 to 5 (quick) / 6 (thorough) bytes of several openings ({:, {0:, {:!, {:*>, {:., a number around 2^32), against every argument list of up to 2 with arbitrary capabilities
// ORACLE: an independent parser of the documented grammar; templates live in buffers of exactly their size, so any read outside is an error
#include "fmt.h"
#include "utfref.h"
using namespace vp;
using spec = best::format_spec;

struct item { bool hole; u32 ch; u64 idx; bool pass, debug, alt, zero, has_align, has_prec; int align; u32 fill, width, prec; int method; };
static bool same(const item& a, const item& b) {
  if (a.hole != b.hole) return false;
  if (!a.hole) return a.ch == b.ch;
  return a.idx == b.idx && a.pass == b.pass && a.debug == b.debug && a.alt == b.alt && a.zero == b.zero && a.has_align == b.has_align &&
         (!a.has_align || a.align == b.align) && a.fill == b.fill && a.width == b.width && a.has_prec == b.has_prec && (!a.has_prec || a.prec == b.prec) && a.method == b.method;
}
struct items { item v[24]; int n = 0; void lit(u8 c) { item i{}; i.ch = c; v[n++] = i; } };

// The documented grammar.
struct parser {
  const u8* p; size_t n, at = 0; u64 next = 0; items out;
  int peek(size_t k = 0) { return at + k < n ? p[at + k] : -1; }
  bool digit(int c) { return c >= '0' && c <= '9'; }
  bool number(u32* v) {
    if (!digit(peek())) return false;
    u64 x = 0;
    while (digit(peek())) { x = x * 10 + (u64)(p[at] - '0'); if (x > 0xffffffffu) return false; at++; }
    *v = (u32)x; return true;
  }
  static int align_of(int c) { return c == '<' ? spec::Left : c == '^' ? spec::Center : c == '>' ? spec::Right : -1; }
  bool hole() {
    item h{}; h.hole = true; h.fill = ' '; h.method = -1;
    bool explicit_index = false;
    if (digit(peek())) { u32 x; if (!number(&x)) return false; h.idx = x; explicit_index = true; }
    if (peek() == ':') {
      at++;
      if (peek() == '!') { h.pass = h.debug = true; at++; if (!explicit_index && peek() == '}') { at++; h.idx = next++; out.v[out.n++] = h; return true; } }  // {:!} is complete in itself
      if (peek() >= 0 && align_of(peek(1)) >= 0) { h.fill = (u32)peek(); h.has_align = true; h.align = align_of(peek(1)); at += 2; }
      else if (align_of(peek()) >= 0) { h.has_align = true; h.align = align_of(peek()); at++; }
      if (peek() == '#') { h.alt = true; at++; }
      if (peek() == '0') { if (h.has_align) return false; h.zero = true; at++; }
      if (digit(peek())) { if (!number(&h.width) || !h.width) return false; }
      else if (h.has_align || h.zero) return false;
      if (peek() == '.') { at++; if (!number(&h.prec)) return false; h.has_prec = true; }
      int c = peek();
      if ((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z')) { h.method = c; at++; }
      if (peek() == '?') { h.debug = true; at++; }
    }
    if (peek() != '}') return false;
    at++;
    if (!explicit_index) h.idx = next++;
    out.v[out.n++] = h;
    return true;
  }
  bool parse() {
    while (at < n) {
      int c = p[at++];
      if (c == '{') { if (peek() == '{') { at++; out.lit('{'); } else if (!hole()) return false; }
      else if (c == '}') { if (peek() != '}') return false; at++; out.lit('}'); }
      else out.lit((u8)c);
    }
    return true;
  }
};
static item of(size_t idx, const spec& s) {
  item h{}; h.hole = true; h.idx = idx; h.pass = s.pass_through; h.debug = s.debug; h.alt = s.alt; h.zero = s.sign_aware_padding;
  h.has_align = s.alignment.has_value(); if (h.has_align) h.align = *s.alignment;
  h.fill = s.fill.to_int(); h.width = s.width; h.has_prec = s.prec.has_value(); if (h.has_prec) h.prec = *s.prec;
  h.method = s.method.has_value() ? (int)s.method->to_int() : -1;
  return h;
}
static char* opening(const char* s, size_t extra, size_t* n) {
  size_t k = strlen(s); *n = k + pick(extra, "len");
  char* t = (char*)malloc(*n ? *n : 1);
  for (size_t i = 0; i < *n; i++) t[i] = i < k ? s[i] : (char)any<u8>("t");
  if (!*n) { free(t); t = (char*)malloc(0); }
  vp_assume(refvalid8((const u8*)t, *n, false));
  return t;
}
static void parsed(const char* open, size_t extra) {
  size_t n; char* t = opening(open, extra, &n);
  parser want{(const u8*)t, n}; bool good = want.parse();
  items got;
  bool ok = best::format_internal::visit_template<spec>(t, n,
    [&](best::str s) { for (size_t i = 0; i < s.size(); i++) got.lit((u8)s.data()[i]); return true; },
    [&](size_t i, const spec& s) { got.v[got.n++] = of(i, s); return true; });
  VP_CHECK(ok == good);
  if (ok) {
    VP_CHECK(got.n == want.out.n);
    for (int i = 0; i < got.n; i++) VP_CHECK(same(got.v[i], want.out.v[i]));
  }
  free(t);
  VP_REACH();
}
VP_ENTRY(any_template) { parsed("", VPQ(4, 5)); }
VP_ENTRY(text_then) { parsed("a{}b", VPQ(3, 4)); }
VP_ENTRY(options) { parsed("{:", VPQ(5, 6)); }
VP_ENTRY(indexed) { parsed("{0:", VPQ(4, 6)); }
VP_ENTRY(index) { parsed("{1", VPQ(4, 6)); }
VP_ENTRY(forward) { parsed("{:!", VPQ(4, 6)); }
VP_ENTRY(forward_indexed) { parsed("{2:!", VPQ(4, 6)); }
VP_ENTRY(aligned) { parsed("{:*>", VPQ(5, 6)); }
VP_ENTRY(zeroed) { parsed("{:#0", VPQ(5, 6)); }
VP_ENTRY(precise) { parsed("{:7.", VPQ(5, 6)); }
VP_ENTRY(methods) { parsed("{0:<1.1", VPQ(5, 6)); }
VP_ENTRY(after_index) { parsed("{3}{}", VPQ(4, 5)); }
VP_ENTRY(big_index) { parsed("{429496729", VPQ(3, 4)); }
VP_ENTRY(big_width) { parsed("{:429496729", VPQ(3, 4)); }
VP_ENTRY(big_precision) { parsed("{:.429496729", VPQ(3, 4)); }
VP_ENTRY(huge_width) { parsed("{:1844674407370955161", VPQ(2, 3)); }

// A callback's refusal fails the parse.
VP_ENTRY(refusals) {
  size_t n; char* t = opening("x{}", VPQ(3, 4), &n);
  parser want{(const u8*)t, n}; bool good = want.parse();
  int calls = 0, stop = pick(3, "stop"), texts = 0;
  bool ok = best::format_internal::visit_template<spec>(t, n, [&](best::str) { texts++; return true; },
    [&](size_t, const spec&) { return calls++ != stop; });
  int holes = 0; for (int i = 0; i < want.out.n; i++) holes += want.out.v[i].hole;
  VP_CHECK(calls <= stop + 1);
  VP_CHECK(ok == (good && holes <= stop));
  free(t);
  VP_REACH();
}

// Validation also checks every hole against its argument.
static bool only_x(best::rune r) { return r == 'x'; }
static bool all_methods(best::rune) { return true; }
static void validated(const char* open, size_t extra) {
  size_t n; char* t0 = opening(open, extra, &n);
  char* t = (char*)malloc(n + 1); for (size_t i = 0; i < n; i++) t[i] = t0[i]; t[n] = 0; free(t0);
  parser want{(const u8*)t, n}; bool good = want.parse();
  size_t k = pick(2, "args");
  spec::query* q = (spec::query*)malloc(k * sizeof(spec::query)); int m[2] = {};
  for (size_t i = 0; i < k; i++) {
    new (&q[i]) spec::query();
    q[i].requires_debug = any<bool>("debug"); q[i].supports_width = any<bool>("width"); q[i].supports_prec = any<bool>("prec");
    m[i] = pick(2, "method"); q[i].uses_method = nullptr; if (m[i] == 1) q[i].uses_method = only_x; if (m[i] == 2) q[i].uses_method = all_methods;
  }
  for (int i = 0; i < want.out.n && good; i++) {
    const item& h = want.out.v[i];
    if (!h.hole) continue;
    if (h.idx >= k) { good = false; break; }
    const spec::query& r = q[h.idx];
    if (r.requires_debug && !h.debug) good = false;
    if (!r.supports_width && h.width) good = false;
    if (!r.supports_prec && h.has_prec) good = false;
    if (h.method >= 0 && !(m[h.idx] == 2 || (m[h.idx] == 1 && h.method == 'x'))) good = false;
  }
  bool ok = best::format_internal::validate<spec>(best::span<const spec::query>(q, k), best::span<const char>(t, n + 1));
  VP_CHECK(ok == good);
  free(q); free(t);
  VP_REACH();
}
VP_ENTRY(valid) { validated("", VPQ(3, 5)); }
VP_ENTRY(valid_options) { validated("{:", VPQ(3, 5)); }
VP_ENTRY(valid_second) { validated("{}{1:", VPQ(2, 4)); }
VP_ENTRY(valid_index) { validated("{1}{", VPQ(2, 4)); }

// What is rendered: text, escapes and arguments in the template's order, with its options.
struct probe {
  int id;
  friend void BestFmt(auto& fmt, const probe& p) {
    const auto& s = fmt.current_spec();
    fmt.write('<'); fmt.write(best::rune::from_int('0' + p.id).value());
    if (s.debug) fmt.write('?');
    if (s.alt) fmt.write('#');
    if (s.pass_through) fmt.write('!');
    if (s.sign_aware_padding) fmt.write('0');
    for (u32 i = 0; i < s.width; i++) fmt.write('w');
    if (s.prec) for (u32 i = 0; i < *s.prec; i++) fmt.write('p');
    if (s.method) fmt.write(*s.method);
    if (s.alignment) { fmt.write(best::rune::from_int("LCR"[*s.alignment]).value()); fmt.write(s.fill); }
    fmt.write('>');
  }
  constexpr friend void BestFmtQuery(auto& q, probe*) { q.requires_debug = false; q.supports_width = q.supports_prec = true; q.uses_method = [](best::rune) { return true; }; }
};
struct outer {
  probe p;
  friend void BestFmt(auto& fmt, const outer& o) { fmt.format("[{:!}|{}|{:!}|{0:!}]", o.p, o.p, o.p); }
  constexpr friend void BestFmtQuery(auto& q, outer*) { q = q.template of<probe>; }
};
VP_ENTRY(rendering) {
  int x = pick(9, "x"), y = pick(9, "y"); probe a{x}, b{y};
  expect e;
  auto p = [&](int i, const char* s) { e.c('<'); e.c('0' + i); e.s(s); e.c('>'); };
  switch (pick(5, "template")) {
    case 0: e.s("a{b}"); p(x, ""); e.s("-"); p(y, "?"); e.s("!"); e.is(best::format("a{{b}}{}-{:?}!", a, b)); break;
    case 1: p(y, "ww"); p(x, "p"); p(x, ""); p(y, ""); e.is(best::format("{1:2}{0:.1}{}{}", a, b)); break;
    case 2: p(x, "0wwwpx"); p(y, "#wC*"); p(y, "?#wwppZR}"); e.is(best::format("{:03.1x}{:*^#1}{1:}>#2.2Z?}", a, b)); break;
    case 3: p(x, "wR>"); p(y, "wL "); e.s("é"); p(y, "?wL{"); e.is(best::format("{:>>1}{:<1}é{1:{<1?}", a, b)); break;
    case 4: e.s("[<"); e.c('0' + x); e.s("#wwx>|"); p(x, ""); e.s("|<"); e.c('0' + x); e.s("#wwx>|<"); e.c('0' + x); e.s("#wwx>]"); e.is(best::format("{:#2x}", outer{a})); break;
    default: e.s("{}"); e.is(best::format("{{}}", a));
  }
  VP_REACH();
}
