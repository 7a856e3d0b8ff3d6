// Command-line parsing assigns every argument as declared.
// VP-LINK-CLI VP-FORK-INDEX
// BOUND: a representative declaration with optional, counted, repeated, aliased, disabled, flattened, grouped and nested-grouped flags, a subcommand with required parts, and optional and repeated positionals; every argument vector of the shapes in the entries: one argument of up to 3-5 (thorough 4-6) bytes over the bytes that mean something to the declaration, or of up to 2 (thorough 3) arbitrary bytes, bare or as a value; two and three arguments of a flag, group or subcommand and up to 4 (thorough 5) symbolic bytes
// ORACLE: an independent parser for this declaration, giving success, usage or failure, and the value of every field
#include "best/cli/parser.h"
#include "best/log/wtf.h"
#include "best/text/format.h"
#include "enc.h"
using namespace vp;
using best::cli;
// What libc++ keeps in its shared library.
namespace std { inline namespace __1 {
size_t __next_prime(size_t n) { for (;; n++) { bool k = n > 1; for (size_t d = 2; d * d <= n; d++) k &= n % d != 0; if (k) return n; } }
} }
namespace decl {
struct Deep {
  i8 vv = 0;
  constexpr friend auto BestReflect(auto& m, Deep*) { return m.infer().with(&Deep::vv, cli::flag{.letter = 'v'}); }
};
struct Grp {
  i8 x2 = 0; best::option<bool> yy; Deep deep;
  constexpr friend auto BestReflect(auto& m, Grp*) {
    return m.infer().with(&Grp::x2, cli::flag{.letter = 'x'}).with(&Grp::yy, cli::flag{.letter = 'y'}).with(&Grp::deep, cli::group{.name = "d", .letter = 'D'});
  }
};
struct Flat {
  i8 fz = 0;
  constexpr friend auto BestReflect(auto& m, Flat*) { return m.infer().with(&Flat::fz, cli::flag{.letter = 'z', .count = cli::Repeated}); }
};
struct Sub {
  best::option<bool> qq; i8 rr = 0; best::str pos;
  constexpr friend auto BestReflect(auto& m, Sub*) {
    return m.infer().with(&Sub::qq, cli::flag{.letter = 'q'}).with(&Sub::rr, cli::flag{.letter = 'r', .count = cli::Required}).with(&Sub::pos, cli::positional{.count = cli::Required});
  }
};
struct Top {
  best::option<bool> aa, bc; i8 nn = 0; best::vec<best::str> list; Grp grp; Flat flat; Sub sub; best::option<bool> gone; best::str first; best::vec<best::str> rest;
  constexpr friend auto BestReflect(auto& m, Top*) {
    return m.infer()
      .with(&Top::aa, cli::flag{.letter = 'a'})
      .with(&Top::bc, cli::flag{.name = "b_c", .letter = 'b', .count = cli::Repeated})
      .with(&Top::nn, cli::flag{.letter = 'n'}, cli::alias{"m"})
      .with(&Top::list, cli::flag{.name = "l"})
      .with(&Top::grp, cli::group{.name = "g", .letter = 'X'})
      .with(&Top::flat, cli::group{})
      .with(&Top::gone, cli::flag{.letter = 'k', .vis = cli::Delete})
      .with(&Top::sub, cli::subcommand{.name = "s_u"}, cli::alias{"t"});
  }
};
}  // namespace decl
// The model.
struct tok {
  const char* p; size_t n;
  tok from(size_t i) const { return {p + i, n - i}; }
  char norm(size_t i) const { return p[i] == '_' ? '-' : p[i]; }
  bool is(const char* s) const { size_t k = strlen(s); if (k != n) return false; bool r = true; for (size_t i = 0; i < n; i++) r &= norm(i) == s[i]; return r; }
  bool same(const char* s) const { size_t k = strlen(s); if (k != n) return false; bool r = true; for (size_t i = 0; i < n; i++) r &= p[i] == s[i]; return r; }
  best::pretext<best::wtf8> text() const { return best::pretext<best::wtf8>(best::span<const char>(p, n)); }
};
enum level { TOP, GRP, DEEP, SUB };
enum kind { NONE, FLAG, GROUP, HELP };
enum flag { AA, BC, NN, LI, X2, YY, VV, FZ, QQ, RR, FLAGS };
struct item { kind k = NONE; int id = 0; bool letter = false; };
static bool wants_arg(int f) { return !(f == AA || f == BC || f == YY || f == QQ); }
static bool repeats(int f) { return f == BC || f == LI || f == FZ; }
static item find(int lv, tok t) {
  if (t.is("h")) return {HELP, 0, true};
  if (t.is("help") || t.is("help-hidden")) return {HELP};
  switch (lv) {
    case TOP:
      if (t.is("a")) return {FLAG, AA, true};
      if (t.is("aa")) return {FLAG, AA};
      if (t.is("b")) return {FLAG, BC, true};
      if (t.is("b-c")) return {FLAG, BC};
      if (t.is("n")) return {FLAG, NN, true};
      if (t.is("nn") || t.is("m")) return {FLAG, NN};
      if (t.is("l")) return {FLAG, LI};
      if (t.is("z")) return {FLAG, FZ, true};
      if (t.is("fz")) return {FLAG, FZ};
      if (t.is("X")) return {GROUP, GRP, true};
      if (t.is("g")) return {GROUP, GRP};
      if (t.n > 2 && (t.p[0] == 'X' || t.p[0] == 'g') && t.p[1] == '.') return find(GRP, t.from(2));
      if (t.n > 1 && t.p[0] == 'X') return find(GRP, t.from(1));
      break;
    case GRP:
      if (t.is("x")) return {FLAG, X2, true};
      if (t.is("x2")) return {FLAG, X2};
      if (t.is("y")) return {FLAG, YY, true};
      if (t.is("yy")) return {FLAG, YY};
      if (t.is("D")) return {GROUP, DEEP, true};
      if (t.is("d")) return {GROUP, DEEP};
      if (t.n > 2 && (t.p[0] == 'D' || t.p[0] == 'd') && t.p[1] == '.') return find(DEEP, t.from(2));
      if (t.n > 1 && t.p[0] == 'D') return find(DEEP, t.from(1));
      break;
    case DEEP:
      if (t.is("v")) return {FLAG, VV, true};
      if (t.is("vv")) return {FLAG, VV};
      break;
    case SUB:
      if (t.is("q")) return {FLAG, QQ, true};
      if (t.is("qq")) return {FLAG, QQ};
      if (t.is("r")) return {FLAG, RR, true};
      if (t.is("rr")) return {FLAG, RR};
      break;
  }
  return {};
}
enum verdict { OK, USAGE, FATAL };
struct model {
  int b[FLAGS] = {}; i8 n[FLAGS] = {};          // booleans: 0 unset, 1 false, 2 true
  tok list[6], rest[6]; size_t lists = 0, rests = 0; tok first{nullptr, 0}, pos{nullptr, 0};
  bool seen[FLAGS] = {};
  int lv = TOP; size_t next = 0;
  static bool utf8(tok t) { return decode_all<U8>(t.p, t.n).valid; }
  bool set(int f, tok a) {
    if (f == LI) { if (!utf8(a)) return false; list[lists++] = a; return true; }
    if (wants_arg(f)) { auto v = best::atoi_with_prefix<i8>(a.text()); if (!v) return false; n[f] = *v; return true; }
    if (a.n && a.p[0] >= '0' && a.p[0] <= '9') {
      auto v = best::atoi_with_prefix<u8>(a.text()); if (!v || *v > 1) return false;
      b[f] = *v ? 2 : 1; return true;
    }
    if (!a.n || a.same("true") || a.same("t") || a.same("yes") || a.same("y") || a.same("on")) { b[f] = 2; return true; }
    if (a.same("false") || a.same("f") || a.same("no") || a.same("n") || a.same("off")) { b[f] = 1; return true; }
    return false;
  }
  static bool split(tok s, tok& name, tok& arg) {
    for (size_t i = 0; i < s.n; i++) if (s.p[i] == '=') { name = {s.p, i}; arg = s.from(i + 1); return true; }
    name = s; return false;
  }
  bool first_use(int f) { bool k = !seen[f] || repeats(f); seen[f] = true; return k; }
  verdict run(const tok* v, size_t c) {
    bool done = false; size_t i = 0;
    while (i < c) {
      tok s = v[i++];
      if (!done) {
        if (s.same("--")) { done = true; continue; }
        if (s.n > 1 && s.p[0] == '-') {
          tok name, arg{nullptr, 0}; bool has = split(s, name, arg), dashes = s.p[1] == '-', used = false; int cur = lv;
          name = name.from(dashes ? 2 : 1);
          auto enter = [&](int g) { if (has || i >= c) return false; has = split(v[i++], name, arg); cur = g; return true; };
          if (!dashes) while (name.n) {
            item e = find(cur, {name.p, 1});
            if (e.k == NONE || !e.letter) break;
            if (e.k == GROUP) {
              if (name.n == 1) { if (!enter(e.id)) return FATAL; break; }
              cur = e.id; name = name.from(1); continue;
            }
            if (e.k == HELP) return USAGE;
            if (wants_arg(e.id)) break;
            if (!first_use(e.id)) return FATAL;
            if (name.n == 1) { if (!set(e.id, has ? arg : tok{nullptr, 0})) return FATAL; used = true; break; }
            set(e.id, {nullptr, 0}); name = name.from(1);
          }
          while (!used) {
            item e = find(cur, name);
            if (e.k == NONE) return FATAL;
            if (e.k == HELP) return USAGE;
            if (e.k == GROUP) { if (!enter(e.id)) return FATAL; continue; }
            if (!first_use(e.id)) return FATAL;
            if (!has && wants_arg(e.id)) { if (i >= c) return FATAL; arg = v[i++]; has = true; }
            if (!set(e.id, has ? arg : tok{nullptr, 0})) return FATAL;
            used = true;
          }
          continue;
        }
      }
      if (lv == TOP && (s.is("s-u") || s.is("t"))) { lv = SUB; next = 0; continue; }
      if (lv == TOP) { if (!utf8(s)) return FATAL; if (next++ == 0) first = s; else rest[rests++] = s; }
      else { if (next++ || !utf8(s)) return FATAL; pos = s; }
    }
    if (lv == SUB && (next == 0 || !seen[RR])) return FATAL;
    return OK;
  }
};
static void same(const best::str& s, tok t) {
  VP_CHECK(s.size() == t.n);
  for (size_t i = 0; i < t.n; i++) VP_CHECK(s.data()[i] == t.p[i]);
}
static void same(const best::option<bool>& o, int b) { VP_CHECK(o.has_value() == (b != 0)); if (o) VP_CHECK(*o == (b == 2)); }
template <size_t k> struct args {
  tok t[k + 1]; best::pretext<best::wtf8> v[k + 1]; size_t c = 0;
  void add(tok s) { t[c] = s; v[c++] = s.text(); }
  void run() {
    model m; verdict want = m.run(t, c);
    auto r = best::parse_flags<decl::Top>("exe", best::span<const best::pretext<best::wtf8>>(v, c));
    VP_CHECK(r.is_ok() == (want == OK));
    if (!r) { VP_CHECK(r.err()->is_fatal() == (want == FATAL)); VP_CHECK(!r.err()->message().is_empty()); VP_REACH(); return; }
    const decl::Top& o = *r.ok();
    same(o.aa, m.b[AA]); same(o.bc, m.b[BC]); same(o.grp.yy, m.b[YY]); same(o.sub.qq, m.b[QQ]); VP_CHECK(!o.gone.has_value());
    VP_CHECK(o.nn == m.n[NN] && o.grp.x2 == m.n[X2] && o.grp.deep.vv == m.n[VV] && o.flat.fz == m.n[FZ] && o.sub.rr == m.n[RR]);
    VP_CHECK(o.list.size() == m.lists && o.rest.size() == m.rests);
    for (size_t i = 0; i < m.lists; i++) same(o.list[i], m.list[i]);
    for (size_t i = 0; i < m.rests; i++) same(o.rest[i], m.rest[i]);
    same(o.first, m.first); same(o.sub.pos, m.pos);
    VP_REACH();
  }
};
// Only bytes of `set`.
static void among(buf<char>& b, const char* set) {
  for (size_t i = 0; i < b.n; i++) { bool k = false; for (const char* p = set; *p; p++) k |= b[i] == *p; vp_assume(k); }
}
// One argument: `pre`, and then n bytes of `set` (any bytes if null).
struct arg : buf<char> {
  arg(const char* pre, size_t n, const char* set, const char* name) : buf<char>(strlen(pre) + n) {
    size_t k = strlen(pre); for (size_t i = 0; i < k; i++) p[i] = pre[i];
    buf<char> b(n, name); if (set) among(b, set);
    for (size_t i = 0; i < n; i++) p[k + i] = b[i];
  }
  operator tok() const { return {p, n}; }
};
static void one(const char* pre, size_t n, const char* set) { arg a(pre, pick(n, "len"), set, "arg"); args<1> v; v.add(a); v.run(); }
static void two(const char* pre, size_t n, const char* set, const char* pre2, size_t n2, const char* set2) {
  arg a(pre, pick(n, "len"), set, "arg"), b(pre2, pick(n2, "len2"), set2, "arg2"); args<2> v; v.add(a); v.add(b); v.run();
}
static void three(const char* pre, size_t n, const char* set, const char* pre2, size_t n2, const char* set2, const char* pre3, size_t n3, const char* set3) {
  arg a(pre, n, set, "arg"), b(pre2, pick(n2, "len2"), set2, "arg2"), c(pre3, pick(n3, "len3"), set3, "arg3"); args<3> v; v.add(a); v.add(b); v.add(c); v.run();
}
static const char *all = "-=abnmlgXxyDvdzkhfstu_.qr05T", *few = "-=abnX0t";
VP_ENTRY(none) { args<0> a; a.run(); }
// One argument, over the bytes that mean something to the declaration, or any bytes.
VP_ENTRY(word) { one("", VPQ(3, 4), all); }
VP_ENTRY(letters) { one("-", VPQ(2, 3), all); }
VP_ENTRY(letters3) { one("-", VPQ(3, 4), "=abXDyvxn"); }
VP_ENTRY(name) { one("--", VPQ(2, 3), all); }
VP_ENTRY(name3) { one("--b", VPQ(2, 3), "-_c=n"); }
VP_ENTRY(grouped) { one("--g.", VPQ(3, 4), "dDhvy=.t"); }
VP_ENTRY(any_word) { one("", VPQ(2, 3), nullptr); }
VP_ENTRY(any_letters) { one("-", 2, nullptr); }
VP_ENTRY(any_value) { one("-n=", VPQ(2, 3), nullptr); }
VP_ENTRY(any_item) { one("--l=", VPQ(2, 3), nullptr); }
VP_ENTRY(any_bool) { one("--aa=", VPQ(3, 4), "tfyesno01x"); }
// Two arguments.
VP_ENTRY(flag_value) { two("-", 2, "abnmlXxz=", "", 2, "-05x=y"); }
VP_ENTRY(name_value) { two("--", 2, "anmlfzgX=", "", 2, "-05x=y"); }
VP_ENTRY(words) { two("", 1, few, "", VPQ(1, 2), few); }
VP_ENTRY(dashes) { two("--", 0, few, "", VPQ(2, 3), few); }
VP_ENTRY(sub_flags) { two("s_u", 0, few, "-", VPQ(2, 3), "qrah-=1"); }
VP_ENTRY(repeat) { two("-", 1, "abnzlX", "-", 2, "abnz=0h"); }
VP_ENTRY(group_letter) { two("-X", 1, "xyDdv=", "", VPQ(2, 3), "xyDdv=.0h"); }
VP_ENTRY(group_name) { two("--g", 0, few, "", VPQ(3, 4), "x2yDdv=.h"); }
// Three.
VP_ENTRY(three_nested) { three("-X", 0, few, "D", 1, "v=.y", "", 2, "v=-05"); }
VP_ENTRY(three_sub) { three("t", 0, few, "-r=5", 0, few, "", VPQ(2, 3), "-qra="); }
VP_ENTRY(three_sub_first) { three("", 1, "tba-", "s-u", 0, few, "-r=", 1, "05"); }
VP_ENTRY(three_values) { three("-", 1, "nmlz", "", 1, "05-t", "-", 1, "abnzm"); }
VP_ENTRY(three_words) { three("", 1, "tb-", "", 1, "tb-", "", 1, "tb-"); }
