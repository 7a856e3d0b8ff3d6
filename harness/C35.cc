// Ordering values and combinators form a consistent algebra.
// BOUND: every ordering value of both categories, every operand of 8 to 64 bits and every pointer into two objects; chains of up to three comparisons; composite orders over options, choices and rows of partially ordered elements
// ORACLE: three-way comparison computed case by case (-1, 0, 1, unordered).
#include "best/base/ord.h"
#include "best/container/choice.h"
#include "best/container/option.h"
#include "best/container/row.h"
#include "best/memory/span.h"
#include "best/text/format.h"
#include "best/log/wtf.h"
#include "vp.h"
using namespace vp;
enum { LT = -1, EQ = 0, GT = 1, UN = 2 };
static int sgn(best::partial_ord o) { return o < 0 ? LT : o > 0 ? GT : o == 0 ? EQ : UN; }
static int sgn(best::ord o) { return o < 0 ? LT : o > 0 ? GT : EQ; }
static best::ord mk_ord(int s) { return s == LT ? best::ord::less : s == GT ? best::ord::greater : best::ord::equal; }
static best::partial_ord mk_pord(int s) { return s == LT ? best::partial_ord::less : s == GT ? best::partial_ord::greater : s == EQ ? best::partial_ord::equivalent : best::partial_ord::unordered; }
static int any_ord() { return (int)pick(2, "o") - 1; }
static int any_pord() { return (int)pick(3, "p") - 1; }

VP_ENTRY(literals) {
  best::ord a = best::Less, b = best::Equal, c = best::Greater; best::partial_ord d = best::Less, e = best::Equal, f = best::Greater, g = best::Unordered;
  VP_CHECK(sgn(a) == LT && sgn(b) == EQ && sgn(c) == GT && sgn(d) == LT && sgn(e) == EQ && sgn(f) == GT && sgn(g) == UN);
  int s = any_ord(), t = any_pord();
  VP_CHECK(sgn(mk_ord(s)) == s && sgn(mk_pord(t)) == t && (mk_ord(s) == mk_pord(t)) == (s == t));
  VP_REACH();
}
VP_ENTRY(chain) {
  int s = any_ord(), t = any_ord(), u = any_pord(), w = any_pord(), n = 0;
  auto r = mk_ord(s)->*best::or_cmp([&] { n++; return mk_ord(t); });
  static_assert(__is_same(decltype(r), best::ord)); VP_CHECK(sgn(r) == (s ? s : t) && n == (s == 0));
  n = 0; auto p = mk_ord(s)->*best::or_cmp([&] { n++; return mk_pord(u); });
  static_assert(__is_same(decltype(p), best::partial_ord)); VP_CHECK(sgn(p) == (s ? s : u) && n == (s == 0));
  n = 0; auto q = mk_pord(w)->*best::or_cmp([&] { n++; return mk_ord(s); }); VP_CHECK(sgn(q) == (w ? w : s) && n == (w == 0));
  n = 0; auto x = (mk_pord(w)->*best::or_cmp([&] { n += 1; return mk_ord(s); }))->*best::or_cmp([&] { n += 10; return mk_pord(u); });
  VP_CHECK(sgn(x) == (w ? w : s ? s : u) && n == (w ? 0 : s ? 1 : 11));
  int z = any<int>("z"); auto cb = [&] { return z; };  // any left side comparable with 0
  n = 0; best::ord y = mk_ord(s)->*best::or_cmp([&] { n++; return best::Less; }); VP_CHECK(sgn(y) == (s ? s : LT) && n == (s == 0));
  best::partial_ord v = mk_ord(s)->*best::or_cmp([&] { return best::Unordered; }); VP_CHECK(sgn(v) == (s ? s : UN));
  VP_REACH();
}
template <class T> static void ints() {
  T a = any<T>("a"), b = any<T>("b");
  int want = a < b ? LT : a > b ? GT : EQ;
  VP_CHECK(best::equal(a, b) == (want == EQ) && sgn(best::compare(a, b)) == want && sgn(best::compare(b, a)) == -want);
  VP_REACH();
}
VP_ENTRY(ints) { ints<int>(); ints<u8>(); ints<i64>(); ints<u64>(); i16 a = any<i16>("a"); i64 b = any<i64>("b"); VP_CHECK(best::equal(a, b) == (a == b) && sgn(best::compare(a, b)) == (a < b ? LT : a > b ? GT : EQ)); }
struct base { int b = 0; }; struct other { i64 o = 0; };
VP_ENTRY(pointers) {
  alignas(8) char mem[16]; int i = pick(2, "i"), j = pick(2, "j");
  auto* p = (int*)(mem + 4 * i); auto* q = (other*)(mem + 4 * j); const char* c = mem + 4 * j;
  int want = i < j ? LT : i > j ? GT : EQ;
  VP_CHECK(best::equal(p, q) == (i == j) && best::equal(q, p) == (i == j) && sgn(best::compare(p, q)) == want && sgn(best::compare(q, p)) == -want);
  VP_CHECK(best::equal(p, (const void*)c) == (i == j) && best::equal(p, c) == (i == j) && sgn(best::compare(p, c)) == want);
  VP_CHECK(best::equal(p, (int*)c) == (i == j) && sgn(best::compare(p, (int*)c)) == want);
  int x = any<int>("x"); VP_CHECK(!best::equal(x, p) && !best::equal(p, x) && sgn(best::compare(x, p)) == UN && sgn(best::compare(p, x)) == UN);
  VP_REACH();
}
VP_ENTRY(addresses) {  // whatever their values, pointers order by address
  u64 a = any<u64>("a"), b = any<u64>("b"); auto* p = (int*)a; auto* q = (int*)b; auto* r = (other*)b; auto* c = (const volatile void*)b;
  int want = a < b ? LT : a > b ? GT : EQ;
  VP_CHECK(best::equal(p, q) == (a == b) && best::equal(p, r) == (a == b) && best::equal(p, c) == (a == b));
  VP_CHECK(sgn(best::compare(p, q)) == want && sgn(best::compare(p, r)) == want && sgn(best::compare(p, c)) == want && sgn(best::compare(c, p)) == -want);
  VP_REACH();
}
// only == and <, possibly inconsistent: negative values are unordered
struct weakly { int v; bool operator==(const weakly& o) const { return v == o.v && v >= 0; } bool operator<(const weakly& o) const { return v >= 0 && o.v >= 0 && v < o.v; } };
struct eqonly { int v; bool operator==(const eqonly& o) const { return v == o.v; } };
struct nothing { int v; };
struct po { int v; best::partial_ord operator<=>(const po& o) const { if (v < 0 || o.v < 0) return best::partial_ord::unordered; return v <=> o.v; } bool operator==(const po& o) const { return v >= 0 && v == o.v; } };
static int pcmp(int a, int b) { return a < 0 || b < 0 ? UN : a < b ? LT : a > b ? GT : EQ; }
VP_ENTRY(fallback) {
  int a = any<int>("a"), b = any<int>("b"); int want = pcmp(a, b);
  VP_CHECK(best::equal(weakly{a}, weakly{b}) == (want == EQ) && sgn(best::compare(weakly{a}, weakly{b})) == want && sgn(best::compare(po{a}, po{b})) == want);
  VP_CHECK(best::equal(eqonly{a}, eqonly{b}) == (a == b) && sgn(best::compare(eqonly{a}, eqonly{b})) == UN);
  VP_CHECK(!best::equal(nothing{a}, nothing{b}) && sgn(best::compare(nothing{a}, nothing{b})) == UN && !best::equal(po{a}, weakly{b}) && sgn(best::compare(a, weakly{b})) == UN);
  VP_REACH();
}
template <class T, class M> static void agree(const T& a, const T& b, M want) {
  VP_CHECK(sgn(a <=> b) == want && (a == b) == (want == EQ) && (a < b) == (want == LT) && (a > b) == (want == GT) && (a <= b) == (want == LT || want == EQ) && (a >= b) == (want == GT || want == EQ) && (a != b) == (want != EQ));
}
VP_ENTRY(composite) {
  int a = any<int>("a"), b = any<int>("b"), c = any<int>("c"), d = any<int>("d"); bool h = any<bool>("h"), k = any<bool>("k");
  best::option<po> o, p; if (h) o.emplace(po{a}); if (k) p.emplace(po{b});
  agree(o, p, h != k ? (h ? GT : LT) : h ? pcmp(a, b) : EQ);
  using C = best::choice<int, po>;
  auto mk = [](bool h, int v) { return h ? C(best::index<1>, po{v}) : C(best::index<0>, v); };
  agree(mk(h, a), mk(k, b), h != k ? (h ? GT : LT) : h ? pcmp(a, b) : a < b ? LT : a > b ? GT : EQ);
  using R = best::row<po, int>; int first = pcmp(a, c);
  agree(R(po{a}, b), R(po{c}, d), first ? first : b < d ? LT : b > d ? GT : EQ);
  using S = best::row<int, po, u8>; first = a < c ? LT : a > c ? GT : pcmp(b, d);
  agree(S(a, po{b}, (u8)h), S(c, po{d}, (u8)k), first ? first : h < k ? LT : h > k ? GT : EQ);
  VP_REACH();
}
