// Text comparison is the order of decoded runes.
// BOUND: every pair of valid strings of up to 3 code units (quick: up to 4 in all; thorough 4 each) in every combination of UTF-8, UTF-16, UTF-32, Latin-1, ASCII and WTF-8; every string and rune; every pair of malformed strings of up to 2 code units
// ORACLE: lexicographic comparison of the runes of independent decoders
#include "best/text/format.h"
#include "best/log/wtf.h"
#include "best/text/strbuf.h"
#include "enc.h"
using namespace vp;
static int order(const runes_of& a, const runes_of& b) {
  for (size_t i = 0; i < a.k && i < b.k; i++) if (a.r[i] != b.r[i]) return a.r[i] < b.r[i] ? -1 : 1;
  return a.k < b.k ? -1 : a.k > b.k ? 1 : 0;
}
static int sign(best::ord o) { return o < 0 ? -1 : o > 0 ? 1 : 0; }
template <class A, class B> static void agree(const A& a, const B& b, int want) {
  VP_CHECK((a == b) == (want == 0)); VP_CHECK((a != b) == (want != 0)); VP_CHECK((b == a) == (want == 0));
  VP_CHECK(sign(a <=> b) == want); VP_CHECK(sign(b <=> a) == -want);
  VP_CHECK((a < b) == (want < 0) && (a <= b) == (want <= 0) && (a > b) == (want > 0) && (a >= b) == (want >= 0));
}
template <class X, class Y> static void pair(size_t an, size_t bn) {
  vp::str<X> a(pick(an, "a"), "x"); vp::str<Y> b(pick(bn, "b"), "y"); int w = order(a.d, b.d);
  switch (pick(2, "view")) {
    case 0: agree(a.text(), b.text(), w); break;
    case 1: agree(a.pre(), b.pre(), w); break;
    default: agree(a.text(), b.pre(), w);
  }
  VP_REACH();
}
constexpr size_t M = VPQ(2, 4), N = VPQ(3, 4);
VP_ENTRY(utf8) { pair<U8, U8>(N, N); }
VP_ENTRY(utf16) { pair<U16, U16>(N, N); }
VP_ENTRY(utf32) { pair<U32, U32>(M, M); }
VP_ENTRY(latin1) { pair<L1, L1>(N, M); }
VP_ENTRY(ascii) { pair<AS, AS>(M, M); }
VP_ENTRY(wtf8) { pair<W8, W8>(N, M); }
VP_ENTRY(utf8_utf16) { pair<U8, U16>(N, M); }
VP_ENTRY(utf8_utf32) { pair<U8, U32>(N, M); }
VP_ENTRY(utf8_latin1) { pair<U8, L1>(N, M); }
VP_ENTRY(utf8_ascii) { pair<U8, AS>(N, M); }
VP_ENTRY(utf8_wtf8) { pair<U8, W8>(N, N); }
VP_ENTRY(utf16_utf32) { pair<U16, U32>(N, M); }
VP_ENTRY(utf16_latin1) { pair<U16, L1>(M, M); }
VP_ENTRY(utf16_wtf8) { pair<U16, W8>(M, N); }
VP_ENTRY(latin1_wtf8) { pair<L1, W8>(M, M); }
VP_ENTRY(ascii_utf32) { pair<AS, U32>(M, M); }
// A long rune against a short one: where encoded order and rune order part.
template <class X, class Y> static void single(size_t an, size_t bn) {
  vp::str<X> a(an, "x"); vp::str<Y> b(bn, "y"); vp_assume(a.d.k == 1 && b.d.k == 1);
  int w = order(a.d, b.d); agree(a.text(), b.text(), w); agree(a.pre(), b.pre(), w);
  VP_REACH();
}
VP_ENTRY(long_utf8) { single<U8, U8>(4, 3); }
VP_ENTRY(long_utf8_utf16) { single<U8, U16>(4, 2); }
VP_ENTRY(long_utf8_short_utf16) { single<U8, U16>(4, 1); }
VP_ENTRY(long_utf8_utf32) { single<U8, U32>(4, 1); }
VP_ENTRY(long_wtf8_utf8) { single<W8, U8>(3, 4); }

// A rune is the string of just that rune.
template <class X> static void with_rune(size_t n) {
  vp::str<X> a(pick(n, "a")); u32 v = any<u32>("rune"); auto r = best::rune::from_int_allow_surrogates(v); vp_assume(r.has_value());
  runes_of b{}; b.k = 1; b.r[0] = v; int w = order(a.d, b);
  bool t = any<bool>("text");
  if (t) { VP_CHECK((a.text() == *r) == (w == 0)); VP_CHECK(sign(a.text() <=> *r) == w); VP_CHECK((*r == a.text()) == (w == 0)); VP_CHECK((a.text() < *r) == (w < 0)); }
  else { VP_CHECK((a.pre() == *r) == (w == 0)); VP_CHECK(sign(a.pre() <=> *r) == w); VP_CHECK((*r == a.pre()) == (w == 0)); VP_CHECK((a.pre() > *r) == (w > 0)); }
  VP_REACH();
}
VP_ENTRY(rune_utf8) { with_rune<U8>(VPQ(4, 5)); }
VP_ENTRY(rune_utf16) { with_rune<U16>(3); }
VP_ENTRY(rune_utf32) { with_rune<U32>(2); }
VP_ENTRY(rune_latin1) { with_rune<L1>(3); }
VP_ENTRY(rune_ascii) { with_rune<AS>(3); }
VP_ENTRY(rune_wtf8) { with_rune<W8>(4); }

// Raw code units and literals.
VP_ENTRY(code_units) {
  vp::str<U8> a(pick(3, "a"), "x"), b(pick(2, "b"), "y"); int w = order(a.d, b.d);
  best::span<const char> s(b.b.p, b.b.n);
  VP_CHECK((a.text() == s) == (w == 0) && sign(a.text() <=> s) == w); VP_CHECK((a.pre() == s) == (w == 0) && sign(a.pre() <=> s) == w);
  VP_REACH();
}
VP_ENTRY(pointers) {
  vp::str<U8> a(pick(3, "a"), "x"); buf<char> b(3, "y"); b[2] = 0; size_t k = 0; while (b[k]) k++;
  runes_of d = decode_all<U8>(b.p, k); vp_assume(d.valid); int w = order(a.d, d); const char* p = b.p;
  VP_CHECK((a.text() == p) == (w == 0) && sign(a.text() <=> p) == w); VP_CHECK((a.pre() == p) == (w == 0) && sign(a.pre() <=> p) == w);
  VP_REACH();
}
VP_ENTRY(owned) {
  vp::str<U8> a(pick(3, "a"), "x"), b(pick(2, "b"), "y"); int w = order(a.d, b.d);
  best::strbuf s(a.text()), t(b.text());
  VP_CHECK((s == t) == (w == 0) && sign(s <=> t) == w); VP_CHECK((s == b.text()) == (w == 0) && sign(s <=> b.text()) == w);
  VP_CHECK((b.text() == s) == (w == 0) && sign(b.text() <=> s) == -w);
  VP_REACH();
}

// Malformed strings of one encoding still have a consistent equality and order.
template <class X> static void malformed(size_t n) {
  vp::raw<X> a(pick(n, "a"), "x"), b(pick(n, "b"), "y"); auto s = a.pre(), t = b.pre();
  bool same = a.b.n == b.b.n; for (size_t i = 0; i < a.b.n && i < b.b.n; i++) same &= a.b[i] == b.b[i];
  VP_CHECK((s == t) == same); VP_CHECK((t == s) == same); VP_CHECK(sign(s <=> t) == -sign(t <=> s));
  if (same) VP_CHECK(sign(s <=> t) == 0);
  VP_REACH();
}
VP_ENTRY(malformed_utf8) { malformed<U8>(VPQ(3, 4)); }
VP_ENTRY(malformed_utf16) { malformed<U16>(VPQ(2, 3)); }
VP_ENTRY(malformed_utf32) { malformed<U32>(2); }
