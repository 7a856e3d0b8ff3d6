// String buffers hold valid text equal to the edits applied.
// BOUND: buffers in UTF-8, UTF-16, UTF-32, Latin-1, ASCII and WTF-8 starting empty, short, or at either side of the inline capacity; every rune; every valid string of up to 3 code units (thorough 4) in any of those encodings, and malformed ones; every history of 2 (thorough 3) edits; every truncation at full width
// ORACLE: a model sequence of runes, compared with what an independent decoder reads from the buffer
#include "best/text/format.h"
#include "best/log/wtf.h"
#include "best/text/strbuf.h"
#include "enc.h"
#include "ident.h"
using namespace vp;
struct model {
  u32 r[64]; size_t n = 0;
  void push(u32 v) { r[n++] = v; }
  void push(const runes_of& d) { for (size_t i = 0; i < d.k; i++) push(d.r[i]); }
  template <class X> void lossy(u32 v) { push(X::ok(v) ? v : X::ok(0xfffd) ? 0xfffd : '?'); }
  template <class X> void lossy(const runes_of& d) { for (size_t i = 0; i < d.k; i++) lossy<X>(d.r[i]); }
};
template <class X> static bool fits(const runes_of& d) { bool k = true; for (size_t i = 0; i < d.k; i++) k &= X::ok(d.r[i]); return k; }
template <class X> using tb = best::textbuf<typename X::E>;
// What the buffer holds is exactly the model's runes.
template <class X> static void is(const tb<X>& s, const model& m) {
  size_t i = 0, k = 0, n = s.size(); auto* p = s.data(); VP_CHECK(p != nullptr);
  while (i < n) {
    i32 l, v = X::ref(p + i, n - i, &l);
    VP_CHECK(v >= 0 && k < m.n && (u32)v == m.r[k]);
    i += l; k++;
  }
  VP_CHECK(k == m.n && s.is_empty() == (n == 0) && s.capacity() >= n);
}
// The buffer holds well-formed text that starts with the model's runes.
template <class X> static void sound(const tb<X>& s, const model& m) {
  size_t i = 0, k = 0, n = s.size(); auto* p = s.data();
  while (i < n) {
    i32 l, v = X::ref(p + i, n - i, &l); VP_CHECK(v >= 0);
    if (k < m.n) VP_CHECK((u32)v == m.r[k]);
    i += l; k++;
  }
  VP_CHECK(k >= m.n);
}
template <class X> static constexpr size_t inl = best::vec_inline_default<typename X::C>();
// A buffer of `n` runes below 0x80.
template <class X> static void start(tb<X>& s, model& m, size_t n) {
  if (!n) return;
  buf<typename X::C> b(n);
  for (size_t i = 0; i < n; i++) { b[i] = (typename X::C)('a' + i); m.push('a' + i); }
  s = tb<X>(best::text<typename X::E>(best::unsafe("ascii"), best::pretext<typename X::E>(best::span<const typename X::C>(b.p, n))));
}
template <class X> static size_t lengths() {
  switch (pick(VPQ(2, 4), "start")) { case 0: return 0; case 1: return inl<X> - 1; case 2: return inl<X>; case 3: return 1; default: return inl<X> + 1; }
}
static best::rune any_rune(u32& v) { v = any<u32>("rune"); auto r = best::rune::from_int_allow_surrogates(v); vp_assume(r.has_value()); return *r; }

// One rune.
template <class X> static void rune() {
  tb<X> s; model m; start<X>(s, m, lengths<X>()); u32 v; best::rune r = any_rune(v);
  if (any<bool>("lossy")) { s.push_lossy(r); m.lossy<X>(v); }
  else { bool ok = s.push(r); VP_CHECK(ok == X::ok(v)); if (ok) m.push(v); }
  is<X>(s, m); VP_REACH();
}
VP_ENTRY(rune_utf8) { rune<U8>(); }
VP_ENTRY(rune_utf16) { rune<U16>(); }
VP_ENTRY(rune_utf32) { rune<U32>(); }
VP_ENTRY(rune_latin1) { rune<L1>(); }
VP_ENTRY(rune_ascii) { rune<AS>(); }
VP_ENTRY(rune_wtf8) { rune<W8>(); }

// A valid string in any encoding, as text, unvalidated text, or another buffer.
template <class X, class Y> static void string(size_t n) {
  tb<X> s; model m; start<X>(s, m, lengths<X>());
  vp::str<Y> t(pick(n, "len"), "t"); bool ok = fits<X>(t.d), done = true, lossy = any<bool>("lossy");
  if (lossy) {
    switch (pick(2, "as")) {
      case 0: s.push_lossy(t.text()); break;
      case 1: s.push_lossy(t.pre()); break;
      default: { tb<Y> u(t.text()); s.push_lossy(u); }
    }
    m.lossy<X>(t.d);
  } else {
    switch (pick(2, "as")) {
      case 0: done = s.push(t.text()); break;
      case 1: done = s.push(t.pre()); break;
      default: { tb<Y> u(t.text()); done = s.push(u); }
    }
    VP_CHECK(done == ok); if (ok) m.push(t.d);
  }
  is<X>(s, m); VP_REACH();
}
constexpr size_t N = VPQ(3, 4), M = VPQ(2, 3);
VP_ENTRY(utf8) { string<U8, U8>(N); }
VP_ENTRY(utf16) { string<U16, U16>(N); }
VP_ENTRY(utf32) { string<U32, U32>(M); }
VP_ENTRY(latin1) { string<L1, L1>(M); }
VP_ENTRY(ascii) { string<AS, AS>(M); }
VP_ENTRY(wtf8) { string<W8, W8>(N); }
VP_ENTRY(utf8_utf16) { string<U8, U16>(M); }
VP_ENTRY(utf8_utf32) { string<U8, U32>(M); }
VP_ENTRY(utf8_latin1) { string<U8, L1>(M); }
VP_ENTRY(utf8_wtf8) { string<U8, W8>(N); }
VP_ENTRY(utf16_utf8) { string<U16, U8>(N); }
VP_ENTRY(utf16_wtf8) { string<U16, W8>(N); }
VP_ENTRY(utf32_utf16) { string<U32, U16>(M); }
VP_ENTRY(utf32_utf8) { string<U32, U8>(N); }
VP_ENTRY(latin1_utf8) { string<L1, U8>(N); }
VP_ENTRY(latin1_utf16) { string<L1, U16>(M); }
VP_ENTRY(ascii_latin1) { string<AS, L1>(M); }
VP_ENTRY(ascii_utf8) { string<AS, U8>(N); }
VP_ENTRY(wtf8_utf8) { string<W8, U8>(N); }

// A malformed string leaves the buffer sound, and untouched when the append reports failure.
template <class X, class Y> static void bad(size_t n) {
  tb<X> s; model m; start<X>(s, m, lengths<X>());
  vp::raw<Y> t(pick(n, "len"), "t");
  if (any<bool>("lossy")) { s.push_lossy(t.pre()); sound<X>(s, m); }
  else if (s.push(t.pre())) sound<X>(s, m); else is<X>(s, m);
  VP_REACH();
}
VP_ENTRY(bad_utf8) { bad<U8, U8>(N); }
VP_ENTRY(bad_utf16) { bad<U16, U16>(N); }
VP_ENTRY(bad_utf8_utf16) { bad<U8, U16>(M); }
VP_ENTRY(bad_latin1_utf8) { bad<L1, U8>(N); }
VP_ENTRY(bad_utf32_utf8) { bad<U32, U8>(M); }

// Making buffers.
template <class X> static void from(size_t n) {
  vp::raw<X> t(pick(n, "len"), "t"); runes_of d = decode_all<X>(t.b.p, t.b.n); model m; if (d.valid) m.push(d);
  switch (pick(2, "how")) {
    case 0: { auto s = tb<X>::from(t.pre()); VP_CHECK(s.has_value() == d.valid); if (s) is<X>(*s, m); break; }
    case 1: { typename tb<X>::buf v(best::span<const typename X::C>(t.b.p, t.b.n)); auto s = tb<X>::from(BEST_MOVE(v)); VP_CHECK(s.has_value() == d.valid); if (s) is<X>(*s, m); break; }
    default: {
      buf<typename X::C> z(t.b.n + 1); for (size_t i = 0; i < t.b.n; i++) { z[i] = t.b[i]; vp_assume(z[i] != 0); } z[t.b.n] = 0;
      auto s = tb<X>::from_nul(z.p); VP_CHECK(s.has_value() == d.valid); if (s) is<X>(*s, m);
      auto e = tb<X>::from_nul(nullptr); VP_CHECK(e.has_value() && e->is_empty());
    }
  }
  VP_REACH();
}
VP_ENTRY(from_utf8) { from<U8>(N); }
VP_ENTRY(from_utf16) { from<U16>(N); }
VP_ENTRY(from_utf32) { from<U32>(M); }
VP_ENTRY(from_ascii) { from<AS>(M); }
VP_ENTRY(from_wtf8) { from<W8>(M); }
// A string keeps the allocator it was given, through growth and copies, and every block goes back to it.
template <class X> static void allocator(size_t n) {
  using T = best::textbuf<typename X::E, ident>; int id = any<int>("id");
  vp::str<X> t(pick(n, "len"), "t"); model m; m.push(t.d);
  auto same = [&](T& s, int id) {
    VP_CHECK(s.allocator().id == id && ((const T&)s).allocator().id == id && s.size() == t.b.n);
    for (size_t i = 0; i < t.b.n; i++) VP_CHECK(s.data()[i] == t.b[i]);
    while (s.size() <= inl<X>) s.push(best::rune('x'));
    VP_CHECK(s.allocator().id == id);
    for (size_t i = 0; i < t.b.n; i++) VP_CHECK(s.data()[i] == t.b[i]);
  };
  switch (pick(6, "how")) {
    case 0: { T s(ident{id}); VP_CHECK(s.push(t.text())); same(s, id); break; }
    case 1: { T s(ident{id}, t.text()); same(s, id); break; }
    case 2: { auto s = T::from(ident{id}, t.pre()); VP_CHECK(s.has_value()); same(*s, id); T c(*s); VP_CHECK(c.allocator().id == id && c.size() == s->size()); break; }
    case 3: { auto s = T::transcode(ident{id}, t.text()); VP_CHECK(s.has_value()); same(*s, id); T c(BEST_MOVE(*s)); VP_CHECK(c.allocator().id == id && s->is_empty()); break; }
    case 4: {
      buf<typename X::C> z(t.b.n + 1); for (size_t i = 0; i < t.b.n; i++) { z[i] = t.b[i]; vp_assume(z[i] != 0); } z[t.b.n] = 0;
      auto s = T::from_nul(ident{id}, z.p); VP_CHECK(s.has_value()); same(*s, id); break;
    }
    default: { typename T::buf v(ident{id}, best::span<const typename X::C>(t.b.p, t.b.n)); auto s = T::from(BEST_MOVE(v)); VP_CHECK(s.has_value()); same(*s, id); typename T::buf b = BEST_MOVE(*s); VP_CHECK(b.allocator().id == id && b.size() > inl<X>); }
  }
  VP_REACH();
}
VP_ENTRY(alloc_utf8) { allocator<U8>(2); }
VP_ENTRY(alloc_utf16) { allocator<U16>(1); }
template <class X, class Y> static void transcode(size_t n) {
  vp::str<Y> t(pick(n, "len"), "t"); model m; m.push(t.d); bool ok = fits<X>(t.d);
  auto s = any<bool>("pre") ? tb<X>::transcode(t.pre()) : tb<X>::transcode(t.text());
  VP_CHECK(s.has_value() == ok); if (s) is<X>(*s, m);
  VP_REACH();
}
VP_ENTRY(transcode_utf8_utf16) { transcode<U8, U16>(M); }
VP_ENTRY(transcode_utf16_utf8) { transcode<U16, U8>(N); }
VP_ENTRY(transcode_utf16_wtf8) { transcode<U16, W8>(N); }
VP_ENTRY(transcode_latin1_utf8) { transcode<L1, U8>(N); }
VP_ENTRY(transcode_ascii_utf32) { transcode<AS, U32>(M); }
VP_ENTRY(transcode_utf8_utf8) { transcode<U8, U8>(N); }
VP_ENTRY(literal) {
  best::strbuf s = "h\u00e9\u20ac"; model m; m.push('h'); m.push(0xe9); m.push(0x20ac); is<U8>(s, m);
  best::strbuf16 t = u"h\U0001f600"; model k; k.push('h'); k.push(0x1f600); is<U16>(t, k);
  VP_CHECK(s == "h\u00e9\u20ac"); VP_CHECK(s->size() == 6 && s.as_text().size() == 6);
  VP_REACH();
}

// Truncation cuts between runes, or crashes.
template <class X> static void truncate(size_t n) {
  vp::str<X> t(pick(n, "len"), "t"); tb<X> s(t.text()); u64 at = any<u64>("at"); model m;
  VP_CRASHES_IFF(at < t.b.n && !t.boundary(at), s.truncate(at));
  for (size_t i = 0; i < t.d.k; i++) if (t.d.off[i] < at) m.push(t.d.r[i]);
  is<X>(s, m); VP_CHECK(s.size() == (at < t.b.n ? at : t.b.n));
  VP_REACH();
}
VP_ENTRY(truncate_utf8) { truncate<U8>(VPQ(4, 5)); }
VP_ENTRY(truncate_utf16) { truncate<U16>(N); }
VP_ENTRY(truncate_utf32) { truncate<U32>(M); }
VP_ENTRY(truncate_latin1) { truncate<L1>(M); }
VP_ENTRY(truncate_wtf8) { truncate<W8>(N); }

// Appending (part of) a buffer to itself.
template <class X> static void self(size_t n) {
  vp::str<X> t(pick(n, "len"), "t"); tb<X> s; model m; start<X>(s, m, lengths<X>()); size_t had = m.n, cut = s.size();
  s.push(t.text()); m.push(t.d); model k = m;
  switch (pick(5, "what")) {
    case 0: VP_CHECK(s.push(s)); for (size_t i = 0; i < k.n; i++) m.push(k.r[i]); break;
    case 1: s.push_lossy(s); for (size_t i = 0; i < k.n; i++) m.push(k.r[i]); break;
    case 2: VP_CHECK(s.push(s.as_text())); for (size_t i = 0; i < k.n; i++) m.push(k.r[i]); break;
    case 3: VP_CHECK(s.push(s[{.start = cut}])); for (size_t i = had; i < k.n; i++) m.push(k.r[i]); break;
    case 4: s.push_lossy(s[{.start = cut}]); for (size_t i = had; i < k.n; i++) m.push(k.r[i]); break;
    default: VP_CHECK(s.push(best::pretext<typename X::E>(s.as_text()))); for (size_t i = 0; i < k.n; i++) m.push(k.r[i]);
  }
  is<X>(s, m); VP_REACH();
}
VP_ENTRY(self_utf8) { self<U8>(M); }
VP_ENTRY(self_utf16) { self<U16>(M); }
VP_ENTRY(self_utf32) { self<U32>(VPQ(1, 2)); }

// Histories.
template <class X> static void edit(tb<X>& s, model& m) {
  switch (pick(8, "op")) {
    case 0: { u32 v; best::rune r = any_rune(v); bool ok = s.push(r); VP_CHECK(ok == X::ok(v)); if (ok) m.push(v); break; }
    case 1: { u32 v; best::rune r = any_rune(v); s.push_lossy(r); m.lossy<X>(v); break; }
    case 2: { vp::str<L1> t(2, "t"); bool ok = s.push(t.text()); VP_CHECK(ok == fits<X>(t.d)); if (ok) m.push(t.d); break; }
    case 3: s.clear(); m.n = 0; break;
    case 4: { size_t n = s.size(); if (m.n) { i32 l = X::len(m.r[m.n - 1]); s.truncate(n - l); m.n--; } break; }
    case 5: s.reserve(pick(1, "big") ? 40 : 1); break;
    case 6: { tb<X> c = s; is<X>(c, m); tb<X> d = BEST_MOVE(s); is<X>(d, m); s = BEST_MOVE(c); is<X>(s, m); break; }
    case 7: { tb<X> c; VP_CHECK(c.push(best::rune('z'))); c = s; is<X>(c, m); s.clear(); s = c; break; }
    default: { typename tb<X>::buf v = BEST_MOVE(s).into_buf(); auto c = tb<X>::from(BEST_MOVE(v)); VP_CHECK(c.has_value()); s = *BEST_MOVE(c); break; }
  }
  is<X>(s, m);
}
template <class X> static void history() {
  tb<X> s; model m; start<X>(s, m, pick(1, "start") ? inl<X> - 1 : 0);
  for (int i = 0; i < VPQ(2, 3); i++) edit<X>(s, m);
  VP_REACH();
}
VP_ENTRY(history_utf8) { history<U8>(); }
VP_ENTRY(history_utf16) { history<U16>(); }
VP_ENTRY(history_latin1) { history<L1>(); }
