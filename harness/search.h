// Search, splitting and affixes of strings by their definition over decoded runes.
#ifndef SEARCH_H_
#define SEARCH_H_
#include "best/text/format.h"
#include "best/log/wtf.h"
#include "enc.h"
using namespace vp;
// Does the needle's runes occur in the haystack at rune j?
inline bool occurs(const runes_of& h, const runes_of& n, size_t j) {
  if (j + n.k > h.k) return false;
  bool r = true;
  for (size_t i = 0; i < n.k; i++) r &= h.r[j + i] == n.r[i];
  return r;
}
struct hit { bool found; size_t a, b; };
inline hit first_hit(const runes_of& h, const runes_of& n, size_t from = 0) { for (size_t j = from; j + n.k <= h.k; j++) if (occurs(h, n, j)) return {true, j, j + n.k}; return {false}; }
inline hit last_hit(const runes_of& h, const runes_of& n, size_t to) { for (size_t j = to + 1; j-- > n.k;) if (occurs(h, n, j - n.k)) return {true, j - n.k, j}; return {false}; }
template <class S> static bool piece(const S& s, const void* base, size_t a, size_t b) {
  // the subrange [a, b), at its own address
  return s.size() == b - a && (b == a || (const char*)s.data() == (const char*)base + a * sizeof(*s.data()));
}
template <class S, class H> static bool split_is(const S& got, const H& h, hit want) {
  if (got.has_value() != want.found) return false;
  if (!want.found) return true;
  size_t n = h.d.off[h.d.k];
  return piece(got->first(), h.b.p, 0, h.d.off[want.a]) && piece(got->second(), h.b.p, h.d.off[want.b], n);
}
// All searches for `p` in `s` (a view of h), whose matches are those of the runes in n.
template <class S, class H, class P> static void searches(const S& s, const H& h, const runes_of& n, const P& p) {
  size_t size = h.d.off[h.d.k];
  hit f = first_hit(h.d, n), l = last_hit(h.d, n, h.d.k);
  auto got = s.find(p); VP_CHECK(got.has_value() == f.found && (!f.found || *got == h.d.off[f.a]));
  VP_CHECK(s.contains(p) == f.found);
  VP_CHECK(split_is(s.split_once(p), h, f));
  bool st = occurs(h.d, n, 0), en = n.k <= h.d.k && occurs(h.d, n, h.d.k - n.k);
  VP_CHECK(s.starts_with(p) == st); VP_CHECK(s.ends_with(p) == en);
  auto sp = s.strip_prefix(p); VP_CHECK(sp.has_value() == st && (!st || piece(*sp, h.b.p, h.d.off[n.k], size)));
  auto ss = s.strip_suffix(p); VP_CHECK(ss.has_value() == en && (!en || piece(*ss, h.b.p, 0, h.d.off[h.d.k - n.k])));
  { S c = s; VP_CHECK(c.consume_prefix(p) == st); VP_CHECK(piece(c, h.b.p, st ? h.d.off[n.k] : 0, size)); }
  { S c = s; VP_CHECK(c.consume_suffix(p) == en); VP_CHECK(piece(c, h.b.p, 0, en ? h.d.off[h.d.k - n.k] : size)); }
  auto rg = s.rfind(p); auto rs = s.rsplit_once(p);
  if (n.k) {
    VP_CHECK(rg.has_value() == l.found && (!l.found || *rg == h.d.off[l.a]));
    VP_CHECK(split_is(rs, h, l));
  } else {
    VP_CHECK(rg.has_value() && *rg <= size && rs.has_value() && rs->first().size() + rs->second().size() == size);
  }
}
// Splitting yields every piece between matches, from either end.
template <class S, class H, class P> static void splits(const S& s, const H& h, const runes_of& n, const P& p) {
  size_t size = h.d.off[h.d.k]; size_t lo = 0, hi = h.d.k; bool done = false;
  auto it = s.split(p); u8 turns = any<u8>("turns");
  for (size_t i = 0; i < h.d.k + 3; i++) {
    bool back = turns >> i & 1;
    auto got = back ? it.next_back() : it.next();
    if (done) { VP_CHECK(!got.has_value()); break; }
    hit w{false};
    if (n.k) for (size_t j = lo; j + n.k <= hi; j++) { size_t q = back ? hi - n.k - (j - lo) : j; if (!w.found && occurs(h.d, n, q)) w = {true, q, q + n.k}; }
    VP_CHECK(got.has_value());
    size_t a = lo, b = hi;
    if (!w.found) done = true; else if (back) { a = w.b; hi = w.a; } else { b = w.a; lo = w.b; }
    VP_CHECK(piece(*got, h.b.p, h.d.off[a], h.d.off[b]));
  }
  VP_CHECK(done); (void)size;
}
template <class X, class Y> static void strings(size_t hn, size_t nn) {
  vp::str<X> h(pick(hn, "hay")); vp::str<Y> n(pick(nn, "needle"), "n");
  if (any<bool>("text")) searches(h.text(), h, n.d, n.text()); else searches(h.pre(), h, n.d, n.pre());
  VP_REACH();
}
template <class X, class Y> static void split_strings(size_t hn, size_t nn) {
  vp::str<X> h(pick(hn, "hay")); vp::str<Y> n(pick(nn, "needle"), "n");
  if (any<bool>("text")) splits(h.text(), h, n.d, n.text()); else splits(h.pre(), h, n.d, n.pre());
  VP_REACH();
}
template <class X> static void by_rune(size_t hn) {
  vp::str<X> h(pick(hn, "hay")); u32 v = any<u32>("rune"); auto r = best::rune::from_int_allow_surrogates(v);
  vp_assume(r.has_value());
  runes_of n{}; n.k = 1; n.r[0] = v; n.off[1] = 1;
  if (any<bool>("text")) { searches(h.text(), h, n, *r); splits(h.text(), h, n, *r); } else { searches(h.pre(), h, n, *r); splits(h.pre(), h, n, *r); }
  VP_REACH();
}
// A predicate: an arbitrary range of runes.
template <class S, class H, class P> static void predicates(const S& s, const H& h, const P& p, u32 lo, u32 hi) {
  size_t size = h.d.off[h.d.k];
  hit f{false}, l{false};
  for (size_t j = 0; j < h.d.k; j++) if (h.d.r[j] >= lo && h.d.r[j] <= hi) { if (!f.found) f = {true, j, j + 1}; l = {true, j, j + 1}; }
  auto got = s.find(p); VP_CHECK(got.has_value() == f.found && (!f.found || *got == h.d.off[f.a]));
  VP_CHECK(s.contains(p) == f.found);
  auto rg = s.rfind(p); VP_CHECK(rg.has_value() == l.found && (!l.found || *rg == h.d.off[l.a]));
  VP_CHECK(split_is(s.split_once(p), h, f)); VP_CHECK(split_is(s.rsplit_once(p), h, l));
  bool st = f.found && f.a == 0, en = l.found && l.b == h.d.k;
  VP_CHECK(s.starts_with(p) == st); VP_CHECK(s.ends_with(p) == en);
  auto sp = s.strip_prefix(p); VP_CHECK(sp.has_value() == st && (!st || piece(*sp, h.b.p, h.d.off[1], size)));
  auto ss = s.strip_suffix(p); VP_CHECK(ss.has_value() == en && (!en || piece(*ss, h.b.p, 0, h.d.off[h.d.k - 1])));
  { S c = s; VP_CHECK(c.consume_prefix(p) == st); VP_CHECK(piece(c, h.b.p, st ? h.d.off[1] : 0, size)); }
  { S c = s; VP_CHECK(c.consume_suffix(p) == en); VP_CHECK(piece(c, h.b.p, 0, en ? h.d.off[h.d.k - 1] : size)); }
  // the predicate outlives the call
  auto it = s.split([lo, hi](best::rune r) { return r.to_int() >= lo && r.to_int() <= hi; });
  size_t at = 0;
  for (size_t j = 0; j <= h.d.k; j++) if (j == h.d.k || (h.d.r[j] >= lo && h.d.r[j] <= hi)) {
    auto g = it.next(); VP_CHECK(g.has_value() && piece(*g, h.b.p, h.d.off[at], h.d.off[j])); at = j + 1;
  }
  VP_CHECK(!it.next().has_value());
}
template <class X> static void by_predicate(size_t hn) {
  vp::str<X> h(pick(hn, "hay")); u32 lo = any<u32>("lo"), hi = any<u32>("hi");
  auto p = [lo, hi](best::rune r) { return r.to_int() >= lo && r.to_int() <= hi; };
  if (any<bool>("text")) predicates(h.text(), h, p, lo, hi); else predicates(h.pre(), h, p, lo, hi);
  VP_REACH();
}
// Malformed input: still in bounds, and still terminating.
template <class S> static void within(const S& got, const void* base, size_t n) {
  if (!got.has_value()) return;
  auto& a = got->first(); auto& b = got->second(); VP_CHECK(a.size() + b.size() <= n);
  VP_CHECK(piece(a, base, 0, a.size()) && piece(b, base, n - b.size(), n));
}
template <class X, class Y> static void malformed(size_t hn, size_t nn) {
  vp::raw<X> h(pick(hn, "hay")); vp::raw<Y> n(pick(nn, "needle"), "n");
  auto s = h.pre(); auto p = n.pre(); size_t size = h.b.n;
  auto f = s.find(p), r = s.rfind(p); VP_CHECK(f.has_value() == s.contains(p)); if (f) VP_CHECK(*f <= size); if (r) VP_CHECK(*r <= size);
  within(s.split_once(p), h.b.p, size); within(s.rsplit_once(p), h.b.p, size);
  auto a = s.strip_prefix(p); VP_CHECK(a.has_value() == s.starts_with(p)); if (a) VP_CHECK(piece(*a, h.b.p, size - a->size(), size));
  auto b = s.strip_suffix(p); VP_CHECK(b.has_value() == s.ends_with(p)); if (b) VP_CHECK(piece(*b, h.b.p, 0, b->size()));
  auto it = s.split(p); size_t pieces = 0; while (it.next()) VP_CHECK(++pieces <= size + 1);
  VP_REACH();
}
#endif
