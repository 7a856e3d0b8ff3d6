// Error codes name and describe exactly the errno they wrap.
// BOUND: every int as an error code (each of the first 200 one by one, the rest at full width); every value of errno; formatted codes up to 9999 (thorough: every code)
// ORACLE: the platform's <errno.h> constants and strerror() texts
#include <array>
#include <errno.h>
#include "best/io/ioerr.h"
#include "fmt.h"
using namespace vp;
struct known { int n; const char* name; const char* text; };
static const known Known[] = {
#define ERR(e, t) {e, #e, t},
#include "errs.inc"
};
static const known* find(int n) { for (auto& k : Known) if (k.n == n) return &k; return nullptr; }
static bool is(best::str s, const char* t) { size_t k = strlen(t); if (s.size() != k) return false; return memcmp(s.data(), t, k) == 0; }
static int code() { int v = any<int>("code"); vp_assume(v > 0); if (v < 200) v = (int)vp_pick((u64)v); return v; }
VP_ENTRY(lookup) {
  int v = code(); auto* k = v < 200 ? find(v) : nullptr;
  best::ioerr e(v); VP_CHECK(e.raw() == v && (int)e == v);
  auto n = e.name(), m = e.message();
  VP_CHECK(n.has_value() == (k != nullptr) && m.has_value() == (k != nullptr));
  if (k) { VP_CHECK(is(*n, k->name)); VP_CHECK(is(*m, k->text)); }
  VP_REACH();
}
VP_ENTRY(positive) {
  int v = any<int>("code");
  VP_CRASHES_IFF(v <= 0, { best::ioerr e(v); VP_CHECK(e.raw() == v); });
  VP_REACH();
}
VP_ENTRY(current) {
  int v = any<int>("errno"); vp_assume(v >= 0);
  errno = v; auto r = best::ioerr::current();
  VP_CHECK(r.is_ok() == (v == 0) && errno == v);
  if (!r) VP_CHECK(r.err()->raw() == v);
  VP_REACH();
}
VP_ENTRY(optional) {
  int v = any<int>("code"), w = any<int>("code2"); vp_assume(v > 0 && w > 0);
  best::option<best::ioerr> a, b(best::ioerr{v}); best::ioresult<int> r = best::ok(w), f = best::err(best::ioerr{v});
  VP_CHECK(!a.has_value() && b.has_value() && b->raw() == v);
  a = b; VP_CHECK(a.has_value() && a->raw() == v); b = best::ioerr(w); VP_CHECK(b->raw() == w && a->raw() == v); a = best::none; VP_CHECK(!a.has_value());
  VP_CHECK(r.is_ok() && *r.ok() == w && f.is_err() && f.err()->raw() == v);
  r = f; VP_CHECK(r.is_err() && r.err()->raw() == v);
  VP_REACH();
}
VP_ENTRY(format) {
  int v = code(); if (!VP_TIER) vp_assume(v <= 9999);
  auto* k = v < 200 ? find(v) : nullptr; expect x;
  x.s("Error "); x.num(v);
  if (k) { x.s(": ("); x.s(k->name); x.s("), "); x.s(k->text); } else x.s(": <unknown error>");
  x.is(any<bool>("debug") ? best::format("{:?}", best::ioerr(v)) : best::format("{}", best::ioerr(v)));
  VP_REACH();
}
