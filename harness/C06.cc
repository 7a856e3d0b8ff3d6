// Range expressions denote exactly the elements they say, or are refused.
// BOUND: none: every start, end, inclusive end, count and length at full machine width (64 bits), every combination of given fields
#include "best/container/option.h"
#include "best/iter/bounds.h"
#include "best/iter/iter.h"
#include "vp.h"
using namespace vp;

struct form { best::bounds b; bool none; u128 s, e; bool rev; };
// An arbitrary range expression, and what it denotes: [s, e) (`none`: no end is given)
static form any_form() {
  form f{};
  u64 s = any<u64>("start"); f.b.start = s; f.s = s; f.none = true;
  u64 e = any<u64>("end"), i = any<u64>("incl"), c = any<u64>("count");
  unsigned m = pick(7, "given");
  if (m & 1) f.b.end = e;
  if (m & 2) f.b.including_end = i;
  if (m & 4) f.b.count = c;
  if (m & 1) f.none = false, f.e = e;
  else if (m & 2) f.none = false, f.e = (u128)i + 1, f.rev = i < s;  // an inclusive end before the start is refused
  else if (m & 4) f.none = false, f.e = (u128)s + c;
  return f;
}
VP_ENTRY(try_count) {
  form f = any_form();
  u64 max = any<u64>("max");
  u128 e = f.none ? max : f.e;
  bool ok = !f.rev && f.s <= e && e <= max;
  auto r = f.b.try_compute_count(max);
  VP_CHECK(r.has_value() == ok);
  if (r.has_value()) { VP_CHECK(*r == (u64)(e - f.s)); vp_observe(*r); }
  VP_REACH();
}
VP_ENTRY(count_or_crash) {
  form f = any_form();
  u64 max = any<u64>("max");
  u128 e = f.none ? max : f.e;
  bool ok = !f.rev && f.s <= e && e <= max;
  VP_CRASHES_IFF(!ok, u64 r = f.b.compute_count(max); VP_CHECK(r == (u64)(e - f.s)); vp_observe(r));
  VP_REACH();
}
VP_ENTRY(count_with_location) {
  form f = any_form();
  u64 max = any<u64>("max");
  u128 e = f.none ? max : f.e;
  bool ok = !f.rev && f.s <= e && e <= max;
  best::bounds::with_location w = f.b;
  VP_CHECK(w.start == f.b.start && w.end == f.b.end && w.including_end == f.b.including_end && w.count == f.b.count);
  VP_CRASHES_IFF(!ok, u64 r = w.compute_count(max); VP_CHECK(r == (u64)(e - f.s)));
  VP_REACH();
}
// Without a length: the number of elements denoted, if that is determined and a number.
VP_ENTRY(try_count_unbounded) {
  form f = any_form();
  auto r = f.b.try_compute_count({});
  bool ok = !f.none && !f.rev && f.s <= f.e && (u64)(f.e - f.s) == f.e - f.s;
  // an end that no size can have may be refused or not
  if (ok && f.e > (u128)(u64)-1) vp_assume(!r.has_value() || *r == (u64)(f.e - f.s));
  else VP_CHECK(r.has_value() == ok);
  if (ok && r.has_value()) VP_CHECK(*r == (u64)(f.e - f.s));
  VP_REACH();
}
VP_ENTRY(wrapping) {
  form f = any_form();
  u64 max = any<u64>("max");
  u128 e = f.none ? max : f.e;
  auto r = f.b.wrapping_normalize(max);
  VP_CHECK(r.start == f.b.start && !r.end.has_value() && !r.including_end.has_value());
  VP_CHECK(r.count.has_value() && *r.count == (u64)(e - f.s));
  VP_REACH();
}
