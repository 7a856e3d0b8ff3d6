// Iterator adapters compute their sequence definitions.
// BOUND: sources of 0..4 (quick) / 0..6 (thorough) arbitrary 32-bit elements (single- and double-ended, with and without own size hints); take() counts at full machine width
#include "best/container/option.h"
#include "best/container/row.h"
#include "best/container/vec.h"
#include "best/iter/bounds.h"
#include "best/iter/iter.h"
#include "vp.h"
using namespace vp;

// A checked source: counts how often each element is produced.
struct src_impl {
  const int* p; size_t lo, hi; int* calls;
  best::option<int> next() { ++*calls; if (lo == hi) return best::none; return p[lo++]; }
};
struct dsrc_impl {
  const int* p; size_t lo, hi;
  best::option<int> next() { if (lo == hi) return best::none; return p[lo++]; }
  best::option<int> next_back() { if (lo == hi) return best::none; return p[--hi]; }
  best::size_hint size_hint() const { return {hi - lo, best::option<size_t>(hi - lo)}; }
};
struct data {
  size_t n; int v[8]; int calls = 0;
  data() : n(pick(VPQ(4, 6))) { for (size_t i = 0; i < n; i++) v[i] = any<int>("v"); }
  auto one() { calls = 0; return best::iter(src_impl{v, 0, n, &calls}); }
  auto two() { return best::iter(dsrc_impl{v, 0, n}); }
};
template <class I> static void bounds_hint(const I& it, u64 left) {
  auto h = it.size_hint();
  VP_CHECK(h.lower <= left);
  if (h.upper.has_value()) VP_CHECK(*h.upper >= left);
}
// over a source with an exact hint, adapters have exact hints
template <class I> static void exact(I it, size_t n) {
  while (true) {
    auto h = it.size_hint(); VP_CHECK(h.lower == n && h.upper.has_value() && *h.upper == n);
    if (n == 0) { VP_CHECK(!it.next().has_value()); return; }
    VP_CHECK(it.next().has_value()); n--;
  }
}
template <class I> static void drain(I it, const int* want, size_t n) {
  for (size_t i = 0; i < n; i++) {
    bounds_hint(it, n - i);
    auto v = it.next();
    VP_CHECK(v.has_value() && *v == want[i]);
  }
  bounds_hint(it, 0);
  VP_CHECK(!it.next().has_value());
}
VP_ENTRY(plain) {
  data d;
  exact(d.two(), d.n); exact(d.two().map([](int x) { return x; }), d.n); exact(d.two().enumerate(), d.n); exact(d.two().rev(), d.n);
  drain(d.one(), d.v, d.n);
  drain(d.two(), d.v, d.n);
  VP_CHECK(d.one().count() == d.n);
  VP_CHECK(d.calls == (int)d.n + 1);
  auto l = d.one().last();
  VP_CHECK(l.has_value() == (d.n > 0));
  if (d.n) { VP_CHECK(*l == d.v[d.n - 1]); vp_observe(*l); }
  size_t k = 0;
  for (int x : d.two()) { VP_CHECK(x == d.v[k]); k++; }
  VP_CHECK(k == d.n);
  k = 0;
  VP_REACH();
}
VP_ENTRY(map) {
  data d; int calls = 0;
  auto f = [&](int x) { calls++; return x ^ 0x55; };
  int w[8]; for (size_t i = 0; i < d.n; i++) w[i] = d.v[i] ^ 0x55;
  drain(d.two().map(f), w, d.n);
  VP_CHECK(calls == (int)d.n);
  auto m = d.two().map(f);
  size_t lo = 0, hi = d.n;
  while (true) {
    bool back = any<bool>("back");
    auto v = back ? m.next_back() : m.next();
    VP_CHECK(v.has_value() == (lo < hi));
    if (!v.has_value()) break;
    VP_CHECK(*v == w[back ? --hi : lo++]);
  }
  VP_CHECK(d.two().map(f).count() == d.n);
  VP_REACH();
}
VP_ENTRY(inspect) {
  data d; int seen[8]; size_t k = 0, k2 = 0;
  drain(d.two().inspect([&](int& x) { seen[k++] = x; }), d.v, d.n);
  VP_CHECK(k == d.n);
  for (size_t i = 0; i < k; i++) VP_CHECK(seen[i] == d.v[i]);
  drain(d.two().inspect([&] { k2++; }), d.v, d.n);
  VP_CHECK(k2 == d.n);
  VP_REACH();
}
VP_ENTRY(enumerate) {
  data d;
  auto e = d.two().enumerate();
  for (size_t i = 0; i < d.n; i++) {
    bounds_hint(e, d.n - i);
    auto v = e.next();
    VP_CHECK(v.has_value());
    auto [idx, x] = *v;
    VP_CHECK(idx == i && x == d.v[i]);
  }
  VP_CHECK(!e.next().has_value());
  VP_CHECK(d.one().enumerate().count() == d.n);
  auto l = d.one().enumerate().last();
  VP_CHECK(l.has_value() == (d.n > 0));
  VP_REACH();
}
VP_ENTRY(take) {
  data d;
  u64 n = any<u64>("n");
  size_t k = n < d.n ? n : d.n;
  drain(d.two().take(n), d.v, k);
  exact(d.two().take(n), k); exact(d.two().map([](int x) { return x; }).take(n), k); exact(d.two().take(n).take(2), k < 2 ? k : 2);
  auto h = d.one().take(n).size_hint(); VP_CHECK(h.lower == 0 && h.upper.has_value() && *h.upper <= n);
  VP_CHECK(d.one().take(n).count() == k);
  VP_CHECK(d.calls <= (int)k + 1 && d.calls >= (int)k);  // never consumes past its limit
  VP_CHECK(d.calls == (n <= d.n ? (int)n : (int)d.n + 1));
  auto l = d.two().take(n).last();
  VP_CHECK(l.has_value() == (k > 0));
  if (k) VP_CHECK(*l == d.v[k - 1]);
  VP_REACH();
}
VP_ENTRY(rev) {
  data d;
  int w[8]; for (size_t i = 0; i < d.n; i++) w[i] = d.v[d.n - 1 - i];
  drain(d.two().rev(), w, d.n);
  drain(d.two().rev().rev(), d.v, d.n);
  auto m = d.two().rev();
  size_t lo = 0, hi = d.n;
  while (true) {
    bool back = any<bool>("back");
    auto v = back ? m.next_back() : m.next();
    VP_CHECK(v.has_value() == (lo < hi));
    if (!v.has_value()) break;
    VP_CHECK(*v == w[back ? --hi : lo++]);
  }
  VP_CHECK(d.two().rev().count() == d.n);
  VP_REACH();
}
VP_ENTRY(collect) {
  data d;
  auto v = d.two().to_vec();
  VP_CHECK(v.size() == d.n);
  for (size_t i = 0; i < d.n; i++) VP_CHECK(v[i] == d.v[i]);
  best::vec<int> w = d.one().collect();
  VP_CHECK(w == v);
  auto x = d.two().map([](int a) { return a ^ 1; }).to_vec();
  VP_CHECK(x.size() == d.n);
  for (size_t i = 0; i < d.n; i++) VP_CHECK(x[i] == (d.v[i] ^ 1));
  VP_REACH();
}
VP_ENTRY(stacked) {
  data d;
  u64 n = any<u64>("n");
  size_t k = n < d.n ? n : d.n;
  int w[8]; for (size_t i = 0; i < d.n; i++) w[i] = d.v[d.n - 1 - i] ^ 3;
  drain(d.two().rev().map([](int a) { return a ^ 3; }).take(n), w, k);
  auto e = d.two().rev().take(n).enumerate();
  for (size_t i = 0; i < k; i++) {
    auto v = e.next();
    VP_CHECK(v.has_value() && v->at(best::index<0>) == i && v->at(best::index<1>) == d.v[d.n - 1 - i]);
  }
  VP_CHECK(!e.next().has_value());
  VP_REACH();
}
