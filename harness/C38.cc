// Reflection reaches every reflected field and value exactly once, by name and by value.
// BOUND: structs of 1..6 fields of several types, enums of up to 5 values over underlying types of 8..64 bits; lookup keys of 0..3 arbitrary runes' bytes (thorough 0..4), every enum value at full width
// ORACLE: the fields and enumerators written out by hand
#include <array>
#include "best/meta/reflect.h"
#include "best/meta/bit_enum.h"
#include "best/text/format.h"
#include "best/log/wtf.h"
#include "fmt.h"
using namespace vp;
namespace c38 {
struct Tag { int v; using BestRowKey = Tag; constexpr bool operator==(const Tag&) const = default; };
struct plain { u8 ab; i64 a; int abc; u16 b; };
struct custom {
  int x, hid; u8 y; i64 zz;
  constexpr friend auto BestReflect(auto& m, custom*) { return m.infer().with(Tag{7}).with(&custom::y, Tag{8}).hide(&custom::hid).with(&custom::y, best::str("two")); }
};
struct manual {
  int p; u8 q; int r;
  constexpr friend auto BestReflect(auto& m, manual*) { return m.with(&manual::r, Tag{3}).with(&manual::p); }
};
struct one { int v; };
enum class E { A, B, Cc = 7, Ab = 3, D = 63 };
enum class U8 : u8 { lo = 1, hi = 40 };
enum class I64 : i64 { zero = 0, two = 2 };
enum class T { q, w, e };
constexpr auto BestReflect(auto& m, T*) { return m.infer().with(T::w, Tag{5}).hide(T::q); }
enum class Neg : int { m1 = -1, p = 1 };
constexpr auto BestReflect(auto& m, Neg*) { return m.with(Neg::m1).with(Neg::p, Tag{1}).with(Neg(5)); }
enum class Flags : u16 { None = 0, A = 1, B = 2, Top = 0x8000 };
BEST_BIT_ENUM(Flags)
enum class Sgn : i8 { Z = 0 };
BEST_BIT_ENUM(Sgn)
BEST_ENUM_CMP(Sgn)
}  // namespace c38
using namespace c38;
static bool is(best::str s, const char* t) { size_t k = strlen(t); if (s.size() != k) return false; return memcmp(s.data(), t, k) == 0; }
static plain arb() { return {any<u8>("ab"), any<i64>("a"), any<int>("abc"), any<u16>("b")}; }
VP_ENTRY(each_field) {
  plain v = arb(), o = v; size_t i = 0; const char* names[] = {"ab", "a", "abc", "b"}; i64 got[4];
  best::reflect<plain>.each([&](auto f) { VP_CHECK(i < 4 && is(f.name(), names[i])); got[i++] = v->*f; VP_CHECK((i64)(&v->*f) == got[i - 1]); const auto& cv = v; VP_CHECK(&(cv->*f) == &(v->*f)); });
  VP_CHECK(i == 4 && got[0] == v.ab && got[1] == v.a && got[2] == v.abc && got[3] == v.b);
  // writing through a field changes that field only
  i64 w = any<i64>("w"); size_t k = pick(3, "which"); i = 0;
  best::reflect<plain>.each([&](auto f) { if (i++ == k) v->*f = (typename decltype(f)::type)w; });
  VP_CHECK(v.ab == (k == 0 ? (u8)w : o.ab) && v.a == (k == 1 ? w : o.a) && v.abc == (k == 2 ? (int)w : o.abc) && v.b == (k == 3 ? (u16)w : o.b));
  size_t n = best::reflect<plain>.apply([](auto... f) { return sizeof...(f); }); VP_CHECK(n == 4);
  VP_REACH();
}
VP_ENTRY(fields) {
  plain v = arb(), o = v; auto r = best::fields(v);
  VP_CHECK(&r[best::index<0>] == &v.ab && &r[best::index<1>] == &v.a && &r[best::index<2>] == &v.abc && &r[best::index<3>] == &v.b);
  static_assert(decltype(r)::types.size() == 4);
  custom c{any<int>("x"), 1, any<u8>("y"), any<i64>("zz")}; auto q = best::fields(c);
  VP_CHECK(&q[best::index<0>] == &c.x && &q[best::index<1>] == &c.y && &q[best::index<2>] == &c.zz); static_assert(decltype(q)::types.size() == 3);
  manual m{1, 2, 3}; auto t = best::fields(m); VP_CHECK(&t[best::index<0>] == &m.r && &t[best::index<1>] == &m.p); static_assert(decltype(t)::types.size() == 2);
  const one k{any<int>("v")}; auto u = best::fields(k); VP_CHECK(&u.first() == &k.v);
  std::array<int, 3> a{any<int>("a"), 2, 3}; auto s = best::fields(a); VP_CHECK(&s[best::index<2>] == &a[2] && &s[best::index<0>] == &a[0]);
  (void)o; VP_REACH();
}
// an arbitrary key; names of the type in order
template <class T> static void lookup(std::initializer_list<const char*> names) {
  size_t n = pick(VPQ(3, 4), "len"); char k[4]; for (size_t i = 0; i < n; i++) { k[i] = any<char>("k"); vp_assume((u8)k[i] < 0x80); }
  best::str key = *best::str::from(best::span(k, n));
  int want = -1, i = 0; for (auto s : names) { size_t l = strlen(s); if (l == n) { bool same = true; for (size_t j = 0; j < n; j++) same &= s[j] == k[j]; if (same) want = i; } i++; }
  int got = best::reflect<T>.match(key, [&](auto f) { int at = 0, found = -2; best::reflect<T>.each([&](auto g) { if (f.name() == g.name()) found = at; at++; }); return found; }, [] { return -1; });
  VP_CHECK(got == want); VP_REACH();
}
VP_ENTRY(name_plain) { lookup<plain>({"ab", "a", "abc", "b"}); }
VP_ENTRY(name_custom) { lookup<custom>({"x", "y", "zz"}); }
VP_ENTRY(name_manual) { lookup<manual>({"r", "p"}); }
VP_ENTRY(name_one) { lookup<one>({"v"}); }
VP_ENTRY(name_enum) { lookup<E>({"A", "B", "Ab", "Cc", "D"}); }
VP_ENTRY(name_hidden) { lookup<T>({"w", "e"}); }
template <class T> static void value(std::initializer_list<std::pair<T, const char*>> vs) {
  auto x = (T)any<std::underlying_type_t<T>>("value"); const char* want = nullptr; for (auto& [v, n] : vs) if (v == x) want = n;
  int calls = 0;
  best::reflect<T>.match(x, [&](auto v) { calls++; VP_CHECK(v.value == x && want && is(v.name(), want)); }, [&] { calls++; VP_CHECK(!want); });
  VP_CHECK(calls == 1);
  size_t i = 0; best::reflect<T>.each([&](auto v) { VP_CHECK(i < vs.size() && v.value == vs.begin()[i].first && is(v.name(), vs.begin()[i].second)); i++; }); VP_CHECK(i == vs.size());
  VP_REACH();
}
VP_ENTRY(value_enum) { value<E>({{E::A, "A"}, {E::B, "B"}, {E::Ab, "Ab"}, {E::Cc, "Cc"}, {E::D, "D"}}); }
VP_ENTRY(value_u8) { value<U8>({{U8::lo, "lo"}, {U8::hi, "hi"}}); }
VP_ENTRY(value_i64) { value<I64>({{I64::zero, "zero"}, {I64::two, "two"}}); }
VP_ENTRY(value_hidden) { value<T>({{T::w, "w"}, {T::e, "e"}}); }
VP_ENTRY(value_manual) {
  auto x = (Neg)any<int>("value"); int got = best::reflect<Neg>.match(x, [&](auto v) { VP_CHECK(v.value == x); return 1; }, [] { return 0; });
  VP_CHECK(got == (x == Neg::m1 || x == Neg::p || x == Neg(5))); VP_REACH();
}
VP_ENTRY(tags) {
  auto t = best::reflect<custom>.tags(best::types<Tag>); VP_CHECK(t.size() == 1 && t.first().v == 7);
  int seen = 0, i = 0;
  best::reflect<custom>.each([&](auto f) { auto a = f.tags(best::types<Tag>); auto b = f.tags(best::types<best::str>); VP_CHECK(a.size() == (i == 1) && b.size() == (i == 1)); if constexpr (!a.is_empty()) { VP_CHECK(a.first().v == 8 && is(b.first(), "two")); seen++; } i++; });
  i = 0; best::reflect<T>.each([&](auto f) { auto a = f.tags(best::types<Tag>); VP_CHECK(a.size() == (i == 0)); if constexpr (!a.is_empty()) { VP_CHECK(a.first().v == 5); seen++; } i++; });
  i = 0; best::reflect<manual>.each([&](auto f) { auto a = f.tags(best::types<Tag>); VP_CHECK(a.size() == (i == 0)); if constexpr (!a.is_empty()) { VP_CHECK(a.first().v == 3); seen++; } i++; });
  VP_CHECK(seen == 3 && i == 2); VP_REACH();
}
VP_ENTRY(zip) {
  plain v = arb(), w{any<u8>("ab2"), any<i64>("a2"), any<int>("abc2"), any<u16>("b2")}; const plain o = v; size_t i = 0;
  best::reflect<plain>.zip_fields(v, w, [&](auto& a, auto& b) { static_assert(best::same<decltype(a), decltype(b)>); VP_CHECK((char*)&a - (char*)&v == (char*)&b - (char*)&w); a = b; i++; });
  VP_CHECK(i == 4 && v.ab == w.ab && v.a == w.a && v.abc == w.abc && v.b == w.b);
  custom c{1, 2, 3, 4}, d{5, 6, 7, 8}, e{9, 10, 11, 12}; i = 0;
  best::reflect<custom>.zip_fields(c, d, e, [&](auto& a, const auto& b, auto& z) { VP_CHECK(b - a == 4 && z - b == 4); i++; }); VP_CHECK(i == 3);
  (void)o; VP_REACH();
}
VP_ENTRY(format) {
  expect x; custom c{(int)pick(3, "x"), 5, (u8)pick(2, "y"), 40}; x.s("custom {x: "); x.num(c.x); x.s(", y: "); x.num(c.y); x.s(", zz: 40}"); x.is(best::format("{:?}", c));
  VP_REACH();
}
VP_ENTRY(format_enum) {
  expect y; auto u = (U8)any<u8>("value"); if (u == U8::lo) y.s("U8::lo"); else if (u == U8::hi) y.s("U8::hi"); else { y.s("U8("); y.num((u8)u); y.c(')'); }
  y.is(best::format("{:?}", u)); VP_REACH();
}
VP_ENTRY(bits) {
  u16 a = any<u16>("a"), b = any<u16>("b"); Flags f(Flags{a}), g(Flags{b});
  VP_CHECK((f | g) == Flags(a | b) && (f & g) == Flags(a & b) && (f ^ g) == Flags(a ^ b) && ~f == Flags((u16)~a));
  i8 c = any<i8>("c"), d = any<i8>("d"); Sgn s(Sgn{c}), t(Sgn{d});
  VP_CHECK((i8)(s | t) == (i8)(c | d) && (i8)(s & t) == (i8)(c & d) && (i8)(s ^ t) == (i8)(c ^ d) && (i8)~s == (i8)~c);
  VP_CHECK((s == t) == (c == d) && (s != t) == (c != d) && (s == d) == (c == d) && (s != d) == (c != d) && (c == t) == (c == d) && (c != t) == (c != d));
  VP_REACH();
}
