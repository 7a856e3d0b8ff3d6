// Hash-consed bit-vector expressions (widths 1..128) with light simplification.
#pragma once
#include <cassert>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>
#include <deque>

typedef unsigned __int128 u128;
typedef __int128 s128;

enum Op : uint8_t {
  CONST, VAR, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
  CONCAT, EXTRACT, ZEXT, SEXT, EQ, ULT, ULE, SLT, SLE, ITE
};

struct Expr {
  Op op;
  uint8_t nk;
  uint16_t w;
  uint32_t id;
  const Expr* k[3];
  u128 c;  // CONST: value; VAR: var index; EXTRACT: low bit
  bool sym;  // contains a variable
};
typedef const Expr* E;

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline s128 sx(u128 v, unsigned w) {
  if (w >= 128) return (s128)v;
  u128 s = (u128)1 << (w - 1);
  return (s128)((v ^ s) - s);
}

struct VarInfo { std::string name; unsigned w; bool undef; };

struct Ctx {
  std::deque<Expr> arena;
  struct KeyHash { size_t operator()(const Expr* e) const {
    size_t h = e->op * 0x9E3779B97F4A7C15ull + e->w;
    for (int i = 0; i < e->nk; i++) h = (h ^ e->k[i]->id) * 0xff51afd7ed558ccdull + (h >> 29);
    h ^= (uint64_t)e->c * 0xc4ceb9fe1a85ec53ull; h ^= (uint64_t)(e->c >> 64) * 0x9E3779B97F4A7C15ull;
    return h ^ (h >> 31);
  } };
  struct KeyEq { bool operator()(const Expr* a, const Expr* b) const {
    if (a->op != b->op || a->w != b->w || a->nk != b->nk || a->c != b->c) return false;
    for (int i = 0; i < a->nk; i++) if (a->k[i] != b->k[i]) return false;
    return true;
  } };
  struct Table {  // open addressing
    std::vector<const Expr*> t; size_t n = 0;
    Table() : t(1 << 16, nullptr) {}
  } tab;
  std::vector<VarInfo> vars;
  E byteConst[256];
  E T, F;

  Ctx() {
    for (int i = 0; i < 256; i++) byteConst[i] = cst(8, i);
    T = cst(1, 1); F = cst(1, 0);
  }

  E intern(Expr& x) {
    size_t h = KeyHash{}(&x);
    size_t m = tab.t.size() - 1, i = h & m;
    while (tab.t[i]) { if (KeyEq{}(tab.t[i], &x)) return tab.t[i]; i = (i + 1) & m; }
    x.id = arena.size();
    arena.push_back(x);
    E r = &arena.back();
    tab.t[i] = r;
    if (++tab.n * 2 > tab.t.size()) {
      std::vector<const Expr*> nt(tab.t.size() * 2, nullptr);
      size_t mm = nt.size() - 1;
      for (auto e : tab.t) if (e) { size_t j = KeyHash{}(e) & mm; while (nt[j]) j = (j + 1) & mm; nt[j] = e; }
      tab.t.swap(nt);
    }
    return r;
  }
  E raw(Op op, unsigned w, E a = nullptr, E b = nullptr, E c = nullptr, u128 v = 0) {
    Expr x; x.op = op; x.w = w; x.nk = c ? 3 : b ? 2 : a ? 1 : 0; x.k[0] = a; x.k[1] = b; x.k[2] = c; x.c = v;
    x.sym = op == VAR || (a && a->sym) || (b && b->sym) || (c && c->sym);
    return intern(x);
  }
  E cst(unsigned w, u128 v) { return raw(CONST, w, nullptr, nullptr, nullptr, v & maskw(w)); }
  E boolc(bool b) { return b ? T : F; }
  E var(const std::string& name, unsigned w, bool undef = false) {
    vars.push_back({name, w, undef});
    return raw(VAR, w, nullptr, nullptr, nullptr, vars.size() - 1);
  }
  static bool isc(E e) { return e->op == CONST; }
  static bool isc(E e, u128 v) { return e->op == CONST && e->c == v; }

  static u128 evalBin(Op op, unsigned w, u128 a, u128 b, bool* div0 = nullptr) {
    u128 m = maskw(w);
    switch (op) {
      case ADD: return (a + b) & m;
      case SUB: return (a - b) & m;
      case MUL: return (a * b) & m;
      case UDIV: return b ? (a / b) & m : m;
      case UREM: return b ? (a % b) & m : a;
      case SDIV: { s128 x = sx(a, w), y = sx(b, w); if (!y) return (x < 0 ? 1 : m) & m; if (y == -1) return (0 - a) & m; return (u128)(x / y) & m; }
      case SREM: { s128 x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
      case AND: return a & b;
      case OR: return a | b;
      case XOR: return a ^ b;
      case SHL: return b >= w ? 0 : (a << (unsigned)b) & m;
      case LSHR: return b >= w ? 0 : a >> (unsigned)b;
      case ASHR: { s128 x = sx(a, w); unsigned s = b >= w ? w - 1 : (unsigned)b; return (u128)(x >> s) & m; }
      case EQ: return a == b;
      case ULT: return a < b;
      case ULE: return a <= b;
      case SLT: return sx(a, w) < sx(b, w);
      case SLE: return sx(a, w) <= sx(b, w);
      default: abort();
    }
  }

  // ---- constructors
  E not_(E a) {
    assert(a->w == 1);
    if (isc(a)) return boolc(!a->c);
    if (a->op == XOR && isc(a->k[1], 1)) return a->k[0];
    switch (a->op) {
      case ULT: return raw(ULE, 1, a->k[1], a->k[0]);
      case ULE: return raw(ULT, 1, a->k[1], a->k[0]);
      case SLT: return raw(SLE, 1, a->k[1], a->k[0]);
      case SLE: return raw(SLT, 1, a->k[1], a->k[0]);
      default: return raw(XOR, 1, a, T);
    }
  }
  bool isNot(E a, E b) { return (a->op == XOR && a->w == 1 && a->k[0] == b && isc(a->k[1], 1)) || (b->op == XOR && b->w == 1 && b->k[0] == a && isc(b->k[1], 1)) ||
      (a->op == ULT && b->op == ULE && a->k[0] == b->k[1] && a->k[1] == b->k[0]) || (a->op == ULE && b->op == ULT && a->k[0] == b->k[1] && a->k[1] == b->k[0]) ||
      (a->op == SLT && b->op == SLE && a->k[0] == b->k[1] && a->k[1] == b->k[0]) || (a->op == SLE && b->op == SLT && a->k[0] == b->k[1] && a->k[1] == b->k[0]); }
  E and_(E a, E b) { return bin(AND, a, b); }
  E or_(E a, E b) { return bin(OR, a, b); }

  static bool constLeaves(E e, int depth = 0) {
    if (isc(e)) return true;
    if (e->op == ITE && depth < 40) return constLeaves(e->k[1], depth + 1) && constLeaves(e->k[2], depth + 1);
    return false;
  }
  static unsigned tz(E e) {  // known trailing zero bits
    switch (e->op) {
      case CONST: { if (!e->c) return e->w; unsigned n = 0; while (!((e->c >> n) & 1)) n++; return n; }
      case CONCAT: { unsigned t = tz(e->k[1]); return t < e->k[1]->w ? t : t + tz(e->k[0]); }
      case ZEXT: case SEXT: { unsigned t = tz(e->k[0]); return t == e->k[0]->w ? e->w : t; }
      case ADD: case SUB: case OR: case XOR: { unsigned a = tz(e->k[0]), b = tz(e->k[1]); return a < b ? a : b; }
      case AND: { unsigned a = tz(e->k[0]), b = tz(e->k[1]); return a > b ? a : b; }
      case MUL: { unsigned a = tz(e->k[0]) + tz(e->k[1]); return a > e->w ? e->w : a; }
      case ITE: { unsigned a = tz(e->k[1]), b = tz(e->k[2]); return a < b ? a : b; }
      case EXTRACT: { unsigned t = tz(e->k[0]); unsigned r = t > e->c ? t - (unsigned)e->c : 0; return r > e->w ? e->w : r; }
      default: return 0;
    }
  }
  // upper bound on the unsigned value
  static u128 umax(E e, int d = 0) {
    u128 m = maskw(e->w);
    if (d > 8) return m;
    switch (e->op) {
      case CONST: return e->c;
      case ZEXT: return umax(e->k[0], d + 1);
      case AND: { u128 a = umax(e->k[0], d + 1), b = umax(e->k[1], d + 1); return a < b ? a : b; }
      case ITE: { u128 a = umax(e->k[1], d + 1), b = umax(e->k[2], d + 1); return a > b ? a : b; }
      case CONCAT: if (e->k[0]->op == CONST) return (e->k[0]->c << e->k[1]->w) | umax(e->k[1], d + 1);
                   return (umax(e->k[0], d+1) << e->k[1]->w) | maskw(e->k[1]->w);
      case UDIV: if (isc(e->k[1]) && e->k[1]->c) return umax(e->k[0], d + 1) / e->k[1]->c; return m;
      case UREM: if (isc(e->k[1]) && e->k[1]->c) return e->k[1]->c - 1; return m;
      case ADD: { u128 a = umax(e->k[0], d + 1), b = umax(e->k[1], d + 1); if (e->w < 127 && a + b <= m) return a + b; return m; }
      default: return m;
    }
  }

  E bin(Op op, E a, E b) {
    unsigned w = a->w;
    assert(a->w == b->w);
    bool cmp = op >= EQ && op <= SLE;
    if (isc(a) && isc(b)) return cst(cmp ? 1 : w, evalBin(op, w, a->c, b->c));
    // commute constants right
    if (isc(a) && (op == ADD || op == MUL || op == AND || op == OR || op == XOR || op == EQ)) std::swap(a, b);
    u128 m = maskw(w);
    switch (op) {
      case ADD:
        if (w == 1) return bin(XOR, a, b);
        if (isc(b, 0)) return a;
        if (isc(b)) {
          if (a->op == ADD && isc(a->k[1])) return bin(ADD, a->k[0], cst(w, a->k[1]->c + b->c));
          if (a->op == SUB && isc(a->k[0])) return bin(SUB, cst(w, a->k[0]->c + b->c), a->k[1]);
        } else {
          if (a->op == ADD && isc(a->k[1])) return bin(ADD, bin(ADD, a->k[0], b), a->k[1]);
          if (b->op == ADD && isc(b->k[1])) return bin(ADD, bin(ADD, a, b->k[0]), b->k[1]);
          if (a->op == SUB && a->k[1] == b) return a->k[0];
          if (b->op == SUB && b->k[1] == a) return b->k[0];
          if (a->id > b->id) std::swap(a, b);
        }
        break;
      case SUB:
        if (w == 1) return bin(XOR, a, b);
        // a - (a / d) * d is the remainder
        if (b->op == MUL) for (int i = 0; i < 2; i++) {
          E q = b->k[i], d = b->k[1 - i];
          if ((q->op == UDIV || q->op == SDIV) && q->k[0] == a && q->k[1] == d) return bin(q->op == UDIV ? UREM : SREM, a, d);
        }
        if (isc(b)) return bin(ADD, a, cst(w, 0 - b->c));
        if (a == b) return cst(w, 0);
        if (a->op == ADD && a->k[0] == b) return a->k[1];
        if (a->op == ADD && a->k[1] == b) return a->k[0];
        if (a->op == ADD && isc(a->k[1])) return bin(ADD, bin(SUB, a->k[0], b), a->k[1]);
        if (b->op == ADD && isc(b->k[1])) return bin(ADD, bin(SUB, a, b->k[0]), cst(w, 0 - b->k[1]->c));
        if (b->op == ADD && b->k[0] == a) return bin(SUB, cst(w, 0), b->k[1]);
        if (b->op == ADD && b->k[1] == a) return bin(SUB, cst(w, 0), b->k[0]);
        break;
      case MUL:
        if (w == 1) return bin(AND, a, b);
        if (isc(b, 0)) return b;
        if (isc(b, 1)) return a;
        if (isc(b)) { unsigned t = tz(b); if (((u128)1 << t) == b->c) return bin(SHL, a, cst(w, t)); }
        else if (a->id > b->id) std::swap(a, b);
        // extend the exact product of the narrow operands instead
        if ((a->op == SEXT || a->op == ZEXT) && a->op == b->op && a->k[0]->w + b->k[0]->w < w) {
          unsigned n = a->k[0]->w + b->k[0]->w; bool sg = a->op == SEXT;
          E p = bin(MUL, sg ? sext(a->k[0], n) : zext(a->k[0], n), sg ? sext(b->k[0], n) : zext(b->k[0], n));
          return sg ? sext(p, w) : zext(p, w);
        }
        break;
      case UDIV:
        if (isc(b, 1)) return a;
        if (isc(b) && b->c) { unsigned t = tz(b); if (((u128)1 << t) == b->c) return bin(LSHR, a, cst(w, t)); }
        if (isc(b) && umax(a) < b->c) return cst(w, 0);
        if (isc(b) && a->op == UDIV && isc(a->k[1]) && a->k[1]->c && b->c) {  // (x / c) / d = x / (c * d)
          if (a->k[1]->c > m / b->c) return cst(w, 0);
          return bin(UDIV, a->k[0], cst(w, a->k[1]->c * b->c));
        }
        if (isc(b) && a->op == ZEXT) return zext(bin(UDIV, a->k[0], cst(a->k[0]->w, b->c)), w);
        break;
      case UREM:
        if (isc(b, 1)) return cst(w, 0);
        if (isc(b) && b->c) { unsigned t = tz(b); if (((u128)1 << t) == b->c) return bin(AND, a, cst(w, b->c - 1)); }
        if (isc(b) && umax(a) < b->c) return a;
        if (isc(b) && b->c && a->op == ZEXT) return zext(bin(UREM, a->k[0], cst(a->k[0]->w, b->c)), w);
        break;
      case SDIV: if (isc(b, 1)) return a; break;
      case SREM: break;
      case AND:
        if (isc(b, 0)) return b;
        if (isc(b, m)) return a;
        if (a == b) return a;
        if (w == 1) {
          if (isNot(a, b)) return F;
          if (a->op == AND && (a->k[0] == b || a->k[1] == b)) return a;
          if (b->op == AND && (b->k[0] == a || b->k[1] == a)) return b;
          // x==c1 & x==c2
          if (a->op == EQ && b->op == EQ && a->k[0] == b->k[0] && isc(a->k[1]) && isc(b->k[1]) && a->k[1] != b->k[1]) return F;
        }
        if (isc(b)) {
          if (a->op == AND && isc(a->k[1])) return bin(AND, a->k[0], cst(w, a->k[1]->c & b->c));
          // low mask
          u128 p = b->c + 1;
          if ((p & b->c) == 0) { unsigned n = 0; while ((b->c >> n) & 1) n++; if (n < w) return zext(extract(a, 0, n), w); }
          if (a->op == CONCAT) { unsigned lw = a->k[1]->w; return concat(bin(AND, a->k[0], cst(a->k[0]->w, b->c >> lw)), bin(AND, a->k[1], cst(lw, b->c))); }
          if (a->op == ZEXT) { return zext(bin(AND, a->k[0], cst(a->k[0]->w, b->c)), w); }
          // contiguous high/mid masks: split into three pieces
          { unsigned t = tz(b); u128 q = b->c >> t; if (t > 0 && ((q + 1) & q) == 0) {
              unsigned n = 0; while ((q >> n) & 1) n++;
              E mid = concat(extract(a, t, n), cst(t, 0)); return t + n < w ? zext(mid, w) : mid; } }
        } else if (a->id > b->id) std::swap(a, b);
        break;
      case OR:
        if (isc(b, 0)) return a;
        if (isc(b, m)) return b;
        if (a == b) return a;
        if (w == 1) {
          if (isNot(a, b)) return T;
          if (a->op == OR && (a->k[0] == b || a->k[1] == b)) return a;
          if (b->op == OR && (b->k[0] == a || b->k[1] == a)) return b;
        }
        if (isc(b)) {
          if (a->op == OR && isc(a->k[1])) return bin(OR, a->k[0], cst(w, a->k[1]->c | b->c));
          if (a->op == CONCAT) { unsigned lw = a->k[1]->w; return concat(bin(OR, a->k[0], cst(a->k[0]->w, b->c >> lw)), bin(OR, a->k[1], cst(lw, b->c))); }
          if (a->op == ZEXT) { unsigned lw = a->k[0]->w; return concat(cst(w - lw, b->c >> lw), bin(OR, a->k[0], cst(lw, b->c))); }
        } else {
          // disjoint: (x << n) | zext(y)
          E hi = a, lo = b;
          for (int s = 0; s < 2; s++, std::swap(hi, lo)) {
            unsigned t = tz(hi);
            if (t > 0 && t < w) {
              u128 um = umax(lo);
              if (um < ((u128)1 << t)) return concat(extract(hi, t, w - t), extract(lo, 0, t));
            }
          }
          if (a->id > b->id) std::swap(a, b);
        }
        break;
      case XOR:
        if (isc(b, 0)) return a;
        if (a == b) return cst(w, 0);
        if (w == 1 && isc(b, 1)) return not_(a);
        if (isc(b)) {
          if (a->op == XOR && isc(a->k[1])) return bin(XOR, a->k[0], cst(w, a->k[1]->c ^ b->c));
          if (a->op == CONCAT) { unsigned lw = a->k[1]->w; return concat(bin(XOR, a->k[0], cst(a->k[0]->w, b->c >> lw)), bin(XOR, a->k[1], cst(lw, b->c))); }
          if (a->op == ZEXT) { unsigned lw = a->k[0]->w; return concat(cst(w - lw, b->c >> lw), bin(XOR, a->k[0], cst(lw, b->c))); }
        } else {
          if (w == 1 && isNot(a, b)) return T;
          if (a->id > b->id) std::swap(a, b);
        }
        break;
      case SHL:
        if (isc(b)) { if (b->c >= w) return cst(w, 0); if (!b->c) return a; unsigned n = (unsigned)b->c; return concat(extract(a, 0, w - n), cst(n, 0)); }
        if (isc(a, 0)) return a;
        break;
      case LSHR:
        if (isc(b)) { if (b->c >= w) return cst(w, 0); if (!b->c) return a; unsigned n = (unsigned)b->c; return zext(extract(a, n, w - n), w); }
        if (isc(a, 0)) return a;
        break;
      case ASHR:
        if (isc(b)) { unsigned n = b->c >= w ? w - 1 : (unsigned)b->c; if (!n) return a; return sext(extract(a, n, w - n), w); }
        break;
      case EQ:
        if (a == b) return T;
        if (w == 1) { if (isc(b, 1)) return a; if (isc(b, 0)) return not_(a); }
        if (isc(b)) {
          u128 c = b->c;
          switch (a->op) {
            case ZEXT: if (c >> a->k[0]->w) return F; return bin(EQ, a->k[0], cst(a->k[0]->w, c));
            case SEXT: { unsigned n = a->k[0]->w; if (((u128)sx(c & maskw(n), n) & m) != c) return F; return bin(EQ, a->k[0], cst(n, c)); }
            case ADD: if (isc(a->k[1])) return bin(EQ, a->k[0], cst(w, c - a->k[1]->c)); break;
            case SUB: if (isc(a->k[0])) return bin(EQ, a->k[1], cst(w, a->k[0]->c - c)); if (c == 0) return bin(EQ, a->k[0], a->k[1]); break;
            case XOR: if (isc(a->k[1])) return bin(EQ, a->k[0], cst(w, c ^ a->k[1]->c)); if (c == 0) return bin(EQ, a->k[0], a->k[1]); break;
            case UDIV: if (isc(a->k[1]) && a->k[1]->c) {  // a range test
              E lo = bin(ULT, a, b), hi = bin(ULT, b, a); return bin(AND, not_(lo), not_(hi)); } break;
            case CONCAT: { unsigned lw = a->k[1]->w; 
              E lo = bin(EQ, a->k[1], cst(lw, c)); if (lo == F) return F;
              E hi = bin(EQ, a->k[0], cst(a->k[0]->w, c >> lw)); return bin(AND, hi, lo); }
            case ITE: {
              if (isc(a->k[1]) || isc(a->k[2])) {
                E t = bin(EQ, a->k[1], b), f = bin(EQ, a->k[2], b);
                return ite(a->k[0], t, f);
              } break; }
            default: break;
          }
          if (c > umax(a)) return F;
        } else {
          if (a->op == ZEXT && b->op == ZEXT && a->k[0]->w == b->k[0]->w) return bin(EQ, a->k[0], b->k[0]);
          if (a->op == SEXT && b->op == SEXT && a->k[0]->w == b->k[0]->w) return bin(EQ, a->k[0], b->k[0]);
          if (a->op == ADD && b->op == ADD && isc(a->k[1]) && isc(b->k[1])) {
            if (a->k[0] == b->k[0]) return boolc(a->k[1] == b->k[1]);
            return bin(EQ, a->k[0], bin(ADD, b->k[0], cst(w, b->k[1]->c - a->k[1]->c)));
          }
          if (a->op == ADD && isc(a->k[1]) && a->k[0] == b) return boolc(a->k[1]->c == 0);
          if (b->op == ADD && isc(b->k[1]) && b->k[0] == a) return boolc(b->k[1]->c == 0);
          if (a->id > b->id) std::swap(a, b);
        }
        break;
      case ULT:
        if (a == b) return F;
        if (isc(b, 0)) return F;
        if (isc(a, m)) return F;
        if (isc(b)) { if (umax(a) < b->c) return T;
          if (a->op == ZEXT) return bin(ULT, a->k[0], cst(a->k[0]->w, b->c));
          if (a->op == UDIV && isc(a->k[1]) && a->k[1]->c) return b->c > m / a->k[1]->c ? T : bin(ULT, a->k[0], cst(w, b->c * a->k[1]->c));
          if (b->c == 1) return bin(EQ, a, cst(w, 0)); }
        if (isc(a)) { if (umax(b) <= a->c) return F;
          if (b->op == ZEXT) return bin(ULT, cst(b->k[0]->w, a->c), b->k[0]);
          if (b->op == UDIV && isc(b->k[1]) && b->k[1]->c) return not_(bin(ULT, b, cst(w, a->c + 1)));
          if (a->c == 0) return not_(bin(EQ, b, a)); }
        if (a->op == ZEXT && b->op == ZEXT && a->k[0]->w == b->k[0]->w) return bin(ULT, a->k[0], b->k[0]);
        if (a->op == ITE && isc(b) && constLeaves(a)) return ite(a->k[0], bin(op, a->k[1], b), bin(op, a->k[2], b));
        if (b->op == ITE && isc(a) && constLeaves(b)) return ite(b->k[0], bin(op, a, b->k[1]), bin(op, a, b->k[2]));
        break;
      case ULE: return not_(bin(ULT, b, a));
      case SLT:
        if (a == b) return F;
        if (isc(b) && b->c == (u128)1 << (w - 1)) return F;
        if (a->op == ZEXT && b->op == ZEXT) return bin(ULT, a, b);
        if (a->op == ZEXT && isc(b)) return sx(b->c, w) < 0 ? F : bin(ULT, a, b);
        if (b->op == ZEXT && isc(a)) return sx(a->c, w) < 0 ? T : bin(ULT, a, b);
        if (a->op == SEXT && b->op == SEXT && a->k[0]->w == b->k[0]->w) return bin(SLT, a->k[0], b->k[0]);
        if (isc(b, 0)) { return extract(a, w - 1, 1); }
        if (isc(a, m)) { return not_(extract(b, w - 1, 1)); }
        if (a->op == ITE && isc(b) && constLeaves(a)) return ite(a->k[0], bin(op, a->k[1], b), bin(op, a->k[2], b));
        if (b->op == ITE && isc(a) && constLeaves(b)) return ite(b->k[0], bin(op, a, b->k[1]), bin(op, a, b->k[2]));
        break;
      case SLE: return not_(bin(SLT, b, a));
      default: break;
    }
    if (!cmp && w > 1) {
      if (a->op == ITE && isc(b) && constLeaves(a)) return ite(a->k[0], bin(op, a->k[1], b), bin(op, a->k[2], b));
      if (b->op == ITE && isc(a) && constLeaves(b)) return ite(b->k[0], bin(op, a, b->k[1]), bin(op, a, b->k[2]));
    }
    return raw(op, cmp ? 1 : w, a, b);
  }

  E extract(E a, unsigned lo, unsigned w) {
    assert(lo + w <= a->w);
    if (w == a->w) return a;
    switch (a->op) {
      case CONST: return cst(w, a->c >> lo);
      case EXTRACT: return extract(a->k[0], lo + (unsigned)a->c, w);
      case CONCAT: {
        unsigned lw = a->k[1]->w;
        if (lo >= lw) return extract(a->k[0], lo - lw, w);
        if (lo + w <= lw) return extract(a->k[1], lo, w);
        return concat(extract(a->k[0], 0, lo + w - lw), extract(a->k[1], lo, lw - lo));
      }
      case ZEXT: {
        unsigned lw = a->k[0]->w;
        if (lo >= lw) return cst(w, 0);
        if (lo + w <= lw) return extract(a->k[0], lo, w);
        return zext(extract(a->k[0], lo, lw - lo), w);
      }
      case SEXT: {
        unsigned lw = a->k[0]->w;
        if (lo + w <= lw) return extract(a->k[0], lo, w);
        if (lo < lw) return sext(extract(a->k[0], lo, lw - lo), w);
        return sext(extract(a->k[0], lw - 1, 1), w);
      }
      case AND: case OR: case XOR:
        return bin(a->op, extract(a->k[0], lo, w), extract(a->k[1], lo, w));
      case ITE:
        if (isc(a->k[1]) || isc(a->k[2]) || w == 1) return ite(a->k[0], extract(a->k[1], lo, w), extract(a->k[2], lo, w));
        break;
      case ADD: case SUB: case MUL:
        if (lo == 0) return bin(a->op, extract(a->k[0], 0, w), extract(a->k[1], 0, w));
        break;
      default: break;
    }
    return raw(EXTRACT, w, a, nullptr, nullptr, lo);
  }
  E zext(E a, unsigned w) {
    if (w == a->w) return a;
    assert(w > a->w);
    if (isc(a)) return cst(w, a->c);
    if (a->op == ZEXT) return zext(a->k[0], w);
    if (a->op == ITE && constLeaves(a)) return ite(a->k[0], zext(a->k[1], w), zext(a->k[2], w));
    return raw(ZEXT, w, a);
  }
  E sext(E a, unsigned w) {
    if (w == a->w) return a;
    assert(w > a->w);
    if (isc(a)) return cst(w, (u128)sx(a->c, a->w));
    if (a->op == SEXT) return sext(a->k[0], w);
    if (a->op == ZEXT) return zext(a->k[0], w);
    if (a->w == 1) return ite(a, cst(w, maskw(w)), cst(w, 0));
    if (a->op == ITE && constLeaves(a)) return ite(a->k[0], sext(a->k[1], w), sext(a->k[2], w));
    return raw(SEXT, w, a);
  }
  E concat(E hi, E lo) {
    unsigned w = hi->w + lo->w;
    assert(w <= 128);
    if (isc(hi) && isc(lo)) return cst(w, (hi->c << lo->w) | lo->c);
    if (isc(hi, 0)) return zext(lo, w);
    if (hi->op == EXTRACT && lo->op == EXTRACT && hi->k[0] == lo->k[0] && lo->c + lo->w == hi->c) return extract(lo->k[0], (unsigned)lo->c, w);
    if (lo->op == EXTRACT && hi->op == EXTRACT) {}
    if (lo->op == CONCAT) {
      E b1 = lo->k[0];
      if (isc(hi) && isc(b1)) return concat(concat(hi, b1), lo->k[1]);
      if (hi->op == EXTRACT && b1->op == EXTRACT && hi->k[0] == b1->k[0] && b1->c + b1->w == hi->c) return concat(concat(hi, b1), lo->k[1]);
    }
    if (lo->op == ZEXT && isc(hi)) { return concat(cst(hi->w + lo->w - lo->k[0]->w, hi->c << (lo->w - lo->k[0]->w)), lo->k[0]); }
    if (hi->op == CONCAT) return concat(hi->k[0], concat(hi->k[1], lo));  // right-assoc
    if (hi->op == ZEXT) return zext(concat(hi->k[0], lo), w);
    if (hi->op == ITE && lo->op == ITE && hi->k[0] == lo->k[0]) return ite(hi->k[0], concat(hi->k[1], lo->k[1]), concat(hi->k[2], lo->k[2]));
    if (hi->op == SEXT && hi->k[0]->w==1) {}
    return raw(CONCAT, w, hi, lo);
  }
  E ite(E c, E a, E b) {
    assert(c->w == 1 && a->w == b->w);
    if (isc(c)) return c->c ? a : b;
    if (a == b) return a;
    if (c->op == XOR && isc(c->k[1], 1)) return ite(c->k[0], b, a);
    if (a->op == ITE && a->k[0] == c) a = a->k[1];
    if (b->op == ITE && b->k[0] == c) b = b->k[2];
    if (a == b) return a;
    if (a->w == 1) {
      if (a == T) return bin(OR, c, b);
      if (a == F) return bin(AND, not_(c), b);
      if (b == T) return bin(OR, not_(c), a);
      if (b == F) return bin(AND, c, a);
      if (a == c) return bin(OR, c, b);
      if (b == c) return bin(AND, c, a);
    }
    if (b->op == ITE && b->k[1] == a) return ite(bin(OR, c, b->k[0]), a, b->k[2]);
    if (b->op == ITE && b->k[2] == a) return ite(bin(OR, c, not_(b->k[0])), a, b->k[1]);
    return raw(ITE, a->w, c, a, b);
  }
};
