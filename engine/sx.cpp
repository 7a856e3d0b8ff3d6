// sx: a symbolic executor for LLVM IR.  Every path of the entry function is
// explored; branch conditions, memory safety and vp_assert()s are decided by Z3.
#include "expr.h"
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <algorithm>
#include <map>
#include <set>
#include <functional>
#include <cmath>
using namespace llvm;

static Ctx cx;
static Solver* sol;
static Evaluator ev;
static const DataLayout* DL;

// ---------------------------------------------------------------- values
struct Agg;
typedef uintptr_t V;
struct Agg { std::vector<V> el; };
static inline V mk(E e) { return (V)e; }
static inline V mkAgg(Agg* a) { return (V)a | 1; }
static inline bool isAgg(V v) { return v & 1; }
static inline Agg* agg(V v) { return (Agg*)(v & ~(V)1); }
static inline E ex(V v) { return (E)v; }

// ---------------------------------------------------------------- memory
enum Kind : uint8_t { GLOBAL, STACK, HEAP };
struct Obj {
  uint32_t rc = 0;
  Kind kind; bool ro = false; bool isNew = false;
  uint64_t base, size;
  const char* tag = "";
  std::vector<E> b;
};
struct ObjP {
  Obj* p;
  ObjP(Obj* q = nullptr) : p(q) { if (p) p->rc++; }
  ObjP(const ObjP& o) : p(o.p) { if (p) p->rc++; }
  ObjP(ObjP&& o) : p(o.p) { o.p = nullptr; }
  ObjP& operator=(ObjP o) { std::swap(p, o.p); return *this; }
  ~ObjP() { if (p && !--p->rc) delete p; }
  Obj* operator->() const { return p; }
};

// ---------------------------------------------------------------- decoded code
struct Opnd { int reg; V cv; };
struct GepIdx { int reg; uint64_t scale; unsigned w; };
struct Inst {
  unsigned op; const Instruction* I;
  int dst = -1;
  Type* ty = nullptr;      // result/mem type
  std::vector<Opnd> o;
  // memory
  uint64_t size = 0, constOff = 0;
  std::vector<GepIdx> idx;
  // branches
  int s0 = -1, s1 = -1;
  std::vector<std::pair<E, int>> cases;
  // calls
  const Function* callee = nullptr;
  unsigned iid = 0;
  std::vector<unsigned> path;
  bool hit = false;
};
struct Phi { int dst; std::vector<std::pair<int, Opnd>> in; };
struct Block { std::vector<Phi> phis; std::vector<Inst> in; const BasicBlock* B; };
struct Fn { const Function* F; std::vector<Block> bl; int nregs = 0; std::vector<int> args; };

static std::unordered_map<const Function*, Fn*> fns;
static std::unordered_map<const Function*, uint64_t> fnAddr;
static std::unordered_map<uint64_t, const Function*> addrFn;
static std::unordered_map<const GlobalVariable*, uint64_t> gvAddr;
static std::vector<ObjP> roGlobals;   // sorted, constant
static uint64_t nextGlobal = 0x555500000000ull;

struct Frame {
  Fn* fn; int bb = 0, ip = 0, prev = -1;
  std::vector<V> r;
  std::vector<uint64_t> allocas;
  std::vector<V> va; std::vector<Type*> vaT;  // variadic arguments (by-value structs are pointers, vaT set)
  const Inst* callsite = nullptr;  // in the caller
};
struct SymIn { const char* name; E var; };
struct State {
  std::vector<Frame> st;
  std::vector<ObjP> mem;  // sorted by base
  uint64_t next = 0x7f0000000000ull;
  std::vector<E> pc;
  ModelP model;
  std::vector<SymIn> inputs;
  std::vector<E> observed;
  std::map<std::string, int> nameCnt;
  bool crashOn = false; E crashCond = nullptr;
  bool leaksOk = false;
  uint64_t steps = 0, forks = 0, errnoAt = 0;
  std::vector<std::string> reached;
  std::vector<const char*> kf;
};

// ---------------------------------------------------------------- results
struct Viol { std::string kind, msg, where; std::vector<std::pair<std::string, std::pair<unsigned, u128>>> in; bool known = false; std::string kf; };
static std::vector<Viol> viols;
static std::map<std::string, int> violCount;
static std::set<std::string> reachedAll, incomplete;
static uint64_t nPaths = 0, nInstr = 0, nForks = 0, nAsserts = 0, nMemChecks = 0, nCrashes = 0, nObl = 0, nDone = 0;
static uint64_t nHavoc = 0;
struct Sample { std::vector<std::pair<std::string, std::pair<unsigned, u128>>> in; std::vector<u128> obs; bool crashed; };
static std::vector<Sample> samples;
static double deadline = 1e18; static uint64_t maxSteps = 20000000, maxPaths = 1000000; static int maxViol = 12; static size_t maxSamples = 24;
static bool verbose = false, traceCalls = false;
static std::vector<State*> work;

[[noreturn]] static void fatal(const std::string& s) { fprintf(stderr, "sx: fatal: %s\n", s.c_str()); exit(4); }
struct PathEnd {};  // thrown when the current path ends

static std::string whereOf(const State& s) {
  std::string r;
  for (int i = (int)s.st.size() - 1; i >= 0 && r.size() < 1500; i--) {
    auto& f = s.st[i];
    const Instruction* I = nullptr;
    auto& bl = f.fn->bl[f.bb].in;
    int ip = f.ip; if (ip > 0 && i < (int)s.st.size() - 1) ip--;
    if (ip < (int)bl.size()) I = bl[ip].I;
    const DILocation* d = I ? I->getDebugLoc().get() : nullptr;
    bool any = false;
    while (d) {
      any = true;
      std::string fl = d->getFilename().str(); size_t p = fl.find("/best/"); if (p != std::string::npos) fl = fl.substr(p + 1);
      std::string fnm = d->getScope()->getSubprogram()->getName().str();
      r += fl + ":" + std::to_string(d->getLine()) + "(" + fnm + ") ";
      d = d->getInlinedAt();
    }
    if (!any) r += f.fn->F->getName().str() + " ";
  }
  return r;
}

static void fillInputs(const State& s, ModelP m, decltype(Viol::in)& out) {
  ev.setModel(m);
  for (auto& i : s.inputs) out.push_back({i.name, {i.var->w, ev.eval(i.var)}});
}

static std::string siteOf(const State& s) {
  if (s.st.empty()) return "end";
  auto& f = s.st.back();
  return f.fn->F->getName().str() + "#" + std::to_string(f.bb) + "." + std::to_string(f.ip);
}
static void report(const State& s, const std::string& kind, const std::string& msg, ModelP m) {
  std::string key = kind + "|" + msg + "|" + siteOf(s);
  if (violCount[key]++ >= 3) return;
  Viol v; v.kind = kind; v.msg = msg; v.where = whereOf(s);
  for (auto k : s.kf) v.kf = k;
  fillInputs(s, m, v.in);
  viols.push_back(v);
  if (verbose) fprintf(stderr, "VIOL %s: %s @ %s\n", kind.c_str(), msg.c_str(), v.where.c_str());
}

// Does pc && c hold for some input?  uses the state's model first.
static int sat(State& s, E c, ModelP* out) {
  if (c == cx.F) return 0;
  ev.setModel(s.model);
  if (ev.eval(c)) { if (out) *out = s.model; return 1; }
  int r = sol->check(s.pc, c, s.model, out);
  if (r < 0) incomplete.insert("solver-unknown @ " + whereOf(s).substr(0, 200));
  return r;
}
static void addPc(State& s, E c, ModelP m) {
  if (c == cx.T) return;
  s.pc.push_back(c);
  s.model = m;
}
// assert a safety condition: report if it can fail, then assume it
static void require(State& s, E ok, const char* kind, const std::string& msg) {
  if (ok == cx.T) return;
  nObl++;
  ModelP m;
  int r = sat(s, cx.not_(ok), &m);
  if (r == 1) report(s, kind, msg, m);
  if (r == 0) return;
  ModelP m2;
  int r2 = sat(s, ok, &m2);
  if (r2 != 1) throw PathEnd{};
  addPc(s, ok, m2);
}
static State* forkState(const State& s) { nForks++; State* n = new State(s); n->forks++; return n; }

// Assume c in s; the alternative (!c) is pushed to the worklist if feasible.  The forked
// state re-executes the current instruction when `redo`.
static bool decide(State& s, E c, bool redo) {
  if (Ctx::isc(c)) return c->c;
  ev.setModel(s.model);
  bool cur = ev.eval(c);
  E other = cur ? cx.not_(c) : c;
  ModelP m;
  int r = sol->check(s.pc, other, s.model, &m);
  if (r < 0) incomplete.insert("solver-unknown @ " + whereOf(s).substr(0, 200));
  if (r == 1) {
    State* n = forkState(s);
    n->pc.push_back(other); n->model = m;
    (void)redo;
    work.push_back(n);
    s.pc.push_back(cur ? c : cx.not_(c));
  }
  return cur;
}

// ---------------------------------------------------------------- memory ops
static Obj* findObj(const std::vector<ObjP>& v, uint64_t a) {
  size_t lo = 0, hi = v.size();
  while (lo < hi) { size_t m = (lo + hi) / 2; if (v[m]->base <= a) lo = m + 1; else hi = m; }
  if (!lo) return nullptr;
  Obj* o = v[lo - 1].p;
  return a <= o->base + o->size ? o : nullptr;
}
static Obj* lookup(State& s, uint64_t a) {
  if (a >= 0x7f0000000000ull || true) if (Obj* o = findObj(s.mem, a)) return o;
  return findObj(roGlobals, a);
}
static Obj* writable(State& s, Obj* o) {
  if (o->rc == 1) return o;
  size_t lo = 0, hi = s.mem.size();
  while (lo < hi) { size_t m = (lo + hi) / 2; if (s.mem[m]->base <= o->base) lo = m + 1; else hi = m; }
  assert(lo && s.mem[lo - 1].p == o);
  if (o->rc == 1) return o;
  Obj* n = new Obj(*o); n->rc = 0;
  s.mem[lo - 1] = ObjP(n);
  return n;
}
static Obj* newObj(State& s, Kind k, uint64_t size, uint64_t align, const char* tag) {
  Obj* o = new Obj; o->kind = k; o->size = size; o->tag = tag;
  if (align < 16) align = 16;
  uint64_t a = (s.next + align - 1) / align * align;
  o->base = a; o->b.assign(size, nullptr);
  s.next = a + size + 128 + (size > 256 ? size : 0);
  s.mem.push_back(ObjP(o));
  return o;
}
static void eraseObj(State& s, uint64_t base) {
  for (size_t i = s.mem.size(); i-- > 0;) if (s.mem[i]->base == base) { s.mem.erase(s.mem.begin() + i); return; }
}
static E getByte(State& s, Obj*& o, uint64_t off) {
  E e = o->b[off];
  if (!e) {
    nHavoc++;
    e = cx.var("undef", 8, true);
    if (o->kind != GLOBAL) { o = writable(s, o); o->b[off] = e; }
    else o->b[off] = e;
  }
  return e;
}
static E readObj(State& s, Obj*& o, uint64_t off, uint64_t n) {
  E acc = getByte(s, o, off);
  for (uint64_t i = 1; i < n; i++) acc = cx.concat(getByte(s, o, off + i), acc);
  return acc;
}
static std::string hex(uint64_t x) { char b[32]; snprintf(b, sizeof b, "0x%llx", (unsigned long long)x); return b; }

static void badAccess(State& s, const char* what, uint64_t a, uint64_t n, ModelP m) {
  std::string msg = std::string(what) + " of " + std::to_string(n) + " bytes ";
  Obj* o = lookup(s, a);
  if (a < 0x1000) msg += "at null/near-null pointer";
  else if (o) msg += std::string("out of bounds of ") + (o->kind == HEAP ? "heap" : o->kind == STACK ? "stack" : "global") + " object of size " + std::to_string(o->size);
  else msg += "at an invalid address (out of bounds or freed)";
  report(s, "memory", msg, m);
}

static bool forkIndex = false;  // one path per value of an index, rather than one expression for all
static uint64_t concretize(State& s, E e);
// Resolve an address to one object such that [addr, addr+n) is inside it for the whole
// path condition.  Forks or reports as needed.  Returns the object and sets *off when concrete.
static Obj* resolve(State& s, E addr, uint64_t n, bool write, bool* conc, uint64_t* off) {
  nMemChecks++;
  if (Ctx::isc(addr)) {
    uint64_t a = (uint64_t)addr->c;
    Obj* o = lookup(s, a);
    if (!o || a - o->base + n > o->size || (a - o->base + n < n)) { badAccess(s, write ? "write" : "read", a, n, s.model); throw PathEnd{}; }
    if (write && o->ro) { report(s, "memory", "write to constant object", s.model); throw PathEnd{}; }
    *conc = true; *off = a - o->base;
    return o;
  }
  ev.setModel(s.model);
  uint64_t a = (uint64_t)ev.eval(addr);
  Obj* o = lookup(s, a);
  if (!o || a - o->base + n > o->size) {
    badAccess(s, write ? "write" : "read", a, n, s.model);
    // continue with the in-bounds part, if any: exclude this object's/addr's neighbourhood
    if (o) {
      E in = cx.bin(ULE, cx.bin(SUB, addr, cx.cst(64, o->base)), cx.cst(64, o->size >= n ? o->size - n : 0));
      if (o->size < n) throw PathEnd{};
      ModelP m; if (sat(s, in, &m) != 1) throw PathEnd{};
      addPc(s, in, m);
      return resolve(s, addr, n, write, conc, off);
    }
    throw PathEnd{};
  }
  if (write && o->ro) { report(s, "memory", "write to constant object", s.model); throw PathEnd{}; }
  E in = cx.bin(ULE, cx.bin(SUB, addr, cx.cst(64, o->base)), cx.cst(64, o->size - n));
  nObl++;
  ModelP m;
  E out = cx.not_(in);
  int r = out == cx.F ? 0 : sol->check(s.pc, out, s.model, &m);
  if (r < 0) incomplete.insert("solver-unknown @ " + whereOf(s).substr(0, 200));
  if (r == 1) {
    State* f = forkState(s);
    f->pc.push_back(out); f->model = m;
    work.push_back(f);
    s.pc.push_back(in);
  }
  // a single feasible value?
  if (forkIndex) { *conc = true; *off = concretize(s, addr) - o->base; return o; }
  *conc = false;
  return o;
}
static const uint64_t MaxSymObj = 4096;
static E load(State& s, E addr, uint64_t n) {
  bool conc; uint64_t off;
  Obj* o = resolve(s, addr, n, false, &conc, &off);
  if (conc) return readObj(s, o, off, n);
  if (o->size > MaxSymObj) { incomplete.insert("symbolic read of a large object"); throw PathEnd{}; }
  unsigned t = Ctx::tz(cx.bin(SUB, addr, cx.cst(64, o->base)));
  uint64_t stride = t > 12 ? 4096 : (uint64_t)1 << t;
  E acc = nullptr;
  std::vector<std::pair<E, E>> groups;  // value -> cond
  for (uint64_t k = 0; k + n <= o->size; k += stride) {
    E v = readObj(s, o, k, n);
    E c = cx.bin(EQ, addr, cx.cst(64, o->base + k));
    if (c == cx.F) continue;
    bool f = false;
    if (groups.size() < 64 || groups.back().first == v)
      for (auto& g : groups) if (g.first == v) { g.second = cx.or_(g.second, c); f = true; break; }
    if (!f) groups.push_back({v, c});
  }
  for (size_t i = groups.size(); i-- > 0;) acc = acc ? cx.ite(groups[i].second, groups[i].first, acc) : groups[i].first;
  if (!acc) throw PathEnd{};
  return acc;
}
static void store(State& s, E addr, E val, uint64_t n) {
  bool conc; uint64_t off;
  if (val->w < n * 8) val = cx.zext(val, n * 8);
  Obj* o = resolve(s, addr, n, true, &conc, &off);
  o = writable(s, o);
  if (conc) { for (uint64_t i = 0; i < n; i++) o->b[off + i] = cx.extract(val, i * 8, 8); return; }
  if (o->size > MaxSymObj) { incomplete.insert("symbolic write to a large object"); throw PathEnd{}; }
  unsigned t = Ctx::tz(cx.bin(SUB, addr, cx.cst(64, o->base)));
  uint64_t stride = t > 12 ? 4096 : (uint64_t)1 << t;
  for (uint64_t k = 0; k + n <= o->size; k += stride) {
    E c = cx.bin(EQ, addr, cx.cst(64, o->base + k));
    if (c == cx.F) continue;
    for (uint64_t i = 0; i < n; i++) {
      E old = getByte(s, o, k + i);
      o->b[k + i] = cx.ite(c, cx.extract(val, i * 8, 8), old);
    }
  }
}
// Make e concrete by forking over its feasible values (the current instruction is
// re-executed by the other states).
static uint64_t concretize(State& s, E e) {
  while (!Ctx::isc(e)) {
    ev.setModel(s.model);
    u128 v = ev.eval(e);
    E c = cx.bin(EQ, e, cx.cst(e->w, v));
    if (c == cx.T) return (uint64_t)v;
    ModelP m;
    E nc = cx.not_(c);
    int r = sol->check(s.pc, nc, s.model, &m);
    if (r < 0) incomplete.insert("solver-unknown @ " + whereOf(s).substr(0, 200));
    if (r == 1) {
      State* f = forkState(s);
      f->pc.push_back(nc); f->model = m;
      work.push_back(f);
      s.pc.push_back(c);
    }
    return (uint64_t)v;
  }
  return (uint64_t)e->c;
}

// ---------------------------------------------------------------- typed load/store
static unsigned bitsOf(Type* t) {
  if (t->isPointerTy()) return 64;
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isFloatTy()) return 32;
  if (t->isDoubleTy()) return 64;
  if (t->isX86_FP80Ty()) return 80;
  std::string s; raw_string_ostream os(s); t->print(os);
  fatal("bitsOf " + os.str());
}
static V loadT(State& s, E addr, Type* t) {
  if (t->isStructTy()) {
    auto* sl = DL->getStructLayout(cast<StructType>(t));
    Agg* a = new Agg;
    for (unsigned i = 0; i < t->getStructNumElements(); i++)
      a->el.push_back(loadT(s, cx.bin(ADD, addr, cx.cst(64, (uint64_t)sl->getElementOffset(i))), t->getStructElementType(i)));
    return mkAgg(a);
  }
  if (t->isArrayTy() || t->isVectorTy()) {
    Type* et = t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType();
    uint64_t n = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
    Agg* a = new Agg;
    uint64_t es = DL->getTypeAllocSize(et);
    if (t->isVectorTy() && bitsOf(et) % 8) fatal("bit vector load");
    for (uint64_t i = 0; i < n; i++) a->el.push_back(loadT(s, cx.bin(ADD, addr, cx.cst(64, i * es)), et));
    return mkAgg(a);
  }
  unsigned w = bitsOf(t);
  uint64_t n = (w + 7) / 8;
  E e = load(s, addr, n);
  return mk(w < n * 8 ? cx.extract(e, 0, w) : e);
}
static void storeT(State& s, E addr, V v, Type* t) {
  if (t->isStructTy()) {
    auto* sl = DL->getStructLayout(cast<StructType>(t));
    for (unsigned i = 0; i < t->getStructNumElements(); i++)
      storeT(s, cx.bin(ADD, addr, cx.cst(64, (uint64_t)sl->getElementOffset(i))), agg(v)->el[i], t->getStructElementType(i));
    return;
  }
  if (t->isArrayTy() || t->isVectorTy()) {
    Type* et = t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType();
    uint64_t es = DL->getTypeAllocSize(et);
    for (uint64_t i = 0; i < agg(v)->el.size(); i++) storeT(s, cx.bin(ADD, addr, cx.cst(64, i * es)), agg(v)->el[i], et);
    return;
  }
  unsigned w = bitsOf(t);
  store(s, addr, ex(v), (w + 7) / 8);
}

// ---------------------------------------------------------------- constants
static V zeroOf(Type* t) {
  if (t->isStructTy()) { Agg* a = new Agg; for (unsigned i = 0; i < t->getStructNumElements(); i++) a->el.push_back(zeroOf(t->getStructElementType(i))); return mkAgg(a); }
  if (t->isArrayTy()) { Agg* a = new Agg; for (uint64_t i = 0; i < t->getArrayNumElements(); i++) a->el.push_back(zeroOf(t->getArrayElementType())); return mkAgg(a); }
  if (auto* vt = dyn_cast<FixedVectorType>(t)) { Agg* a = new Agg; for (unsigned i = 0; i < vt->getNumElements(); i++) a->el.push_back(zeroOf(vt->getElementType())); return mkAgg(a); }
  return mk(cx.cst(bitsOf(t), 0));
}
static V undefOf(Type* t) {
  if (t->isStructTy()) { Agg* a = new Agg; for (unsigned i = 0; i < t->getStructNumElements(); i++) a->el.push_back(undefOf(t->getStructElementType(i))); return mkAgg(a); }
  if (t->isArrayTy()) { Agg* a = new Agg; for (uint64_t i = 0; i < t->getArrayNumElements(); i++) a->el.push_back(undefOf(t->getArrayElementType())); return mkAgg(a); }
  if (auto* vt = dyn_cast<FixedVectorType>(t)) { Agg* a = new Agg; for (unsigned i = 0; i < vt->getNumElements(); i++) a->el.push_back(undefOf(vt->getElementType())); return mkAgg(a); }
  return mk(cx.var("undef", bitsOf(t), true));
}
static u128 apToU(const APInt& a) {
  u128 v = a.getRawData()[0];
  if (a.getBitWidth() > 64) v |= (u128)a.getRawData()[1] << 64;
  return v & maskw(a.getBitWidth());
}
static uint64_t addrOf(const GlobalValue* g);
static V constVal(const Constant* c) {
  Type* t = c->getType();
  if (auto* ci = dyn_cast<ConstantInt>(c)) {
    if (ci->getBitWidth() > 128) fatal("wide int constant");
    return mk(cx.cst(ci->getBitWidth(), apToU(ci->getValue())));
  }
  if (isa<ConstantPointerNull>(c)) return mk(cx.cst(64, 0));
  if (auto* cf = dyn_cast<ConstantFP>(c)) return mk(cx.cst(bitsOf(t), apToU(cf->getValueAPF().bitcastToAPInt())));
  if (isa<UndefValue>(c)) return undefOf(t);
  if (isa<ConstantAggregateZero>(c)) return zeroOf(t);
  if (auto* ca = dyn_cast<ConstantAggregate>(c)) { Agg* a = new Agg; for (unsigned i = 0; i < ca->getNumOperands(); i++) a->el.push_back(constVal(cast<Constant>(ca->getOperand(i)))); return mkAgg(a); }
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { Agg* a = new Agg; for (unsigned i = 0; i < cd->getNumElements(); i++) a->el.push_back(constVal(cd->getElementAsConstant(i))); return mkAgg(a); }
  if (auto* gv = dyn_cast<GlobalValue>(c)) return mk(cx.cst(64, addrOf(gv)));
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    auto op = [&](unsigned i) { return ex(constVal(ce->getOperand(i))); };
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: {
        APInt off(64, 0);
        if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) fatal("const gep");
        return mk(cx.bin(ADD, op(0), cx.cst(64, off.getZExtValue())));
      }
      case Instruction::PtrToInt: { E e = op(0); unsigned w = bitsOf(t); return mk(w < 64 ? cx.extract(e, 0, w) : cx.zext(e, w)); }
      case Instruction::IntToPtr: { E e = op(0); return mk(e->w > 64 ? cx.extract(e, 0, 64) : cx.zext(e, 64)); }
      case Instruction::BitCast: return constVal(ce->getOperand(0));
      case Instruction::Trunc: return mk(cx.extract(op(0), 0, bitsOf(t)));
      case Instruction::Add: return mk(cx.bin(ADD, op(0), op(1)));
      case Instruction::Sub: return mk(cx.bin(SUB, op(0), op(1)));
      case Instruction::Xor: return mk(cx.bin(XOR, op(0), op(1)));
      case Instruction::Shl: return mk(cx.bin(SHL, op(0), op(1)));
      case Instruction::ICmp: {
        E a = op(0), b = op(1);
        if (ce->getPredicate() == CmpInst::ICMP_EQ) return mk(cx.bin(EQ, a, b));
        if (ce->getPredicate() == CmpInst::ICMP_NE) return mk(cx.not_(cx.bin(EQ, a, b)));
        switch (ce->getPredicate()) {
          case CmpInst::ICMP_ULT: return mk(cx.bin(ULT, a, b));
          case CmpInst::ICMP_UGT: return mk(cx.bin(ULT, b, a));
          case CmpInst::ICMP_ULE: return mk(cx.not_(cx.bin(ULT, b, a)));
          case CmpInst::ICMP_UGE: return mk(cx.not_(cx.bin(ULT, a, b)));
          case CmpInst::ICMP_SLT: return mk(cx.bin(SLT, a, b));
          case CmpInst::ICMP_SGT: return mk(cx.bin(SLT, b, a));
          case CmpInst::ICMP_SLE: return mk(cx.not_(cx.bin(SLT, b, a)));
          case CmpInst::ICMP_SGE: return mk(cx.not_(cx.bin(SLT, a, b)));
          default: break;
        }
        fatal("constant icmp");
      }
      case Instruction::And: return mk(cx.bin(AND, op(0), op(1)));
      case Instruction::Or: return mk(cx.bin(OR, op(0), op(1)));
      case Instruction::LShr: return mk(cx.bin(LSHR, op(0), op(1)));
      case Instruction::Mul: return mk(cx.bin(MUL, op(0), op(1)));
      case Instruction::ZExt: return mk(cx.zext(op(0), bitsOf(t)));
      case Instruction::Select: { E c0 = op(0); return mk(cx.ite(c0, op(1), op(2))); }
      default: { std::string s; raw_string_ostream os(s); c->print(os); fatal("constant expr " + os.str()); }
    }
  }
  std::string s; raw_string_ostream os(s); c->print(os); fatal("constant " + os.str());
}
static const Function* resolveFn(const GlobalValue* g) {
  if (auto* f = dyn_cast<Function>(g)) return f;
  if (auto* a = dyn_cast<GlobalAlias>(g)) return dyn_cast<Function>(a->getAliaseeObject());
  return nullptr;
}
static uint64_t addrOf(const GlobalValue* g) {
  if (auto* f = resolveFn(g)) {
    auto it = fnAddr.find(f);
    if (it != fnAddr.end()) return it->second;
    uint64_t a = 0x400000 + fnAddr.size() * 16;
    fnAddr[f] = a; addrFn[a] = f;
    return a;
  }
  if (auto* al = dyn_cast<GlobalAlias>(g)) { return (uint64_t)ex(constVal(al->getAliasee()))->c; }
  auto* gv = cast<GlobalVariable>(g);
  auto it = gvAddr.find(gv);
  if (it == gvAddr.end()) fatal("global without address " + g->getName().str());
  return it->second;
}
static void initBytes(std::vector<E>& b, uint64_t off, const Constant* c) {
  Type* t = c->getType();
  if (isa<UndefValue>(c)) return;
  if (isa<ConstantAggregateZero>(c)) { uint64_t n = DL->getTypeStoreSize(t); for (uint64_t i = 0; i < n; i++) b[off + i] = cx.byteConst[0]; return; }
  if (t->isStructTy()) {
    auto* sl = DL->getStructLayout(cast<StructType>(t));
    uint64_t n = DL->getTypeStoreSize(t); for (uint64_t i = 0; i < n; i++) b[off + i] = cx.byteConst[0];
    for (unsigned i = 0; i < t->getStructNumElements(); i++) initBytes(b, off + sl->getElementOffset(i), c->getAggregateElement(i));
    return;
  }
  if (t->isArrayTy()) {
    uint64_t es = DL->getTypeAllocSize(t->getArrayElementType());
    for (uint64_t i = 0; i < t->getArrayNumElements(); i++) initBytes(b, off + i * es, c->getAggregateElement(i));
    return;
  }
  if (auto* vt = dyn_cast<FixedVectorType>(t)) {
    uint64_t es = DL->getTypeAllocSize(vt->getElementType());
    for (uint64_t i = 0; i < vt->getNumElements(); i++) initBytes(b, off + i * es, c->getAggregateElement(i));
    return;
  }
  E e = ex(constVal(c));
  uint64_t n = (e->w + 7) / 8;
  if (e->w < n * 8) e = cx.zext(e, n * 8);
  for (uint64_t i = 0; i < n; i++) b[off + i] = cx.extract(e, i * 8, 8);
}

// ---------------------------------------------------------------- decode
static Fn* decode(const Function* F) {
  auto it = fns.find(F);
  if (it != fns.end()) return it->second;
  Fn* fn = new Fn; fn->F = F; fns[F] = fn;
  std::unordered_map<const Value*, int> reg;
  std::unordered_map<const BasicBlock*, int> bi;
  for (auto& a : F->args()) { fn->args.push_back(fn->nregs); reg[&a] = fn->nregs++; }
  int n = 0;
  for (auto& B : *F) { bi[&B] = n++; for (auto& I : B) if (!I.getType()->isVoidTy()) reg[&I] = fn->nregs++; }
  auto opnd = [&](const Value* v) -> Opnd {
    if (auto* c = dyn_cast<Constant>(v)) return {-1, constVal(c)};
    auto it = reg.find(v);
    if (it == reg.end()) return {-1, (V)cx.cst(64, 0)};  // metadata/labels
    return {it->second, 0};
  };
  fn->bl.resize(n);
  for (auto& B : *F) {
    Block& b = fn->bl[bi[&B]];
    b.B = &B;
    for (auto& I : B) {
      if (auto* p = dyn_cast<PHINode>(&I)) {
        Phi ph; ph.dst = reg[p];
        for (unsigned i = 0; i < p->getNumIncomingValues(); i++) ph.in.push_back({bi[p->getIncomingBlock(i)], opnd(p->getIncomingValue(i))});
        b.phis.push_back(ph);
        continue;
      }
      if (isa<DbgInfoIntrinsic>(&I)) continue;
      Inst in; in.op = I.getOpcode(); in.I = &I; in.ty = I.getType();
      if (!I.getType()->isVoidTy()) in.dst = reg[&I];
      switch (I.getOpcode()) {
        case Instruction::Br: {
          auto* br = cast<BranchInst>(&I);
          in.s0 = bi[br->getSuccessor(0)];
          if (br->isConditional()) { in.s1 = bi[br->getSuccessor(1)]; in.o.push_back(opnd(br->getCondition())); }
          break;
        }
        case Instruction::Switch: {
          auto* sw = cast<SwitchInst>(&I);
          in.o.push_back(opnd(sw->getCondition()));
          in.s0 = bi[sw->getDefaultDest()];
          for (auto& c : sw->cases()) in.cases.push_back({ex(constVal(c.getCaseValue())), bi[c.getCaseSuccessor()]});
          break;
        }
        case Instruction::GetElementPtr: {
          auto* g = cast<GetElementPtrInst>(&I);
          in.o.push_back(opnd(g->getPointerOperand()));
          Type* t = g->getSourceElementType();
          bool first = true;
          Type* cur = nullptr;
          for (auto ix = g->idx_begin(); ix != g->idx_end(); ++ix) {
            const Value* v = *ix;
            uint64_t scale;
            if (first) { scale = DL->getTypeAllocSize(t); cur = t; first = false; }
            else if (cur->isStructTy()) {
              unsigned k = cast<ConstantInt>(v)->getZExtValue();
              in.constOff += DL->getStructLayout(cast<StructType>(cur))->getElementOffset(k);
              cur = cur->getStructElementType(k);
              continue;
            } else if (cur->isArrayTy()) { cur = cur->getArrayElementType(); scale = DL->getTypeAllocSize(cur); }
            else if (auto* vt = dyn_cast<FixedVectorType>(cur)) { cur = vt->getElementType(); scale = DL->getTypeAllocSize(cur); }
            else fatal("gep type");
            if (auto* ci = dyn_cast<ConstantInt>(v)) in.constOff += ci->getSExtValue() * scale;
            else if (v->getType()->isVectorTy()) fatal("vector gep");
            else { auto o = opnd(v); if (o.reg < 0) { in.constOff += (uint64_t)sx(ex(o.cv)->c, ex(o.cv)->w) * scale; } else in.idx.push_back({o.reg, scale, bitsOf(v->getType())}); }
          }
          break;
        }
        case Instruction::Call: case Instruction::Invoke: {
          auto* cb = cast<CallBase>(&I);
          if (auto* iv = dyn_cast<InvokeInst>(&I)) in.s0 = bi[iv->getNormalDest()];
          const Value* cv = cb->getCalledOperand()->stripPointerCastsAndAliases();
          if (auto* f = dyn_cast<Function>(cv)) { in.callee = f; in.iid = f->getIntrinsicID(); }
          else if (isa<InlineAsm>(cv)) in.iid = ~0u;
          else { }
          for (unsigned i = 0; i < cb->arg_size(); i++) {
            if (cb->getArgOperand(i)->getType()->isMetadataTy()) in.o.push_back({-1, (V)cx.cst(1, 0)});
            else in.o.push_back(opnd(cb->getArgOperand(i)));
          }
          if (!in.callee && in.iid != ~0u) in.o.push_back(opnd(cb->getCalledOperand()));
          break;
        }
        case Instruction::Alloca: {
          auto* a = cast<AllocaInst>(&I);
          in.size = DL->getTypeAllocSize(a->getAllocatedType());
          in.constOff = a->getAlign().value();
          in.o.push_back(opnd(a->getArraySize()));
          break;
        }
        case Instruction::ExtractValue: { auto* e = cast<ExtractValueInst>(&I); in.path.assign(e->idx_begin(), e->idx_end()); in.o.push_back(opnd(e->getAggregateOperand())); break; }
        case Instruction::InsertValue: { auto* e = cast<InsertValueInst>(&I); in.path.assign(e->idx_begin(), e->idx_end()); in.o.push_back(opnd(e->getAggregateOperand())); in.o.push_back(opnd(e->getInsertedValueOperand())); break; }
        case Instruction::LandingPad: case Instruction::Resume: break;
        case Instruction::ShuffleVector: {
          auto* sv = cast<ShuffleVectorInst>(&I);
          in.o.push_back(opnd(sv->getOperand(0))); in.o.push_back(opnd(sv->getOperand(1)));
          for (int m : sv->getShuffleMask()) in.path.push_back((unsigned)m);
          break;
        }
        default:
          for (auto& op : I.operands()) in.o.push_back(opnd(op.get()));
      }
      b.in.push_back(in);
    }
  }
  return fn;
}

// ---------------------------------------------------------------- helpers for ops
static E popcnt(E a) { E r = cx.cst(a->w, 0); if (a->w == 1) return a; for (unsigned i = 0; i < a->w; i++) r = cx.bin(ADD, r, cx.zext(cx.extract(a, i, 1), a->w)); return r; }
static E clz(E a) { E r = cx.cst(a->w, a->w); for (unsigned i = 0; i < a->w; i++) r = cx.ite(cx.extract(a, i, 1), cx.cst(a->w, a->w - 1 - i), r); return r; }
static E ctz(E a) { E r = cx.cst(a->w, a->w); for (unsigned i = a->w; i-- > 0;) r = cx.ite(cx.extract(a, i, 1), cx.cst(a->w, i), r); return r; }
static E cmpE(CmpInst::Predicate p, E a, E b) {
  switch (p) {
    case CmpInst::ICMP_EQ: return cx.bin(EQ, a, b);
    case CmpInst::ICMP_NE: return cx.not_(cx.bin(EQ, a, b));
    case CmpInst::ICMP_ULT: return cx.bin(ULT, a, b);
    case CmpInst::ICMP_ULE: return cx.bin(ULE, a, b);
    case CmpInst::ICMP_UGT: return cx.bin(ULT, b, a);
    case CmpInst::ICMP_UGE: return cx.bin(ULE, b, a);
    case CmpInst::ICMP_SLT: return cx.bin(SLT, a, b);
    case CmpInst::ICMP_SLE: return cx.bin(SLE, a, b);
    case CmpInst::ICMP_SGT: return cx.bin(SLT, b, a);
    case CmpInst::ICMP_SGE: return cx.bin(SLE, b, a);
    default: fatal("predicate");
  }
}
static V mapN(unsigned n, V* a, const std::function<E(E*)>& f) {
  if (isAgg(a[0]) || (n > 1 && isAgg(a[1]))) {
    Agg* r = new Agg;
    size_t m = isAgg(a[0]) ? agg(a[0])->el.size() : agg(a[1])->el.size();
    for (size_t i = 0; i < m; i++) { V t[3]; for (unsigned k = 0; k < n; k++) t[k] = isAgg(a[k]) ? agg(a[k])->el[i] : a[k]; r->el.push_back(mapN(n, t, f)); }
    return mkAgg(r);
  }
  E t[3]; for (unsigned k = 0; k < n; k++) t[k] = ex(a[k]);
  return mk(f(t));
}
static V iteV(E c, V a, V b) {
  if (isAgg(a)) { Agg* r = new Agg; for (size_t i = 0; i < agg(a)->el.size(); i++) r->el.push_back(iteV(c, agg(a)->el[i], agg(b)->el[i])); return mkAgg(r); }
  return mk(cx.ite(c, ex(a), ex(b)));
}
static V bitcastV(V v, Type* from, Type* to) {
  if (!isAgg(v) && !to->isVectorTy()) return v;
  // flatten to an integer
  E e;
  if (isAgg(v)) { e = ex(agg(v)->el[0]); for (size_t i = 1; i < agg(v)->el.size(); i++) e = cx.concat(ex(agg(v)->el[i]), e); }
  else e = ex(v);
  if (auto* vt = dyn_cast<FixedVectorType>(to)) {
    unsigned ew = bitsOf(vt->getElementType());
    Agg* r = new Agg;
    for (unsigned i = 0; i < vt->getNumElements(); i++) r->el.push_back(mk(cx.extract(e, i * ew, ew)));
    return mkAgg(r);
  }
  return mk(e);
}

static double toD(E e) {
  if (e->w == 32) { uint32_t b = (uint32_t)e->c; float f; memcpy(&f, &b, 4); return f; }
  uint64_t b = (uint64_t)e->c; double d; memcpy(&d, &b, 8); return d;
}
static E fromD(double d, unsigned w) {
  if (w == 32) { float f = (float)d; uint32_t b; memcpy(&b, &f, 4); return cx.cst(32, b); }
  uint64_t b; memcpy(&b, &d, 8); return cx.cst(64, b);
}

// ---------------------------------------------------------------- path ends
// Move the path's model to a random point of the same path (each change is kept only if the
// path condition still holds), so that replayed samples are not all boundary cases.
static uint64_t rng = 88172645463325252ull;
static uint64_t rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }
static void diversify(State& s) {
  if (s.inputs.size() > 40 || s.pc.size() > 600) return;
  for (auto& i : s.inputs) {
    if (i.var->op != VAR) continue;
    auto m = std::make_shared<Model>(*s.model);
    u128 v;
    switch (rnd() % 4) { case 0: v = rnd(); break; case 1: v = rnd() % 256; break; case 2: v = (u128)0 - rnd() % 5; break; default: v = rnd() >> (rnd() % 64); }
    (*m)[(uint32_t)i.var->c] = v & maskw(i.var->w);
    ev.setModel(m);
    bool ok = true;
    for (E c : s.pc) if (!ev.eval(c)) { ok = false; break; }
    if (ok) s.model = m;
  }
}
static void finishPath(State& s, bool crashed) {
  nDone++;
  for (auto& r : s.reached) reachedAll.insert(r);
  if (maxSamples && (samples.size() < maxSamples || (nDone & (nDone - 1)) == 0)) {
    // only paths whose outcome does not depend on uninitialised bytes are replayable
    diversify(s);
    Sample p; fillInputs(s, s.model, p.in);
    bool und = false;
    std::vector<char> seen; std::vector<E> vs;
    for (E o : s.observed) sol->vars(o, seen, vs);
    for (E o : s.pc) sol->vars(o, seen, vs);
    for (E v : vs) if (cx.vars[(size_t)v->c].undef) und = true;
    if (!und) {
      for (E o : s.observed) p.obs.push_back(ev.eval(o));
      p.crashed = crashed;
      if (samples.size() < maxSamples) samples.push_back(p);
      else samples[(nDone * 2654435761u >> 7) % maxSamples] = p;
    }
  }
}
[[noreturn]] static void crashEvent(State& s, const char* how) {
  nCrashes++;
  if (!s.crashOn) { report(s, "crash", std::string("unexpected ") + how, s.model); throw PathEnd{}; }
  nObl++;
  E bad = cx.not_(s.crashCond);
  ModelP m;
  if (sat(s, bad, &m) == 1) report(s, "crash", std::string("unexpected ") + how + " (inputs for which the operation must succeed)", m);
  if (sat(s, s.crashCond, &m) == 1) { State t(s); addPc(t, s.crashCond, m); t.crashOn = true; finishPath(t, true); }
  throw PathEnd{};
}
static bool leakCheck(State& s) {
  if (s.leaksOk) return true;
  for (auto& o : s.mem) if (o->kind == HEAP) { report(s, "leak", std::string("heap object of size ") + std::to_string(o->size) + " is never freed", s.model); return false; }
  return true;
}

// ---------------------------------------------------------------- externals
static const char* internName(const std::string& s) { static std::set<std::string> p; return p.insert(s).first->c_str(); }
static std::string cstr(State& s, E p) {
  std::string r;
  uint64_t a = concretize(s, p);
  for (;;) {
    Obj* o = lookup(s, a);
    if (!o || a >= o->base + o->size) return r;
    E b = getByte(s, o, a - o->base);
    if (!Ctx::isc(b) || !b->c) return r;
    r += (char)b->c; a++;
  }
}
static void freeAt(State& s, uint64_t a, bool isDelete) {
  if (!a) return;
  for (size_t i = s.mem.size(); i-- > 0;) if (s.mem[i]->base == a && s.mem[i]->kind == HEAP) {
    if (s.mem[i]->isNew != isDelete) report(s, "memory", "allocator mismatch (new/free or malloc/delete)", s.model);
    s.mem.erase(s.mem.begin() + i); return; }
  report(s, "memory", "free of a pointer that is not a live heap allocation (double or invalid free)", s.model);
  throw PathEnd{};
}
static void copyBytes(State& s, E dst, E src, uint64_t n, bool overlapOk) {
  if (!n) return;
  // source
  std::vector<E> tmp(n);
  bool conc; uint64_t off;
  Obj* o = resolve(s, src, n, false, &conc, &off);
  uint64_t sb = 0; bool sconc = conc;
  if (conc) { sb = o->base + off; for (uint64_t i = 0; i < n; i++) tmp[i] = o->b[off + i]; }
  else for (uint64_t i = 0; i < n; i++) tmp[i] = load(s, cx.bin(ADD, src, cx.cst(64, i)), 1);
  o = resolve(s, dst, n, true, &conc, &off);
  if (conc && sconc && !overlapOk) {
    uint64_t db = o->base + off;
    if (db != sb && db < sb + n && sb < db + n) report(s, "memory", "memcpy with overlapping ranges", s.model);
  }
  o = writable(s, o);
  if (conc) { for (uint64_t i = 0; i < n; i++) o->b[off + i] = tmp[i]; }
  else for (uint64_t i = 0; i < n; i++) store(s, cx.bin(ADD, dst, cx.cst(64, i)), tmp[i] ? tmp[i] : cx.var("undef", 8, true), 1);
}

struct Frame;
typedef bool Ext;
static std::set<std::string> stubsUsed;

// returns true when handled; *out is the result
static bool external(State& s, const Inst& in, const Function* F, std::vector<V>& a, V* out) {
  StringRef n = F->getName();
  auto A = [&](unsigned i) { return ex(a[i]); };
  auto c64 = [&](uint64_t v) { return mk(cx.cst(64, v)); };
  auto ret = [&](V v) { *out = v; return true; };
  unsigned rw = F->getReturnType()->isVoidTy() ? 0 : (F->getReturnType()->isIntegerTy() || F->getReturnType()->isPointerTy()) ? bitsOf(F->getReturnType()) : 0;
  // ---- harness interface
  if (n.starts_with("vp_")) {
    if (n == "vp_val") {
      unsigned bits = (unsigned)concretize(s, A(0));
      std::string nm = cstr(s, A(1));
      int k = s.nameCnt[nm]++;
      std::string full = nm + "#" + std::to_string(k);
      // the same (name, occurrence) always denotes the same variable
      static std::map<std::pair<std::string, unsigned>, E> pool;
      E& v = pool[{full, bits}];
      if (!v) v = cx.var(full, bits);
      s.inputs.push_back({internName(full), v});
      return ret(mk(cx.zext(v, 64)));
    }
    if (n == "vp_assume") { E c = cx.not_(cx.bin(EQ, A(0), cx.cst(A(0)->w, 0))); ModelP m; if (sat(s, c, &m) != 1) throw PathEnd{}; addPc(s, c, m); return true; }
    if (n == "vp_assert") {
      nAsserts++;
      E c = cx.not_(cx.bin(EQ, A(0), cx.cst(A(0)->w, 0)));
      if (c == cx.T) { nObl++; return true; }
      std::string msg = cstr(s, A(1));
      require(s, c, "assert", msg);
      return true;
    }
    if (n == "vp_reach") { s.reached.push_back(cstr(s, A(0))); return true; }
    if (n == "vp_observe") { s.observed.push_back(A(0)); return true; }
    if (n == "vp_pick") { return ret(c64(concretize(s, A(0)))); }
    if (n == "vp_crash_begin") { s.crashOn = true; s.crashCond = cx.not_(cx.bin(EQ, A(0), cx.cst(A(0)->w, 0))); return true; }
    if (n == "vp_crash_end") { s.crashOn = false; nAsserts++; require(s, cx.not_(s.crashCond), "nocrash", "operation returned for inputs on which it must crash"); return true; }
    if (n == "vp_done") { finishPath(s, false); throw PathEnd{}; }
    if (n == "vp_on_exit") return true;
    if (n == "vp_leak_ok") { s.leaksOk = true; return true; }
    if (n == "vp_is_symbolic") return ret(mk(cx.cst(32, 1)));
    if (n == "vp_kf_begin") { s.kf.push_back(internName(cstr(s, A(0)))); return true; }
    if (n == "vp_kf_end") { if (!s.kf.empty()) s.kf.pop_back(); return true; }
    if (n == "vp_live_heap") { uint64_t k = 0; for (auto& o : s.mem) if (o->kind == HEAP) k++; return ret(c64(k)); }
  }
  // ---- allocation
  auto alloc = [&](E size, uint64_t align, bool isNew, bool zero) -> V {
    bool huge = decide(s, cx.bin(ULT, cx.cst(64, 1u << 26), size), false);
    uint64_t n = huge ? 0 : concretize(s, size);
    if (huge) {
      if (isNew) crashEvent(s, "operator new failure");
      return c64(0);
    }
    Obj* o = newObj(s, HEAP, n, align, "heap"); o->isNew = isNew;
    if (zero) o->b.assign(n, cx.byteConst[0]);
    return c64(o->base);
  };
  if (n == "malloc") return ret(alloc(A(0), 16, false, false));
  if (n == "calloc") return ret(alloc(cx.bin(MUL, A(0), cx.cst(64, concretize(s, A(1)))), 16, false, true));
  if (n == "aligned_alloc") { uint64_t al = concretize(s, A(0)); return ret(alloc(A(1), al, false, false)); }
  if (n == "realloc") {
    uint64_t p = concretize(s, A(0));
    if (!p) return ret(alloc(A(1), 16, false, false));
    bool huge = decide(s, cx.bin(ULT, cx.cst(64, 1u << 26), A(1)), false);
    uint64_t sz = huge ? -1ull : concretize(s, A(1));
    Obj* o = lookup(s, p);
    if (!o || o->base != p || o->kind != HEAP) { report(s, "memory", "realloc of a pointer that is not a live heap allocation", s.model); throw PathEnd{}; }
    if (sz > (1u << 26)) return ret(c64(0));
    std::vector<E> old = o->b; bool isNew = o->isNew;
    if (isNew) report(s, "memory", "allocator mismatch (realloc of new)", s.model);
    eraseObj(s, p);
    Obj* q = newObj(s, HEAP, sz, 16, "heap");
    for (uint64_t i = 0; i < sz && i < old.size(); i++) q->b[i] = old[i];
    return ret(c64(q->base));
  }
  if (n == "free") { freeAt(s, concretize(s, A(0)), false); return true; }
  if (n.starts_with("_Znwm") || n.starts_with("_Znam")) { uint64_t al = n.contains("St11align_val_t") ? concretize(s, A(1)) : 16; return ret(alloc(A(0), al, true, false)); }
  if (n.starts_with("_ZdlPv") || n.starts_with("_ZdaPv")) { freeAt(s, concretize(s, A(0)), true); return true; }
  // ---- memory and strings
  if (n == "memcpy" || n == "memmove") { uint64_t k = concretize(s, A(2)); copyBytes(s, A(0), A(1), k, n == "memmove"); return ret(a[0]); }
  if (n == "memset") { uint64_t k = concretize(s, A(2)); for (uint64_t i = 0; i < k; i++) store(s, cx.bin(ADD, A(0), cx.cst(64, i)), cx.extract(A(1), 0, 8), 1); return ret(a[0]); }
  if (n == "memcmp" || n == "bcmp") {
    uint64_t k = concretize(s, A(2));
    E r = cx.cst(32, 0);
    // whole ranges are accessed per the C standard
    std::vector<std::pair<E, E>> bs;
    for (uint64_t i = 0; i < k; i++) bs.push_back({load(s, cx.bin(ADD, A(0), cx.cst(64, i)), 1), load(s, cx.bin(ADD, A(1), cx.cst(64, i)), 1)});
    for (uint64_t i = k; i-- > 0;) {
      E x = bs[i].first, y = bs[i].second;
      E d = cx.ite(cx.bin(ULT, x, y), cx.cst(32, (u128)-1), cx.cst(32, 1));
      r = cx.ite(cx.bin(EQ, x, y), r, d);
    }
    return ret(mk(r));
  }
  if (n == "strlen") {
    // forks on the position of the terminator
    for (uint64_t i = 0;; i++) {
      E b = load(s, cx.bin(ADD, A(0), cx.cst(64, i)), 1);
      if (decide(s, cx.bin(EQ, b, cx.cst(8, 0)), true)) return ret(c64(i));
    }
  }
  if (n == "memchr" || n == "memrchr") {
    uint64_t k = concretize(s, A(2));
    E ch = cx.extract(A(1), 0, 8);
    if (n == "memchr") {
      // forks on the position of the first match
      for (uint64_t i = 0; i < k; i++) { E b = load(s, cx.bin(ADD, A(0), cx.cst(64, i)), 1); if (decide(s, cx.bin(EQ, b, ch), true)) return ret(mk(cx.bin(ADD, A(0), cx.cst(64, i)))); }
    } else for (uint64_t i = k; i-- > 0;) { E b = load(s, cx.bin(ADD, A(0), cx.cst(64, i)), 1); if (decide(s, cx.bin(EQ, b, ch), true)) return ret(mk(cx.bin(ADD, A(0), cx.cst(64, i)))); }
    return ret(c64(0));
  }
  if (n == "memmem") {
    uint64_t hk = concretize(s, A(1)), nk = concretize(s, A(3));
    if (nk > hk) return ret(c64(0));
    if (hk > 100000) { // a wrapped length: any access would run off the object
      load(s, A(0), 1); load(s, cx.bin(ADD, A(0), cx.cst(64, hk - 1)), 1); }
    // the ranges must be valid
    if (nk) load(s, cx.bin(ADD, A(2), cx.cst(64, nk - 1)), 1);
    if (hk) load(s, cx.bin(ADD, A(0), cx.cst(64, hk - 1)), 1);
    for (uint64_t i = 0; i + nk <= hk; i++) {
      E c = cx.T;
      for (uint64_t j = 0; j < nk; j++) c = cx.and_(c, cx.bin(EQ, load(s, cx.bin(ADD, A(0), cx.cst(64, i + j)), 1), load(s, cx.bin(ADD, A(2), cx.cst(64, j)), 1)));
      if (decide(s, c, true)) return ret(mk(cx.bin(ADD, A(0), cx.cst(64, i))));
    }
    return ret(c64(0));
  }
  // ---- process
  if (n.starts_with("_ZN4best14crash_internal")) {
    static bool real = F->getParent()->getFunction("vp_env_exit") && !F->getParent()->getFunction("vp_env_exit")->isDeclaration();
    if (!real) crashEvent(s, "crash");
  }
  if (n == "abort" || n == "_ZSt9terminatev" || n == "__cxa_pure_virtual" || n == "_ZNSt3__122__libcpp_verbose_abortEPKcz") crashEvent(s, "abort");
  if (n == "exit" || n == "_exit" || n == "quick_exit" || n == "_Exit") crashEvent(s, "crash (process exit)");
  if (n == "__cxa_throw" || n.starts_with("_ZNSt3__1") && n.contains("__throw_")) crashEvent(s, "exception");
  stubsUsed.insert(n.str());
  if (n == "__cxa_atexit") return ret(mk(cx.cst(32, 0)));
  if (n == "__cxa_guard_acquire") { E b = load(s, A(0), 1); uint64_t v = concretize(s, b); return ret(mk(cx.cst(32, v ? 0 : 1))); }
  if (n == "__cxa_guard_release") { store(s, A(0), cx.cst(8, 1), 1); return true; }
  if (n == "fprintf" || n == "printf" || n == "fflush" || n == "fputs" || n == "puts" || n == "putchar" || n == "fputc") return ret(mk(cx.cst(32, 0)));
  if (n == "fwrite") return ret(a[2]);
  if (n == "vsnprintf" || n == "snprintf") { if (Ctx::isc(A(1)) && A(1)->c) store(s, A(0), cx.cst(8, 0), 1); return ret(mk(cx.cst(32, 0))); }
  if (n == "pthread_self") return ret(c64(1));
  if (n == "pthread_getname_np") { if (Ctx::isc(A(2)) && A(2)->c) store(s, A(1), cx.cst(8, 0), 1); return ret(mk(cx.cst(32, 0))); }
  if (n == "__errno_location") {
    if (!s.errnoAt) { Obj* o = newObj(s, STACK, 4, 16, "errno"); o->b.assign(4, cx.byteConst[0]); s.errnoAt = o->base; }
    return ret(c64(s.errnoAt));
  }
  if (rw) {}
  stubsUsed.erase(n.str());
  return false;
}

// ---------------------------------------------------------------- execution
static V val(Frame& f, const Opnd& o) { return o.reg >= 0 ? f.r[o.reg] : o.cv; }

static void enterBlock(State& s, int to) {
  Frame& f = s.st.back();
  Block& b = f.fn->bl[to];
  int from = f.bb;
  if (!b.phis.empty()) {
    V tmp[64]; std::vector<V> big; V* t = tmp;
    if (b.phis.size() > 64) { big.resize(b.phis.size()); t = big.data(); }
    for (size_t i = 0; i < b.phis.size(); i++) {
      bool ok = false;
      for (auto& in : b.phis[i].in) if (in.first == from) { t[i] = val(f, in.second); ok = true; break; }
      if (!ok) fatal("phi without matching edge");
    }
    for (size_t i = 0; i < b.phis.size(); i++) f.r[b.phis[i].dst] = t[i];
  }
  f.prev = from; f.bb = to; f.ip = 0;
}
static void popFrame(State& s, V rv, bool has) {
  Frame& f = s.st.back();
  for (size_t i = f.allocas.size(); i-- > 0;) eraseObj(s, f.allocas[i]);
  const Inst* cs = f.callsite;
  s.st.pop_back();
  if (s.st.empty()) return;
  if (cs) {
    Frame& c = s.st.back();
    if (has && cs->dst >= 0) c.r[cs->dst] = rv;
    if (cs->op == Instruction::Invoke) enterBlock(s, cs->s0);
  }
}
static void pushCall(State& s, const Function* F, std::vector<V>& args, const Inst* cs) {
  Fn* fn = decode(F);
  if (s.st.size() > 400) { report(s, "recursion", "call depth over 400", s.model); throw PathEnd{}; }
  Frame f; f.fn = fn; f.r.resize(fn->nregs); f.callsite = cs;
  for (size_t i = 0; i < fn->args.size(); i++) {
    V v = args[i];
    if (F->hasParamAttribute(i, Attribute::ByVal)) {
      Type* t = F->getParamByValType(i);
      uint64_t n = DL->getTypeAllocSize(t);
      Obj* o = newObj(s, STACK, n, 16, "byval");
      uint64_t b = o->base;
      f.allocas.push_back(b);
      copyBytes(s, cx.cst(64, b), ex(v), n, false);
      v = mk(cx.cst(64, b));
    }
    f.r[fn->args[i]] = v;
  }
  if (F->isVarArg() && cs) {
    auto* cb = cast<CallBase>(cs->I);
    for (size_t i = fn->args.size(); i < args.size(); i++) {
      if (cb->isByValArgument(i)) { incomplete.insert("by-value structure as a variadic argument"); throw PathEnd{}; }
      f.va.push_back(args[i]); f.vaT.push_back(cb->getArgOperand(i)->getType());
    }
  }
  s.st.push_back(std::move(f));
}

static E ovf(State&, unsigned iid, E x, E y, E* res) {
  unsigned w = x->w;
  if (w > 64) {
    // 128-bit: use direct formulas for add/sub; unsupported mul
    switch (iid) {
      case Intrinsic::uadd_with_overflow: *res = cx.bin(ADD, x, y); return cx.bin(ULT, *res, x);
      case Intrinsic::usub_with_overflow: *res = cx.bin(SUB, x, y); return cx.bin(ULT, x, y);
      default: fatal("128-bit overflow op");
    }
  }
  bool sg = iid == Intrinsic::sadd_with_overflow || iid == Intrinsic::ssub_with_overflow || iid == Intrinsic::smul_with_overflow;
  if (iid == Intrinsic::smul_with_overflow || iid == Intrinsic::umul_with_overflow) {
    E X = sg ? cx.sext(x, 2 * w) : cx.zext(x, 2 * w), Y = sg ? cx.sext(y, 2 * w) : cx.zext(y, 2 * w);
    E p = cx.bin(MUL, X, Y);
    *res = cx.extract(p, 0, w);
    E r = sg ? cx.sext(*res, 2 * w) : cx.zext(*res, 2 * w);
    return cx.not_(cx.bin(EQ, r, p));
  }
  bool add = iid == Intrinsic::sadd_with_overflow || iid == Intrinsic::uadd_with_overflow;
  *res = cx.bin(add ? ADD : SUB, x, y);
  if (!sg) return add ? cx.bin(ULT, *res, x) : cx.bin(ULT, x, y);
  E sxn = cx.extract(x, w - 1, 1), syn = cx.extract(y, w - 1, 1), sr = cx.extract(*res, w - 1, 1);
  E a = add ? cx.not_(cx.bin(XOR, sxn, syn)) : cx.bin(XOR, sxn, syn);
  return cx.and_(a, cx.bin(XOR, sr, sxn));
}

static bool intrinsic(State& s, const Inst& in, std::vector<V>& a, V* out) {
  auto A = [&](unsigned i) { return ex(a[i]); };
  switch (in.iid) {
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: {
      if (Ctx::isc(A(1))) {
        Obj* o = lookup(s, (uint64_t)A(1)->c);
        if (o && o->kind == STACK && o->base == (uint64_t)A(1)->c) { o = writable(s, o); std::fill(o->b.begin(), o->b.end(), nullptr); }
      }
      return true;
    }
    case Intrinsic::invariant_start: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ptr_annotation:
      if (in.dst >= 0) *out = a[in.iid == Intrinsic::invariant_start ? 1 : 0]; return true;
    case Intrinsic::invariant_end: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::sideeffect: case Intrinsic::prefetch: case Intrinsic::vaend: case Intrinsic::stackrestore: return true;
    case Intrinsic::vastart: {  // x86-64: every argument in the overflow area
      auto va = s.st.back().va; auto ts = s.st.back().vaT;
      Obj* o = newObj(s, STACK, 8 * va.size(), 16, "varargs"); uint64_t b = o->base; s.st.back().allocas.push_back(b);
      for (size_t i = 0; i < va.size(); i++) storeT(s, cx.cst(64, b + 8 * i), va[i], ts[i]);
      store(s, A(0), cx.cst(32, 48), 4); store(s, cx.bin(ADD, A(0), cx.cst(64, 4)), cx.cst(32, 176), 4);
      store(s, cx.bin(ADD, A(0), cx.cst(64, 8)), cx.cst(64, b), 8); store(s, cx.bin(ADD, A(0), cx.cst(64, 16)), cx.cst(64, 0), 8);
      return true;
    }
    case Intrinsic::vacopy: copyBytes(s, A(0), A(1), 24, false); return true;
    case Intrinsic::stacksave: *out = mk(cx.cst(64, 0)); return true;
    case Intrinsic::assume: {
      require(s, A(0), "assume", "a condition the code tells the compiler to assume is false (undefined behaviour)");
      return true;
    }
    case Intrinsic::expect: *out = a[0]; return true;
    case Intrinsic::is_constant: *out = mk(cx.F); return true;
    case Intrinsic::objectsize: *out = mk(cx.cst(bitsOf(in.ty), (u128)-1)); return true;
    case Intrinsic::trap: crashEvent(s, "trap");
    case Intrinsic::ubsantrap: { report(s, "ub", "undefined behaviour (ubsan code " + std::to_string((int)A(0)->c) + ")", s.model); throw PathEnd{}; }
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
      uint64_t n = concretize(s, A(2));
      copyBytes(s, A(0), A(1), n, in.iid == Intrinsic::memmove);
      return true;
    }
    case Intrinsic::memset: case Intrinsic::memset_inline: {
      uint64_t n = concretize(s, A(2));
      if (!n) return true;
      bool conc; uint64_t off;
      Obj* o = resolve(s, A(0), n, true, &conc, &off);
      if (conc) { o = writable(s, o); for (uint64_t i = 0; i < n; i++) o->b[off + i] = A(1); }
      else for (uint64_t i = 0; i < n; i++) store(s, cx.bin(ADD, A(0), cx.cst(64, i)), A(1), 1);
      return true;
    }
    case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow:
    case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
      E r; E o = ovf(s, in.iid, A(0), A(1), &r);
      Agg* g = new Agg; g->el = {mk(r), mk(o)}; *out = mkAgg(g); return true;
    }
    case Intrinsic::ceil: case Intrinsic::floor: case Intrinsic::trunc: case Intrinsic::fabs: {
      E x = A(0); if (!Ctx::isc(x)) { incomplete.insert("symbolic floating point"); throw PathEnd{}; }
      double d = toD(x); auto k = in.iid;
      *out = mk(fromD(k == Intrinsic::ceil ? ceil(d) : k == Intrinsic::floor ? floor(d) : k == Intrinsic::trunc ? trunc(d) : fabs(d), x->w)); return true;
    }
    case Intrinsic::ctpop: *out = mapN(1, a.data(), [](E* t) { return popcnt(t[0]); }); return true;
    case Intrinsic::ctlz: *out = mapN(1, a.data(), [](E* t) { return clz(t[0]); }); return true;
    case Intrinsic::cttz: *out = mapN(1, a.data(), [](E* t) { return ctz(t[0]); }); return true;
    case Intrinsic::bswap: *out = mapN(1, a.data(), [](E* t) { E r = cx.extract(t[0], 0, 8); for (unsigned i = 1; i < t[0]->w / 8; i++) r = cx.concat(r, cx.extract(t[0], i * 8, 8)); return r; }); return true;
    case Intrinsic::bitreverse: *out = mapN(1, a.data(), [](E* t) { E r = cx.extract(t[0], 0, 1); for (unsigned i = 1; i < t[0]->w; i++) r = cx.concat(r, cx.extract(t[0], i, 1)); return r; }); return true;
    case Intrinsic::abs: *out = mapN(1, a.data(), [](E* t) { return cx.ite(cx.bin(SLT, t[0], cx.cst(t[0]->w, 0)), cx.bin(SUB, cx.cst(t[0]->w, 0), t[0]), t[0]); }); return true;
    case Intrinsic::umin: *out = mapN(2, a.data(), [](E* t) { return cx.ite(cx.bin(ULT, t[0], t[1]), t[0], t[1]); }); return true;
    case Intrinsic::umax: *out = mapN(2, a.data(), [](E* t) { return cx.ite(cx.bin(ULT, t[0], t[1]), t[1], t[0]); }); return true;
    case Intrinsic::smin: *out = mapN(2, a.data(), [](E* t) { return cx.ite(cx.bin(SLT, t[0], t[1]), t[0], t[1]); }); return true;
    case Intrinsic::smax: *out = mapN(2, a.data(), [](E* t) { return cx.ite(cx.bin(SLT, t[0], t[1]), t[1], t[0]); }); return true;
    case Intrinsic::uadd_sat: *out = mapN(2, a.data(), [](E* t) { E r = cx.bin(ADD, t[0], t[1]); return cx.ite(cx.bin(ULT, r, t[0]), cx.cst(r->w, maskw(r->w)), r); }); return true;
    case Intrinsic::usub_sat: *out = mapN(2, a.data(), [](E* t) { return cx.ite(cx.bin(ULT, t[0], t[1]), cx.cst(t[0]->w, 0), cx.bin(SUB, t[0], t[1])); }); return true;
    case Intrinsic::sadd_sat: case Intrinsic::ssub_sat: {
      unsigned iid = in.iid == Intrinsic::sadd_sat ? Intrinsic::sadd_with_overflow : Intrinsic::ssub_with_overflow;
      E x = A(0), r, o = ovf(s, iid, x, A(1), &r); unsigned w = x->w;
      E sat = cx.ite(cx.bin(SLT, x, cx.cst(w, 0)), cx.cst(w, (u128)1 << (w - 1)), cx.cst(w, maskw(w) >> 1));
      *out = mk(cx.ite(o, sat, r)); return true;
    }
    case Intrinsic::fshl: case Intrinsic::fshr: {
      E x = A(0), y = A(1), z = A(2); unsigned w = x->w;
      E sh = cx.bin(UREM, z, cx.cst(w, w));
      E inv = cx.bin(SUB, cx.cst(w, w), sh);
      E r = in.iid == Intrinsic::fshl ? cx.bin(OR, cx.bin(SHL, x, sh), cx.bin(LSHR, y, inv)) : cx.bin(OR, cx.bin(SHL, x, inv), cx.bin(LSHR, y, sh));
      E z0 = cx.bin(EQ, sh, cx.cst(w, 0));
      *out = mk(cx.ite(z0, in.iid == Intrinsic::fshl ? x : y, r)); return true;
    }
    case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_xor: {
      auto& el = agg(a[0])->el; E r = ex(el[0]);
      Op op = in.iid == Intrinsic::vector_reduce_or ? OR : in.iid == Intrinsic::vector_reduce_and ? AND : in.iid == Intrinsic::vector_reduce_xor ? XOR : ADD;
      for (size_t i = 1; i < el.size(); i++) r = cx.bin(op, r, ex(el[i]));
      *out = mk(r); return true;
    }
    case Intrinsic::threadlocal_address: *out = a[0]; return true;
    default: return false;
  }
}

static Op binop(unsigned o) {
  switch (o) {
    case Instruction::Add: return ADD; case Instruction::Sub: return SUB; case Instruction::Mul: return MUL;
    case Instruction::UDiv: return UDIV; case Instruction::SDiv: return SDIV; case Instruction::URem: return UREM; case Instruction::SRem: return SREM;
    case Instruction::And: return AND; case Instruction::Or: return OR; case Instruction::Xor: return XOR;
    case Instruction::Shl: return SHL; case Instruction::LShr: return LSHR; case Instruction::AShr: return ASHR;
  }
  fatal("binop");
}

// executes one instruction; returns false when the path has completed
static bool step(State& s) {
  Frame& f = s.st.back();
  Inst& in = f.fn->bl[f.bb].in[f.ip];
  in.hit = true;
  nInstr++; s.steps++;
  switch (in.op) {
    case Instruction::Br:
      if (in.s1 < 0) { enterBlock(s, in.s0); return true; }
      else { E c = ex(val(f, in.o[0])); bool t = decide(s, c, true); enterBlock(s, t ? in.s0 : in.s1); return true; }
    case Instruction::Switch: {
      E c = ex(val(f, in.o[0]));
      if (Ctx::isc(c)) { for (auto& k : in.cases) if (k.first->c == c->c) { enterBlock(s, k.second); return true; } enterBlock(s, in.s0); return true; }
      for (auto& k : in.cases) { E q = cx.bin(EQ, c, k.first); if (q == cx.F) continue; if (decide(s, q, true)) { enterBlock(s, k.second); return true; } }
      enterBlock(s, in.s0);
      return true;
    }
    case Instruction::Ret: {
      V rv = 0; bool has = !in.o.empty();
      if (has) rv = val(f, in.o[0]);
      popFrame(s, rv, has);
      return !s.st.empty();
    }
    case Instruction::Unreachable:
      report(s, "ub", "reached unreachable code", s.model); throw PathEnd{};
    case Instruction::Alloca: {
      uint64_t n = concretize(s, ex(val(f, in.o[0])));
      Obj* o = newObj(s, STACK, n * in.size, in.constOff, "stack");
      Frame& g = s.st.back();
      g.allocas.push_back(o->base);
      g.r[in.dst] = mk(cx.cst(64, o->base));
      break;
    }
    case Instruction::Load: f.r[in.dst] = loadT(s, ex(val(f, in.o[0])), in.ty); break;
    case Instruction::Store: storeT(s, ex(val(f, in.o[1])), val(f, in.o[0]), cast<StoreInst>(in.I)->getValueOperand()->getType()); break;
    case Instruction::GetElementPtr: {
      E p = ex(val(f, in.o[0]));
      for (auto& i : in.idx) {
        E x = ex(f.r[i.reg]);
        if (x->w < 64) x = cx.sext(x, 64); else if (x->w > 64) x = cx.extract(x, 0, 64);
        p = cx.bin(ADD, p, cx.bin(MUL, x, cx.cst(64, i.scale)));
      }
      f.r[in.dst] = mk(cx.bin(ADD, p, cx.cst(64, in.constOff)));
      break;
    }
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor:
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
      V a[2] = {val(f, in.o[0]), val(f, in.o[1])}; Op op = binop(in.op);
      if (!isAgg(a[0])) f.r[in.dst] = mk(cx.bin(op, ex(a[0]), ex(a[1])));
      else f.r[in.dst] = mapN(2, a, [op](E* t) { return cx.bin(op, t[0], t[1]); });
      break;
    }
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
      E x = ex(val(f, in.o[0])), y = ex(val(f, in.o[1]));
      require(s, cx.not_(cx.bin(EQ, y, cx.cst(y->w, 0))), "ub", "division by zero");
      if (in.op == Instruction::SDiv || in.op == Instruction::SRem)
        require(s, cx.not_(cx.and_(cx.bin(EQ, x, cx.cst(x->w, (u128)1 << (x->w - 1))), cx.bin(EQ, y, cx.cst(y->w, maskw(y->w))))), "ub", "signed division overflow");
      f.r[in.dst] = mk(cx.bin(binop(in.op), x, y));
      break;
    }
    case Instruction::ICmp: {
      V a[2] = {val(f, in.o[0]), val(f, in.o[1])};
      auto p = cast<ICmpInst>(in.I)->getPredicate();
      if (!isAgg(a[0])) f.r[in.dst] = mk(cmpE(p, ex(a[0]), ex(a[1])));
      else f.r[in.dst] = mapN(2, a, [p](E* t) { return cmpE(p, t[0], t[1]); });
      break;
    }
    case Instruction::Select: {
      V c = val(f, in.o[0]), a = val(f, in.o[1]), b = val(f, in.o[2]);
      if (forkIndex && !isAgg(c) && !isAgg(a) && !isAgg(b) && ex(a)->w == 64 && Ctx::isc(ex(a)) && Ctx::isc(ex(b)) && ex(a) != ex(b)) {
        f.r[in.dst] = decide(s, ex(c), true) ? a : b; break;
      }
      if (!isAgg(c)) f.r[in.dst] = iteV(ex(c), a, b);
      else { V t[3] = {c, a, b}; f.r[in.dst] = mapN(3, t, [](E* t) { return cx.ite(t[0], t[1], t[2]); }); }
      break;
    }
    case Instruction::Trunc: { V a = val(f, in.o[0]); unsigned w = bitsOf(in.ty->getScalarType()); f.r[in.dst] = mapN(1, &a, [w](E* t) { return cx.extract(t[0], 0, w); }); break; }
    case Instruction::ZExt: { V a = val(f, in.o[0]); unsigned w = bitsOf(in.ty->getScalarType()); f.r[in.dst] = mapN(1, &a, [w](E* t) { return cx.zext(t[0], w); }); break; }
    case Instruction::SExt: { V a = val(f, in.o[0]); unsigned w = bitsOf(in.ty->getScalarType()); f.r[in.dst] = mapN(1, &a, [w](E* t) { return cx.sext(t[0], w); }); break; }
    case Instruction::PtrToInt: case Instruction::IntToPtr: {
      V a = val(f, in.o[0]); unsigned w = bitsOf(in.ty->getScalarType());
      f.r[in.dst] = mapN(1, &a, [w](E* t) { return t[0]->w > w ? cx.extract(t[0], 0, w) : cx.zext(t[0], w); }); break; }
    case Instruction::BitCast: case Instruction::AddrSpaceCast: f.r[in.dst] = bitcastV(val(f, in.o[0]), in.I->getOperand(0)->getType(), in.ty); break;
    case Instruction::Freeze: f.r[in.dst] = val(f, in.o[0]); break;
    case Instruction::ExtractValue: { V v = val(f, in.o[0]); for (unsigned i : in.path) v = agg(v)->el[i]; f.r[in.dst] = v; break; }
    case Instruction::InsertValue: {
      std::function<V(V, size_t)> go = [&](V v, size_t d) -> V { if (d == in.path.size()) return val(f, in.o[1]); Agg* n = new Agg(*agg(v)); n->el[in.path[d]] = go(n->el[in.path[d]], d + 1); return mkAgg(n); };
      f.r[in.dst] = go(val(f, in.o[0]), 0); break;
    }
    case Instruction::ExtractElement: { uint64_t i = concretize(s, ex(val(f, in.o[1]))); f.r[in.dst] = agg(val(f, in.o[0]))->el.at(i); break; }
    case Instruction::InsertElement: { uint64_t i = concretize(s, ex(val(f, in.o[2]))); Agg* n = new Agg(*agg(val(f, in.o[0]))); n->el.at(i) = val(f, in.o[1]); f.r[in.dst] = mkAgg(n); break; }
    case Instruction::ShuffleVector: {
      auto &x = agg(val(f, in.o[0]))->el, &y = agg(val(f, in.o[1]))->el; Agg* n = new Agg;
      for (unsigned m : in.path) n->el.push_back(m == ~0u ? x[0] : m < x.size() ? x[m] : y[m - x.size()]);
      f.r[in.dst] = mkAgg(n); break;
    }
    case Instruction::AtomicRMW: {
      auto* r = cast<AtomicRMWInst>(in.I);
      E p = ex(val(f, in.o[0])), v = ex(val(f, in.o[1])); E old = ex(loadT(s, p, in.ty)); E nv;
      switch (r->getOperation()) { case AtomicRMWInst::Add: nv = cx.bin(ADD, old, v); break; case AtomicRMWInst::Sub: nv = cx.bin(SUB, old, v); break; case AtomicRMWInst::Xchg: nv = v; break; case AtomicRMWInst::Or: nv = cx.bin(OR, old, v); break; case AtomicRMWInst::And: nv = cx.bin(AND, old, v); break; default: fatal("atomicrmw"); }
      storeT(s, p, mk(nv), in.ty); s.st.back().r[in.dst] = mk(old); break;
    }
    case Instruction::Fence: break;
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: {
      E x = ex(val(f, in.o[0])), y = ex(val(f, in.o[1]));
      if (!Ctx::isc(x) || !Ctx::isc(y)) { incomplete.insert("symbolic floating point"); throw PathEnd{}; }
      double a = toD(x), b = toD(y), r = in.op == Instruction::FAdd ? a + b : in.op == Instruction::FSub ? a - b : in.op == Instruction::FMul ? a * b : a / b;
      f.r[in.dst] = mk(fromD(r, x->w)); break;
    }
    case Instruction::FNeg: { E x = ex(val(f, in.o[0])); f.r[in.dst] = mk(cx.bin(XOR, x, cx.cst(x->w, (u128)1 << (x->w - 1)))); break; }
    case Instruction::FCmp: {
      E x = ex(val(f, in.o[0])), y = ex(val(f, in.o[1]));
      if (!Ctx::isc(x) || !Ctx::isc(y)) { incomplete.insert("symbolic floating point"); throw PathEnd{}; }
      double a = toD(x), b = toD(y); bool un = std::isnan(a) || std::isnan(b), r;
      switch (cast<FCmpInst>(in.I)->getPredicate()) {
        case CmpInst::FCMP_OEQ: r = a == b; break; case CmpInst::FCMP_UNE: r = !(a == b); break; case CmpInst::FCMP_OLT: r = a < b; break; case CmpInst::FCMP_OGT: r = a > b; break;
        case CmpInst::FCMP_OLE: r = a <= b; break; case CmpInst::FCMP_OGE: r = a >= b; break; case CmpInst::FCMP_UNO: r = un; break; case CmpInst::FCMP_ORD: r = !un; break;
        case CmpInst::FCMP_ONE: r = !un && a != b; break; case CmpInst::FCMP_UEQ: r = un || a == b; break; case CmpInst::FCMP_ULT: r = un || a < b; break; case CmpInst::FCMP_UGT: r = un || a > b; break;
        case CmpInst::FCMP_ULE: r = un || a <= b; break; case CmpInst::FCMP_UGE: r = un || a >= b; break; case CmpInst::FCMP_TRUE: r = true; break; default: r = false; }
      f.r[in.dst] = mk(cx.boolc(r)); break;
    }
    case Instruction::SIToFP: case Instruction::UIToFP: {
      E x = ex(val(f, in.o[0])); if (!Ctx::isc(x)) { incomplete.insert("symbolic floating point"); throw PathEnd{}; }
      f.r[in.dst] = mk(fromD(in.op == Instruction::SIToFP ? (double)(int64_t)sx(x->c, x->w) : (double)(uint64_t)x->c, bitsOf(in.ty))); break; }
    case Instruction::FPToSI: case Instruction::FPToUI: {
      E x = ex(val(f, in.o[0])); if (!Ctx::isc(x)) { incomplete.insert("symbolic floating point"); throw PathEnd{}; }
      double d = toD(x); f.r[in.dst] = mk(cx.cst(bitsOf(in.ty), in.op == Instruction::FPToSI ? (u128)(s128)d : (u128)d)); break; }
    case Instruction::FPExt: case Instruction::FPTrunc: { E x = ex(val(f, in.o[0])); if (!Ctx::isc(x)) { incomplete.insert("symbolic floating point"); throw PathEnd{}; } f.r[in.dst] = mk(fromD(toD(x), bitsOf(in.ty))); break; }
    case Instruction::Call: case Instruction::Invoke: {
      std::vector<V> a;
      size_t na = cast<CallBase>(in.I)->arg_size();
      for (size_t i = 0; i < na; i++) a.push_back(val(f, in.o[i]));
      V out = 0;
      if (in.iid == ~0u) { // inline asm: only empty barriers are expected
        auto* ia = cast<InlineAsm>(cast<CallBase>(in.I)->getCalledOperand());
        if (!ia->getAsmString().empty()) { incomplete.insert("inline asm"); throw PathEnd{}; }
        if (in.dst >= 0) f.r[in.dst] = a.empty() ? undefOf(in.ty) : a[0];
        break;
      }
      const Function* F = in.callee;
      if (!F) {
        E t = ex(val(f, in.o[na]));
        uint64_t ad = concretize(s, t);
        auto it = addrFn.find(ad);
        if (it == addrFn.end()) { report(s, "memory", "indirect call through an invalid function pointer", s.model); throw PathEnd{}; }
        F = it->second;
      }
      if (F->isDeclaration() && !F->isIntrinsic()) {  // environment models supplied by the harness
        static std::unordered_map<const Function*, const Function*> envs;
        auto it = envs.find(F);
        if (it == envs.end()) { auto* G = F->getParent()->getFunction(("vp_env_" + F->getName()).str()); it = envs.emplace(F, G && !G->isDeclaration() ? G : F).first; }
        if (it->second != F) { F = it->second; stubsUsed.insert(F->getName().str()); }
      }
      if (F->isIntrinsic() && in.iid) {
        if (!intrinsic(s, in, a, &out)) { incomplete.insert("intrinsic " + F->getName().str()); throw PathEnd{}; }
        if (in.dst >= 0) s.st.back().r[in.dst] = out;
        if (in.op == Instruction::Invoke) { enterBlock(s, in.s0); return true; }
        break;
      }
      if (external(s, in, F, a, &out)) {
        if (in.dst >= 0) { if (!out) out = undefOf(in.ty); s.st.back().r[in.dst] = out; }
        if (in.op == Instruction::Invoke) { enterBlock(s, in.s0); return true; }
        break;
      }
      if (F->isDeclaration()) { incomplete.insert("unmodelled external function " + F->getName().str()); throw PathEnd{}; }
      if (a.size() < F->arg_size()) { report(s, "ub", "call with too few arguments", s.model); throw PathEnd{}; }
      f.ip++;
      if (in.op == Instruction::Invoke) f.ip--;
      pushCall(s, F, a, &in);
      return true;
    }
    default: { std::string t; raw_string_ostream os(t); in.I->print(os); incomplete.insert("instruction " + os.str()); throw PathEnd{}; }
  }
  s.st.back().ip++;
  return true;
}

static void runState(State* s) {
  try {
    for (;;) {
      if (!step(*s)) break;
      if (s->steps > maxSteps) { report(*s, "nontermination", "path exceeds the step limit", s->model); throw PathEnd{}; }
      if ((nInstr & 0xfff) == 0 && now() > deadline) return;
    }
    leakCheck(*s);
    finishPath(*s, false);
  } catch (PathEnd&) {}
  nPaths++;
}

static std::string jstr(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; }
  return r + "\"";
}
static std::string dec(u128 v) { char b[64]; int i = 63; b[i] = 0; if (!v) b[--i] = '0'; while (v) { b[--i] = '0' + (int)(v % 10); v /= 10; } return b + i; }
static std::string jin(const decltype(Viol::in)& in) {
  std::string r = "[";
  for (size_t i = 0; i < in.size(); i++) { if (i) r += ","; r += "[" + jstr(in[i].first) + "," + std::to_string(in[i].second.first) + ",\"" + dec(in[i].second.second) + "\"]"; }
  return r + "]";
}

int main(int argc, char** argv) {
  std::string file, entry, out; double tmax = 600; bool list = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") entry = nx(); else if (a == "--out") out = nx(); else if (a == "--time") tmax = atof(argv[++i]);
    else if (a == "--max-steps") maxSteps = atoll(argv[++i]); else if (a == "--max-paths") maxPaths = atoll(argv[++i]);
    else if (a == "--max-viol") maxViol = atoi(argv[++i]); else if (a == "-v") verbose = true; else if (a == "--samples") maxSamples = atoi(argv[++i]);
    else if (a == "--seed") rng ^= (uint64_t)atoll(argv[++i]) * 0x9E3779B97F4A7C15ull; else if (a == "--fork-index") forkIndex = true; else if (a == "--cross") {} else if (a == "--list") list = true; else file = a;
  }
  LLVMContext ctx; SMDiagnostic err;
  auto M = parseIRFile(file, err, ctx);
  if (!M) { err.print("sx", errs()); return 4; }
  if (list) { for (auto& F : *M) if (!F.isDeclaration() && F.getName().starts_with("vpx_")) printf("%s\n", F.getName().str().c_str()); return 0; }
  DL = &M->getDataLayout();
  Solver solver(cx); sol = &solver;
  for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--cross")) solver.crossCheck = true;
  double t0 = now(); deadline = t0 + tmax; solver.deadline = deadline;
  State* s0 = new State; s0->model = std::make_shared<Model>();
  for (auto& F : *M) addrOf(&F);
  for (auto& g : M->globals()) {
    if (g.getName().starts_with("llvm.")) continue;
    uint64_t al = std::max<uint64_t>(16, g.getAlign() ? g.getAlign()->value() : 16);
    nextGlobal = (nextGlobal + al - 1) / al * al;
    gvAddr[&g] = nextGlobal;
    nextGlobal += DL->getTypeAllocSize(g.getValueType()) + 128;
  }
  std::vector<ObjP> rw;
  for (auto& g : M->globals()) {
    if (g.getName().starts_with("llvm.")) continue;
    Obj* o = new Obj; o->kind = GLOBAL; o->base = gvAddr[&g]; o->size = DL->getTypeAllocSize(g.getValueType()); o->b.assign(o->size, nullptr);
    o->ro = g.isConstant();
    if (g.hasInitializer()) initBytes(o->b, 0, g.getInitializer()); else std::fill(o->b.begin(), o->b.end(), cx.byteConst[0]);
    (o->ro ? roGlobals : rw).push_back(ObjP(o));
  }
  auto bybase = [](const ObjP& a, const ObjP& b) { return a->base < b->base; };
  std::sort(roGlobals.begin(), roGlobals.end(), bybase); std::sort(rw.begin(), rw.end(), bybase);
  s0->mem = rw;
  // static constructors
  std::vector<const Function*> ctors;
  if (auto* g = M->getGlobalVariable("llvm.global_ctors"))
    if (g->hasInitializer()) if (auto* ca = dyn_cast<ConstantArray>(g->getInitializer())) {
      std::vector<std::pair<uint64_t, const Function*>> v;
      for (auto& o : ca->operands()) { auto* cs = cast<ConstantStruct>(o); v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), dyn_cast<Function>(cs->getOperand(1))}); }
      std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; });
      for (auto& p : v) if (p.second) ctors.push_back(p.second);
    }
  std::vector<V> none;
  for (auto* c : ctors) {
    pushCall(*s0, c, none, nullptr);
    try { while (step(*s0)) {} } catch (PathEnd&) { incomplete.insert("static constructor did not run to completion"); }
    if (!work.empty()) fatal("static constructor forked");
    s0->steps = 0;
  }
  // heap objects owned by globals are not leaks of the entry
  for (auto& o : s0->mem) if (o->kind == HEAP) { Obj* w = o.p; w->kind = STACK; }
  const Function* ef = M->getFunction(entry);
  if (!ef || ef->isDeclaration()) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 4; }
  pushCall(*s0, ef, none, nullptr);
  work.push_back(s0);
  while (!work.empty() && now() < deadline && nPaths < maxPaths && (int)viols.size() < maxViol) {
    State* s = work.back(); work.pop_back();
    runState(s);
    delete s;
  }
  bool full = work.empty() && now() < deadline;
  if (!full && (int)viols.size() < maxViol) incomplete.insert(nPaths >= maxPaths ? "path limit" : "time limit");
  // coverage of source functions, and vp_reach sites that were never reached
  std::set<std::string> srcFns; std::set<std::string> reachSites;
  std::map<std::string, std::set<unsigned>> lines;
  for (auto& p : fns) for (auto& b : p.second->bl) for (auto& in : b.in) {
    if (in.hit) for (const DILocation* d = in.I->getDebugLoc().get(); d; d = d->getInlinedAt()) {
      auto* sp = d->getScope()->getSubprogram(); std::string fl = sp->getFilename().str();
      std::string dir = d->getDirectory().str();
      size_t k = fl.find("best/");
      if (fl[0] != '/') { k = fl.rfind("best/", 0) == 0 ? 0 : std::string::npos; } else { size_t z = fl.find("/repo/best/"); k = z == std::string::npos ? z : z + 6; }
      if (k != std::string::npos) { srcFns.insert(fl.substr(k) + " " + sp->getName().str()); lines[fl.substr(k)].insert(d->getLine()); }
    }
  }
  // reachable call sites of vp_reach from the entry (static call graph)
  { std::set<const Function*> seen; std::vector<const Function*> todo{ef};
    while (!todo.empty()) { const Function* F = todo.back(); todo.pop_back(); if (!seen.insert(F).second) continue;
      for (auto& B : *F) for (auto& I : B) { if (auto* cb = dyn_cast<CallBase>(&I)) if (auto* G = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCastsAndAliases())) {
          if (G->getName() == "vp_reach") { State t; t.model = std::make_shared<Model>(); auto* c = dyn_cast<Constant>(cb->getArgOperand(0)); if (c) { Frame fr; t.st.clear(); reachSites.insert(cstr(t, ex(constVal(c)))); } }
          if (!G->isDeclaration()) todo.push_back(G); }
        for (auto& op : I.operands()) if (auto* G = dyn_cast<Function>(op.get()->stripPointerCasts())) if (!G->isDeclaration()) todo.push_back(G); } }
  }
  std::string j = "{\"entry\":" + jstr(entry) + ",\"complete\":" + (full && incomplete.empty() ? "true" : "false") + ",\"incomplete\":[";
  bool first = true; for (auto& x : incomplete) { if (!first) j += ","; j += jstr(x); first = false; }
  j += "],\"violations\":["; first = true;
  for (auto& v : viols) { if (!first) j += ","; j += "\n{\"kind\":" + jstr(v.kind) + ",\"msg\":" + jstr(v.msg) + ",\"kf\":" + jstr(v.kf) + ",\"where\":" + jstr(v.where) + ",\"inputs\":" + jin(v.in) + "}"; first = false; }
  j += "],\"reached\":["; first = true; for (auto& x : reachedAll) { if (!first) j += ","; j += jstr(x); first = false; }
  j += "],\"unreached\":["; first = true; for (auto& x : reachSites) if (!reachedAll.count(x)) { if (!first) j += ","; j += jstr(x); first = false; }
  j += "],\"samples\":["; first = true;
  for (auto& p : samples) { if (!first) j += ","; j += "\n{\"inputs\":" + jin(p.in) + ",\"crashed\":" + (p.crashed ? "true" : "false") + ",\"obs\":["; for (size_t i = 0; i < p.obs.size(); i++) j += (i ? ",\"" : "\"") + dec(p.obs[i]) + "\""; j += "]}"; first = false; }
  j += "],\"functions\":["; first = true; for (auto& x : srcFns) { if (!first) j += ","; j += jstr(x); first = false; }
  j += "],\"lines\":{"; first = true; for (auto& x : lines) { if (!first) j += ","; first = false; j += jstr(x.first) + ":["; bool f2 = true; for (unsigned l : x.second) { if (!f2) j += ","; j += std::to_string(l); f2 = false; } j += "]"; }
  j += "},\"stubs\":["; first = true; for (auto& x : stubsUsed) { if (!first) j += ","; j += jstr(x); first = false; }
  char buf[1024];
  snprintf(buf, sizeof buf, "],\"stats\":{\"paths\":%llu,\"completed\":%llu,\"crashes\":%llu,\"instructions\":%llu,\"forks\":%llu,\"asserts\":%llu,\"obligations\":%llu,\"memchecks\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"fallback\":%llu,\"cross\":%llu,\"cross_bad\":%llu,\"solver_s\":%.3f,\"wall_s\":%.3f,\"exprs\":%zu}}\n",
    (unsigned long long)nPaths, (unsigned long long)nDone, (unsigned long long)nCrashes, (unsigned long long)nInstr, (unsigned long long)nForks, (unsigned long long)nAsserts, (unsigned long long)nObl, (unsigned long long)nMemChecks,
    (unsigned long long)solver.queries, (unsigned long long)solver.satN, (unsigned long long)solver.unsatN, (unsigned long long)solver.unknownN, (unsigned long long)solver.fallbackN, (unsigned long long)solver.crossN, (unsigned long long)solver.crossBad, solver.time, now() - t0, cx.arena.size());
  j += buf;
  FILE* o = out.empty() ? stdout : fopen(out.c_str(), "w");
  fputs(j.c_str(), o);
  if (o != stdout) fclose(o);
  fflush(stdout);
  _exit(viols.empty() ? (full && incomplete.empty() ? 0 : 2) : 1);
}
