// Z3 bridge: incremental QF_BV solver synchronised with the DFS path condition,
// with one-shot and external fallbacks, and a model evaluator.
#pragma once
#include "expr.h"
#include <z3.h>
#include <chrono>
#include <memory>
#include <unistd.h>
#include <sys/wait.h>
#include <poll.h>
#include <signal.h>

typedef std::unordered_map<uint32_t, u128> Model;  // var index -> value
typedef std::shared_ptr<const Model> ModelP;

inline double now() {
  using namespace std::chrono;
  return duration_cast<duration<double>>(steady_clock::now().time_since_epoch()).count();
}

struct Evaluator {
  std::vector<u128> val;
  std::vector<uint32_t> stamp;
  uint32_t epoch = 0;
  const Model* cur = nullptr;
  ModelP hold;
  void setModel(ModelP m) {
    if (m.get() == cur) return;
    hold = m; cur = m.get(); epoch++;
  }
  u128 eval(E e) {
    if (e->op == CONST) return e->c;
    if (e->id < stamp.size() && stamp[e->id] == epoch) return val[e->id];
    u128 r = 0;
    switch (e->op) {
      case VAR: { auto it = cur->find((uint32_t)e->c); r = it == cur->end() ? 0 : it->second; break; }
      case CONCAT: r = (eval(e->k[0]) << e->k[1]->w) | eval(e->k[1]); break;
      case EXTRACT: r = (eval(e->k[0]) >> (unsigned)e->c) & maskw(e->w); break;
      case ZEXT: r = eval(e->k[0]); break;
      case SEXT: r = (u128)sx(eval(e->k[0]), e->k[0]->w) & maskw(e->w); break;
      case ITE: r = eval(e->k[0]) ? eval(e->k[1]) : eval(e->k[2]); break;
      default: r = Ctx::evalBin(e->op, e->k[0]->w, eval(e->k[0]), eval(e->k[1]));
    }
    if (e->id >= stamp.size()) { stamp.resize(e->id * 2 + 1024, 0); val.resize(e->id * 2 + 1024); if (!epoch) epoch = 1; }
    stamp[e->id] = epoch; val[e->id] = r;
    return r;
  }
};

struct Solver {
  Ctx& cx;
  Z3_context z;
  Z3_solver s;
  std::vector<Z3_ast> cache;
  std::vector<E> asserted;
  std::vector<Z3_ast> varAst;
  uint64_t queries = 0, satN = 0, unsatN = 0, unknownN = 0, fallbackN = 0;
  double time = 0;
  unsigned timeoutMs = 6000, hardTimeoutS = 90; double deadline = 1e18;
  bool crossCheck = false; uint64_t crossN = 0, crossBad = 0;

  static void errh(Z3_context c, Z3_error_code e) {
    fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); exit(3);
  }
  Solver(Ctx& c) : cx(c) {
    Z3_config cfg = Z3_mk_config();
    z = Z3_mk_context(cfg);
    Z3_del_config(cfg);
    Z3_set_error_handler(z, errh);
    s = mk();
    Z3_solver_inc_ref(z, s);
  }
  Z3_solver mk() {
    Z3_solver r = Z3_mk_solver_for_logic(z, Z3_mk_string_symbol(z, "QF_BV"));
    return r;
  }
  void setTimeout(Z3_solver sv, unsigned ms) {
    Z3_params p = Z3_mk_params(z); Z3_params_inc_ref(z, p);
    Z3_params_set_uint(z, p, Z3_mk_string_symbol(z, "timeout"), ms);
    Z3_solver_set_params(z, sv, p); Z3_params_dec_ref(z, p);
  }
  Z3_ast numeral(unsigned w, u128 v) {
    char buf[64]; int i = 63; buf[i] = 0;
    if (!v) buf[--i] = '0';
    while (v) { buf[--i] = '0' + (int)(v % 10); v /= 10; }
    return Z3_mk_numeral(z, buf + i, Z3_mk_bv_sort(z, w));
  }
  Z3_ast b2v(Z3_ast b) { return Z3_mk_ite(z, b, numeral(1, 1), numeral(1, 0)); }
  // Booleans (width 1) are represented both ways: `bv` gives a (_ BitVec 1), `bl` a Bool.
  std::vector<Z3_ast> bcache;
  Z3_ast bl(E e) {
    if (e->id < bcache.size() && bcache[e->id]) return bcache[e->id];
    Z3_ast r;
    switch (e->op) {
      case CONST: r = e->c ? Z3_mk_true(z) : Z3_mk_false(z); break;
      case EQ: if (e->k[0]->w == 1) r = Z3_mk_iff(z, bl(e->k[0]), bl(e->k[1])); else r = Z3_mk_eq(z, bv(e->k[0]), bv(e->k[1])); break;
      case ULT: r = Z3_mk_bvult(z, bv(e->k[0]), bv(e->k[1])); break;
      case ULE: r = Z3_mk_bvule(z, bv(e->k[0]), bv(e->k[1])); break;
      case SLT: r = Z3_mk_bvslt(z, bv(e->k[0]), bv(e->k[1])); break;
      case SLE: r = Z3_mk_bvsle(z, bv(e->k[0]), bv(e->k[1])); break;
      case AND: { Z3_ast a[2] = {bl(e->k[0]), bl(e->k[1])}; r = Z3_mk_and(z, 2, a); break; }
      case OR: { Z3_ast a[2] = {bl(e->k[0]), bl(e->k[1])}; r = Z3_mk_or(z, 2, a); break; }
      case XOR: if (Ctx::isc(e->k[1], 1)) r = Z3_mk_not(z, bl(e->k[0])); else r = Z3_mk_xor(z, bl(e->k[0]), bl(e->k[1])); break;
      case ITE: r = Z3_mk_ite(z, bl(e->k[0]), bl(e->k[1]), bl(e->k[2])); break;
      default: r = Z3_mk_eq(z, bv(e), numeral(1, 1));
    }
    if (e->id >= bcache.size()) bcache.resize(e->id * 2 + 1024, nullptr);
    return bcache[e->id] = r;
  }
  Z3_ast bv(E e) {
    if (e->id < cache.size() && cache[e->id]) return cache[e->id];
    Z3_ast r;
    if (e->w == 1 && e->op != VAR && e->op != EXTRACT && e->op != CONST && e->op != ADD && e->op != SUB && e->op != MUL && e->op < EQ && e->op != AND && e->op != OR && e->op != XOR && e->op != ITE) {
      r = generic(e);
    } else if (e->w == 1 && (e->op >= EQ || e->op == AND || e->op == OR || e->op == XOR)) {
      r = b2v(bl(e));
    } else r = generic(e);
    if (e->id >= cache.size()) cache.resize(e->id * 2 + 1024, nullptr);
    return cache[e->id] = r;
  }
  Z3_ast generic(E e) {
    switch (e->op) {
      case CONST: return numeral(e->w, e->c);
      case VAR: {
        std::string n = "v" + std::to_string((unsigned)e->c);
        return Z3_mk_const(z, Z3_mk_string_symbol(z, n.c_str()), Z3_mk_bv_sort(z, e->w));
      }
      case ADD: return Z3_mk_bvadd(z, bv(e->k[0]), bv(e->k[1]));
      case SUB: return Z3_mk_bvsub(z, bv(e->k[0]), bv(e->k[1]));
      case MUL: return Z3_mk_bvmul(z, bv(e->k[0]), bv(e->k[1]));
      case UDIV: return Z3_mk_bvudiv(z, bv(e->k[0]), bv(e->k[1]));
      case SDIV: return Z3_mk_bvsdiv(z, bv(e->k[0]), bv(e->k[1]));
      case UREM: return Z3_mk_bvurem(z, bv(e->k[0]), bv(e->k[1]));
      case SREM: return Z3_mk_bvsrem(z, bv(e->k[0]), bv(e->k[1]));
      case AND: return Z3_mk_bvand(z, bv(e->k[0]), bv(e->k[1]));
      case OR: return Z3_mk_bvor(z, bv(e->k[0]), bv(e->k[1]));
      case XOR: return Z3_mk_bvxor(z, bv(e->k[0]), bv(e->k[1]));
      case SHL: return Z3_mk_bvshl(z, bv(e->k[0]), bv(e->k[1]));
      case LSHR: return Z3_mk_bvlshr(z, bv(e->k[0]), bv(e->k[1]));
      case ASHR: return Z3_mk_bvashr(z, bv(e->k[0]), bv(e->k[1]));
      case CONCAT: return Z3_mk_concat(z, bv(e->k[0]), bv(e->k[1]));
      case EXTRACT: return Z3_mk_extract(z, (unsigned)e->c + e->w - 1, (unsigned)e->c, bv(e->k[0]));
      case ZEXT: return Z3_mk_zero_ext(z, e->w - e->k[0]->w, bv(e->k[0]));
      case SEXT: return Z3_mk_sign_ext(z, e->w - e->k[0]->w, bv(e->k[0]));
      case ITE: return Z3_mk_ite(z, bl(e->k[0]), bv(e->k[1]), bv(e->k[2]));
      default: return b2v(bl(e));
    }
  }
  void sync(const std::vector<E>& pc) {
    size_t i = 0;
    while (i < pc.size() && i < asserted.size() && pc[i] == asserted[i]) i++;
    if (asserted.size() > i) { Z3_solver_pop(z, s, asserted.size() - i); asserted.resize(i); }
    for (; i < pc.size(); i++) { Z3_solver_push(z, s); Z3_solver_assert(z, s, bl(pc[i])); asserted.push_back(pc[i]); }
  }
  void vars(E e, std::vector<char>& seen, std::vector<E>& out) {
    if (!e->sym) return;
    if (e->id >= seen.size()) seen.resize(e->id + 1024, 0);
    if (seen[e->id]) return;
    seen[e->id] = 1;
    if (e->op == VAR) { out.push_back(e); return; }
    for (int i = 0; i < e->nk; i++) vars(e->k[i], seen, out);
  }
  void getModel(Z3_solver sv, const std::vector<E>& vs, Model& m) {
    Z3_model md = Z3_solver_get_model(z, sv);
    Z3_model_inc_ref(z, md);
    for (E v : vs) {
      Z3_ast r = nullptr;
      if (!Z3_model_eval(z, md, bv(v), true, &r)) continue;
      Z3_string st = Z3_get_numeral_string(z, r);
      u128 x = 0; for (const char* p = st; *p; p++) x = x * 10 + (*p - '0');
      m[(uint32_t)v->c] = x;
    }
    Z3_model_dec_ref(z, md);
  }
  std::string smt2(const std::vector<E>& pc, E c) {
    Z3_solver t = Z3_mk_simple_solver(z); Z3_solver_inc_ref(z, t);
    for (E e : pc) Z3_solver_assert(z, t, bl(e));
    Z3_solver_assert(z, t, bl(c));
    std::string r = Z3_solver_to_string(z, t);
    Z3_solver_dec_ref(z, t);
    return "(set-logic QF_BV)\n(set-option :produce-models true)\n" + r + "(check-sat)\n";
  }
  // Run several external solvers on one query side by side; the first definite answer wins.
  // 1 sat (model filled), 0 unsat, -1 unknown.
  int portfolio(const std::string& text0, const std::vector<E>& vs, Model* m, std::vector<std::string> cmds, double limit) {
    std::string text = text0, gv;
    if (m) { for (E v : vs) gv += " v" + std::to_string((unsigned)v->c); if (!gv.empty()) text += "(get-value (" + gv + "))\n"; }
    char fn[] = "/tmp/vpq_XXXXXX"; int fd = mkstemp(fn);
    if (fd < 0) return -1;
    bool ok = write(fd, text.data(), text.size()) == (ssize_t)text.size(); close(fd);
    if (!ok) { unlink(fn); return -1; }
    struct P { pid_t pid; int fd; std::string out; bool done; };
    std::vector<P> ps;
    for (auto& c : cmds) {
      int pi[2]; if (pipe(pi)) continue;
      pid_t pid = fork();
      if (!pid) {
        setpgid(0, 0);
        dup2(pi[1], 1); dup2(pi[1], 2); close(pi[0]); close(pi[1]);
        std::string k = "exec timeout " + std::to_string((int)limit + 1) + " " + c + " " + fn;
        execl("/bin/sh", "sh", "-c", k.c_str(), (char*)nullptr); _exit(127);
      }
      close(pi[1]); ps.push_back({pid, pi[0], "", false});
    }
    int res = -1; double end = now() + limit + 2;
    while (res < 0 && now() < end) {
      std::vector<pollfd> pf; for (auto& p : ps) if (!p.done) pf.push_back({p.fd, POLLIN, 0});
      if (pf.empty()) break;
      if (poll(pf.data(), pf.size(), 200) <= 0) continue;
      for (auto& q : pf) if (q.revents) for (auto& p : ps) if (p.fd == q.fd) {
        char b[65536]; ssize_t k = read(p.fd, b, sizeof b);
        if (k > 0) { p.out.append(b, k); continue; }
        p.done = true;
        if (p.out.compare(0, 5, "unsat") == 0) res = 0;
        else if (p.out.compare(0, 4, "sat\n") == 0 && p.out.find("(error") == std::string::npos) {
          if (m) for (size_t i = 0; (i = p.out.find("(v", i)) != std::string::npos; i++) {
            unsigned id = 0; size_t j = i + 2; while (isdigit(p.out[j])) id = id * 10 + (p.out[j++] - '0');
            while (p.out[j] == ' ') j++;
            if (p.out[j] != '#') continue;
            bool hx = p.out[j + 1] == 'x'; u128 v = 0;
            for (j += 2; isxdigit(p.out[j]); j++) { int d = isdigit(p.out[j]) ? p.out[j] - '0' : (p.out[j] | 32) - 'a' + 10; v = hx ? v * 16 + d : v * 2 + d; }
            (*m)[id] = v;
          }
          res = 1;
        }
      }
    }
    for (auto& p : ps) { kill(-p.pid, SIGKILL); close(p.fd); waitpid(p.pid, nullptr, 0); }
    unlink(fn);
    return res;
  }
  // Divisions by constants as unconstrained values within their ranges: unsatisfiability carries over.
  std::unordered_map<E, E> abs; std::vector<E> absSide; uint64_t absN = 0;
  std::vector<char> divSeen;  // 1: no division, 2: some
  bool hasDiv(E e) {
    if (!e->sym || e->op == VAR) return false;
    if (e->id >= divSeen.size()) divSeen.resize(e->id + 4096, 0);
    if (divSeen[e->id]) return divSeen[e->id] == 2;
    bool r = (e->op == UDIV || e->op == UREM) && e->w > 8;
    for (int i = 0; i < e->nk && !r; i++) r = hasDiv(e->k[i]);
    divSeen[e->id] = r ? 2 : 1;
    return r;
  }
  E abstract(E e) {
    if (!hasDiv(e)) return e;
    auto it = abs.find(e); if (it != abs.end()) return it->second;
    E r;
    if ((e->op == UDIV || e->op == UREM) && Ctx::isc(e->k[1]) && e->k[1]->c) {
      r = cx.raw(VAR, e->w, nullptr, nullptr, nullptr, ((u128)1 << 30) + abs.size());
      u128 top = Ctx::umax(e);
      absSide.push_back(cx.bin(ULE, r, cx.cst(e->w, top)));
      if (e->op == UDIV && top <= 20)  // small quotients follow from the range of the dividend
        for (u128 i = 0; i <= top; i++) absSide.push_back(cx.bin(EQ, cx.bin(EQ, r, cx.cst(e->w, i)), abstract(cx.bin(EQ, e, cx.cst(e->w, i)))));
    } else {
      E k[3] = {}; for (int i = 0; i < e->nk; i++) k[i] = abstract(e->k[i]);
      switch (e->op) {
        case CONCAT: r = cx.concat(k[0], k[1]); break;
        case EXTRACT: r = cx.extract(k[0], (unsigned)e->c, e->w); break;
        case ZEXT: r = cx.zext(k[0], e->w); break;
        case SEXT: r = cx.sext(k[0], e->w); break;
        case ITE: r = cx.ite(k[0], k[1], k[2]); break;
        default: r = cx.bin(e->op, k[0], k[1]);
      }
    }
    abs[e] = r;
    return r;
  }
  bool absUnsat(const std::vector<E>& pc, E c) {
    bool any = hasDiv(c); for (E e : pc) any |= hasDiv(e);
    if (!any) return false;
    E a = abstract(c);
    if (a == cx.F) return true;
    Z3_solver t = mk(); Z3_solver_inc_ref(z, t); setTimeout(t, 2000);
    for (E e : pc) Z3_solver_assert(z, t, bl(abstract(e)));
    for (E e : absSide) Z3_solver_assert(z, t, bl(e));
    Z3_solver_assert(z, t, bl(a));
    bool r = Z3_solver_check(z, t) == Z3_L_FALSE;
    Z3_solver_dec_ref(z, t);
    return r;
  }
  // is pc && c satisfiable?  1 / 0 / -1.  On 1 fills *out.
  int check(const std::vector<E>& pc, E c, ModelP base, ModelP* out) {
    if (c == cx.F) return 0;
    double t0 = now();
    queries++;
    if (absUnsat(pc, c)) { absN++; unsatN++; time += now() - t0; return 0; }
    sync(pc);
    Z3_solver_push(z, s);
    Z3_solver_assert(z, s, bl(c));
    setTimeout(s, timeoutMs);
    Z3_lbool r = Z3_solver_check(z, s);
    int res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
    ModelP extM;
    std::string txt;
    if (res == -1) {
      fallbackN++;
      txt = smt2(pc, c);
      const char* dump = getenv("VP_DUMP_HARD");
      if (dump) { std::string fn = std::string(dump) + "/q" + std::to_string(queries) + ".smt2"; FILE* f = fopen(fn.c_str(), "w"); fputs(txt.c_str(), f); fclose(f); }
      std::vector<char> seen; std::vector<E> vs;
      for (E e : pc) vars(e, seen, vs);
      vars(c, seen, vs);
      auto m = std::make_shared<Model>();
      if (base) *m = *base;
      double lim = std::min<double>(hardTimeoutS, std::max(1.0, deadline - now()));
      int q = portfolio(txt, vs, m.get(), {"/usr/local/bin/z3-new", "cvc5 --produce-models", "cvc5 --produce-models --solve-bv-as-int=sum"}, lim);
      if (q == 1) { extM = m; }
      res = q;
    } else if (crossCheck && res >= 0) {
      static unsigned long n = 0;
      if (n++ % 50 == 0) {
        txt = smt2(pc, c);
        int q = portfolio(txt, {}, nullptr, {"cvc5"}, 20);
        if (q >= 0) { crossN++; if (q != res) { crossBad++; fprintf(stderr, "SOLVER DISAGREEMENT\n"); } }
      }
    }
    if (res == 1 && out && extM) *out = extM;
    else if (res == 1 && out) {
      std::vector<char> seen; std::vector<E> vs;
      for (E e : pc) vars(e, seen, vs);
      vars(c, seen, vs);
      auto m = std::make_shared<Model>();
      if (base) *m = *base;
      getModel(s, vs, *m);
      *out = m;
    }
    Z3_solver_pop(z, s, 1);
    if (res == 1) satN++; else if (res == 0) unsatN++; else unknownN++;
    time += now() - t0;
    return res;
  }
};
