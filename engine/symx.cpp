// symx: path-exploring symbolic executor for LLVM IR with an SMT back end (Z3).
// Values are hash-consed bit-vector terms; memory is a set of objects with
// copy-on-write; every branch on a symbolic condition is decided by the solver
// and both feasible sides are explored.
#include "expr.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/CFG.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <z3.h>
#include <chrono>
#include <set>
#include <fstream>
#include <sstream>
#include <deque>
#include <csignal>
#include <unistd.h>
using namespace llvm;
typedef ::Kind EK;

static ExprCtx X;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ---------------------------------------------------------------- options
static double opt_timeout = 600; static int opt_qtimeout = 60000; static i64 opt_arg = 0; static bool opt_uninit = false; static bool opt_verbose = false;
static i64 opt_arg2 = 0; static u64 opt_seed = 1; static int opt_maxviol = 5; static std::string opt_smtdir; static u64 opt_maxinstr = 0; static int opt_maxlive = 200000;
static std::string opt_sarg;

// ---------------------------------------------------------------- solver
struct Stats { u64 queries = 0, sat = 0, unsat = 0, unknown = 0, fastdom = 0, cached = 0, modelhit = 0; double time = 0; u64 forks = 0, instrs = 0, paths = 0, killed = 0, completed = 0; u64 checks = 0, checks_trivial = 0, checks_solver = 0; } S;

static Z3_context zc; 
static Z3_sort fp32, fp64; static Z3_ast zrne, zrtz;
static std::map<std::string, Z3_func_decl> ufs;
static bool z3_err = false;
static void zerr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); z3_err = true; }
static Z3_ast ref(Z3_ast a) { Z3_inc_ref(zc, a); return a; }
static Z3_sort bvs(int w) { return Z3_mk_bv_sort(zc, w); }
static Z3_ast znum(u64 v, int w) { return ref(Z3_mk_unsigned_int64(zc, v, bvs(w))); }
static bool hasfp(Expr *e);
static Z3_ast b2v(Z3_ast b) { return ref(Z3_mk_ite(zc, b, znum(1, 1), znum(0, 1))); }
static Z3_ast zx(Expr *e);
static Z3_ast tofp(Expr *e) { return ref(Z3_mk_fpa_to_fp_bv(zc, zx(e), e->w == 32 ? fp32 : fp64)); }
static std::map<std::pair<int, u64>, Z3_ast> selmemo;
static Z3_ast zsel(const std::vector<u64> &t, size_t lo, size_t n, Expr *idx, int bit, int ew) {
  bool same = true; u64 f = lo < t.size() ? t[lo] : 0;
  for (size_t i = 0; i < n && same; i++) { u64 v = lo + i < t.size() ? t[lo + i] : f; if (v != f) same = false; }
  if (same) return znum(f, ew);
  Z3_ast l = zsel(t, lo, n / 2, idx, bit - 1, ew), h = zsel(t, lo + n / 2, n / 2, idx, bit - 1, ew);
  if (l == h) return l;
  Z3_ast c = ref(Z3_mk_eq(zc, ref(Z3_mk_extract(zc, bit, bit, zx(idx))), znum(1, 1)));
  return ref(Z3_mk_ite(zc, c, h, l));
}
static Z3_ast zfun(const char *n, Z3_ast a, Z3_ast b, int w) {
  std::string key = std::string(n) + std::to_string(w); auto it = ufs.find(key); Z3_func_decl d;
  if (it == ufs.end()) { Z3_sort dom[2] = {bvs(w), bvs(w)}; d = Z3_mk_func_decl(zc, Z3_mk_string_symbol(zc, key.c_str()), 2, dom, bvs(w)); Z3_inc_ref(zc, Z3_func_decl_to_ast(zc, d)); ufs[key] = d; } else d = it->second;
  Z3_ast args[2] = {a, b}; return ref(Z3_mk_app(zc, d, 2, args));
}
static Z3_ast zcomm(const char *n, Z3_ast a, Z3_ast b, int w) { // commutative: operands in order of their bit patterns
  if (a == b) return zfun(n, a, b, w); Z3_ast l = ref(Z3_mk_bvult(zc, a, b)); return zfun(n, ref(Z3_mk_ite(zc, l, a, b)), ref(Z3_mk_ite(zc, l, b, a)), w); }
static Z3_ast zfunn(const char *n, Expr *e) {
  std::string key = std::string("u") + n + std::to_string(e->w) + "_" + std::to_string(e->a->w); auto it = ufs.find(key); Z3_func_decl d; int na = e->b ? 2 : 1;
  if (it == ufs.end()) { Z3_sort dom[2] = {bvs(e->a->w), bvs(e->a->w)}; d = Z3_mk_func_decl(zc, Z3_mk_string_symbol(zc, key.c_str()), na, dom, bvs(e->w)); Z3_inc_ref(zc, Z3_func_decl_to_ast(zc, d)); ufs[key] = d; } else d = it->second;
  Z3_ast args[2] = {zx(e->a), e->b ? zx(e->b) : 0}; return ref(Z3_mk_app(zc, d, na, args));
}
static int zabs = 0; // 1: floating operators as uninterpreted functions, 2: as fresh constants
static Z3_ast zx(Expr *e) {
  bool ab = zabs && hasfp(e);
  void *&cache = !ab ? e->z3 : zabs == 1 ? e->z3u : e->z3v; if (cache) return (Z3_ast)cache;
  if (ab && zabs == 2 && ((e->k >= K_FADD && e->k <= K_FDIV) || e->k >= K_FEXT)) { std::string n = "f" + std::to_string(e->id); return (Z3_ast)(cache = ref(Z3_mk_const(zc, Z3_mk_string_symbol(zc, n.c_str()), bvs(e->w)))); }
  if (ab && e->k >= K_FEXT) { static const char *nm[] = {"fext", "ftrunc", "si2f", "ui2f", "f2si", "f2ui"}; return (Z3_ast)(e->z3u = zfunn(nm[e->k - K_FEXT], e)); }
  // iterative guard for deep DAGs: children first (recursion is fine at our sizes)
  Z3_ast r = 0; auto A = [&]() { return zx(e->a); }; auto B = [&]() { return zx(e->b); };
  switch (e->k) {
  case K_CONST: r = znum(e->c, e->w); break;
  case K_VAR: { std::string n = "v" + std::to_string(e->c); r = ref(Z3_mk_const(zc, Z3_mk_string_symbol(zc, n.c_str()), bvs(e->w))); break; }
  case K_ADD: r = Z3_mk_bvadd(zc, A(), B()); break; case K_SUB: r = Z3_mk_bvsub(zc, A(), B()); break;
  case K_MUL: r = Z3_mk_bvmul(zc, A(), B()); break; case K_UDIV: r = Z3_mk_bvudiv(zc, A(), B()); break;
  case K_SDIV: r = Z3_mk_bvsdiv(zc, A(), B()); break; case K_UREM: r = Z3_mk_bvurem(zc, A(), B()); break;
  case K_SREM: r = Z3_mk_bvsrem(zc, A(), B()); break; case K_SHL: r = Z3_mk_bvshl(zc, A(), B()); break;
  case K_LSHR: r = Z3_mk_bvlshr(zc, A(), B()); break; case K_ASHR: r = Z3_mk_bvashr(zc, A(), B()); break;
  case K_AND: r = Z3_mk_bvand(zc, A(), B()); break; case K_OR: r = Z3_mk_bvor(zc, A(), B()); break;
  case K_XOR: r = Z3_mk_bvxor(zc, A(), B()); break;
  case K_EQ: r = b2v(ref(Z3_mk_eq(zc, A(), B()))); break;
  case K_ULT: r = b2v(ref(Z3_mk_bvult(zc, A(), B()))); break; case K_SLT: r = b2v(ref(Z3_mk_bvslt(zc, A(), B()))); break;
  case K_ITE: r = Z3_mk_ite(zc, ref(Z3_mk_eq(zc, A(), znum(1, 1))), B(), zx(e->d)); break;
  case K_CONCAT: r = Z3_mk_concat(zc, A(), B()); break;
  case K_EXTRACT: r = Z3_mk_extract(zc, e->c + e->w - 1, e->c, A()); break;
  case K_ZEXT: r = Z3_mk_zero_ext(zc, e->w - e->a->w, A()); break;
  case K_SEXT: r = Z3_mk_sign_ext(zc, e->w - e->a->w, A()); break;
  case K_SELECT: { auto &t = X.tables[e->c].vals; size_t n = 1; int bit = -1; while (n < t.size()) { n *= 2; bit++; }
    if (bit >= e->a->w) { fprintf(stderr, "SELECT table %zu index width %d\n", t.size(), e->a->w); abort(); }
    if (bit < 0) { r = znum(t[0], e->w); break; }
    r = zsel(t, 0, n, e->a, bit, e->w); break; }
  case K_FADD: r = zcomm("fadd", A(), B(), e->w); break; case K_FSUB: r = zfun("fsub", A(), B(), e->w); break;
  case K_FMUL: r = zcomm("fmul", A(), B(), e->w); break; case K_FDIV: r = zfun("fdiv", A(), B(), e->w); break;
  case K_FLT: r = b2v(ref(Z3_mk_fpa_lt(zc, tofp(e->a), tofp(e->b)))); break;
  case K_FLE: r = b2v(ref(Z3_mk_fpa_leq(zc, tofp(e->a), tofp(e->b)))); break;
  case K_FEQ: r = b2v(ref(Z3_mk_fpa_eq(zc, tofp(e->a), tofp(e->b)))); break;
  case K_FNAN: r = b2v(ref(Z3_mk_fpa_is_nan(zc, tofp(e->a)))); break;
  case K_FEXT: r = Z3_mk_fpa_to_ieee_bv(zc, ref(Z3_mk_fpa_to_fp_float(zc, zrne, tofp(e->a), fp64))); break;
  case K_FTRUNC: r = Z3_mk_fpa_to_ieee_bv(zc, ref(Z3_mk_fpa_to_fp_float(zc, zrne, tofp(e->a), fp32))); break;
  case K_SI2F: r = Z3_mk_fpa_to_ieee_bv(zc, ref(Z3_mk_fpa_to_fp_signed(zc, zrne, A(), e->w == 32 ? fp32 : fp64))); break;
  case K_UI2F: r = Z3_mk_fpa_to_ieee_bv(zc, ref(Z3_mk_fpa_to_fp_unsigned(zc, zrne, A(), e->w == 32 ? fp32 : fp64))); break;
  case K_F2SI: { Z3_ast f = tofp(e->a); Z3_sort fs = e->a->w == 32 ? fp32 : fp64;
    Z3_ast in[2] = {ref(Z3_mk_fpa_leq(zc, ref(Z3_mk_fpa_numeral_double(zc, -9223372036854775808.0, fs)), f)), ref(Z3_mk_fpa_lt(zc, f, ref(Z3_mk_fpa_numeral_double(zc, 9223372036854775808.0, fs))))};
    r = Z3_mk_ite(zc, ref(Z3_mk_and(zc, 2, in)), ref(Z3_mk_fpa_to_sbv(zc, zrtz, f, 64)), ref(Z3_mk_unsigned_int64(zc, 0x8000000000000000ull, bvs(64)))); break; }
  case K_F2UI: r = Z3_mk_fpa_to_ubv(zc, zrtz, tofp(e->a), 64); break;
  default: abort();
  }
  ref(r); cache = r; return r;
}
static std::unordered_map<Expr *, char> fpmemo;
static bool hasfp(Expr *e) {
  if (!e) return false; if (e->k == K_CONST || e->k == K_VAR) return false; if (e->k >= K_FADD) return true;
  auto it = fpmemo.find(e); if (it != fpmemo.end()) return it->second;
  bool r = hasfp(e->a) || hasfp(e->b) || hasfp(e->d); fpmemo[e] = r; return r;
}
// rewrites e with known truth values of boolean subterms
static Expr *known(Expr *e, std::unordered_map<Expr *, Expr *> &m) {
  if (!e || e->k == K_CONST) return e; auto it = m.find(e); if (it != m.end()) return it->second; if (e->k == K_VAR) return e;
  Expr *a = known(e->a, m), *b = known(e->b, m), *d = known(e->d, m), *r;
  if (a == e->a && b == e->b && d == e->d) r = e;
  else switch (e->k) {
    case K_ITE: r = X.ite(a, b, d); break; case K_CONCAT: r = X.concat(a, b); break; case K_EXTRACT: r = X.extract(a, e->c, e->w); break;
    case K_ZEXT: r = X.zext(a, e->w); break; case K_SEXT: r = X.sext(a, e->w); break; case K_SELECT: { Table t = X.tables[e->c]; r = X.select(t, a); break; }
    default: r = b ? X.bin(e->k, a, b) : X.un(e->k, a, e->w); }
  m[e] = r; return r;
}
static Z3_solver mk_solver(bool fp, int tmo, const char *tac = "qfbv") {
  Z3_solver s;
  if (fp) s = Z3_mk_solver(zc);
  else { Z3_tactic t = Z3_mk_tactic(zc, tac); Z3_tactic_inc_ref(zc, t); s = Z3_mk_solver_from_tactic(zc, t); Z3_tactic_dec_ref(zc, t); }
  Z3_solver_inc_ref(zc, s);
  Z3_params p = Z3_mk_params(zc); Z3_params_inc_ref(zc, p); Z3_params_set_uint(zc, p, Z3_mk_string_symbol(zc, "timeout"), tmo); Z3_solver_set_params(zc, s, p); Z3_params_dec_ref(zc, p);
  return s;
}
enum Res { UNSAT, SAT, UNK };
struct QKey { std::vector<u32> v; bool operator<(const QKey &o) const { return v < o.v; } };
static std::string where();
static std::map<std::vector<u32>, std::pair<Res, std::vector<std::pair<int, u64>>>> qcache;
// solve conjunction; on SAT fills asg for variables in it
static Res solve(std::vector<Expr *> cs, std::vector<std::pair<int, u64>> &asg, int tmo) {
  std::sort(cs.begin(), cs.end(), [](Expr *a, Expr *b) { return a->id < b->id; }); cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
  std::vector<u32> key; for (auto *e : cs) key.push_back(e->id);
  auto it = qcache.find(key); if (it != qcache.end()) { S.cached++; asg = it->second.second; return it->second.first; }
  double t0 = now(); S.queries++;
  bool fp = false; for (auto *e : cs) if (hasfp(e)) fp = true;
  if (fp && cs.size() > 1) {
    std::unordered_map<Expr *, Expr *> base; for (auto *e : cs) { if (e->k == K_XOR && X.isc(e->b, 1)) base[e->a] = X.cst(0, 1); else if (e->k != K_AND) base[e] = X.cst(1, 1); }
    for (auto *e : cs) { auto m = base; m.erase(e); if (e->k == K_XOR && X.isc(e->b, 1)) m.erase(e->a); Expr *q = known(e, m); if (X.isc(q, 0)) { S.unsat++; S.time += now() - t0; qcache[key] = {UNSAT, {}}; return UNSAT; } }
  }
  if (fp) for (int mode = 2; mode; mode--) { // first with every floating operation abstracted: unsatisfiable then means unsatisfiable
    zabs = mode; Z3_solver s = mk_solver(mode == 1, tmo / 2, mode == 2 ? "qffpbv" : "qfbv");
    for (auto *e : cs) Z3_solver_assert(zc, s, ref(Z3_mk_eq(zc, zx(e), znum(1, 1))));
    zabs = 0; z3_err = false; Z3_lbool r = Z3_solver_check(zc, s); Z3_solver_dec_ref(zc, s);
    if (r == Z3_L_FALSE && !z3_err) { S.unsat++; S.time += now() - t0; qcache[key] = {UNSAT, {}}; return UNSAT; }
  }
  Z3_solver s = mk_solver(fp, tmo);
  for (auto *e : cs) Z3_solver_assert(zc, s, ref(Z3_mk_eq(zc, zx(e), znum(1, 1))));
  if (!opt_smtdir.empty()) { std::ofstream o(opt_smtdir + "/q" + std::to_string(S.queries) + ".smt2"); o << Z3_solver_to_string(zc, s) << "(check-sat)\n"; }
  z3_err = false;
  Z3_lbool r = Z3_solver_check(zc, s); Res res = UNK; static bool slow = getenv("SYMX_SLOW"); if (slow && now() - t0 > .3) fprintf(stderr, "slow %.1fs r=%d n=%zu %s\n", now() - t0, (int)r, cs.size(), where().c_str());
  if (z3_err) r = Z3_L_UNDEF;
  if (r == Z3_L_FALSE) { res = UNSAT; S.unsat++; }
  else if (r == Z3_L_TRUE) {
    S.sat++; res = SAT; Z3_model m = Z3_solver_get_model(zc, s); Z3_model_inc_ref(zc, m);
    VarSet *vs = X.emptyvs; for (auto *e : cs) vs = X.uni(vs, e->vs);
    for (int v : vs->v) { Expr *ve = X.raw(K_VAR, X.vars[v].w, v, 0, 0, 0); Z3_ast o = 0; u64 val = 0;
      if (Z3_model_eval(zc, m, zx(ve), true, &o) && o) { Z3_inc_ref(zc, o); uint64_t q; if (Z3_get_numeral_uint64(zc, o, &q)) val = q; }
      asg.push_back({v, val}); }
    Z3_model_dec_ref(zc, m);
    std::vector<u64> mv(X.vars.size(), 0); for (auto &q : asg) mv[q.first] = q.second; // a model must satisfy the query under the engine's own semantics too
    for (auto *e : cs) if (!X.eval(e, mv)) { if (slow) fprintf(stderr, "model does not evaluate %s\n", where().c_str()); res = UNK; S.sat--; S.unknown++; asg.clear(); break; }
  } else S.unknown++;
  Z3_solver_dec_ref(zc, s);
  double dt = now() - t0; S.time += dt;
  if (dt > 2 && getenv("SYMX_DUMP")) { std::function<void(Expr *, int)> pr = [&](Expr *e, int d) { if (!e) return; if (e->k == K_CONST) { fprintf(stderr, " %llx:%d", (unsigned long long)e->c, e->w); return; } if (e->k == K_VAR) { fprintf(stderr, " v%llu", (unsigned long long)e->c); return; } if (d > 14) { fprintf(stderr, " ..."); return; } fprintf(stderr, " (k%d.%d", e->k, e->w); if (e->c) fprintf(stderr, "@%llu", (unsigned long long)e->c); pr(e->a, d + 1); pr(e->b, d + 1); pr(e->d, d + 1); fprintf(stderr, ")"); };
    fprintf(stderr, "[slow %.1fs res=%d]\n", dt, res); for (auto *e : cs) { pr(e, 0); fprintf(stderr, "\n"); } }
  if (dt > 5 && opt_verbose) fprintf(stderr, "[slow query %.1fs res=%d n=%zu fp=%d]\n", dt, res, cs.size(), fp);
  if (res != UNK) qcache[key] = {res, asg};
  return res;
}

// ---------------------------------------------------------------- memory
struct Val { Expr *e; u64 c; };
static inline Val vc(u64 c) { return {nullptr, c}; }
static inline Val ve(Expr *e) { return e->k == K_CONST ? Val{nullptr, e->c} : Val{e, 0}; }
static inline Expr *EX(const Val &v, int w) { if (v.e) { if (v.e->w != w) { fprintf(stderr, "EX width %d != %d\n", v.e->w, w); abort(); } return v.e; } return X.cst(v.c, w); }

struct Obj { int rc = 1; u64 size = 0; u8 *data = nullptr; Expr **sym = nullptr; bool ro = false; u8 kind = 0; // kind: 0 global 1 stack 2 heap 3 fixed
  ~Obj() { free(data); free(sym); } };
struct Chunk { int rc = 1; Obj *o[64]; Chunk() { memset(o, 0, sizeof o); } };
static void orel(Obj *o) { if (o && --o->rc == 0) delete o; }
static void crel(Chunk *c) { if (c && --c->rc == 0) { for (auto *o : c->o) orel(o); delete c; } }
struct Mem {
  std::vector<Chunk *> ch; u32 next = 1, rev = 0, top = 0; // rev: addresses are handed out downwards
  Mem() {} 
  Mem(const Mem &m) : ch(m.ch), next(m.next), rev(m.rev), top(m.top) { for (auto *c : ch) if (c) c->rc++; }
  Mem &operator=(const Mem &) = delete;
  ~Mem() { for (auto *c : ch) crel(c); }
  Obj *get(u32 id) { u32 k = id >> 6; if (k >= ch.size() || !ch[k]) return nullptr; return ch[k]->o[id & 63]; }
  Chunk *wchunk(u32 k) { if (k >= ch.size()) ch.resize(k + 64, nullptr); Chunk *&c = ch[k]; if (!c) c = new Chunk; else if (c->rc > 1) { Chunk *n = new Chunk; for (int i = 0; i < 64; i++) { n->o[i] = c->o[i]; if (n->o[i]) n->o[i]->rc++; } c->rc--; c = n; } return c; }
  Obj *wget(u32 id) { Chunk *c = wchunk(id >> 6); Obj *&o = c->o[id & 63]; if (o && o->rc > 1) { Obj *n = new Obj; n->size = o->size; n->ro = o->ro; n->kind = o->kind; n->data = (u8 *)malloc(o->size ? o->size : 1); memcpy(n->data, o->data, o->size); if (o->sym) { n->sym = (Expr **)malloc(sizeof(Expr *) * o->size); memcpy(n->sym, o->sym, sizeof(Expr *) * o->size); } o->rc--; o = n; } return o; }
  u32 alloc(u64 size, u8 kind) { u32 id; if (rev && rev - 1 > next) id = --rev; else { if (rev) { next = top; rev = 0; } id = next++; } Chunk *c = wchunk(id >> 6); Obj *o = new Obj; o->size = size; o->kind = kind; o->data = (u8 *)calloc(size ? size : 1, 1); c->o[id & 63] = o; return id; }
  void free_(u32 id) { Chunk *c = wchunk(id >> 6); orel(c->o[id & 63]); c->o[id & 63] = nullptr; }
};
static const u64 OBASE = 0x1000;
static inline u64 addrof(u32 id) { return ((u64)id + 1) << 32 | OBASE; }
struct Fixed { u64 base, size; u32 id; };

// ---------------------------------------------------------------- code
enum OpC : u16 { O_BIN, O_CMP, O_MOV, O_ZEXT, O_SEXT, O_TRUNC, O_LOAD, O_STORE, O_GEP, O_ALLOCA, O_BR, O_CBR, O_SWITCH, O_CALL, O_RET, O_SELECT, O_UNREACH, O_FCMP, O_FUN, O_FREEZE, O_NEG, O_UNSUP, O_NOP, O_PACKV, O_UNPACKV, O_BSWAP, O_OVF };
struct Edge { int pc; std::vector<std::pair<int, int>> mv; };
struct Fn;
struct CallInfo { Fn *callee = nullptr; int fv = 0; std::vector<int> args; std::vector<u8> aw; int nfixed = 0; int intr = 0; int nret = 0; std::vector<u64> byval; std::string name; };
struct Op { u16 op; u8 k; u8 w; u8 w2; u8 n; i32 dst, a, b, c; u64 x; };
struct SwitchInfo { std::vector<std::pair<u64, int>> cases; int def; };
struct Fn { Function *f = nullptr; std::string name; bool built = false, decl = false; std::vector<Op> ops; std::vector<Val> consts; std::vector<Edge> edges; std::vector<CallInfo> calls; std::vector<SwitchInfo> sw; int nslots = 0, nargs = 0, nret = 0; std::vector<int> retops; std::vector<std::vector<int>> rets; bool vararg = false; int intr = 0, fast = 0; u64 addr = 0; bool cc = false; u64 hits = 0; std::vector<std::pair<int,std::string>> lines; };

struct Frame { Fn *f; int pc; int base; int dst; int nret; std::vector<u32> allocas; int trymark; u64 vaaddr; };
struct State {
  Mem mem; std::vector<Frame> fr; std::vector<Val> regs; std::vector<Expr *> pc; std::vector<u64> model; std::map<int, std::bitset<256>> dom; std::set<int> multi; std::vector<Fixed> fixed;
  std::vector<std::string> notes; std::vector<int> vids; int ntry = 0; std::string lasterr; u64 ninstr = 0, limit = 0; bool done = false;
};
static LLVMContext LC; static std::unique_ptr<Module> M; static const DataLayout *DL;
static std::unordered_map<const Function *, Fn *> fns; static std::unordered_map<u64, Fn *> fnaddr; static std::unordered_map<const GlobalValue *, u64> gaddr;
static State *cur; static std::vector<State *> work;
static std::vector<std::pair<u32, const GlobalVariable *>> ccglobals;

struct Violation { std::string msg, notes; std::map<std::string, std::vector<u64>> vals; std::string kind; };
static std::vector<Violation> viols; static std::vector<std::string> errors; static std::map<std::string, u64> errcount; static std::vector<std::string> samples;
struct Trace { std::string notes; std::vector<u64> model; std::vector<int> vids; }; static std::vector<Trace> traces; static int opt_traces = 6;
static std::map<std::string, u64> checkcount; static std::map<std::string, u64> reach; static u64 unknown_checks = 0;
static bool stop_all = false; static std::string incomplete;

enum { I_NONE, I_MALLOC, I_CALLOC, I_REALLOC, I_FREE, I_MEMCPY, I_MEMSET, I_MKSYM, I_ASSUME, I_CHECK, I_ISSYM, I_ARG, I_ARG2, I_CONC, I_NOTE, I_TRY, I_EXIT, I_RESET, I_HOSTREAD, I_MAPFIXED, I_FAIL, I_ABORT, I_STRTOD, I_VASTART, I_VAEND, I_VACOPY, I_IGN, I_SEED, I_REACH, I_BSWAP, I_FABS, I_UMIN, I_UMAX, I_SMIN, I_SMAX, I_ABS, I_CTPOP, I_CTLZ, I_CTTZ, I_FSHL, I_FSHR, I_OVF, I_NOTEI, I_LASTERR, I_MAY, I_OBJSIZE, I_TRACE, I_STOP, I_USUBSAT, I_ISFREED, I_SARG, I_FNEGINTR, I_UFN, I_HASUNINIT, I_KILL, I_BUDGET, I_ORDER };
static std::map<std::string, int> intrs = {
  {"malloc", I_MALLOC}, {"calloc", I_CALLOC}, {"realloc", I_REALLOC}, {"free", I_FREE}, {"memcpy", I_MEMCPY}, {"memmove", I_MEMCPY}, {"memset", I_MEMSET},
  {"symx_make_symbolic", I_MKSYM}, {"symx_assume", I_ASSUME}, {"symx_check", I_CHECK}, {"symx_is_symbolic", I_ISSYM}, {"symx_arg", I_ARG}, {"symx_arg2", I_ARG2}, {"symx_concretize", I_CONC}, {"symx_note", I_NOTE}, {"symx_note_int", I_NOTEI}, {"symx_try", I_TRY}, {"symx_exit", I_EXIT}, {"symx_reset_globals", I_RESET}, {"symx_host_read", I_HOSTREAD}, {"symx_map_fixed", I_MAPFIXED}, {"symx_fail", I_FAIL}, {"symx_abort", I_ABORT}, {"symx_strtod", I_STRTOD}, {"symx_seed", I_SEED}, {"symx_reach", I_REACH}, {"symx_last_error", I_LASTERR}, {"symx_may", I_MAY}, {"symx_obj_size", I_OBJSIZE}, {"symx_trace", I_TRACE}, {"symx_sarg", I_SARG}, {"symx_has_uninit", I_HASUNINIT}, {"symx_kill", I_KILL}, {"symx_budget", I_BUDGET}, {"symx_order", I_ORDER},
};

static int slotsOf(Type *t) { // number of scalar slots
  if (t->isVoidTy()) return 0;
  if (auto *s = dyn_cast<StructType>(t)) { int n = 0; for (auto *e : s->elements()) n += slotsOf(e); return n; }
  if (auto *a = dyn_cast<ArrayType>(t)) return a->getNumElements() * slotsOf(a->getElementType());
  if (auto *v = dyn_cast<FixedVectorType>(t)) return v->getNumElements();
  return 1;
}
static int widthOf(Type *t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isPointerTy()) return 64; if (t->isFloatTy()) return 32; if (t->isDoubleTy()) return 64;
  if (t->isX86_FP80Ty()) return 80; return -1;
}
static void flatten(Type *t, u64 off, std::vector<std::pair<u64, Type *>> &out) {
  if (auto *s = dyn_cast<StructType>(t)) { auto *l = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) flatten(s->getElementType(i), off + l->getElementOffset(i), out); return; }
  if (auto *a = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(a->getElementType()); for (u64 i = 0; i < a->getNumElements(); i++) flatten(a->getElementType(), off + i * es, out); return; }
  if (auto *v = dyn_cast<FixedVectorType>(t)) { u64 es = DL->getTypeAllocSize(v->getElementType()); for (u64 i = 0; i < v->getNumElements(); i++) flatten(v->getElementType(), off + i * es, out); return; }
  out.push_back({off, t});
}
static Fn *getFn(Function *f) {
  auto it = fns.find(f); if (it != fns.end()) return it->second;
  Fn *n = new Fn; n->f = f; n->name = f->getName().str(); fns[f] = n; n->decl = f->isDeclaration();
  if (n->name == "strcmp") n->fast = 1; else if (n->name == "strlen") n->fast = 2; else if (n->name == "memcmp") n->fast = 3; else if (n->name == "strncmp") n->fast = 4;
  auto ii = intrs.find(n->name); if (ii != intrs.end()) n->intr = ii->second;
  else if (f->isIntrinsic()) {
    StringRef s = f->getName();
    if (s.starts_with("llvm.memcpy") || s.starts_with("llvm.memmove")) n->intr = I_MEMCPY; else if (s.starts_with("llvm.memset")) n->intr = I_MEMSET;
    else if (s.starts_with("llvm.lifetime") || s.starts_with("llvm.dbg") || s.starts_with("llvm.assume") || s.starts_with("llvm.stackrestore") || s.starts_with("llvm.experimental.noalias")) n->intr = I_IGN;
    else if (s.starts_with("llvm.stacksave")) n->intr = I_IGN;
    else if (s == "llvm.va_start") n->intr = I_VASTART; else if (s == "llvm.va_end") n->intr = I_VAEND; else if (s == "llvm.va_copy") n->intr = I_VACOPY;
    else if (s.starts_with("llvm.bswap")) n->intr = I_BSWAP; else if (s.starts_with("llvm.fabs")) n->intr = I_FABS; else if (s.starts_with("llvm.trap")) n->intr = I_ABORT;
    else if (s.starts_with("llvm.umin")) n->intr = I_UMIN; else if (s.starts_with("llvm.umax")) n->intr = I_UMAX; else if (s.starts_with("llvm.smin")) n->intr = I_SMIN; else if (s.starts_with("llvm.smax")) n->intr = I_SMAX; else if (s.starts_with("llvm.abs")) n->intr = I_ABS; else if (s.starts_with("llvm.usub.sat")) n->intr = I_USUBSAT; else if (s.starts_with("llvm.fshl")) n->intr = I_FSHL; else if (s.starts_with("llvm.fshr")) n->intr = I_FSHR; else if (s.starts_with("llvm.ctpop")) n->intr = I_CTPOP; else if (s.starts_with("llvm.ctlz")) n->intr = I_CTLZ; else if (s.starts_with("llvm.cttz")) n->intr = I_CTTZ;
  }
  return n;
}
static u64 constAddr(const Constant *c);
static u64 icmpc(int p, u64 a, u64 b, int w);
static bool constInt(const Constant *c, u64 &v) {
  if (auto *i = dyn_cast<ConstantInt>(c)) { v = i->getZExtValue(); return true; }
  if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c)) { v = 0; return true; }
  if (auto *f = dyn_cast<ConstantFP>(c)) { v = f->getValueAPF().bitcastToAPInt().getZExtValue(); return true; }
  if (isa<ConstantAggregateZero>(c)) { v = 0; return true; }
  if (c->getType()->isPointerTy()) { v = constAddr(c); return true; }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    u64 a, b; switch (ce->getOpcode()) {
    case Instruction::PtrToInt: case Instruction::BitCast: if (constInt(ce->getOperand(0), a)) { v = a & maskw(widthOf(ce->getType())); return true; } break;
    case Instruction::Trunc: if (constInt(ce->getOperand(0), a)) { v = a & maskw(widthOf(ce->getType())); return true; } break;
    case Instruction::Sub: if (constInt(ce->getOperand(0), a) && constInt(ce->getOperand(1), b)) { v = (a - b) & maskw(widthOf(ce->getType())); return true; } break;
    case Instruction::ICmp: if (constInt(ce->getOperand(0), a) && constInt(ce->getOperand(1), b)) { int w = widthOf(ce->getOperand(0)->getType()); v = icmpc(ce->getPredicate(), a, b, w); return true; } break;
    case Instruction::ZExt: if (constInt(ce->getOperand(0), a)) { v = a; return true; } break;
    case Instruction::SExt: if (constInt(ce->getOperand(0), a)) { v = (u64)sx(a, widthOf(ce->getOperand(0)->getType())) & maskw(widthOf(ce->getType())); return true; } break;
    case Instruction::Xor: if (constInt(ce->getOperand(0), a) && constInt(ce->getOperand(1), b)) { v = a ^ b; return true; } break;
    case Instruction::And: if (constInt(ce->getOperand(0), a) && constInt(ce->getOperand(1), b)) { v = a & b; return true; } break;
    case Instruction::Add: if (constInt(ce->getOperand(0), a) && constInt(ce->getOperand(1), b)) { v = (a + b) & maskw(widthOf(ce->getType())); return true; } break;
    }
  }
  return false;
}
static u64 constAddr(const Constant *c) {
  if (auto *g = dyn_cast<GlobalValue>(c)) { auto it = gaddr.find(g); if (it != gaddr.end()) return it->second; if (auto *f = dyn_cast<Function>(g)) { (void)f; } errs() << "no addr for " << g->getName() << "\n"; return 0; }
  if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c)) return 0;
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    if (ce->getOpcode() == Instruction::GetElementPtr) { auto *gep = cast<GEPOperator>(ce); APInt off(64, 0); if (gep->accumulateConstantOffset(*DL, off)) return constAddr(cast<Constant>(gep->getPointerOperand())) + off.getSExtValue(); }
    if (ce->getOpcode() == Instruction::IntToPtr) { u64 v; if (constInt(ce->getOperand(0), v)) return v; }
    if (ce->getOpcode() == Instruction::BitCast || ce->getOpcode() == Instruction::AddrSpaceCast) return constAddr(ce->getOperand(0));
  }
  errs() << "constAddr: " << *c << "\n"; return 0;
}
static void initConst(const Constant *c, u64 off, u8 *buf) {
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || isa<ConstantPointerNull>(c)) return;
  if (auto *d = dyn_cast<ConstantDataSequential>(c)) { u64 es = DL->getTypeAllocSize(d->getElementType()); for (unsigned i = 0; i < d->getNumElements(); i++) initConst(d->getElementAsConstant(i), off + i * es, buf); return; }
  if (auto *a = dyn_cast<ConstantArray>(c)) { u64 es = DL->getTypeAllocSize(a->getType()->getElementType()); for (unsigned i = 0; i < a->getNumOperands(); i++) initConst(a->getOperand(i), off + i * es, buf); return; }
  if (auto *s = dyn_cast<ConstantStruct>(c)) { auto *l = DL->getStructLayout(s->getType()); for (unsigned i = 0; i < s->getNumOperands(); i++) initConst(s->getOperand(i), off + l->getElementOffset(i), buf); return; }
  if (auto *v = dyn_cast<ConstantVector>(c)) { u64 es = DL->getTypeAllocSize(v->getType()->getElementType()); for (unsigned i = 0; i < v->getNumOperands(); i++) initConst(v->getOperand(i), off + i * es, buf); return; }
  if (auto *i = dyn_cast<ConstantInt>(c)) { u64 n = DL->getTypeStoreSize(c->getType()); APInt ap = i->getValue(); for (u64 k = 0; k < n; k++) buf[off + k] = ap.extractBitsAsZExtValue(std::min(8u, ap.getBitWidth() - (unsigned)k * 8), k * 8); return; }
  if (auto *f = dyn_cast<ConstantFP>(c)) { APInt ap = f->getValueAPF().bitcastToAPInt(); for (unsigned k = 0; k < ap.getBitWidth() / 8; k++) buf[off + k] = ap.extractBitsAsZExtValue(8, k * 8); return; }
  u64 v; if (constInt(c, v)) { u64 n = DL->getTypeStoreSize(c->getType()); for (u64 k = 0; k < n; k++) buf[off + k] = v >> (8 * k); return; }
  errs() << "initConst: " << *c << "\n";
}

// ---------------------------------------------------------------- translation
struct Builder {
  Fn *F; std::map<const Value *, int> slot; std::map<std::pair<u64, int>, int> cslot; std::map<const BasicBlock *, int> bbpc; std::map<std::pair<const BasicBlock *, const BasicBlock *>, int> edgeid; std::vector<std::tuple<int, int, const BasicBlock *>> fix;
  int newslot(int n) { int s = F->nslots; F->nslots += n; return s; }
  int cst(u64 v) { auto it = cslot.find({v, 0}); if (it != cslot.end()) return it->second; F->consts.push_back(vc(v)); int r = ~(int)(F->consts.size() - 1); cslot[{v, 0}] = r; return r; }
  // operand slots of value (scalar i)
  std::vector<int> ops(const Value *v) {
    int n = slotsOf(v->getType()); std::vector<int> r;
    if (auto *c = dyn_cast<Constant>(v)) {
      if (n == 1 && !c->getType()->isStructTy() && !c->getType()->isArrayTy() && !c->getType()->isVectorTy()) {
        if (c->getType()->isX86_FP80Ty() || c->getType()->isIntegerTy(128)) { r.push_back(cst(0)); return r; }
        u64 x; if (!constInt(c, x)) { errs() << "unsupported constant: " << *c << "\n"; errs().flush(); _exit(3); } r.push_back(cst(x)); return r; }
      std::vector<std::pair<u64, Type *>> fl; flatten(c->getType(), 0, fl); std::vector<u8> buf(DL->getTypeAllocSize(c->getType()) + 8, 0); initConst(c, 0, buf.data());
      for (auto &p : fl) { u64 x = 0; memcpy(&x, &buf[p.first], DL->getTypeStoreSize(p.second)); r.push_back(cst(x & maskw(widthOf(p.second)))); }
      return r;
    }
    int s = slot.at(v); for (int i = 0; i < n; i++) r.push_back(s + i); return r;
  }
  int op(const Value *v) { return ops(v)[0]; }
  Op &emit(u16 o) { F->ops.push_back(Op{o, 0, 0, 0, 0, 0, 0, 0, 0, 0}); return F->ops.back(); }
  int edge(const BasicBlock *from, const BasicBlock *to) {
    auto it = edgeid.find({from, to}); if (it != edgeid.end()) return it->second;
    Edge e; e.pc = -1; for (auto &ph : to->phis()) { auto src = ops(ph.getIncomingValueForBlock(from)); int d = slot.at(&ph); for (size_t i = 0; i < src.size(); i++) e.mv.push_back({d + i, src[i]}); }
    F->edges.push_back(e); int id = F->edges.size() - 1; edgeid[{from, to}] = id; return id;
  }
  void unsup(const Instruction &I) { std::string s; raw_string_ostream os(s); os << I; F->lines.push_back({(int)F->ops.size(), os.str()}); Op &o = emit(O_UNSUP); o.x = F->lines.size() - 1; }
  void build() {
    Function *f = F->f; F->vararg = f->isVarArg();
    for (auto &a : f->args()) { int n = slotsOf(a.getType()); slot[&a] = newslot(n); F->nargs += n; }
    F->nret = slotsOf(f->getReturnType());
    for (auto &bb : *f) for (auto &I : bb) { int n = slotsOf(I.getType()); if (n) slot[&I] = newslot(n); }
    for (auto &bb : *f) { bbpc[&bb] = F->ops.size(); for (auto &I : bb) tr(I); }
    for (auto &e : edgeid) F->edges[e.second].pc = bbpc[e.first.second];
    F->built = true;
  }
  void tr(Instruction &I) {
    Type *T = I.getType(); int w = widthOf(T);
    if (isa<PHINode>(I)) return;
    if (isa<DbgInfoIntrinsic>(I)) return;
    if (auto *b = dyn_cast<BinaryOperator>(&I)) {
      if (T->isVectorTy()) { // elementwise
        auto *vt = cast<FixedVectorType>(T); w = widthOf(vt->getElementType()); }
      auto A = ops(b->getOperand(0)), B = ops(b->getOperand(1)); if (w > 64 || w < 0) { unsup(I); return; }
      EK k; switch (b->getOpcode()) {
      case Instruction::Add: k = K_ADD; break; case Instruction::Sub: k = K_SUB; break; case Instruction::Mul: k = K_MUL; break;
      case Instruction::UDiv: k = K_UDIV; break; case Instruction::SDiv: k = K_SDIV; break; case Instruction::URem: k = K_UREM; break; case Instruction::SRem: k = K_SREM; break;
      case Instruction::Shl: k = K_SHL; break; case Instruction::LShr: k = K_LSHR; break; case Instruction::AShr: k = K_ASHR; break;
      case Instruction::And: k = K_AND; break; case Instruction::Or: k = K_OR; break; case Instruction::Xor: k = K_XOR; break;
      case Instruction::FAdd: k = K_FADD; break; case Instruction::FSub: k = K_FSUB; break; case Instruction::FMul: k = K_FMUL; break; case Instruction::FDiv: k = K_FDIV; break;
      default: unsup(I); return; }
      for (size_t i = 0; i < A.size(); i++) { Op &o = emit(O_BIN); o.k = k; o.w = w; o.dst = slot[&I] + i; o.a = A[i]; o.b = B[i]; }
      return;
    }
    switch (I.getOpcode()) {
    case Instruction::FNeg: { int d = slot[&I]; Op &o = emit(O_NEG); o.w = w; o.dst = d; o.a = op(I.getOperand(0)); return; }
    case Instruction::ICmp: { auto *c = cast<ICmpInst>(&I); int cw = widthOf(c->getOperand(0)->getType()); if (cw < 0 || cw > 64) { unsup(I); return; } Op o{}; o.op = O_CMP; o.k = c->getPredicate(); o.w = cw; o.dst = slot[&I]; o.a = op(c->getOperand(0)); o.b = op(c->getOperand(1)); F->ops.push_back(o); return; }
    case Instruction::FCmp: { auto *c = cast<FCmpInst>(&I); int cw = widthOf(c->getOperand(0)->getType()); if (cw > 64) { unsup(I); return; } Op o{}; o.op = O_FCMP; o.k = c->getPredicate(); o.w = cw; o.dst = slot[&I]; o.a = op(c->getOperand(0)); o.b = op(c->getOperand(1)); F->ops.push_back(o); return; }
    case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: { int sw = widthOf(I.getOperand(0)->getType()); if (sw > 64 || w > 64 || w < 0) { unsup(I); return; } Op o{}; o.op = I.getOpcode() == Instruction::ZExt ? O_ZEXT : I.getOpcode() == Instruction::SExt ? O_SEXT : O_TRUNC; o.w = w; o.w2 = sw; o.dst = slot[&I]; o.a = op(I.getOperand(0)); F->ops.push_back(o); return; }
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: {
      Type *st = I.getOperand(0)->getType();
      if (st->isVectorTy() || T->isVectorTy()) {
        auto A = ops(I.getOperand(0)); int nd = slotsOf(T); int d = slot[&I];
        if ((int)A.size() == nd) { for (int i = 0; i < nd; i++) { Op &o = emit(O_MOV); o.dst = d + i; o.a = A[i]; } return; }
        if (A.size() == 2 && nd == 1) { int ew = widthOf(cast<FixedVectorType>(st)->getElementType()); Op &o = emit(O_PACKV); o.dst = d; o.a = A[0]; o.b = A[1]; o.w = ew; return; }
        if (A.size() == 1 && nd == 2) { int ew = widthOf(cast<FixedVectorType>(T)->getElementType()); Op &o = emit(O_UNPACKV); o.dst = d; o.a = A[0]; o.w = ew; return; }
        unsup(I); return; }
      int sw = widthOf(st); Op o{}; o.dst = slot[&I]; o.a = op(I.getOperand(0)); o.w = w; o.w2 = sw; o.op = sw == w ? O_MOV : sw < w ? O_ZEXT : O_TRUNC; F->ops.push_back(o); return; }
    case Instruction::Freeze: { auto A = ops(I.getOperand(0)); for (size_t i = 0; i < A.size(); i++) { Op &o = emit(O_MOV); o.dst = slot[&I] + i; o.a = A[i]; } return; }
    case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: {
      int sw = widthOf(I.getOperand(0)->getType()); if (sw > 64 || w > 64 || sw < 0 || w < 0) { unsup(I); return; }
      Op o{}; o.op = O_FUN; o.dst = slot[&I]; o.a = op(I.getOperand(0)); o.w = w; o.w2 = sw;
      switch (I.getOpcode()) { case Instruction::FPExt: o.k = K_FEXT; break; case Instruction::FPTrunc: o.k = K_FTRUNC; break; case Instruction::SIToFP: o.k = K_SI2F; break; case Instruction::UIToFP: o.k = K_UI2F; break; case Instruction::FPToSI: o.k = K_F2SI; break; default: o.k = K_F2UI; }
      F->ops.push_back(o); return; }
    case Instruction::Load: { std::vector<std::pair<u64, Type *>> fl; flatten(T, 0, fl); int p = op(I.getOperand(0)); int d = slot[&I]; for (size_t i = 0; i < fl.size(); i++) { int lw = widthOf(fl[i].second); if (lw > 64 || lw < 0) { unsup(I); return; } Op o{}; o.op = O_LOAD; o.dst = d + i; o.a = p; o.x = fl[i].first; o.w = lw; o.n = DL->getTypeStoreSize(fl[i].second); F->ops.push_back(o); } return; }
    case Instruction::Store: { Value *v = I.getOperand(0); std::vector<std::pair<u64, Type *>> fl; flatten(v->getType(), 0, fl); int p = op(I.getOperand(1)); auto A = ops(v); for (size_t i = 0; i < fl.size(); i++) { int lw = widthOf(fl[i].second); if (lw > 64 || lw < 0) { unsup(I); return; } Op o{}; o.op = O_STORE; o.a = p; o.b = A[i]; o.x = fl[i].first; o.w = lw; o.n = DL->getTypeStoreSize(fl[i].second); F->ops.push_back(o); } return; }
    case Instruction::GetElementPtr: {
      auto *g = cast<GetElementPtrInst>(&I); int d = slot[&I]; i64 coff = 0; std::vector<std::pair<int, std::pair<u64, int>>> terms;
      for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) { Value *ix = gi.getOperand();
        if (StructType *st = gi.getStructTypeOrNull()) { coff += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); }
        else { u64 sc = DL->getTypeAllocSize(gi.getIndexedType()); if (auto *ci = dyn_cast<ConstantInt>(ix)) coff += ci->getSExtValue() * (i64)sc; else terms.push_back({op(ix), {sc, widthOf(ix->getType())}}); } }
      int base = op(g->getPointerOperand());
      if (terms.empty()) { Op o{}; o.op = O_GEP; o.dst = d; o.a = base; o.b = 0; o.n = 0; o.c = 0; o.x = coff; F->ops.push_back(o); return; }
      for (size_t i = 0; i < terms.size(); i++) { Op o{}; o.op = O_GEP; o.dst = d; o.a = i ? d : base; o.b = terms[i].first; o.n = 1; o.w = terms[i].second.second; o.c = (i32)terms[i].second.first; o.x = i == 0 ? coff : 0; F->ops.push_back(o); }
      return; }
    case Instruction::Alloca: { auto *al = cast<AllocaInst>(&I); Op o{}; o.op = O_ALLOCA; o.dst = slot[&I]; o.a = op(al->getArraySize()); o.x = DL->getTypeAllocSize(al->getAllocatedType()); F->ops.push_back(o); return; }
    case Instruction::Br: { auto *b = cast<BranchInst>(&I); if (b->isUnconditional()) { int e = edge(I.getParent(), b->getSuccessor(0)); Op &o = emit(O_BR); o.a = e; } else { int c = op(b->getCondition()); int e1 = edge(I.getParent(), b->getSuccessor(0)), e2 = edge(I.getParent(), b->getSuccessor(1)); Op &o = emit(O_CBR); o.a = c; o.b = e1; o.c = e2; } return; }
    case Instruction::Switch: { auto *s = cast<SwitchInst>(&I); SwitchInfo si; int c = op(s->getCondition()); for (auto &cs : s->cases()) si.cases.push_back({cs.getCaseValue()->getZExtValue(), edge(I.getParent(), cs.getCaseSuccessor())}); si.def = edge(I.getParent(), s->getDefaultDest()); F->sw.push_back(si); Op &o = emit(O_SWITCH); o.a = c; o.x = F->sw.size() - 1; o.w = widthOf(s->getCondition()->getType()); return; }
    case Instruction::Ret: { std::vector<int> r; if (I.getNumOperands()) r = ops(I.getOperand(0)); F->rets.push_back(r); Op &o = emit(O_RET); o.x = F->rets.size() - 1; return; }
    case Instruction::Unreachable: emit(O_UNREACH); return;
    case Instruction::Select: { auto A = ops(I.getOperand(1)), B = ops(I.getOperand(2)); int c = op(I.getOperand(0)); std::vector<std::pair<u64, Type *>> fl; flatten(T, 0, fl); for (size_t i = 0; i < A.size(); i++) { Op &o = emit(O_SELECT); o.a = c; o.b = A[i]; o.c = B[i]; o.dst = slot[&I] + i; o.w = widthOf(fl[i].second); } return; }
    case Instruction::ExtractValue: { auto *e = cast<ExtractValueInst>(&I); auto A = ops(e->getAggregateOperand()); Type *t = e->getAggregateOperand()->getType(); int off = 0; for (unsigned ix : e->indices()) { if (auto *s = dyn_cast<StructType>(t)) { for (unsigned i = 0; i < ix; i++) off += slotsOf(s->getElementType(i)); t = s->getElementType(ix); } else { auto *a = cast<ArrayType>(t); off += ix * slotsOf(a->getElementType()); t = a->getElementType(); } } for (int i = 0; i < slotsOf(T); i++) { Op &o = emit(O_MOV); o.dst = slot[&I] + i; o.a = A[off + i]; } return; }
    case Instruction::InsertValue: { auto *e = cast<InsertValueInst>(&I); auto A = ops(e->getAggregateOperand()), B = ops(e->getInsertedValueOperand()); Type *t = T; int off = 0; for (unsigned ix : e->indices()) { if (auto *s = dyn_cast<StructType>(t)) { for (unsigned i = 0; i < ix; i++) off += slotsOf(s->getElementType(i)); t = s->getElementType(ix); } else { auto *a = cast<ArrayType>(t); off += ix * slotsOf(a->getElementType()); t = a->getElementType(); } } for (size_t i = 0; i < A.size(); i++) { Op &o = emit(O_MOV); o.dst = slot[&I] + i; o.a = ((int)i >= off && i < off + B.size()) ? B[i - off] : A[i]; } return; }
    case Instruction::ExtractElement: { auto A = ops(I.getOperand(0)); auto *ci = dyn_cast<ConstantInt>(I.getOperand(1)); if (!ci) { unsup(I); return; } Op &o = emit(O_MOV); o.dst = slot[&I]; o.a = A[ci->getZExtValue()]; return; }
    case Instruction::InsertElement: { auto A = ops(I.getOperand(0)); auto *ci = dyn_cast<ConstantInt>(I.getOperand(2)); if (!ci) { unsup(I); return; } int b = op(I.getOperand(1)); for (size_t i = 0; i < A.size(); i++) { Op &o = emit(O_MOV); o.dst = slot[&I] + i; o.a = i == ci->getZExtValue() ? b : A[i]; } return; }
    case Instruction::Call: {
      auto *c = cast<CallInst>(&I); CallInfo ci; Value *cv = c->getCalledOperand()->stripPointerCasts(); if (c->isInlineAsm()) { unsup(I); return; }
      Function *cf = dyn_cast<Function>(cv);
      if (cf && cf->isIntrinsic()) { StringRef s = cf->getName(); if (s.starts_with("llvm.lifetime") || s.starts_with("llvm.dbg") || s.starts_with("llvm.assume") || s.starts_with("llvm.stackrestore") || s.starts_with("llvm.experimental")) return;
        if (s.starts_with("llvm.expect")) { auto A = op(c->getArgOperand(0)); Op &o = emit(O_MOV); o.dst = slot[&I]; o.a = A; return; }
        if (s.starts_with("llvm.fmuladd")) { int a = op(c->getArgOperand(0)), b = op(c->getArgOperand(1)), d = op(c->getArgOperand(2)); Op o{}; o.op = O_BIN; o.k = K_FMUL; o.w = w; o.dst = slot[&I]; o.a = a; o.b = b; F->ops.push_back(o); Op p{}; p.op = O_BIN; p.k = K_FADD; p.w = w; p.dst = slot[&I]; p.a = slot[&I]; p.b = d; F->ops.push_back(p); return; } 
        if (s.contains(".with.overflow")) { Op o{}; o.op = O_OVF; o.k = s.contains("sadd") ? 0 : s.contains("ssub") ? 1 : s.contains("smul") ? 2 : s.contains("uadd") ? 3 : s.contains("usub") ? 4 : 5; o.w = widthOf(c->getArgOperand(0)->getType()); o.dst = slot[&I]; o.a = op(c->getArgOperand(0)); o.b = op(c->getArgOperand(1)); F->ops.push_back(o); return; } }
      if (cf) { ci.callee = getFn(cf); } else ci.fv = op(c->getCalledOperand());
      ci.nfixed = 0; unsigned nf = c->getFunctionType()->getNumParams();
      for (unsigned i = 0; i < c->arg_size(); i++) { Value *a = c->getArgOperand(i); if (a->getType()->isMetadataTy()) continue; auto A = ops(a); std::vector<std::pair<u64, Type *>> fl; flatten(a->getType(), 0, fl); u64 bv = 0; if (c->isByValArgument(i)) bv = DL->getTypeAllocSize(c->getParamByValType(i)); for (size_t j = 0; j < A.size(); j++) { ci.args.push_back(A[j]); ci.aw.push_back(widthOf(fl[j].second)); ci.byval.push_back(bv); } if (i < nf) ci.nfixed += A.size(); }
      ci.nret = slotsOf(T); F->calls.push_back(ci); Op &o = emit(O_CALL); o.x = F->calls.size() - 1; o.dst = ci.nret ? slot[&I] : -1; o.w = w > 0 && w <= 64 ? w : 0; return; }
    case Instruction::VAArg: unsup(I); return;
    default: unsup(I); return;
    }
  }
};
static void ensure(Fn *f) { if (!f->built) { Builder b; b.F = f; b.build(); } }

// ---------------------------------------------------------------- state ops
struct PathEnd {}; // thrown to abandon the current path
struct Redo {};    // re-execute current op after forking

static std::string where() { std::string s; int n = 0; for (int i = (int)cur->fr.size() - 1; i >= 0 && n < 6; i--, n++) { s += (n ? "<" : "") + cur->fr[i].f->name; } return s; }
static void addcons(State *s, Expr *e) {
  if (e->k == K_CONST) return;
  if (e->w == 1 && e->k == K_AND) { addcons(s, e->a); addcons(s, e->b); return; }
  for (auto *p : s->pc) if (p == e) return;
  s->pc.push_back(e);
  if (e->vs->v.size() == 1 && X.vars[e->vs->v[0]].w == 8) {
    int v = e->vs->v[0]; if (!e->truth) { e->truth = new std::bitset<256>; std::vector<u64> as(v + 1, 0); for (int i = 0; i < 256; i++) { as[v] = i; if (X.eval(e, as)) e->truth->set(i); } }
    auto it = s->dom.find(v); if (it == s->dom.end()) s->dom[v] = *e->truth; else it->second &= *e->truth;
  } else for (int v : e->vs->v) s->multi.insert(v);
}
// the value of a condition over one byte variable that the path's constraints on that byte decide: 0, 1 or -1
static int decided(State *s, Expr *e) {
  if (e->vs->v.size() != 1 || X.vars[e->vs->v[0]].w != 8) return -1; int v = e->vs->v[0]; auto it = s->dom.find(v); if (it == s->dom.end()) return -1;
  if (!e->truth) { e->truth = new std::bitset<256>; std::vector<u64> as(v + 1, 0); for (int i = 0; i < 256; i++) { as[v] = i; if (X.eval(e, as)) e->truth->set(i); } }
  if ((*e->truth & it->second).none()) return 0; if ((~*e->truth & it->second).none()) return 1; return -1;
}
static void setmodel(State *s, const std::vector<std::pair<int, u64>> &asg) { for (auto &p : asg) { if ((int)s->model.size() <= p.first) s->model.resize(p.first + 1, 0); s->model[p.first] = p.second; } }
// can PC & e hold? fills model updates
static Res feasible(State *s, Expr *e, std::vector<std::pair<int, u64>> &asg, int tmo) {
  if (e->k == K_CONST) return e->c ? SAT : UNSAT;
  if (X.eval(e, s->model)) { S.modelhit++; return SAT; }
  if (e->vs->v.size() == 1 && X.vars[e->vs->v[0]].w == 8) {
    int v = e->vs->v[0]; if (!e->truth) { e->truth = new std::bitset<256>; std::vector<u64> as(v + 1, 0); for (int i = 0; i < 256; i++) { as[v] = i; if (X.eval(e, as)) e->truth->set(i); } }
    std::bitset<256> d = *e->truth; auto it = s->dom.find(v); if (it != s->dom.end()) d &= it->second;
    if (d.none()) { S.fastdom++; return UNSAT; }
    if (!s->multi.count(v)) { S.fastdom++; for (int i = 0; i < 256; i++) if (d[i]) { asg.push_back({v, (u64)i}); break; } return SAT; }
  }
  // slice
  std::vector<Expr *> cs{e}; std::set<int> vs(e->vs->v.begin(), e->vs->v.end()); std::vector<char> used(s->pc.size(), 0); bool ch = true;
  while (ch) { ch = false; for (size_t i = 0; i < s->pc.size(); i++) if (!used[i]) { bool hit = false; for (int v : s->pc[i]->vs->v) if (vs.count(v)) { hit = true; break; } if (hit) { used[i] = 1; cs.push_back(s->pc[i]); for (int v : s->pc[i]->vs->v) vs.insert(v); ch = true; } } }
  return solve(cs, asg, tmo);
}
static std::string where();
static State *forkState() { S.forks++; static bool tr = getenv("SYMX_FORKS"); if (tr) fprintf(stderr, "fork %s rip=%llx\n", where().c_str(), cur->ntry ? 0ull : 0ull); return new State(*cur); }
static void fatalPath(const std::string &m) { // unsupported: path inconclusive
  std::string k = m + " @ " + where(); errcount[k]++; if (errors.size() < 50) errors.push_back(k); throw PathEnd(); }
static void popFrame() { Frame &f = cur->fr.back(); for (u32 id : f.allocas) cur->mem.free_(id); cur->regs.resize(f.base); cur->fr.pop_back(); }
static void unwindTry(u64 code) { // unwind to innermost try frame, make it return code
  while (!cur->fr.empty()) { Frame f = cur->fr.back(); if (f.trymark) { int dst = f.dst; popFrame(); cur->ntry--; if (dst >= 0) cur->regs[cur->fr.back().base + dst] = vc(code & 0xffffffff); return; } popFrame(); }
  throw PathEnd();
}
static void recordViolationFwd(const std::string &m);
static void runtimeError(const std::string &m) { // memory error or trap in the program under test
  std::string k = m + " @ " + where();
  if (cur->ntry > 0) { cur->lasterr = k; unwindTry(0x10000); throw Redo(); }
  recordViolationFwd("uncaught: " + k); throw PathEnd();
}
// branch on symbolic boolean; returns chosen side for the current state, forks other
static bool branch(Expr *c) {
  if (c->k == K_CONST) return c->c;
  bool v = X.eval(c, cur->model); Expr *other = v ? X.bnot(c) : c; Expr *mine = v ? c : X.bnot(c);
  std::vector<std::pair<int, u64>> asg; Res r = feasible(cur, other, asg, opt_qtimeout);
  if (r == UNSAT) return v; // implied: no constraint needed
  State *o = forkState(); if (r == SAT) setmodel(o, asg); 
  addcons(o, other); 
  if (r == UNK) { // keep it, its model may not satisfy PC
    delete o; unknown_checks++; incomplete = "unknown branch query"; addcons(cur, mine); return v; }
  work.push_back(o); addcons(cur, mine); return v;
}
// NB: forked state re-executes the same op (pc not advanced before branch) with its own model.
static u64 concretize(Val v, int w) {
  if (!v.e) return v.c;
  u64 m = X.eval(v.e, cur->model); Expr *c = X.eq(v.e, X.cst(m, w));
  std::vector<std::pair<int, u64>> asg; Res r = feasible(cur, X.bnot(c), asg, opt_qtimeout);
  if (r == SAT) { State *o = forkState(); setmodel(o, asg); addcons(o, X.bnot(c)); work.push_back(o); }
  else if (r == UNK) { unknown_checks++; incomplete = "unknown concretize query"; }
  addcons(cur, c); return m;
}
static inline Obj *findObj(u64 a, u32 &id, u64 &base) {
  if (a >> 32 > 1) { id = (a >> 32) - 1; base = addrof(id); return cur->mem.get(id); }
  if (a >> 32 == 1) { id = 0; return nullptr; }
  for (auto &f : cur->fixed) if (a >= f.base && a < f.base + f.size) { id = f.id; base = f.base; return cur->mem.get(id); }
  return nullptr;
}
static Val loadConc(Obj *o, u64 off, int n, int w) {
  if (!o->sym) { u64 v = 0; memcpy(&v, o->data + off, n); return vc(v & maskw(w)); }
  bool any = false; for (int i = 0; i < n; i++) if (o->sym[off + i]) { any = true; break; }
  if (!any) { u64 v = 0; memcpy(&v, o->data + off, n); return vc(v & maskw(w)); }
  Expr *e = nullptr; for (int i = n - 1; i >= 0; i--) { Expr *b = o->sym[off + i] ? o->sym[off + i] : X.cst(o->data[off + i], 8); e = e ? X.concat(e, b) : b; }
  if (e->w > w) e = X.trunc(e, w); return ve(e);
}
static void storeConc(Obj *o, u64 off, int n, Val v, int w) {
  if (!v.e) { u64 x = v.c; memcpy(o->data + off, &x, n); if (o->sym) for (int i = 0; i < n; i++) o->sym[off + i] = nullptr; return; }
  if (!o->sym) o->sym = (Expr **)calloc(o->size ? o->size : 1, sizeof(Expr *));
  Expr *e = v.e; if (e->w < n * 8) e = X.zext(e, n * 8);
  for (int i = 0; i < n; i++) { Expr *b = X.extract(e, i * 8, 8); if (b->k == K_CONST) { o->data[off + i] = b->c; o->sym[off + i] = nullptr; } else o->sym[off + i] = b; }
}
static std::string hexs(u64 v) { char b[32]; snprintf(b, 32, "0x%llx", (unsigned long long)v); return b; }
static void badaccess(const char *what, u64 a, int n) { u32 id; u64 base = 0; Obj *o = findObj(a, id, base); std::string m = std::string(what) + " invalid memory"; if (a < 4096) m += " (null)"; else if (!o) m += " (no object/freed) "; else m += " (out of bounds of " + std::to_string(o->size) + "-byte object at offset " + std::to_string((i64)(a - base)) + ")"; runtimeError(m); }
static Val doLoad(Val p, int n, int w) {
  u32 id; u64 base;
  if (!p.e) { Obj *o = findObj(p.c, id, base); if (!o || p.c < base || p.c - base + n > o->size) { badaccess("load from", p.c, n); } return loadConc(o, p.c - base, n, w); }
  // symbolic address
  u64 a = X.eval(p.e, cur->model); Obj *o = findObj(a, id, base);
  bool inb = o && a >= base && a - base + n <= o->size;
  if (!inb) { u64 c = concretize(p, 64); badaccess("load from (symbolic)", c, n); }
  Expr *off = X.bin(K_SUB, p.e, X.cst(base, 64)); Expr *ok = X.bnot(X.bin(K_ULT, X.cst(o->size - n, 64), off));
  if (!branch(ok)) { /* forked other side handled */ }
  // now in-bounds on this path
  std::vector<int> &vv = p.e->vs->v;
  bool anysym = false; if (o->sym) for (u64 i = 0; i < o->size; i++) if (o->sym[i]) { anysym = true; break; }
  if (vv.size() == 1 && X.vars[vv[0]].w == 8) {
    Expr *var = X.raw(K_VAR, 8, vv[0], 0, 0, 0); std::vector<u64> as(vv[0] + 1, 0); Table t; t.ew = w; t.vals.assign(256, 0); bool bad = false; auto it = cur->dom.find(vv[0]);
    std::vector<std::pair<int, Val>> syms;
    for (int i = 0; i < 256; i++) { if (it != cur->dom.end() && !it->second[i]) continue; as[vv[0]] = i; u64 ad = X.eval(p.e, as); if (ad < base || ad - base + n > o->size) continue; Val lv = loadConc(o, ad - base, n, w); if (lv.e) { bad = true; break; } t.vals[i] = lv.c; }
    if (!bad) { u64 fill = 0; bool have = false; for (int i = 0; i < 256; i++) { bool in = it == cur->dom.end() || it->second[i]; if (in) { fill = t.vals[i]; have = true; break; } } if (have && it != cur->dom.end()) for (int i = 0; i < 256; i++) if (!it->second[i]) t.vals[i] = fill; return ve(X.select(t, var)); }
  }
  if (!anysym && o->size <= 8192) { // table over offsets
    Table t; t.ew = w; for (u64 i = 0; i + n <= o->size; i++) { u64 v = 0; memcpy(&v, o->data + i, n); t.vals.push_back(v & maskw(w)); }
    return ve(X.select(t, off)); }
  if (o->size <= 512) { // ITE chain, stride by common alignment
    Expr *r = nullptr; u64 st = 1; // detect stride from trailing zero bits
    Expr *q = off; if (q->k == K_CONCAT && q->b->k == K_CONST) st = 1ull << std::min(4, (int)q->b->w); 
    u64 ph = X.eval(off, cur->model) % st;
    for (i64 i = o->size - n; i >= 0; i--) { if ((u64)i % st != ph) continue; Val lv = loadConc(o, i, n, w); Expr *e = EX(lv, w); r = r ? X.ite(X.eq(off, X.cst(i, 64)), e, r) : e; }
    return ve(r); }
  u64 c = concretize(p, 64); return loadConc(o, c - base, n, w);
}
static void doStore(Val p, int n, Val v, int w) {
  u32 id; u64 base; u64 a = p.e ? concretize(p, 64) : p.c;
  Obj *o = findObj(a, id, base); if (!o || a < base || a - base + n > o->size) badaccess("store to", a, n);
  if (o->ro) runtimeError("store to read-only object");
  o = cur->mem.wget(id); storeConc(o, a - base, n, v, w);
}
static std::string cstr(u64 a) { std::string s; u32 id; u64 base; Obj *o = findObj(a, id, base); if (!o) return "?"; for (u64 i = a - base; i < o->size; i++) { if (o->sym && o->sym[i]) { s += (char)X.eval(o->sym[i], cur->model); continue; } if (!o->data[i]) break; s += (char)o->data[i]; } return s; }
static std::string cstrC(u64 a) { // concretizing
  std::string s; u32 id; u64 base; Obj *o = findObj(a, id, base); if (!o) return ""; for (u64 i = a - base; i < o->size; i++) { u64 b = o->sym && o->sym[i] ? concretize(Val{o->sym[i], 0}, 8) : o->data[i]; if (!b) break; s += (char)b; } return s; }
static void recordViolation(const std::string &kind, const std::string &msg, const std::vector<u64> &model) {
  Violation v; v.msg = msg; v.kind = kind; for (auto &n : cur->notes) v.notes += n + "; ";
  for (int i : cur->vids) { auto &vi = X.vars[i]; auto &vec = v.vals[vi.name]; if ((int)vec.size() <= vi.idx) vec.resize(vi.idx + 1, 0); vec[vi.idx] = i < (int)model.size() ? model[i] : 0; }
  for (auto &o : viols) if (o.msg == msg && o.notes == v.notes) return;
  viols.push_back(v); if ((int)viols.size() >= opt_maxviol) { stop_all = true; incomplete = "stopped after max violations"; }
}
static void recordViolationFwd(const std::string &m) { recordViolation("uncaught", m, cur->model); }
static void doCheck(Val c, int w, const std::string &msg) {
  S.checks++; checkcount[msg]++;
  Expr *e = c.e ? X.bnot(X.eq(c.e, X.cst(0, w))) : X.cst(c.c != 0, 1);
  if (e->k == K_CONST && e->c) { S.checks_trivial++; return; }
  std::vector<std::pair<int, u64>> asg; Expr *ne = X.bnot(e);
  if (e->k != K_CONST) S.checks_solver++;
  Res r;
  // decide with the solver over the whole (sliced) path condition
  { std::vector<Expr *> cs; if (ne->k != K_CONST) cs.push_back(ne);
    if (ne->k == K_CONST) { cs = cur->pc; r = cs.empty() ? SAT : solve(cs, asg, opt_qtimeout); }
    else { std::set<int> vs(ne->vs->v.begin(), ne->vs->v.end()); std::vector<char> used(cur->pc.size(), 0); bool ch = true; while (ch) { ch = false; for (size_t i = 0; i < cur->pc.size(); i++) if (!used[i]) { bool hit = false; for (int v : cur->pc[i]->vs->v) if (vs.count(v)) { hit = true; break; } if (hit) { used[i] = 1; cs.push_back(cur->pc[i]); for (int v : cur->pc[i]->vs->v) vs.insert(v); ch = true; } } }
      r = solve(cs, asg, opt_qtimeout); } }
  if (r == UNSAT) return;
  if (r == UNK) { unknown_checks++; errcount["check undecided (solver timeout): " + msg]++; std::string nn; for (auto &n : cur->notes) nn += n + "; "; if (errors.size() < 50) errors.push_back("undecided: " + msg + " [" + nn + "]"); addcons(cur, e); return; }
  std::vector<u64> m = cur->model; for (auto &p : asg) { if ((int)m.size() <= p.first) m.resize(p.first + 1, 0); m[p.first] = p.second; }
  recordViolation("check", msg, m);
  if (e->k == K_CONST) throw PathEnd();
  // continue under the assumption that it holds
  std::vector<std::pair<int, u64>> a2; Res r2 = feasible(cur, e, a2, opt_qtimeout); if (r2 != SAT) throw PathEnd(); setmodel(cur, a2); addcons(cur, e);
}
static void initGlobals(State *s, bool cconly) {
  for (auto &p : ccglobals) { (void)p; }
}
static Expr *uninitByte() { static int n = 0; return X.var("uninit", 8, -1, n++); }
static u32 newObj(u64 size, u8 kind) { u32 id = cur->mem.alloc(size, kind); if (opt_uninit && size && kind != 0) { Obj *o = cur->mem.wget(id); o->sym = (Expr **)calloc(size, sizeof(Expr *)); Expr *u = uninitByte(); for (u64 i = 0; i < size; i++) o->sym[i] = u; } return id; }

static std::map<std::string, int> symcount;
static void pushCall(Fn *f, const std::vector<Val> &args, int dst, int nret, int trymark, const std::vector<std::pair<Val, int>> &va) {
  ensure(f); f->hits++;
  Frame fr; fr.f = f; fr.pc = 0; fr.base = cur->regs.size(); fr.dst = dst; fr.nret = nret; fr.trymark = trymark; fr.vaaddr = 0;
  if (cur->fr.size() > 3000) runtimeError("call stack overflow (recursion depth 3000)");
  cur->regs.resize(fr.base + f->nslots, Val{nullptr, 0});
  for (int i = 0; i < f->nargs && i < (int)args.size(); i++) cur->regs[fr.base + i] = args[i];
  if (f->vararg) { u32 id = cur->mem.alloc(va.size() * 8 + 8, 1); Obj *o = cur->mem.wget(id); for (size_t i = 0; i < va.size(); i++) { Val v = va[i].first; if (v.e && v.e->w < 64) v = ve(X.zext(v.e, 64)); storeConc(o, i * 8, 8, v, 64); } fr.vaaddr = addrof(id); fr.allocas.push_back(id); }
  cur->fr.push_back(std::move(fr));
}
static void copyMem(Val d, Val s, u64 n) {
  if (!n) return;
  u64 da = concretize(d, 64), sa = concretize(s, 64); u32 id1, id2; u64 b1, b2; Obj *so = findObj(sa, id2, b2); if (!so || sa - b2 + n > so->size) badaccess("memcpy from", sa, n); Obj *dst_o = findObj(da, id1, b1); if (!dst_o || da - b1 + n > dst_o->size) badaccess("memcpy to", da, n);
  if (dst_o->ro) runtimeError("memcpy to read-only object");
  dst_o = cur->mem.wget(id1); so = cur->mem.get(id2);
  memmove(dst_o->data + (da - b1), so->data + (sa - b2), n);
  if (so->sym || dst_o->sym) { if (!dst_o->sym) dst_o->sym = (Expr **)calloc(dst_o->size ? dst_o->size : 1, sizeof(Expr *)); if (so->sym) memmove(dst_o->sym + (da - b1), so->sym + (sa - b2), n * sizeof(Expr *)); else memset(dst_o->sym + (da - b1), 0, n * sizeof(Expr *)); }
}
// Library string functions on fully concrete operands, computed directly; anything symbolic or out of bounds
// is left to the interpreted definition.
static bool concBytes(Val p, const u8 *&d, u64 &n) { if (p.e) return false; u32 id; u64 b; Obj *o = findObj(p.c, id, b); if (!o || o->sym || p.c < b || p.c - b > o->size) return false; d = o->data + (p.c - b); n = o->size - (p.c - b); return true; }
static bool fastCall(int k, const std::vector<Val> &a, u64 &r) {
  const u8 *p, *q = nullptr; u64 n, m = 0; if (!concBytes(a[0], p, n)) return false; if (k != 2 && !concBytes(a[1], q, m)) return false;
  if (k == 2) { const void *e = memchr(p, 0, n); if (!e) return false; r = (const u8 *)e - p; return true; }
  u64 lim = ~0ull; if (k >= 3) { if (a[2].e) return false; lim = a[2].c; }
  for (u64 i = 0; i < lim; i++) { if (i >= n || i >= m) return false; if (p[i] != q[i]) { r = (u32)(p[i] < q[i] ? -1 : 1); return true; } if (k != 3 && !p[i]) break; }
  r = 0; return true; }
static void setRet(const Op &o, Val v) { if (o.dst >= 0) cur->regs[cur->fr.back().base + o.dst] = v; }
static void doIntrinsic(int in, const Op &o, std::vector<Val> &a, const CallInfo &ci, Fn *callee) {
  switch (in) {
  case I_IGN: case I_VAEND: setRet(o, vc(0)); return;
  case I_MALLOC: case I_CALLOC: { u64 n = concretize(a[0], 64); if (in == I_CALLOC) n *= concretize(a[1], 64); if (n > (1u << 28)) { setRet(o, vc(0)); return; } u32 id = in == I_CALLOC ? cur->mem.alloc(n, 2) : newObj(n, 2); setRet(o, vc(addrof(id))); return; }
  case I_REALLOC: { u64 p = concretize(a[0], 64), n = concretize(a[1], 64); if (n > (1u << 28)) { setRet(o, vc(0)); return; } u32 id = newObj(n, 2); if (p) { u32 oi; u64 b; Obj *oo = findObj(p, oi, b); if (!oo || p != b || oo->kind != 2) runtimeError("realloc of invalid pointer"); u64 m = std::min(n, oo->size); if (m) copyMem(vc(addrof(id)), vc(p), m); cur->mem.free_(oi); } setRet(o, vc(addrof(id))); return; }
  case I_FREE: { u64 p = concretize(a[0], 64); if (!p) return; u32 oi; u64 b; Obj *oo = findObj(p, oi, b); if (!oo || p != b || oo->kind != 2) runtimeError("free of invalid pointer"); cur->mem.free_(oi); return; }
  case I_MEMCPY: { u64 n = concretize(a[2], ci.aw[2]); copyMem(a[0], a[1], n); setRet(o, a[0]); return; }
  case I_MEMSET: { u64 n = concretize(a[2], ci.aw[2]); if (n) { u64 d = concretize(a[0], 64); u32 id; u64 b; Obj *ob = findObj(d, id, b); if (!ob || d - b + n > ob->size) badaccess("memset to", d, n); if (ob->ro) runtimeError("memset to read-only object"); ob = cur->mem.wget(id); Val v = a[1]; if (v.e && v.e->w > 8) v = ve(X.trunc(v.e, 8)); if (!v.e) { memset(ob->data + (d - b), (int)v.c, n); if (ob->sym) memset(ob->sym + (d - b), 0, n * sizeof(Expr *)); } else for (u64 i = 0; i < n; i++) storeConc(ob, d - b + i, 1, v, 8); } setRet(o, a[0]); return; }
  case I_MKSYM: { u64 p = concretize(a[0], 64), n = concretize(a[1], 64); std::string nm = cstr(a[2].c); u32 id; u64 b; Obj *ob = findObj(p, id, b); if (!ob || p - b + n > ob->size) badaccess("make_symbolic", p, n); ob = cur->mem.wget(id);
    if (n == 8 || n == 4 || n == 2) { // single wide variable when name starts with '@'
      if (nm[0] == '@') { std::string key = nm; int ix = 0; static std::map<std::string, Expr *> known; auto it = known.find(key + "/" + std::to_string(n)); Expr *v = it != known.end() ? it->second : (known[key + "/" + std::to_string(n)] = X.var(nm, n * 8, 0, ix)); storeConc(ob, p - b, n, Val{v, 0}, n * 8); cur->vids.push_back(v->c); return; } }
    static std::map<std::string, std::vector<Expr *>> known; auto &vec = known[nm]; while (vec.size() < n) { int ix = vec.size(); vec.push_back(X.var(nm, 8, 0, ix)); }
    for (u64 i = 0; i < n; i++) storeConc(ob, p - b + i, 1, Val{vec[i], 0}, 8), cur->vids.push_back(vec[i]->c); return; }
  case I_ASSUME: { Expr *e = a[0].e ? X.bnot(X.eq(a[0].e, X.cst(0, a[0].e->w))) : X.cst(a[0].c != 0, 1); if (e->k == K_CONST) { if (!e->c) { S.killed++; throw PathEnd(); } return; } std::vector<std::pair<int, u64>> asg; Res r = feasible(cur, e, asg, opt_qtimeout); if (r == UNSAT) { S.killed++; throw PathEnd(); } if (r == UNK) { unknown_checks++; incomplete = "unknown assume"; throw PathEnd(); } setmodel(cur, asg); addcons(cur, e); return; }
  case I_CHECK: doCheck(a[0], ci.aw[0], cstr(a[1].c)); return;
  case I_ISSYM: setRet(o, vc(a[0].e != nullptr)); return;
  case I_MAY: { Expr *e = a[0].e ? X.bnot(X.eq(a[0].e, X.cst(0, a[0].e->w))) : X.cst(a[0].c != 0, 1); std::vector<std::pair<int, u64>> asg; Res r = feasible(cur, e, asg, opt_qtimeout); setRet(o, vc(r != UNSAT)); return; }
  case I_ARG: setRet(o, vc((u64)opt_arg & 0xffffffff)); return; case I_ARG2: setRet(o, vc((u64)opt_arg2 & 0xffffffff)); return; case I_SEED: setRet(o, vc(opt_seed)); return;
  case I_SARG: { u32 id = cur->mem.alloc(opt_sarg.size() + 1, 2); Obj *ob = cur->mem.wget(id); memcpy(ob->data, opt_sarg.c_str(), opt_sarg.size() + 1); setRet(o, vc(addrof(id))); return; }
  case I_CONC: { u64 v = concretize(a[0], 64); setRet(o, vc(v)); return; }
  case I_NOTE: cur->notes.push_back(cstr(a[0].c)); return;
  case I_NOTEI: { std::string v; if (a[1].e) v = "sym"; else v = std::to_string((i64)a[1].c); cur->notes.push_back(cstr(a[0].c) + "=" + v); return; }
  case I_TRACE: { fprintf(stderr, "trace: %s %s\n", cstr(a[0].c).c_str(), a[1].e ? "sym" : hexs(a[1].c).c_str()); return; }
  case I_TRY: { auto it = fnaddr.find(a[0].c); if (it == fnaddr.end()) fatalPath("symx_try: bad function"); cur->fr.back().pc++; cur->ntry++; pushCall(it->second, {a[1]}, o.dst, 1, 1, {}); throw Redo(); }
  case I_EXIT: { u64 c = a[0].e ? concretize(a[0], 32) : a[0].c; if (cur->ntry == 0) throw PathEnd(); unwindTry(c & 0xff); throw Redo(); }
  case I_KILL: S.killed++; throw PathEnd();
  case I_ABORT: { std::string m = "abort"; if (a.size() && !a[0].e) m = "abort: " + cstr(a[0].c); runtimeError(m); return; }
  case I_FAIL: recordViolationFwd("model gap: " + cstr(a[0].c)); throw PathEnd();
  case I_RESET: { for (auto &p : ccglobals) { Obj *ob = cur->mem.wget(p.first); memset(ob->data, 0, ob->size); free(ob->sym); ob->sym = nullptr; bool ro = ob->ro; if (p.second->hasInitializer()) initConst(p.second->getInitializer(), 0, ob->data); ob->ro = ro; } return; }
  case I_HOSTREAD: { std::string path = cstr(a[0].c); std::ifstream in(path, std::ios::binary); if (!in) { setRet(o, vc(0)); return; } std::stringstream ss; ss << in.rdbuf(); std::string d = ss.str(); u32 id = cur->mem.alloc(d.size() + 1, 2); Obj *ob = cur->mem.wget(id); memcpy(ob->data, d.data(), d.size()); doStore(a[1], 8, vc(d.size()), 64); setRet(o, vc(addrof(id))); return; }
  case I_MAPFIXED: { u64 ad = a[0].c, n = a[1].c; u32 id = cur->mem.alloc(n, 3); cur->fixed.push_back({ad, n, id}); setRet(o, vc(ad)); return; }
  case I_STRTOD: { u64 p = a[0].c; std::string s = cstrC(p); char *end; double d = strtod(s.c_str(), &end); if (a[1].e || a[1].c) doStore(a[1], 8, vc(p + (end - s.c_str())), 64); setRet(o, vc(ExprCtx::b64(d))); return; }
  case I_VASTART: { u64 p = a[0].c; Frame &f = cur->fr.back(); doStore(vc(p), 4, vc(48), 32); doStore(vc(p + 4), 4, vc(176), 32); doStore(vc(p + 8), 8, vc(f.vaaddr), 64); doStore(vc(p + 16), 8, vc(0), 64); return; }
  case I_VACOPY: { u64 d = a[0].c, s = a[1].c; copyMem(vc(d), vc(s), 24); return; }
  case I_REACH: reach[cstr(a[0].c)]++; return;
  case I_LASTERR: { std::string &s = cur->lasterr; u32 id = cur->mem.alloc(s.size() + 1, 2); Obj *ob = cur->mem.wget(id); memcpy(ob->data, s.c_str(), s.size() + 1); setRet(o, vc(addrof(id))); return; }
  case I_OBJSIZE: { u32 id; u64 b; Obj *ob = findObj(a[0].c, id, b); setRet(o, vc(ob ? ob->size - (a[0].c - b) : 0)); return; }
  case I_HASUNINIT: { u64 p = a[0].c, n = concretize(a[1], 64); u32 id; u64 b; Obj *ob = findObj(p, id, b); int r = 0; if (ob && ob->sym) for (u64 i = 0; i < n; i++) { Expr *e = ob->sym[p - b + i]; if (e) for (int v : e->vs->v) if (X.vars[v].name == "uninit") r = i + 1; if (r) break; } setRet(o, vc(r)); return; }
  case I_BSWAP: { int w = ci.aw[0]; Expr *e = EX(a[0], w), *r = nullptr; for (int i = 0; i < w; i += 8) { Expr *b = X.extract(e, i, 8); r = r ? X.concat(r, b) : b; } setRet(o, ve(r)); return; }
  case I_FABS: { int w = ci.aw[0]; setRet(o, ve(X.bin(K_AND, EX(a[0], w), X.cst(maskw(w - 1), w)))); return; }
  case I_UMIN: case I_UMAX: case I_SMIN: case I_SMAX: { int w = ci.aw[0]; Expr *p = EX(a[0], w), *q = EX(a[1], w); Expr *lt = X.bin(in == I_UMIN || in == I_UMAX ? K_ULT : K_SLT, p, q); bool mn = in == I_UMIN || in == I_SMIN; setRet(o, ve(X.ite(lt, mn ? p : q, mn ? q : p))); return; }
  case I_ABS: { int w = ci.aw[0]; Expr *p = EX(a[0], w); setRet(o, ve(X.ite(X.bin(K_SLT, p, X.cst(0, w)), X.bin(K_SUB, X.cst(0, w), p), p))); return; }
  case I_USUBSAT: { int w = ci.aw[0]; Expr *p = EX(a[0], w), *q = EX(a[1], w); setRet(o, ve(X.ite(X.bin(K_ULT, p, q), X.cst(0, w), X.bin(K_SUB, p, q)))); return; }
  case I_FSHL: case I_FSHR: { int w = ci.aw[0]; Expr *p = EX(a[0], w), *q = EX(a[1], w), *c = X.bin(K_UREM, EX(a[2], w), X.cst(w, w)); Expr *wc = X.bin(K_SUB, X.cst(w, w), c); // shift by w yields 0 in our semantics
    setRet(o, ve(in == I_FSHL ? X.bin(K_OR, X.bin(K_SHL, p, c), X.bin(K_LSHR, q, wc)) : X.bin(K_OR, X.bin(K_SHL, p, wc), X.bin(K_LSHR, q, c)))); return; }
  case I_CTPOP: case I_CTLZ: case I_CTTZ: { int w = ci.aw[0]; Expr *p = EX(a[0], w), *r;
    if (in == I_CTPOP) { r = X.cst(0, w); for (int i = 0; i < w; i++) r = X.bin(K_ADD, r, X.zext(X.extract(p, i, 1), w)); }
    else { r = X.cst(w, w); for (int i = 0; i < w; i++) { int b = in == I_CTLZ ? i : w - 1 - i; r = X.ite(X.extract(p, b, 1), X.cst(in == I_CTLZ ? w - 1 - b : b, w), r); } }
    setRet(o, ve(r)); return; }
  case I_ORDER: { Mem &m = cur->mem; if (a[0].c && !m.rev) m.rev = m.top = m.next + (1u << 21); return; }
  case I_BUDGET: cur->limit = a[0].c ? cur->ninstr + a[0].c : 0; return;
  default: fatalPath("intrinsic not implemented: " + callee->name);
  }
}
static u64 icmpc(int p, u64 a, u64 b, int w) {
  switch (p) { case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b; case CmpInst::ICMP_UGT: return a > b; case CmpInst::ICMP_UGE: return a >= b; case CmpInst::ICMP_ULT: return a < b; case CmpInst::ICMP_ULE: return a <= b; case CmpInst::ICMP_SGT: return sx(a, w) > sx(b, w); case CmpInst::ICMP_SGE: return sx(a, w) >= sx(b, w); case CmpInst::ICMP_SLT: return sx(a, w) < sx(b, w); default: return sx(a, w) <= sx(b, w); }
}
static Expr *icmpe(int p, Expr *a, Expr *b) {
  switch (p) { case CmpInst::ICMP_EQ: return X.eq(a, b); case CmpInst::ICMP_NE: return X.bnot(X.eq(a, b)); case CmpInst::ICMP_UGT: return X.bin(K_ULT, b, a); case CmpInst::ICMP_UGE: return X.bnot(X.bin(K_ULT, a, b)); case CmpInst::ICMP_ULT: return X.bin(K_ULT, a, b); case CmpInst::ICMP_ULE: return X.bnot(X.bin(K_ULT, b, a)); case CmpInst::ICMP_SGT: return X.bin(K_SLT, b, a); case CmpInst::ICMP_SGE: return X.bnot(X.bin(K_SLT, a, b)); case CmpInst::ICMP_SLT: return X.bin(K_SLT, a, b); default: return X.bnot(X.bin(K_SLT, b, a)); }
}
static void takeEdge(Frame &f, int e) {
  Edge &ed = f.f->edges[e]; size_t n = ed.mv.size(); Val *R = &cur->regs[f.base]; auto &K = f.f->consts;
  if (n == 1) R[ed.mv[0].first] = ed.mv[0].second >= 0 ? R[ed.mv[0].second] : K[~ed.mv[0].second];
  else if (n) { Val tmp[64]; std::vector<Val> big; Val *t = tmp; if (n > 64) { big.resize(n); t = big.data(); } for (size_t i = 0; i < n; i++) t[i] = ed.mv[i].second >= 0 ? R[ed.mv[i].second] : K[~ed.mv[i].second]; for (size_t i = 0; i < n; i++) R[ed.mv[i].first] = t[i]; }
  f.pc = ed.pc;
}
static double tstart; static volatile sig_atomic_t alarmed = 0;

static void runState() {
  // executes cur until the path ends (throws PathEnd)
  u64 lim = 0;
  for (;;) {
    try {
      for (;;) {
        Frame *f = &cur->fr.back(); Fn *fn = f->f; Val *R = cur->regs.data() + f->base; const Op &o = fn->ops[f->pc];
        S.instrs++; if ((++lim & 0xfff) == 0) { if (alarmed || now() - tstart > opt_timeout) { stop_all = true; incomplete = "time limit"; throw PathEnd(); } }
        cur->ninstr++; if (cur->limit && cur->ninstr > cur->limit) { cur->limit = 0; runtimeError("instruction limit exceeded (non-termination?)"); }
#define G(i) ((i) >= 0 ? R[i] : fn->consts[~(i)])
        switch (o.op) {
        case O_BIN: { Val a = G(o.a), b = G(o.b); 
            if (o.k >= K_UDIV && o.k <= K_SREM) { if (b.e) { Expr *z = X.eq(b.e, X.cst(0, o.w)); if (branch(z)) runtimeError("division by zero"); } else if (b.c == 0) runtimeError("division by zero");
              if ((o.k == K_SDIV || o.k == K_SREM) && o.w >= 32) { if (a.e || b.e) { Expr *ov = X.bin(K_AND, X.eq(EX(a, o.w), X.cst(1ull << (o.w - 1), o.w)), X.eq(EX(b, o.w), X.cst(maskw(o.w), o.w))); if (branch(ov)) runtimeError("division overflow"); } else if (a.c == (1ull << (o.w - 1)) && b.c == maskw(o.w)) runtimeError("division overflow"); } }
            if (!a.e && !b.e) R[o.dst] = vc(ExprCtx::evalop((EK)o.k, o.w, 0, a.c, o.w, b.c, o.w, 0)); else R[o.dst] = ve(X.bin((EK)o.k, EX(a, o.w), EX(b, o.w))); f->pc++; break; }
        case O_CMP: { Val a = G(o.a), b = G(o.b); if (!a.e && !b.e) R[o.dst] = vc(icmpc(o.k, a.c, b.c, o.w)); else R[o.dst] = ve(icmpe(o.k, EX(a, o.w), EX(b, o.w))); f->pc++; break; }
        case O_FCMP: { Val a = G(o.a), b = G(o.b); Expr *x = EX(a, o.w), *y = EX(b, o.w); auto un1 = [&](Expr *e) { return X.un(K_FNAN, e, 1); }; Expr *un = X.bin(K_OR, un1(x), un1(y)); Expr *r; switch (o.k) {
            case CmpInst::FCMP_OEQ: r = X.bin(K_FEQ, x, y); break; case CmpInst::FCMP_OGT: r = X.bin(K_FLT, y, x); break; case CmpInst::FCMP_OGE: r = X.bin(K_FLE, y, x); break; case CmpInst::FCMP_OLT: r = X.bin(K_FLT, x, y); break; case CmpInst::FCMP_OLE: r = X.bin(K_FLE, x, y); break;
            case CmpInst::FCMP_ONE: r = X.bin(K_OR, X.bin(K_FLT, x, y), X.bin(K_FLT, y, x)); break; case CmpInst::FCMP_ORD: r = X.bnot(un); break; case CmpInst::FCMP_UNO: r = un; break; case CmpInst::FCMP_UEQ: r = X.bin(K_OR, un, X.bin(K_FEQ, x, y)); break; case CmpInst::FCMP_UNE: r = X.bnot(X.bin(K_FEQ, x, y)); break;
            case CmpInst::FCMP_ULT: r = X.bnot(X.bin(K_FLE, y, x)); break; case CmpInst::FCMP_ULE: r = X.bnot(X.bin(K_FLT, y, x)); break; case CmpInst::FCMP_UGT: r = X.bnot(X.bin(K_FLE, x, y)); break; case CmpInst::FCMP_UGE: r = X.bnot(X.bin(K_FLT, x, y)); break; default: r = X.cst(o.k == CmpInst::FCMP_TRUE, 1); }
            R[o.dst] = ve(r); f->pc++; break; }
        case O_FUN: { Val a = G(o.a); Expr *e = EX(a, o.w2); Expr *r; switch (o.k) { case K_SI2F: r = X.un(K_SI2F, X.sext(e, 64), o.w); break; case K_UI2F: r = e->w < 64 ? X.un(K_SI2F, X.zext(e, 64), o.w) : X.un(K_UI2F, e, o.w); break; case K_F2SI: r = X.trunc(X.un(K_F2SI, e, 64), o.w); break; case K_F2UI: r = o.w < 64 ? X.trunc(X.un(K_F2SI, e, 64), o.w) : X.un(K_F2UI, e, 64); break; default: r = X.un((EK)o.k, e, o.w); } R[o.dst] = ve(r); f->pc++; break; }
        case O_NEG: { Val a = G(o.a); R[o.dst] = ve(X.bin(K_XOR, EX(a, o.w), X.cst(1ull << (o.w - 1), o.w))); f->pc++; break; }
        case O_MOV: R[o.dst] = G(o.a); f->pc++; break;
        case O_ZEXT: { Val a = G(o.a); R[o.dst] = a.e ? ve(X.zext(a.e, o.w)) : a; f->pc++; break; }
        case O_SEXT: { Val a = G(o.a); R[o.dst] = a.e ? ve(X.sext(a.e, o.w)) : vc((u64)sx(a.c, o.w2) & maskw(o.w)); f->pc++; break; }
        case O_TRUNC: { Val a = G(o.a); R[o.dst] = a.e ? ve(X.trunc(a.e, o.w)) : vc(a.c & maskw(o.w)); f->pc++; break; }
        case O_PACKV: { Val a = G(o.a), b = G(o.b); R[o.dst] = ve(X.concat(EX(b, o.w), EX(a, o.w))); f->pc++; break; }
        case O_UNPACKV: { Val a = G(o.a); Expr *e = EX(a, o.w * 2); R[o.dst] = ve(X.extract(e, 0, o.w)); R[o.dst + 1] = ve(X.extract(e, o.w, o.w)); f->pc++; break; }
        case O_OVF: { Val a = G(o.a), b = G(o.b); int w = o.w; if (w > 32 && (o.k == 2 || o.k == 5) && (a.e || b.e)) fatalPath("symbolic wide mul overflow"); if (!a.e && !b.e) { __int128 r; bool sg = o.k < 3; __int128 x = sg ? (__int128)sx(a.c, w) : (__int128)a.c, y = sg ? (__int128)sx(b.c, w) : (__int128)b.c; r = (o.k % 3) == 0 ? x + y : (o.k % 3) == 1 ? x - y : x * y; u64 t = (u64)r & maskw(w); bool ov = sg ? (__int128)sx(t, w) != r : (__int128)t != r; R[o.dst] = vc(t); R[o.dst + 1] = vc(ov); } else { if (w >= 64) fatalPath("symbolic 64-bit overflow intrinsic"); int W = w * 2 > 64 ? 64 : w * 2; bool sg = o.k < 3; Expr *x = sg ? X.sext(EX(a, w), W) : X.zext(EX(a, w), W), *y = sg ? X.sext(EX(b, w), W) : X.zext(EX(b, w), W); Expr *r = X.bin((o.k % 3) == 0 ? K_ADD : (o.k % 3) == 1 ? K_SUB : K_MUL, x, y); Expr *t = X.trunc(r, w); R[o.dst] = ve(t); R[o.dst + 1] = ve(X.bnot(X.eq(r, sg ? X.sext(t, W) : X.zext(t, W)))); } f->pc++; break; }
        case O_LOAD: { Val p = G(o.a); if (p.e) { if (o.x) p = ve(X.bin(K_ADD, p.e, X.cst(o.x, 64))); Val v = doLoad(p, o.n, o.w); cur->regs[cur->fr.back().base + o.dst] = v; cur->fr.back().pc++; break; }
            u64 ad = p.c + o.x; u32 id = (ad >> 32) - 1; Obj *ob;
            if ((ad >> 32) > 1 && (ob = cur->mem.get(id)) && !ob->sym) { u64 off = (ad & 0xffffffff) - OBASE; if (off + o.n <= ob->size) { u64 v = 0; memcpy(&v, ob->data + off, o.n); R[o.dst] = vc(v & maskw(o.w)); f->pc++; break; } }
            Val v = doLoad(vc(ad), o.n, o.w); R[o.dst] = v; f->pc++; break; }
        case O_STORE: { Val p = G(o.a), v = G(o.b); if (o.x) p = p.e ? ve(X.bin(K_ADD, p.e, X.cst(o.x, 64))) : vc(p.c + o.x); doStore(p, o.n, v, o.w); cur->fr.back().pc++; break; }
        case O_GEP: { Val a = G(o.a); if (o.n) { Val b = G(o.b); u64 sc = (u64)(i64)o.c; if (!a.e && !b.e) R[o.dst] = vc(a.c + (u64)sx(b.c, o.w) * sc + o.x); else { Expr *ix = X.sext(EX(b, o.w), 64); Expr *e = X.bin(K_ADD, EX(a, 64), X.bin(K_MUL, ix, X.cst(sc, 64))); R[o.dst] = ve(X.bin(K_ADD, e, X.cst(o.x, 64))); } } else R[o.dst] = a.e ? ve(X.bin(K_ADD, a.e, X.cst(o.x, 64))) : vc(a.c + o.x); f->pc++; break; }
        case O_ALLOCA: { Val n = G(o.a); u64 c = n.e ? concretize(n, 64) : n.c; c &= 0xffffffff; u32 id = newObj(o.x * c, 1); f->allocas.push_back(id); R[o.dst] = vc(addrof(id)); f->pc++; break; }
        case O_BR: takeEdge(*f, o.a); break;
        case O_CBR: { Val c = G(o.a); bool t = c.e ? branch(c.e) : c.c; takeEdge(*f, t ? o.b : o.c); break; }
        case O_SWITCH: { Val c = G(o.a); SwitchInfo &si = fn->sw[o.x];
            if (!c.e) { int e = si.def; for (auto &p : si.cases) if (p.first == c.c) { e = p.second; break; } takeEdge(*f, e); break; }
            // group by target edge; the current model picks one, the rest fork
            u64 m = X.eval(c.e, cur->model); int mye = si.def; for (auto &p : si.cases) if (p.first == m) { mye = p.second; break; }
            Expr *mine = nullptr; if (mye == si.def) { mine = X.cst(1, 1); for (auto &p : si.cases) if (p.second != mye) mine = X.bin(K_AND, mine, X.bnot(X.eq(c.e, X.cst(p.first, o.w)))); } else { mine = X.cst(0, 1); for (auto &p : si.cases) if (p.second == mye) mine = X.bin(K_OR, mine, X.eq(c.e, X.cst(p.first, o.w))); }
            branch(mine); takeEdge(cur->fr.back(), mye); break; }
        case O_SELECT: { Val c = G(o.a); if (c.e) { int d = decided(cur, c.e); if (d >= 0) c = vc(d); } if (!c.e) R[o.dst] = c.c ? G(o.b) : G(o.c); else { Val x = G(o.b), y = G(o.c); if (!x.e && !y.e && x.c == y.c) R[o.dst] = x; else R[o.dst] = ve(X.ite(c.e, EX(x, o.w), EX(y, o.w))); } f->pc++; break; }
        case O_RET: { auto &rs = fn->rets[o.x]; Val tmp[32]; int n = rs.size(); for (int i = 0; i < n && i < 32; i++) tmp[i] = G(rs[i]); int dst = f->dst, nret = f->nret; int tm = f->trymark; popFrame(); if (tm) cur->ntry--; if (cur->fr.empty()) { cur->done = true; throw PathEnd(); } Frame &pf = cur->fr.back(); if (dst >= 0) for (int i = 0; i < nret && i < n; i++) cur->regs[pf.base + dst + i] = tmp[i]; break; }
        case O_CALL: { CallInfo &ci = fn->calls[o.x]; Fn *cal = ci.callee; std::vector<Val> args(ci.args.size()); for (size_t i = 0; i < args.size(); i++) args[i] = G(ci.args[i]);
            if (!cal) { Val fv = G(ci.fv); u64 fa = concretize(fv, 64); auto it = fnaddr.find(fa); if (it == fnaddr.end()) runtimeError("call through invalid function pointer"); cal = it->second; }
            if (cal->intr) { doIntrinsic(cal->intr, o, args, ci, cal); cur->fr.back().pc++; break; }
            if (cal->fast) { u64 r; if (fastCall(cal->fast, args, r)) { setRet(o, vc(r)); f->pc++; break; } }
            if (cal->decl) fatalPath("call to undefined function " + cal->name);
            std::vector<std::pair<Val, int>> va; std::vector<u32> bv;
            for (size_t i = 0; i < args.size(); i++) { if (ci.byval[i]) { u32 id = cur->mem.alloc(ci.byval[i], 1); copyMem(vc(addrof(id)), args[i], ci.byval[i]); args[i] = vc(addrof(id)); bv.push_back(id); } }
            if ((int)args.size() > ci.nfixed) { for (size_t i = ci.nfixed; i < args.size(); i++) va.push_back({args[i], ci.aw[i]}); args.resize(ci.nfixed); }
            cur->fr.back().pc++; pushCall(cal, args, o.dst, ci.nret, 0, va); for (u32 id : bv) cur->fr.back().allocas.push_back(id); break; }
        case O_UNREACH: runtimeError("unreachable executed"); break;
        case O_UNSUP: fatalPath("unsupported instruction: " + fn->lines[o.x].second); break;
        default: fatalPath("bad op");
        }
      }
    } catch (Redo &) { continue; }
  }
}

static std::string jesc(const std::string &s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
static void onalarm(int) { alarmed = 1; }

int main(int argc, char **argv) {
  std::vector<std::string> cc, hx; std::string out, entry = "hx_main"; 
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--cc") cc.push_back(nx()); else if (a == "-o") out = nx(); else if (a == "--entry") entry = nx(); else if (a == "--arg") opt_arg = atoll(nx().c_str()); else if (a == "--arg2") opt_arg2 = atoll(nx().c_str()); else if (a == "--sarg") opt_sarg = nx(); else if (a == "--seed") opt_seed = strtoull(nx().c_str(), 0, 10);
    else if (a == "--timeout") opt_timeout = atof(nx().c_str()); else if (a == "--qtimeout") opt_qtimeout = atoi(nx().c_str()); else if (a == "--uninit") opt_uninit = true; else if (a == "-v") opt_verbose = true; else if (a == "--maxviol") opt_maxviol = atoi(nx().c_str()); else if (a == "--smtdir") opt_smtdir = nx(); else if (a == "--traces") opt_traces = atoi(nx().c_str()); else if (a == "--maxinstr") opt_maxinstr = strtoull(nx().c_str(), 0, 10); else hx.push_back(a); }
  tstart = now(); signal(SIGALRM, onalarm);
  Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true"); zc = Z3_mk_context_rc(cfg); Z3_set_error_handler(zc, zerr);
  fp32 = Z3_mk_fpa_sort_32(zc); Z3_inc_ref(zc, Z3_sort_to_ast(zc, fp32)); fp64 = Z3_mk_fpa_sort_64(zc); Z3_inc_ref(zc, Z3_sort_to_ast(zc, fp64)); zrne = ref(Z3_mk_fpa_rne(zc)); zrtz = ref(Z3_mk_fpa_rtz(zc));
  SMDiagnostic err; std::set<const Function *> ccf;
  auto load = [&](const std::string &p) { auto m = parseIRFile(p, err, LC); if (!m) { err.print("symx", errs()); exit(3); } return m; };
  for (auto &p : cc) { auto m = load(p); for (auto &g : m->globals()) if (!g.isDeclaration()) g.setSection("cc"); for (auto &f : *m) if (!f.isDeclaration()) f.setSection("cc"); if (!M) M = std::move(m); else if (Linker::linkModules(*M, std::move(m))) exit(3); }
  for (auto &p : hx) { auto m = load(p); if (!M) M = std::move(m); else if (Linker::linkModules(*M, std::move(m))) exit(3); }
  DL = &M->getDataLayout(); cur = new State;
  for (auto &f : *M) { Fn *n = getFn(&f); u32 id = cur->mem.alloc(0, 0); n->addr = addrof(id); gaddr[&f] = n->addr; fnaddr[n->addr] = n; n->cc = f.hasSection(); }
  std::vector<std::pair<u32, GlobalVariable *>> gs;
  for (auto &g : M->globals()) { u64 sz = DL->getTypeAllocSize(g.getValueType()); u32 id = cur->mem.alloc(sz, 0); gaddr[&g] = addrof(id); gs.push_back({id, &g}); if (g.isDeclaration() && !g.getName().starts_with("llvm.")) errs() << "undefined global " << g.getName() << "\n"; if (g.hasSection() && !g.isConstant()) ccglobals.push_back({id, &g}); }
  for (auto &a : M->aliases()) gaddr[&a] = constAddr(cast<Constant>(a.getAliasee()));
  for (auto &p : gs) { Obj *o = cur->mem.wget(p.first); if (p.second->hasInitializer()) initConst(p.second->getInitializer(), 0, o->data); o->ro = p.second->isConstant(); }
  Function *ef = M->getFunction(entry); if (!ef) { errs() << "no entry " << entry << "\n"; return 3; }
  pushCall(getFn(ef), {}, -1, 0, 0, {}); work.push_back(cur);
  size_t maxlive = 0;
  while (!work.empty() && !stop_all) {
    maxlive = std::max(maxlive, work.size()); if (work.size() > (size_t)opt_maxlive) { incomplete = "state limit"; break; }
    cur = work.back(); work.pop_back();
    try { runState(); } catch (PathEnd &) {}
    S.paths++; if (cur->done) { S.completed++; u64 h = S.completed * 0x9E3779B97F4A7C15ull ^ opt_seed * 0xC2B2AE3D27D4EB4Full; h ^= h >> 29; std::string s; for (auto &n : cur->notes) s += n + "; "; if ((int)traces.size() < opt_traces) traces.push_back({s, cur->model, cur->vids}); else if (h % S.completed < (u64)opt_traces) traces[h % S.completed] = {s, cur->model, cur->vids}; }
    if (samples.size() < 12 || (S.paths % 97) == 0) { std::string s; for (auto &n : cur->notes) s += n + "; "; if (s.size() && samples.size() < 40) samples.push_back(s); }
    delete cur; cur = nullptr;
  }
  if (!work.empty() && incomplete.empty()) incomplete = "stopped";
  // report
  std::string j = "{"; auto num = [&](const char *k, double v, bool last = false) { char b[128]; if (v == (double)(long long)v) snprintf(b, 128, "\"%s\": %lld, ", k, (long long)v); else snprintf(b, 128, "\"%s\": %.3f, ", k, v); j += b; };
  num("paths", S.paths); num("completed", S.completed); num("forks", S.forks); num("killed", S.killed); num("instrs", S.instrs); num("queries", S.queries); num("sat", S.sat); num("unsat", S.unsat); num("unknown", S.unknown); num("cached", S.cached); num("fastdom", S.fastdom); num("modelhit", S.modelhit); num("solver_s", S.time); num("wall_s", now() - tstart); num("checks", S.checks); num("checks_trivial", S.checks_trivial); num("checks_solver", S.checks_solver); num("undecided", unknown_checks); num("left", work.size()); num("vars", X.vars.size());
  j += "\"incomplete\": \"" + jesc(incomplete) + "\", \"errors\": {"; bool first = true; for (auto &p : errcount) { j += (first ? "" : ", ") + std::string("\"") + jesc(p.first) + "\": " + std::to_string(p.second); first = false; } j += "}, \"errlist\": ["; first = true; for (auto &p : errors) { j += (first ? "" : ", ") + std::string("\"") + jesc(p) + "\""; first = false; }
  j += "], \"checkmsgs\": {"; first = true; for (auto &p : checkcount) { j += (first ? "" : ", ") + std::string("\"") + jesc(p.first) + "\": " + std::to_string(p.second); first = false; } j += "}, \"reach\": {"; first = true; for (auto &p : reach) { j += (first ? "" : ", ") + std::string("\"") + jesc(p.first) + "\": " + std::to_string(p.second); first = false; }
  j += "}, \"functions\": ["; first = true; for (auto &p : fns) if (p.second->cc && p.second->hits) { j += (first ? "" : ", ") + std::string("\"") + jesc(p.second->name) + "\""; first = false; }
  j += "], \"samples\": ["; first = true; for (auto &s : samples) { j += (first ? "" : ", ") + std::string("\"") + jesc(s) + "\""; first = false; }
  auto vals = [&](const std::vector<u64> &model, const std::vector<int> &vids) { std::map<std::string, std::vector<u64>> mm; for (size_t i : vids) { auto &vi = X.vars[i]; if (vi.name == "uninit") continue; auto &vec = mm[vi.name]; if ((int)vec.size() <= vi.idx) vec.resize(vi.idx + 1, 0); vec[vi.idx] = i < model.size() ? model[i] : 0; } std::string r = "{"; bool f2 = true; for (auto &p : mm) { r += (f2 ? "" : ", ") + std::string("\"") + jesc(p.first) + "\": ["; f2 = false; for (size_t i = 0; i < p.second.size(); i++) r += (i ? "," : "") + std::to_string(p.second[i]); r += "]"; } return r + "}"; };
  j += "], \"traces\": ["; first = true; for (auto &t : traces) { j += (first ? "" : ", ") + std::string("{\"notes\": \"") + jesc(t.notes) + "\", \"vals\": " + vals(t.model, t.vids) + "}"; first = false; }
  j += "], \"violations\": ["; first = true; for (auto &v : viols) { j += first ? "" : ", "; first = false; j += "{\"msg\": \"" + jesc(v.msg) + "\", \"notes\": \"" + jesc(v.notes) + "\", \"vals\": {"; bool f2 = true; for (auto &p : v.vals) { if (p.first == "uninit") { std::set<u64> d(p.second.begin(), p.second.end()); j += f2 ? "" : ", "; f2 = false; j += "\"uninit\": ["; int nd = 0; for (u64 x : d) if (nd < 12) j += (nd++ ? "," : "") + std::to_string(x); j += "]"; continue; } j += (f2 ? "" : ", ") + std::string("\"") + jesc(p.first) + "\": ["; f2 = false; for (size_t i = 0; i < p.second.size(); i++) j += (i ? "," : "") + std::to_string(p.second[i]); j += "]"; } j += "}}"; }
  j += "]}\n";
  if (out.empty()) fputs(j.c_str(), stdout); else { std::ofstream of(out); of << j; }
  fflush(stdout); _exit(0);
}
