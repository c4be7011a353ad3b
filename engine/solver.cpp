#include <functional>
#include "solver.h"
#include "llvm/ADT/SmallVector.h"
#include "llvm/ADT/StringRef.h"
#include <z3.h>
#include <algorithm>
#include <chrono>
#include <cstring>
#include <cstdio>
#include <unistd.h>
using llvm::APInt;
SolverStats g_ss; uint64_t g_rlimit = 40000000; bool g_noFast = false; std::string g_dumpDir;
static Z3_context C;
static bool z3Only = false, giveUp = false;
static void z3err(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); _exit(3); }
static void init() {
  if (C) return;
  Z3_config cfg = Z3_mk_config(); C = Z3_mk_context(cfg); Z3_del_config(cfg);
  Z3_set_error_handler(C, z3err);
}
static Z3_sort bvs(unsigned w) { return Z3_mk_bv_sort(C, w); }
static Z3_ast keep(Z3_ast a) { Z3_inc_ref(C, a); return a; }
static Z3_ast toBV(Expr* e);
static std::vector<Z3_func_decl> ufDecl;
static std::unordered_map<uint32_t, Z3_ast> tabArr;

static Z3_ast toBool(Expr* e) {
  if (e->z3bool) return (Z3_ast)e->z3bool;
  Z3_ast r;
  switch (e->kind) {
    case K_Const: r = e->c() ? Z3_mk_true(C) : Z3_mk_false(C); break;
    case K_Eq: if (e->k[0]->width == 1) r = Z3_mk_iff(C, toBool(e->k[0]), toBool(e->k[1])); else r = Z3_mk_eq(C, toBV(e->k[0]), toBV(e->k[1])); break;
    case K_Ult: r = Z3_mk_bvult(C, toBV(e->k[0]), toBV(e->k[1])); break;
    case K_Ule: r = Z3_mk_bvule(C, toBV(e->k[0]), toBV(e->k[1])); break;
    case K_Slt: r = Z3_mk_bvslt(C, toBV(e->k[0]), toBV(e->k[1])); break;
    case K_Sle: r = Z3_mk_bvsle(C, toBV(e->k[0]), toBV(e->k[1])); break;
    case K_And: { Z3_ast a[2] = {toBool(e->k[0]), toBool(e->k[1])}; r = Z3_mk_and(C, 2, a); break; }
    case K_Or: { Z3_ast a[2] = {toBool(e->k[0]), toBool(e->k[1])}; r = Z3_mk_or(C, 2, a); break; }
    case K_Xor: if (e->k[1]->isConst()) r = Z3_mk_not(C, toBool(e->k[0])); else r = Z3_mk_xor(C, toBool(e->k[0]), toBool(e->k[1])); break;
    case K_Ite: r = Z3_mk_ite(C, toBool(e->k[0]), toBool(e->k[1]), toBool(e->k[2])); break;
    default: r = Z3_mk_eq(C, toBV(e), Z3_mk_unsigned_int64(C, 1, bvs(1)));
  }
  e->z3bool = keep(r); return r;
}
static Z3_ast toBV(Expr* e) {
  if (e->z3bv) return (Z3_ast)e->z3bv;
  Z3_ast r; unsigned w = e->width;
  auto b2 = [&](Z3_ast (*f)(Z3_context, Z3_ast, Z3_ast)) { return f(C, toBV(e->k[0]), toBV(e->k[1])); };
  switch (e->kind) {
    case K_Const: { 
      if (w <= 64) r = Z3_mk_unsigned_int64(C, e->c(), bvs(w));
      else { // assemble from 32-bit pieces
        APInt v = constAP(e); r = nullptr;
        for (int i = (w + 31) / 32 - 1; i >= 0; i--) { unsigned n = std::min(32u, w - i * 32); Z3_ast p = Z3_mk_unsigned_int64(C, v.extractBitsAsZExtValue(n, i * 32), bvs(n)); r = r ? Z3_mk_concat(C, r, p) : p; }
      } break; }
    case K_Sym: r = Z3_mk_const(C, Z3_mk_int_symbol(C, e->aux), bvs(w)); break;
    case K_Add: r = b2(Z3_mk_bvadd); break; case K_Sub: r = b2(Z3_mk_bvsub); break; case K_Mul: r = b2(Z3_mk_bvmul); break;
    case K_UDiv: r = b2(Z3_mk_bvudiv); break; case K_SDiv: r = b2(Z3_mk_bvsdiv); break; case K_URem: r = b2(Z3_mk_bvurem); break; case K_SRem: r = b2(Z3_mk_bvsrem); break;
    case K_Shl: r = b2(Z3_mk_bvshl); break; case K_LShr: r = b2(Z3_mk_bvlshr); break; case K_AShr: r = b2(Z3_mk_bvashr); break;
    case K_And: r = w == 1 ? nullptr : b2(Z3_mk_bvand); break; case K_Or: r = w == 1 ? nullptr : b2(Z3_mk_bvor); break; case K_Xor: r = w == 1 ? nullptr : b2(Z3_mk_bvxor); break;
    case K_Ite: r = w == 1 ? nullptr : Z3_mk_ite(C, toBool(e->k[0]), toBV(e->k[1]), toBV(e->k[2])); break;
    case K_Concat: r = b2(Z3_mk_concat); break;
    case K_Extract: r = Z3_mk_extract(C, e->aux + w - 1, e->aux, toBV(e->k[0])); break;
    case K_ZExt: r = Z3_mk_zero_ext(C, w - e->k[0]->width, toBV(e->k[0])); break;
    case K_SExt: r = Z3_mk_sign_ext(C, w - e->k[0]->width, toBV(e->k[0])); break;
    case K_UF: {
      if (ufDecl.size() <= e->aux) ufDecl.resize(e->aux + 1);
      if (!ufDecl[e->aux]) { std::vector<Z3_sort> ds; for (uint32_t i = 0; i < e->nk; i++) ds.push_back(bvs(e->k[i]->width));
        std::string n = "uf_" + g_ufs[e->aux].name; ufDecl[e->aux] = Z3_mk_func_decl(C, Z3_mk_string_symbol(C, n.c_str()), e->nk, ds.data(), bvs(w)); Z3_inc_ref(C, (Z3_ast)ufDecl[e->aux]); }
      std::vector<Z3_ast> as; for (uint32_t i = 0; i < e->nk; i++) as.push_back(toBV(e->k[i]));
      r = Z3_mk_app(C, ufDecl[e->aux], e->nk, as.data()); break; }
    case K_Select: { // balanced ite tree over the index
      Expr* t = e->k[0]; Expr* ix = e->k[1];
      struct B { static Z3_ast go(Expr* t, Expr* ix, uint32_t lo, uint32_t hi) {
        if (lo + 1 >= hi) return toBV(t->k[lo]);
        uint32_t mid = (lo + hi) / 2;
        return Z3_mk_ite(C, toBool(mkBin(K_Ult, ix, mkConst(mid, ix->width))), go(t, ix, lo, mid), go(t, ix, mid, hi)); } };
      r = B::go(t, ix, 0, t->nk); break; }
    default: r = nullptr;
  }
  if (!r) r = Z3_mk_ite(C, toBool(e), Z3_mk_unsigned_int64(C, 1, bvs(1)), Z3_mk_unsigned_int64(C, 0, bvs(1)));
  e->z3bv = keep(r); return r;
}

const uint64_t* domOf(Expr* e) {
  if (e->dom) return e->dom;
  uint64_t* d = (uint64_t*)calloc(4, 8);
  uint32_t s = e->vars->v[0]; unsigned n = 1u << g_syms[s].width;
  Model m;
  for (unsigned i = 0; i < n; i++) { evalBegin(); m.set(s, i); if (evalExpr(e, m)) d[i >> 6] |= 1ULL << (i & 63); }
  return e->dom = d;
}

void PathCond::add(Expr* c) {
  if (c->kind == K_And) { add(c->k[0]); add(c->k[1]); return; }
  if (c->isConst()) return;
  if (c->vars->v.size() == 1 && !(c->vars->v[0] & 0x80000000u)) {
    for (Expr* x : single) if (x == c) return;
    single.push_back(c);
    uint32_t s = c->vars->v[0];
    if (g_syms[s].width <= 8) {
      const uint64_t* t = domOf(c); Dom* d = dom(s);
      if (!d) { doms.push_back({s, {~0ULL, ~0ULL, ~0ULL, ~0ULL}, false}); d = &doms.back(); unsigned n = 1u << g_syms[s].width; if (n < 256) for (int i = 0; i < 4; i++) d->b[i] = n >= (i + 1) * 64u ? ~0ULL : n > i * 64u ? maskOf(n - i * 64) : 0; }
      for (int i = 0; i < 4; i++) d->b[i] &= t[i];
    }
  } else {
    for (Expr* x : multi) if (x == c) return;
    multi.push_back(c);
    for (uint32_t s : c->vars->v) if (!(s & 0x80000000u) && g_syms[s].width <= 8) {
      Dom* d = dom(s); if (!d) { doms.push_back({s, {~0ULL, ~0ULL, ~0ULL, ~0ULL}, false}); d = &doms.back(); unsigned n = 1u << g_syms[s].width; if (n < 256) for (int i = 0; i < 4; i++) d->b[i] = n >= (i + 1) * 64u ? ~0ULL : n > i * 64u ? maskOf(n - i * 64) : 0; }
      d->inMulti = true; }
  }
}

struct CacheEnt { Res r; std::vector<std::pair<uint32_t, uint64_t>> vals; std::vector<std::pair<std::string, APInt>> ufs; };
struct KH { size_t operator()(const std::vector<uint32_t>& v) const { size_t h = 1469598103934665603ULL; for (auto x : v) h = (h ^ x) * 1099511628211ULL; return h ^ (h >> 29); } };
static std::unordered_map<std::vector<uint32_t>, CacheEnt, KH> cache;

static void collectUF(Expr* e, std::vector<Expr*>& out, std::unordered_map<Expr*, char>& seen) {
  if (seen.count(e)) return; seen[e] = 1;
  bool any = false; for (uint32_t s : e->vars->v) if (s & 0x80000000u) any = true;
  if (!any) return;
  for (uint32_t i = 0; i < e->nk; i++) collectUF(e->k[i], out, seen);
  if (e->kind == K_UF) out.push_back(e);
}
static bool inter(const VarSet* a, const VarSet* b) {
  size_t i = 0, j = 0; while (i < a->v.size() && j < b->v.size()) { if (a->v[i] == b->v[j]) return true; if (a->v[i] < b->v[j]) i++; else j++; } return false; }

static void setUF(Model& m, const std::string& k, const APInt& v) {
  if (!m.uf) m.uf = std::make_shared<std::unordered_map<std::string, APInt>>();
  else if (m.uf.use_count() > 1) m.uf = std::make_shared<std::unordered_map<std::string, APInt>>(*m.uf);
  m.uf->erase(k); m.uf->emplace(k, v);
}

static Res z3solve(const std::vector<Expr*>& cs, const VarSet* vs, CacheEnt& ent) {
  init();
  auto t0 = std::chrono::steady_clock::now();
  bool uf = false; for (uint32_t s : vs->v) if (s & 0x80000000u) uf = true;
  static Z3_solver sv[2];
  Z3_solver& S = sv[uf];
  if (!S) {
    S = uf ? Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_UFBV")) : Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_BV"));
    Z3_solver_inc_ref(C, S);
    Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p);
    Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "rlimit"), (unsigned)g_rlimit);
    Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "random_seed"), 1);
    Z3_solver_set_params(C, S, p); Z3_params_dec_ref(C, p);
  }
  { Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p); Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "rlimit"), (unsigned)g_rlimit); Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "random_seed"), 1); Z3_solver_set_params(C, S, p); Z3_params_dec_ref(C, p); }
  Z3_solver_reset(C, S);
  for (Expr* c : cs) Z3_solver_assert(C, S, toBool(c));
  Z3_lbool b = Z3_solver_check(C, S);
  Res r = b == Z3_L_TRUE ? Sat : b == Z3_L_FALSE ? Unsat : Unknown;
  if (r == Unknown && !giveUp) { // a second, longer attempt from another seed
    Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p); Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "rlimit"), (unsigned)std::min<uint64_t>(4000000000u, (uint64_t)g_rlimit * 6)); Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "random_seed"), 7); Z3_solver_set_params(C, S, p); Z3_params_dec_ref(C, p);
    b = Z3_solver_check(C, S); r = b == Z3_L_TRUE ? Sat : b == Z3_L_FALSE ? Unsat : Unknown;
  }
  if (r == Unknown && getenv("SX_DBG")) fprintf(stderr, "unknown: %s\n%s\n", Z3_solver_get_reason_unknown(C, S), Z3_solver_to_string(C, S));
  if (r == Sat) {
    Z3_model M = Z3_solver_get_model(C, S); Z3_model_inc_ref(C, M);
    auto val = [&](Z3_ast a, unsigned w) -> APInt {
      Z3_ast o; if (!Z3_model_eval(C, M, a, true, &o)) { fprintf(stderr, "model eval failed\n"); _exit(3); }
      Z3_inc_ref(C, o); APInt x(w, llvm::StringRef(Z3_get_numeral_string(C, o)), 10); Z3_dec_ref(C, o); return x; };
    for (uint32_t s : vs->v) if (!(s & 0x80000000u)) ent.vals.push_back({s, val(toBV(g_syms[s].e), g_syms[s].width).getZExtValue()});
    if (uf) {
      Model m; for (auto& p : ent.vals) m.set(p.first, p.second);
      std::vector<Expr*> us; std::unordered_map<Expr*, char> seen; for (Expr* c : cs) collectUF(c, us, seen);
      // post-order: inner applications first, so nested arguments evaluate consistently
      for (Expr* u : us) { APInt v = val(toBV(u), u->width); evalBegin(); std::vector<APInt> as; for (uint32_t i = 0; i < u->nk; i++) as.push_back(evalExprAP(u->k[i], m));
        std::string k = ufKey(u->aux, as); setUF(m, k, v); ent.ufs.push_back({k, v}); }
    }
    Z3_model_dec_ref(C, M);
  }
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  g_ss.z3++; g_ss.z3s += dt; if (dt > g_ss.maxq) g_ss.maxq = dt;
  if (r == Sat) g_ss.sat++; else if (r == Unsat) g_ss.unsat++; else if (!giveUp) g_ss.unknown++;
  return r;
}

// chains of wide multiplications and divisions (the conversions of the big integers)
static bool heavy(Expr* e) {
  std::unordered_map<Expr*, char> seen; std::vector<Expr*> st{e}; int n = 0;
  while (!st.empty()) { Expr* x = st.back(); st.pop_back(); if (seen.count(x)) continue; seen[x] = 1;
    if (x->width >= 64 && (x->kind == K_Mul || x->kind == K_UDiv || x->kind == K_URem) && ++n > 3) return true;
    for (uint32_t i = 0; i < x->nk; i++) if (!x->k[i]->isConst()) st.push_back(x->k[i]); }
  return false;
}
Res checkSat(PathCond& pc, Expr* cond, Model& m, bool forceZ3) {
  if (cond->isConst()) { g_ss.trivial++; return cond->c() ? Sat : Unsat; }
  // domain pre-filter
  bool small = cond->vars->v.size() == 1 && !(cond->vars->v[0] & 0x80000000u) && g_syms[cond->vars->v[0]].width <= 8;
  if (forceZ3 && small && !g_noFast && !z3Only && heavy(cond)) forceZ3 = false;
  else if (forceZ3 && small && !g_noFast && !z3Only) { // Z3 first; where it gives up early, the (exhausted) domain of the byte decides
    uint64_t keep = g_rlimit; g_rlimit = keep / 250; z3Only = true; giveUp = true;
    Res r = checkSat(pc, cond, m, true);
    g_rlimit = keep; z3Only = false; giveUp = false;
    if (r != Unknown) return r;
    return checkSat(pc, cond, m, false);
  }
  if (!forceZ3 && !g_noFast && cond->vars->v.size() == 1 && !(cond->vars->v[0] & 0x80000000u) && g_syms[cond->vars->v[0]].width <= 8) {
    uint32_t s = cond->vars->v[0]; const uint64_t* t = domOf(cond); Dom* d = pc.dom(s);
    uint64_t x[4]; bool any = false; for (int i = 0; i < 4; i++) { x[i] = t[i] & (d ? d->b[i] : ~0ULL); any |= x[i] != 0; }
    if (!any) { g_ss.fast++; return Unsat; }
    if (!d || !d->inMulti) { g_ss.fast++;
      uint64_t cur = m.get(s) & 255; if (!(x[cur >> 6] >> (cur & 63) & 1)) {
        // prefer printable witnesses
        int pick = -1; for (int i = 32; i < 127 && pick < 0; i++) if (x[i >> 6] >> (i & 63) & 1) pick = i;
        for (int i = 0; i < 256 && pick < 0; i++) if (x[i >> 6] >> (i & 63) & 1) pick = i;
        m.set(s, pick); }
      return Sat; }
  }
  // slice
  std::vector<Expr*> cs; const VarSet* vs = cond->vars; std::vector<char> used(pc.multi.size(), 0);
  for (bool ch = true; ch;) { ch = false; for (size_t i = 0; i < pc.multi.size(); i++) if (!used[i] && inter(pc.multi[i]->vars, vs)) { used[i] = 1; ch = true; cs.push_back(pc.multi[i]); vs = vsUnion(vs, pc.multi[i]->vars); } }
  for (Expr* c : pc.single) if (inter(c->vars, vs)) cs.push_back(c);
  // two or three bytes with few values left: their joint domain is exhausted
  if (!forceZ3 && !g_noFast && (vs->v.size() == 2 || vs->v.size() == 3)) {
    bool ok = true; std::vector<int> vals[3]; size_t n = vs->v.size(), prod = 1;
    for (size_t k = 0; k < n && ok; k++) { uint32_t y = vs->v[k]; if ((y & 0x80000000u) || g_syms[y].width > 8) { ok = false; break; } Dom* d = pc.dom(y); int w = 1 << g_syms[y].width; for (int i = 0; i < w; i++) if (!d || d->b[i >> 6] >> (i & 63) & 1) vals[k].push_back(i); prod *= vals[k].size(); }
    if (ok && prod <= (n == 2 ? 5000 : 20000)) {
      std::vector<Expr*> rel[3]; // by the last variable they mention
      auto put = [&](Expr* c) { size_t last = 0; for (size_t k = 0; k < n; k++) for (uint32_t y : c->vars->v) if (y == vs->v[k]) last = k; rel[last].push_back(c); };
      put(cond); for (size_t i = 0; i < used.size(); i++) if (used[i]) put(pc.multi[i]);
      g_ss.fast++; Model t;
      std::function<bool(size_t)> rec = [&](size_t k) -> bool {
        if (k == n) return true;
        for (int a : vals[k]) { t.set(vs->v[k], a); bool good = true; for (Expr* c : rel[k]) { evalBegin(); if (!evalExpr(c, t)) { good = false; break; } } if (good && rec(k + 1)) return true; }
        return false; };
      if (!rec(0)) return Unsat;
      for (uint32_t y : vs->v) m.set(y, t.get(y));
      return Sat;
    }
  }
  std::vector<uint32_t> key; for (Expr* c : cs) key.push_back(c->id); std::sort(key.begin(), key.end()); key.push_back(cond->id);
  auto it = cache.find(key);
  CacheEnt ent;
  if (it != cache.end()) { g_ss.cache++; }
  else {
    cs.push_back(cond);
    ent.r = z3solve(cs, vs, ent);
    if (ent.r == Sat) { // validate the model against the encoding
      Model t = m; for (auto& p : ent.vals) t.set(p.first, p.second); for (auto& p : ent.ufs) setUF(t, p.first, p.second);
      evalBegin(); for (Expr* c : cs) if (!evalExpr(c, t)) { fprintf(stderr, "internal: solver model does not satisfy constraint %s\n", toStr(c).c_str()); _exit(3); }
    }
    if (ent.r == Unknown && giveUp) return Unknown;
    if (cache.size() > 400000) cache.clear();
    it = cache.emplace(std::move(key), std::move(ent)).first;
  }
  const CacheEnt& E = it->second;
  if (E.r == Sat) { for (auto& p : E.vals) m.set(p.first, p.second); for (auto& p : E.ufs) setUF(m, p.first, p.second); }
  return E.r;
}
