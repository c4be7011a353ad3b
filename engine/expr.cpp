#include "expr.h"
#include "llvm/ADT/ArrayRef.h"
#include "llvm/ADT/SmallString.h"
#include "llvm/ADT/StringExtras.h"
#include <cstring>
#include <cassert>
#include <algorithm>
#include <map>
#include <unordered_set>
using llvm::APInt;

std::vector<SymInfo> g_syms;
std::vector<UFInfo> g_ufs;

namespace {
struct Arena {
  char* p = nullptr; size_t left = 0;
  void* get(size_t n) {
    n = (n + 15) & ~size_t(15);
    if (n > left) { size_t c = std::max<size_t>(n, 1 << 20); p = (char*)malloc(c); left = c; }
    void* r = p; p += n; left -= n; return r;
  }
} A;

std::vector<Expr*> tab(1 << 16, nullptr);
size_t cnt = 0;

struct VSHash { size_t operator()(const std::vector<uint32_t>& v) const { size_t h = 1469598103934665603ULL; for (auto x : v) h = (h ^ x) * 1099511628211ULL; return h; } };
std::unordered_map<std::vector<uint32_t>, VarSet*, VSHash> vsTab;
std::unordered_map<uint64_t, const VarSet*> vsU;
const VarSet* vsIntern(std::vector<uint32_t> v) {
  auto it = vsTab.find(v);
  if (it != vsTab.end()) return it->second;
  VarSet* s = new VarSet; s->v = v; s->id = vsTab.size();
  vsTab[v] = s; return s;
}
const VarSet* vsEmpty() { static const VarSet* e = vsIntern({}); return e; }

uint32_t hmix(uint32_t h, uint64_t x) { uint64_t z = (h ^ x) * 0x9E3779B97F4A7C15ULL; return (uint32_t)(z >> 32) ^ (uint32_t)z * 31; }

bool sameNode(const Expr* a, Kind k, unsigned w, uint32_t aux, Expr* const* ks, uint32_t nk, const uint64_t* cw) {
  if (a->kind != k || a->width != w || a->aux != aux || a->nk != nk) return false;
  for (uint32_t i = 0; i < nk; i++) if (a->k[i] != ks[i]) return false;
  if (k == K_Const) { unsigned n = (w + 63) / 64; if (memcmp(a->w, cw, n * 8)) return false; }
  return true;
}

void computeInfo(Expr* e) {
  const VarSet* vs = vsEmpty();
  for (uint32_t i = 0; i < e->nk; i++) vs = vsUnion(vs, e->k[i]->vars);
  if (e->kind == K_Sym) vs = vsIntern({e->aux});
  if (e->kind == K_UF) vs = vsUnion(vs, vsIntern({0x80000000u + e->aux}));
  e->vars = vs;
  e->umin = 0; e->umax = maskOf(e->width); e->kz = 0;
  if (e->width > 64) return;
  uint64_t m = maskOf(e->width);
  switch (e->kind) {
    case K_Const: e->umin = e->umax = e->w[0]; e->kz = ~e->w[0] & m; break;
    case K_ZExt: {
      Expr* x = e->k[0]; e->umin = x->umin; e->umax = x->umax; e->kz = x->kz | (m & ~maskOf(x->width)); break; }
    case K_Concat: {
      Expr *h = e->k[0], *l = e->k[1];
      e->umin = (h->umin << l->width) | l->umin; e->umax = (h->umax << l->width) | l->umax;
      e->kz = (h->kz << l->width) | l->kz; break; }
    case K_Extract: {
      Expr* x = e->k[0];
      if (x->width <= 64) {
        e->kz = (x->kz >> e->aux) & m;
        if ((x->umax >> e->aux) <= m) { e->umax = x->umax >> e->aux; e->umin = x->umin >> e->aux; }
      } break; }
    case K_And: {
      e->kz = (e->k[0]->kz | e->k[1]->kz); e->umax = std::min(e->k[0]->umax, e->k[1]->umax); break; }
    case K_Or: case K_Xor: {
      e->kz = e->k[0]->kz & e->k[1]->kz; uint64_t nz = ~e->kz & m; e->umax = nz;
      if (e->kind == K_Or) e->umin = std::max(e->k[0]->umin, e->k[1]->umin); break; }
    case K_Add: {
      unsigned __int128 s = (unsigned __int128)e->k[0]->umax + e->k[1]->umax;
      if (s <= m) { e->umax = (uint64_t)s; e->umin = e->k[0]->umin + e->k[1]->umin;
        }
      else if (e->k[1]->isConst()) { // adding a "negative" constant: always wraps?
        uint64_t c = e->k[1]->c();
        if ((unsigned __int128)e->k[0]->umin + c > m) { e->umin = (e->k[0]->umin + c) & m; e->umax = (e->k[0]->umax + c) & m; }
      }
      break; }
    case K_Sub:
      if (e->k[0]->umin >= e->k[1]->umax) { e->umin = e->k[0]->umin - e->k[1]->umax; e->umax = e->k[0]->umax - e->k[1]->umin; }
      break;
    case K_Mul: {
      unsigned __int128 s = (unsigned __int128)e->k[0]->umax * e->k[1]->umax;
      if (s <= m) { e->umax = (uint64_t)s; e->umin = e->k[0]->umin * e->k[1]->umin; }
      // trailing zeros of a constant factor
      if (e->k[1]->isConst() && e->k[1]->c()) e->kz |= maskOf(__builtin_ctzll(e->k[1]->c())) & m;
      break; }
    case K_UDiv: if (e->k[1]->isConst() && e->k[1]->c()) { e->umax = e->k[0]->umax / e->k[1]->c(); e->umin = e->k[0]->umin / e->k[1]->c(); } break;
    case K_URem: if (e->k[1]->isConst() && e->k[1]->c()) { e->umax = std::min(e->k[0]->umax, e->k[1]->c() - 1); } else e->umax = e->k[0]->umax; break;
    case K_LShr: if (e->k[1]->isConst() && e->k[1]->c() < e->width) { e->umax = e->k[0]->umax >> e->k[1]->c(); e->umin = e->k[0]->umin >> e->k[1]->c(); } else e->umax = e->k[0]->umax; break;
    case K_Ite: { e->umin = std::min(e->k[1]->umin, e->k[2]->umin); e->umax = std::max(e->k[1]->umax, e->k[2]->umax); e->kz = e->k[1]->kz & e->k[2]->kz; break; }
    case K_Select: { e->umin = ~0ULL; e->umax = 0; e->kz = m; Expr* t = e->k[0];
      for (uint32_t i = 0; i < t->nk; i++) { e->umin = std::min(e->umin, t->k[i]->umin); e->umax = std::max(e->umax, t->k[i]->umax); e->kz &= t->k[i]->kz; } break; }
    default: break;
  }
  // tighten umax from known-zero bits
  uint64_t nz = ~e->kz & m; if (e->umax > nz) e->umax = nz;
  // leading zeros from umax
  if (e->umax != m) { unsigned lz = e->umax ? 64 - __builtin_clzll(e->umax) : 0; e->kz |= m & ~maskOf(lz); if (lz == 0) e->kz = m; }
}

Expr* intern(Kind k, unsigned w, uint32_t aux, Expr* const* ks, uint32_t nk, const uint64_t* cw = nullptr) {
  uint32_t h = hmix(k * 0x9E3779B9u + w, aux);
  for (uint32_t i = 0; i < nk; i++) h = hmix(h, ks[i]->id);
  if (k == K_Const) for (unsigned i = 0; i < (w + 63) / 64; i++) h = hmix(h, cw[i]);
  size_t msk = tab.size() - 1, i = h & msk;
  while (tab[i]) { if (tab[i]->hash == h && sameNode(tab[i], k, w, aux, ks, nk, cw)) return tab[i]; i = (i + 1) & msk; }
  Expr* e = (Expr*)A.get(sizeof(Expr)); memset(e, 0, sizeof *e);
  e->kind = k; e->width = w; e->aux = aux; e->hash = h; e->id = cnt++; e->nk = nk;
  if (nk) { e->k = (Expr**)A.get(nk * sizeof(Expr*)); memcpy(e->k, ks, nk * sizeof(Expr*)); }
  if (k == K_Const) { unsigned n = (w + 63) / 64; e->w = (uint64_t*)A.get(n * 8); memcpy(e->w, cw, n * 8); }
  computeInfo(e);
  tab[i] = e;
  if (cnt * 2 > tab.size()) {
    std::vector<Expr*> nt(tab.size() * 2, nullptr); size_t nm = nt.size() - 1;
    for (Expr* x : tab) if (x) { size_t j = x->hash & nm; while (nt[j]) j = (j + 1) & nm; nt[j] = x; }
    tab.swap(nt);
  }
  return e;
}
Expr* node2(Kind k, unsigned w, Expr* a, Expr* b) { Expr* ks[2] = {a, b}; return intern(k, w, 0, ks, 2); }
} // namespace

size_t exprCount() { return cnt; }

const VarSet* vsUnion(const VarSet* a, const VarSet* b) {
  if (a == b || b->v.empty()) return a;
  if (a->v.empty()) return b;
  if (a->id > b->id) std::swap(a, b);
  uint64_t key = ((uint64_t)a->id << 32) | b->id;
  auto it = vsU.find(key); if (it != vsU.end()) return it->second;
  std::vector<uint32_t> r; r.reserve(a->v.size() + b->v.size());
  std::set_union(a->v.begin(), a->v.end(), b->v.begin(), b->v.end(), std::back_inserter(r));
  return vsU[key] = vsIntern(r);
}

Expr* mkConst(uint64_t v, unsigned w) {
  if (w > 64) return mkConstAP(APInt(w, v));
  v &= maskOf(w);
  return intern(K_Const, w, 0, nullptr, 0, &v);
}
Expr* mkConstAP(const APInt& v) { return intern(K_Const, v.getBitWidth(), 0, nullptr, 0, v.getRawData()); }
APInt constAP(const Expr* e) { return APInt(e->width, llvm::ArrayRef<uint64_t>(e->w, (e->width + 63) / 64)); }

Expr* mkSym(const std::string& name, unsigned w, bool uninit) {
  static std::unordered_map<std::string, uint32_t> byName;
  auto it = byName.find(name);
  if (it != byName.end()) return g_syms[it->second].e;
  uint32_t id = g_syms.size(); byName[name] = id;
  Expr* e = intern(K_Sym, w, id, nullptr, 0);
  g_syms.push_back({name, (uint16_t)w, uninit, e});
  return e;
}

static bool isZero(const Expr* e) { if (!e->isConst()) return false; for (unsigned i = 0; i < (e->width + 63u) / 64; i++) if (e->w[i]) return false; return true; }
static bool isOnes(const Expr* e) { return e->isConst() && constAP(e).isAllOnes(); }
static bool isOneC(const Expr* e) { if (!e->isConst() || e->w[0] != 1) return false; for (unsigned i = 1; i < (e->width + 63u) / 64; i++) if (e->w[i]) return false; return true; }

static uint64_t foldU(Kind k, uint64_t a, uint64_t b, unsigned w) {
  uint64_t m = maskOf(w);
  switch (k) {
    case K_Add: return (a + b) & m; case K_Sub: return (a - b) & m; case K_Mul: return (a * b) & m;
    case K_UDiv: return b ? a / b : m; case K_URem: return b ? a % b : a;
    case K_SDiv: { int64_t x = sx(a, w), y = sx(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (uint64_t)(0 - (uint64_t)x) & m; return (uint64_t)(x / y) & m; }
    case K_SRem: { int64_t x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (uint64_t)(x % y) & m; }
    case K_And: return a & b; case K_Or: return a | b; case K_Xor: return a ^ b;
    case K_Shl: return b >= w ? 0 : (a << b) & m; case K_LShr: return b >= w ? 0 : a >> b;
    case K_AShr: { int64_t x = sx(a, w); return (uint64_t)(b >= w ? (x < 0 ? -1 : 0) : (x >> b)) & m; }
    case K_Eq: return a == b; case K_Ult: return a < b; case K_Ule: return a <= b;
    case K_Slt: return sx(a, w) < sx(b, w); case K_Sle: return sx(a, w) <= sx(b, w);
    default: abort();
  }
}
static APInt foldAP(Kind k, const APInt& a, const APInt& b) {
  unsigned w = a.getBitWidth();
  auto B = [](bool x) { return APInt(1, x); };
  switch (k) {
    case K_Add: return a + b; case K_Sub: return a - b; case K_Mul: return a * b;
    case K_UDiv: return b.isZero() ? APInt::getAllOnes(w) : a.udiv(b);
    case K_URem: return b.isZero() ? a : a.urem(b);
    case K_SDiv: return b.isZero() ? (a.isNegative() ? APInt(w, 1) : APInt::getAllOnes(w)) : a.sdiv(b);
    case K_SRem: return b.isZero() ? a : a.srem(b);
    case K_And: return a & b; case K_Or: return a | b; case K_Xor: return a ^ b;
    case K_Shl: return b.uge(w) ? APInt(w, 0) : a.shl(b); case K_LShr: return b.uge(w) ? APInt(w, 0) : a.lshr(b);
    case K_AShr: return b.uge(w) ? (a.isNegative() ? APInt::getAllOnes(w) : APInt(w, 0)) : a.ashr(b);
    case K_Eq: return B(a == b); case K_Ult: return B(a.ult(b)); case K_Ule: return B(a.ule(b));
    case K_Slt: return B(a.slt(b)); case K_Sle: return B(a.sle(b));
    default: abort();
  }
}
static bool isCmp(Kind k) { return k >= K_Eq && k <= K_Sle; }
static bool isComm(Kind k) { return k == K_Add || k == K_Mul || k == K_And || k == K_Or || k == K_Xor || k == K_Eq; }

Expr* mkNot(Expr* e) {
  if (e->width == 1) {
    if (e->isConst()) return mkConst(!e->c(), 1);
    switch (e->kind) {
      case K_Ult: return mkBin(K_Ule, e->k[1], e->k[0]);
      case K_Ule: return mkBin(K_Ult, e->k[1], e->k[0]);
      case K_Slt: return mkBin(K_Sle, e->k[1], e->k[0]);
      case K_Sle: return mkBin(K_Slt, e->k[1], e->k[0]);
      default: break;
    }
  }
  return mkBin(K_Xor, e, mkConstAP(APInt::getAllOnes(e->width)));
}

// split a value into segments (hi->lo) where each segment is zero or arbitrary
static void segs(Expr* e, std::vector<Expr*>& out) {
  if (e->kind == K_Concat) { segs(e->k[0], out); segs(e->k[1], out); }
  else if (e->kind == K_ZExt) { out.push_back(mkConst(0, e->width - e->k[0]->width)); segs(e->k[0], out); }
  else out.push_back(e);
}
// try to merge a|b (or a+b, a^b) with disjoint segments into a concat
static Expr* mergeDisjoint(Expr* a, Expr* b) {
  bool sa = a->kind == K_Concat || a->kind == K_ZExt, sb = b->kind == K_Concat || b->kind == K_ZExt;
  if (!sa || !sb) return nullptr;
  std::vector<Expr*> x, y; segs(a, x); segs(b, y);
  // cut points from the low end
  std::vector<unsigned> cuts; unsigned w = a->width;
  unsigned p = 0; for (size_t i = x.size(); i-- > 0;) { p += x[i]->width; cuts.push_back(p); }
  p = 0; for (size_t i = y.size(); i-- > 0;) { p += y[i]->width; cuts.push_back(p); }
  std::sort(cuts.begin(), cuts.end()); cuts.erase(std::unique(cuts.begin(), cuts.end()), cuts.end());
  if (cuts.back() != w) return nullptr;
  // check disjointness first
  auto zeroAt = [](const std::vector<Expr*>& s, unsigned lo, unsigned hi) {
    unsigned q = 0; for (size_t i = s.size(); i-- > 0;) { unsigned n = q + s[i]->width; if (lo >= q && hi <= n) return isZero(s[i]); q = n; } return false; };
  unsigned lo = 0;
  for (unsigned c : cuts) { if (!zeroAt(x, lo, c) && !zeroAt(y, lo, c)) return nullptr; lo = c; }
  Expr* r = nullptr; lo = 0;
  for (unsigned c : cuts) {
    Expr* part = zeroAt(x, lo, c) ? mkExtract(b, lo, c - lo) : mkExtract(a, lo, c - lo);
    r = r ? mkConcat(part, r) : part; lo = c;
  }
  return r;
}

static Expr* andMask(Expr* a, const APInt& m) {
  // decompose a & mask into segments when the mask consists of few runs
  unsigned w = a->width; unsigned runs = 0; bool prev = false;
  for (unsigned i = 0; i < w; i++) { bool b = m[i]; if (b != prev) runs++; prev = b; }
  if (runs > 8) return nullptr;
  Expr* r = nullptr; unsigned i = 0;
  while (i < w) { unsigned j = i; while (j < w && m[j] == m[i]) j++;
    Expr* part = m[i] ? mkExtract(a, i, j - i) : mkConst(0, j - i);
    r = r ? mkConcat(part, r) : part; i = j; }
  return r;
}

// Linear normal form modulo 2^w: e*m = sum of coeff*term + konst (terms are leaves, widened where that loses nothing).
struct Lin { unsigned w; uint64_t konst = 0; std::map<Expr*, uint64_t> t; unsigned steps = 0; };
static bool linAdd(Expr* e, uint64_t m, Lin& l) { // m has a factor 2^(w - width of e)
  if (!m) return true;
  if (++l.steps > 4000 || l.t.size() > 200) return false;
  unsigned ew = e->width; uint64_t M = maskOf(l.w);
  switch (e->kind) {
    case K_Const: l.konst = (l.konst + m * e->c()) & M; return true;
    case K_Add: return linAdd(e->k[0], m, l) && linAdd(e->k[1], m, l);
    case K_Sub: return linAdd(e->k[0], m, l) && linAdd(e->k[1], -m & M, l);
    case K_Mul: if (e->k[1]->isConst()) return linAdd(e->k[0], (m * e->k[1]->c()) & M, l); break;
    case K_Shl: if (e->k[1]->isConst() && e->k[1]->c() < ew) return linAdd(e->k[0], (m << e->k[1]->c()) & M, l); break;
    case K_Xor: if (e->k[1]->isConst() && isOnes(e->k[1])) { l.konst = (l.konst - m) & M; return linAdd(e->k[0], -m & M, l); } break;
    case K_Concat: { Expr *h = e->k[0], *lo = e->k[1];
      return linAdd(mkZExt(lo, l.w), m, l) && linAdd(h, (m << lo->width) & M, l); }
    case K_Extract: if (!e->aux && e->k[0]->width <= l.w) return linAdd(e->k[0], m, l); break;
    case K_SExt: if (ew < l.w) e = mkSExt(e->k[0], l.w); break;
    case K_ZExt: if (ew < l.w) e = mkZExt(e->k[0], l.w); break;
    default: break;
  }
  uint64_t& c = l.t[e]; c = (c + m) & M; if (!c) l.t.erase(e);
  return true;
}
static int linDiff(Expr* a, Expr* b) {
  Lin l; l.w = a->width;
  if (!linAdd(a, 1, l) || !linAdd(b, maskOf(l.w), l)) return -1;
  for (bool again = !l.t.empty(); again;) { // how a leaf is widened does not matter when its coefficient shifts the difference out
    again = false;
    for (auto& x : l.t) {
      Expr* e = x.first; Expr* in = e->kind == K_ZExt && e->width == l.w ? e->k[0] : e->width < l.w ? e : nullptr;
      if (!in || (x.second << in->width & maskOf(l.w))) continue;
      Expr* to = mkSExt(in, l.w); if (to == e || !l.t.count(to)) continue;
      uint64_t m = x.second; l.t.erase(e); uint64_t& c = l.t[to]; c = (c + m) & maskOf(l.w); if (!c) l.t.erase(to);
      again = true; break;
    }
  }
  if (!l.t.empty()) return -1;
  return l.konst == 0;
}
static bool linKind(Expr* e) { return e->kind == K_Add || e->kind == K_Sub || e->kind == K_Mul || e->kind == K_Shl || e->kind == K_Concat; }

static Expr* simpEq(Expr* a, Expr* b) {
  unsigned w = a->width;
  if (a == b) return mkConst(1, 1);
  if (a->isConst()) std::swap(a, b);
  if (w == 1 && b->isConst()) return b->c() ? a : mkNot(a);
  if (w <= 64 && (a->umax < b->umin || b->umax < a->umin)) return mkConst(0, 1);
  if (b->isConst()) {
    if (w <= 64 && (b->c() & a->kz)) return mkConst(0, 1);
    switch (a->kind) {
      case K_ZExt: { Expr* x = a->k[0]; APInt c = constAP(b); if (c.getActiveBits() > x->width) return mkConst(0, 1); return simpEq(x, mkConstAP(c.trunc(x->width))); }
      case K_SExt: { Expr* x = a->k[0]; APInt c = constAP(b); APInt t = c.trunc(x->width); if (t.sext(w) != c) return mkConst(0, 1); return simpEq(x, mkConstAP(t)); }
      case K_Concat: { APInt c = constAP(b); Expr *h = a->k[0], *l = a->k[1];
        Expr* r1 = simpEq(l, mkConstAP(c.trunc(l->width))); if (r1->isConst() && !r1->c()) return r1;
        Expr* r2 = simpEq(h, mkConstAP(c.lshr(l->width).trunc(h->width))); return mkBin(K_And, r1, r2); }
      case K_Add: if (a->k[1]->isConst()) return simpEq(a->k[0], mkBin(K_Sub, b, a->k[1])); break;
      case K_Sub: if (a->k[0]->isConst()) return simpEq(a->k[1], mkBin(K_Sub, a->k[0], b)); if (isZero(b)) return simpEq(a->k[0], a->k[1]); break;
      case K_Xor: if (a->k[1]->isConst()) return simpEq(a->k[0], mkBin(K_Xor, b, a->k[1])); if (isZero(b)) return simpEq(a->k[0], a->k[1]); break;
      case K_Or: if (isZero(b)) return mkBin(K_And, simpEq(a->k[0], b), simpEq(a->k[1], b)); break;
      case K_Ite: {
        Expr *x = a->k[1], *y = a->k[2];
        if (x->isConst() || y->isConst() || x->kind == K_Ite || y->kind == K_Ite) {
          Expr* ex = simpEq(x, b); Expr* ey = simpEq(y, b);
          if (ex->isConst() || ey->isConst()) return mkIte(a->k[0], ex, ey);
        } break; }
      case K_Mul: // odd constant multiplier is invertible
        if (w <= 64 && a->k[1]->isConst() && (a->k[1]->c() & 1)) {
          uint64_t c = a->k[1]->c(), inv = c; for (int i = 0; i < 6; i++) inv *= 2 - c * inv;
          return simpEq(a->k[0], mkConst((inv * b->c()) & maskOf(w), w)); }
        break;
      default: break;
    }
  } else {
    if (a->kind == K_ZExt && b->kind == K_ZExt) {
      unsigned m = std::max(a->k[0]->width, b->k[0]->width);
      return simpEq(mkZExt(a->k[0], m), mkZExt(b->k[0], m)); }
    if (a->kind == K_SExt && b->kind == K_SExt) {
      unsigned m = std::max(a->k[0]->width, b->k[0]->width);
      return simpEq(mkSExt(a->k[0], m), mkSExt(b->k[0], m)); }
    if (a->kind == K_Concat && b->kind == K_Concat && a->k[1]->width == b->k[1]->width)
      return mkBin(K_And, simpEq(a->k[1], b->k[1]), simpEq(a->k[0], b->k[0]));
    if (a->kind == K_Add && b->kind == K_Add) {
      if (a->k[0] == b->k[0]) return simpEq(a->k[1], b->k[1]);
      if (a->k[1] == b->k[1]) return simpEq(a->k[0], b->k[0]);
    }
    if (a->kind == K_Add && (a->k[0] == b || a->k[1] == b)) return simpEq(a->k[0] == b ? a->k[1] : a->k[0], mkConst(0, w));
    if (b->kind == K_Add && (b->k[0] == a || b->k[1] == a)) return simpEq(b->k[0] == a ? b->k[1] : b->k[0], mkConst(0, w));
    if (w <= 64 && a->kind == K_ZExt && b->kind != K_ZExt) {
      unsigned nw = a->k[0]->width; // narrow when the other side is known small
      if (!(~b->kz & maskOf(w) & ~maskOf(nw))) return simpEq(a->k[0], mkExtract(b, 0, nw));
    } else if (w <= 64 && b->kind == K_ZExt && a->kind != K_ZExt) {
      unsigned nw = b->k[0]->width;
      if (!(~a->kz & maskOf(w) & ~maskOf(nw))) return simpEq(b->k[0], mkExtract(a, 0, nw));
    }
  }
  if (!b->isConst() && w > 8 && w <= 64 && a->vars == b->vars && linKind(a) && linKind(b)) { int d = linDiff(a, b); if (d >= 0) return mkConst(d, 1); }
  if (!b->isConst() && a->id > b->id) std::swap(a, b);
  return node2(K_Eq, 1, a, b);
}

static Expr* simpUlt(Expr* a, Expr* b) {
  unsigned w = a->width;
  if (a == b) return mkConst(0, 1);
  if (w <= 64) { if (a->umax < b->umin) return mkConst(1, 1); if (a->umin >= b->umax) return mkConst(0, 1); }
  if (isZero(b)) return mkConst(0, 1);
  if (w == 1) return mkBin(K_And, mkNot(a), b);
  if (b->isConst() && isOneC(b)) return simpEq(a, mkConst(0, w));
  if (a->isConst() && isZero(a)) return mkNot(simpEq(b, a));
  auto nar = [&](Expr* x) -> unsigned { if (x->kind == K_ZExt) return x->k[0]->width; if (x->isConst()) { unsigned n = constAP(x).getActiveBits(); return n ? n : 1; } return w; };
  unsigned na = nar(a), nb = nar(b), m = std::max(na, nb);
  if (m < w) {
    if (a->isConst() && na > nb) return mkConst(0, 1);
    if (b->isConst() && nb > na) return mkConst(1, 1);
    return simpUlt(mkExtract(a, 0, m), mkExtract(b, 0, m));
  }
  if (b->isConst() && a->kind == K_Concat && isZero(mkExtract(b, 0, a->k[1]->width))) return simpUlt(a->k[0], mkExtract(b, a->k[1]->width, a->k[0]->width));
  if (a->kind == K_Ite && b->isConst() && (a->k[1]->isConst() || a->k[2]->isConst())) {
    Expr *x = simpUlt(a->k[1], b), *y = simpUlt(a->k[2], b); if (x->isConst() || y->isConst()) return mkIte(a->k[0], x, y); }
  if (b->kind == K_Ite && a->isConst() && (b->k[1]->isConst() || b->k[2]->isConst())) {
    Expr *x = simpUlt(a, b->k[1]), *y = simpUlt(a, b->k[2]); if (x->isConst() || y->isConst()) return mkIte(b->k[0], x, y); }
  return node2(K_Ult, 1, a, b);
}
static Expr* simpUle(Expr* a, Expr* b) {
  if (a == b) return mkConst(1, 1);
  unsigned w = a->width;
  if (w <= 64) { if (a->umax <= b->umin) return mkConst(1, 1); if (a->umin > b->umax) return mkConst(0, 1); }
  if (b->isConst()) { APInt c = constAP(b); if (c.isAllOnes()) return mkConst(1, 1); return simpUlt(a, mkConstAP(c + 1)); }
  if (a->isConst()) { APInt c = constAP(a); if (c.isZero()) return mkConst(1, 1); return simpUlt(mkConstAP(c - 1), b); }
  if (w == 1) return mkBin(K_Or, mkNot(a), b);
  if (a->kind == K_ZExt && b->kind == K_ZExt) { unsigned m = std::max(a->k[0]->width, b->k[0]->width); return simpUle(mkZExt(a->k[0], m), mkZExt(b->k[0], m)); }
  return node2(K_Ule, 1, a, b);
}
static bool nonNeg(Expr* e) { if (e->width > 64) return e->kind == K_ZExt || (e->isConst() && !constAP(e).isNegative()) || (e->kind == K_Concat && isZero(e->k[0])); return e->umax <= (maskOf(e->width) >> 1); }
static Expr* simpSlt(Expr* a, Expr* b) {
  unsigned w = a->width;
  if (a == b) return mkConst(0, 1);
  if (nonNeg(a) && nonNeg(b)) return simpUlt(a, b);
  if (w <= 64) { // signed interval via bias when either side does not straddle
    uint64_t sb = 1ULL << (w - 1);
    auto neg = [&](Expr* x) { return x->umin >= sb; };
    if (neg(a) && nonNeg(b)) return mkConst(1, 1);
    if (nonNeg(a) && neg(b)) return mkConst(0, 1);
    if (neg(a) && neg(b)) return simpUlt(a, b);
  }
  auto nar = [&](Expr* x) -> unsigned { if (x->kind == K_SExt) return x->k[0]->width; if (x->kind == K_ZExt) return x->k[0]->width + 1; if (x->isConst()) return constAP(x).getSignificantBits(); return w; };
  unsigned na = nar(a), nb = nar(b), m = std::max(na, nb);
  if (m < w) {
    if (a->isConst() && na > nb) return mkConst(constAP(a).isNegative(), 1);
    if (b->isConst() && nb > na) return mkConst(!constAP(b).isNegative(), 1);
    return simpSlt(mkExtract(a, 0, m), mkExtract(b, 0, m));
  }
  if (a->kind == K_Ite && b->isConst() && (a->k[1]->isConst() || a->k[2]->isConst())) {
    Expr *x = simpSlt(a->k[1], b), *y = simpSlt(a->k[2], b); if (x->isConst() || y->isConst()) return mkIte(a->k[0], x, y); }
  if (b->kind == K_Ite && a->isConst() && (b->k[1]->isConst() || b->k[2]->isConst())) {
    Expr *x = simpSlt(a, b->k[1]), *y = simpSlt(a, b->k[2]); if (x->isConst() || y->isConst()) return mkIte(b->k[0], x, y); }
  return node2(K_Slt, 1, a, b);
}
static Expr* simpSle(Expr* a, Expr* b) {
  if (a == b) return mkConst(1, 1);
  if (b->isConst()) { APInt c = constAP(b); if (c.isMaxSignedValue()) return mkConst(1, 1); return simpSlt(a, mkConstAP(c + 1)); }
  if (a->isConst()) { APInt c = constAP(a); if (c.isMinSignedValue()) return mkConst(1, 1); return simpSlt(mkConstAP(c - 1), b); }
  if (nonNeg(a) && nonNeg(b)) return simpUle(a, b);
  if (a->kind == K_SExt && b->kind == K_SExt) { unsigned m = std::max(a->k[0]->width, b->k[0]->width); return simpSle(mkSExt(a->k[0], m), mkSExt(b->k[0], m)); }
  return node2(K_Sle, 1, a, b);
}

Expr* mkBin(Kind k, Expr* a, Expr* b) {
  unsigned w = a->width;
  if (a->width != b->width) { fprintf(stderr, "width mismatch kind %d: %u %u\n", k, a->width, b->width); abort(); }
  if (a->isConst() && b->isConst()) {
    unsigned rw = isCmp(k) ? 1 : w;
    if (w <= 64) return mkConst(foldU(k, a->c(), b->c(), w), rw);
    return mkConstAP(foldAP(k, constAP(a), constAP(b)));
  }
  if (isComm(k) && a->isConst()) std::swap(a, b);
  switch (k) {
    case K_Eq: return simpEq(a, b);
    case K_Ult: return simpUlt(a, b);
    case K_Ule: return simpUle(a, b);
    case K_Slt: return simpSlt(a, b);
    case K_Sle: return simpSle(a, b);
    case K_Add:
      if (isZero(b)) return a;
      if (w == 1) return mkBin(K_Xor, a, b);
      if (b->isConst()) {
        if (a->kind == K_Add && a->k[1]->isConst()) return mkBin(K_Add, a->k[0], mkBin(K_Add, a->k[1], b));
        if (a->kind == K_Sub && a->k[0]->isConst()) return mkBin(K_Sub, mkBin(K_Add, a->k[0], b), a->k[1]);
        if (a->kind == K_Ite && a->k[1]->isConst() && a->k[2]->isConst()) return mkIte(a->k[0], mkBin(K_Add, a->k[1], b), mkBin(K_Add, a->k[2], b));
        if (w <= 64 && !(b->c() & ~a->kz & maskOf(w)) && (a->kind == K_Concat || a->kind == K_ZExt)) return mkBin(K_Or, a, b);
        // low constant bits zero: operate on the high part only
        if (a->kind == K_Concat && isZero(mkExtract(b, 0, a->k[1]->width)))
          return mkConcat(mkBin(K_Add, a->k[0], mkExtract(b, a->k[1]->width, a->k[0]->width)), a->k[1]);
      } else {
        if (a->kind == K_Add && a->k[1]->isConst()) return mkBin(K_Add, mkBin(K_Add, a->k[0], b), a->k[1]);
        if (b->kind == K_Add && b->k[1]->isConst()) return mkBin(K_Add, mkBin(K_Add, a, b->k[0]), b->k[1]);
        if (a->kind == K_Sub && a->k[1] == b) return a->k[0];
        if (b->kind == K_Sub && b->k[1] == a) return b->k[0];
        if (w <= 64 && !((~a->kz) & (~b->kz) & maskOf(w))) { if (Expr* r = mergeDisjoint(a, b)) return r; }
        else if (w > 64) { if (Expr* r = mergeDisjoint(a, b)) return r; }
        if (a->id > b->id) std::swap(a, b);
      }
      break;
    case K_Sub:
      if (a == b) return mkConst(0, w);
      if (b->isConst()) return mkBin(K_Add, a, mkConstAP(-constAP(b)));
      if (w == 1) return mkBin(K_Xor, a, b);
      if (a->kind == K_Add) {
        if (a->k[0] == b) return a->k[1];
        if (a->k[1] == b) return a->k[0];
        if (a->k[1]->isConst()) return mkBin(K_Add, mkBin(K_Sub, a->k[0], b), a->k[1]);
      }
      if (b->kind == K_Add && b->k[1]->isConst()) return mkBin(K_Sub, mkBin(K_Sub, a, b->k[1]), b->k[0]);
      break;
    case K_Mul:
      if (isZero(b)) return b;
      if (isOneC(b)) return a;
      if (w == 1) return mkBin(K_And, a, b);
      if (b->isConst()) { APInt c = constAP(b); if (c.isPowerOf2()) return mkBin(K_Shl, a, mkConst(c.logBase2(), w));
        if (a->kind == K_Mul && a->k[1]->isConst()) return mkBin(K_Mul, a->k[0], mkBin(K_Mul, a->k[1], b));
        if (a->kind == K_Add && a->k[1]->isConst()) return mkBin(K_Add, mkBin(K_Mul, a->k[0], b), mkBin(K_Mul, a->k[1], b)); }
      else if (a->id > b->id) std::swap(a, b);
      break;
    case K_UDiv:
      if (isOneC(b)) return a;
      if (b->isConst()) { APInt c = constAP(b); if (c.isPowerOf2()) return mkBin(K_LShr, a, mkConst(c.logBase2(), w));
        if (w <= 64 && a->umax < b->c()) return mkConst(0, w);
        if (!c.isZero() && a->kind == K_ZExt) { unsigned n = std::max<unsigned>(a->k[0]->width, c.getActiveBits()); if (n < w) return mkZExt(mkBin(K_UDiv, mkZExt(a->k[0], n), mkConstAP(c.trunc(n))), w); }
        if (w <= 64 && w > 8 && !c.isZero()) { unsigned n = std::max<unsigned>(64 - __builtin_clzll(a->umax | 1), c.getActiveBits()); if (n < w) return mkZExt(mkBin(K_UDiv, mkExtract(a, 0, n), mkConstAP(c.trunc(n))), w); }
      }
      break;
    case K_URem:
      if (isOneC(b)) return mkConst(0, w);
      if (b->isConst()) { APInt c = constAP(b); if (c.isPowerOf2()) return mkBin(K_And, a, mkConstAP(c - 1));
        if (w <= 64 && a->umax < b->c()) return a;
        if (!c.isZero() && a->kind == K_ZExt) { unsigned n = std::max<unsigned>(a->k[0]->width, c.getActiveBits()); if (n < w) return mkZExt(mkBin(K_URem, mkZExt(a->k[0], n), mkConstAP(c.trunc(n))), w); }
        if (w <= 64 && w > 8 && !c.isZero()) { unsigned n = std::max<unsigned>(64 - __builtin_clzll(a->umax | 1), c.getActiveBits()); if (n < w) return mkZExt(mkBin(K_URem, mkExtract(a, 0, n), mkConstAP(c.trunc(n))), w); }
      }
      break;
    case K_SDiv:
      if (nonNeg(a) && nonNeg(b)) return mkBin(K_UDiv, a, b);
      if (isOneC(b)) return a;
      break;
    case K_SRem:
      if (nonNeg(a) && nonNeg(b)) return mkBin(K_URem, a, b);
      break;
    case K_And:
      if (a == b) return a;
      if (isZero(b)) return b;
      if (isOnes(b)) return a;
      if (b->isConst()) {
        if (a->kind == K_And && a->k[1]->isConst()) return mkBin(K_And, a->k[0], mkBin(K_And, a->k[1], b));
        if (w <= 64 && !(~b->c() & ~a->kz & maskOf(w))) return a;
        if (a->kind == K_Ite && (a->k[1]->isConst() && a->k[2]->isConst())) return mkIte(a->k[0], mkBin(K_And, a->k[1], b), mkBin(K_And, a->k[2], b));
        if (Expr* r = andMask(a, constAP(b))) return r;
      } else {
        if (w == 1) {
          if (a == mkNot(b)) return mkConst(0, 1);
          if (a->kind == K_And && (a->k[0] == b || a->k[1] == b)) return a;
          if (b->kind == K_And && (b->k[0] == a || b->k[1] == a)) return b;
          if (a->kind == K_Or && (a->k[0] == b || a->k[1] == b)) return b;
          if (b->kind == K_Or && (b->k[0] == a || b->k[1] == a)) return a;
          // x==c1 && x!=c2  ->  x==c1 ; x==c1 && x==c2 -> false
          auto eqc = [](Expr* x, Expr*& t, Expr*& c) { if (x->kind == K_Eq && x->k[1]->isConst()) { t = x->k[0]; c = x->k[1]; return true; } return false; };
          auto nec = [&](Expr* x, Expr*& t, Expr*& c) { return x->kind == K_Xor && x->width == 1 && isOneC(x->k[1]) && eqc(x->k[0], t, c); };
          Expr *t1, *c1, *t2, *c2;
          if (eqc(a, t1, c1) && eqc(b, t2, c2) && t1 == t2 && c1 != c2) return mkConst(0, 1);
          if (eqc(a, t1, c1) && nec(b, t2, c2) && t1 == t2 && c1 != c2) return a;
          if (nec(a, t1, c1) && eqc(b, t2, c2) && t1 == t2 && c1 != c2) return b;
        } else if ((a->kind == K_Concat || a->kind == K_ZExt) && (b->kind == K_Concat || b->kind == K_ZExt)) {
          // bitwise over aligned concats
          unsigned cut = a->kind == K_Concat ? a->k[1]->width : a->k[0]->width;
          unsigned cut2 = b->kind == K_Concat ? b->k[1]->width : b->k[0]->width;
          if (cut == cut2 || a->kind == K_ZExt || b->kind == K_ZExt) { unsigned c = std::min(cut, cut2);
            return mkConcat(mkBin(K_And, mkExtract(a, c, w - c), mkExtract(b, c, w - c)), mkBin(K_And, mkExtract(a, 0, c), mkExtract(b, 0, c))); }
        }
        if (a->id > b->id) std::swap(a, b);
      }
      break;
    case K_Or:
      if (a == b) return a;
      if (isZero(b)) return a;
      if (isOnes(b)) return b;
      if (w == 1) {
        if (a == mkNot(b)) return mkConst(1, 1);
        if (a->kind == K_Or && (a->k[0] == b || a->k[1] == b)) return a;
        if (b->kind == K_Or && (b->k[0] == a || b->k[1] == a)) return b;
        if (a->kind == K_And && (a->k[0] == b || a->k[1] == b)) return b;
        if (b->kind == K_And && (b->k[0] == a || b->k[1] == a)) return a;
      } else {
        if (b->isConst()) {
          if (a->kind == K_Or && a->k[1]->isConst()) return mkBin(K_Or, a->k[0], mkBin(K_Or, a->k[1], b));
          if (a->kind == K_Ite && a->k[1]->isConst() && a->k[2]->isConst()) return mkIte(a->k[0], mkBin(K_Or, a->k[1], b), mkBin(K_Or, a->k[2], b));
          // or with constant: constant runs replace bits
          APInt m = constAP(b); unsigned runs = 0; bool prev = false; for (unsigned i = 0; i < w; i++) { if (m[i] != prev) runs++; prev = m[i]; }
          if (runs <= 8) { Expr* r = nullptr; unsigned i = 0;
            while (i < w) { unsigned j = i; while (j < w && m[j] == m[i]) j++;
              Expr* part = m[i] ? mkConstAP(APInt::getAllOnes(j - i)) : mkExtract(a, i, j - i);
              r = r ? mkConcat(part, r) : part; i = j; }
            return r; }
        }
        if (Expr* r = mergeDisjoint(a, b)) return r;
        if ((a->kind == K_Concat || a->kind == K_ZExt) && (b->kind == K_Concat || b->kind == K_ZExt)) {
          unsigned cut = a->kind == K_Concat ? a->k[1]->width : a->k[0]->width;
          unsigned cut2 = b->kind == K_Concat ? b->k[1]->width : b->k[0]->width;
          if (cut == cut2 || a->kind == K_ZExt || b->kind == K_ZExt) { unsigned c = std::min(cut, cut2);
            return mkConcat(mkBin(K_Or, mkExtract(a, c, w - c), mkExtract(b, c, w - c)), mkBin(K_Or, mkExtract(a, 0, c), mkExtract(b, 0, c))); }
        }
      }
      if (!b->isConst() && a->id > b->id) std::swap(a, b);
      break;
    case K_Xor:
      if (a == b) return mkConst(0, w);
      if (isZero(b)) return a;
      if (b->isConst()) {
        if (a->kind == K_Xor && a->k[1]->isConst()) return mkBin(K_Xor, a->k[0], mkBin(K_Xor, a->k[1], b));
        if (a->kind == K_Ite && a->k[1]->isConst() && a->k[2]->isConst()) return mkIte(a->k[0], mkBin(K_Xor, a->k[1], b), mkBin(K_Xor, a->k[2], b));
        if (w > 1 && (a->kind == K_Concat || a->kind == K_ZExt)) {
          unsigned c = a->kind == K_Concat ? a->k[1]->width : a->k[0]->width;
          return mkConcat(mkBin(K_Xor, mkExtract(a, c, w - c), mkExtract(b, c, w - c)), mkBin(K_Xor, mkExtract(a, 0, c), mkExtract(b, 0, c))); }
        if (w == 1 && (a->kind == K_Ult || a->kind == K_Ule || a->kind == K_Slt || a->kind == K_Sle)) return mkNot(a);
      } else {
        if (a->kind == K_Xor) { if (a->k[0] == b) return a->k[1]; if (a->k[1] == b) return a->k[0]; if (a->k[1]->isConst()) return mkBin(K_Xor, mkBin(K_Xor, a->k[0], b), a->k[1]); }
        if (b->kind == K_Xor) { if (b->k[0] == a) return b->k[1]; if (b->k[1] == a) return b->k[0]; if (b->k[1]->isConst()) return mkBin(K_Xor, mkBin(K_Xor, a, b->k[0]), b->k[1]); }
        if (w > 1) { if (Expr* r = mergeDisjoint(a, b)) return r;
        if ((a->kind == K_Concat || a->kind == K_ZExt) && (b->kind == K_Concat || b->kind == K_ZExt)) {
          unsigned cut = a->kind == K_Concat ? a->k[1]->width : a->k[0]->width;
          unsigned cut2 = b->kind == K_Concat ? b->k[1]->width : b->k[0]->width;
          if (cut == cut2 || a->kind == K_ZExt || b->kind == K_ZExt) { unsigned c = std::min(cut, cut2);
            return mkConcat(mkBin(K_Xor, mkExtract(a, c, w - c), mkExtract(b, c, w - c)), mkBin(K_Xor, mkExtract(a, 0, c), mkExtract(b, 0, c))); }
        } }
        if (a->id > b->id) std::swap(a, b);
      }
      break;
    case K_Shl: case K_LShr: case K_AShr:
      if (isZero(b)) return a;
      if (isZero(a)) return a;
      if (b->isConst()) {
        APInt s = constAP(b);
        if (s.uge(w)) { if (k != K_AShr) return mkConst(0, w); s = APInt(w, w - 1); }
        unsigned n = s.getZExtValue();
        if (k == K_Shl) return mkConcat(mkExtract(a, 0, w - n), mkConst(0, n));
        if (k == K_LShr) return mkZExt(mkExtract(a, n, w - n), w);
        return mkSExt(mkExtract(a, n, w - n), w);
      }
      break;
    default: break;
  }
  return node2(k, isCmp(k) ? 1 : w, a, b);
}

Expr* mkIte(Expr* c, Expr* a, Expr* b) {
  if (c->isConst()) return c->c() ? a : b;
  if (a == b) return a;
  if (c->kind == K_Xor && c->width == 1 && isOneC(c->k[1])) return mkIte(c->k[0], b, a);
  if (a->width == 1) {
    if (a->isConst()) return a->c() ? mkBin(K_Or, c, b) : mkBin(K_And, mkNot(c), b);
    if (b->isConst()) return b->c() ? mkBin(K_Or, mkNot(c), a) : mkBin(K_And, c, a);
  }
  if (a->kind == K_Ite && a->k[0] == c) return mkIte(c, a->k[1], b);
  if (b->kind == K_Ite && b->k[0] == c) return mkIte(c, a, b->k[2]);
  // push through common extensions
  if (a->kind == K_ZExt && b->kind == K_ZExt && a->k[0]->width == b->k[0]->width) return mkZExt(mkIte(c, a->k[0], b->k[0]), a->width);
  if (a->width > 1 && a->width <= 64) {
    uint64_t used = ~(a->kz & b->kz) & maskOf(a->width); unsigned n = used ? 64 - __builtin_clzll(used) : 1;
    if (n < a->width) return mkZExt(mkIte(c, mkExtract(a, 0, n), mkExtract(b, 0, n)), a->width);
    if (n == 1 && a->width == 1) {}
  }
  if (a->isConst() && b->isConst() && a->width == 1) return a->c() ? c : mkNot(c);
  Expr* ks[3] = {c, a, b};
  return intern(K_Ite, a->width, 0, ks, 3);
}

Expr* mkConcat(Expr* h, Expr* l) {
  unsigned w = h->width + l->width;
  if (h->isConst() && l->isConst()) {
    if (w <= 64) return mkConst((h->c() << l->width) | l->c(), w);
    return mkConstAP(constAP(h).zext(w).shl(l->width) | constAP(l).zext(w));
  }
  if (isZero(h)) return mkZExt(l, w);
  if (h->kind == K_ZExt) return mkZExt(mkConcat(h->k[0], l), w);
  // right-assoc: keep the high part atomic
  if (h->kind == K_Concat) return mkConcat(h->k[0], mkConcat(h->k[1], l));
  // adjacent extracts
  auto adj = [](Expr* x, Expr* y) -> Expr* {
    // x is directly above y?
    if (x->kind == K_Extract && y->kind == K_Extract && x->k[0] == y->k[0] && x->aux == y->aux + y->width) return mkExtract(x->k[0], y->aux, x->width + y->width);
    if (x->kind == K_Extract && x->k[0] == y) { }
    return nullptr; };
  if (Expr* r = adj(h, l)) return r;
  if (l->kind == K_Concat) {
    if (Expr* r = adj(h, l->k[0])) return mkConcat(r, l->k[1]);
    if (h->isConst() && l->k[0]->isConst()) return mkConcat(mkConcat(h, l->k[0]), l->k[1]);
  }
  // sign-extension pieces glue back together
  if (h->kind == K_SExt && h->k[0]->width == 1 && mkExtract(l, l->width - 1, 1) == h->k[0]) return mkSExt(l, w);
  return node2(K_Concat, w, h, l);
}

Expr* mkExtract(Expr* e, unsigned lo, unsigned w) {
  if (lo == 0 && w == e->width) return e;
  if (lo + w > e->width) { fprintf(stderr, "bad extract\n"); abort(); }
  switch (e->kind) {
    case K_Const: if (e->width <= 64) return mkConst(e->c() >> lo, w); return mkConstAP(constAP(e).extractBits(w, lo));
    case K_Extract: return mkExtract(e->k[0], e->aux + lo, w);
    case K_Concat: { unsigned lw = e->k[1]->width;
      if (lo >= lw) return mkExtract(e->k[0], lo - lw, w);
      if (lo + w <= lw) return mkExtract(e->k[1], lo, w);
      return mkConcat(mkExtract(e->k[0], 0, lo + w - lw), mkExtract(e->k[1], lo, lw - lo)); }
    case K_ZExt: { unsigned xw = e->k[0]->width;
      if (lo >= xw) return mkConst(0, w);
      if (lo + w <= xw) return mkExtract(e->k[0], lo, w);
      return mkZExt(mkExtract(e->k[0], lo, xw - lo), w); }
    case K_SExt: { unsigned xw = e->k[0]->width;
      if (lo + w <= xw) return mkExtract(e->k[0], lo, w);
      if (lo < xw) return mkSExt(mkExtract(e->k[0], lo, xw - lo), w);
      if (w == 1) return mkExtract(e->k[0], xw - 1, 1);
      return mkSExt(mkExtract(e->k[0], xw - 1, 1), w); }
    case K_And: case K_Or: case K_Xor:
      return mkBin(e->kind, mkExtract(e->k[0], lo, w), mkExtract(e->k[1], lo, w));
    case K_Add: case K_Sub: case K_Mul:
      if (lo == 0) return mkBin(e->kind, mkExtract(e->k[0], 0, w), mkExtract(e->k[1], 0, w));
      break;
    case K_Ite:
      if (w <= 8 || e->k[1]->isConst() || e->k[2]->isConst()) return mkIte(e->k[0], mkExtract(e->k[1], lo, w), mkExtract(e->k[2], lo, w));
      break;
    default: break;
  }
  if (e->width <= 64 && !(~e->kz & (maskOf(w) << lo))) return mkConst(0, w);
  if (e->width <= 64 && lo == 0) { }
  Expr* ks[1] = {e};
  return intern(K_Extract, w, lo, ks, 1);
}

Expr* mkZExt(Expr* e, unsigned w) {
  if (w == e->width) return e;
  if (w < e->width) return mkExtract(e, 0, w);
  if (e->isConst()) { if (w <= 64) return mkConst(e->c(), w); return mkConstAP(constAP(e).zext(w)); }
  if (e->kind == K_ZExt) return mkZExt(e->k[0], w);
  Expr* ks[1] = {e};
  return intern(K_ZExt, w, 0, ks, 1);
}
Expr* mkSExt(Expr* e, unsigned w) {
  if (w == e->width) return e;
  if (w < e->width) return mkExtract(e, 0, w);
  if (e->isConst()) { if (w <= 64) return mkConst((uint64_t)sx(e->c(), e->width), w); return mkConstAP(constAP(e).sext(w)); }
  if (nonNeg(e)) return mkZExt(e, w);
  if (e->kind == K_SExt) return mkSExt(e->k[0], w);
  Expr* ks[1] = {e};
  return intern(K_SExt, w, 0, ks, 1);
}

Expr* mkUF(const std::string& fn, unsigned w, const std::vector<Expr*>& args) {
  uint32_t id = ~0u;
  for (uint32_t i = 0; i < g_ufs.size(); i++) if (g_ufs[i].name == fn) id = i;
  if (id == ~0u) { id = g_ufs.size(); g_ufs.push_back({fn, (uint16_t)w}); }
  return intern(K_UF, w, id, args.data(), args.size());
}
Expr* mkTable(const std::vector<Expr*>& el) { return intern(K_Table, el[0]->width, 0, el.data(), el.size()); }
Expr* mkSelect(Expr* t, Expr* idx) {
  if (idx->isConst()) return idx->c() < t->nk ? t->k[idx->c()] : t->k[t->nk - 1];
  bool same = true; for (uint32_t i = 1; i < t->nk; i++) if (t->k[i] != t->k[0]) same = false;
  if (same) return t->k[0];
  Expr* ks[2] = {t, idx};
  return intern(K_Select, t->width, 0, ks, 2);
}

// ---------------------------------------------------------------- evaluation
static uint64_t epoch = 1;
static std::unordered_map<const Expr*, APInt> wideMemo;
void evalBegin() { epoch++; if (!wideMemo.empty()) wideMemo.clear(); }

std::string ufKey(uint32_t fn, const std::vector<APInt>& args) {
  std::string s = std::to_string(fn);
  for (auto& a : args) { s += '|'; s.append((const char*)a.getRawData(), a.getNumWords() * 8); }
  return s;
}
static APInt ufEval(Expr* e, const Model& m) {
  std::vector<APInt> args; for (uint32_t i = 0; i < e->nk; i++) args.push_back(evalExprAP(e->k[i], m));
  std::string key = ufKey(e->aux, args);
  if (m.uf) { auto it = m.uf->find(key); if (it != m.uf->end()) return it->second; }
  uint64_t h = 1469598103934665603ULL; for (unsigned char ch : key) h = (h ^ ch) * 1099511628211ULL;
  APInt r(e->width, 0);
  for (unsigned i = 0; i < e->width; i += 64) { h ^= h >> 33; h *= 0xff51afd7ed558ccdULL; h ^= h >> 29; h *= 0xc4ceb9fe1a85ec53ULL; h ^= h >> 32;
    unsigned n = std::min(64u, e->width - i); r.insertBits(APInt(n, h & maskOf(n)), i); }
  return r;
}

uint64_t evalExpr(Expr* e, const Model& m) {
  if (e->kind == K_Const) return e->w[0];
  if (e->kind == K_Sym) return m.get(e->aux) & maskOf(e->width);
  if (e->evEpoch == epoch) return e->evVal;
  uint64_t r;
  unsigned w = e->width;
  switch (e->kind) {
    case K_Ite: r = evalExpr(e->k[0], m) ? evalExpr(e->k[1], m) : evalExpr(e->k[2], m); break;
    case K_Concat: r = (evalExpr(e->k[0], m) << e->k[1]->width) | evalExpr(e->k[1], m); break;
    case K_Extract: if (e->k[0]->width <= 64) r = (evalExpr(e->k[0], m) >> e->aux) & maskOf(w); else r = evalExprAP(e->k[0], m).extractBitsAsZExtValue(w, e->aux); break;
    case K_ZExt: r = evalExpr(e->k[0], m); break;
    case K_SExt: r = (uint64_t)sx(evalExpr(e->k[0], m), e->k[0]->width) & maskOf(w); break;
    case K_UF: r = ufEval(e, m).getZExtValue(); break;
    case K_Select: { uint64_t i = evalExpr(e->k[1], m); Expr* t = e->k[0]; r = evalExpr(t->k[i < t->nk ? i : t->nk - 1], m); break; }
    default: {
      if (e->k[0]->width <= 64) r = foldU(e->kind, evalExpr(e->k[0], m), evalExpr(e->k[1], m), e->k[0]->width);
      else r = foldAP(e->kind, evalExprAP(e->k[0], m), evalExprAP(e->k[1], m)).getZExtValue();
    }
  }
  e->evEpoch = epoch; e->evVal = r;
  return r;
}
APInt evalExprAP(Expr* e, const Model& m) {
  unsigned w = e->width;
  if (w <= 64) return APInt(w, evalExpr(e, m));
  if (e->kind == K_Const) return constAP(e);
  auto it = wideMemo.find(e); if (it != wideMemo.end()) return it->second;
  APInt r(w, 0);
  switch (e->kind) {
    case K_Ite: r = evalExpr(e->k[0], m) ? evalExprAP(e->k[1], m) : evalExprAP(e->k[2], m); break;
    case K_Concat: r = evalExprAP(e->k[0], m).zext(w).shl(e->k[1]->width) | evalExprAP(e->k[1], m).zext(w); break;
    case K_Extract: r = evalExprAP(e->k[0], m).extractBits(w, e->aux); break;
    case K_ZExt: r = evalExprAP(e->k[0], m).zext(w); break;
    case K_SExt: r = evalExprAP(e->k[0], m).sext(w); break;
    case K_UF: r = ufEval(e, m); break;
    case K_Select: { uint64_t i = evalExpr(e->k[1], m); Expr* t = e->k[0]; r = evalExprAP(t->k[i < t->nk ? i : t->nk - 1], m); break; }
    default: r = foldAP(e->kind, evalExprAP(e->k[0], m), evalExprAP(e->k[1], m));
  }
  wideMemo.emplace(e, r);
  return r;
}

std::string toStr(Expr* e, int d) {
  static const char* nm[] = {"const","sym","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","ite","concat","extract","zext","sext","uf","table","select"};
  if (e->isConst()) { llvm::SmallString<64> s; constAP(e).toString(s, 16, false); return "0x" + std::string(s.str()) + ":" + std::to_string(e->width); }
  if (e->kind == K_Sym) return g_syms[e->aux].name;
  if (d <= 0) return "...";
  std::string r = std::string("(") + nm[e->kind];
  if (e->kind == K_Extract) r += "[" + std::to_string(e->aux) + "+" + std::to_string(e->width) + "]";
  if (e->kind == K_ZExt || e->kind == K_SExt) r += std::to_string(e->width);
  for (uint32_t i = 0; i < e->nk && i < 8; i++) r += " " + toStr(e->k[i], d - 1);
  return r + ")";
}
