// Symbolic interpreter: forks on feasible branches, checks memory safety,
// reports violations with a model, distributes work over processes.
#include "module.h"
#include "solver.h"
#include "llvm/ADT/SmallString.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <deque>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <unordered_map>
#include <algorithm>
#include <atomic>
#include <chrono>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <x86intrin.h>
using std::string; using std::vector;

uint64_t GLOB_BASE = 0x100000000000ULL, HEAP_BASE = 0x200000000000ULL, STACK_BASE = 0x300000000000ULL;
enum OKind : uint8_t { OK_Global, OK_Malloc, OK_New, OK_NewArr, OK_Stack };
static const char* okName[] = {"global", "malloc", "new", "new[]", "stack"};

struct Obj {
  uint32_t rc = 1; OKind kind; bool ro = false, freed = false, ext = false, anySym = false;
  uint64_t base = 0, size = 0; uint32_t name = 0;
  uint8_t* d = nullptr; uint8_t* st = nullptr; Expr** sy = nullptr;
  ~Obj() { free(d); free(st); free(sy); }
};
static void decObj(Obj* o) { if (o && --o->rc == 0) delete o; }
struct Chunk { uint32_t rc = 1; Obj* o[64]; Chunk() { memset(o, 0, sizeof o); } };
static void decChunk(Chunk* c) { if (c && --c->rc == 0) { for (auto* o : c->o) decObj(o); delete c; } }
struct Region {
  vector<Chunk*> ch;
  Region() {}
  Region(const Region& r) : ch(r.ch) { for (auto* c : ch) if (c) c->rc++; }
  Region& operator=(const Region&) = delete;
  ~Region() { for (auto* c : ch) decChunk(c); }
  Obj* get(uint64_t i) const { uint64_t k = i >> 6; return k < ch.size() && ch[k] ? ch[k]->o[i & 63] : nullptr; }
  Chunk* wr(uint64_t i) {
    uint64_t k = i >> 6;
    if (k >= ch.size()) ch.resize(k + 1, nullptr);
    if (!ch[k]) ch[k] = new Chunk();
    else if (ch[k]->rc > 1) { Chunk* n = new Chunk(); memcpy(n->o, ch[k]->o, sizeof n->o); for (auto* o : n->o) if (o) o->rc++; ch[k]->rc--; ch[k] = n; }
    return ch[k];
  }
  void set(uint64_t i, Obj* o) { Chunk* c = wr(i); decObj(c->o[i & 63]); c->o[i & 63] = o; }
  Obj* getW(uint64_t i) {
    Chunk* c = wr(i); Obj* o = c->o[i & 63];
    if (o->rc > 1) {
      Obj* n = new Obj(); n->kind = o->kind; n->ro = o->ro; n->freed = o->freed; n->ext = o->ext; n->anySym = o->anySym; n->base = o->base; n->size = o->size; n->name = o->name;
      n->d = (uint8_t*)malloc(o->size + 1); memcpy(n->d, o->d, o->size); n->st = (uint8_t*)malloc(o->size + 1); memcpy(n->st, o->st, o->size);
      if (o->sy) { n->sy = (Expr**)malloc(o->size * sizeof(Expr*)); memcpy(n->sy, o->sy, o->size * sizeof(Expr*)); }
      o->rc--; c->o[i & 63] = n; o = n;
    }
    return o;
  }
};
static Obj* newObj(OKind k, uint64_t base, uint64_t size, int init /*0 zero, 2 uninit*/) {
  Obj* o = new Obj(); o->kind = k; o->base = base; o->size = size; o->d = (uint8_t*)calloc(size + 1, 1); o->st = (uint8_t*)malloc(size + 1); memset(o->st, init, size + 1); return o;
}

struct Frame { Func* f; int pc; uint32_t base; uint32_t stackTop; uint32_t bigTop; int callIdx; uint64_t va; };
struct Input { string name; vector<Expr*> b; };
struct Observ { string name; vector<Expr*> b; };
struct State {
  vector<Frame> fr; vector<Val> regs;
  Region reg[3]; uint64_t nextHeap = 1, stackTop = 1, gen = 0; uint64_t heapBytes = 0, heapLive = 0;
  PathCond pc; Model model;
  vector<Input> inputs; vector<Observ> obs; vector<std::pair<string, int64_t>> params;
  vector<std::pair<string, Expr*>> ufApps; // uninterpreted applications made on this path
  uint64_t uninitCtr = 0, symCtr = 0;
  uint64_t steps = 0, forks = 0;
  std::map<uint64_t, uint64_t> multi; // continuation slots of big heap blocks: slot -> first slot
  State() {}
  State(const State& o) = default;
};

// ---------------------------------------------------------------- globals
static vector<string> objNames{""};
static State* g_init = nullptr;
static uint64_t nextGlob = 1;
static uint64_t jitter(uint64_t i) { return 0x1010 + (i * 0x50) % 0x4000; }
uint64_t addGlobalObject(uint64_t size, uint64_t align, bool ro, const string& name, bool ext) {
  if (!g_init) g_init = new State();
  uint64_t off = align > 16 ? 0x2000 : 0x1010;
  uint64_t slot = nextGlob; nextGlob += 1 + (off + size) / SLOT;
  uint64_t base = GLOB_BASE + slot * SLOT + off;
  if (size + off > SLOT) { fprintf(stderr, "symex: global too large: %s\n", name.c_str()); exit(3); }
  Obj* o = newObj(OK_Global, base, size, ext ? 2 : 0); o->ro = ro; o->ext = ext; o->name = (uint32_t)objNames.size(); objNames.push_back(name);
  g_init->reg[0].set(slot, o);
  return base;
}
void initGlobalBytes(uint64_t addr, uint64_t off, const uint8_t* p, uint64_t n) {
  Obj* o = g_init->reg[0].getW((addr - GLOB_BASE) / SLOT);
  if (off + n > o->size) { fprintf(stderr, "symex: initializer overflow\n"); exit(3); }
  memcpy(o->d + off, p, n);
}

struct Shared {
  std::atomic<int> freeSlots, stop, incomplete, viol, forks, asserted;
  std::atomic<uint64_t> paths, errPaths, assumed, steps, branches, symBranches, asserts, assertsZ3, qFast, qZ3, qCache, qSat, qUnsat, qUnknown, z3us, maxqus, samples, maxRss, statesPeak, natExit, exprs, maxSteps;
  std::atomic<int> funcHit[1 << 16];
  uint8_t cov[1 << 20];
};
static Shared* SH;
static string outPath; static int outFd = -1;
static double deadline = 0; static uint64_t maxSteps = 5000000; static int maxViol = 24, maxDepth = 4000; static uint64_t sampleEvery = 1; static int sampleMax = 64;
static std::map<string, int64_t> setParams;
static bool traceOn = false, dbgForks = false;
static std::map<string, uint64_t> forkSites;
static std::deque<State*> work;
static std::set<string> reached;
static std::map<string, int> siteCount;
static uint64_t localPaths = 0;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static void outLine(const string& s) { string t = s + "\n"; (void)!write(outFd, t.data(), t.size()); }
static string jstr(const string& s) {
  string r = "\"";
  for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; }
  return r + "\"";
}
struct PathEnd {};
static State* S; // current state

static string locStr(Func* f, int pc) {
  if (pc < 0 || pc >= (int)f->code.size()) return f->name;
  auto& l = M.locs[f->code[pc].loc];
  if (f->code[pc].loc == 0) return f->file + ":" + std::to_string(f->line);
  return M.files[l.file] + ":" + std::to_string(l.line);
}
static string modelJson(State& s, const Model& m) {
  string r = "\"inputs\":[";
  bool first = true; evalBegin();
  for (auto& in : s.inputs) {
    if (!first) r += ","; first = false;
    string hex; for (auto* e : in.b) { char b[4]; snprintf(b, 4, "%02x", (unsigned)evalExpr(e, m)); hex += b; }
    r += "[" + jstr(in.name) + ",\"" + hex + "\"]";
  }
  r += "],\"params\":["; first = true;
  for (auto& p : s.params) { if (!first) r += ","; first = false; r += "[" + jstr(p.first) + "," + std::to_string(p.second) + "]"; }
  r += "],\"ufs\":["; first = true;
  for (auto& ua : s.ufApps) {
    if (!first) r += ","; first = false; r += "[" + jstr(ua.first) + ",\"";
    char b[4]; Expr* u = ua.second;
    for (uint32_t i = 0; i < u->nk; i++) { snprintf(b, 4, "%02x", (unsigned)evalExpr(u->k[i], m)); r += b; }
    r += "\",\""; llvm::APInt v = evalExprAP(u, m);
    for (unsigned i = 0; i < u->width; i += 8) { snprintf(b, 4, "%02x", (unsigned)v.extractBitsAsZExtValue(8, i)); r += b; }
    r += "\"]";
  }
  r += "]";
  return r;
}
static string obsJson(State& s, const Model& m) {
  string r = "\"obs\":["; bool first = true; evalBegin();
  for (auto& o : s.obs) {
    if (!first) r += ","; first = false; string hex;
    for (auto* e : o.b) { char b[4]; snprintf(b, 4, "%02x", (unsigned)evalExpr(e, m)); hex += b; }
    r += "[" + jstr(o.name) + ",\"" + hex + "\"]";
  }
  return r + "]";
}
static void report(const string& kind, const string& msg, const Model& m) {
  State& s = *S;
  string site, stack = "[";
  int n = 0;
  for (int i = (int)s.fr.size() - 1; i >= 0 && n < 40; i--, n++) { string l = locStr(s.fr[i].f, s.fr[i].pc); stack += (n ? "," : "") + jstr(s.fr[i].f->name + " " + l); if (site.empty() && (s.fr[i].f->fromRepo || s.fr[i].f->fromHarness)) site = l; }
  stack += "]";
  string key = kind + "|" + msg + "|" + site;
  if (siteCount[key]++ >= 4) return;
  outLine("{\"t\":\"violation\",\"kind\":" + jstr(kind) + ",\"msg\":" + jstr(msg) + ",\"site\":" + jstr(site) + ",\"stack\":" + stack + "," + modelJson(s, m) + "}");
  if (SH->viol.fetch_add(1) + 1 >= maxViol) SH->stop = 1;
}
[[noreturn]] static void fail(const string& kind, const string& msg) { report(kind, msg, S->model); SH->errPaths++; throw PathEnd(); }
static void engineError(const string& msg) {
  string loc; if (S && !S->fr.empty()) loc = S->fr.back().f->name + " " + locStr(S->fr.back().f, S->fr.back().pc);
  string st; if (S) for (int i = (int)S->fr.size() - 1, n = 0; i >= 0 && n < 8; i--, n++) st += " <- " + S->fr[i].f->name;
  outLine("{\"t\":\"engine-error\",\"msg\":" + jstr(msg) + ",\"loc\":" + jstr(loc + st) + "}");
  SH->incomplete = 1;
}
[[noreturn]] static void unsupported(const string& msg) { engineError(msg); throw PathEnd(); }

// ---------------------------------------------------------------- values
static inline Val V(uint64_t c) { return {c, nullptr}; }
static inline Val VE(Expr* e) { if (e->isConst() && e->width <= 64) return {e->c(), nullptr}; return {0, e}; }
static inline Expr* E(const Val& v, unsigned w) { return v.e ? v.e : mkConst(v.c & maskOf(w), w); }
static bool hasUninit(Expr* e) {
  if (!e->vars) return false;
  for (uint32_t v : e->vars->v) if (!(v & 0x80000000u) && g_syms[v].uninit) return true;
  return false;
}
static bool truth(State& s, Expr* c) { evalBegin(); return evalExpr(c, s.model) & 1; }
static State* forkWith(State& s, Expr* c, const Model& m) {
  State* n = new State(s); n->pc.add(c); n->model = m; n->forks++;
  work.push_back(n); SH->forks++;
  if (dbgForks) { auto& f = s.fr.back(); forkSites[f.f->name + " " + locStr(f.f, f.pc)]++; }
  return n;
}
static void unknownResult() { SH->qUnknown++; engineError("solver answered unknown"); }
// Decide a condition on the current path; forks if both outcomes are feasible.
static bool decide(Expr* c) {
  State& s = *S;
  if (c->isConst()) return c->c();
  if (hasUninit(c)) fail("uninit-branch", "decision depends on uninitialised memory");
  SH->symBranches++;
  bool t = truth(s, c);
  Expr* oth = t ? mkNot(c) : c;
  Model m = s.model;
  Res r = checkSat(s.pc, oth, m);
  if (r == Sat) { forkWith(s, oth, m); s.pc.add(t ? c : mkNot(c)); }
  else if (r == Unknown) { unknownResult(); s.pc.add(t ? c : mkNot(c)); }
  return t;
}
// Side condition that must hold; violating models are reported.
static void require(Expr* c, const string& kind, const string& msg) {
  State& s = *S;
  if (c->isConst()) { if (!c->c()) fail(kind, msg); return; }
  if (truth(s, c)) {
    Model m = s.model; Res r = checkSat(s.pc, mkNot(c), m);
    if (r == Sat) { report(kind, msg, m); SH->errPaths++; }
    if (r == Unknown) unknownResult();
    if (r != Unsat) s.pc.add(c);
  } else {
    report(kind, msg, s.model); SH->errPaths++;
    Model m = s.model; Res r = checkSat(s.pc, c, m);
    if (r == Unknown) unknownResult();
    if (r != Sat) throw PathEnd();
    s.model = m; s.pc.add(c);
  }
}
// Concretise a value: other values are explored by a fork that retries the
// current instruction.
static uint64_t concretize(const Val& v, unsigned w) {
  if (!v.e) return v.c;
  State& s = *S;
  if (v.e->isConst()) return constAP(v.e).getZExtValue();
  if (hasUninit(v.e)) fail("uninit-use", "control value depends on uninitialised memory");
  evalBegin(); uint64_t x = evalExpr(v.e, s.model);
  Expr* eq = mkEq(v.e, mkConst(x, w));
  if (eq->isConst()) return x;
  Model m = s.model; Res r = checkSat(s.pc, mkNot(eq), m);
  if (r == Sat) { forkWith(s, mkNot(eq), m); s.pc.add(eq); }
  else if (r == Unknown) { unknownResult(); s.pc.add(eq); }
  return x;
}

// ---------------------------------------------------------------- memory
static int regionOf(uint64_t a) {
  if (a >= STACK_BASE && a < STACK_BASE + (1ULL << 43)) return 2;
  if (a >= HEAP_BASE && a < HEAP_BASE + (1ULL << 43)) return 1;
  if (a >= GLOB_BASE && a < GLOB_BASE + (1ULL << 43)) return 0;
  return -1;
}
static uint64_t regionBase(int r) { return r == 0 ? GLOB_BASE : r == 1 ? HEAP_BASE : STACK_BASE; }
static Obj* findObj(uint64_t a, int* rr = nullptr, uint64_t* ii = nullptr) {
  int r = regionOf(a); if (r < 0) return nullptr;
  uint64_t i = (a - regionBase(r)) / SLOT;
  Obj* o = S->reg[r].get(i);
  if (!o && !S->multi.empty()) { auto it = S->multi.find(((uint64_t)r << 60) | i); if (it != S->multi.end()) { i = it->second; o = S->reg[r].get(i); } }
  if (rr) { *rr = r; *ii = i; }
  return o;
}
static string descr(uint64_t a, uint64_t n, const char* what) {
  char b[200]; Obj* o = findObj(a);
  if (!o) { snprintf(b, 200, "%s of %lu bytes at unmapped address", what, n); return b; }
  snprintf(b, 200, "%s of %lu bytes at %s object of size %lu", what, n, okName[o->kind], o->size);
  return b;
}
static Obj* access(uint64_t a, uint64_t n, bool write) {
  int r; uint64_t i; Obj* o = findObj(a, &r, &i);
  if (!o) {
    if (a < 0x10000) fail("null-deref", string(write ? "write" : "read") + " through null pointer");
    fail("wild-access", descr(a, n, write ? "write" : "read"));
  }
  if (o->freed) fail("use-after-free", descr(a, n, write ? "write to freed" : "read from freed"));
  if (a < o->base || a + n > o->base + o->size || n > o->size) fail("out-of-bounds", descr(a, n, write ? "write" : "read"));
  if (write && o->ro) fail("write-to-const", descr(a, n, "write"));
  if (o->ext) unsupported("access to external object " + objNames[o->name]);
  if (write) o = S->reg[r].getW(i);
  return o;
}
static Expr* byteE(Obj* o, uint64_t off) {
  if (o->st[off] == 0) return mkConst(o->d[off], 8);
  if (o->st[off] == 1) return o->sy[off];
  char b[64]; snprintf(b, 64, "uninit#%lx.%lx", o->base, off);
  return mkSym(b, 8, true);
}
static void putByte(Obj* o, uint64_t off, Expr* e) {
  if (e->isConst()) { o->d[off] = (uint8_t)e->c(); o->st[off] = 0; return; }
  if (!o->sy) o->sy = (Expr**)calloc(o->size + 1, sizeof(Expr*));
  o->sy[off] = e; o->st[off] = 1; o->anySym = true;
}
static Val loadAt(Obj* o, uint64_t off, unsigned w) {
  unsigned n = (w + 7) / 8; bool conc = true;
  for (unsigned k = 0; k < n; k++) if (o->st[off + k]) { conc = false; break; }
  if (conc && w <= 64) { uint64_t v = 0; memcpy(&v, o->d + off, n); return V(v & maskOf(w)); }
  Expr* e = nullptr;
  for (unsigned k = 0; k < n; k++) { Expr* b = byteE(o, off + k); e = e ? mkConcat(b, e) : b; }
  if (e->width != w) e = mkExtract(e, 0, w);
  return VE(e);
}
static void storeAt(Obj* o, uint64_t off, const Val& v, unsigned w) {
  unsigned n = (w + 7) / 8;
  if (!v.e) { uint64_t c = v.c & maskOf(w); memcpy(o->d + off, &c, n > 8 ? 8 : n); if (n > 8) memset(o->d + off + 8, 0, n - 8); memset(o->st + off, 0, n); return; }
  Expr* e = v.e; if (e->width != n * 8) e = mkZExt(e, n * 8);
  for (unsigned k = 0; k < n; k++) putByte(o, off + k, mkExtract(e, 8 * k, 8));
}
// Resolve a possibly symbolic address to one object; returns object, and the
// symbolic offset when the address is not concrete.
static Obj* resolve(const Val& p, uint64_t n, bool write, uint64_t& off, Expr*& symOff) {
  symOff = nullptr;
  if (!p.e) { Obj* o = access(p.c, n, write); off = p.c - o->base; return o; }
  State& s = *S;
  if (hasUninit(p.e)) fail("uninit-use", "address depends on uninitialised memory");
  evalBegin(); uint64_t a = evalExpr(p.e, s.model);
  Obj* o = findObj(a);
  if (!o || o->freed || a < o->base || a + n > o->base + o->size) { access(a, n, write); }
  Expr* offE = mkBin(K_Sub, p.e, mkConst(o->base, 64));
  Expr* inb = mkBin(K_Ule, offE, mkConst(o->size - n, 64));
  if (!inb->isConst()) {
    Model m = s.model; Res r = checkSat(s.pc, mkNot(inb), m);
    if (r == Sat) { forkWith(s, mkNot(inb), m); s.pc.add(inb); }
    else if (r == Unknown) { unknownResult(); s.pc.add(inb); }
  }
  if (offE->isConst()) { off = offE->c(); return access(o->base + off, n, write); }
  { // an offset with a single feasible value is concrete
    Expr* eq = mkEq(offE, mkConst(a - o->base, 64));
    if (eq->isConst() && eq->c()) { off = a - o->base; return access(a, n, write); }
    if (!eq->isConst()) {
      Model m = s.model; Res r = checkSat(s.pc, mkNot(eq), m);
      if (r == Unsat) { off = a - o->base; return access(a, n, write); }
      if (r == Unknown) unknownResult();
    }
  }
  uint64_t lim = write ? 96 : 70000;
  if (o->size > lim) { uint64_t c = concretize(VE(offE), 64); off = c; return access(o->base + c, n, write); }
  o = access(a, n, write); off = a - o->base; symOff = offE;
  return o;
}
static Val doLoad(const Val& p, unsigned w) {
  unsigned n = (w + 7) / 8; uint64_t off; Expr* so;
  Obj* o = resolve(p, n, false, off, so);
  if (!so) return loadAt(o, off, w);
  // table lookup at a symbolic offset
  unsigned stride = 1;
  if ((n & (n - 1)) == 0 && n <= 8 && (so->kz & (n - 1)) == (n - 1)) stride = n;
  vector<Expr*> el; unsigned iw = 64;
  // Elements that hold uninitialised bytes: usually no feasible offset selects
  // them; otherwise the path that reads them is split off.
  {
    Expr* un = nullptr; uint64_t cnt = 0;
    for (uint64_t k = 0; k + n <= o->size; k += stride) {
      bool u = false; for (unsigned j = 0; j < n; j++) if (o->st[k + j] == 2 || (o->st[k + j] == 1 && hasUninit(o->sy[k + j]))) u = true;
      if (u) { Expr* q = mkEq(so, mkConst(k, 64)); un = un ? mkOrB(un, q) : q; cnt++; }
    }
    if (un && decide(un)) { uint64_t c = concretize(VE(so), 64); return loadAt(access(o->base + c, n, false), c, w); }
    if (un) o = access(o->base, n, false);
  }
  auto clean = [&](uint64_t k, unsigned m) { for (unsigned j = 0; j < m; j++) if (o->st[k + j] == 2 || (o->st[k + j] == 1 && hasUninit(o->sy[k + j]))) return false; return true; };
  if (stride == n) {
    bool ptrs = false;
    for (uint64_t k = 0; k + n <= o->size; k += n) {
      if (!clean(k, n)) { el.push_back(mkConst(0, 8 * n)); continue; }
      Val x = loadAt(o, k, 8 * n); if (n == 8 && !x.e && regionOf(x.c) >= 0) ptrs = true;
      el.push_back(E(x, 8 * n));
    }
    if (ptrs) { // a table of pointers: split by the pointer that is read
      Expr* idx = mkBin(K_LShr, so, mkConst(3, iw));
      return V(concretize(VE(mkSelect(mkTable(el), idx)), 64));
    }
    el.clear();
    for (uint64_t k = 0; k + n <= o->size; k += n) el.push_back(clean(k, n) ? E(loadAt(o, k, 8 * n), 8 * n) : mkConst(0, 8 * n));
    Expr* idx = n == 1 ? so : mkBin(K_LShr, so, mkConst(__builtin_ctz(n), iw));
    Expr* r = mkSelect(mkTable(el), idx);
    if (r->width != w) r = mkExtract(r, 0, w);
    return VE(r);
  }
  Expr* r = nullptr;
  for (unsigned k = 0; k < n; k++) {
    el.clear(); for (uint64_t j = 0; j + n <= o->size; j++) el.push_back(clean(j, n) ? byteE(o, j + k) : mkConst(0, 8));
    Expr* b = mkSelect(mkTable(el), so); r = r ? mkConcat(b, r) : b;
  }
  if (r->width != w) r = mkExtract(r, 0, w);
  return VE(r);
}
static void doStore(const Val& p, const Val& v, unsigned w) {
  unsigned n = (w + 7) / 8; uint64_t off; Expr* so;
  Obj* o = resolve(p, n, true, off, so);
  if (!so) { storeAt(o, off, v, w); return; }
  Expr* e = E(v, w); if (e->width != n * 8) e = mkZExt(e, n * 8);
  vector<Expr*> nb(o->size, nullptr);
  for (uint64_t j = 0; j < o->size; j++) {
    Expr* cur = byteE(o, j); Expr* r = cur;
    for (unsigned k = 0; k < n && k <= j; k++) r = mkIte(mkEq(so, mkConst(j - k, 64)), mkExtract(e, 8 * k, 8), r);
    nb[j] = r;
    if (r == cur) nb[j] = nullptr;
  }
  for (uint64_t j = 0; j < o->size; j++) if (nb[j]) putByte(o, j, nb[j]);
}
static uint64_t allocHeap(uint64_t size, OKind k, int init) {
  State& s = *S;
  uint64_t slot = s.nextHeap; uint64_t off = jitter(slot);
  uint64_t base = HEAP_BASE + slot * SLOT + off;
  uint64_t cnt = 1 + (off + size) / SLOT; s.nextHeap += cnt;
  for (uint64_t i = 1; i < cnt; i++) s.multi[(1ULL << 60) | (slot + i)] = slot;
  s.reg[1].set(slot, newObj(k, base, size, init)); s.heapBytes += size; s.heapLive++;
  return base;
}
static void freeHeap(uint64_t a, OKind k, const char* fn) {
  if (!a) return;
  int r; uint64_t i; Obj* o = findObj(a, &r, &i);
  if (!o || r != 1) fail("bad-free", string(fn) + " of a pointer that is not a heap block");
  if (o->freed) fail("double-free", string(fn) + " of an already freed block");
  if (o->base != a) fail("bad-free", string(fn) + " of a pointer inside a block");
  if (o->kind != k) fail("alloc-mismatch", string(fn) + " of a block obtained with " + okName[o->kind]);
  Obj* n = new Obj(); n->kind = o->kind; n->freed = true; n->base = o->base; n->size = o->size; n->d = (uint8_t*)calloc(1, 1); n->st = (uint8_t*)calloc(1, 1);
  S->reg[1].set(i, n); S->heapLive--;
}
static uint64_t allocStack(uint64_t size, uint64_t align) {
  State& s = *S;
  uint64_t slot = s.stackTop; uint64_t off = align > 16 ? 0x1000 + ((s.gen * 5) % 256) * 64 : jitter(s.gen); s.gen++;
  off = (off + align - 1) / align * align;
  uint64_t base = STACK_BASE + slot * SLOT + off, cnt = 1 + (off + size) / SLOT; s.stackTop += cnt;
  if (cnt > 1) { for (uint64_t i = 1; i < cnt; i++) s.multi[(2ULL << 60) | (slot + i)] = slot; }
  s.reg[2].set(slot, newObj(OK_Stack, base, size, 2));
  return base;
}
static void popStack(uint64_t top) {
  State& s = *S;
  for (uint64_t i = top; i < s.stackTop; i++) if (s.reg[2].get(i)) s.reg[2].set(i, nullptr);
  if (!s.multi.empty()) for (uint64_t i = top; i < s.stackTop; i++) s.multi.erase((2ULL << 60) | i);
  s.stackTop = top;
}
static void copyBytes(uint64_t d, uint64_t s, uint64_t n, bool overlapOk) {
  if (!n) return;
  Obj* so = access(s, n, false); Obj* dz = access(d, n, true); so = access(s, n, false);
  if (!overlapOk && so == dz && d != s && (d < s ? d + n > s : s + n > d)) fail("memcpy-overlap", "memcpy with overlapping ranges");
  uint64_t a = s - so->base, b = d - dz->base;
  bool sym = false; for (uint64_t i = 0; i < n; i++) if (so->st[a + i] == 1) { sym = true; break; }
  if (sym && !dz->sy) dz->sy = (Expr**)calloc(dz->size + 1, sizeof(Expr*));
  memmove(dz->d + b, so->d + a, n); 
  if (sym) { memmove(dz->sy + b, so->sy + a, n * sizeof(Expr*)); dz->anySym = true; }
  if (so == dz || true) memmove(dz->st + b, so->st + a, n);
}

// ---------------------------------------------------------------- frames
static inline Val get(const Frame& f, int op) { return op >= 0 ? S->regs[f.base + op] : M.consts[~op]; }
static inline void setR(const Frame& f, int d, Val v) { S->regs[f.base + d] = v; }
static void takeEdge(Frame& f, int e) {
  Edge& ed = f.f->edges[e];
  size_t n = ed.copies.size();
  if (n == 1) setR(f, ed.copies[0].first, get(f, ed.copies[0].second));
  else if (n) { Val tmp[64]; vector<Val> big; Val* t = tmp; if (n > 64) { big.resize(n); t = big.data(); } for (size_t i = 0; i < n; i++) t[i] = get(f, ed.copies[i].second); for (size_t i = 0; i < n; i++) setR(f, ed.copies[i].first, t[i]); }
  f.pc = ed.pc;
}
static vector<int> covBaseOf;
static void pushFrame(Func* f, const vector<Val>& args, int callIdx) {
  State& s = *S;
  lowerFunc(f);
  if ((int)s.fr.size() > maxDepth) fail("stack-overflow", "call depth exceeds " + std::to_string(maxDepth));
  if (SH->funcHit[f->id & 0xffff] == 0) SH->funcHit[f->id & 0xffff] = 1;
  Frame n; n.f = f; n.pc = 0; n.base = (uint32_t)s.regs.size(); n.stackTop = (uint32_t)s.stackTop; n.bigTop = 0; n.callIdx = callIdx; n.va = 0;
  s.regs.resize(n.base + f->nslots, Val{0, nullptr});
  for (int i = 0; i < f->nargs && i < (int)args.size(); i++) s.regs[n.base + i] = args[i];
  s.fr.push_back(n);
}
static void finishCall(const CallInfo& ci) { Frame& f = S->fr.back(); if (ci.invoke) takeEdge(f, ci.eNormal); else f.pc++; }

// ---------------------------------------------------------------- exceptions
static int selectorOf(uint64_t ti) { // stable small positive ids
  return ti == 0 ? 0x7fffffff : (int)((ti - GLOB_BASE) / SLOT) + 1;
}
static bool tiUpcast(uint64_t from, uint64_t to, int64_t& adj) {
  if (from == to) return true;
  auto it = M.tis.find(from); if (it == M.tis.end()) return false;
  for (auto& b : it->second.bases) { int64_t a = 0; if (b.second == INT64_MIN) continue; if (tiUpcast(b.first, to, a)) { adj += a + b.second; return true; } }
  return false;
}
static bool matchLP(const LPInfo& lp, uint64_t ti, bool& isCatch, int& sel, int64_t& adj) {
  isCatch = false; sel = 0; adj = 0;
  for (auto& c : lp.clauses) {
    if (c.kind == 0) { if (c.ti[0] == 0) { isCatch = true; sel = selectorOf(0); return true; } int64_t a = 0; if (tiUpcast(ti, c.ti[0], a)) { isCatch = true; sel = selectorOf(c.ti[0]); adj = a; return true; } }
    else { bool ok = false; for (auto t : c.ti) { int64_t a = 0; if (tiUpcast(ti, t, a)) ok = true; } if (!ok) { isCatch = true; sel = -1; return true; } }
  }
  return lp.cleanup;
}
static LPInfo* lpAt(Func* f, int pc) { while (f->code[pc].op != O_LandingPad) pc++; return &f->lps[f->code[pc].x]; }
// hdr layout (rt): [0]=typeinfo [8]=dtor [16]=adjusted pointer ... object follows
static void unwindFrom(uint64_t exc, uint64_t ti, uint64_t hdr) {
  State& s = *S;
  // search phase
  bool found = false;
  for (int i = (int)s.fr.size() - 1; i >= 0 && !found; i--) {
    Frame& f = s.fr[i]; auto& in = f.f->code[f.pc];
    if (in.op != O_Call) continue;
    auto& ci = f.f->calls[in.x]; if (!ci.invoke) continue;
    bool c; int sel; int64_t adj; if (matchLP(*lpAt(f.f, f.f->edges[ci.eUnwind].pc), ti, c, sel, adj) && c) found = true;
  }
  auto tn = M.tis.find(ti);
  if (!found) fail("uncaught-exception", "exception of type " + (tn == M.tis.end() ? string("?") : tn->second.name) + " is not caught: std::terminate");
  while (true) {
    Frame& f = s.fr.back(); auto& in = f.f->code[f.pc];
    if (in.op == O_Call) {
      auto& ci = f.f->calls[in.x];
      if (ci.invoke) {
        bool c; int sel; int64_t adj; LPInfo* lp = lpAt(f.f, f.f->edges[ci.eUnwind].pc);
        if (matchLP(*lp, ti, c, sel, adj)) {
          takeEdge(f, ci.eUnwind);
          if (c) { Obj* o = access(hdr + 16, 8, true); storeAt(o, hdr + 16 - o->base, V(exc + adj), 64); }
          setR(f, lp->d0, V(exc)); setR(f, lp->d1, V((uint64_t)(uint32_t)sel));
          return;
        }
      }
    }
    popStack(f.stackTop); s.regs.resize(f.base); s.fr.pop_back();
  }
}

// ---------------------------------------------------------------- natives
typedef void (*Nat)(const CallInfo& ci, vector<Val>& a);
static std::unordered_map<string, Nat> natives;
static vector<Nat> natTab;
static uint64_t C(const vector<Val>& a, unsigned i) { return concretize(a[i], 64); }
static void ret(const CallInfo& ci, Val v) { if (!ci.dsts.empty()) { if (!v.e) v.c &= maskOf(ci.dstW[0]); setR(S->fr.back(), ci.dsts[0], v); } finishCall(ci); }
static string cstr(uint64_t p) { string r; for (;;) { Obj* o = access(p, 1, false); Val v = loadAt(o, p - o->base, 8); uint64_t c = concretize(v, 8); if (!c) break; r += (char)c; p++; } return r; }
static string uniqueInput(const string& n) { int k = 0; for (auto& i : S->inputs) if (i.name == n || i.name.rfind(n + "#", 0) == 0) k++; return k ? n + "#" + std::to_string(k) : n; }
static void endPath(bool ok) {
  SH->paths++; localPaths++;
  uint64_t h = localPaths * 0x9E3779B97F4A7C15ULL; h ^= h >> 29;
  if (ok && !S->inputs.empty() && (localPaths <= 2 || h % sampleEvery == 0)) {
    if ((int)SH->samples.fetch_add(1) < sampleMax) outLine("{\"t\":\"sample\"," + modelJson(*S, S->model) + "," + obsJson(*S, S->model) + "}");
  }
  throw PathEnd();
}
static Expr* truthy(const Val& v, unsigned w) { return v.e ? mkNot(mkEq(v.e, mkConst(0, w))) : mkConst((v.c & maskOf(w)) != 0, 1); }

static void n_sym_bytes(const CallInfo& ci, vector<Val>& a) {
  string nm = uniqueInput(cstr(C(a, 0))); uint64_t p = C(a, 1), n = C(a, 2);
  Input in; in.name = nm;
  if (n) { Obj* o = access(p, n, true); for (uint64_t i = 0; i < n; i++) { Expr* e = mkSym(nm + "[" + std::to_string(i) + "]", 8); in.b.push_back(e); putByte(o, p - o->base + i, e); } }
  S->inputs.push_back(in); finishCall(ci);
}
static void n_sym_choose(const CallInfo& ci, vector<Val>& a) {
  uint64_t n = C(a, 1);
  // forks by concretising a fresh 4-byte input
  string nm; 
  { nm = cstr(C(a, 0)); }
  // retry-safe: the input is created once, keyed by pc-retry marker
  State& s = *S; Expr* w = nullptr;
  if (!s.inputs.empty() && s.inputs.back().name.rfind("?" + nm, 0) == 0) { auto& in = s.inputs.back(); w = in.b[0]; for (int i = 1; i < 4; i++) w = mkConcat(in.b[i], w); }
  else {
    string un = uniqueInput(nm); Input in; in.name = "?" + un;
    for (int i = 0; i < 4; i++) { Expr* e = i < (n > 256 ? 4 : 1) ? mkSym(un + "[" + std::to_string(i) + "]", 8) : mkConst(0, 8); in.b.push_back(e); w = w ? mkConcat(e, w) : e; }
    Expr* c = mkBin(K_Ult, w, mkConst(n, 32));
    s.inputs.push_back(in);
    if (!c->isConst()) { for (int i = 0; i < 4; i++) if (!in.b[i]->isConst()) { uint32_t id = *in.b[i]->vars->v.begin(); s.model.set(id, 0); } s.pc.add(c); }
  }
  uint64_t v = concretize(VE(w), 32);
  s.inputs.back().name = s.inputs.back().name.substr(1);
  ret(ci, V(v));
}
static void n_sym_assume(const CallInfo& ci, vector<Val>& a) {
  Expr* c = truthy(a[0], ci.argW[0]); State& s = *S;
  if (c->isConst()) { if (!c->c()) { SH->assumed++; throw PathEnd(); } finishCall(ci); return; }
  if (hasUninit(c)) fail("uninit-branch", "assumption depends on uninitialised memory");
  if (!truth(s, c)) { Model m = s.model; Res r = checkSat(s.pc, c, m); if (r == Unknown) unknownResult(); if (r != Sat) { SH->assumed++; throw PathEnd(); } s.model = m; }
  s.pc.add(c); finishCall(ci);
}
static void n_sym_assert(const CallInfo& ci, vector<Val>& a) {
  Expr* c = truthy(a[0], ci.argW[0]); State& s = *S; SH->asserts++;
  if (!c->isConst() && hasUninit(c)) fail("uninit-assert", "asserted value depends on uninitialised memory");
  if (c->isConst()) { if (!c->c()) fail("assert", cstr(C(a, 1))); finishCall(ci); return; }
  SH->assertsZ3++;
  string msg = cstr(C(a, 1));
  if (truth(s, c)) {
    Model m = s.model; Res r = checkSat(s.pc, mkNot(c), m, true);
    if (r == Sat) { report("assert", msg, m); SH->errPaths++; }
    if (r == Unknown) unknownResult();
    if (r != Unsat) s.pc.add(c);
  } else {
    report("assert", msg, s.model); SH->errPaths++;
    Model m = s.model; Res r = checkSat(s.pc, c, m); if (r == Unknown) unknownResult(); if (r != Sat) throw PathEnd();
    s.model = m; s.pc.add(c);
  }
  finishCall(ci);
}
static void n_sym_reach(const CallInfo& ci, vector<Val>& a) { string l = cstr(C(a, 0)); if (reached.insert(l).second) outLine("{\"t\":\"reach\",\"label\":" + jstr(l) + "}"); finishCall(ci); }
static void n_sym_observe(const CallInfo& ci, vector<Val>& a) { Observ o; o.name = cstr(C(a, 0)); Expr* e = E(a[1], 64); if (!(hasUninit(e))) for (int k = 0; k < 8; k++) o.b.push_back(mkExtract(e, 8 * k, 8)); else fail("uninit-use", "observed value is uninitialised"); S->obs.push_back(o); finishCall(ci); }
static void n_sym_observe_bytes(const CallInfo& ci, vector<Val>& a) {
  Observ o; o.name = cstr(C(a, 0)); uint64_t p = C(a, 1), n = C(a, 2);
  if (n) { Obj* ob = access(p, n, false); for (uint64_t k = 0; k < n; k++) { Expr* e = byteE(ob, p - ob->base + k); if (hasUninit(e)) fail("uninit-use", "observed bytes are uninitialised"); o.b.push_back(e); } }
  S->obs.push_back(o); finishCall(ci);
}
static void n_sym_param(const CallInfo& ci, vector<Val>& a) {
  string n = cstr(C(a, 0)); int64_t d = (int64_t)C(a, 1); auto it = setParams.find(n); if (it != setParams.end()) d = it->second;
  bool have = false; for (auto& p : S->params) if (p.first == n) have = true;
  if (!have) S->params.push_back({n, d});
  ret(ci, V((uint64_t)d));
}
static void n_sym_uf(const CallInfo& ci, vector<Val>& a) { // (name, out, outlen, in, inlen)
  string n = cstr(C(a, 0)); uint64_t out = C(a, 1), ol = C(a, 2), in = C(a, 3), il = C(a, 4);
  vector<Expr*> args; if (il) { Obj* o = access(in, il, false); for (uint64_t k = 0; k < il; k++) args.push_back(byteE(o, in - o->base + k)); }
  for (auto* e : args) if (hasUninit(e)) fail("uninit-use", "uninitialised data passed to " + n);
  // pack the message into one wide argument so that equal messages are one term
  Expr* r = mkUF(n + "_" + std::to_string(il), (unsigned)ol * 8, args);
  S->ufApps.push_back({n + "_" + std::to_string(il), r});
  Obj* o = access(out, ol, true); for (uint64_t k = 0; k < ol; k++) putByte(o, out - o->base + k, mkExtract(r, 8 * k, 8));
  finishCall(ci);
}
static void n_sym_concretize(const CallInfo& ci, vector<Val>& a) { uint64_t v = C(a, 0); ret(ci, V(v)); }
static void n_sym_end(const CallInfo& ci, vector<Val>& a) { endPath(true); }
static void n_sym_fail(const CallInfo& ci, vector<Val>& a) { string k = cstr(C(a, 0)), m = cstr(C(a, 1)); fail(k, m); }
static void n_sym_is_native(const CallInfo& ci, vector<Val>& a) { ret(ci, V(0)); }
static void n_sym_is_symbolic(const CallInfo& ci, vector<Val>& a) { ret(ci, V(a[0].e && !a[0].e->isConst())); }
static void n_upcast(const CallInfo& ci, vector<Val>& a) {
  int64_t adj = 0; bool ok = tiUpcast(C(a, 0), C(a, 1), adj);
  if (ok) { uint64_t p = C(a, 2); storeAt(access(p, 8, true), p - access(p, 8, true)->base, V((uint64_t)adj), 64); }
  ret(ci, V(ok ? 1 : 0));
}
static void n_sym_alloc_size(const CallInfo& ci, vector<Val>& a) { uint64_t p = C(a, 0); Obj* o = findObj(p); ret(ci, V(!o || o->freed || p < o->base || p > o->base + o->size ? 0 : o->base + o->size - p)); }
static void n_sym_heap(const CallInfo& ci, vector<Val>&) { ret(ci, V(S->heapLive)); }
static void n_sym_valid(const CallInfo& ci, vector<Val>& a) { uint64_t p = C(a, 0), n = C(a, 1); Obj* o = findObj(p); ret(ci, V(o && !o->freed && p >= o->base && p + n <= o->base + o->size)); }
static void n_alloc(const CallInfo& ci, vector<Val>& a) { // (size, kind, zero)
  uint64_t n = C(a, 0), k = C(a, 1), z = C(a, 2);
  if (n > (1ULL << 28)) { ret(ci, V(0)); return; }
  ret(ci, V(allocHeap(n, (OKind)k, z ? 0 : 2)));
}
static void n_free(const CallInfo& ci, vector<Val>& a) { uint64_t k = C(a, 1); uint64_t p = C(a, 0); freeHeap(p, (OKind)k, k == OK_Malloc ? "free" : k == OK_New ? "delete" : "delete[]"); finishCall(ci); }
static void n_memcpy(const CallInfo& ci, vector<Val>& a) { uint64_t d = C(a, 0), s = C(a, 1), n = C(a, 2); copyBytes(d, s, n, false); ret(ci, V(d)); }
static void n_memmove(const CallInfo& ci, vector<Val>& a) { uint64_t d = C(a, 0), s = C(a, 1), n = C(a, 2); copyBytes(d, s, n, true); ret(ci, V(d)); }
static void n_memset(const CallInfo& ci, vector<Val>& a) {
  uint64_t d = C(a, 0), n = C(a, 2);
  if (n) { Obj* o = access(d, n, true); uint64_t off = d - o->base; if (!a[1].e) { memset(o->d + off, (int)a[1].c & 255, n); memset(o->st + off, 0, n); } else { Expr* b = ci.argW[1] == 8 ? a[1].e : mkExtract(a[1].e, 0, 8); for (uint64_t k = 0; k < n; k++) putByte(o, off + k, b); } }
  ret(ci, V(d));
}
static void n_memcmp(const CallInfo& ci, vector<Val>& a) {
  uint64_t p = C(a, 0), q = C(a, 1), n = C(a, 2);
  if (!n) { ret(ci, V(0)); return; }
  Obj* x = access(p, n, false); Obj* y = access(q, n, false); uint64_t i = p - x->base, j = q - y->base;
  Expr* lt = mkConst(0, 1); Expr* eq = mkConst(1, 1);
  for (uint64_t k = n; k-- > 0;) {
    Expr* u = byteE(x, i + k); Expr* v = byteE(y, j + k); Expr* e = mkEq(u, v);
    lt = mkIte(e, lt, mkBin(K_Ult, u, v)); eq = mkAndB(e, eq);
  }
  if (hasUninit(eq)) {
    // memcmp stops at the first difference; uninitialised bytes beyond it are harmless only when the prefix decides
    for (uint64_t k = 0; k < n; k++) { Expr* u = byteE(x, i + k); Expr* v = byteE(y, j + k); Expr* e = mkEq(u, v); if (hasUninit(e)) fail("uninit-use", "memcmp of uninitialised memory"); if (e->isConst() && !e->c()) { ret(ci, V(u->c() < v->c() ? (uint64_t)-1 : 1)); return; } }
  }
  ret(ci, VE(mkIte(eq, mkConst(0, 32), mkIte(lt, mkConst(0xffffffffu, 32), mkConst(1, 32)))));
}
static void n_throw(const CallInfo& ci, vector<Val>& a) { uint64_t e = C(a, 0), ti = C(a, 1), h = C(a, 2); unwindFrom(e, ti, h); }
static void n_typeid_for(const CallInfo& ci, vector<Val>& a) { ret(ci, V((uint64_t)selectorOf(C(a, 0)))); }
static void n_trap(const CallInfo& ci, vector<Val>& a) { fail("trap", "trap executed"); }
static void n_va_start(const CallInfo& ci, vector<Val>& a) {
  uint64_t p = C(a, 0); Obj* o = access(p, 24, true); uint64_t off = p - o->base;
  storeAt(o, off, V(48), 32); storeAt(o, off + 4, V(304), 32); storeAt(o, off + 8, V(S->fr.back().va), 64); storeAt(o, off + 16, V(0), 64); finishCall(ci);
}
static void n_nop(const CallInfo& ci, vector<Val>& a) { if (!ci.dsts.empty()) ret(ci, V(0)); else finishCall(ci); }
static void n_va_copy(const CallInfo& ci, vector<Val>& a) { uint64_t d = C(a, 0), s = C(a, 1); copyBytes(d, s, 24, true); finishCall(ci); }
static uint64_t saveTop(void) { return STACK_BASE - 0x1000000 + S->stackTop; }
static void n_stacksave(const CallInfo& ci, vector<Val>& a) { ret(ci, V(saveTop())); }
static void n_stackrestore(const CallInfo& ci, vector<Val>& a) { uint64_t t = C(a, 0) - (STACK_BASE - 0x1000000); popStack(t); finishCall(ci); }
static void n_backtrace(const CallInfo& ci, vector<Val>& a) { string m; for (auto& f : S->fr) m += f.f->name + "@" + locStr(f.f, f.pc) + " "; fprintf(stderr, "BT %s\n", m.c_str()); finishCall(ci); }
static void n_trace(const CallInfo& ci, vector<Val>& a) { string m = cstr(C(a, 0)); fprintf(stderr, "TRACE %s %s\n", m.c_str(), a[1].e ? toStr(a[1].e, 8).c_str() : std::to_string(a[1].c).c_str()); finishCall(ci); }

static void n_ovf(const CallInfo& ci, vector<Val>& a, Kind k, bool sg) {
  unsigned w = ci.argW[0]; Expr *x = E(a[0], w), *y = E(a[1], w);
  unsigned W = k == K_Mul ? 2 * w : w + 1;
  Expr* X = sg ? mkSExt(x, W) : mkZExt(x, W); Expr* Y = sg ? mkSExt(y, W) : mkZExt(y, W);
  Expr* r = mkBin(k, X, Y); Expr* lo = mkBin(k, x, y);
  Expr* ov;
  if (k == K_Sub && !sg) ov = mkBin(K_Ult, x, y);
  else ov = mkNot(mkEq(r, sg ? mkSExt(lo, W) : mkZExt(lo, W)));
  Frame& f = S->fr.back(); setR(f, ci.dsts[0], VE(lo)); setR(f, ci.dsts[1], VE(ov)); finishCall(ci);
}
static void n_uaddo(const CallInfo& c, vector<Val>& a) { n_ovf(c, a, K_Add, false); }
static void n_usubo(const CallInfo& c, vector<Val>& a) { n_ovf(c, a, K_Sub, false); }
static void n_umulo(const CallInfo& c, vector<Val>& a) { n_ovf(c, a, K_Mul, false); }
static void n_saddo(const CallInfo& c, vector<Val>& a) { n_ovf(c, a, K_Add, true); }
static void n_ssubo(const CallInfo& c, vector<Val>& a) { n_ovf(c, a, K_Sub, true); }
static void n_smulo(const CallInfo& c, vector<Val>& a) { n_ovf(c, a, K_Mul, true); }
static void addcarry(const CallInfo& ci, vector<Val>& a, unsigned w, bool sub) { // {i8, iw} (i8 c, iw x, iw y)
  Expr* c = E(a[0], 8); Expr *x = E(a[1], w), *y = E(a[2], w);
  Expr* cb = mkZExt(mkNot(mkEq(c, mkConst(0, 8))), w + 1);
  Expr* r = sub ? mkBin(K_Sub, mkBin(K_Sub, mkZExt(x, w + 1), mkZExt(y, w + 1)), cb) : mkBin(K_Add, mkBin(K_Add, mkZExt(x, w + 1), mkZExt(y, w + 1)), cb);
  Frame& f = S->fr.back(); setR(f, ci.dsts[0], VE(mkZExt(mkExtract(r, w, 1), 8))); setR(f, ci.dsts[1], VE(mkExtract(r, 0, w))); finishCall(ci);
}
static void n_addc64(const CallInfo& c, vector<Val>& a) { addcarry(c, a, 64, false); }
static void n_subb64(const CallInfo& c, vector<Val>& a) { addcarry(c, a, 64, true); }
static void n_addc32(const CallInfo& c, vector<Val>& a) { addcarry(c, a, 32, false); }
static void n_subb32(const CallInfo& c, vector<Val>& a) { addcarry(c, a, 32, true); }
static void n_bswap(const CallInfo& ci, vector<Val>& a) { unsigned w = ci.argW[0]; Expr* x = E(a[0], w); Expr* r = nullptr; for (unsigned k = 0; k < w / 8; k++) { Expr* b = mkExtract(x, 8 * k, 8); r = r ? mkConcat(r, b) : b; } ret(ci, VE(r)); }
static void n_ctpop(const CallInfo& ci, vector<Val>& a) { unsigned w = ci.argW[0]; Expr* x = E(a[0], w); Expr* r = mkConst(0, w); for (unsigned k = 0; k < w; k++) r = mkBin(K_Add, r, mkZExt(mkExtract(x, k, 1), w)); ret(ci, VE(r)); }
static void n_ctlz(const CallInfo& ci, vector<Val>& a) { unsigned w = ci.argW[0]; Expr* x = E(a[0], w); Expr* r = mkConst(w, w); for (unsigned k = 0; k < w; k++) r = mkIte(mkEq(mkExtract(x, k, 1), mkConst(1, 1)), mkConst(w - 1 - k, w), r); ret(ci, VE(r)); }
static void n_cttz(const CallInfo& ci, vector<Val>& a) { unsigned w = ci.argW[0]; Expr* x = E(a[0], w); Expr* r = mkConst(w, w); for (unsigned k = w; k-- > 0;) r = mkIte(mkEq(mkExtract(x, k, 1), mkConst(1, 1)), mkConst(k, w), r); ret(ci, VE(r)); }
static void n_abs(const CallInfo& ci, vector<Val>& a) { unsigned w = ci.argW[0]; Expr* x = E(a[0], w); ret(ci, VE(mkIte(mkBin(K_Slt, x, mkConst(0, w)), mkBin(K_Sub, mkConst(0, w), x), x))); }
static void minmax(const CallInfo& ci, vector<Val>& a, Kind k, bool mx) { unsigned w = ci.argW[0]; Expr *x = E(a[0], w), *y = E(a[1], w); Expr* lt = mkBin(k, x, y); ret(ci, VE(mx ? mkIte(lt, y, x) : mkIte(lt, x, y))); }
static void n_umin(const CallInfo& c, vector<Val>& a) { minmax(c, a, K_Ult, false); }
static void n_umax(const CallInfo& c, vector<Val>& a) { minmax(c, a, K_Ult, true); }
static void n_smin(const CallInfo& c, vector<Val>& a) { minmax(c, a, K_Slt, false); }
static void n_smax(const CallInfo& c, vector<Val>& a) { minmax(c, a, K_Slt, true); }
static void n_fsh(const CallInfo& ci, vector<Val>& a, bool left) {
  unsigned w = ci.argW[0]; Expr *x = E(a[0], w), *y = E(a[1], w); Expr* s = mkZExt(mkBin(K_URem, E(a[2], w), mkConst(w, w)), 2 * w);
  Expr* c = mkConcat(x, y);
  ret(ci, VE(left ? mkExtract(mkBin(K_Shl, c, s), w, w) : mkExtract(mkBin(K_LShr, c, s), 0, w)));
}
static void n_fshl(const CallInfo& c, vector<Val>& a) { n_fsh(c, a, true); }
static void n_fshr(const CallInfo& c, vector<Val>& a) { n_fsh(c, a, false); }
static void n_isconst(const CallInfo& c, vector<Val>& a) { ret(c, V(0)); }
static void n_objsize(const CallInfo& c, vector<Val>& a) { ret(c, V((a[1].c & 1) ? 0 : ~0ULL)); }
static double asD(const Val& v, unsigned w) { if (w == 32) { uint32_t b = (uint32_t)v.c; float f; memcpy(&f, &b, 4); return f; } double d; memcpy(&d, &v.c, 8); return d; }
static Val fromD(double d, unsigned w) { if (w == 32) { float f = (float)d; uint32_t b; memcpy(&b, &f, 4); return V(b); } uint64_t b; memcpy(&b, &d, 8); return V(b); }
static void n_fn1(const CallInfo& ci, vector<Val>& a, double (*fn)(double)) { unsigned w = ci.argW[0]; Val v = V(C(a, 0)); ret(ci, fromD(fn(asD(v, w)), w)); }
static void n_ceil(const CallInfo& c, vector<Val>& a) { n_fn1(c, a, std::ceil); }
static void n_floor(const CallInfo& c, vector<Val>& a) { n_fn1(c, a, std::floor); }
static void n_fabs(const CallInfo& c, vector<Val>& a) { n_fn1(c, a, std::fabs); }

struct PN { const char* n; Nat f; };
static PN prefixN[] = {
  {"llvm.memcpy.", n_memcpy}, {"llvm.memmove.", n_memmove}, {"llvm.memset.", n_memset}, {"llvm.eh.typeid.for", n_typeid_for}, {"llvm.trap", n_trap}, {"llvm.ubsantrap", n_trap},
  {"llvm.va_start", n_va_start}, {"llvm.va_end", n_nop}, {"llvm.va_copy", n_va_copy}, {"llvm.stacksave", n_stacksave}, {"llvm.stackrestore", n_stackrestore},
  {"llvm.uadd.with.overflow", n_uaddo}, {"llvm.usub.with.overflow", n_usubo}, {"llvm.umul.with.overflow", n_umulo}, {"llvm.sadd.with.overflow", n_saddo}, {"llvm.ssub.with.overflow", n_ssubo}, {"llvm.smul.with.overflow", n_smulo},
  {"llvm.x86.addcarry.64", n_addc64}, {"llvm.x86.subborrow.64", n_subb64}, {"llvm.x86.addcarry.32", n_addc32}, {"llvm.x86.subborrow.32", n_subb32}, {"llvm.x86.addcarryx.u64", n_addc64},
  {"llvm.bswap.", n_bswap}, {"llvm.ctpop.", n_ctpop}, {"llvm.ctlz.", n_ctlz}, {"llvm.cttz.", n_cttz}, {"llvm.abs.", n_abs}, {"llvm.umin.", n_umin}, {"llvm.umax.", n_umax}, {"llvm.smin.", n_smin}, {"llvm.smax.", n_smax},
  {"llvm.fshl.", n_fshl}, {"llvm.fshr.", n_fshr}, {"llvm.is.constant", n_isconst}, {"llvm.objectsize", n_objsize}, {"llvm.ceil.", n_ceil}, {"llvm.floor.", n_floor}, {"llvm.fabs.", n_fabs}, {nullptr, nullptr}};
static PN exactN[] = {
  {"sym_bytes", n_sym_bytes}, {"sym_choose_impl", n_sym_choose}, {"sym_assume_impl", n_sym_assume}, {"sym_assert_impl", n_sym_assert}, {"sym_reach", n_sym_reach}, {"sym_observe", n_sym_observe}, {"sym_observe_bytes", n_sym_observe_bytes},
  {"sym_param", n_sym_param}, {"sym_uf", n_sym_uf}, {"sym_concretize", n_sym_concretize}, {"sym_end", n_sym_end}, {"sym_fail_impl", n_sym_fail}, {"sym_is_native", n_sym_is_native}, {"sym_is_symbolic", n_sym_is_symbolic}, {"sym_alloc_size", n_sym_alloc_size}, {"sym_valid", n_sym_valid}, {"sym_heap", n_sym_heap},
  {"__sx_upcast", n_upcast}, {"__sx_alloc", n_alloc}, {"__sx_free", n_free}, {"__sx_throw", n_throw}, {"__sx_backtrace", n_backtrace}, {"__sx_trace", n_trace}, {"sym_trace", n_trace},
  {"memcpy", n_memcpy}, {"memmove", n_memmove}, {"memset", n_memset}, {"memcmp", n_memcmp}, {"bcmp", n_memcmp}, {"ceil", n_ceil}, {"ceilf", n_ceil}, {"floor", n_floor}, {"ceill", n_nop},
  {"__cxa_atexit", n_nop}, {"__cxa_thread_atexit", n_nop}, {nullptr, nullptr}};
static Nat natFor(Func* f) {
  if (f->native == -2) return nullptr;
  if (f->native >= 0) return natTab[f->native];
  Nat r = nullptr;
  for (PN* p = exactN; p->n; p++) if (f->name == p->n) r = p->f;
  if (!r && f->name.rfind("llvm.", 0) == 0) for (PN* p = prefixN; p->n; p++) if (f->name.rfind(p->n, 0) == 0) { r = p->f; break; }
  if (r) { f->native = (int)natTab.size(); natTab.push_back(r); } else f->native = -2;
  return r;
}

static void doCall(Frame& f, Inst& in) {
  CallInfo& ci = f.f->calls[in.x];
  Func* fn = ci.fn;
  if (!fn) {
    Val cv = get(f, ci.callee); uint64_t a = concretize(cv, 64);
    fn = funcAt(a);
    if (!fn) fail(a < 0x10000 ? "null-call" : "wild-call", "call through an invalid function pointer");
  }
  vector<Val> args; args.reserve(ci.args.size());
  for (int o : ci.args) args.push_back(get(f, o));
  Nat nat = natFor(fn);
  if (nat) { nat(ci, args); return; }
  if (fn->isDecl && fn->name.compare(0, 5, "llvm.") == 0) { // mathematical intrinsics: the C function of that name
    string n = fn->name.substr(5), suf; size_t d = n.find('.'); if (d != string::npos) { suf = n.substr(d); n = n.substr(0, d); } if (suf == ".f32") n += "f";
    for (auto* g : M.funcs) if (!g->isDecl && g->name == n) { fn = g; break; }
  }
  if (fn->isDecl) unsupported("call to unmodelled external function " + fn->name);
  // by-value aggregates
  State& s = *S;
  lowerFunc(fn);
  uint64_t savedTop = s.stackTop;
  for (size_t i = 0; i < ci.byvalSize.size(); i++) if (ci.byvalSize[i]) { uint64_t src = concretize(args[ci.argStart[i]], 64); uint64_t d = allocStack(ci.byvalSize[i], 16); copyBytes(d, src, ci.byvalSize[i], true); args[ci.argStart[i]] = V(d); }
  uint64_t va = 0;
  if (fn->varArg) {
    int extra = (int)args.size() - fn->nargs; if (extra < 0) extra = 0;
    va = allocStack(8 * (extra ? extra : 1), 16); Obj* o = access(va, 8, true);
    if (extra) { o = access(va, 8 * extra, true); for (int k = 0; k < extra; k++) { Val v = args[fn->nargs + k]; unsigned w = ci.argW[fn->nargs + k]; if (w > 64) unsupported("wide vararg"); if (w < 64 && v.e) v = VE(mkZExt(v.e, 64)); storeAt(o, va - o->base + 8 * k, v, 64); } }
  }
  pushFrame(fn, args, in.x);
  s.fr.back().stackTop = (uint32_t)savedTop; s.fr.back().va = va;
}
static void doRet(Frame& f, Inst& in) {
  State& s = *S; MemInfo& mi = f.f->mems[in.x];
  Val rv[8]; vector<Val> big; size_t n = mi.leaves.size(); Val* r = rv; if (n > 8) { big.resize(n); r = big.data(); }
  for (size_t k = 0; k < n; k++) r[k] = get(f, std::get<0>(mi.leaves[k]));
  popStack(f.stackTop); s.regs.resize(f.base); s.fr.pop_back();
  if (s.fr.empty()) { endPath(true); }
  Frame& c = s.fr.back(); Inst& ci0 = c.f->code[c.pc];
  if (ci0.op != O_Call) { c.pc++; return; }
  CallInfo& ci = c.f->calls[ci0.x];
  for (size_t k = 0; k < ci.dsts.size() && k < n; k++) setR(c, ci.dsts[k], r[k]);
  finishCall(ci);
}
static Val icmp(Frame& f, Inst& in) {
  Val a = get(f, in.a), b = get(f, in.b); unsigned w = in.w; uint8_t p = in.sub;
  if (!a.e && !b.e) {
    uint64_t x = a.c, y = b.c;
    if (in.ptr && p > P_NE && (f.f->fromRepo) && x != y && x > 0x10000 && y > 0x10000) {
      int r1 = regionOf(x), r2 = regionOf(y);
      if (r1 >= 0 && r2 >= 0) {
        uint64_t i = (x - regionBase(r1)) / SLOT, j = (y - regionBase(r2)) / SLOT;
        Obj* ox = findObj(x); Obj* oy = findObj(y);
        if ((r1 != r2 || i != j) && ox && oy && ox != oy) {
          uint64_t ba = ox->base, bb = oy->base; char nm[80]; bool sw = ba > bb; snprintf(nm, 80, "ptrorder#%lx#%lx", sw ? bb : ba, sw ? ba : bb);
          Expr* lt = mkSym(nm, 1);
          { bool have = false; for (auto& in : S->inputs) if (in.name == nm) have = true; if (!have) { Input in; in.name = nm; in.b.push_back(lt); S->inputs.push_back(in); } }
          if (sw) lt = mkNot(lt); // lt: x's object lies below y's
          return VE(p == P_ULT || p == P_ULE || p == P_SLT || p == P_SLE ? lt : mkNot(lt));
        }
      }
    }
    bool r;
    switch (p) {
      case P_EQ: r = x == y; break; case P_NE: r = x != y; break;
      case P_UGT: r = x > y; break; case P_UGE: r = x >= y; break; case P_ULT: r = x < y; break; case P_ULE: r = x <= y; break;
      case P_SGT: r = sx(x, w) > sx(y, w); break; case P_SGE: r = sx(x, w) >= sx(y, w); break; case P_SLT: r = sx(x, w) < sx(y, w); break; default: r = sx(x, w) <= sx(y, w); break;
    }
    return V(r);
  }
  Expr *x = E(a, w), *y = E(b, w);
  switch (p) {
    case P_EQ: return VE(mkEq(x, y)); case P_NE: return VE(mkNot(mkEq(x, y)));
    case P_UGT: return VE(mkBin(K_Ult, y, x)); case P_UGE: return VE(mkBin(K_Ule, y, x)); case P_ULT: return VE(mkBin(K_Ult, x, y)); case P_ULE: return VE(mkBin(K_Ule, x, y));
    case P_SGT: return VE(mkBin(K_Slt, y, x)); case P_SGE: return VE(mkBin(K_Sle, y, x)); case P_SLT: return VE(mkBin(K_Slt, x, y)); default: return VE(mkBin(K_Sle, x, y));
  }
}
static Val binop(Frame& f, Inst& in) {
  Val a = get(f, in.a), b = get(f, in.b); unsigned w = in.w; Kind k = (Kind)in.sub;
  if (k == K_UDiv || k == K_SDiv || k == K_URem || k == K_SRem) {
    Expr* nz = truthy(b, w); if (nz->isConst()) { if (!nz->c()) fail("div-by-zero", "division by zero"); } else require(nz, "div-by-zero", "division by zero");
    if ((k == K_SDiv || k == K_SRem) && w <= 64 && !a.e && !b.e && sx(b.c, w) == -1 && a.c == (1ULL << (w - 1))) fail("div-overflow", "signed division overflow");
  }
  if (k == K_Shl || k == K_LShr || k == K_AShr) {
    if (!b.e && w <= 64) { if (b.c >= w) { if (f.f->fromRepo) fail("bad-shift", "shift amount not below the width"); b.c &= w - 1; } }
    else if (f.f->fromRepo && b.e) { Expr* ok = mkBin(K_Ult, b.e, mkConst(w, w)); if (!ok->isConst() || !ok->c()) require(ok, "bad-shift", "shift amount not below the width"); }
  }
  if (!a.e && !b.e && w <= 64) {
    uint64_t x = a.c, y = b.c, r, m = maskOf(w);
    switch (k) {
      case K_Add: r = x + y; break; case K_Sub: r = x - y; break; case K_Mul: r = x * y; break;
      case K_UDiv: r = x / y; break; case K_URem: r = x % y; break; case K_SDiv: r = (uint64_t)(sx(x, w) / sx(y, w)); break; case K_SRem: r = (uint64_t)(sx(x, w) % sx(y, w)); break;
      case K_And: r = x & y; break; case K_Or: r = x | y; break; case K_Xor: r = x ^ y; break;
      case K_Shl: r = x << y; break; case K_LShr: r = x >> y; break; default: r = (uint64_t)(sx(x, w) >> y); break;
    }
    return V(r & m);
  }
  return VE(mkBin(k, E(a, w), E(b, w)));
}
static Val gep(Frame& f, Inst& in) {
  GepInfo& g = f.f->geps[in.x]; Val p = get(f, in.a);
  uint64_t c = p.c + (uint64_t)g.off; Expr* e = p.e; if (e) { c = (uint64_t)g.off; }
  for (auto& t : g.terms) {
    Val v = get(f, std::get<0>(t)); unsigned w = std::get<1>(t); int64_t sc = std::get<2>(t);
    if (!v.e) c += (uint64_t)(sx(v.c, w) * sc);
    else { Expr* x = v.e; if (w < 64) x = mkSExt(x, 64); Expr* y = mkBin(K_Mul, x, mkConst((uint64_t)sc, 64)); e = e ? mkBin(K_Add, e, y) : y; }
  }
  if (!e) return V(c);
  return VE(mkBin(K_Add, e, mkConst(c, 64)));
}
static uint64_t localSteps = 0;
static void flushSteps() { SH->steps += localSteps; localSteps = 0; }

static void runPath() {
  State& s = *S;
  uint64_t tick = 0;
  for (;;) {
    Frame& f = s.fr.back();
    Inst& in = f.f->code[f.pc];
    localSteps++;
    if (++s.steps > maxSteps) fail("nontermination", "step limit " + std::to_string(maxSteps) + " exceeded");
    if ((++tick & 0xffff) == 0) { if (SH->stop) throw PathEnd(); if (now() > deadline) { SH->incomplete = 1; SH->stop = 1; if (s.steps > 30000000) fail("nontermination", "still running after " + std::to_string(s.steps) + " steps when the time ran out"); throw PathEnd(); } }
    if (f.f->covBase) SH->cov[f.f->covBase + f.pc] = 1;
    if (traceOn) fprintf(stderr, "%*s%s pc=%d op=%d %s\n", (int)s.fr.size(), "", f.f->name.c_str(), f.pc, in.op, locStr(f.f, f.pc).c_str());
    switch (in.op) {
      case O_Bin: setR(f, in.dst, binop(f, in)); f.pc++; break;
      case O_ICmp: setR(f, in.dst, icmp(f, in)); f.pc++; break;
      case O_Select: {
        Val c = get(f, in.a), a = get(f, in.b), b = get(f, in.c);
        if (!c.e) setR(f, in.dst, c.c & 1 ? a : b); else setR(f, in.dst, VE(mkIte(c.e, E(a, in.w), E(b, in.w))));
        f.pc++; break;
      }
      case O_Trunc: { Val a = get(f, in.a); if (!a.e) a.c &= maskOf(in.w); else a = VE(mkExtract(a.e, 0, in.w)); setR(f, in.dst, a); f.pc++; break; }
      case O_ZExt: { Val a = get(f, in.a); if (a.e || in.w > 64) a = VE(mkZExt(E(a, in.w2), in.w)); setR(f, in.dst, a); f.pc++; break; }
      case O_SExt: { Val a = get(f, in.a); if (a.e || in.w > 64) a = VE(mkSExt(E(a, in.w2), in.w)); else a.c = (uint64_t)sx(a.c, in.w2) & maskOf(in.w); setR(f, in.dst, a); f.pc++; break; }
      case O_Mov: setR(f, in.dst, get(f, in.a)); f.pc++; break;
      case O_Gep: setR(f, in.dst, gep(f, in)); f.pc++; break;
      case O_Load: {
        Val p = get(f, in.a); if (in.c) { if (p.e) p = VE(mkBin(K_Add, p.e, mkConst(in.c, 64))); else p.c += in.c; }
        setR(f, in.dst, doLoad(p, in.w)); f.pc++; break;
      }
      case O_Store: {
        Val p = get(f, in.a); if (in.c) { if (p.e) p = VE(mkBin(K_Add, p.e, mkConst(in.c, 64))); else p.c += in.c; }
        doStore(p, get(f, in.b), in.w); f.pc++; break;
      }
      case O_Alloca: { uint64_t n = concretize(get(f, in.a), in.w2); setR(f, in.dst, V(allocStack(n * (uint64_t)in.x, in.w ? in.w : 1))); f.pc++; break; }
      case O_Br: takeEdge(f, in.x); break;
      case O_CondBr: {
        Val c = get(f, in.a);
        if (!c.e) { takeEdge(f, c.c & 1 ? in.x : in.c); break; }
        // decide() may fork a copy that must take the other edge
        Expr* e = c.e;
        if (hasUninit(e)) fail("uninit-branch", "branch depends on uninitialised memory");
        SH->symBranches++;
        bool t = truth(s, e); Expr* oth = t ? mkNot(e) : e; Model m = s.model; Res r = checkSat(s.pc, oth, m);
        if (r == Sat) { State* n = forkWith(s, oth, m); State* sv = S; S = n; takeEdge(n->fr.back(), t ? in.c : in.x); S = sv; s.pc.add(t ? e : mkNot(e)); }
        else if (r == Unknown) { unknownResult(); s.pc.add(t ? e : mkNot(e)); }
        takeEdge(f, t ? in.x : in.c); break;
      }
      case O_Switch: {
        Val c = get(f, in.a); auto& sw = f.f->switches[in.x];
        if (c.e) {
          // fork per distinct target
          if (hasUninit(c.e)) fail("uninit-branch", "switch depends on uninitialised memory");
          std::map<int, Expr*> tgt; Expr* any = mkConst(0, 1);
          for (auto& k : sw.cases) { int pc = f.f->edges[k.second].copies.empty() ? f.f->edges[k.second].pc : -1 - k.second; Expr* q = mkEq(c.e, mkConst(k.first, in.w)); auto it = tgt.find(pc); if (it == tgt.end()) tgt[pc] = q; else it->second = mkOrB(it->second, q); any = mkOrB(any, q); }
          bool taken = false;
          for (auto& k : sw.cases) {
            int pc = f.f->edges[k.second].copies.empty() ? f.f->edges[k.second].pc : -1 - k.second; auto it = tgt.find(pc); if (it == tgt.end()) continue; Expr* q = it->second; tgt.erase(it);
            SH->symBranches++;
            if (q->isConst() && !q->c()) continue;
            bool t = truth(s, q);
            if (t) { // current model takes this target; the rest is retried by a fork
              Model m = s.model; Expr* nq = mkNot(q); Res r = nq->isConst() ? (nq->c() ? Sat : Unsat) : checkSat(s.pc, nq, m);
              if (r == Sat && !nq->isConst()) { forkWith(s, nq, m); s.pc.add(q); } else if (r == Unknown) { unknownResult(); }
              takeEdge(f, k.second); taken = true; break;
            }
          }
          if (!taken) { Expr* q = mkNot(any); Model m = s.model; if (!q->isConst()) { Res r = checkSat(s.pc, any, m); if (r == Sat) { forkWith(s, any, m); s.pc.add(q); } else if (r == Unknown) unknownResult(); } takeEdge(f, sw.def); }
          break;
        }
        int e = sw.def; for (auto& k : sw.cases) if (k.first == c.c) { e = k.second; break; }
        takeEdge(f, e); break;
      }
      case O_Ret: doRet(f, in); break;
      case O_Call: doCall(f, in); break;
      case O_LandingPad: f.pc++; break;
      case O_Resume: {
        uint64_t exc = concretize(get(f, in.a), 64); uint64_t hdr = exc - 64; Obj* o = access(hdr, 8, false); uint64_t ti = loadAt(o, hdr - o->base, 64).c;
        popStack(f.stackTop); s.regs.resize(f.base); s.fr.pop_back(); unwindFrom(exc, ti, hdr); break;
      }
      case O_Unreachable: fail("unreachable", "control flows off the end of a function or into unreachable code");
      case O_FBin: {
        double x = asD(V(concretize(get(f, in.a), in.w)), in.w), y = asD(V(concretize(get(f, in.b), in.w)), in.w), r;
        if (in.w > 64) unsupported("long double arithmetic");
        switch (in.sub) { case 0: r = x + y; break; case 1: r = x - y; break; case 2: r = x * y; break; case 3: r = x / y; break; default: r = std::fmod(x, y); }
        setR(f, in.dst, fromD(r, in.w)); f.pc++; break;
      }
      case O_FNeg: { if (in.w > 64) unsupported("long double arithmetic"); setR(f, in.dst, fromD(-asD(V(concretize(get(f, in.a), in.w)), in.w), in.w)); f.pc++; break; }
      case O_FCmp: {
        if (in.w > 64) unsupported("long double arithmetic");
        double x = asD(V(concretize(get(f, in.a), in.w)), in.w), y = asD(V(concretize(get(f, in.b), in.w)), in.w); bool un = std::isnan(x) || std::isnan(y); uint8_t p = in.sub;
        bool r = (p & 1 && x == y && !un) || (p & 2 && x > y && !un) || (p & 4 && x < y && !un) || (p & 8 && un);
        setR(f, in.dst, V(r)); f.pc++; break;
      }
      case O_FCast: {
        if (in.w > 64 || in.w2 > 64) unsupported("long double conversion");
        Val a = V(concretize(get(f, in.a), in.w2)); Val r;
        switch (in.sub) {
          case 0: case 1: r = fromD(asD(a, in.w2), in.w); break;
          case 2: r = V((uint64_t)asD(a, in.w2) & maskOf(in.w)); break; case 3: r = V((uint64_t)(int64_t)asD(a, in.w2) & maskOf(in.w)); break;
          case 4: r = in.w == 32 ? fromD((double)(float)a.c, 32) : fromD((double)a.c, 64); break; default: r = in.w == 32 ? fromD((double)(float)sx(a.c, in.w2), 32) : fromD((double)sx(a.c, in.w2), 64);
        }
        setR(f, in.dst, r); f.pc++; break;
      }
      case O_RMW: {
        Val p = get(f, in.a), o = doLoad(p, in.w), v = get(f, in.b); Val n;
        switch (in.sub) { case 0: n = v; break; case 1: n = VE(mkBin(K_Add, E(o, in.w), E(v, in.w))); break; case 2: n = VE(mkBin(K_Sub, E(o, in.w), E(v, in.w))); break; case 3: n = VE(mkBin(K_And, E(o, in.w), E(v, in.w))); break; case 5: n = VE(mkBin(K_Or, E(o, in.w), E(v, in.w))); break; case 6: n = VE(mkBin(K_Xor, E(o, in.w), E(v, in.w))); break; default: unsupported("atomicrmw"); }
        doStore(p, n, in.w); setR(f, in.dst, o); f.pc++; break;
      }
      case O_CmpXchg: {
        Val p = get(f, in.a), o = doLoad(p, in.w); uint64_t ov = concretize(o, in.w), cv = concretize(get(f, in.b), in.w);
        if (ov == cv) doStore(p, get(f, in.c), in.w); setR(f, in.dst, V(ov)); setR(f, in.x, V(ov == cv)); f.pc++; break;
      }
      default: unsupported(string("unsupported instruction: ") + (in.why ? in.why : "?"));
    }
  }
}

// ---------------------------------------------------------------- driver
static double lastDonate = 0;
static void flushStats() {
  flushSteps();
  SH->qFast += g_ss.fast; SH->qZ3 += g_ss.z3; SH->qCache += g_ss.cache; SH->qSat += g_ss.sat; SH->qUnsat += g_ss.unsat; SH->z3us += (uint64_t)(g_ss.z3s * 1e6);
  uint64_t mq = (uint64_t)(g_ss.maxq * 1e6); uint64_t cur = SH->maxqus; while (mq > cur && !SH->maxqus.compare_exchange_weak(cur, mq));
  g_ss = SolverStats();
  struct rusage ru; getrusage(RUSAGE_SELF, &ru); uint64_t rss = ru.ru_maxrss; cur = SH->maxRss; while (rss > cur && !SH->maxRss.compare_exchange_weak(cur, rss));
  uint64_t ec = exprCount(); cur = SH->exprs; while (ec > cur && !SH->exprs.compare_exchange_weak(cur, ec));
}
static bool isRoot = true;
static void explore() {
  while (!work.empty()) {
    if (SH->stop) break;
    if (work.size() >= 2 && SH->freeSlots > 0) {
      int v = SH->freeSlots.load();
      if (v > 0 && SH->freeSlots.compare_exchange_strong(v, v - 1)) {
        flushStats(); 
        pid_t p = fork();
        if (p == 0) {
          isRoot = false; localPaths = 0; size_t half = work.size() / 2; work.erase(work.begin() + half, work.end()); // leaks the others on purpose
          prctl(PR_SET_PDEATHSIG, 0);
        } else if (p > 0) { size_t half = work.size() / 2; for (size_t i = 0; i < half; i++) { delete work.front(); work.pop_front(); } }
        else SH->freeSlots++;
      }
    }
    S = work.back(); work.pop_back();
    uint64_t cur = SH->statesPeak; uint64_t ws = work.size(); while (ws > cur && !SH->statesPeak.compare_exchange_weak(cur, ws));
    try { runPath(); } catch (PathEnd&) {}
    { uint64_t st = S->steps, c2 = SH->maxSteps; while (st > c2 && !SH->maxSteps.compare_exchange_weak(c2, st)); }
    delete S; S = nullptr;
    if (now() > deadline) { SH->incomplete = 1; SH->stop = 1; }
    if ((localPaths & 63) == 0) { struct rusage ru; getrusage(RUSAGE_SELF, &ru); if (ru.ru_maxrss > 5000000) { engineError("memory limit"); SH->stop = 1; } }
  }
}

int main(int argc, char** argv) {
  string bc, entry = "harness"; int procs = 8; double tmo = 60; bool verbose = false;
  for (int i = 1; i < argc; i++) {
    string a = argv[i];
    auto nx = [&]() { return string(argv[++i]); };
    if (a == "--out") outPath = nx(); else if (a == "--procs") procs = std::stoi(nx()); else if (a == "--timeout") tmo = std::stod(nx());
    else if (a == "--max-steps") maxSteps = std::stoull(nx()); else if (a == "--entry") entry = nx(); else if (a == "--max-viol") maxViol = std::stoi(nx());
    else if (a == "--max-depth") maxDepth = std::stoi(nx()); else if (a == "--samples") sampleMax = std::stoi(nx()); else if (a == "--sample-every") sampleEvery = std::stoull(nx());
    else if (a == "--set") { string kv = nx(); auto p = kv.find('='); setParams[kv.substr(0, p)] = std::stoll(kv.substr(p + 1)); }
    else if (a == "--layout") { string l = nx(); uint64_t b[3] = {0x100000000000ULL, 0x200000000000ULL, 0x300000000000ULL}; for (int k = 0; k < 3; k++) { if (l[k] == 'g') GLOB_BASE = b[k]; if (l[k] == 'h') HEAP_BASE = b[k]; if (l[k] == 's') STACK_BASE = b[k]; } }
    else if (a == "--trace") traceOn = true; else if (a == "--forks") dbgForks = true; else if (a == "--no-fast") g_noFast = true; else if (a == "--dump") g_dumpDir = nx(); else if (a == "--rlimit") g_rlimit = std::stoull(nx()); else if (a == "-v") verbose = true;
    else bc = a;
  }
  struct rlimit rl; getrlimit(RLIMIT_STACK, &rl);
  if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (1UL << 30)) { rl.rlim_cur = rl.rlim_max == RLIM_INFINITY ? (4UL << 30) : std::min<rlim_t>(rl.rlim_max, 4UL << 30); if (setrlimit(RLIMIT_STACK, &rl) == 0) execv("/proc/self/exe", argv); }
  double t0 = now(); deadline = t0 + tmo;
  SH = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  outFd = outPath.empty() ? 1 : open(outPath.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
  if (outFd < 0) { perror("out"); return 3; }
  prctl(PR_SET_CHILD_SUBREAPER, 1);
  loadModule(bc);
  int cb = 16; int nRepo = 0;
  for (auto* f : M.funcs) if (f->fromRepo && !f->isDecl) { lowerFunc(f); if (cb + (int)f->code.size() < (1 << 20)) { f->covBase = cb; cb += (int)f->code.size(); } nRepo++; }
  Func* ef = M.byName.count(entry) ? M.byName[entry] : nullptr;
  if (!ef || ef->isDecl) { fprintf(stderr, "symex: no entry %s\n", entry.c_str()); return 3; }
  // constructors run concretely, then the entry point
  SH->freeSlots = 0;
  S = g_init;
  try {
    for (auto& c : M.ctors) {
pushFrame(c.second, {}, -1); // returning from the only frame ends the run
      if (!S->fr.empty()) { try { runPath(); } catch (PathEnd&) { if (!S->fr.empty()) { fprintf(stderr, "symex: static initialisation failed in %s\n", c.second->name.c_str()); return 4; } } }
    }
  } catch (PathEnd&) { return 4; }
  SH->paths = 0; localPaths = 0; S->steps = 0;
  pushFrame(ef, {}, -1);
  work.push_back(S); S = nullptr;
  SH->freeSlots = procs - 1;
  explore();
  if (dbgForks) { vector<std::pair<uint64_t, string>> v; for (auto& k : forkSites) v.push_back({k.second, k.first}); std::sort(v.rbegin(), v.rend()); for (size_t i = 0; i < v.size() && i < 25; i++) fprintf(stderr, "%8lu %s\n", v[i].first, v[i].second.c_str()); }
  flushStats(); SH->freeSlots++;
  if (!isRoot) _exit(0);
  bool crashed = false; int st; pid_t p;
  while ((p = waitpid(-1, &st, 0)) > 0 || (p < 0 && errno == EINTR)) if (p > 0 && !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) crashed = true;
  if (crashed) { SH->incomplete = 1; outLine("{\"t\":\"engine-error\",\"msg\":\"worker process died\",\"loc\":\"\"}"); }
  string fns; bool first = true; uint64_t covI = 0, totI = 0;
  for (auto* f : M.funcs) if (f->fromRepo && f->covBase && SH->funcHit[f->id & 0xffff]) {
    uint64_t c = 0; for (size_t i = 0; i < f->code.size(); i++) c += SH->cov[f->covBase + i]; covI += c; totI += f->code.size();
    fns += (first ? "" : ",") + string("[") + jstr(f->name) + "," + jstr(f->file + ":" + std::to_string(f->line)) + "," + std::to_string(c) + "," + std::to_string(f->code.size()) + "]"; first = false;
  }
  char b[2000];
  snprintf(b, sizeof b, "{\"t\":\"summary\",\"complete\":%s,\"paths\":%lu,\"err_paths\":%lu,\"assumed_away\":%lu,\"instructions\":%lu,\"sym_branches\":%lu,\"asserts\":%lu,\"asserts_symbolic\":%lu,\"q_fast\":%lu,\"q_z3\":%lu,\"q_cache\":%lu,\"q_sat\":%lu,\"q_unsat\":%lu,\"q_unknown\":%lu,\"solver_s\":%.3f,\"max_query_s\":%.3f,\"forks\":%d,\"max_rss_kb\":%lu,\"peak_pending\":%lu,\"max_path_steps\":%lu,\"exprs\":%lu,\"cov_instr\":%lu,\"tot_instr\":%lu,\"wall_s\":%.3f,\"functions\":[",
    SH->incomplete || SH->stop ? "false" : "true", SH->paths.load(), SH->errPaths.load(), SH->assumed.load(), SH->steps.load(), SH->symBranches.load(), SH->asserts.load(), SH->assertsZ3.load(), SH->qFast.load(), SH->qZ3.load(), SH->qCache.load(), SH->qSat.load(), SH->qUnsat.load(), SH->qUnknown.load(), SH->z3us / 1e6, SH->maxqus / 1e6, SH->forks.load(), SH->maxRss.load(), SH->statesPeak.load(), SH->maxSteps.load(), SH->exprs.load(), covI, totI, now() - t0);
  outLine(string(b) + fns + "]}");
  return 0;
}
