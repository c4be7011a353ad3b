// Hash-consed bit-vector expression DAG with eager simplification.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <unordered_map>
#include <memory>
#include "llvm/ADT/APInt.h"

enum Kind : uint8_t {
  K_Const, K_Sym, K_Add, K_Sub, K_Mul, K_UDiv, K_SDiv, K_URem, K_SRem,
  K_And, K_Or, K_Xor, K_Shl, K_LShr, K_AShr,
  K_Eq, K_Ult, K_Ule, K_Slt, K_Sle,
  K_Ite, K_Concat, K_Extract, K_ZExt, K_SExt, K_UF, K_Table, K_Select
};

struct VarSet {
  std::vector<uint32_t> v;   // sorted
  uint32_t id;
};

struct Expr {
  Kind kind;
  uint16_t width;
  uint32_t id;
  uint32_t hash;
  uint32_t aux;            // Sym: symbol id; Extract: low bit; UF: function id
  uint32_t nk;
  Expr** k;                // children
  uint64_t* w;             // Const: words
  const VarSet* vars;
  uint64_t umin, umax;     // valid when width<=64
  uint64_t kz;             // known-zero bits, width<=64
  // evaluation memo
  uint64_t evEpoch; uint64_t evVal;
  void* z3bv; void* z3bool; // cached translations
  uint64_t* dom;            // cached truth bitmap over one 8-bit symbol (width-1 exprs)
  bool isConst() const { return kind == K_Const; }
  uint64_t c() const { return w[0]; }
};

struct SymInfo { std::string name; uint16_t width; bool uninit; Expr* e; };
struct UFInfo { std::string name; uint16_t width; };

extern std::vector<SymInfo> g_syms;
extern std::vector<UFInfo> g_ufs;

inline uint64_t maskOf(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
inline int64_t sx(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : ((int64_t)(v << (64 - w))) >> (64 - w); }

Expr* mkConst(uint64_t v, unsigned w);
Expr* mkConstAP(const llvm::APInt& v);
Expr* mkSym(const std::string& name, unsigned w, bool uninit = false);
Expr* mkBin(Kind k, Expr* a, Expr* b);
Expr* mkIte(Expr* c, Expr* a, Expr* b);
Expr* mkConcat(Expr* hi, Expr* lo);
Expr* mkExtract(Expr* e, unsigned lo, unsigned w);
Expr* mkZExt(Expr* e, unsigned w);
Expr* mkSExt(Expr* e, unsigned w);
Expr* mkNot(Expr* e);             // bitwise not; logical not on width 1
Expr* mkUF(const std::string& fn, unsigned w, const std::vector<Expr*>& args);
Expr* mkTable(const std::vector<Expr*>& elems);
Expr* mkSelect(Expr* table, Expr* idx);
inline Expr* mkEq(Expr* a, Expr* b) { return mkBin(K_Eq, a, b); }
inline Expr* mkAndB(Expr* a, Expr* b) { return mkBin(K_And, a, b); }
inline Expr* mkOrB(Expr* a, Expr* b) { return mkBin(K_Or, a, b); }

llvm::APInt constAP(const Expr* e);

// concrete evaluation
struct Model {
  std::vector<uint64_t> v;                    // by symbol id (missing = 0)
  std::shared_ptr<std::unordered_map<std::string, llvm::APInt>> uf;
  uint64_t get(uint32_t s) const { return s < v.size() ? v[s] : 0; }
  void set(uint32_t s, uint64_t x) { if (s >= v.size()) v.resize(s + 1, 0); v[s] = x; }
};
uint64_t evalExpr(Expr* e, const Model& m);       // width <= 64
llvm::APInt evalExprAP(Expr* e, const Model& m);
void evalBegin();                                  // start a new memo epoch
std::string ufKey(uint32_t fn, const std::vector<llvm::APInt>& args);

const VarSet* vsUnion(const VarSet* a, const VarSet* b);
std::string toStr(Expr* e, int depth = 6);
size_t exprCount();
