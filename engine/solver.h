// Path-condition solver: independence slicing, query cache, 8-bit domain
// pre-filter for branch feasibility, Z3 for everything else.
#pragma once
#include "expr.h"
enum Res { Unsat, Sat, Unknown };

struct Dom { uint32_t sym; uint64_t b[4]; bool inMulti; };

struct PathCond {
  std::vector<Expr*> single;   // constraints over exactly one symbol
  std::vector<Expr*> multi;    // constraints over several symbols / UFs
  std::vector<Dom> doms;
  Dom* dom(uint32_t s) { for (auto& d : doms) if (d.sym == s) return &d; return nullptr; }
  void add(Expr* c);           // c must be width 1, non-constant
};

struct SolverStats { uint64_t fast = 0, z3 = 0, cache = 0, sat = 0, unsat = 0, unknown = 0, trivial = 0, asserts = 0, assertsZ3 = 0; double z3s = 0, maxq = 0; };
extern SolverStats g_ss;
extern uint64_t g_rlimit;
extern bool g_noFast;
extern std::string g_dumpDir;   // when set, dump assertion queries as SMT-LIB2

// Is pc /\ cond satisfiable?  On Sat, `m` (a model of pc on entry) is updated
// to a model of pc /\ cond.
Res checkSat(PathCond& pc, Expr* cond, Model& m, bool forceZ3 = false);
const uint64_t* domOf(Expr* e);  // 256-bit truth table; e over one <=8-bit symbol
