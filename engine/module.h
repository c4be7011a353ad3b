// Lowered form of the LLVM module, interpreted by exec.cpp.
#pragma once
#include "expr.h"
#include <map>

struct Val { uint64_t c; Expr* e; };     // e==nullptr: concrete c (width<=64)

enum Op : uint8_t {
  O_Bin, O_ICmp, O_Select, O_Trunc, O_ZExt, O_SExt, O_Mov, O_Gep, O_Load, O_Store, O_Alloca,
  O_Br, O_CondBr, O_Switch, O_Ret, O_Call, O_LandingPad, O_Resume, O_Unreachable, O_FBin, O_FCmp, O_FCast,
  O_Undef, O_CmpXchg, O_RMW, O_Freeze, O_FNeg, O_Bad
};
enum Pred : uint8_t { P_EQ, P_NE, P_UGT, P_UGE, P_ULT, P_ULE, P_SGT, P_SGE, P_SLT, P_SLE };

struct Func;
struct LPClause { int kind; std::vector<uint64_t> ti; }; // 0 catch, 1 filter
struct Edge { int pc; std::vector<std::pair<int, int>> copies; }; // dst slot <- operand
struct CallInfo {
  int callee = 0;            // operand (indirect) when fn==nullptr
  Func* fn = nullptr;
  std::vector<int> args;     // flattened operands
  std::vector<uint16_t> argW;
  std::vector<int> argStart; // per IR argument: index into args
  std::vector<uint64_t> byvalSize; // per IR argument: >0 when byval
  std::vector<int> dsts; std::vector<uint16_t> dstW;
  bool invoke = false; int eNormal = -1, eUnwind = -1;
  std::vector<bool> isPtrArg;
};
struct GepInfo { int64_t off; std::vector<std::tuple<int, int, int64_t>> terms; }; // operand,width,scale
struct MemInfo { std::vector<std::tuple<int, uint16_t, uint64_t, bool>> leaves; };       // slot/operand, width, byte offset, isPtr
struct LPInfo { bool cleanup; std::vector<LPClause> clauses; int d0, d1; };

struct Inst {
  Op op; uint8_t sub = 0;      // Kind for O_Bin, Pred for ICmp
  uint16_t w = 0, w2 = 0;
  bool ptr = false;
  int dst = -1, a = 0, b = 0, c = 0;
  int x = -1;                  // index into side tables
  uint32_t loc = 0;            // debug location index
  const char* why = nullptr;
};

struct Func {
  std::string name; int id;
  bool isDecl = false; bool lowered = false;
  const void* llvmFn = nullptr;
  uint64_t addr = 0;
  int native = -1;             // index of native handler
  bool fromRepo = false, fromStd = false, fromHarness = false;
  std::string file; unsigned line = 0;
  std::vector<Inst> code;
  std::vector<Edge> edges;
  std::vector<CallInfo> calls; std::vector<GepInfo> geps; std::vector<MemInfo> mems; std::vector<LPInfo> lps;
  struct Sw { std::vector<std::pair<uint64_t, int>> cases; int def; }; std::vector<Sw> switches;
  std::vector<int> entryOf;    // pc -> block index at block starts
  int nblocks = 0; std::vector<int> blockStart;
  int nslots = 0; int nargs = 0; std::vector<uint16_t> argW; bool varArg = false;
  int covBase = 0;
};

struct GlobalInit { uint64_t addr; };
struct DebugLoc { uint32_t file; uint32_t line; };
struct CatchTI { uint64_t addr; std::string name; int kind; /*0 class,1 si,2 vmi,3 other*/ std::vector<std::pair<uint64_t, int64_t>> bases; };

struct Mod {
  std::vector<Func*> funcs;
  std::map<std::string, Func*> byName;
  std::vector<Val> consts;
  std::vector<DebugLoc> locs; std::vector<std::string> files;
  std::map<uint64_t, CatchTI> tis;
  std::vector<std::pair<int, Func*>> ctors;
};
extern Mod M;
constexpr uint64_t FUNC_BASE = 0x10000000000ULL;   // + 64*i
constexpr uint64_t SLOT = 1 << 20;
extern uint64_t GLOB_BASE, HEAP_BASE, STACK_BASE;
void loadModule(const std::string& bc);
void lowerFunc(Func* f);
Func* funcAt(uint64_t addr);
// callbacks provided by exec.cpp while globals are laid out
uint64_t addGlobalObject(uint64_t size, uint64_t align, bool ro, const std::string& name, bool external);
void initGlobalBytes(uint64_t addr, uint64_t off, const uint8_t* p, uint64_t n);
