// LLVM bitcode -> flat register code for the symbolic interpreter.
#include "module.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <cstdio>
#include <cstdlib>
#include <unordered_map>
using namespace llvm;

Mod M;
static LLVMContext* CTX;
static std::unique_ptr<Module> LM;
static const DataLayout* DL;
static std::unordered_map<const GlobalValue*, uint64_t> gaddr;
static std::unordered_map<const Function*, Func*> fmap;

[[noreturn]] static void die(const std::string& s) { fprintf(stderr, "symex: load error: %s\n", s.c_str()); exit(3); }

struct Leaf { uint16_t w; uint64_t off; bool ptr; bool fp; };
static void flatten(Type* t, uint64_t off, std::vector<Leaf>& out) {
  if (t->isVoidTy()) return;
  if (auto* st = dyn_cast<StructType>(t)) {
    auto* sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) flatten(st->getElementType(i), off + sl->getElementOffset(i), out);
    return;
  }
  if (auto* at = dyn_cast<ArrayType>(t)) {
    uint64_t es = DL->getTypeAllocSize(at->getElementType());
    for (uint64_t i = 0; i < at->getNumElements(); i++) flatten(at->getElementType(), off + i * es, out);
    return;
  }
  if (t->isPointerTy()) { out.push_back({64, off, true, false}); return; }
  if (t->isIntegerTy()) { out.push_back({(uint16_t)t->getIntegerBitWidth(), off, false, false}); return; }
  if (t->isFloatTy()) { out.push_back({32, off, false, true}); return; }
  if (t->isDoubleTy()) { out.push_back({64, off, false, true}); return; }
  if (t->isX86_FP80Ty()) { out.push_back({80, off, false, true}); return; }
  if (t->isFP128Ty()) { out.push_back({128, off, false, true}); return; }
  if (auto* vt = dyn_cast<FixedVectorType>(t)) {
    uint64_t es = DL->getTypeAllocSize(vt->getElementType());
    for (unsigned i = 0; i < vt->getNumElements(); i++) flatten(vt->getElementType(), off + i * es, out);
    return;
  }
  out.push_back({64, off, false, false}); // label/metadata/token: never read
}
static std::vector<Leaf> leavesOf(Type* t) { std::vector<Leaf> v; flatten(t, 0, v); return v; }

static APInt evalScalar(const Constant* c);
static uint64_t evalU(const Constant* c) { return evalScalar(c).getZExtValue(); }
static APInt evalScalar(const Constant* c) {
  if (auto* ci = dyn_cast<ConstantInt>(c)) return ci->getValue();
  if (isa<ConstantPointerNull>(c)) return APInt(64, 0);
  if (auto* cf = dyn_cast<ConstantFP>(c)) return cf->getValueAPF().bitcastToAPInt();
  if (auto* ga = dyn_cast<GlobalAlias>(c)) return evalScalar(ga->getAliasee());
  if (auto* gv = dyn_cast<GlobalValue>(c)) {
    auto it = gaddr.find(gv);
    if (it == gaddr.end()) die("address of unknown global " + gv->getName().str());
    return APInt(64, it->second);
  }
  if (isa<UndefValue>(c)) return APInt(DL->getTypeSizeInBits(c->getType()), 0);
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    unsigned w = DL->getTypeSizeInBits(ce->getType());
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: {
        APInt off(64, 0);
        if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) die("constant gep");
        return evalScalar(ce->getOperand(0)) + off;
      }
      case Instruction::BitCast: case Instruction::AddrSpaceCast: return evalScalar(ce->getOperand(0));
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: return evalScalar(ce->getOperand(0)).zextOrTrunc(w);
      case Instruction::Add: return evalScalar(ce->getOperand(0)) + evalScalar(ce->getOperand(1));
      case Instruction::Sub: return evalScalar(ce->getOperand(0)) - evalScalar(ce->getOperand(1));
      case Instruction::Xor: return evalScalar(ce->getOperand(0)) ^ evalScalar(ce->getOperand(1));
      default: break;
    }
  }
  std::string s; raw_string_ostream os(s); c->print(os);
  die("unsupported constant " + os.str());
}

static void putScalar(const APInt& v, uint64_t bytes, uint64_t addr, uint64_t off) {
  uint8_t buf[64] = {0};
  APInt z = v.zextOrTrunc(bytes * 8);
  for (uint64_t i = 0; i < bytes; i++) buf[i] = (uint8_t)z.extractBitsAsZExtValue(8, i * 8);
  initGlobalBytes(addr, off, buf, bytes);
}
static void writeConst(const Constant* c, uint64_t addr, uint64_t off) {
  Type* t = c->getType();
  uint64_t sz = DL->getTypeAllocSize(t);
  if (sz == 0) return;
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || (isa<Constant>(c) && c->isNullValue() && !t->isFloatingPointTy())) {
    std::vector<uint8_t> z(sz, 0); initGlobalBytes(addr, off, z.data(), sz); return;
  }
  if (auto* cds = dyn_cast<ConstantDataSequential>(c)) {
    StringRef r = cds->getRawDataValues(); initGlobalBytes(addr, off, (const uint8_t*)r.data(), r.size()); return;
  }
  if (auto* st = dyn_cast<StructType>(t)) {
    std::vector<uint8_t> z(sz, 0); initGlobalBytes(addr, off, z.data(), sz);
    auto* sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) writeConst(c->getAggregateElement(i), addr, off + sl->getElementOffset(i));
    return;
  }
  if (auto* at = dyn_cast<ArrayType>(t)) {
    uint64_t es = DL->getTypeAllocSize(at->getElementType());
    for (uint64_t i = 0; i < at->getNumElements(); i++) writeConst(c->getAggregateElement(i), addr, off + i * es);
    return;
  }
  std::vector<uint8_t> z(sz, 0); initGlobalBytes(addr, off, z.data(), sz);
  putScalar(evalScalar(c), DL->getTypeStoreSize(t), addr, off);
}

static void parseTI(const GlobalVariable* gv) {
  CatchTI ti; ti.addr = gaddr[gv]; ti.name = gv->getName().str(); ti.kind = 3;
  if (gv->hasInitializer()) if (auto* cs = dyn_cast<ConstantStruct>(gv->getInitializer())) {
    const Value* vt = cs->getOperand(0)->stripInBoundsConstantOffsets();
    std::string vn = vt->getName().str();
    if (vn.find("__class_type_infoE") != std::string::npos && vn.find("si_class") == std::string::npos && vn.find("vmi_class") == std::string::npos) ti.kind = 0;
    else if (vn.find("__si_class_type_infoE") != std::string::npos) { ti.kind = 1; ti.bases.push_back({evalU(cs->getOperand(2)), 0}); }
    else if (vn.find("__vmi_class_type_infoE") != std::string::npos) {
      ti.kind = 2;
      uint64_t n = evalU(cs->getOperand(3));
      for (uint64_t i = 0; i < n; i++) {
        uint64_t b = evalU(cs->getOperand(4 + 2 * i)); int64_t fl = (int64_t)evalU(cs->getOperand(5 + 2 * i));
        if (fl & 2) ti.bases.push_back({b, (fl & 1) ? INT64_MIN : (fl >> 8)});
      }
    }
  }
  M.tis[ti.addr] = ti;
}

uint64_t g_funcAlign = 64;
Func* funcAt(uint64_t a) {
  if (a < FUNC_BASE || (a - FUNC_BASE) % 64) return nullptr;
  uint64_t i = (a - FUNC_BASE) / 64;
  return i < M.funcs.size() ? M.funcs[i] : nullptr;
}

void loadModule(const std::string& bc) {
  CTX = new LLVMContext();
  SMDiagnostic err;
  LM = parseIRFile(bc, err, *CTX);
  if (!LM) die("cannot read " + bc + ": " + err.getMessage().str());
  DL = &LM->getDataLayout();
  M.locs.push_back({0, 0}); M.files.push_back("?");
  for (Function& f : *LM) {
    Func* g = new Func(); g->name = f.getName().str(); g->id = (int)M.funcs.size();
    g->addr = FUNC_BASE + 64 * (uint64_t)g->id; g->llvmFn = &f; g->isDecl = f.isDeclaration(); g->varArg = f.isVarArg();
    if (auto* sp = f.getSubprogram()) {
      std::string dir = sp->getDirectory().str(), fn = sp->getFilename().str();
      std::string p = (!fn.empty() && fn[0] == '/') ? fn : dir + "/" + fn;
      g->file = p; g->line = sp->getLine();
      g->fromRepo = p.rfind("/repo/", 0) == 0;
      g->fromStd = p.rfind("/usr/", 0) == 0 || p.find("/../include/c++/") != std::string::npos;
      g->fromHarness = !g->fromRepo && !g->fromStd && p.find("/rt/") == std::string::npos && p.find("/shim/") == std::string::npos;
      if (!g->fromHarness && !g->fromRepo) g->fromStd = true;
    } else g->fromStd = true;
    M.funcs.push_back(g); M.byName[g->name] = g; fmap[&f] = g; gaddr[&f] = g->addr;
  }
  for (GlobalVariable& gv : LM->globals()) {
    if (gv.getName().starts_with("llvm.")) continue;
    uint64_t sz = gv.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(gv.getValueType()) : 0;
    uint64_t al = gv.getAlign() ? gv.getAlign()->value() : 16;
    std::string nm = gv.getName().str();
    bool ext = gv.isDeclaration();
    if (nm == "__dso_handle") { ext = false; sz = 8; }
    gaddr[&gv] = addGlobalObject(sz, al, gv.isConstant() && !ext, nm, ext);
  }
  for (GlobalVariable& gv : LM->globals())
    if (!gv.getName().starts_with("llvm.") && gv.hasInitializer()) writeConst(gv.getInitializer(), gaddr[&gv], 0);
  for (GlobalVariable& gv : LM->globals()) if (gv.getName().starts_with("_ZTI")) parseTI(&gv);
  if (auto* gc = LM->getGlobalVariable("llvm.global_ctors")) if (gc->hasInitializer()) {
    if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
      std::vector<std::pair<int, Func*>> v;
      for (auto& op : ca->operands()) {
        auto* cs = cast<ConstantStruct>(op);
        if (auto* fn = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) v.push_back({(int)cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), fmap[fn]});
      }
      std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; });
      M.ctors = v;
    }
  }
}

// ---- per-function lowering ----
static std::map<std::pair<uint64_t, int>, int> constIdx;
static int addConst(uint64_t v, unsigned w) {
  auto k = std::make_pair(v, (int)0);
  auto it = constIdx.find(k);
  if (it != constIdx.end()) return ~it->second;
  M.consts.push_back({v, nullptr}); constIdx[k] = (int)M.consts.size() - 1;
  return ~((int)M.consts.size() - 1);
}
static int addConstAP(const APInt& v) {
  if (v.getBitWidth() <= 64) return addConst(v.getZExtValue(), v.getBitWidth());
  M.consts.push_back({0, mkConstAP(v)});
  return ~((int)M.consts.size() - 1);
}
static int addUndef(unsigned w) {
  static std::map<unsigned, int> u;
  if (u.count(w)) return u[w];
  M.consts.push_back({0, mkSym("undef" + std::to_string(w), w, true)});
  return u[w] = ~((int)M.consts.size() - 1);
}
static void constLeaves(const Constant* c, std::vector<int>& out) {
  Type* t = c->getType();
  if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
    if (isa<UndefValue>(c)) { for (auto& l : leavesOf(t)) out.push_back(addUndef(l.w)); return; }
    unsigned n = t->isStructTy() ? cast<StructType>(t)->getNumElements() : t->isArrayTy() ? cast<ArrayType>(t)->getNumElements() : cast<FixedVectorType>(t)->getNumElements();
    for (unsigned i = 0; i < n; i++) constLeaves(c->getAggregateElement(i), out);
    return;
  }
  if (isa<UndefValue>(c)) { out.push_back(addUndef(DL->getTypeSizeInBits(t))); return; }
  out.push_back(addConstAP(evalScalar(c)));
}

struct Lowerer {
  Func* F; const Function* LF;
  std::unordered_map<const Value*, std::vector<int>> ops;
  std::unordered_map<const BasicBlock*, int> bstart;
  struct PendEdge { int edge; const BasicBlock* from; const BasicBlock* to; };
  std::vector<PendEdge> pend;
  uint32_t curLoc = 0;
  std::map<std::string, uint32_t> fidx;

  const std::vector<int>& opsOf(const Value* v) {
    auto it = ops.find(v);
    if (it != ops.end()) return it->second;
    if (auto* c = dyn_cast<Constant>(v)) { std::vector<int> o; constLeaves(c, o); return ops[v] = o; }
    if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return ops[v] = {addConst(0, 64)};
    std::string s; raw_string_ostream os(s); v->print(os);
    die("operand before definition in " + F->name + ": " + os.str());
  }
  int op1(const Value* v) { auto& o = opsOf(v); if (o.size() != 1) { return o.empty() ? addConst(0, 64) : o[0]; } return o[0]; }
  void def(const Value* v) {
    auto ls = leavesOf(v->getType()); std::vector<int> o;
    for (size_t i = 0; i < ls.size(); i++) o.push_back(F->nslots++);
    ops[v] = o;
  }
  Inst& emit(Op op) { F->code.emplace_back(); Inst& i = F->code.back(); i.op = op; i.loc = curLoc; return i; }
  int newEdge(const BasicBlock* from, const BasicBlock* to) { F->edges.push_back({-1, {}}); pend.push_back({(int)F->edges.size() - 1, from, to}); return (int)F->edges.size() - 1; }
  void bad(const char* why) { emit(O_Bad).why = why; }

  void lowerCall(const CallBase* cb) {
    if (auto* ii = dyn_cast<IntrinsicInst>(cb)) {
      switch (ii->getIntrinsicID()) {
        case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign:
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::donothing:
        case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch:
          if (!ii->getType()->isVoidTy()) { def(ii); auto& i = emit(O_Mov); i.dst = op1(ii); i.a = addConst(0, 64); i.w = 64; }
          return;
        case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address:
          ops[ii] = opsOf(ii->getArgOperand(0)); return;
        default: break;
      }
    }
    CallInfo ci;
    const Value* callee = cb->getCalledOperand()->stripPointerCasts();
    if (auto* ga = dyn_cast<GlobalAlias>(callee)) callee = ga->getAliaseeObject();
    if (auto* cf = dyn_cast<Function>(callee)) ci.fn = fmap[cf];
    else if (isa<InlineAsm>(callee)) {
      // empty inline asm (optimisation barriers) is a no-op; anything else is not encoded
      auto* ia = cast<InlineAsm>(callee);
      if (!ia->getAsmString().empty()) { bad("inline asm"); if (!cb->getType()->isVoidTy()) def(cb); return; }
      if (!cb->getType()->isVoidTy()) { if (cb->arg_size() >= 1 && cb->getArgOperand(0)->getType() == cb->getType()) ops[cb] = opsOf(cb->getArgOperand(0)); else { def(cb); bad("inline asm"); } }
      return;
    }
    else ci.callee = op1(callee);
    for (unsigned i = 0; i < cb->arg_size(); i++) {
      const Value* a = cb->getArgOperand(i);
      ci.argStart.push_back((int)ci.args.size());
      uint64_t bv = 0;
      if (cb->paramHasAttr(i, Attribute::ByVal)) { Type* t = cb->getParamByValType(i); if (t) bv = DL->getTypeAllocSize(t); }
      ci.byvalSize.push_back(bv);
      auto ls = leavesOf(a->getType());
      auto& o = opsOf(a);
      if (a->getType()->isMetadataTy()) { ci.args.push_back(addConst(0, 64)); ci.argW.push_back(64); ci.isPtrArg.push_back(false); continue; }
      for (size_t k = 0; k < o.size(); k++) { ci.args.push_back(o[k]); ci.argW.push_back(k < ls.size() ? ls[k].w : 64); ci.isPtrArg.push_back(k < ls.size() && ls[k].ptr); }
    }
    if (!cb->getType()->isVoidTy()) {
      def(cb);
      auto ls = leavesOf(cb->getType());
      for (size_t k = 0; k < ls.size(); k++) { ci.dsts.push_back(ops[cb][k]); ci.dstW.push_back(ls[k].w); }
    }
    if (auto* iv = dyn_cast<InvokeInst>(cb)) {
      ci.invoke = true;
      ci.eNormal = newEdge(iv->getParent(), iv->getNormalDest());
      ci.eUnwind = newEdge(iv->getParent(), iv->getUnwindDest());
    }
    F->calls.push_back(ci);
    Inst& in = emit(O_Call); in.x = (int)F->calls.size() - 1;
  }

  void lowerInst(const Instruction& I) {
    if (auto& dl = I.getDebugLoc()) {
      auto* sc = dyn_cast<DIScope>(dl.getScope());
      std::string fn = sc ? sc->getFilename().str() : "?", dir = sc ? sc->getDirectory().str() : "";
      if (!fn.empty() && fn[0] != '/') fn = dir + "/" + fn;
      static std::map<std::string, uint32_t> files; static std::map<std::pair<uint32_t, uint32_t>, uint32_t> locIdx;
      auto it = files.find(fn); uint32_t fi;
      if (it == files.end()) { fi = (uint32_t)M.files.size(); M.files.push_back(fn); files[fn] = fi; } else fi = it->second;
      auto k = std::make_pair(fi, (uint32_t)dl.getLine());
      auto jt = locIdx.find(k);
      if (jt == locIdx.end()) { M.locs.push_back({fi, dl.getLine()}); curLoc = (uint32_t)M.locs.size() - 1; locIdx[k] = curLoc; } else curLoc = jt->second;
    } else curLoc = 0;
    unsigned opc = I.getOpcode();
    Type* T = I.getType();
    auto W = [&](Type* t) -> uint16_t { return t->isPointerTy() ? 64 : (uint16_t)DL->getTypeSizeInBits(t); };
    if (T->isVectorTy() || (I.getNumOperands() && I.getOperand(0)->getType()->isVectorTy())) { if (!T->isVoidTy()) def(&I); bad("vector instruction"); return; }
    if (auto* bo = dyn_cast<BinaryOperator>(&I)) {
      def(&I);
      if (T->isFloatingPointTy()) {
        Inst& i = emit(O_FBin); i.sub = opc == Instruction::FAdd ? 0 : opc == Instruction::FSub ? 1 : opc == Instruction::FMul ? 2 : opc == Instruction::FDiv ? 3 : 4;
        i.w = W(T); i.dst = op1(&I); i.a = op1(bo->getOperand(0)); i.b = op1(bo->getOperand(1)); return;
      }
      Kind k;
      switch (opc) {
        case Instruction::Add: k = K_Add; break; case Instruction::Sub: k = K_Sub; break; case Instruction::Mul: k = K_Mul; break;
        case Instruction::UDiv: k = K_UDiv; break; case Instruction::SDiv: k = K_SDiv; break; case Instruction::URem: k = K_URem; break; case Instruction::SRem: k = K_SRem; break;
        case Instruction::And: k = K_And; break; case Instruction::Or: k = K_Or; break; case Instruction::Xor: k = K_Xor; break;
        case Instruction::Shl: k = K_Shl; break; case Instruction::LShr: k = K_LShr; break; default: k = K_AShr; break;
      }
      Inst& i = emit(O_Bin); i.sub = k; i.w = W(T); i.dst = op1(&I); i.a = op1(bo->getOperand(0)); i.b = op1(bo->getOperand(1)); return;
    }
    switch (opc) {
      case Instruction::ICmp: {
        auto* c = cast<ICmpInst>(&I); def(&I);
        Inst& i = emit(O_ICmp); i.w = W(c->getOperand(0)->getType()); i.ptr = c->getOperand(0)->getType()->isPointerTy();
        switch (c->getPredicate()) {
          case CmpInst::ICMP_EQ: i.sub = P_EQ; break; case CmpInst::ICMP_NE: i.sub = P_NE; break;
          case CmpInst::ICMP_UGT: i.sub = P_UGT; break; case CmpInst::ICMP_UGE: i.sub = P_UGE; break;
          case CmpInst::ICMP_ULT: i.sub = P_ULT; break; case CmpInst::ICMP_ULE: i.sub = P_ULE; break;
          case CmpInst::ICMP_SGT: i.sub = P_SGT; break; case CmpInst::ICMP_SGE: i.sub = P_SGE; break;
          case CmpInst::ICMP_SLT: i.sub = P_SLT; break; default: i.sub = P_SLE; break;
        }
        i.dst = op1(&I); i.a = op1(c->getOperand(0)); i.b = op1(c->getOperand(1)); return;
      }
      case Instruction::FCmp: { auto* c = cast<FCmpInst>(&I); def(&I); Inst& i = emit(O_FCmp); i.sub = (uint8_t)c->getPredicate(); i.w = W(c->getOperand(0)->getType()); i.dst = op1(&I); i.a = op1(c->getOperand(0)); i.b = op1(c->getOperand(1)); return; }
      case Instruction::FNeg: { def(&I); Inst& i = emit(O_FNeg); i.w = W(T); i.dst = op1(&I); i.a = op1(I.getOperand(0)); return; }
      case Instruction::Select: {
        def(&I); auto ls = leavesOf(T); auto o = opsOf(&I), A = opsOf(I.getOperand(1)), B = opsOf(I.getOperand(2)); int c = op1(I.getOperand(0));
        for (size_t k = 0; k < ls.size(); k++) { Inst& i = emit(O_Select); i.w = ls[k].w; i.dst = o[k]; i.a = c; i.b = A[k]; i.c = B[k]; }
        return;
      }
      case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: {
        uint16_t f = W(I.getOperand(0)->getType()), t = W(T);
        if (f == t) { ops[&I] = opsOf(I.getOperand(0)); return; }
        def(&I);
        Inst& i = emit(t < f ? O_Trunc : opc == Instruction::SExt ? O_SExt : O_ZExt); i.w = t; i.w2 = f; i.dst = op1(&I); i.a = op1(I.getOperand(0)); return;
      }
      case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::Freeze: ops[&I] = opsOf(I.getOperand(0)); return;
      case Instruction::FPTrunc: case Instruction::FPExt: case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::UIToFP: case Instruction::SIToFP: {
        def(&I); Inst& i = emit(O_FCast); i.sub = opc == Instruction::FPTrunc ? 0 : opc == Instruction::FPExt ? 1 : opc == Instruction::FPToUI ? 2 : opc == Instruction::FPToSI ? 3 : opc == Instruction::UIToFP ? 4 : 5;
        i.w = W(T); i.w2 = W(I.getOperand(0)->getType()); i.dst = op1(&I); i.a = op1(I.getOperand(0)); return;
      }
      case Instruction::GetElementPtr: {
        auto* g = cast<GetElementPtrInst>(&I);
        GepInfo gi; gi.off = 0;
        for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
          const Value* idx = it.getOperand();
          if (StructType* st = it.getStructTypeOrNull()) { gi.off += (int64_t)DL->getStructLayout(st)->getElementOffset((unsigned)cast<ConstantInt>(idx)->getZExtValue()); continue; }
          int64_t sc = (int64_t)DL->getTypeAllocSize(it.getIndexedType());
          if (auto* ci = dyn_cast<ConstantInt>(idx)) gi.off += ci->getSExtValue() * sc;
          else if (sc) gi.terms.push_back({op1(idx), (int)W(idx->getType()), sc});
        }
        if (gi.off == 0 && gi.terms.empty()) { ops[&I] = opsOf(g->getPointerOperand()); return; }
        def(&I); F->geps.push_back(gi); int base = op1(g->getPointerOperand());
        Inst& i = emit(O_Gep); i.x = (int)F->geps.size() - 1; i.dst = op1(&I); i.a = base; i.w = 64; return;
      }
      case Instruction::Load: {
        def(&I); auto ls = leavesOf(T); auto o = opsOf(&I); int p = op1(I.getOperand(0));
        for (size_t k = 0; k < ls.size(); k++) { Inst& i = emit(O_Load); i.w = ls[k].w; i.dst = o[k]; i.a = p; i.c = (int)ls[k].off; i.ptr = ls[k].ptr; }
        return;
      }
      case Instruction::Store: {
        auto ls = leavesOf(I.getOperand(0)->getType()); auto o = opsOf(I.getOperand(0)); int p = op1(I.getOperand(1));
        for (size_t k = 0; k < ls.size(); k++) { Inst& i = emit(O_Store); i.w = ls[k].w; i.a = p; i.b = o[k]; i.c = (int)ls[k].off; i.ptr = ls[k].ptr; }
        return;
      }
      case Instruction::Alloca: {
        auto* a = cast<AllocaInst>(&I); def(&I);
        Inst& i = emit(O_Alloca); i.dst = op1(&I); i.x = (int)(uint64_t)DL->getTypeAllocSize(a->getAllocatedType()); i.a = op1(a->getArraySize()); i.w = (uint16_t)a->getAlign().value(); i.w2 = W(a->getArraySize()->getType()); return;
      }
      case Instruction::ExtractValue: {
        auto* e = cast<ExtractValueInst>(&I); unsigned s, n; leafRange(e->getAggregateOperand()->getType(), e->getIndices(), s, n);
        auto& o = opsOf(e->getAggregateOperand()); ops[&I] = std::vector<int>(o.begin() + s, o.begin() + s + n); return;
      }
      case Instruction::InsertValue: {
        auto* e = cast<InsertValueInst>(&I); unsigned s, n; leafRange(T, e->getIndices(), s, n);
        std::vector<int> o = opsOf(e->getAggregateOperand()); auto v = opsOf(e->getInsertedValueOperand());
        for (unsigned k = 0; k < n; k++) o[s + k] = v[k];
        ops[&I] = o; return;
      }
      case Instruction::Br: {
        auto* b = cast<BranchInst>(&I);
        if (b->isUnconditional()) { int e = newEdge(I.getParent(), b->getSuccessor(0)); emit(O_Br).x = e; }
        else { int e0 = newEdge(I.getParent(), b->getSuccessor(0)), e1 = newEdge(I.getParent(), b->getSuccessor(1)); int c = op1(b->getCondition()); Inst& i = emit(O_CondBr); i.a = c; i.x = e0; i.c = e1; }
        return;
      }
      case Instruction::Switch: {
        auto* s = cast<SwitchInst>(&I); Func::Sw sw;
        for (auto& c : s->cases()) sw.cases.push_back({c.getCaseValue()->getZExtValue(), newEdge(I.getParent(), c.getCaseSuccessor())});
        sw.def = newEdge(I.getParent(), s->getDefaultDest());
        F->switches.push_back(sw); int c = op1(s->getCondition());
        Inst& i = emit(O_Switch); i.a = c; i.w = W(s->getCondition()->getType()); i.x = (int)F->switches.size() - 1; return;
      }
      case Instruction::Ret: {
        auto* r = cast<ReturnInst>(&I); MemInfo mi;
        if (r->getReturnValue()) { auto ls = leavesOf(r->getReturnValue()->getType()); auto o = opsOf(r->getReturnValue()); for (size_t k = 0; k < o.size(); k++) mi.leaves.push_back({o[k], ls[k].w, 0, ls[k].ptr}); }
        F->mems.push_back(mi); emit(O_Ret).x = (int)F->mems.size() - 1; return;
      }
      case Instruction::Call: case Instruction::Invoke: lowerCall(cast<CallBase>(&I)); return;
      case Instruction::LandingPad: {
        auto* l = cast<LandingPadInst>(&I); def(&I); LPInfo lp; lp.cleanup = l->isCleanup();
        for (unsigned k = 0; k < l->getNumClauses(); k++) {
          LPClause c;
          if (l->isCatch(k)) { c.kind = 0; c.ti.push_back(evalU(l->getClause(k))); }
          else { c.kind = 1; auto* a = l->getClause(k); if (auto* at = dyn_cast<ArrayType>(a->getType())) for (unsigned q = 0; q < at->getNumElements(); q++) c.ti.push_back(evalU(a->getAggregateElement(q))); }
          lp.clauses.push_back(c);
        }
        lp.d0 = ops[&I][0]; lp.d1 = ops[&I][1];
        F->lps.push_back(lp); emit(O_LandingPad).x = (int)F->lps.size() - 1; return;
      }
      case Instruction::Resume: { auto o = opsOf(I.getOperand(0)); emit(O_Resume).a = o[0]; return; }
      case Instruction::Unreachable: emit(O_Unreachable); return;
      case Instruction::AtomicRMW: {
        auto* r = cast<AtomicRMWInst>(&I); def(&I); int p = op1(r->getPointerOperand()), v = op1(r->getValOperand());
        Inst& i = emit(O_RMW); i.sub = (uint8_t)r->getOperation(); i.w = W(T); i.dst = op1(&I); i.a = p; i.b = v; return;
      }
      case Instruction::AtomicCmpXchg: {
        auto* r = cast<AtomicCmpXchgInst>(&I); def(&I); auto o = ops[&I]; int p = op1(r->getPointerOperand()), c = op1(r->getCompareOperand()), n = op1(r->getNewValOperand());
        Inst& i = emit(O_CmpXchg); i.w = W(r->getCompareOperand()->getType()); i.dst = o[0]; i.x = o[1]; i.a = p; i.b = c; i.c = n; return;
      }
      case Instruction::Fence: return;
      default:
        if (!T->isVoidTy()) def(&I);
        bad("unsupported instruction");
    }
  }
  void leafRange(Type* t, ArrayRef<unsigned> idx, unsigned& s, unsigned& n) {
    s = 0;
    for (unsigned i : idx) {
      if (auto* st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < i; k++) s += leavesOf(st->getElementType(k)).size(); t = st->getElementType(i); }
      else { auto* at = cast<ArrayType>(t); s += i * leavesOf(at->getElementType()).size(); t = at->getElementType(); }
    }
    n = leavesOf(t).size();
  }
  void run() {
    for (auto& a : LF->args()) { auto ls = leavesOf(a.getType()); def(&a); for (auto& l : ls) F->argW.push_back(l.w); }
    F->nargs = F->nslots;
    ReversePostOrderTraversal<const Function*> rpo(LF);
    // phis first so that forward references resolve
    for (const BasicBlock* bb : rpo) for (auto& p : bb->phis()) def(&p);
    for (const BasicBlock* bb : rpo) {
      bstart[bb] = (int)F->code.size(); F->blockStart.push_back((int)F->code.size());
      for (auto& I : *bb) if (!isa<PHINode>(I)) lowerInst(I);
    }
    F->nblocks = (int)F->blockStart.size();
    for (auto& pe : pend) {
      Edge& e = F->edges[pe.edge]; e.pc = bstart[pe.to];
      for (auto& p : pe.to->phis()) {
        auto src = opsOf(p.getIncomingValueForBlock(pe.from)); auto dst = ops[&p];
        for (size_t k = 0; k < dst.size(); k++) if (dst[k] != src[k]) e.copies.push_back({dst[k], src[k]});
      }
    }
  }
};

void lowerFunc(Func* f) {
  if (f->lowered) return;
  f->lowered = true;
  if (f->isDecl) return;
  Lowerer l; l.F = f; l.LF = (const Function*)f->llvmFn; l.run();
}
