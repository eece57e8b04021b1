// vsym: symbolic executor for LLVM IR (see DESIGN.md).
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <random>
#include <deque>
#include <unistd.h>
#include <sys/resource.h>
#include "solver.h"
#include "mem.h"

using namespace llvm;
Page gFullPage;

// ------------------------------------------------------------------ decoded code
enum IOp : uint8_t {
  I_NOP, I_MOV, I_BIN, I_ICMP, I_FBIN, I_FNEG, I_FCMP, I_TRUNC, I_ZEXT, I_SEXT, I_FPTOSI, I_FPTOUI, I_SITOFP, I_UITOFP, I_FPCVT,
  I_SELECT, I_LOAD, I_STORE, I_GEP, I_ALLOCA, I_BR, I_CBR, I_SWITCH, I_RET, I_CALL, I_UNREACH, I_RESUME, I_LPAD, I_CMPXCHG, I_RMW, I_INDBAD, I_FREEZE, I_UNSUP
};
struct Opnd { int32_t i; }; // >= 0 register, < 0 constant ~i
struct DInst {
  uint8_t op, sub, w, w2; int32_t dst; Opnd a, b, c; int32_t aux; int64_t imm; const Instruction *li; uint8_t hit;
};
struct Edge { int32_t target; std::vector<std::pair<int32_t, Opnd>> moves; };
struct GepT { int64_t off; std::vector<std::pair<Opnd, std::pair<int64_t, uint8_t>>> idx; };
struct SwitchT { std::vector<std::pair<uint64_t, int32_t>> cases; std::unordered_map<uint64_t, int32_t> map; int32_t def; };
struct FuncInfo;
struct Builtin;
struct CallT { std::vector<Opnd> args; std::vector<uint8_t> argw; FuncInfo *fn = nullptr; const Builtin *bi = nullptr; Opnd fp; int32_t normalEdge = -1, unwindEdge = -1; int nret = 0; uint8_t retw = 0; std::string name; Function *decl = nullptr; std::vector<int> byval; };
struct LPadT { bool cleanup; std::vector<std::pair<bool, std::vector<uint64_t>>> clauses; };
struct RetT { std::vector<Opnd> vals; };
struct FuncInfo {
  Function *f; bool decoded = false; int nslots = 0; int nparams = 0; std::vector<DInst> code; std::vector<Val> consts;
  std::vector<Edge> edges; std::vector<GepT> geps; std::vector<SwitchT> sws; std::vector<CallT> calls; std::vector<LPadT> lpads; std::vector<RetT> rets;
  uint64_t addr; uint64_t entered = 0;
};
struct Frame { FuncInfo *f; uint32_t base; int32_t pc; uint64_t sp; };
struct Input { std::string name; uint8_t w; E e; uint64_t c; };
struct Obs { const char *label; Val v; uint8_t w; };

struct State {
  Mem mem; std::vector<Val> regs; std::vector<Frame> frames; PathCond pc; ModelP model;
  std::unordered_map<E, uint64_t> known;
  std::vector<Input> inputs; std::vector<Obs> obs; std::vector<std::string> reached;
  uint64_t heapTop, sp, liveBytes = 0, liveCount = 0, allocSeq = 0, failAt = 0, failCount = 0; E failK = nullptr; bool failNow = false; uint64_t insts = 0; uint32_t undefs = 0;
  uint64_t excPtr = 0; uint64_t excSel = 0; uint32_t maxDepth = 20000; uint64_t id = 0; uint64_t forks = 0; bool noUninit = false;
  std::string note; int shRank = -1, shN = 1; // rank among the shards this path is still split over
};

enum BR { B_OK, B_RETRY, B_DEAD, B_JUMPED };
struct Exec;
typedef BR (*BFn)(Exec &, State &, const CallT &, Val *args, Val *ret);
struct Builtin { const char *name; BFn fn; };

static Module *M; static const DataLayout *DL;
static std::unordered_map<const Function *, FuncInfo *> gFuncs;
static std::vector<FuncInfo *> gFnByIdx;
static std::unordered_map<const GlobalVariable *, uint64_t> gGlobAddr;
static uint64_t gGlobTop[R_N];
static std::unordered_map<std::string, const Builtin *> gBuiltins;
static std::map<std::string, uint64_t> gExtSyms;

struct Viol { std::string kind, id, msg, where; std::vector<std::pair<std::string, std::pair<int, uint64_t>>> inputs; std::vector<std::pair<std::string, uint64_t>> obs; };
struct Opts { std::string entry, out, replayDir; uint64_t maxInsts = 400000000; double maxTime = 600; int shard = 0, nshards = 1; unsigned seed = 1; int samples = 24; int maxViol = 4; bool verbose = false; uint64_t maxPaths = ~0ull; bool list = false; std::string thorough; int rot = 0; } O;

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ------------------------------------------------------------------ types
static void flatten(Type *t, std::vector<std::pair<uint64_t, unsigned>> &out, uint64_t off = 0) { // (offset, bits)
  if (t->isIntegerTy()) { out.push_back({off, t->getIntegerBitWidth()}); return; }
  if (t->isPointerTy()) { out.push_back({off, 64}); return; }
  if (t->isDoubleTy()) { out.push_back({off, 64}); return; }
  if (t->isFloatTy()) { out.push_back({off, 32}); return; }
  if (auto *s = dyn_cast<StructType>(t)) { auto *l = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); ++i) flatten(s->getElementType(i), out, off + l->getElementOffset(i)); return; }
  if (auto *a = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(a->getElementType()); for (uint64_t i = 0; i < a->getNumElements(); ++i) flatten(a->getElementType(), out, off + i * es); return; }
  if (auto *v = dyn_cast<FixedVectorType>(t)) { uint64_t es = DL->getTypeStoreSize(v->getElementType()); for (uint64_t i = 0; i < v->getNumElements(); ++i) flatten(v->getElementType(), out, off + i * es); return; }
  if (t->isX86_FP80Ty() || t->isFP128Ty()) { out.push_back({off, 255}); return; }
  if (t->isVoidTy() || t->isLabelTy() || t->isMetadataTy() || t->isTokenTy()) return;
  errs() << "vsym: type? " << *t << "\n"; abort();
}
static int slotsOf(Type *t) { std::vector<std::pair<uint64_t, unsigned>> v; flatten(t, v); return v.size(); }

// ------------------------------------------------------------------ globals and constants
static uint64_t constScalar(const Constant *c);
static FuncInfo *funcInfo(Function *f) {
  auto it = gFuncs.find(f); if (it != gFuncs.end()) return it->second;
  auto *fi = new FuncInfo; fi->f = f; fi->addr = ((uint64_t)R_FN << 32) + 16 + 16 * gFnByIdx.size(); gFnByIdx.push_back(fi); gFuncs[f] = fi; return fi;
}
static uint64_t globAddr(const GlobalVariable *g) {
  auto it = gGlobAddr.find(g); if (it != gGlobAddr.end()) return it->second;
  int r = g->isConstant() && g->hasInitializer() ? R_RO : R_RW;
  uint64_t al = std::max<uint64_t>(16, g->getAlign() ? g->getAlign()->value() : 16);
  uint64_t sz = g->getValueType()->isSized() ? DL->getTypeAllocSize(g->getValueType()).getFixedValue() : 64; if (!sz) sz = 1;
  uint64_t &t = gGlobTop[r]; t = (t + al - 1) & ~(al - 1); uint64_t a = ((uint64_t)r << 32) + t; t += sz + 32;
  gGlobAddr[g] = a; return a;
}
static uint64_t constScalar(const Constant *c) {
  if (auto *i = dyn_cast<ConstantInt>(c)) { if (i->getBitWidth() > 64) return i->getValue().getLoBits(64).getZExtValue(); return i->getZExtValue(); }
  if (auto *f = dyn_cast<ConstantFP>(c)) { if (c->getType()->isDoubleTy() || c->getType()->isFloatTy()) return f->getValueAPF().bitcastToAPInt().getZExtValue(); return 0; }
  if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return 0;
  if (auto *f = dyn_cast<Function>(c)) return funcInfo(const_cast<Function *>(f))->addr;
  if (auto *g = dyn_cast<GlobalVariable>(c)) return globAddr(g);
  if (auto *g = dyn_cast<GlobalAlias>(c)) return constScalar(g->getAliasee());
  if (auto *e = dyn_cast<ConstantExpr>(c)) {
    auto op = [&](int i) { return constScalar(cast<Constant>(e->getOperand(i))); };
    unsigned w = e->getType()->isIntegerTy() ? e->getType()->getIntegerBitWidth() : 64;
    switch (e->getOpcode()) {
    case Instruction::GetElementPtr: { APInt off(64, 0); if (!cast<GEPOperator>(e)->accumulateConstantOffset(*DL, off)) break; return op(0) + off.getSExtValue(); }
    case Instruction::BitCast: case Instruction::AddrSpaceCast: return op(0);
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: return op(0) & maskw(w);
    case Instruction::Add: return (op(0) + op(1)) & maskw(w);
    case Instruction::Sub: return (op(0) - op(1)) & maskw(w);
    case Instruction::And: return op(0) & op(1);
    case Instruction::Or: return op(0) | op(1);
    case Instruction::Xor: return op(0) ^ op(1);
    case Instruction::Mul: return (op(0) * op(1)) & maskw(w);
    case Instruction::ICmp: { uint64_t a = op(0), b = op(1); switch (e->getPredicate()) { case ICmpInst::ICMP_EQ: return a == b; case ICmpInst::ICMP_NE: return a != b; case ICmpInst::ICMP_ULT: return a < b; case ICmpInst::ICMP_UGT: return a > b; default: break; } break; }
    default: break;
    }
  }
  errs() << "vsym: constant? " << *c << "\n"; abort();
}
static void flattenConst(const Constant *c, std::vector<uint64_t> &out) {
  Type *t = c->getType();
  if (t->isSingleValueType() && !t->isVectorTy()) { out.push_back(constScalar(c)); return; }
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { out.resize(out.size() + slotsOf(t), 0); return; }
  unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
  for (unsigned i = 0; i < n; ++i) flattenConst(c->getAggregateElement(i), out);
}
static void initMem(Mem &m, uint64_t a, const Constant *c) {
  Type *t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  if (auto *d = dyn_cast<ConstantDataSequential>(c)) { StringRef s = d->getRawDataValues(); m.rawW(a, s.data(), s.size()); return; }
  if (auto *s = dyn_cast<StructType>(t)) { auto *l = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); ++i) initMem(m, a + l->getElementOffset(i), c->getAggregateElement(i)); return; }
  if (auto *ar = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(ar->getElementType()); for (uint64_t i = 0; i < ar->getNumElements(); ++i) initMem(m, a + i * es, c->getAggregateElement(i)); return; }
  if (auto *ve = dyn_cast<FixedVectorType>(t)) { uint64_t es = DL->getTypeStoreSize(ve->getElementType()); for (uint64_t i = 0; i < ve->getNumElements(); ++i) initMem(m, a + i * es, c->getAggregateElement(i)); return; }
  if (t->isX86_FP80Ty()) { auto b = cast<ConstantFP>(c)->getValueAPF().bitcastToAPInt(); uint64_t x[2] = {b.getRawData()[0], b.getRawData()[1]}; m.rawW(a, x, 10); return; }
  if (t->isIntegerTy() && t->getIntegerBitWidth() > 64) { auto &b = cast<ConstantInt>(c)->getValue(); m.rawW(a, b.getRawData(), DL->getTypeStoreSize(t)); return; }
  uint64_t v = constScalar(c); m.rawW(a, &v, DL->getTypeStoreSize(t));
}

// ------------------------------------------------------------------ decoder
struct Decoder {
  FuncInfo &F; std::unordered_map<const Value *, int> slot; std::map<std::pair<uint64_t, int>, int> cidx; std::unordered_map<const BasicBlock *, int32_t> bpc;
  std::vector<std::pair<int, std::pair<const BasicBlock *, const BasicBlock *>>> fix;
  Decoder(FuncInfo &f) : F(f) {}
  Opnd K(uint64_t v) { auto it = cidx.find({v, 0}); if (it != cidx.end()) return {~it->second}; int i = F.consts.size(); F.consts.push_back({v, nullptr}); cidx[{v, 0}] = i; return {~i}; }
  Opnd op(const Value *v, int k = 0) {
    if (auto *c = dyn_cast<Constant>(v)) { if (c->getType()->isMetadataTy()) return K(0); std::vector<uint64_t> x; flattenConst(c, x); return K(x[k]); }
    if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return K(0);
    auto it = slot.find(v); if (it == slot.end()) { errs() << "vsym: operand? " << *v << "\n"; abort(); }
    return {it->second + k};
  }
  static unsigned bits(Type *t) { if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isPointerTy() || t->isDoubleTy()) return 64; if (t->isFloatTy()) return 32; return 255; }
  DInst &emit(IOp o, const Instruction *I) { F.code.emplace_back(); DInst &d = F.code.back(); memset(&d, 0, sizeof d); d.op = o; d.li = I; d.dst = -1; return d; }
  int edge(const BasicBlock *from, const BasicBlock *to) { int i = F.edges.size(); F.edges.emplace_back(); fix.push_back({i, {from, to}}); return i; }
  void run();
  void inst(const Instruction &I);
};
static unsigned leafIndex(Type *t, ArrayRef<unsigned> idx) {
  unsigned r = 0;
  for (unsigned i : idx) {
    if (auto *s = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < i; ++k) r += slotsOf(s->getElementType(k)); t = s->getElementType(i); }
    else { t = t->getArrayElementType(); r += i * slotsOf(t); }
  }
  return r;
}
void Decoder::run() {
  int n = 0; for (auto &a : F.f->args()) { slot[&a] = n; n += slotsOf(a.getType()); } F.nparams = n;
  for (auto &B : *F.f) for (auto &I : B) { if (!I.getType()->isVoidTy()) { slot[&I] = n; n += slotsOf(I.getType()); } }
  F.nslots = n;
  for (auto &B : *F.f) { bpc[&B] = F.code.size(); for (auto &I : B) if (!isa<PHINode>(I)) inst(I); }
  for (auto &fx : fix) {
    Edge &e = F.edges[fx.first]; e.target = bpc[fx.second.second];
    for (auto &P : fx.second.second->phis()) { int k = slotsOf(P.getType()); for (int i = 0; i < k; ++i) { Opnd o = op(P.getIncomingValueForBlock(fx.second.first), i); int d = slot[&P] + i; if (o.i != d) e.moves.push_back({d, o}); } }
  }
  F.decoded = true;
}
static int icmpSub(CmpInst::Predicate p) { return (int)p; }
void Decoder::inst(const Instruction &I) {
  Type *T = I.getType(); int d = T->isVoidTy() ? -1 : slot[&I];
  auto unsup = [&](const char *) { DInst &x = emit(I_UNSUP, &I); x.dst = d; };
  unsigned nl = T->isVoidTy() ? 0 : slotsOf(T);
  auto big = [&](Type *t) { std::vector<std::pair<uint64_t, unsigned>> v; flatten(t, v); for (auto &x : v) if (x.second > 64) return true; return false; };
  if (!T->isVoidTy() && big(T)) return unsup("wide");
  for (auto &o : I.operands()) if (!isa<BasicBlock>(o) && !o->getType()->isMetadataTy() && !isa<CallBase>(I) && o->getType()->isSized() && big(o->getType())) return unsup("wide");
  auto elt = [](Type *t) { return t->isVectorTy() ? cast<VectorType>(t)->getElementType() : t; };
  switch (I.getOpcode()) {
  case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
  case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::And: case Instruction::Or: case Instruction::Xor: {
    static const std::map<unsigned, Op> mp = {{Instruction::Add, O_ADD}, {Instruction::Sub, O_SUB}, {Instruction::Mul, O_MUL}, {Instruction::UDiv, O_UDIV}, {Instruction::SDiv, O_SDIV}, {Instruction::URem, O_UREM}, {Instruction::SRem, O_SREM}, {Instruction::Shl, O_SHL}, {Instruction::LShr, O_LSHR}, {Instruction::AShr, O_ASHR}, {Instruction::And, O_AND}, {Instruction::Or, O_OR}, {Instruction::Xor, O_XOR}};
    for (unsigned k = 0; k < nl; ++k) { Opnd a = op(I.getOperand(0), k), b = op(I.getOperand(1), k); DInst &x = emit(I_BIN, &I); x.sub = mp.at(I.getOpcode()); x.w = bits(elt(T)); x.dst = d + k; x.a = a; x.b = b; }
    return; }
  case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
    static const std::map<unsigned, Op> mp = {{Instruction::FAdd, O_FADD}, {Instruction::FSub, O_FSUB}, {Instruction::FMul, O_FMUL}, {Instruction::FDiv, O_FDIV}, {Instruction::FRem, O_FREM}};
    for (unsigned k = 0; k < nl; ++k) { Opnd a = op(I.getOperand(0), k), b = op(I.getOperand(1), k); DInst &x = emit(I_FBIN, &I); x.sub = mp.at(I.getOpcode()); x.w = bits(elt(T)); x.dst = d + k; x.a = a; x.b = b; }
    return; }
  case Instruction::FNeg: for (unsigned k = 0; k < nl; ++k) { Opnd a = op(I.getOperand(0), k); DInst &x = emit(I_FNEG, &I); x.w = bits(elt(T)); x.dst = d + k; x.a = a; } return;
  case Instruction::ICmp: case Instruction::FCmp:
    for (unsigned k = 0; k < nl; ++k) { Opnd a = op(I.getOperand(0), k), b = op(I.getOperand(1), k); DInst &x = emit(isa<ICmpInst>(I) ? I_ICMP : I_FCMP, &I); x.sub = icmpSub(cast<CmpInst>(I).getPredicate()); x.w = bits(elt(I.getOperand(0)->getType())); x.dst = d + k; x.a = a; x.b = b; }
    return;
  case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: {
    Type *S = I.getOperand(0)->getType(); unsigned o = I.getOpcode();
    if (o == Instruction::BitCast && (S->isVectorTy() || T->isVectorTy())) return unsup("vbitcast");
    for (unsigned k = 0; k < nl; ++k) {
      Opnd a = op(I.getOperand(0), k); unsigned w = bits(elt(T)), w2 = bits(elt(S)); IOp io = I_MOV;
      switch (o) { case Instruction::Trunc: io = I_TRUNC; break; case Instruction::ZExt: io = I_ZEXT; break; case Instruction::SExt: io = I_SEXT; break; case Instruction::FPToSI: io = I_FPTOSI; break; case Instruction::FPToUI: io = I_FPTOUI; break; case Instruction::SIToFP: io = I_SITOFP; break; case Instruction::UIToFP: io = I_UITOFP; break; case Instruction::FPExt: case Instruction::FPTrunc: io = I_FPCVT; break;
      case Instruction::PtrToInt: io = w < 64 ? I_TRUNC : I_MOV; break; case Instruction::IntToPtr: io = w2 < 64 ? I_ZEXT : I_MOV; break; default: break; }
      DInst &x = emit(io, &I); x.w = w; x.w2 = w2; x.dst = d + k; x.a = a;
    }
    return; }
  case Instruction::Select:
    for (unsigned k = 0; k < nl; ++k) { bool vc = I.getOperand(0)->getType()->isVectorTy(); Opnd a = op(I.getOperand(0), vc ? k : 0), b = op(I.getOperand(1), k), c = op(I.getOperand(2), k); std::vector<std::pair<uint64_t, unsigned>> lv; flatten(T, lv); Type *et = T; (void)et; DInst &x = emit(I_SELECT, &I); x.a = a; x.b = b; x.c = c; x.dst = d + k; x.w = lv[k].second; x.sub = elt(T)->isPointerTy(); }
    return;
  case Instruction::Freeze: for (unsigned k = 0; k < nl; ++k) { Opnd a = op(I.getOperand(0), k); std::vector<std::pair<uint64_t, unsigned>> lv; flatten(T, lv); DInst &x = emit(I_FREEZE, &I); x.a = a; x.dst = d + k; x.w = lv[k].second; } return;
  case Instruction::ExtractValue: { auto &E = cast<ExtractValueInst>(I); unsigned l = leafIndex(E.getAggregateOperand()->getType(), E.getIndices()); for (unsigned k = 0; k < nl; ++k) { Opnd a = op(E.getAggregateOperand(), l + k); DInst &x = emit(I_MOV, &I); x.a = a; x.dst = d + k; x.w = 64; } return; }
  case Instruction::InsertValue: { auto &E = cast<InsertValueInst>(I); unsigned l = leafIndex(T, E.getIndices()), m = slotsOf(E.getInsertedValueOperand()->getType());
    for (unsigned k = 0; k < nl; ++k) { Opnd a = k >= l && k < l + m ? op(E.getInsertedValueOperand(), k - l) : op(E.getAggregateOperand(), k); DInst &x = emit(I_MOV, &I); x.a = a; x.dst = d + k; x.w = 64; } return; }
  case Instruction::ExtractElement: { auto *ci = dyn_cast<ConstantInt>(I.getOperand(1)); if (!ci) return unsup("ee"); Opnd a = op(I.getOperand(0), ci->getZExtValue()); DInst &x = emit(I_MOV, &I); x.a = a; x.dst = d; return; }
  case Instruction::InsertElement: { auto *ci = dyn_cast<ConstantInt>(I.getOperand(2)); if (!ci) return unsup("ie"); for (unsigned k = 0; k < nl; ++k) { Opnd a = k == ci->getZExtValue() ? op(I.getOperand(1)) : op(I.getOperand(0), k); DInst &x = emit(I_MOV, &I); x.a = a; x.dst = d + k; } return; }
  case Instruction::ShuffleVector: { auto &S = cast<ShuffleVectorInst>(I); unsigned n0 = slotsOf(S.getOperand(0)->getType()); for (unsigned k = 0; k < nl; ++k) { int m = S.getMaskValue(k); Opnd a = m < 0 ? K(0) : (unsigned)m < n0 ? op(S.getOperand(0), m) : op(S.getOperand(1), m - n0); DInst &x = emit(I_MOV, &I); x.a = a; x.dst = d + k; } return; }
  case Instruction::Load: { std::vector<std::pair<uint64_t, unsigned>> lv; flatten(T, lv); for (unsigned k = 0; k < lv.size(); ++k) { Opnd a = op(I.getOperand(0)); DInst &x = emit(I_LOAD, &I); x.a = a; x.imm = lv[k].first; x.w = lv[k].second; x.w2 = (lv[k].second + 7) / 8; x.dst = d + k; } return; }
  case Instruction::Store: { std::vector<std::pair<uint64_t, unsigned>> lv; flatten(I.getOperand(0)->getType(), lv); for (unsigned k = 0; k < lv.size(); ++k) { Opnd v = op(I.getOperand(0), k), a = op(I.getOperand(1)); DInst &x = emit(I_STORE, &I); x.a = a; x.b = v; x.imm = lv[k].first; x.w = lv[k].second; x.w2 = (lv[k].second + 7) / 8; } return; }
  case Instruction::GetElementPtr: {
    if (T->isVectorTy()) return unsup("vgep");
    auto &G = cast<GEPOperator>(I); GepT g; g.off = 0;
    for (auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) {
      Value *ix = it.getOperand();
      if (StructType *st = it.getStructTypeOrNull()) { g.off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
      int64_t sc = DL->getTypeAllocSize(it.getIndexedType()).getFixedValue();
      if (auto *ci = dyn_cast<ConstantInt>(ix)) g.off += ci->getSExtValue() * sc;
      else { unsigned w = bits(ix->getType()); g.idx.push_back({op(ix), {sc, (uint8_t)w}}); }
    }
    Opnd a = op(G.getPointerOperand());
    int ix = -1; if (!g.idx.empty()) { ix = F.geps.size(); F.geps.push_back(g); }
    DInst &x = emit(I_GEP, &I); x.a = a; x.dst = d; x.imm = g.off; x.aux = ix; return; }
  case Instruction::Alloca: { auto &A = cast<AllocaInst>(I); Opnd n = op(A.getArraySize()); DInst &x = emit(I_ALLOCA, &I); x.a = n; x.imm = DL->getTypeAllocSize(A.getAllocatedType()); x.aux = std::max<uint64_t>(16, A.getAlign().value()); x.dst = d; return; }
  case Instruction::Br: { auto &B = cast<BranchInst>(I); if (B.isUnconditional()) { int e = edge(I.getParent(), B.getSuccessor(0)); DInst &x = emit(I_BR, &I); x.aux = e; } else { Opnd a = op(B.getCondition()); int e0 = edge(I.getParent(), B.getSuccessor(0)), e1 = edge(I.getParent(), B.getSuccessor(1)); DInst &x = emit(I_CBR, &I); x.a = a; x.aux = e0; x.imm = e1; } return; }
  case Instruction::Switch: { auto &S = cast<SwitchInst>(I); SwitchT s; s.def = edge(I.getParent(), S.getDefaultDest()); for (auto &c : S.cases()) { int e = edge(I.getParent(), c.getCaseSuccessor()); uint64_t v = c.getCaseValue()->getZExtValue(); s.cases.push_back({v, e}); s.map[v] = e; } Opnd a = op(S.getCondition()); int ix = F.sws.size(); F.sws.push_back(std::move(s)); DInst &x = emit(I_SWITCH, &I); x.a = a; x.w = bits(S.getCondition()->getType()); x.aux = ix; return; }
  case Instruction::Ret: { RetT r; if (I.getNumOperands()) { int k = slotsOf(I.getOperand(0)->getType()); for (int i = 0; i < k; ++i) r.vals.push_back(op(I.getOperand(0), i)); } int ix = F.rets.size(); F.rets.push_back(r); DInst &x = emit(I_RET, &I); x.aux = ix; return; }
  case Instruction::Unreachable: emit(I_UNREACH, &I); return;
  case Instruction::Resume: { Opnd a = op(I.getOperand(0), 0); DInst &x = emit(I_RESUME, &I); x.a = a; return; }
  case Instruction::LandingPad: { auto &L = cast<LandingPadInst>(I); LPadT l; l.cleanup = L.isCleanup(); for (unsigned i = 0; i < L.getNumClauses(); ++i) { std::vector<uint64_t> v; if (L.isCatch(i)) v.push_back(constScalar(L.getClause(i))); else flattenConst(L.getClause(i), v); l.clauses.push_back({L.isCatch(i), v}); } int ix = F.lpads.size(); F.lpads.push_back(l); DInst &x = emit(I_LPAD, &I); x.dst = d; x.aux = ix; return; }
  case Instruction::AtomicCmpXchg: { Opnd a = op(I.getOperand(0)), b = op(I.getOperand(1)), c = op(I.getOperand(2)); DInst &x = emit(I_CMPXCHG, &I); x.a = a; x.b = b; x.c = c; x.dst = d; x.w = bits(I.getOperand(1)->getType()); x.w2 = x.w / 8; return; }
  case Instruction::AtomicRMW: { auto &R = cast<AtomicRMWInst>(I); Opnd a = op(I.getOperand(0)), b = op(I.getOperand(1)); DInst &x = emit(I_RMW, &I); x.a = a; x.b = b; x.dst = d; x.sub = R.getOperation(); x.w = bits(T); x.w2 = x.w / 8; return; }
  case Instruction::Fence: return;
  case Instruction::Call: case Instruction::Invoke: {
    auto &C = cast<CallBase>(I);
    if (auto *ii = dyn_cast<IntrinsicInst>(&C)) switch (ii->getIntrinsicID()) {
      case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::donothing: case Intrinsic::var_annotation: if (isa<InvokeInst>(I)) break; return;
      default: break; }
    CallT c;
    Value *cv = C.getCalledOperand()->stripPointerCasts();
    if (auto *ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliaseeObject();
    for (unsigned i = 0; i < C.arg_size(); ++i) {
      Value *a = C.getArgOperand(i); std::vector<std::pair<uint64_t, unsigned>> lv; if (a->getType()->isMetadataTy()) continue; flatten(a->getType(), lv);
      if (C.isByValArgument(i)) { c.byval.push_back(c.args.size()); c.byval.push_back(DL->getTypeAllocSize(C.getParamByValType(i))); }
      for (unsigned k = 0; k < lv.size(); ++k) { c.args.push_back(op(a, k)); c.argw.push_back(lv[k].second); }
    }
    c.nret = nl; if (nl) { std::vector<std::pair<uint64_t, unsigned>> lv; flatten(T, lv); c.retw = lv[0].second; }
    if (isa<InlineAsm>(cv)) { DInst &x = emit(I_NOP, &I); (void)x; return; }
    if (auto *fn = dyn_cast<Function>(cv)) {
      c.name = fn->getName().str(); c.decl = fn;
      std::string bn = c.name;
      if (fn->isIntrinsic()) { bn = Intrinsic::getBaseName(fn->getIntrinsicID()).str(); }
      auto it = gBuiltins.find(bn);
      if (it != gBuiltins.end()) c.bi = it->second;
      else if (!fn->isDeclaration()) c.fn = funcInfo(fn);
      else { c.fn = funcInfo(fn); }
    } else { c.fp = op(cv); c.name = ""; }
    if (auto *iv = dyn_cast<InvokeInst>(&I)) { c.normalEdge = edge(I.getParent(), iv->getNormalDest()); c.unwindEdge = edge(I.getParent(), iv->getUnwindDest()); }
    int ix = F.calls.size(); F.calls.push_back(std::move(c)); DInst &x = emit(I_CALL, &I); x.dst = d; x.aux = ix; return; }
  default: unsup("op");
  }
}

// ------------------------------------------------------------------ executor
struct Exec {
  std::deque<State *> work; std::vector<Viol> viols; std::set<std::string> reached; std::map<std::string, uint64_t> unsup;
  uint64_t pathsDone = 0, pathsErr = 0, forks = 0, insts = 0, assertsChecked = 0, assertsConst = 0, assumesKilled = 0, incomplete = 0, maxDepthSeen = 0, solverUnknown = 0;
  std::map<std::string, uint64_t> assertIds; std::map<std::string, std::string> knownHits; std::vector<Viol> knownViols;
  std::vector<Viol> samples; std::string abortReason; double t0; std::mt19937 rng; uint64_t nextId = 1; uint64_t concretisations = 0, iteLoads = 0; std::set<std::string> violKeys; uint64_t fmtSym = 0; std::set<std::string> choiceSeen;
  State *clone(State &s) { State *n = new State(s); n->id = nextId++; forks++; return n; }
  std::string where(State &s) {
    std::string r; int k = 0;
    for (int i = s.frames.size() - 1; i >= 0 && k < 12; --i) {
      Frame &f = s.frames[i]; int pc = std::min<int>(f.pc, f.f->code.size() - 1);
      const Instruction *I = f.f->code.empty() ? nullptr : f.f->code[pc].li;
      if (I && I->getDebugLoc()) { auto *l = I->getDebugLoc().get(); r += l->getFilename().str() + ":" + std::to_string(l->getLine()) + " "; } else r += f.f->f->getName().str().substr(0, 60) + " ";
      ++k;
    }
    return r;
  }
  Viol mkViol(State &s, const Model &m, const std::string &kind, const std::string &id, const std::string &msg) {
    Viol v; v.kind = kind; v.id = id; v.msg = msg; v.where = where(s);
    for (auto &i : s.inputs) v.inputs.push_back({i.name, {i.w, i.e ? evalE(i.e, m) : i.c}});
    for (auto &o : s.obs) v.obs.push_back({o.label, o.v.e ? evalE(o.v.e, m) : o.v.c});
    return v;
  }
  void addViol(State &s, const Model &m, const std::string &kind, const std::string &id, const std::string &msg) {
    pathsErr++;
    std::string key = kind + "|" + id + "|" + (kind == "assert" ? "" : where(s));
    if (!violKeys.insert(key).second) return;
    viols.push_back(mkViol(s, m, kind, id, msg));
    if (O.verbose || getenv("VSYM_V")) fprintf(stderr, "VIOL %s %s %s @ %s\n", kind.c_str(), id.c_str(), msg.c_str(), viols.back().where.c_str());
    if ((int)viols.size() >= O.maxViol) abortReason = "violations";
  }
  void fail(State &s, const std::string &kind, const std::string &msg) { addViol(s, *s.model, kind, kind, msg); }
  void unsupported(State &s, const std::string &m) { unsup[m]++; incomplete++; if (O.verbose) fprintf(stderr, "UNSUPPORTED %s @ %s\n", m.c_str(), where(s).c_str()); }

  void addCons(State &s, E e) { s.pc.add(e); }
  // can s also satisfy e?  (model returned)
  SatR sat(State &s, E e, ModelP *m, bool force = false) { gStats.branchQueries++; SatR r = checkSat(s.pc, e, *s.model, m, force); if (r == S_UNKNOWN) { solverUnknown++; } return r; }

  // Concretise: returns true with a value; other feasible values continue in forked states that re-execute the instruction.
  bool conc(State &s, const Val &v, unsigned w, uint64_t &out) {
    if (!v.e) { out = v.c; return true; }
    auto it = s.known.find(v.e); if (it != s.known.end()) { out = it->second; return true; }
    concretisations++;
    uint64_t c = evalE(v.e, *s.model); E eq = mkEq(v.e, mkConst(c, v.e->w)); E ne = mkNot(eq);
    if (!isC(eq)) {
      ModelP m2; SatR r = sat(s, ne, &m2);
      if (r == S_SAT) { State *n = clone(s); n->model = m2; addCons(*n, ne); push(n); addCons(s, eq); }
      else if (r == S_UNKNOWN) { incomplete++; addCons(s, eq); }
    }
    s.known[v.e] = c; out = c; return true;
  }
  void push(State *n) { work.push_back(n); }
  // decide a boolean; forks.  Returns value for s; the forked state (if any) re-executes.
  bool decide(State &s, E e) { uint64_t r; conc(s, Val{0, e}, 1, r); return r; }
  bool undefDependent(State &s, E e) { return e->undef && !s.noUninit; }

  void freshUndef(State &s, Val &v, unsigned w) { E e = mkSym("undef#" + std::to_string(s.undefs++), w, true); v.c = 0; v.e = e; }
  bool unwind(State &s, uint64_t exc); // returns false when the state died
  bool enter(State &s, FuncInfo *fi, const Val *args, int nargs);
  void run(State *s);
  void finish(State &s);
  bool loadVal(State &s, const Val &addr, int64_t off, unsigned n, unsigned w, Val &out, bool &died);
};

static uint64_t HDR = 32, REDZ = 16;
struct HeapHdr { uint64_t magic, size, kind, seq; };
static uint64_t heapAlloc(State &s, uint64_t size, unsigned kind) {
  uint64_t a = ((s.heapTop + 15) & ~15ull) + HDR; uint64_t n = size ? size : 1;
  HeapHdr h = {0x4C495645, size, kind, s.allocSeq++}; s.mem.rawW(a - HDR, &h, sizeof h);
  s.mem.mark(a, n, true, false); if (!size) s.mem.mark(a, 1, false, false);
  s.heapTop = a + n + REDZ; s.liveBytes += size; s.liveCount++; return a;
}
static std::string describeAddr(State &s, uint64_t a) {
  char b[200];
  if (a < 4096) { snprintf(b, sizeof b, "null pointer access (0x%llx)", (unsigned long long)a); return b; }
  if ((a >> 32) == R_HEAP) {
    uint64_t p = a & ~15ull; for (int i = 0; i < 40000 && p >= ((uint64_t)R_HEAP << 32); ++i, p -= 16) { HeapHdr h; s.mem.rawR(p, &h, sizeof h); if (h.magic == 0x4C495645 || h.magic == 0x44454144) { snprintf(b, sizeof b, "%s heap block of %llu bytes at offset %lld", h.magic == 0x4C495645 ? "live" : "freed", (unsigned long long)h.size, (long long)(a - (p + HDR))); return b; } }
  }
  snprintf(b, sizeof b, "invalid address 0x%llx", (unsigned long long)a); return b;
}

bool Exec::enter(State &s, FuncInfo *fi, const Val *args, int nargs) {
  if (!fi->decoded) {
    if (fi->f->isDeclaration()) { unsupported(s, "external function " + fi->f->getName().str()); return false; }
    Decoder(*fi).run();
  }
  if (s.frames.size() >= s.maxDepth) { fail(s, "recursion", "call depth bound exceeded (" + std::to_string(s.maxDepth) + ")"); return false; }
  fi->entered++;
  uint32_t base = s.frames.empty() ? 0 : s.frames.back().base + s.frames.back().f->nslots;
  if (s.regs.size() < base + fi->nslots) s.regs.resize(base + fi->nslots);
  for (int i = 0; i < fi->nparams; ++i) s.regs[base + i] = i < nargs ? args[i] : Val{0, nullptr};
  for (uint32_t i = base + fi->nparams; i < base + fi->nslots; ++i) s.regs[i] = Val{0, nullptr};
  s.frames.push_back({fi, base, 0, s.sp});
  if (s.frames.size() > maxDepthSeen) maxDepthSeen = s.frames.size();
  return true;
}
static void takeEdge(State &s, Frame &f, const Edge &e) {
  Val *R = &s.regs[f.base]; const Val *K = f.f->consts.data();
  size_t n = e.moves.size();
  if (n == 1) R[e.moves[0].first] = e.moves[0].second.i >= 0 ? R[e.moves[0].second.i] : K[~e.moves[0].second.i];
  else if (n) { Val tmp[64]; std::vector<Val> big; Val *t = tmp; if (n > 64) { big.resize(n); t = big.data(); } for (size_t i = 0; i < n; ++i) t[i] = e.moves[i].second.i >= 0 ? R[e.moves[i].second.i] : K[~e.moves[i].second.i]; for (size_t i = 0; i < n; ++i) R[e.moves[i].first] = t[i]; }
  f.pc = e.target;
}

static uint32_t tiSel(uint64_t ad);
// ---- exceptions: type matching on simulated type_info objects
static uint64_t gVtClass, gVtSi, gVtVmi;
static bool derives(State &s, uint64_t t, uint64_t base, uint64_t &adj, int depth = 0) {
  if (t == base) return true;
  if (depth > 20 || !t) return false;
  uint64_t vt = s.mem.raw64(t);
  if (vt == gVtSi) return derives(s, s.mem.raw64(t + 16), base, adj, depth + 1);
  if (vt == gVtVmi) { uint32_t n; s.mem.rawR(t + 20, &n, 4); for (uint32_t i = 0; i < n; ++i) { uint64_t bt = s.mem.raw64(t + 24 + 16 * i); int64_t fl = (int64_t)s.mem.raw64(t + 32 + 16 * i); if (fl & 1) continue; uint64_t a2 = 0; if (derives(s, bt, base, a2, depth + 1)) { adj += a2 + (fl >> 8); return true; } } }
  return false;
}
// exception object header lives 64 bytes before the object: [tinfo][dtor][handlers][refs][next][adjusted]
bool Exec::unwind(State &s, uint64_t exc) {
  uint64_t ti = s.mem.raw64(exc - 64);
  while (!s.frames.empty()) {
    Frame &f = s.frames.back(); DInst &ci = f.f->code[f.pc];
    if (ci.op == I_CALL) {
      CallT &c = f.f->calls[ci.aux];
      if (c.unwindEdge >= 0) {
        const Edge &e = f.f->edges[c.unwindEdge]; DInst *lp = &f.f->code[e.target]; int k = e.target;
        while (lp->op != I_LPAD) { ++k; lp = &f.f->code[k]; }
        LPadT &L = f.f->lpads[lp->aux]; bool go = L.cleanup; uint64_t sel = 0, adj = 0;
        for (auto &cl : L.clauses) {
          if (cl.first) { uint64_t a2 = 0; if (cl.second[0] == 0 || derives(s, ti, cl.second[0], a2)) { go = true; sel = cl.second[0] ? tiSel(cl.second[0]) : 1; adj = a2; break; } }
          else { bool ok = false; for (uint64_t x : cl.second) { uint64_t a2 = 0; if (!x || derives(s, ti, x, a2)) ok = true; } if (!ok) { go = true; sel = 0xffffffff; break; } }
        }
        if (go) { uint64_t ad = exc + adj; s.mem.rawW(exc - 64 + 40, &ad, 8); s.excPtr = exc; s.excSel = sel; takeEdge(s, f, e); return true; }
      }
    }
    // pop
    if (s.sp != f.sp) { s.mem.mark(f.sp, s.sp - f.sp, false, false); s.sp = f.sp; }
    s.frames.pop_back();
  }
  fail(s, "uncaught", "uncaught exception"); return false;
}

void Exec::finish(State &s) {
  pathsDone++;
  for (auto &r : s.reached) reached.insert(r);
  // reservoir sample of complete paths for native validation
  if ((int)samples.size() < O.samples) samples.push_back(mkViol(s, *s.model, "path", "", ""));
  else { uint64_t k = rng() % pathsDone; if (k < (uint64_t)O.samples) samples[k] = mkViol(s, *s.model, "path", "", ""); }
}

bool Exec::loadVal(State &s, const Val &addr, int64_t off, unsigned n, unsigned w, Val &out, bool &died) {
  died = false;
  if (addr.e) {
    auto kn = s.known.find(addr.e);
    E ae = off ? mk(O_ADD, 64, addr.e, mkConst(off, 64)) : addr.e;
    if (kn == s.known.end() && addr.e->syms->size() == 1 && gSyms[(*addr.e->syms)[0]].w <= 8 && !addr.e->undef) {
      uint32_t sy = (*addr.e->syms)[0]; unsigned N = 1u << gSyms[sy].w; auto dm = s.pc.dom.find(sy);
      std::map<uint64_t, std::vector<unsigned>> byC; std::map<E, std::vector<unsigned>> byE; bool ok = true; std::vector<std::pair<unsigned, Val>> vals;
      std::vector<uint64_t> mv(sy + 1, 0);
      for (unsigned i = 0; i < N && ok; ++i) {
        if (dm != s.pc.dom.end() && !((dm->second.w[i >> 6] >> (i & 63)) & 1)) continue;
        mv[sy] = i; ModelP m = newModel(mv); uint64_t a = evalE(ae, *m); Val v; bool un;
        if (s.mem.load(a, n, w, v, un) != M_OK || un) { ok = false; break; }
        vals.push_back({i, v});
      }
      if (ok && !vals.empty()) {
        iteLoads++;
        E se = intern_raw(O_SYM, gSyms[sy].w, nullptr, nullptr, nullptr, sy);
        // group consecutive equal values into ranges, default = most frequent
        std::map<std::pair<uint64_t, E>, unsigned> cnt; for (auto &p : vals) cnt[{p.second.e ? 0 : p.second.c, p.second.e}]++;
        std::pair<uint64_t, E> best = cnt.begin()->first; for (auto &c : cnt) if (c.second > cnt[best]) best = c.first;
        auto ve = [&](std::pair<uint64_t, E> k) { return k.second ? k.second : mkConst(k.first, w); };
        E r = ve(best);
        for (auto &c : cnt) if (c.first != best) {
          E cond = mkConst(0, 1); size_t i = 0;
          while (i < vals.size()) {
            auto key = [&](size_t j) { return std::pair<uint64_t, E>(vals[j].second.e ? 0 : vals[j].second.c, vals[j].second.e); };
            if (key(i) != c.first) { ++i; continue; }
            size_t j = i; while (j + 1 < vals.size() && key(j + 1) == c.first) ++j; // values in between are outside the domain
            unsigned lo = vals[i].first, hi = vals[j].first;
            E rg = lo == hi ? mkEq(se, mkConst(lo, se->w)) : mkAnd(mk(O_ULE, 1, mkConst(lo, se->w), se), mk(O_ULE, 1, se, mkConst(hi, se->w)));
            cond = mkOr(cond, rg); i = j + 1;
          }
          r = mkIte(cond, ve(c.first), r);
        }
        Mem::set(out, r); return true;
      }
    }
    uint64_t a; if (addr.e->undef && undefDependent(s, addr.e)) { fail(s, "uninit", "address computed from an uninitialised value"); died = true; return false; }
    conc(s, addr, 64, a); Val av{a, nullptr}; return loadVal(s, av, off, n, w, out, died);
  }
  bool un; uint64_t a = addr.c + off;
  if (s.mem.load(a, n, w, out, un) != M_OK) { fail(s, "memory", "invalid read of " + std::to_string(n) + " bytes: " + describeAddr(s, a)); died = true; return false; }
  if (un) { // only the bytes that are uninitialised are unknown
    SymByte sb; uint8_t cb; bool in; std::vector<E> by; unsigned ni = 0;
    for (unsigned i = 0; i < n; ++i) { s.mem.rdByte(a + i, sb, cb, in); if (in) { ++ni; by.push_back(Mem::byteE(sb, cb)); } else { Val u; freshUndef(s, u, 8); by.push_back(u.e); } }
    if (!ni) freshUndef(s, out, w);
    else { E r = by[n - 1]; for (int i = (int)n - 2; i >= 0; --i) r = mkConcat(r, by[i]); Mem::set(out, w == r->w ? r : mkExtract(r, 0, w)); }
  }
  return true;
}

static inline Val fromE(E e) { Val v; Mem::set(v, e); return v; }

void Exec::run(State *sp) {
  State &s = *sp; uint64_t budget = 0;
  while (true) {
    if ((++budget & 0xfffff) == 0) { if (now() - t0 > O.maxTime) { abortReason = "time"; return; } }
    Frame *f = &s.frames.back(); DInst &d = f->f->code[f->pc]; Val *R = &s.regs[f->base]; const Val *K = f->f->consts.data();
    auto V = [&](Opnd o) -> const Val & { return o.i >= 0 ? R[o.i] : K[~o.i]; };
    d.hit = 1; ++s.insts; ++insts;
    if (s.insts > O.maxInsts) { fail(s, "steps", "step bound exceeded (" + std::to_string(O.maxInsts) + " instructions on one path)"); return; }
    switch (d.op) {
    case I_NOP: f->pc++; break;
    case I_MOV: R[d.dst] = V(d.a); f->pc++; break;
    case I_FREEZE: { Val v = V(d.a); if (v.e && v.e->undef) { /* any fixed value */ uint64_t c; c = evalE(v.e, *s.model); if (v.e->op == O_SYM) v = Val{c, nullptr}; } R[d.dst] = v; f->pc++; break; }
    case I_BIN: {
      const Val &a = V(d.a), &b = V(d.b); unsigned w = d.w; Op op = (Op)d.sub;
      if (!a.e && !b.e) {
        uint64_t r;
        switch (op) {
        case O_ADD: r = (a.c + b.c) & maskw(w); break;
        case O_SUB: r = (a.c - b.c) & maskw(w); break;
        case O_AND: r = a.c & b.c; break; case O_OR: r = a.c | b.c; break; case O_XOR: r = a.c ^ b.c; break;
        case O_UDIV: case O_SDIV: case O_UREM: case O_SREM:
          if (b.c == 0) { fail(s, "divzero", "division by zero"); return; }
          if ((op == O_SDIV || op == O_SREM) && b.c == maskw(w) && a.c == 1ull << (w - 1)) { fail(s, "divovf", "signed division overflow"); return; }
          // fallthrough
        default: r = evalOp(op, w, w, 0, a.c, b.c, 0);
        }
        R[d.dst] = {r, nullptr}; f->pc++; break;
      }
      E ae = toE(a, w), be = toE(b, w);
      if (op == O_UDIV || op == O_SDIV || op == O_UREM || op == O_SREM) {
        E z = mkEq(be, mkConst(0, w)); ModelP m;
        if (!isC(z) || z->aux) { SatR r = sat(s, z, &m); if (r == S_SAT) { addViol(s, *m, "divzero", "divzero", "division by zero"); if (abortReason.size()) return; } E nz = mkNot(z); if (r != S_UNSAT) { ModelP m2; if (!evalE(nz, *s.model)) { if (sat(s, nz, &m2) != S_SAT) return; s.model = m2; } addCons(s, nz); } }
        if (op == O_SDIV || op == O_SREM) {
          E ov = mkAnd(mkEq(be, mkConst(maskw(w), w)), mkEq(ae, mkConst(1ull << (w - 1), w)));
          if (!isC(ov) || ov->aux) { SatR r = sat(s, ov, &m); if (r == S_SAT) { addViol(s, *m, "divovf", "divovf", "signed division overflow"); if (abortReason.size()) return; } E no = mkNot(ov); if (r != S_UNSAT) { ModelP m2; if (!evalE(no, *s.model)) { if (sat(s, no, &m2) != S_SAT) return; s.model = m2; } addCons(s, no); } }
        }
      }
      R[d.dst] = fromE(mk(op, w, ae, be)); f->pc++; break; }
    case I_ICMP: {
      const Val &a = V(d.a), &b = V(d.b); unsigned w = d.w;
      if (!a.e && !b.e) {
        bool r; uint64_t x = a.c, y = b.c;
        switch (d.sub) {
        case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break;
        case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break;
        case CmpInst::ICMP_SLT: r = sextw(x, w) < sextw(y, w); break; case CmpInst::ICMP_SLE: r = sextw(x, w) <= sextw(y, w); break; case CmpInst::ICMP_SGT: r = sextw(x, w) > sextw(y, w); break; default: r = sextw(x, w) >= sextw(y, w); break;
        }
        R[d.dst] = {(uint64_t)r, nullptr}; f->pc++; break;
      }
      E x = toE(a, w), y = toE(b, w), r;
      switch (d.sub) {
      case CmpInst::ICMP_EQ: r = mkEq(x, y); break; case CmpInst::ICMP_NE: r = mkNot(mkEq(x, y)); break;
      case CmpInst::ICMP_ULT: r = mk(O_ULT, 1, x, y); break; case CmpInst::ICMP_ULE: r = mk(O_ULE, 1, x, y); break; case CmpInst::ICMP_UGT: r = mk(O_ULT, 1, y, x); break; case CmpInst::ICMP_UGE: r = mk(O_ULE, 1, y, x); break;
      case CmpInst::ICMP_SLT: r = mk(O_SLT, 1, x, y); break; case CmpInst::ICMP_SLE: r = mk(O_SLE, 1, x, y); break; case CmpInst::ICMP_SGT: r = mk(O_SLT, 1, y, x); break; default: r = mk(O_SLE, 1, y, x); break;
      }
      R[d.dst] = fromE(r); f->pc++; break; }
    case I_FBIN: { const Val &a = V(d.a), &b = V(d.b); if (!a.e && !b.e) R[d.dst] = {evalOp((Op)d.sub, d.w, d.w, 0, a.c, b.c, 0), nullptr}; else R[d.dst] = fromE(mk((Op)d.sub, d.w, toE(a, d.w), toE(b, d.w))); f->pc++; break; }
    case I_FNEG: { const Val &a = V(d.a); uint64_t sg = 1ull << (d.w - 1); if (!a.e) R[d.dst] = {a.c ^ sg, nullptr}; else R[d.dst] = fromE(mk(O_XOR, d.w, a.e, mkConst(sg, d.w))); f->pc++; break; }
    case I_FCMP: {
      const Val &a = V(d.a), &b = V(d.b); unsigned w = d.w; E x = toE(a, w), y = toE(b, w), r;
      auto lt = [&](E p, E q) { return mk(O_FLT, 1, p, q); }; auto le = [&](E p, E q) { return mk(O_FLE, 1, p, q); };
      E uno = nullptr; auto U = [&] { if (!uno) uno = mk(O_FUNO, 1, x, y); return uno; };
      switch (d.sub) {
      case CmpInst::FCMP_FALSE: r = mkConst(0, 1); break; case CmpInst::FCMP_TRUE: r = mkConst(1, 1); break;
      case CmpInst::FCMP_OEQ: r = mk(O_FEQ, 1, x, y); break; case CmpInst::FCMP_UEQ: r = mkOr(mk(O_FEQ, 1, x, y), U()); break;
      case CmpInst::FCMP_UNE: r = mkNot(mk(O_FEQ, 1, x, y)); break; case CmpInst::FCMP_ONE: r = mkAnd(mkNot(mk(O_FEQ, 1, x, y)), mkNot(U())); break;
      case CmpInst::FCMP_OLT: r = lt(x, y); break; case CmpInst::FCMP_OLE: r = le(x, y); break; case CmpInst::FCMP_OGT: r = lt(y, x); break; case CmpInst::FCMP_OGE: r = le(y, x); break;
      case CmpInst::FCMP_ULT: r = mkNot(le(y, x)); break; case CmpInst::FCMP_ULE: r = mkNot(lt(y, x)); break; case CmpInst::FCMP_UGT: r = mkNot(le(x, y)); break; case CmpInst::FCMP_UGE: r = mkNot(lt(x, y)); break;
      case CmpInst::FCMP_UNO: r = U(); break; default: r = mkNot(U()); break;
      }
      R[d.dst] = fromE(r); f->pc++; break; }
    case I_TRUNC: { const Val &a = V(d.a); if (!a.e) R[d.dst] = {a.c & maskw(d.w), nullptr}; else R[d.dst] = fromE(mkExtract(a.e, 0, d.w)); f->pc++; break; }
    case I_ZEXT: { const Val &a = V(d.a); if (!a.e) R[d.dst] = a; else R[d.dst] = fromE(mkZext(a.e, d.w)); f->pc++; break; }
    case I_SEXT: { const Val &a = V(d.a); if (!a.e) R[d.dst] = {(uint64_t)sextw(a.c, d.w2) & maskw(d.w), nullptr}; else R[d.dst] = fromE(mkSext(a.e, d.w)); f->pc++; break; }
    case I_FPTOSI: case I_FPTOUI: case I_SITOFP: case I_UITOFP: case I_FPCVT: {
      const Val &a = V(d.a); Op o = d.op == I_FPTOSI ? O_FPTOSI : d.op == I_FPTOUI ? O_FPTOUI : d.op == I_SITOFP ? O_SITOFP : d.op == I_UITOFP ? O_UITOFP : O_FPCVT;
      if (!a.e) R[d.dst] = {evalOp(o, d.w, d.w2, 0, a.c, 0, 0), nullptr}; else R[d.dst] = fromE(mk(o, d.w, a.e)); f->pc++; break; }
    case I_SELECT: {
      const Val &c = V(d.a);
      if (!c.e) { R[d.dst] = c.c ? V(d.b) : V(d.c); f->pc++; break; }
      const Val &b = V(d.b), &e = V(d.c);
      if (!b.e && !e.e && b.c == e.c) { R[d.dst] = b; f->pc++; break; }
      if (d.sub) { if (undefDependent(s, c.e)) { Val t{0, nullptr}; R[d.dst] = b; f->pc++; break; } uint64_t r; conc(s, c, 1, r); R[d.dst] = r ? V(d.b) : V(d.c); f->pc++; break; }
      R[d.dst] = fromE(mkIte(c.e, toE(b, d.w), toE(e, d.w))); f->pc++; break; }
    case I_LOAD: { const Val a = V(d.a); Val v; bool died;
      if (!a.e) { bool un; if (s.mem.load(a.c + d.imm, d.w2, d.w, v, un) == M_OK && !un) { R[d.dst] = v; f->pc++; break; } }
      if (!loadVal(s, a, d.imm, d.w2, d.w, v, died)) { return; }
      s.regs[s.frames.back().base + d.dst] = v; f->pc++; break; }
    case I_STORE: {
      const Val a = V(d.a); uint64_t ad = a.c;
      if (a.e) { if (undefDependent(s, a.e)) { fail(s, "uninit", "store address computed from an uninitialised value"); return; } conc(s, a, 64, ad); }
      Val v = V(d.b); bool un = v.e && v.e->op == O_SYM && v.e->undef;
      MemR r = s.mem.store(ad + d.imm, d.w2, v, d.w); (void)un;
      if (r != M_OK) { fail(s, "memory", std::string(r == M_RO ? "write to read-only memory" : "invalid write of ") + std::to_string(d.w2) + " bytes: " + describeAddr(s, ad + d.imm)); return; }
      f->pc++; break; }
    case I_GEP: {
      const Val &a = V(d.a); 
      if (d.aux < 0) { if (!a.e) R[d.dst] = {a.c + d.imm, nullptr}; else R[d.dst] = fromE(mk(O_ADD, 64, a.e, mkConst(d.imm, 64))); f->pc++; break; }
      const GepT &g = f->f->geps[d.aux]; uint64_t c = d.imm; E e = nullptr;
      if (a.e) e = a.e; else c += a.c;
      for (auto &ix : g.idx) { const Val &v = V(ix.first); if (!v.e) c += (uint64_t)sextw(v.c, ix.second.second) * ix.second.first; else { E t = mk(O_MUL, 64, mkSext(v.e, 64), mkConst(ix.second.first, 64)); e = e ? mk(O_ADD, 64, e, t) : t; } }
      if (!e) R[d.dst] = {c, nullptr}; else R[d.dst] = fromE(c ? mk(O_ADD, 64, e, mkConst(c, 64)) : e);
      f->pc++; break; }
    case I_ALLOCA: {
      uint64_t n; conc(s, V(d.a), 64, n); uint64_t sz = n * d.imm; uint64_t a = (s.sp + 16 + d.aux - 1) & ~(uint64_t)(d.aux - 1);
      s.mem.mark(a, sz ? sz : 1, true, false); s.sp = a + (sz ? sz : 1); 
      if (s.sp - ((uint64_t)R_STACK << 32) > (64u << 20)) { fail(s, "recursion", "stack overflow"); return; }
      R[d.dst] = {a, nullptr}; f->pc++; break; }
    case I_BR: takeEdge(s, *f, f->f->edges[d.aux]); break;
    case I_CBR: {
      const Val &c = V(d.a);
      if (!c.e) { takeEdge(s, *f, f->f->edges[c.c ? d.aux : d.imm]); break; }
      uint64_t v; auto kn = s.known.find(c.e);
      if (kn != s.known.end()) v = kn->second;
      else {
        E e = c.e; v = evalE(e, *s.model); E other = v ? mkNot(e) : e; ModelP m2;
        SatR r = sat(s, other, &m2);
        if (r == S_SAT && e->undef && undefDependent(s, e)) { fail(s, "uninit", "branch depends on an uninitialised value"); return; }
        if (r == S_SAT) {
          State *n = clone(s); n->model = m2; addCons(*n, other); Frame &nf = n->frames.back(); takeEdge(*n, nf, nf.f->edges[v ? d.imm : d.aux]); push(n);
          addCons(s, v ? e : mkNot(e));
        } else if (r == S_UNKNOWN) { // explore both sides: over-approximation without a model is not possible, so the run is incomplete
          incomplete++; addCons(s, v ? e : mkNot(e)); }
      }
      takeEdge(s, *f, f->f->edges[v ? d.aux : d.imm]); break; }
    case I_SWITCH: {
      const Val c = V(d.a); const SwitchT &sw = f->f->sws[d.aux];
      if (c.e) {
        auto kn = s.known.find(c.e);
        if (kn == s.known.end()) {
          if (undefDependent(s, c.e)) { fail(s, "uninit", "switch on an uninitialised value"); return; }
          // group the cases by edge target; fork one state per feasible group
          uint64_t cv = evalE(c.e, *s.model);
          std::map<int32_t, E> grp; std::vector<int32_t> order; E any = mkConst(0, 1);
          auto tgt = [&](int32_t ed) { return ed; };
          for (auto &cs : sw.cases) { E q = mkEq(c.e, mkConst(cs.first, d.w)); any = mkOr(any, q); int32_t t = tgt(cs.second); auto it = grp.find(t); if (it == grp.end()) { grp[t] = q; order.push_back(t); } else it->second = mkOr(it->second, q); }
          E dq = mkNot(any); { auto it = grp.find(sw.def); if (it == grp.end()) { grp[sw.def] = dq; order.push_back(sw.def); } else it->second = mkOr(it->second, dq); }
          int32_t mine; { auto it = sw.map.find(cv); mine = it == sw.map.end() ? sw.def : it->second; }
          for (int32_t t : order) if (t != mine) {
            ModelP m2; SatR r = sat(s, grp[t], &m2);
            if (r == S_SAT) { State *n = clone(s); n->model = m2; addCons(*n, grp[t]); Frame &nf = n->frames.back(); takeEdge(*n, nf, nf.f->edges[t]); push(n); }
            else if (r == S_UNKNOWN) incomplete++;
          }
          addCons(s, grp[mine]); takeEdge(s, *f, f->f->edges[mine]); break;
        }
        auto it = sw.map.find(kn->second); takeEdge(s, *f, f->f->edges[it == sw.map.end() ? sw.def : it->second]); break;
      }
      auto it = sw.map.find(c.c); takeEdge(s, *f, f->f->edges[it == sw.map.end() ? sw.def : it->second]); break; }
    case I_RET: {
      const RetT &r = f->f->rets[d.aux]; Val tmp[16]; int n = r.vals.size(); for (int i = 0; i < n && i < 16; ++i) tmp[i] = V(r.vals[i]);
      if (s.sp != f->sp) { s.mem.mark(f->sp, s.sp - f->sp, false, false); s.sp = f->sp; }
      s.frames.pop_back();
      if (s.frames.empty()) { finish(s); return; }
      Frame &c = s.frames.back(); DInst &ci = c.f->code[c.pc]; CallT &ct = c.f->calls[ci.aux];
      for (int i = 0; i < ct.nret && i < n; ++i) s.regs[c.base + ci.dst + i] = tmp[i];
      if (ct.normalEdge >= 0) takeEdge(s, c, c.f->edges[ct.normalEdge]); else c.pc++;
      break; }
    case I_LPAD: R[d.dst] = {s.excPtr, nullptr}; R[d.dst + 1] = {s.excSel & 0xffffffff, nullptr}; f->pc++; break;
    case I_RESUME: { uint64_t e = V(d.a).c; // continue unwinding in the callers
      if (s.sp != f->sp) { s.mem.mark(f->sp, s.sp - f->sp, false, false); s.sp = f->sp; }
      s.frames.pop_back(); if (!unwind(s, e)) return; break; }
    case I_UNREACH: fail(s, "unreachable", "unreachable code reached"); return;
    case I_CMPXCHG: { uint64_t a; conc(s, V(d.a), 64, a); Val v; bool died; if (!loadVal(s, Val{a, nullptr}, 0, d.w2, d.w, v, died)) return; E eq = mkEq(toE(v, d.w), toE(V(d.b), d.w)); bool ok = decide(s, eq); if (ok) s.mem.store(a, d.w2, V(d.c), d.w); R[d.dst] = v; R[d.dst + 1] = {(uint64_t)ok, nullptr}; f->pc++; break; }
    case I_RMW: { uint64_t a; conc(s, V(d.a), 64, a); Val v; bool died; if (!loadVal(s, Val{a, nullptr}, 0, d.w2, d.w, v, died)) return; E x = toE(v, d.w), y = toE(V(d.b), d.w), r;
      switch (d.sub) { case AtomicRMWInst::Xchg: r = y; break; case AtomicRMWInst::Add: r = mk(O_ADD, d.w, x, y); break; case AtomicRMWInst::Sub: r = mk(O_SUB, d.w, x, y); break; case AtomicRMWInst::Or: r = mk(O_OR, d.w, x, y); break; case AtomicRMWInst::And: r = mk(O_AND, d.w, x, y); break; default: unsupported(s, "atomicrmw"); return; }
      s.mem.store(a, d.w2, fromE(r), d.w); R[d.dst] = v; f->pc++; break; }
    case I_CALL: {
      CallT &c = f->f->calls[d.aux]; Val args[40]; int n = c.args.size(); if (n > 40) { unsupported(s, "too many arguments"); return; }
      for (int i = 0; i < n; ++i) args[i] = V(c.args[i]);
      FuncInfo *fn = c.fn; const Builtin *bi = c.bi;
      if (!fn && !bi) {
        uint64_t fa; if (V(c.fp).e && undefDependent(s, V(c.fp).e)) { fail(s, "uninit", "call through an uninitialised pointer"); return; }
        conc(s, V(c.fp), 64, fa);
        uint64_t ix = (fa - ((uint64_t)R_FN << 32)) / 16 - 1;
        if ((fa >> 32) != R_FN || (fa & 15) || ix >= gFnByIdx.size()) { fail(s, "memory", "call through invalid function pointer " + describeAddr(s, fa)); return; }
        fn = gFnByIdx[ix];
        auto it = gBuiltins.find(fn->f->getName().str()); if (it != gBuiltins.end()) bi = it->second;
      }
      if (bi) {
        Val ret[2] = {{0, nullptr}, {0, nullptr}};
        BR r = bi->fn(*this, s, c, args, ret);
        if (r == B_DEAD) return;
        if (r == B_JUMPED) break;
        if (r == B_RETRY) break;
        Frame &g = s.frames.back(); Val *R2 = &s.regs[g.base];
        for (int i = 0; i < c.nret && i < 2; ++i) R2[d.dst + i] = ret[i];
        if (c.normalEdge >= 0) takeEdge(s, g, g.f->edges[c.normalEdge]); else g.pc++;
        break;
      }
      if (!c.byval.empty()) { // callee receives a private copy
        for (size_t i = 0; i + 1 < c.byval.size(); i += 2) { uint64_t sz = c.byval[i + 1], a = (s.sp + 31) & ~15ull; s.mem.mark(a, sz, true, false); s.sp = a + sz; if (!s.mem.validRange(args[c.byval[i]].c, sz)) { fail(s, "memory", "invalid byval argument"); return; } s.mem.copy(a, args[c.byval[i]].c, sz); args[c.byval[i]] = {a, nullptr}; }
      }
      if (!enter(s, fn, args, n)) return;
      break; }
    case I_UNSUP: { std::string m; raw_string_ostream os(m); os << *d.li; unsupported(s, m.substr(0, 120)); return; }
    default: unsupported(s, "opcode"); return;
    }
    if (!abortReason.empty()) return;
  }
}

#include "builtins.inc"

// ------------------------------------------------------------------ main
static std::string jstr(const std::string &s) { std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
static void writeReplay(std::ostream &o, const std::string &entry, const Viol &v) {
  o << "entry " << entry << "\n";
  for (auto &i : v.inputs) o << "in " << i.first << " " << i.second.first << " " << std::hex << i.second.second << std::dec << "\n";
  for (auto &b : v.obs) o << "obs " << b.first << " " << std::hex << b.second << std::dec << "\n";
  o << "end\n";
}
int main(int argc, char **argv) {
  std::vector<std::string> bcs;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--entry") O.entry = nx(); else if (a == "--out") O.out = nx(); else if (a == "--max-time") O.maxTime = atof(nx().c_str()); else if (a == "--max-insts") O.maxInsts = strtoull(nx().c_str(), 0, 10);
    else if (a == "--shard") { std::string s = nx(); sscanf(s.c_str(), "%d/%d", &O.shard, &O.nshards); } else if (a == "--seed") O.seed = atoi(nx().c_str()); else if (a == "--samples") O.samples = atoi(nx().c_str()); else if (a == "--max-viol") O.maxViol = atoi(nx().c_str());
    else if (a == "-v") O.verbose = true; else if (a == "--z3-timeout") gZ3TimeoutMs = atoi(nx().c_str()); else if (a == "--max-paths") O.maxPaths = strtoull(nx().c_str(), 0, 10); else if (a == "--list") O.list = true; else bcs.push_back(a);
  }
  memset(&gFullPage, 0, sizeof gFullPage); gFullPage.rc = 1 << 30; memset(gFullPage.valid, 0xff, sizeof gFullPage.valid);
  LLVMContext ctx; SMDiagnostic err; std::unique_ptr<Module> mod;
  for (auto &b : bcs) { auto m = parseIRFile(b, err, ctx); if (!m) { err.print("vsym", errs()); return 3; } if (!mod) mod = std::move(m); else if (Linker::linkModules(*mod, std::move(m), bcs.size() > 1 ? Linker::Flags::OverrideFromSrc : Linker::Flags::None)) return 3; }
  M = mod.get(); DL = &M->getDataLayout();
  if (O.list) { for (auto &f : *M) if (f.getName().starts_with("vs_entry_") && !f.isDeclaration()) printf("%s\n", f.getName().substr(9).str().c_str()); return 0; }
  solverInit(O.seed);
  for (auto &b : builtinTable) gBuiltins[b.name] = &b;
  for (int r = 0; r < R_N; ++r) gGlobTop[r] = 4096;
  Exec X; X.t0 = now(); X.rng.seed(O.seed);
  State *s0 = new State; s0->model = newModel({}); s0->heapTop = ((uint64_t)R_HEAP << 32) + 4096; s0->sp = ((uint64_t)R_STACK << 32) + 4096;
  for (auto &g : M->globals()) {
    uint64_t a = globAddr(&g); uint64_t sz = g.getValueType()->isSized() ? DL->getTypeAllocSize(g.getValueType()).getFixedValue() : 64; if (!sz) continue;
    if (g.getName().starts_with("llvm.")) continue;
    if (!g.hasInitializer()) { StringRef n = g.getName(); if (n.starts_with("_ZTI") || n.starts_with("_ZTV") || n.starts_with("_ZTS")) { s0->mem.mark(a, std::max<uint64_t>(sz, 64), true, true); continue; } if (g.hasExternalWeakLinkage()) { continue; } s0->mem.mark(a, sz, true, true); gExtSyms[n.str()] = a; continue; }
    s0->mem.mark(a, sz, true, true); initMem(s0->mem, a, g.getInitializer());
  }
  auto vt = [&](const char *n) -> uint64_t { auto *g = M->getNamedGlobal(n); return g ? globAddr(g) + 16 : 0; };
  gVtClass = vt("_ZTVN10__cxxabiv117__class_type_infoE"); gVtSi = vt("_ZTVN10__cxxabiv120__si_class_type_infoE"); gVtVmi = vt("_ZTVN10__cxxabiv121__vmi_class_type_infoE");
  Function *ef = M->getFunction("vs_entry_" + O.entry); if (!ef || ef->isDeclaration()) { fprintf(stderr, "vsym: no entry %s\n", O.entry.c_str()); return 3; }
  // static constructors, in priority order, then the entry: run as a synthetic sequence of calls
  std::vector<std::pair<int, Function *>> ctors;
  if (auto *gc = M->getNamedGlobal("llvm.global_ctors")) if (gc->hasInitializer()) if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer())) for (auto &o : ca->operands()) { auto *cs = cast<ConstantStruct>(o); ctors.push_back({(int)cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())}); }
  std::stable_sort(ctors.begin(), ctors.end(), [](auto &a, auto &b) { return a.first < b.first; });
  bool bad = false;
  for (auto &c : ctors) if (c.second) {
    if (!X.enter(*s0, funcInfo(c.second), nullptr, 0)) { bad = true; break; }
    uint64_t pd = X.pathsDone; X.run(s0); if (X.pathsDone == pd) { bad = true; break; } X.pathsDone = pd; X.samples.clear();
  }
  uint64_t ctorInsts = X.insts; s0->insts = 0;
  if (bad || !X.work.empty()) { fprintf(stderr, "vsym: static initialisation failed\n"); for (auto &u : X.unsup) fprintf(stderr, "  %s\n", u.first.c_str()); for (auto &v : X.viols) fprintf(stderr, "  %s %s @ %s\n", v.kind.c_str(), v.msg.c_str(), v.where.c_str()); return 3; }
  if (X.enter(*s0, funcInfo(ef), nullptr, 0)) X.work.push_back(s0);
  uint64_t states = 0;
  while (!X.work.empty()) {
    State *s = X.work.back(); X.work.pop_back(); states++;
    X.run(s); delete s;
    if (!X.abortReason.empty()) break;
    if (now() - X.t0 > O.maxTime) { X.abortReason = "time"; break; }
    if (states >= O.maxPaths) { X.abortReason = "paths"; break; }
  }
  size_t pending = X.work.size();
  double wall = now() - X.t0;
  // coverage of repository code
  std::map<std::string, std::set<unsigned>> lines; std::set<std::string> fns;
  for (auto *fi : gFnByIdx) if (fi->decoded) for (auto &d : fi->code) if (d.hit && d.li) for (const DILocation *l = d.li->getDebugLoc().get(); l; l = l->getInlinedAt()) { StringRef fn = l->getFilename(); if (fn.contains("include/valijson/")) { if (l->getLine()) lines[fn.str()].insert(l->getLine()); if (auto *sp = l->getScope()->getSubprogram()) fns.insert(sp->getName().str() + "@" + sp->getFilename().str().substr(sp->getFilename().str().rfind('/') + 1)); } }
  std::ostringstream o;
  struct rusage ru; getrusage(RUSAGE_SELF, &ru);
  o << "{\"entry\":" << jstr(O.entry) << ",\"shard\":" << O.shard << ",\"complete\":" << (X.abortReason.empty() && !X.incomplete && !pending ? "true" : "false") << ",\"abort\":" << jstr(X.abortReason) << ",\"pending\":" << pending
    << ",\"paths\":" << X.pathsDone << ",\"error_paths\":" << X.pathsErr << ",\"states\":" << states << ",\"forks\":" << X.forks << ",\"insts\":" << X.insts << ",\"ctor_insts\":" << ctorInsts << ",\"asserts_checked\":" << X.assertsChecked << ",\"asserts_const\":" << X.assertsConst << ",\"assume_killed\":" << X.assumesKilled << ",\"incomplete\":" << X.incomplete << ",\"max_depth\":" << X.maxDepthSeen
    << ",\"branch_queries\":" << gStats.branchQueries << ",\"domain_decided\":" << gStats.fastMask << ",\"cache_hits\":" << gStats.cacheHits << ",\"z3_queries\":" << gStats.z3Queries << ",\"z3_sat\":" << gStats.z3Sat << ",\"z3_unsat\":" << gStats.z3Unsat << ",\"z3_unknown\":" << gStats.z3Unknown << ",\"z3_assert_queries\":" << gStats.assertQueries << ",\"z3_fp_queries\":" << gStats.fpQueries << ",\"z3_fp_abs\":" << gStats.fpAbs << ",\"z3_time\":" << gStats.z3Time << ",\"z3_max\":" << gStats.z3Max << ",\"exprs\":" << gNumExprs << ",\"wall\":" << wall << ",\"rss_mb\":" << ru.ru_maxrss / 1024 << ",\"fmt_stub\":" << X.fmtSym;
  o << ",\"reached\":["; { bool f = true; for (auto &r : X.reached) { if (!f) o << ","; f = false; o << jstr(r); } } o << "]";
  o << ",\"assert_ids\":{"; { bool f = true; for (auto &r : X.assertIds) { if (!f) o << ","; f = false; o << jstr(r.first) << ":" << r.second; } } o << "}";
  o << ",\"unsupported\":{"; { bool f = true; for (auto &r : X.unsup) { if (!f) o << ","; f = false; o << jstr(r.first) << ":" << r.second; } } o << "}";
  auto pv = [&](const Viol &v) { std::ostringstream r; writeReplay(r, O.entry, v); return "{\"kind\":" + jstr(v.kind) + ",\"id\":" + jstr(v.id) + ",\"msg\":" + jstr(v.msg) + ",\"where\":" + jstr(v.where) + ",\"replay\":" + jstr(r.str()) + "}"; };
  auto pl = [&](const char *n, const std::vector<Viol> &vs) { o << ",\"" << n << "\":["; bool f = true; for (auto &v : vs) { if (!f) o << ","; f = false; o << pv(v); } o << "]"; };
  pl("violations", X.viols); pl("known", X.knownViols); pl("samples", X.samples);
  o << ",\"functions\":["; { bool f = true; for (auto &r : fns) { if (!f) o << ","; f = false; o << jstr(r); } } o << "]";
  o << ",\"lines\":{"; { bool f = true; for (auto &r : lines) { if (!f) o << ","; f = false; o << jstr(r.first) << ":["; bool g = true; for (unsigned l : r.second) { if (!g) o << ","; g = false; o << l; } o << "]"; } } o << "}}\n";
  if (O.out.empty()) fputs(o.str().c_str(), stdout); else { std::ofstream f(O.out); f << o.str(); }
  fflush(stdout); _exit(0);
}
