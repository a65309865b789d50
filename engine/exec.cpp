// Symbolic executor over LLVM bitcode.
#include <unistd.h>
#include "expr.h"
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/CFG.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <iostream>
#include <fstream>
#include <sstream>
#include <set>
#include <map>
#include <memory>
#include <chrono>
#include <algorithm>
#include <functional>
#include <thread>
#include <sys/resource.h>
#include <pthread.h>
using namespace llvm;
typedef ::Expr Ex;

static double nowS() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ------------------------------------------------------------------ values
struct Agg;
struct Val { uint64_t c = 0; Ex* e = nullptr; Agg* agg = nullptr; };
struct Agg { std::vector<Val> v; };
static inline Val V(uint64_t c) { Val v; v.c = c; return v; }
static inline Val VE(Ex* e) { Val v; if (e->op == O_CONST) v.c = e->k; else v.e = e; return v; }
static inline Ex* toEx(const Val& v, unsigned w, bool fp) { if (v.e) return v.e; return mkConst(w, fp, v.c); }
static Val mkAgg(std::vector<Val> vs) { Val r; r.agg = new Agg{std::move(vs)}; return r; }
static bool sameVal(const Val& a, const Val& b) {
  if (a.agg || b.agg) { if (!a.agg || !b.agg) return false; if (a.agg == b.agg) return true; if (a.agg->v.size() != b.agg->v.size()) return false; for (size_t i = 0; i < a.agg->v.size(); i++) if (!sameVal(a.agg->v[i], b.agg->v[i])) return false; return true; }
  return a.e == b.e && (a.e || a.c == b.c);
}

// ------------------------------------------------------------------ memory
template <class T> struct Rc {
  T* p = nullptr;
  Rc() {} explicit Rc(T* x) : p(x) { if (p) p->rc++; }
  Rc(const Rc& o) : p(o.p) { if (p) p->rc++; }
  Rc(Rc&& o) noexcept : p(o.p) { o.p = nullptr; }
  Rc& operator=(Rc o) noexcept { std::swap(p, o.p); return *this; }
  ~Rc() { if (p && --p->rc == 0) delete p; }
  T* operator->() const { return p; }
  explicit operator bool() const { return p; }
};
static const int OBJ_SHIFT = 26;
static const uint64_t OBJ_BIAS = 1ull << 25;
static const uint64_t STACK_BASE_ID = 1ull << 30;  // stack objects have ids >= this
static const uint64_t FN_TAG = 1ull << 62;
struct Obj {
  int rc = 0; uint32_t size; bool ro = false; const char* tag = "";
  std::vector<uint8_t> data; std::vector<Ex*> sym;  // sym[off]: expr starting here, or small int k (1..7) = continuation k bytes back
  explicit Obj(uint32_t n) : size(n), data(n, 0) {}
  Obj(const Obj& o) : rc(0), size(o.size), ro(o.ro), tag(o.tag), data(o.data), sym(o.sym) {}
};
static inline bool isCont(Ex* e) { return (uintptr_t)e > 0 && (uintptr_t)e < 16; }
static const int CH = 64;
struct Chunk { int rc = 0; Rc<Obj> o[CH]; Chunk() {} Chunk(const Chunk& c) : rc(0) { for (int i = 0; i < CH; i++) o[i] = c.o[i]; } };
struct Space {
  std::vector<Rc<Chunk>> ch; uint64_t next = 1;
  Obj* get(uint64_t i) const { uint64_t c = i / CH; if (c >= ch.size() || !ch[c]) return nullptr; return ch[c].p->o[i % CH].p; }
  void set(uint64_t i, Rc<Obj> o) {
    uint64_t c = i / CH; if (c >= ch.size()) ch.resize(c + 1);
    if (!ch[c]) ch[c] = Rc<Chunk>(new Chunk()); else if (ch[c]->rc > 1) ch[c] = Rc<Chunk>(new Chunk(*ch[c].p));
    ch[c]->o[i % CH] = o;
  }
  Obj* getW(uint64_t i) {
    uint64_t c = i / CH;
    if (ch[c]->rc > 1) ch[c] = Rc<Chunk>(new Chunk(*ch[c].p));
    Rc<Obj>& r = ch[c]->o[i % CH];
    if (r->rc > 1) r = Rc<Obj>(new Obj(*r.p));
    return r.p;
  }
};

// ------------------------------------------------------------------ decoded code
struct FnInfo; 
struct Opnd { int reg = -1; Val v; };
struct DInst {
  unsigned op; int dst = -1; uint8_t w = 0; bool fp = false; unsigned vn = 0; // result elem type
  uint8_t sw = 0; bool sfp = false;                                          // source elem type
  std::vector<Opnd> ops; Instruction* I = nullptr;
  int64_t off = 0; std::vector<std::pair<Opnd, int64_t>> idx; std::vector<unsigned> idxW;   // gep
  int succ[2] = {-1, -1}; unsigned pred = 0; FnInfo* callee = nullptr; int builtin = -1; Type* ty = nullptr;
};
struct BInfo { int firstInst; int nPhi; int succCount; BasicBlock* bb; };
struct FnInfo {
  Function* f; bool decoded = false; int id; int nregs = 0; int builtin = -1;
  std::vector<DInst> code; std::vector<BInfo> blocks; std::map<BasicBlock*, int> bbIdx;
  std::map<Value*, int> regIdx; std::vector<int> ipdom; std::vector<std::vector<char>> liveIn; std::string file, pretty; uint64_t calls = 0; bool liveDone = false;
};
struct Frame {
  FnInfo* fn; int bb; int ip; int prevbb = -1; std::vector<Val> regs; uint64_t stackMark; int callIp = -1;
};
struct ExcInfo { uint64_t obj = 0; uint64_t ti = 0; };
struct State {
  std::vector<Frame> st; Space heap, stk; std::vector<Ex*> pc; Assign model; bool modelOk = true; std::vector<uint32_t> varSeq;
  std::vector<ExcInfo> caught; ExcInfo inflight; uint64_t ninst = 0; uint64_t forks = 0; int mergeMode = 2; std::map<std::string, int64_t> ghost;
  std::map<uint64_t, int> locks; Ex* pending = nullptr; std::set<std::string>* dummy = nullptr; int swallow = 0;
  std::map<Ex*, std::vector<int64_t>> narrow;  // offsets a symbolic address can take under (a prefix of) pc
};
typedef std::unique_ptr<State> SP;
struct Stop { int depth; int bb; };

// ------------------------------------------------------------------ globals
static LLVMContext* CTX; static Module* M; static const DataLayout* DL;
static std::map<Function*, FnInfo*> fnMap; static std::vector<FnInfo*> fnById;
static std::map<GlobalVariable*, uint64_t> gAddr;
static std::string gEntry, gOut, gReplayDir = "."; static double gDeadline = 1e18, gStart; static uint64_t gMaxInst = 200000000ull; static int gVerbose = 0; static int gMaxViol = 3; static uint64_t gMaxPaths = 1000000;
struct Viol { std::string kind, msg, where, replay; bool confirmed; };
static std::vector<Viol> gViols; static std::set<std::string> gViolKeys;
struct AssertStat { uint64_t checks = 0, proved = 0, violated = 0, unknown = 0, trivially = 0; };
static std::map<std::string, AssertStat> gAsserts;
static std::map<std::string, uint64_t> gCovers, gCoverPending;
static uint64_t gPaths = 0, gForks = 0, gMerges = 0, gInst = 0, gAssumeKilled = 0, gIncomplete = 0; static std::set<std::string> gIncompleteWhy;
static std::map<std::string, uint64_t> forkSites;
static std::map<std::pair<int, std::string>, uint32_t> varTable;

struct PathEnd { std::string why; };

static std::string where(State& s) {
  std::string r;
  for (int i = (int)s.st.size() - 1; i >= 0 && i >= (int)s.st.size() - 14; i--) {
    Frame& f = s.st[i]; int ip = f.ip; if (i != (int)s.st.size() - 1 && f.callIp >= 0) ip = f.callIp;
    if (ip >= (int)f.fn->code.size()) ip = f.fn->code.size() - 1;
    Instruction* I = f.fn->code[ip].I; const DILocation* L = I->getDebugLoc().get();
    std::string loc;
    while (L) { loc += (loc.empty() ? "" : " < ") + L->getFilename().str() + ":" + std::to_string(L->getLine()); L = L->getInlinedAt(); }
    if (!r.empty()) r += " <- ";
    r += f.fn->pretty.substr(0, 60) + "[" + loc + "]";
  }
  return r;
}
static std::string shortWhere(State& s) {
  if (s.st.empty()) return "(the entry was left)";
  Frame& f = s.st.back(); Instruction* I = f.fn->code[std::min<int>(f.ip, f.fn->code.size() - 1)].I; const DILocation* L = I->getDebugLoc().get();
  std::string loc; if (L) loc = L->getFilename().str() + ":" + std::to_string(L->getLine());
  return f.fn->pretty.substr(0, 80) + "@" + loc;
}

// ------------------------------------------------------------------ decode
static FnInfo* getFn(Function* f) {
  auto it = fnMap.find(f); if (it != fnMap.end()) return it->second;
  FnInfo* n = new FnInfo(); n->f = f; n->id = fnById.size(); fnById.push_back(n); fnMap[f] = n;
  n->pretty = llvm::demangle(f->getName().str());
  if (DISubprogram* sp = f->getSubprogram()) n->file = sp->getDirectory().empty() || sp->getFilename().starts_with("/") ? sp->getFilename().str() : (sp->getDirectory() + "/" + sp->getFilename()).str();
  return n;
}
static uint64_t fnAddr(Function* f) { return FN_TAG | ((uint64_t)(getFn(f)->id + 1) << 8); }
static FnInfo* fnOfAddr(uint64_t a) { if (!(a & FN_TAG)) return nullptr; uint64_t i = (a & ~FN_TAG) >> 8; if (i == 0 || i > fnById.size()) return nullptr; return fnById[i - 1]; }
static unsigned elemW(Type* t, bool& fp) {
  fp = false; if (t->isVectorTy()) t = cast<VectorType>(t)->getElementType();
  if (t->isPointerTy()) return 64; if (t->isFloatTy()) { fp = true; return 32; } if (t->isDoubleTy()) { fp = true; return 64; }
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  return 0;
}
static unsigned vecN(Type* t) { if (auto* v = dyn_cast<FixedVectorType>(t)) return v->getNumElements(); return 0; }
static Val constVal(Constant* c);
static int64_t gepConst(GEPOperator* g) { APInt off(64, 0); if (!g->accumulateConstantOffset(*DL, off)) { errs() << "nonconst gep\n"; abort(); } return off.getSExtValue(); }
static Val constVal(Constant* c) {
  Type* t = c->getType();
  if (auto* ci = dyn_cast<ConstantInt>(c)) { return V(ci->getValue().getBitWidth() <= 64 ? ci->getZExtValue() : ci->getValue().trunc(64).getZExtValue()); }
  if (auto* cf = dyn_cast<ConstantFP>(c)) { if (t->isFloatTy() || t->isDoubleTy()) return V(cf->getValueAPF().bitcastToAPInt().getZExtValue()); return V(0); }
  if (isa<ConstantPointerNull>(c)) return V(0);
  if (auto* f = dyn_cast<Function>(c)) return V(fnAddr(f));
  if (auto* a = dyn_cast<GlobalAlias>(c)) return constVal(a->getAliasee());
  if (auto* g = dyn_cast<GlobalVariable>(c)) { auto it = gAddr.find(g); if (it == gAddr.end()) { errs() << "global? " << g->getName() << "\n"; return V(0); } return V(it->second); }
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
    if (auto* vt = dyn_cast<FixedVectorType>(t)) { std::vector<Val> v(vt->getNumElements()); return mkAgg(v); }
    if (auto* st = dyn_cast<StructType>(t)) { std::vector<Val> v; for (unsigned i = 0; i < st->getNumElements(); i++) v.push_back(constVal(isa<UndefValue>(c) ? (Constant*)UndefValue::get(st->getElementType(i)) : Constant::getNullValue(st->getElementType(i)))); return mkAgg(v); }
    if (auto* at = dyn_cast<ArrayType>(t)) { std::vector<Val> v; for (unsigned i = 0; i < at->getNumElements(); i++) v.push_back(constVal(Constant::getNullValue(at->getElementType()))); return mkAgg(v); }
    return V(0);
  }
  if (auto* ca = dyn_cast<ConstantAggregate>(c)) { std::vector<Val> v; for (unsigned i = 0; i < ca->getNumOperands(); i++) v.push_back(constVal(cast<Constant>(ca->getOperand(i)))); return mkAgg(v); }
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { std::vector<Val> v; for (unsigned i = 0; i < cd->getNumElements(); i++) v.push_back(constVal(cd->getElementAsConstant(i))); return mkAgg(v); }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: return V(constVal(cast<Constant>(ce->getOperand(0))).c + gepConst(cast<GEPOperator>(ce)));
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: return constVal(ce->getOperand(0));
      case Instruction::Trunc: return V(constVal(ce->getOperand(0)).c & maskw(t->getIntegerBitWidth()));
      case Instruction::Sub: return V(constVal(ce->getOperand(0)).c - constVal(ce->getOperand(1)).c);
      case Instruction::Add: return V(constVal(ce->getOperand(0)).c + constVal(ce->getOperand(1)).c);
      default: break;
    }
  }
  errs() << "const? " << *c << "\n"; return V(0);
}
enum { B_NONE = -1 };
static int builtinId(const std::string& n);
static bool harnessSleep(Function* f) { return !f->isDeclaration() && (f->getName() == "nanosleep" || f->getName() == "usleep" || f->getName() == "_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE" || f->getName() == "_ZNSt6thread4joinEv" || f->getName().starts_with("_ZNSt6thread15_M_start_threadE")); }  // a harness may define what sleeping, waiting and starting a thread do
static void decode(FnInfo* n) {
  if (n->decoded) return; n->decoded = true;
  Function* f = n->f; int r = 0;
  for (auto& a : f->args()) n->regIdx[&a] = r++;
  for (auto& b : *f) for (auto& i : b) if (!i.getType()->isVoidTy()) n->regIdx[&i] = r++;
  n->nregs = r; int bi = 0;
  for (auto& b : *f) n->bbIdx[&b] = bi++;
  auto opnd = [&](Value* v) { Opnd o; auto it = n->regIdx.find(v); if (it != n->regIdx.end()) o.reg = it->second; else if (auto* c = dyn_cast<Constant>(v)) o.v = constVal(c); return o; };
  for (auto& b : *f) {
    BInfo info; info.firstInst = n->code.size(); info.nPhi = 0; info.bb = &b; info.succCount = 0;
    for (auto& i : b) {
      if (isa<DbgInfoIntrinsic>(i)) continue;
      DInst d; d.op = i.getOpcode(); d.I = &i; d.ty = i.getType();
      if (isa<PHINode>(i)) info.nPhi++;
      if (!i.getType()->isVoidTy()) { d.dst = n->regIdx[&i]; d.w = elemW(i.getType(), d.fp); d.vn = vecN(i.getType()); }
      if (auto* ph = dyn_cast<PHINode>(&i)) { for (unsigned k = 0; k < ph->getNumIncomingValues(); k++) { d.ops.push_back(opnd(ph->getIncomingValue(k))); d.idx.push_back({Opnd(), n->bbIdx[ph->getIncomingBlock(k)]}); } }
      else if (auto* g = dyn_cast<GetElementPtrInst>(&i)) {
        d.ops.push_back(opnd(g->getPointerOperand()));
        for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
          Value* iv = it.getOperand();
          if (StructType* stt = it.getStructTypeOrNull()) d.off += DL->getStructLayout(stt)->getElementOffset(cast<ConstantInt>(iv)->getZExtValue());
          else { int64_t sz = DL->getTypeAllocSize(it.getIndexedType()); if (auto* ci = dyn_cast<ConstantInt>(iv)) d.off += ci->getSExtValue() * sz; else { d.idx.push_back({opnd(iv), sz}); d.idxW.push_back(iv->getType()->getIntegerBitWidth()); } }
        }
        // width of indices
        if (!d.idx.empty()) { }
      } else if (auto* cb = dyn_cast<CallBase>(&i)) {
        for (auto& a : cb->args()) d.ops.push_back(opnd(a.get()));
        Value* cv = cb->getCalledOperand()->stripPointerCasts();
        if (auto* ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliasee()->stripPointerCasts();
        if (auto* cf = dyn_cast<Function>(cv)) { d.callee = getFn(cf); d.builtin = harnessSleep(cf) ? -1 : builtinId(cf->getName().str()); d.callee->builtin = d.builtin; }
        else d.ops.push_back(opnd(cb->getCalledOperand()));  // indirect: last operand
        if (auto* iv = dyn_cast<InvokeInst>(&i)) { d.succ[0] = n->bbIdx[iv->getNormalDest()]; d.succ[1] = n->bbIdx[iv->getUnwindDest()]; }
      } else if (auto* br = dyn_cast<BranchInst>(&i)) {
        if (br->isConditional()) d.ops.push_back(opnd(br->getCondition()));
        for (unsigned k = 0; k < br->getNumSuccessors(); k++) d.succ[k] = n->bbIdx[br->getSuccessor(k)];
      } else if (auto* sw = dyn_cast<SwitchInst>(&i)) { d.ops.push_back(opnd(sw->getCondition())); d.sw = elemW(sw->getCondition()->getType(), d.sfp); d.succ[0] = n->bbIdx[sw->getDefaultDest()]; for (auto c : sw->cases()) { Opnd o; o.v = V(c.getCaseValue()->getZExtValue()); d.idx.push_back({o, n->bbIdx[c.getCaseSuccessor()]}); } }
      else {
        for (auto& o : i.operands()) if (!isa<BasicBlock>(o.get())) d.ops.push_back(opnd(o.get()));
        if (i.getNumOperands() > 0 && !isa<BasicBlock>(i.getOperand(0))) d.sw = elemW(i.getOperand(0)->getType(), d.sfp);
        if (auto* c = dyn_cast<CmpInst>(&i)) d.pred = c->getPredicate();
        if (auto* al = dyn_cast<AllocaInst>(&i)) d.off = DL->getTypeAllocSize(al->getAllocatedType());
        if (isa<StoreInst>(i)) d.ty = i.getOperand(0)->getType();
      }
      n->code.push_back(d);
    }
    n->blocks.push_back(info);
  }
}
static std::vector<int> succs(FnInfo* n, int b, bool unwind) {
  std::vector<int> r; BasicBlock* bb = n->blocks[b].bb; Instruction* t = bb->getTerminator();
  if (auto* iv = dyn_cast<InvokeInst>(t)) { r.push_back(n->bbIdx[iv->getNormalDest()]); if (unwind) r.push_back(n->bbIdx[iv->getUnwindDest()]); return r; }
  for (unsigned i = 0; i < t->getNumSuccessors(); i++) r.push_back(n->bbIdx[t->getSuccessor(i)]);
  return r;
}
static void computeIpdom(FnInfo* n) {
  int N = n->blocks.size(); if (!n->ipdom.empty()) return;
  n->ipdom.assign(N, -1);
  std::vector<char> can(N, 0); bool ch = true;
  for (int i = 0; i < N; i++) if (isa<ReturnInst>(n->blocks[i].bb->getTerminator()) || isa<ResumeInst>(n->blocks[i].bb->getTerminator())) can[i] = 1;
  while (ch) { ch = false; for (int i = 0; i < N; i++) if (!can[i]) for (int s : succs(n, i, false)) if (can[s]) { can[i] = 1; ch = true; break; } }
  int W = (N + 1 + 63) / 64; typedef std::vector<uint64_t> BS;
  BS all(W, ~0ull); std::vector<BS> pd(N, all);
  for (int i = 0; i < N; i++) if (isa<ReturnInst>(n->blocks[i].bb->getTerminator()) || isa<ResumeInst>(n->blocks[i].bb->getTerminator())) { pd[i] = BS(W, 0); pd[i][i / 64] |= 1ull << (i % 64); pd[i][N / 64] |= 1ull << (N % 64); }
  ch = true;
  while (ch) {
    ch = false;
    for (int i = N - 1; i >= 0; i--) {
      if (!can[i] || isa<ReturnInst>(n->blocks[i].bb->getTerminator()) || isa<ResumeInst>(n->blocks[i].bb->getTerminator())) continue;
      BS m = all; for (int s : succs(n, i, false)) if (can[s]) for (int k = 0; k < W; k++) m[k] &= pd[s][k];
      m[i / 64] |= 1ull << (i % 64);
      if (m != pd[i]) { pd[i] = m; ch = true; }
    }
  }
  auto cnt = [&](const BS& b) { int c = 0; for (uint64_t x : b) c += __builtin_popcountll(x); return c; };
  for (int i = 0; i < N; i++) {
    if (!can[i]) continue;
    int best = -1, bc = -1;
    for (int j = 0; j < N; j++) if (j != i && (pd[i][j / 64] >> (j % 64) & 1)) { int c = cnt(pd[j]); if (c > bc) { bc = c; best = j; } }
    n->ipdom[i] = best;  // -1 = function exit
  }
}
static void computeLive(FnInfo* n) {
  if (n->liveDone) return; n->liveDone = true;
  int N = n->blocks.size(); n->liveIn.assign(N, std::vector<char>(n->nregs, 0));
  // live-in at first non-phi of each block
  std::vector<std::vector<char>> use(N, std::vector<char>(n->nregs, 0)), def(N, std::vector<char>(n->nregs, 0)), phiDef(N, std::vector<char>(n->nregs, 0));
  std::vector<std::map<int, std::vector<int>>> phiUse(N); // block -> pred -> regs
  for (int b = 0; b < N; b++) {
    int s = n->blocks[b].firstInst, e = b + 1 < N ? n->blocks[b + 1].firstInst : n->code.size();
    for (int i = s; i < e; i++) {
      DInst& d = n->code[i];
      if (d.op == Instruction::PHI) { phiDef[b][d.dst] = 1; for (size_t k = 0; k < d.ops.size(); k++) if (d.ops[k].reg >= 0) phiUse[b][d.idx[k].second].push_back(d.ops[k].reg); continue; }
      for (auto& o : d.ops) if (o.reg >= 0 && !def[b][o.reg]) use[b][o.reg] = 1;
      for (auto& o : d.idx) if (o.first.reg >= 0 && !def[b][o.first.reg]) use[b][o.first.reg] = 1;
      if (d.dst >= 0) def[b][d.dst] = 1;
    }
  }
  bool ch = true;
  while (ch) {
    ch = false;
    for (int b = N - 1; b >= 0; b--) {
      std::vector<char> out(n->nregs, 0);
      for (int s : succs(n, b, true)) { for (int r = 0; r < n->nregs; r++) if (n->liveIn[s][r] && !phiDef[s][r]) out[r] = 1; for (int r : phiUse[s][b]) out[r] = 1; }
      for (int r = 0; r < n->nregs; r++) { char v = use[b][r] || (out[r] && !def[b][r]); if (v && !n->liveIn[b][r]) { n->liveIn[b][r] = 1; ch = true; } }
    }
  }
}

// ------------------------------------------------------------------ memory access
static Space& spaceOf(State& s, uint64_t id) { return id >= STACK_BASE_ID ? s.stk : s.heap; }
static uint64_t addrOf(uint64_t id) { return (id << OBJ_SHIFT) | OBJ_BIAS; }
static Obj* objAt(State& s, uint64_t addr, uint64_t& id, int64_t& off) {
  id = addr >> OBJ_SHIFT; off = (int64_t)(addr & ((1ull << OBJ_SHIFT) - 1)) - (int64_t)OBJ_BIAS;
  if (id == 0 || (addr & FN_TAG)) return nullptr;
  uint64_t k = id >= STACK_BASE_ID ? id - STACK_BASE_ID : id;
  return spaceOf(s, id).get(k);
}
static Obj* objW(State& s, uint64_t id) { return spaceOf(s, id).getW(id >= STACK_BASE_ID ? id - STACK_BASE_ID : id); }
static uint64_t allocHeap(State& s, uint64_t n, const char* tag = "heap") { Obj* o = new Obj((uint32_t)n); o->tag = tag; uint64_t id = s.heap.next++; memset(o->data.data(), 0xA5, n); s.heap.set(id, Rc<Obj>(o)); return addrOf(id); }
static uint64_t allocStack(State& s, uint64_t n) { Obj* o = new Obj((uint32_t)n); o->tag = "stack"; uint64_t id = s.stk.next++; memset(o->data.data(), 0xA5, n); s.stk.set(id, Rc<Obj>(o)); return addrOf(id + STACK_BASE_ID); }

struct ForkReq { Ex* cond; bool noMerge; };
struct Violation { std::string kind, msg; };
[[noreturn]] static void vio(const std::string& kind, const std::string& msg) { throw Violation{kind, msg}; }

static Ex* byteAt(Obj* o, uint32_t off) {
  if (o->sym.empty() || !o->sym[off]) return mkConst(8, false, o->data[off]);
  Ex* e = o->sym[off]; uint32_t start = off;
  if (isCont(e)) { start = off - (uint32_t)(uintptr_t)e; e = o->sym[start]; }
  Ex* b = e->fp ? mk(O_F2BITS, e->w, false, e) : e;
  if (b->w < 8) return mk(O_ZEXT, 8, false, b);
  unsigned lo = (off - start) * 8; if (lo + 8 > b->w) { return mk(O_ZEXT, 8, false, mk(O_TRUNC, b->w - lo, false, b, nullptr, nullptr, lo)); }
  return mk(O_TRUNC, 8, false, b, nullptr, nullptr, lo);
}
static Val loadObj(Obj* o, uint32_t off, unsigned w, bool fp) {
  unsigned n = (w + 7) / 8;
  bool any = false;
  if (!o->sym.empty()) for (unsigned i = 0; i < n; i++) if (o->sym[off + i]) { any = true; break; }
  if (!any) { uint64_t c = 0; memcpy(&c, &o->data[off], n); return V(c & maskw(w)); }
  Ex* e = o->sym[off];
  if (e && !isCont(e) && e->w == w && (off + n >= o->size || !isCont(o->sym[off + n]) || (uintptr_t)o->sym[off + n] != n)) {
    if (e->fp == fp) return VE(e);
    return VE(fp ? mk(O_BITS2F, w, true, e) : mk(O_F2BITS, w, false, e));
  }
  Ex* r = nullptr;
  for (int i = (int)n - 1; i >= 0;) {
    // take whole entries where possible
    Ex* piece = nullptr; int take = 1;
    Ex* se = o->sym[off + i];
    if (se) {
      int st = i; Ex* b = se; if (isCont(se)) { st = i - (int)(uintptr_t)se; b = st >= 0 ? o->sym[off + st] : nullptr; }
      if (b && st >= 0 && (int)((b->w + 7) / 8) == i - st + 1 && b->w % 8 == 0) { piece = b->fp ? mk(O_F2BITS, b->w, false, b) : b; take = i - st + 1; }
    }
    if (!piece) piece = byteAt(o, off + i);
    r = r ? mk(O_CONCAT, r->w + piece->w, false, r, piece) : piece;
    i -= take;
  }
  if (r->w > w) r = mk(O_TRUNC, w, false, r);
  if (fp) r = mk(O_BITS2F, w, true, r);
  return VE(r);
}
static void clearSym(Obj* o, uint32_t off, unsigned n) {
  if (o->sym.empty()) return;
  // split partially overwritten entries
  auto split = [&](uint32_t st) {
    Ex* e = o->sym[st]; unsigned en = (e->w + 7) / 8; std::vector<Ex*> bs;
    for (unsigned i = 0; i < en; i++) bs.push_back(byteAt(o, st + i));
    for (unsigned i = 0; i < en; i++) { if (bs[i]->op == O_CONST) { o->sym[st + i] = nullptr; o->data[st + i] = bs[i]->k; } else o->sym[st + i] = bs[i]; }
  };
  if (isCont(o->sym[off])) split(off - (uint32_t)(uintptr_t)o->sym[off]);
  if (off + n < o->size && isCont(o->sym[off + n])) { uint32_t st = off + n - (uint32_t)(uintptr_t)o->sym[off + n]; split(st); }
  for (unsigned i = 0; i < n; i++) o->sym[off + i] = nullptr;
}
static void storeObj(Obj* o, uint32_t off, unsigned w, const Val& v) {
  unsigned n = (w + 7) / 8;
  clearSym(o, off, n);
  if (!v.e) { uint64_t c = v.c & maskw(w); memcpy(&o->data[off], &c, n); return; }
  if (o->sym.empty()) o->sym.assign(o->size, nullptr);
  o->sym[off] = v.e; for (unsigned i = 1; i < n; i++) o->sym[off + i] = (Ex*)(uintptr_t)i;
}

enum Dec { D_TRUE, D_FALSE, D_BOTH, D_NONE };
static bool inPc(State& s, Ex* c) { for (Ex* e : s.pc) if (e == c) return true; return false; }
static std::set<std::string> slowSites;
static Dec decide(State& s, Ex* c, bool needBoth = true) {
  if (isTrue(c)) return D_TRUE; if (isFalse(c)) return D_FALSE;
  Ex* nc = mkNot(c);
  if (inPc(s, c)) return D_TRUE; if (inPc(s, nc)) return D_FALSE;
  bool t = false, f = false;
  if (s.modelOk) { if (evalExpr(c, s.model, newEpoch())) t = true; else f = true; }
  auto q = [&](Ex* x) { Assign m = s.model; SolveR r = solve(s.pc, x, m, false); return r != S_UNSAT; };
  if (!t) t = q(c);
  if (!t) return D_FALSE;
  if (!f) f = q(nc);
  if (t && f) return D_BOTH;
  if (t) return D_TRUE;
  return D_NONE;
}
// adds a constraint; keeps model valid if possible. returns false if infeasible
static bool assume(State& s, Ex* c) {
  if (isTrue(c)) return true; if (isFalse(c)) return false;
  if (c->op == O_AND && c->w == 1) { return assume(s, c->a) && assume(s, c->b); }
  if (inPc(s, c)) return true;
  if (s.modelOk && evalExpr(c, s.model, newEpoch())) { s.pc.push_back(c); return true; }
  Assign m = s.model; SolveR r = solve(s.pc, c, m, false);
  if (r == S_UNSAT) return false;
  if (r == S_SAT) { s.model = m; bool ok = s.modelOk; s.modelOk = ok || satisfies(s.pc, c, m); } else s.modelOk = false;
  s.pc.push_back(c);
  return true;
}
static uint64_t concretize(State& s, const Val& v, unsigned w) {
  if (!v.e) return v.c;
  Ex* e = v.e;
  uint64_t k;
  if (s.modelOk) k = evalExpr(e, s.model, newEpoch());
  else { // look for any value
    Assign m = s.model; Ex* t = mkTrue(); (void)t; k = evalExpr(e, m, newEpoch());
    // find a value not excluded
    int64_t lo = e->ilo, hi = e->ihi; 
    if (hi - lo < 4096 && hi >= lo) { for (int64_t x = lo; x <= hi; x++) { Dec d = decide(s, mk(O_EQ, 1, false, e, mkConst(w, false, (uint64_t)x))); if (d == D_TRUE) return (uint64_t)x & maskw(w); if (d == D_BOTH) throw ForkReq{mk(O_EQ, 1, false, e, mkConst(w, false, (uint64_t)x)), true}; } throw PathEnd{"infeasible"}; }
  }
  Ex* c = mk(O_EQ, 1, false, e, mkConst(w, false, k));
  Dec d = decide(s, c);
  if (d == D_TRUE) return k;
  if (d == D_BOTH) throw ForkReq{c, true};
  if (d == D_FALSE) throw PathEnd{"infeasible"};
  throw PathEnd{"infeasible"};
}
struct Stride { uint64_t g; int64_t r; };  // value == r mod g  (g==0: constant r)
static uint64_t gcd64(uint64_t a, uint64_t b) { while (b) { uint64_t t = a % b; a = b; b = t; } return a; }
static Stride strideOf(Ex* e, int d = 0) {
  if (e->op == O_CONST) return {0, sxt(e->k, e->w)};
  if (d > 24) return {1, 0};
  switch (e->op) {
    case O_ADD: { Stride a = strideOf(e->a, d + 1), b = strideOf(e->b, d + 1); return {gcd64(a.g, b.g), a.r + b.r}; }
    case O_MUL: if (e->b->op == O_CONST) { int64_t k = sxt(e->b->k, e->w); if (k == 0) return {0, 0}; Stride a = strideOf(e->a, d + 1); return {a.g * (uint64_t)llabs(k), a.r * k}; } return {1, 0};
    case O_SEXT: case O_ZEXT: if (e->op == O_ZEXT && e->a->ilo < 0) return {1, 0}; return strideOf(e->a, d + 1);
    case O_ITE: { Stride a = strideOf(e->b, d + 1), b = strideOf(e->c, d + 1); uint64_t g = gcd64(gcd64(a.g, b.g), (uint64_t)llabs(a.r - b.r)); return {g, a.r}; }
    default: return {1, 0};
  }
}
struct Access { bool symbolic; uint64_t id; int64_t off; Obj* o; Ex* offE; std::vector<int64_t> cand; };
static Access resolve(State& s, const Val& p, unsigned n, bool write) {
  Access a; a.symbolic = false; a.offE = nullptr;
  uint64_t addr = p.c;
  if (p.e) { if (s.modelOk) addr = evalExpr(p.e, s.model, newEpoch()); else {
      // any feasible value: use interval low end inside an object, else concretize
      addr = evalExpr(p.e, s.model, newEpoch()); } }
  a.o = objAt(s, addr, a.id, a.off);
  if (!p.e) {
    if (!a.o || a.off < 0 || a.off + n > a.o->size) {
      std::ostringstream m; m << (write ? "store" : "load") << " of " << n << " bytes at " << (addr < 4096 ? "null pointer" : a.o ? "offset " + std::to_string(a.off) + " of object size " + std::to_string(a.o->size) : "invalid/freed address");
      vio("memory", m.str());
    }
    if (write && a.o->ro) vio("memory", "store to constant");
    return a;
  }
  if (!a.o) { // pointer value under the model is bad
    if (s.modelOk) vio("memory", "invalid symbolic pointer");
    uint64_t k = concretize(s, p, 64); Val pv = V(k); return resolve(s, pv, n, write);
  }
  uint64_t base = addrOf(a.id);
  Ex* offE = mk(O_SUB, 64, false, p.e, mkConst(64, false, base));
  if (a.o->size < n) vio("memory", "access larger than object");
  int64_t maxOff = (int64_t)a.o->size - n;
  if (!(offE->ilo >= 0 && offE->ihi <= maxOff)) {
    Ex* inb = mk(O_ULE, 1, false, offE, mkConst(64, false, (uint64_t)maxOff));
    if (offE->ilo < 0 || offE->ihi > maxOff) {
      Dec d = decide(s, inb);
      if (d == D_BOTH) throw ForkReq{inb, true};
      if (d == D_FALSE || d == D_NONE) {
        if (!s.modelOk) { uint64_t k = concretize(s, p, 64); return resolve(s, V(k), n, write); }
        if (a.off >= 0 && a.off <= maxOff) throw PathEnd{"infeasible"};
        std::ostringstream m; m << (write ? "store" : "load") << " of " << n << " bytes at symbolic offset (e.g. " << a.off << ") outside object of size " << a.o->size; vio("memory", m.str());
      }
    }
  }
  if (write && a.o->ro) vio("memory", "store to constant");
  Stride st = strideOf(offE);
  int64_t lo = std::max<int64_t>(0, offE->ilo), hi = std::min<int64_t>(maxOff, offE->ihi);
  uint64_t g = st.g ? st.g : 1;
  int64_t r = ((st.r % (int64_t)g) + (int64_t)g) % (int64_t)g;
  int64_t first = lo + (((r - lo) % (int64_t)g) + (int64_t)g) % (int64_t)g;
  if ((hi - first) / (int64_t)g > 8000) { uint64_t k = concretize(s, p, 64); return resolve(s, V(k), n, write); }
  if ((hi - first) / (int64_t)g >= 100) {  // large array: look for a small set of feasible offsets first
    auto it = s.narrow.find(offE);
    if (it == s.narrow.end()) {
      std::vector<int64_t> vals; Assign m = s.model; bool done = false; Ex* rest = mkTrue();
      while (vals.size() < 5) {
        int64_t k = (int64_t)evalExpr(offE, m, newEpoch());
        if (std::find(vals.begin(), vals.end(), k) != vals.end()) break;
        vals.push_back(k); rest = mkAnd(rest, mkNot(mk(O_EQ, 1, false, offE, mkConst(64, false, (uint64_t)k))));
        m = s.model; SolveR r = solve(s.pc, rest, m, true);
        if (r == S_UNSAT) { done = true; break; }
        if (r != S_SAT) break;
      }
      if (!done) vals.clear();
      it = s.narrow.emplace(offE, vals).first;
    }
    for (int64_t o : it->second) if (o >= first && o <= hi) a.cand.push_back(o);
  }
  if (a.cand.empty()) for (int64_t o = first; o <= hi; o += g) a.cand.push_back(o);
  if (a.cand.empty()) throw PathEnd{"infeasible"};
  if (a.cand.size() == 1) { a.off = a.cand[0]; return a; }
  a.symbolic = true; a.offE = offE;
  return a;
}
static Val loadSc(State& s, const Val& p, unsigned w, bool fp) {
  unsigned n = (w + 7) / 8;
  Access a = resolve(s, p, n, false);
  if (!a.symbolic) return loadObj(a.o, (uint32_t)a.off, w, fp);
  // group candidates by value; the most common value becomes the default
  std::vector<std::pair<Ex*, std::vector<int64_t>>> groups; std::map<Ex*, size_t> gi;
  for (int64_t o : a.cand) { Val v = loadObj(a.o, (uint32_t)o, w, fp); Ex* e = toEx(v, w, fp); auto it = gi.find(e); if (it == gi.end()) { gi[e] = groups.size(); groups.push_back({e, {o}}); } else groups[it->second].second.push_back(o); }
  size_t best = 0; for (size_t i = 0; i < groups.size(); i++) if (groups[i].second.size() > groups[best].second.size()) best = i;
  Ex* r = groups[best].first;
  for (size_t i = 0; i < groups.size(); i++) if (i != best) {
    Ex* c = mkFalse(); for (int64_t o : groups[i].second) c = mkOr(c, mk(O_EQ, 1, false, a.offE, mkConst(64, false, (uint64_t)o)));
    r = mkIte(c, groups[i].first, r);
  }
  return VE(r);
}
static void storeSc(State& s, const Val& p, unsigned w, bool fp, const Val& v) {
  unsigned n = (w + 7) / 8;
  Access a = resolve(s, p, n, true);
  Obj* o = objW(s, a.id);
  if (!a.symbolic) { storeObj(o, (uint32_t)a.off, w, v); return; }
  Ex* ve = toEx(v, w, fp);
  for (int64_t off : a.cand) {
    Ex* old = toEx(loadObj(o, (uint32_t)off, w, fp), w, fp);
    Ex* nv = mkIte(mk(O_EQ, 1, false, a.offE, mkConst(64, false, (uint64_t)off)), ve, old);
    storeObj(o, (uint32_t)off, w, VE(nv));
  }
}
static Val addOff(const Val& p, int64_t off) { if (!p.e) return V(p.c + off); return VE(mk(O_ADD, 64, false, p.e, mkConst(64, false, (uint64_t)off))); }
static Val loadTy(State& s, const Val& p, Type* t) {
  if (auto* st = dyn_cast<StructType>(t)) { std::vector<Val> v; auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) v.push_back(loadTy(s, addOff(p, sl->getElementOffset(i)), st->getElementType(i))); return mkAgg(v); }
  if (auto* at = dyn_cast<ArrayType>(t)) { std::vector<Val> v; for (unsigned i = 0; i < at->getNumElements(); i++) v.push_back(loadTy(s, addOff(p, i * DL->getTypeAllocSize(at->getElementType())), at->getElementType())); return mkAgg(v); }
  if (auto* vt = dyn_cast<FixedVectorType>(t)) { std::vector<Val> v; for (unsigned i = 0; i < vt->getNumElements(); i++) v.push_back(loadTy(s, addOff(p, i * DL->getTypeStoreSize(vt->getElementType())), vt->getElementType())); return mkAgg(v); }
  bool fp; unsigned w = elemW(t, fp);
  if (t->isX86_FP80Ty()) return loadSc(s, p, 64, false);
  if (w == 0 || w > 64) { if (w == 128) { std::vector<Val> v{loadSc(s, p, 64, false), loadSc(s, addOff(p, 8), 64, false)}; return mkAgg(v); } vio("unsupported", "load type"); }
  return loadSc(s, p, w, fp);
}
static void storeTy(State& s, const Val& p, Type* t, const Val& v) {
  if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) storeTy(s, addOff(p, sl->getElementOffset(i)), st->getElementType(i), v.agg->v[i]); return; }
  if (auto* at = dyn_cast<ArrayType>(t)) { for (unsigned i = 0; i < at->getNumElements(); i++) storeTy(s, addOff(p, i * DL->getTypeAllocSize(at->getElementType())), at->getElementType(), v.agg->v[i]); return; }
  if (auto* vt = dyn_cast<FixedVectorType>(t)) { for (unsigned i = 0; i < vt->getNumElements(); i++) storeTy(s, addOff(p, i * DL->getTypeStoreSize(vt->getElementType())), vt->getElementType(), v.agg->v[i]); return; }
  bool fp; unsigned w = elemW(t, fp);
  if (t->isX86_FP80Ty()) { storeSc(s, p, 64, false, v); return; }
  if (w == 128) { if (v.agg) { storeSc(s, p, 64, false, v.agg->v[0]); storeSc(s, addOff(p, 8), 64, false, v.agg->v[1]); } else { storeSc(s, p, 64, false, v); storeSc(s, addOff(p, 8), 64, false, V(0)); } return; }
  if (w == 0 || w > 64) vio("unsupported", "store type");
  storeSc(s, p, w, fp, v);
}
static std::string readStr(State& s, const Val& p) {
  std::string r; if (p.e) return "<sym>"; uint64_t id; int64_t off; Obj* o = objAt(s, p.c, id, off); if (!o) return "<null>";
  while (off < (int64_t)o->size && o->data[off] && r.size() < 300) r += (char)o->data[off++];
  return r;
}
static void copyMem(State& s, const Val& dst, const Val& src, uint64_t n) {
  if (n == 0) return;
  Val d = dst, sr = src; if (d.e) d = V(concretize(s, d, 64)); if (sr.e) sr = V(concretize(s, sr, 64));
  Access b = resolve(s, sr, n, false); 
  std::vector<uint8_t> tmp(b.o->data.begin() + b.off, b.o->data.begin() + b.off + n); std::vector<std::pair<uint32_t, Ex*>> ents; 
  if (!b.o->sym.empty()) {
    for (uint64_t i = 0; i < n; i++) { Ex* e = b.o->sym[b.off + i]; if (!e) continue;
      if (!isCont(e) && i + (e->w + 7) / 8 <= n) { ents.push_back({(uint32_t)i, e}); i += (e->w + 7) / 8 - 1; }
      else ents.push_back({(uint32_t)i, byteAt(b.o, b.off + i)}); }
  }
  Access a = resolve(s, d, n, true); Obj* o = objW(s, a.id);
  clearSym(o, a.off, n); memcpy(&o->data[a.off], tmp.data(), n);
  for (auto& p : ents) { if (p.second->op == O_CONST) { o->data[a.off + p.first] = p.second->k; continue; } storeObj(o, a.off + p.first, p.second->w, VE(p.second)); }
}

// ------------------------------------------------------------------ reporting
static std::string jsonEsc(const std::string& s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; } return r; }
static std::string writeReplay(State& s, const Assign& m, const std::string& kind, const std::string& msg, const std::string& fname = "") {
  std::string path = gReplayDir + "/" + gEntry + "_" + (fname.empty() ? std::to_string(gViols.size()) : fname) + ".replay";
  std::ofstream f(path);
  f << "# entry " << gEntry << "\n# " << kind << ": " << msg << "\n# at " << where(s) << "\n";
  for (uint32_t v : s.varSeq) {
    VarInfo& vi = gVars[v]; uint64_t x = v < m.size() ? m[v] : 0; char buf[64]; snprintf(buf, 64, "0x%llx", (unsigned long long)x);
    f << vi.name << " " << (vi.fp ? "f" : "i") << (int)vi.w << " " << buf << " # "; if (vi.fp) f << bToD(x, vi.w); else f << sxt(x, vi.w); f << "\n";
  }
  return path;
}
static void reportViolation(State& s, const Assign& m, const std::string& kind, const std::string& msg, bool confirmed) {
  std::string key = kind + "|" + msg + (kind == "assert" ? "" : "|" + shortWhere(s));
  int n = 0; for (auto& v : gViols) if (v.kind + "|" + v.msg + (v.kind == "assert" ? "" : "|" + v.where.substr(0, 0)) == key) n++;
  (void)n;
  static std::map<std::string, int> cnt; if (cnt[key]++ >= gMaxViol) return;
  Viol v; v.kind = kind; v.msg = msg; v.where = where(s); v.confirmed = confirmed; v.replay = writeReplay(s, m, kind, msg);
  gViols.push_back(v);
  if (gVerbose) std::cerr << "VIOL " << kind << ": " << msg << " confirmed=" << confirmed << " at " << v.where << " replay " << v.replay << "\n";
}
// obtains a confirmed model of the whole path condition if possible
static bool confirmModel(State& s) {
  if (s.modelOk && satisfies(s.pc, nullptr, s.model)) return true;
  Assign m = s.model; std::vector<Ex*> rest;
  for (size_t i = 0; i < s.pc.size(); i++) { std::vector<Ex*> others; for (size_t j = 0; j < s.pc.size(); j++) if (j != i) others.push_back(s.pc[j]);
    if (evalExpr(s.pc[i], m, newEpoch())) continue;
    SolveR r = solve(others, s.pc[i], m, true); if (r != S_SAT) return false; }
  if (satisfies(s.pc, nullptr, m)) { s.model = m; s.modelOk = true; return true; }
  return false;
}

static uint64_t tiSel0(uint64_t ti) { return ti == 0 ? (1 << 20) : (ti >> OBJ_SHIFT) + 1; }
static void popFrame(State& s);
#include "builtins.inc"

// ------------------------------------------------------------------ instruction semantics
static inline Val get(State& s, const Opnd& o) { return o.reg >= 0 ? s.st.back().regs[o.reg] : o.v; }
static Val binop(State& s, unsigned op, const Val& a, const Val& b, unsigned w) {
  Op o; bool fp = false;
  switch (op) {
    case Instruction::Add: o = O_ADD; break; case Instruction::Sub: o = O_SUB; break; case Instruction::Mul: o = O_MUL; break;
    case Instruction::UDiv: o = O_UDIV; break; case Instruction::SDiv: o = O_SDIV; break; case Instruction::URem: o = O_UREM; break; case Instruction::SRem: o = O_SREM; break;
    case Instruction::And: o = O_AND; break; case Instruction::Or: o = O_OR; break; case Instruction::Xor: o = O_XOR; break;
    case Instruction::Shl: o = O_SHL; break; case Instruction::LShr: o = O_LSHR; break; case Instruction::AShr: o = O_ASHR; break;
    case Instruction::FAdd: o = O_FADD; fp = true; break; case Instruction::FSub: o = O_FSUB; fp = true; break; case Instruction::FMul: o = O_FMUL; fp = true; break;
    case Instruction::FDiv: o = O_FDIV; fp = true; break; case Instruction::FRem: o = O_FREM; fp = true; break;
    default: vio("unsupported", "binop"); }
  if (o == O_UDIV || o == O_SDIV || o == O_UREM || o == O_SREM) {
    if (!b.e) { if (b.c == 0) vio("div0", "integer division by zero"); }
    else { Ex* z = mk(O_EQ, 1, false, b.e, mkConst(w, false, 0)); Dec d = decide(s, z); if (d == D_BOTH) throw ForkReq{z, true}; if (d == D_TRUE) vio("div0", "integer division by zero"); }
  }
  if (w > 64) {
    auto lo = [](const Val& v) { return v.agg ? v.agg->v[0].c : v.c; }; auto hi = [](const Val& v) { return v.agg ? v.agg->v[1].c : (uint64_t)0; };
    unsigned __int128 x = ((unsigned __int128)hi(a) << 64) | lo(a), y = ((unsigned __int128)hi(b) << 64) | lo(b), r = 0;
    switch (o) { case O_ADD: r = x + y; break; case O_SUB: r = x - y; break; case O_MUL: r = x * y; break; case O_AND: r = x & y; break; case O_OR: r = x | y; break; case O_XOR: r = x ^ y; break; case O_SHL: r = x << (int)y; break; case O_LSHR: r = x >> (int)y; break; case O_UDIV: r = x / y; break; case O_UREM: r = x % y; break; default: vio("unsupported", "wide binop"); }
    return mkAgg({V((uint64_t)r), V((uint64_t)(r >> 64))});
  }
  if (!a.e && !b.e) return V(evalOp(o, w, fp, 0, w, a.c, b.c, 0));
  Ex *x = toEx(a, w, fp), *y = toEx(b, w, fp);
  int aux = 0;
  if (o == O_FDIV && y->op != O_CONST && y->flo <= 0 && y->fhi >= 0 && !x->wild && !y->wild) {
    Ex* z = mk(O_FEQ, 1, false, y, mkConst(w, true, 0)); Dec d = decide(s, z);
    if (d == D_BOTH) throw ForkReq{z, false};
    if (d == D_FALSE) aux = 1;
    else { // exactly zero divisor: the sign of zero is unknown only if y can be -0
      Ex* zero = mkConst(w, true, 0);
      Ex* p = mk(O_FLT, 1, false, zero, x); Dec dp = decide(s, p); if (dp == D_BOTH) throw ForkReq{p, false};
      uint64_t inf = w == 32 ? 0x7f800000ull : 0x7ff0000000000000ull, nan = w == 32 ? 0x7fc00000ull : 0x7ff8000000000000ull;
      if (dp == D_TRUE) return V(inf);
      Ex* q = mk(O_FLT, 1, false, x, zero); Dec dn = decide(s, q); if (dn == D_BOTH) throw ForkReq{q, false};
      if (dn == D_TRUE) return V(inf | (1ull << (w - 1)));
      return V(nan);
    }
  }
  return VE(mk(o, w, fp, x, y, nullptr, aux));
}
static Val fcmpV(State& s, unsigned p, const Val& a, const Val& b, unsigned w) {
  Ex *x = toEx(a, w, true), *y = toEx(b, w, true);
  auto EQ = [&]() { return mk(O_FEQ, 1, false, x, y); }; auto LT = [&](Ex* m, Ex* n) { return mk(O_FLT, 1, false, m, n); }; auto LE = [&](Ex* m, Ex* n) { return mk(O_FLE, 1, false, m, n); }; auto UN = [&]() { return mk(O_FUNO, 1, false, x, y); };
  switch (p) {
    case CmpInst::FCMP_FALSE: return V(0); case CmpInst::FCMP_TRUE: return V(1);
    case CmpInst::FCMP_OEQ: return VE(EQ()); case CmpInst::FCMP_OGT: return VE(LT(y, x)); case CmpInst::FCMP_OGE: return VE(LE(y, x)); case CmpInst::FCMP_OLT: return VE(LT(x, y)); case CmpInst::FCMP_OLE: return VE(LE(x, y));
    case CmpInst::FCMP_ONE: return VE(mkOr(LT(x, y), LT(y, x))); case CmpInst::FCMP_ORD: return VE(mkNot(UN())); case CmpInst::FCMP_UNO: return VE(UN());
    case CmpInst::FCMP_UEQ: return VE(mkNot(mkOr(LT(x, y), LT(y, x)))); case CmpInst::FCMP_UGT: return VE(mkNot(LE(x, y))); case CmpInst::FCMP_UGE: return VE(mkNot(LT(x, y))); case CmpInst::FCMP_ULT: return VE(mkNot(LE(y, x))); case CmpInst::FCMP_ULE: return VE(mkNot(LT(y, x))); case CmpInst::FCMP_UNE: return VE(mkNot(EQ()));
  }
  vio("unsupported", "fcmp");
}
static bool fcmpC(unsigned p, double x, double y) {
  bool un = std::isnan(x) || std::isnan(y);
  switch (p) {
    case CmpInst::FCMP_FALSE: return false; case CmpInst::FCMP_TRUE: return true;
    case CmpInst::FCMP_OEQ: return x == y; case CmpInst::FCMP_OGT: return x > y; case CmpInst::FCMP_OGE: return x >= y; case CmpInst::FCMP_OLT: return x < y; case CmpInst::FCMP_OLE: return x <= y;
    case CmpInst::FCMP_ONE: return !un && x != y; case CmpInst::FCMP_ORD: return !un; case CmpInst::FCMP_UNO: return un; case CmpInst::FCMP_UEQ: return un || x == y; case CmpInst::FCMP_UGT: return un || x > y; case CmpInst::FCMP_UGE: return un || x >= y; case CmpInst::FCMP_ULT: return un || x < y; case CmpInst::FCMP_ULE: return un || x <= y; case CmpInst::FCMP_UNE: return un || x != y;
  }
  return false;
}
static Val icmpV(unsigned p, const Val& a, const Val& b, unsigned w) {
  if (!a.e && !b.e) {
    uint64_t x = a.c & maskw(w), y = b.c & maskw(w); int64_t sx = sxt(x, w), sy = sxt(y, w);
    switch (p) { case CmpInst::ICMP_EQ: return V(x == y); case CmpInst::ICMP_NE: return V(x != y); case CmpInst::ICMP_UGT: return V(x > y); case CmpInst::ICMP_UGE: return V(x >= y); case CmpInst::ICMP_ULT: return V(x < y); case CmpInst::ICMP_ULE: return V(x <= y); case CmpInst::ICMP_SGT: return V(sx > sy); case CmpInst::ICMP_SGE: return V(sx >= sy); case CmpInst::ICMP_SLT: return V(sx < sy); case CmpInst::ICMP_SLE: return V(sx <= sy); }
  }
  Ex *x = toEx(a, w, false), *y = toEx(b, w, false);
  switch (p) { case CmpInst::ICMP_EQ: return VE(mk(O_EQ, 1, false, x, y)); case CmpInst::ICMP_NE: return VE(mkNot(mk(O_EQ, 1, false, x, y))); case CmpInst::ICMP_UGT: return VE(mk(O_ULT, 1, false, y, x)); case CmpInst::ICMP_UGE: return VE(mk(O_ULE, 1, false, y, x)); case CmpInst::ICMP_ULT: return VE(mk(O_ULT, 1, false, x, y)); case CmpInst::ICMP_ULE: return VE(mk(O_ULE, 1, false, x, y)); case CmpInst::ICMP_SGT: return VE(mk(O_SLT, 1, false, y, x)); case CmpInst::ICMP_SGE: return VE(mk(O_SLE, 1, false, y, x)); case CmpInst::ICMP_SLT: return VE(mk(O_SLT, 1, false, x, y)); case CmpInst::ICMP_SLE: return VE(mk(O_SLE, 1, false, x, y)); }
  vio("unsupported", "icmp");
}
static Val castV(unsigned op, const Val& a, unsigned sw, bool sfp, unsigned w, bool fp) {
  Op o;
  switch (op) {
    case Instruction::Trunc: if (sw > 64 && a.agg) return V(a.agg->v[0].c & maskw(w)); o = O_TRUNC; break;
    case Instruction::ZExt: if (w > 64) return mkAgg({a, V(0)}); o = O_ZEXT; break;
    case Instruction::SExt: if (w > 64) return mkAgg({a, V((int64_t)sxt(a.c, sw) < 0 ? ~0ull : 0)}); o = O_SEXT; break;
    case Instruction::FPToUI: o = O_F2UI; break; case Instruction::FPToSI: o = O_F2SI; break; case Instruction::UIToFP: o = O_UI2F; break; case Instruction::SIToFP: o = O_SI2F; break; case Instruction::FPTrunc: o = O_FPTRUNC; break; case Instruction::FPExt: o = O_FPEXT; break;
    case Instruction::PtrToInt: if (w == 64) return a; o = O_TRUNC; break; case Instruction::IntToPtr: if (sw == 64) return a; o = O_ZEXT; break;
    case Instruction::BitCast: if (sfp == fp) return a; if (!a.e) return a; return VE(mk(fp ? O_BITS2F : O_F2BITS, w, fp, a.e));
    default: vio("unsupported", "cast");
  }
  if (!a.e) return V(evalOp(o, w, fp, 0, sw, a.c & maskw(sw), 0, 0));
  return VE(mk(o, w, fp, a.e));
}
static Val selectV(State& s, const Val& c, const Val& a, const Val& b, unsigned w, bool fp) {
  if (!c.e) return (c.c & 1) ? a : b;
  if (a.agg || b.agg) { std::vector<Val> v; if (!a.agg || !b.agg) vio("unsupported", "select agg"); throw ForkReq{c.e, false}; }
  return VE(mkIte(c.e, toEx(a, w, fp), toEx(b, w, fp)));
}

static void enterBlock(State& s, int to) {
  Frame& f = s.st.back(); int from = f.bb; BInfo& b = f.fn->blocks[to];
  if (b.nPhi) {
    static thread_local std::vector<Val> tmp; tmp.clear();
    for (int i = 0; i < b.nPhi; i++) { DInst& d = f.fn->code[b.firstInst + i]; bool ok = false; for (size_t k = 0; k < d.idx.size(); k++) if (d.idx[k].second == from) { tmp.push_back(d.ops[k].reg >= 0 ? f.regs[d.ops[k].reg] : d.ops[k].v); ok = true; break; } if (!ok) vio("unsupported", "phi"); }
    for (int i = 0; i < b.nPhi; i++) f.regs[f.fn->code[b.firstInst + i].dst] = tmp[i];
  }
  f.prevbb = from; f.bb = to; f.ip = b.firstInst + b.nPhi;
}
static void popFrame(State& s) {
  Frame& f = s.st.back();
  for (uint64_t i = f.stackMark; i < s.stk.next; i++) s.stk.set(i, Rc<Obj>());
  s.stk.next = f.stackMark; s.st.pop_back();
}
static void pushFrame(State& s, FnInfo* fn, const std::vector<Val>& args) {
  decode(fn); fn->calls++;
  if (s.st.size() > 4000) vio("stack", "call stack too deep (unbounded recursion)");
  s.st.emplace_back(); Frame& f = s.st.back(); f.fn = fn; f.bb = 0; f.ip = fn->blocks[0].firstInst; f.regs.resize(fn->nregs); f.stackMark = s.stk.next;
  for (size_t i = 0; i < args.size() && i < fn->f->arg_size(); i++) f.regs[i] = args[i];
}
// after a callee returned: continue in the caller
static void finishCall(State& s, const Val& rv) {
  Frame& f = s.st.back(); DInst& d = f.fn->code[f.ip];
  if (d.dst >= 0) f.regs[d.dst] = rv;
  if (d.op == Instruction::Invoke) enterBlock(s, d.succ[0]); else f.ip++;
}
static std::string tiName(uint64_t a);
static std::map<uint64_t, std::string> tiNames;
static std::string tiName(uint64_t a) { auto it = tiNames.find(a); return it == tiNames.end() ? "" : it->second; }
static bool tiMatch(uint64_t thrown, uint64_t want, int d = 0) {
  if (thrown == want) return true; if (d > 10) return false;
  std::string n = tiName(thrown);
  static std::map<std::string, std::string> ext = {{"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"}};
  auto it = ext.find(n);
  if (it != ext.end()) { for (auto& k : tiNames) if (k.second == it->second) { if (tiMatch(k.first, want, d + 1)) return true; } 
    // base typeinfo may not exist in the module: match by name chain
    std::string b = it->second; std::string wn = tiName(want); while (true) { if (b == wn) return true; auto j = ext.find(b); if (j == ext.end()) break; b = j->second; } return false; }
  for (auto& kv : gAddr) if (kv.second == thrown && kv.first->hasInitializer()) if (auto* cs = dyn_cast<ConstantStruct>(kv.first->getInitializer())) if (cs->getNumOperands() == 3) { Val b = constVal(cast<Constant>(cs->getOperand(2))); if (tiMatch(b.c, want, d + 1)) return true; }
  return false;
}
static uint64_t tiSel(uint64_t ti) { return (ti >> OBJ_SHIFT) + 1; }
static void unwind(State& s) {  // inflight set; current top frame is the thrower (its callee already popped)
  while (true) {
    if (s.st.empty()) vio("exception", "uncaught exception " + llvm::demangle(tiName(s.inflight.ti)));
    Frame& f = s.st.back(); DInst& d = f.fn->code[f.ip];
    if (d.op == Instruction::Invoke) {
      BasicBlock* lb = f.fn->blocks[d.succ[1]].bb; LandingPadInst* lp = lb->getLandingPadInst(); int sel = -1;
      for (unsigned i = 0; i < lp->getNumClauses() && sel < 0; i++) if (lp->isCatch(i)) { Val c = constVal(lp->getClause(i)); if (c.c == 0 || tiMatch(s.inflight.ti, c.c)) sel = (int)(c.c == 0 ? 1 << 20 : tiSel(c.c)); }
      if (sel < 0 && lp->isCleanup()) sel = 0;
      if (sel >= 0) {
        int dst = d.succ[1]; enterBlock(s, dst); Frame& g = s.st.back();
        DInst& l = g.fn->code[g.ip]; g.regs[l.dst] = mkAgg({V(s.inflight.obj), V((uint64_t)sel)}); g.ip++; return;
      }
    }
    popFrame(s);
  }
}

static void execInst(State& s) {
  Frame& f = s.st.back(); DInst& d = f.fn->code[f.ip];
  s.ninst++; gInst++;
  switch (d.op) {
    case Instruction::Ret: {
      Val rv; if (!d.ops.empty()) rv = get(s, d.ops[0]);
      popFrame(s); if (s.st.empty()) throw PathEnd{"done"};
      finishCall(s, rv); return; }
    case Instruction::Br: {
      if (d.ops.empty()) { enterBlock(s, d.succ[0]); return; }
      Val c = get(s, d.ops[0]); bool t;
      if (!c.e) t = c.c & 1;
      else { Dec k = decide(s, c.e); if (k == D_BOTH) throw ForkReq{c.e, false}; if (k == D_NONE) throw PathEnd{"infeasible"}; t = k == D_TRUE; }
      enterBlock(s, t ? d.succ[0] : d.succ[1]); return; }
    case Instruction::Switch: {
      Val c = get(s, d.ops[0]);
      if (!c.e) { int to = d.succ[0]; for (auto& k : d.idx) if (k.first.v.c == (c.c & maskw(d.sw))) { to = k.second; break; } enterBlock(s, to); return; }
      for (auto& k : d.idx) { Ex* e = mk(O_EQ, 1, false, c.e, mkConst(d.sw, false, k.first.v.c)); Dec r = decide(s, e); if (r == D_BOTH) throw ForkReq{e, false}; if (r == D_TRUE) { enterBlock(s, k.second); return; } }
      enterBlock(s, d.succ[0]); return; }
    case Instruction::Unreachable: vio("unreachable", "reached an unreachable instruction (missing return or impossible case)");
    case Instruction::Resume: { Val v = get(s, d.ops[0]); s.inflight.obj = v.agg->v[0].c; popFrame(s); unwind(s); return; }
    case Instruction::Call: case Instruction::Invoke: {
      FnInfo* callee = d.callee; unsigned na = d.ops.size();
      if (!callee) {
        Val fp = get(s, d.ops.back()); na--;
        uint64_t a = fp.e ? concretize(s, fp, 64) : fp.c;
        callee = fnOfAddr(a); if (!callee) vio("memory", "call through invalid function pointer");
        if (callee->builtin < 0 && !harnessSleep(callee->f)) callee->builtin = builtinId(callee->f->getName().str());
      }
      std::vector<Val> args(na); for (unsigned i = 0; i < na; i++) args[i] = get(s, d.ops[i]);
      if (callee->builtin >= 0 || callee->f->isIntrinsic() || callee->f->isDeclaration()) {
        Val rv; int r = callBuiltin(s, callee, args, d, rv);
        if (r == 1) { unwind(s); return; }   // threw
        finishCall(s, rv); return;
      }
      f.callIp = f.ip;
      pushFrame(s, callee, args); return; }
    case Instruction::Alloca: { Val n = d.ops.empty() ? V(1) : get(s, d.ops[0]); uint64_t k = n.e ? concretize(s, n, 64) : n.c; f.regs[d.dst] = V(allocStack(s, d.off * k)); break; }
    case Instruction::Load: { Val r = loadTy(s, get(s, d.ops[0]), d.ty); s.st.back().regs[d.dst] = r; break; }
    case Instruction::Store: storeTy(s, get(s, d.ops[1]), d.ty, get(s, d.ops[0])); break;
    case Instruction::GetElementPtr: {
      Val p = get(s, d.ops[0]);
      if (p.agg) vio("unsupported", "vector gep");
      bool sym = p.e; for (auto& k : d.idx) if (get(s, k.first).e) sym = true;
      if (!sym) { uint64_t a = p.c + d.off; for (size_t q = 0; q < d.idx.size(); q++) { Val i = get(s, d.idx[q].first); a += (uint64_t)(sxt(i.c, d.idxW[q]) * d.idx[q].second); } f.regs[d.dst] = V(a); break; }
      Ex* a = toEx(p, 64, false);
      for (size_t q = 0; q < d.idx.size(); q++) { auto& k = d.idx[q]; Val i = get(s, k.first); Ex* ie = i.e ? i.e : mkConst(64, false, (uint64_t)sxt(i.c, d.idxW[q])); if (ie->w < 64) ie = mk(O_SEXT, 64, false, ie); a = mk(O_ADD, 64, false, a, mk(O_MUL, 64, false, ie, mkConst(64, false, (uint64_t)k.second))); }
      a = mk(O_ADD, 64, false, a, mkConst(64, false, (uint64_t)d.off)); f.regs[d.dst] = VE(a); break; }
    case Instruction::ICmp: {
      Val a = get(s, d.ops[0]), b = get(s, d.ops[1]);
      if (a.agg || b.agg) { if (d.vn == 0) { // wide int compare
          unsigned __int128 x = a.agg ? ((unsigned __int128)a.agg->v[1].c << 64 | a.agg->v[0].c) : a.c, y = b.agg ? ((unsigned __int128)b.agg->v[1].c << 64 | b.agg->v[0].c) : b.c; bool r = false;
          switch (d.pred) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_UGE: r = x >= y; break; case CmpInst::ICMP_ULE: r = x <= y; break; default: vio("unsupported", "wide icmp"); } f.regs[d.dst] = V(r); break; }
        std::vector<Val> v; for (unsigned i = 0; i < d.vn; i++) v.push_back(icmpV(d.pred, a.agg->v[i], b.agg->v[i], d.sw)); f.regs[d.dst] = mkAgg(v); break; }
      f.regs[d.dst] = icmpV(d.pred, a, b, d.sw); break; }
    case Instruction::FCmp: {
      Val a = get(s, d.ops[0]), b = get(s, d.ops[1]);
      auto one = [&](const Val& x, const Val& y) { if (!x.e && !y.e) return V(fcmpC(d.pred, bToD(x.c, d.sw), bToD(y.c, d.sw))); return fcmpV(s, d.pred, x, y, d.sw); };
      if (a.agg) { std::vector<Val> v; for (unsigned i = 0; i < d.vn; i++) v.push_back(one(a.agg->v[i], b.agg->v[i])); f.regs[d.dst] = mkAgg(v); break; }
      f.regs[d.dst] = one(a, b); break; }
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPTrunc: case Instruction::FPExt: case Instruction::PtrToInt: case Instruction::IntToPtr: {
      Val a = get(s, d.ops[0]);
      if (d.vn) { std::vector<Val> v; for (unsigned i = 0; i < d.vn; i++) v.push_back(castV(d.op, a.agg->v[i], d.sw, d.sfp, d.w, d.fp)); f.regs[d.dst] = mkAgg(v); break; }
      if (d.ty->isX86_FP80Ty() || d.I->getOperand(0)->getType()->isX86_FP80Ty()) { // modelled as double
        unsigned w = d.ty->isX86_FP80Ty() ? 64 : d.w; bool fp = d.ty->isX86_FP80Ty() ? true : d.fp; unsigned sw = d.I->getOperand(0)->getType()->isX86_FP80Ty() ? 64 : d.sw;
        if ((d.op == Instruction::FPExt || d.op == Instruction::FPTrunc) && w == sw) f.regs[d.dst] = a; else f.regs[d.dst] = castV(d.op, a, sw, true, w, fp); break; }
      f.regs[d.dst] = castV(d.op, a, d.sw, d.sfp, d.w, d.fp); break; }
    case Instruction::BitCast: {
      Val a = get(s, d.ops[0]); Type* st = d.I->getOperand(0)->getType(); unsigned sn = vecN(st);
      if (!sn && !d.vn) { f.regs[d.dst] = castV(d.op, a, d.sw, d.sfp, d.w, d.fp); break; }
      if (sn == d.vn && d.sw == d.w) { std::vector<Val> v; for (unsigned i = 0; i < d.vn; i++) v.push_back(castV(d.op, a.agg->v[i], d.sw, d.sfp, d.w, d.fp)); f.regs[d.dst] = mkAgg(v); break; }
      // general: go through a temporary object
      uint64_t tot = DL->getTypeStoreSize(st); Obj o((uint32_t)tot);
      if (sn) for (unsigned i = 0; i < sn; i++) storeObj(&o, i * d.sw / 8, d.sw, a.agg->v[i]); else storeObj(&o, 0, d.sw, a);
      if (d.vn) { std::vector<Val> v; for (unsigned i = 0; i < d.vn; i++) v.push_back(loadObj(&o, i * d.w / 8, d.w, d.fp)); f.regs[d.dst] = mkAgg(v); } else f.regs[d.dst] = loadObj(&o, 0, d.w, d.fp);
      break; }
    case Instruction::Select: {
      Val c = get(s, d.ops[0]), a = get(s, d.ops[1]), b = get(s, d.ops[2]);
      if (c.agg) { std::vector<Val> v; for (unsigned i = 0; i < d.vn; i++) v.push_back(selectV(s, c.agg->v[i], a.agg->v[i], b.agg->v[i], d.w, d.fp)); f.regs[d.dst] = mkAgg(v); break; }
      if (c.e && d.vn) { std::vector<Val> v; for (unsigned i = 0; i < d.vn; i++) v.push_back(selectV(s, c, a.agg->v[i], b.agg->v[i], d.w, d.fp)); f.regs[d.dst] = mkAgg(v); break; }
      if (c.e && d.ty->isPointerTy() && !sameVal(a, b)) { // pointers: keep concrete
        Dec k = decide(s, c.e); if (k == D_BOTH) throw ForkReq{c.e, true}; if (k == D_NONE) throw PathEnd{"infeasible"}; f.regs[d.dst] = k == D_TRUE ? a : b; break; }
      f.regs[d.dst] = selectV(s, c, a, b, d.w, d.fp); break; }
    case Instruction::FNeg: {
      Val a = get(s, d.ops[0]); auto one = [&](const Val& x) { if (!x.e) return V(evalOp(O_FNEG, d.w, true, 0, d.w, x.c, 0, 0)); return VE(mk(O_FNEG, d.w, true, x.e)); };
      if (d.vn) { std::vector<Val> v; for (unsigned i = 0; i < d.vn; i++) v.push_back(one(a.agg->v[i])); f.regs[d.dst] = mkAgg(v); } else f.regs[d.dst] = one(a); break; }
    case Instruction::Freeze: f.regs[d.dst] = get(s, d.ops[0]); break;
    case Instruction::ExtractValue: { Val v = get(s, d.ops[0]); for (unsigned i : cast<ExtractValueInst>(d.I)->indices()) { Val t = v.agg->v[i]; v = t; } f.regs[d.dst] = v; break; }
    case Instruction::InsertValue: {
      auto* iv = cast<InsertValueInst>(d.I); Val base = get(s, d.ops[0]); Val el = get(s, d.ops[1]);
      std::function<Val(const Val&, unsigned)> ins = [&](const Val& b, unsigned k) -> Val { if (k == iv->getNumIndices()) return el; std::vector<Val> v = b.agg->v; v[iv->getIndices()[k]] = ins(v[iv->getIndices()[k]], k + 1); return mkAgg(v); };
      f.regs[d.dst] = ins(base, 0); break; }
    case Instruction::ExtractElement: { Val v = get(s, d.ops[0]), i = get(s, d.ops[1]); uint64_t k = i.e ? concretize(s, i, 64) : i.c; f.regs[d.dst] = v.agg->v.at(k); break; }
    case Instruction::InsertElement: { Val v = get(s, d.ops[0]), x = get(s, d.ops[1]), i = get(s, d.ops[2]); uint64_t k = i.e ? concretize(s, i, 64) : i.c; std::vector<Val> t = v.agg->v; t.at(k) = x; f.regs[d.dst] = mkAgg(t); break; }
    case Instruction::ShuffleVector: {
      auto* sv = cast<ShuffleVectorInst>(d.I); Val a = get(s, d.ops[0]), b = get(s, d.ops[1]); std::vector<Val> r; int n = a.agg->v.size();
      for (int m : sv->getShuffleMask()) r.push_back(m < 0 ? V(0) : m < n ? a.agg->v[m] : b.agg->v[m - n]); f.regs[d.dst] = mkAgg(r); break; }
    case Instruction::AtomicRMW: {
      auto* rm = cast<AtomicRMWInst>(d.I); Val p = get(s, d.ops[0]), x = get(s, d.ops[1]); bool fp; unsigned w = elemW(rm->getType(), fp); Val old = loadSc(s, p, w, fp), nv;
      switch (rm->getOperation()) { case AtomicRMWInst::Xchg: nv = x; break; case AtomicRMWInst::Add: nv = binop(s, Instruction::Add, old, x, w); break; case AtomicRMWInst::Sub: nv = binop(s, Instruction::Sub, old, x, w); break; case AtomicRMWInst::And: nv = binop(s, Instruction::And, old, x, w); break; case AtomicRMWInst::Or: nv = binop(s, Instruction::Or, old, x, w); break; default: vio("unsupported", "atomicrmw"); }
      storeSc(s, p, w, fp, nv); f.regs[d.dst] = old; break; }
    case Instruction::AtomicCmpXchg: {
      auto* cx = cast<AtomicCmpXchgInst>(d.I); Val p = get(s, d.ops[0]), c = get(s, d.ops[1]), n = get(s, d.ops[2]); bool fp; unsigned w = elemW(cx->getCompareOperand()->getType(), fp); Val old = loadSc(s, p, w, fp);
      Val eq = icmpV(CmpInst::ICMP_EQ, old, c, w); bool t; if (!eq.e) t = eq.c; else { Dec k = decide(s, eq.e); if (k == D_BOTH) throw ForkReq{eq.e, true}; t = k == D_TRUE; }
      if (t) storeSc(s, p, w, fp, n); f.regs[d.dst] = mkAgg({old, V(t)}); break; }
    case Instruction::Fence: break;
    case Instruction::LandingPad: vio("unsupported", "landingpad"); 
    default:
      if (d.I->isBinaryOp()) {
        Val a = get(s, d.ops[0]), b = get(s, d.ops[1]);
        if (d.vn) { std::vector<Val> v; for (unsigned i = 0; i < d.vn; i++) v.push_back(binop(s, d.op, a.agg->v[i], b.agg->v[i], d.w)); s.st.back().regs[d.dst] = mkAgg(v); }
        else s.st.back().regs[d.dst] = d.ty->isX86_FP80Ty() ? binop(s, d.op, a, b, 64) : binop(s, d.op, a, b, d.I->getType()->isIntegerTy() ? d.I->getType()->getIntegerBitWidth() : d.w);
        break;
      }
      vio("unsupported", std::string("instruction ") + d.I->getOpcodeName());
  }
  s.st.back().ip++;
}

// ------------------------------------------------------------------ state merging
static bool looksPtr(State& s, uint64_t v) { if (v & FN_TAG) return fnOfAddr(v) != nullptr && (v >> 62) == 1; uint64_t id; int64_t off; if (v < (1ull << OBJ_SHIFT)) return false; Obj* o = objAt(s, v, id, off); return o && off >= -64 && off <= (int64_t)o->size + 64; }
static uint64_t gMergeRefused = 0; static std::map<std::string, uint64_t> refuseWhy;
struct MergeCtx { State *a, *b; Ex* cond; int mode; };
static bool refuse(const char* w) { refuseWhy[w]++; return false; }
static bool mergeVal(MergeCtx& m, const Val& x, const Val& y, unsigned w, bool fp, Val& out) {
  if (sameVal(x, y)) { out = x; return true; }
  if (x.agg || y.agg) return refuse("agg");
  if (w == 0 || w > 64) return refuse("width");
  if (w == 64 && !fp) { if (!x.e && looksPtr(*m.a, x.c)) return refuse("ptr"); if (!y.e && looksPtr(*m.b, y.c)) return refuse("ptr"); }
  if (m.mode < 2 && !fp && w > 1) return refuse("int");
  out = VE(mkIte(m.cond, toEx(x, w, fp), toEx(y, w, fp)));
  return true;
}
// merges b into a (returns false if not mergeable; a unchanged then)
static bool mergeObj(MergeCtx& m, Obj* x, Obj* y, Obj* out) {
  if (x->size != y->size) return refuse("objsize");
  uint32_t n = x->size;
  for (uint32_t i = 0; i < n;) {
    Ex* ex = x->sym.empty() ? nullptr : x->sym[i]; Ex* ey = y->sym.empty() ? nullptr : y->sym[i];
    if (!ex && !ey) {
      if (x->data[i] == y->data[i]) { i++; continue; }
      // differing concrete bytes: choose a unit
      uint32_t u = 1, st = i;
      auto clean = [&](uint32_t a, uint32_t len) { if (a + len > n) return false; for (uint32_t k = a; k < a + len; k++) { if (!x->sym.empty() && x->sym[k]) return false; if (!y->sym.empty() && y->sym[k]) return false; } return true; };
      if (clean(i & ~7u, 8)) { uint64_t vx, vy; memcpy(&vx, &x->data[i & ~7u], 8); memcpy(&vy, &y->data[i & ~7u], 8); if (looksPtr(*m.a, vx) || looksPtr(*m.b, vy)) return refuse("ptrmem"); }
      if (clean(i & ~3u, 4)) { u = 4; st = i & ~3u; }
      if (m.mode < 2) return refuse("intmem");
      uint64_t vx = 0, vy = 0; memcpy(&vx, &x->data[st], u); memcpy(&vy, &y->data[st], u);
      storeObj(out, st, u * 8, VE(mkIte(m.cond, mkConst(u * 8, false, vx), mkConst(u * 8, false, vy)))); i = st + u; continue;
    }
    if (ex == ey) { i++; continue; }
    Ex* lead = (ex && !isCont(ex)) ? ex : ((ey && !isCont(ey)) ? ey : nullptr);
    if (!lead || isCont(ex) || isCont(ey)) return refuse("overlap");
    unsigned u = (lead->w + 7) / 8;
    Val vx = loadObj(x, i, lead->w, lead->fp), vy = loadObj(y, i, lead->w, lead->fp), o;
    if (ex && ey && !isCont(ex) && !isCont(ey) && ex->w != ey->w) return refuse("widths");
    if (!mergeVal(m, vx, vy, lead->w, lead->fp, o)) return false;
    storeObj(out, i, lead->w, o); i += u;
  }
  return true;
}
static bool mergeSpace(MergeCtx& m, Space& A, Space& B, Space& out) {
  size_t n = std::max(A.ch.size(), B.ch.size());
  for (size_t c = 0; c < n; c++) {
    Chunk* x = c < A.ch.size() ? A.ch[c].p : nullptr; Chunk* y = c < B.ch.size() ? B.ch[c].p : nullptr;
    if (x == y) continue;
    for (int k = 0; k < CH; k++) {
      Obj* p = x ? x->o[k].p : nullptr; Obj* q = y ? y->o[k].p : nullptr;
      if (p == q) continue;
      uint64_t id = c * CH + k;
      if (!p) { out.set(id, y->o[k]); continue; }
      if (!q) continue;
      Rc<Obj> no(new Obj(*p));
      if (!mergeObj(m, p, q, no.p)) return false;
      out.set(id, no);
    }
  }
  out.next = std::max(A.next, B.next);
  return true;
}
static bool tryMerge(SP& a, SP& b, size_t basePc, int stopBb) {
  if (a->st.size() != b->st.size() || a->st.empty()) return refuse("depth");
  if (a->mergeMode == 0) return false;
  Frame &fa = a->st.back(), &fb = b->st.back();
  if (fa.fn != fb.fn || fa.bb != fb.bb || fa.ip != fb.ip) return refuse("pos");
  for (size_t i = 0; i + 1 < a->st.size(); i++) if (a->st[i].fn != b->st[i].fn || a->st[i].ip != b->st[i].ip || a->st[i].stackMark != b->st[i].stackMark) return refuse("stack");
  if (a->varSeq != b->varSeq) return refuse("vars");
  if (a->pending != b->pending || a->caught.size() != b->caught.size() || a->ghost != b->ghost || a->locks != b->locks) return refuse("misc");
  // conditions
  for (size_t i = 0; i < basePc; i++) if (i >= a->pc.size() || i >= b->pc.size() || a->pc[i] != b->pc[i]) return refuse("pc");
  Ex *ca = mkTrue(), *cb = mkTrue();
  size_t cp = basePc; while (cp < a->pc.size() && cp < b->pc.size() && a->pc[cp] == b->pc[cp]) cp++;
  for (size_t i = cp; i < a->pc.size(); i++) ca = mkAnd(ca, a->pc[i]);
  for (size_t i = cp; i < b->pc.size(); i++) cb = mkAnd(cb, b->pc[i]);
  MergeCtx m{a.get(), b.get(), ca, a->mergeMode};
  // prefer the simpler, single-literal condition when b's is the plain negation
  std::vector<Val> regs = fa.regs;
  computeLive(fa.fn);
  bool atEntry = fa.ip == fa.fn->blocks[fa.bb].firstInst + fa.fn->blocks[fa.bb].nPhi && stopBb >= 0;
  auto& live = fa.fn->liveIn[fa.bb];
  for (size_t r = 0; r < regs.size(); r++) {
    if (sameVal(fa.regs[r], fb.regs[r])) continue;
    if (atEntry && !live[r]) { // phi defs are live if used
      bool isPhiDef = false; for (int i = 0; i < fa.fn->blocks[fa.bb].nPhi; i++) if (fa.fn->code[fa.fn->blocks[fa.bb].firstInst + i].dst == (int)r) isPhiDef = true;
      if (!isPhiDef) { regs[r] = Val(); continue; }
    }
    // type of the register
    unsigned w = 0; bool fp = false; Type* t = nullptr;
    for (auto& kv : fa.fn->regIdx) if (kv.second == (int)r) { t = kv.first->getType(); break; }
    if (t) w = elemW(t, fp);
    const Val &x = fa.regs[r], &y = fb.regs[r];
    if (x.agg && y.agg && x.agg->v.size() == y.agg->v.size()) {
      std::vector<Val> v; 
      for (size_t i = 0; i < x.agg->v.size(); i++) { unsigned ew = w; bool ef = fp; if (auto* st = dyn_cast<StructType>(t)) ew = elemW(st->getElementType(i), ef); Val o; if (!mergeVal(m, x.agg->v[i], y.agg->v[i], ew, ef, o)) return false; v.push_back(o); }
      regs[r] = mkAgg(v); continue;
    }
    if (t && t->isPointerTy()) return refuse("ptrreg");
    if (!mergeVal(m, x, y, w, fp, regs[r])) return false;
  }
  Space H = a->heap, S = a->stk;
  if (!mergeSpace(m, a->heap, b->heap, H)) return false;
  if (!mergeSpace(m, a->stk, b->stk, S)) return false;
  a->heap = H; a->stk = S; fa.regs = regs;
  a->pc.resize(cp);
  Ex* o = mkOr(ca, cb);
  if (!isTrue(o)) a->pc.push_back(o);
  if (!a->modelOk && b->modelOk) { a->model = b->model; a->modelOk = true; }
  a->ninst = std::max(a->ninst, b->ninst); a->forks = std::max(a->forks, b->forks);
  for (auto it = a->narrow.begin(); it != a->narrow.end();) {
    auto jt = b->narrow.find(it->first); if (jt == b->narrow.end()) { it = a->narrow.erase(it); continue; }
    if (jt->second.empty()) it->second.clear();
    if (!it->second.empty()) for (int64_t o : jt->second) if (std::find(it->second.begin(), it->second.end(), o) == it->second.end()) it->second.push_back(o);
    ++it;
  }
  gMerges++;
  return true;
}

// ------------------------------------------------------------------ exploration
static int gPathModels = 0, gPathModelsMax = 0, gPathModelTries = 0; static double gPathModelT = 0;
// a model of the completed path, replayed natively by the runner (validates the executor against the compiled code)
static void pathModel(State& s) {
  if (gPathModels >= gPathModelsMax || gPathModelTries > 4 * gPathModelsMax || gPathModelT > 10) return;
  double t = nowS(); gPathModelTries++;
  unsigned am = gSolverOpts.assertMs; gSolverOpts.assertMs = 2000; bool ok = confirmModel(s); gSolverOpts.assertMs = am;
  if (ok) writeReplay(s, s.model, "path", "completed path", "path" + std::to_string(gPathModels++)); gPathModelT += nowS() - t; }
static void endPath(State& s, const std::string& why, bool viol = false) { if (why == "done" || why == "sym_exit") { gPaths++; if (!viol) pathModel(s); } else if (why == "asserted") gPaths++; else if (why == "assume") gAssumeKilled++; }
static std::vector<SP> runUntil(SP s, Stop stop);
static bool outOfTime() { return nowS() > gDeadline || gPaths > gMaxPaths; }
static std::vector<SP> handleFork(SP s, ForkReq fr, Stop stop) {
  std::vector<SP> out; gForks++; s->forks++;
  if (gVerbose > 1) forkSites[shortWhere(*s)]++;
  SP t(new State(*s)); SP f = std::move(s);
  size_t basePc = t->pc.size();
  bool okT = assume(*t, fr.cond), okF = assume(*f, mkNot(fr.cond));
  Frame& fb = t->st.back(); computeIpdom(fb.fn);
  bool merge = !fr.noMerge && t->mergeMode > 0;
  Stop in = stop;
  if (merge) { int p = fb.fn->ipdom[fb.bb]; in = p >= 0 ? Stop{(int)t->st.size(), p} : Stop{(int)t->st.size() - 1, -1}; if (in.depth < 1) merge = false; if (in.depth < stop.depth || (in.depth == stop.depth && stop.bb == -1)) { merge = false; } }
  if (!merge) {
    if (okT) for (auto& x : runUntil(std::move(t), stop)) out.push_back(std::move(x));
    if (okF) for (auto& x : runUntil(std::move(f), stop)) out.push_back(std::move(x));
    return out;
  }
  std::vector<SP> rs;
  if (okT) for (auto& x : runUntil(std::move(t), in)) rs.push_back(std::move(x));
  if (okF) for (auto& x : runUntil(std::move(f), in)) rs.push_back(std::move(x));
  std::vector<SP> acc;
  for (auto& r : rs) {
    bool done = false;
    bool at = (int)r->st.size() == in.depth && (in.bb < 0 || r->st.back().bb == in.bb);
    if (at) for (auto& a : acc) if ((int)a->st.size() == in.depth && tryMerge(a, r, basePc, in.bb)) { done = true; break; }
    if (!done) acc.push_back(std::move(r));
  }
  if (acc.size() == 1) { out.push_back(std::move(acc[0])); return out; }  // caller continues it
  for (auto& a : acc) for (auto& x : runUntil(std::move(a), stop)) out.push_back(std::move(x));
  return out;
}
static std::vector<SP> runUntil(SP s, Stop stop) {
  std::vector<SP> out;
  while (true) {
    if (s->st.empty()) { endPath(*s, "done"); return out; }
    if ((int)s->st.size() < stop.depth) { out.push_back(std::move(s)); return out; }
    if ((int)s->st.size() == stop.depth) { Frame& f = s->st.back(); if (stop.bb == -1 || (f.bb == stop.bb && f.ip == f.fn->blocks[f.bb].firstInst + f.fn->blocks[f.bb].nPhi)) { out.push_back(std::move(s)); return out; } }
    try {
      // run a burst of instructions
      for (int k = 0; k < 4096; k++) {
        int dep = s->st.size(); 
        execInst(*s);
        if ((int)s->st.size() <= stop.depth || dep <= stop.depth) break;
      }
      if (s->ninst > gMaxInst) { if (confirmModel(*s)) reportViolation(*s, s->model, "nontermination", "instruction limit reached", true); gIncomplete++; gIncompleteWhy.insert("instruction limit at " + shortWhere(*s)); return out; }
      if ((gInst & 0x3ff) == 0 && outOfTime()) { gIncomplete++; gIncompleteWhy.insert("time/path budget"); return out; }
    } catch (ForkReq& fr) {
      if (outOfTime()) { gIncomplete++; gIncompleteWhy.insert("time/path budget"); return out; }
      if (s->forks > 100000) { gIncomplete++; gIncompleteWhy.insert("fork limit at " + shortWhere(*s)); return out; }
      std::vector<SP> r = handleFork(std::move(s), fr, stop);
      // a single state that has not reached our stop continues here (keeps recursion shallow)
      if (r.size() == 1) { s = std::move(r[0]); continue; }
      for (auto& x : r) for (auto& y : runUntil(std::move(x), stop)) out.push_back(std::move(y));
      return out;
    } catch (PathEnd& pe) { endPath(*s, pe.why); return out;
    } catch (Violation& v) {
      if (v.kind == "unsupported") { gIncomplete++; gIncompleteWhy.insert("unsupported: " + v.msg + " at " + where(*s)); return out; }
      bool ok = confirmModel(*s);
      if (ok) reportViolation(*s, s->model, v.kind, v.msg, true);
      else { // is the path feasible at all?
        gIncompleteWhy.insert("unconfirmed " + v.kind + ": " + v.msg + " at " + shortWhere(*s)); gAsserts["(no " + v.kind + " error)"].unknown++; }
      endPath(*s, "done", true); return out;
    }
  }
}

// ------------------------------------------------------------------ setup
static void initMem(State& s, uint64_t addr, Constant* c) {
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  Type* t = c->getType();
  if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) initMem(s, addr + sl->getElementOffset(i), cast<Constant>(c->getAggregateElement(i))); return; }
  if (auto* at = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); 
    if (auto* cds = dyn_cast<ConstantDataSequential>(c)) { uint64_t id; int64_t off; objAt(s, addr, id, off); Obj* o = objW(s, id); StringRef raw = cds->getRawDataValues(); memcpy(&o->data[off], raw.data(), raw.size()); return; }
    for (unsigned i = 0; i < at->getNumElements(); i++) initMem(s, addr + i * es, cast<Constant>(c->getAggregateElement(i))); return; }
  storeTy(s, V(addr), t, constVal(c));
}
static void writeOut(const std::string& status) {
  std::ofstream f(gOut);
  f << "{\n \"entry\": \"" << gEntry << "\",\n \"status\": \"" << status << "\",\n \"wall\": " << nowS() - gStart << ",\n \"paths\": " << gPaths << ", \"forks\": " << gForks << ", \"merges\": " << gMerges << ", \"instructions\": " << gInst << ", \"assume_killed\": " << gAssumeKilled << ", \"incomplete\": " << gIncomplete << ", \"exprs\": " << numExprs() << ",\n";
  f << " \"solver\": {\"queries\": " << gStats.queries << ", \"z3calls\": " << gStats.z3calls << ", \"unsat\": " << gStats.unsat << ", \"sat\": " << gStats.sat << ", \"maybe\": " << gStats.maybe << ", \"unknown\": " << gStats.unknown << ", \"time\": " << gStats.z3time << ", \"max\": " << gStats.maxq << ", \"model_hits\": " << gStats.modelHits << ", \"cache_hits\": " << gStats.cacheHits << ", \"exact\": " << gStats.exactCalls << ", \"arith\": " << gStats.arithCalls << ", \"refinements\": " << gStats.refinements << "},\n";
  f << " \"incomplete_why\": ["; bool first = true; for (auto& w : gIncompleteWhy) { f << (first ? "" : ", ") << "\"" << jsonEsc(w) << "\""; first = false; } f << "],\n";
  f << " \"asserts\": {"; first = true; for (auto& a : gAsserts) { f << (first ? "" : ", ") << "\n  \"" << jsonEsc(a.first) << "\": {\"checks\": " << a.second.checks << ", \"proved\": " << a.second.proved << ", \"trivial\": " << a.second.trivially << ", \"violated\": " << a.second.violated << ", \"unknown\": " << a.second.unknown << "}"; first = false; } f << "},\n";
  f << " \"covers\": {"; first = true; for (auto& a : gCovers) { f << (first ? "" : ", ") << "\"" << jsonEsc(a.first) << "\": " << a.second; first = false; } f << "},\n";
  f << " \"functions\": ["; first = true; for (auto* fn : fnById) if (fn->calls && fn->file.find("/repo/") == 0) { f << (first ? "" : ", ") << "\n  \"" << jsonEsc(fn->pretty.substr(0, 160)) << "\""; first = false; } f << "],\n";
  f << " \"violations\": ["; first = true; for (auto& v : gViols) { f << (first ? "" : ", ") << "\n  {\"kind\": \"" << jsonEsc(v.kind) << "\", \"msg\": \"" << jsonEsc(v.msg) << "\", \"confirmed\": " << (v.confirmed ? "true" : "false") << ", \"replay\": \"" << jsonEsc(v.replay) << "\", \"where\": \"" << jsonEsc(v.where) << "\"}"; first = false; } f << "]\n}\n";
}
static int realMain(int argc, char** argv) {
  std::string file;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--entry") gEntry = argv[++i]; else if (a == "--out") gOut = argv[++i]; else if (a == "--replay-dir") gReplayDir = argv[++i];
    else if (a == "--time") gDeadline = nowS() + atof(argv[++i]); else if (a == "-v") { gVerbose++; gSolverOpts.verbose++; } else if (a == "--max-inst") gMaxInst = strtoull(argv[++i], 0, 10);
    else if (a == "--branch-ms") gSolverOpts.branchMs = atoi(argv[++i]); else if (a == "--assert-ms") gSolverOpts.assertMs = atoi(argv[++i]); else if (a == "--exact") gSolverOpts.forceExact = true; else if (a == "--arith") gSolverOpts.forceArith = true; else if (a == "--reals") gSolverOpts.reals = gSolverOpts.forceArith = true; else if (a == "--path-models") gPathModelsMax = atoi(argv[++i]); else if (a == "--max-paths") gMaxPaths = strtoull(argv[++i], 0, 10);
    else file = a;
  }
  gStart = nowS();
  CTX = new LLVMContext(); SMDiagnostic err; auto mod = parseIRFile(file, err, *CTX); if (!mod) { err.print("symex", errs()); return 3; }
  M = mod.get(); DL = &M->getDataLayout();
  SP s(new State());
  for (auto& g : M->globals()) {
    uint64_t sz = g.getValueType()->isSized() ? DL->getTypeAllocSize(g.getValueType()).getFixedValue() : 64;
    if (!g.hasInitializer() && sz < 256) sz = 256;
    uint64_t a = allocHeap(*s, sz ? sz : 1, "global"); gAddr[&g] = a; uint64_t id; int64_t off; Obj* o = objAt(*s, a, id, off); std::fill(o->data.begin(), o->data.end(), 0);
    if (g.getName().starts_with("_ZTI")) tiNames[a] = g.getName().str();
  }
  for (auto& f : *M) getFn(&f);
  for (auto& g : M->globals()) if (g.hasInitializer()) initMem(*s, gAddr[&g], g.getInitializer());
  // stream/vtable externals used by inlined code get harmless contents
  Function* entry = M->getFunction(gEntry); if (!entry) { std::cerr << "no entry " << gEntry << "\n"; return 3; }
  // constructors
  if (auto* ct = M->getGlobalVariable("llvm.global_ctors")) if (auto* ca = dyn_cast<ConstantArray>(ct->getInitializer())) {
    std::vector<std::pair<uint64_t, Function*>> cs;
    for (auto& o : ca->operands()) { auto* st = cast<ConstantStruct>(o); if (auto* f = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts())) cs.push_back({cast<ConstantInt>(st->getOperand(0))->getZExtValue(), f}); }
    std::stable_sort(cs.begin(), cs.end(), [](auto& a, auto& b) { return a.first < b.first; });
    for (auto& c : cs) {
      pushFrame(*s, getFn(c.second), {});
      try { while (true) execInst(*s); } catch (PathEnd&) {} catch (Violation& v) { std::cerr << "ctor: " << v.kind << " " << v.msg << " " << where(*s) << "\n"; return 3; } catch (ForkReq&) { std::cerr << "ctor fork\n"; return 3; }
      s->st.clear();
    }
  }
  for (auto* fn : fnById) fn->calls = 0;
  // mark constant globals read-only
  for (auto& g : M->globals()) if (g.isConstant() && g.hasInitializer()) { uint64_t id = gAddr[&g] >> OBJ_SHIFT; objW(*s, id)->ro = true; }
  s->ninst = 0;
  pushFrame(*s, getFn(entry), {});
  runUntil(std::move(s), Stop{0, -2});
  bool unk = false; for (auto& a : gAsserts) if (a.second.unknown) unk = true;
  std::string status = !gViols.empty() ? "violated" : (gIncomplete ? "incomplete" : (unk ? "unknown" : "proved"));
  if (!gOut.empty()) writeOut(status);
  if (gVerbose || gOut.empty()) {
    std::cerr << gEntry << ": " << status << " paths=" << gPaths << " forks=" << gForks << " merges=" << gMerges << " inst=" << gInst << " queries=" << gStats.queries << " z3=" << gStats.z3calls << " z3time=" << gStats.z3time << " max=" << gStats.maxq << " maybe=" << gStats.maybe << " unknown=" << gStats.unknown << " wall=" << nowS() - gStart << " exprs=" << numExprs() << " killed=" << gAssumeKilled << "\n";
    for (auto& a : gAsserts) std::cerr << "  assert " << a.first << ": checks=" << a.second.checks << " proved=" << a.second.proved << " trivial=" << a.second.trivially << " viol=" << a.second.violated << " unk=" << a.second.unknown << "\n";
    for (auto& c : gCovers) std::cerr << "  cover " << c.first << ": " << c.second << "\n";
    for (auto& w : gIncompleteWhy) std::cerr << "  incomplete: " << w << "\n";
    for (auto& v : gViols) std::cerr << "  VIOLATION " << v.kind << ": " << v.msg << " replay=" << v.replay << " @ " << v.where.substr(0, 400) << "\n";
    if (gVerbose > 1) { std::vector<std::pair<uint64_t, std::string>> fs; for (auto& k : forkSites) fs.push_back({k.second, k.first}); std::sort(fs.rbegin(), fs.rend()); for (size_t i = 0; i < fs.size() && i < 25; i++) std::cerr << "  fork " << fs[i].first << " " << fs[i].second << "\n"; for (auto& k : refuseWhy) std::cerr << "  merge refused " << k.first << " " << k.second << "\n"; }
  }
  std::cout.flush(); std::cerr.flush();
  _exit(0);
}
struct MainArgs { int argc; char** argv; int rc; };
int main(int argc, char** argv) {
  MainArgs ma{argc, argv, 0}; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 4ull << 30);
  pthread_t th; if (pthread_create(&th, &at, [](void* p) -> void* { auto* m = (MainArgs*)p; m->rc = realMain(m->argc, m->argv); return nullptr; }, &ma)) { ma.rc = realMain(argc, argv); return ma.rc; }
  pthread_join(th, nullptr); fflush(stdout); _exit(ma.rc);
}
