// LLVM bitcode -> compact IR
#include "ir.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
using namespace llvm;
namespace {
struct Loader {
  ::Module& M; const DataLayout* DL; LLVMContext& C;
  std::map<const GlobalVariable*,int> gmap; std::map<const llvm::Function*,int> fmap;
  std::map<std::string,int> filemap;
  Loader(::Module& m, const DataLayout* dl, LLVMContext& c) : M(m), DL(dl), C(c) {}
  uint32_t funcObj(int f) { return 1 + M.globals.size() + f; }
  void flatten(Type* t, uint32_t off, Lanes& out) {
    if (t->isVoidTy()) return;
    if (auto* it = dyn_cast<IntegerType>(t)) { Lane l; l.t = T_INT; l.w = it->getBitWidth() > 64 ? 0 : it->getBitWidth(); l.bytes = DL->getTypeStoreSize(t); l.off = off; out.push_back(l); return; }
    if (t->isFloatTy()) { out.push_back({T_F32, 32, 4, off}); return; }
    if (t->isDoubleTy()) { out.push_back({T_F64, 64, 8, off}); return; }
    if (t->isPointerTy()) { out.push_back({T_PTR, 64, 8, off}); return; }
    if (auto* vt = dyn_cast<FixedVectorType>(t)) { uint32_t es = DL->getTypeStoreSize(vt->getElementType());
      for (unsigned i = 0; i < vt->getNumElements(); i++) flatten(vt->getElementType(), off + i * es, out); return; }
    if (auto* at = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType());
      for (uint64_t i = 0; i < at->getNumElements(); i++) flatten(at->getElementType(), off + i * es, out); return; }
    if (auto* st = dyn_cast<StructType>(t)) { const StructLayout* sl = DL->getStructLayout(st);
      for (unsigned i = 0; i < st->getNumElements(); i++) flatten(st->getElementType(i), off + (uint32_t) sl->getElementOffset(i), out); return; }
    if (t->isX86_FP80Ty()) { out.push_back({T_F64, 80, 16, off}); return; }
    Lane l; l.t = T_INT; l.w = 0; l.bytes = 0; l.off = off; out.push_back(l);
  }
  Lanes lanesOf(Type* t) { Lanes l; flatten(t, 0, l); return l; }
  bool constPtr(const Constant* c, V& out) {
    APInt off(64, 0);
    const Value* b = c->stripAndAccumulateConstantOffsets(*DL, off, true);
    if (auto* ga = dyn_cast<GlobalAlias>(b)) b = ga->getAliasee()->stripPointerCasts();
    if (auto* g = dyn_cast<GlobalVariable>(b)) { out = mkPtr(globalObj(gmap[g]), off.getSExtValue()); return true; }
    if (auto* f = dyn_cast<llvm::Function>(b)) { out = mkPtr(funcObj(fmap[f]), off.getSExtValue()); return true; }
    if (isa<ConstantPointerNull>(b)) { out = mkPtr(0, off.getSExtValue()); return true; }
    if (auto* ce = dyn_cast<ConstantExpr>(b)) if (ce->getOpcode() == Instruction::IntToPtr)
      if (auto* ci = dyn_cast<ConstantInt>(ce->getOperand(0))) { out = mkPtr(0, ci->getSExtValue() + off.getSExtValue()); return true; }
    return false;
  }
  void flatConst(const Constant* c, std::vector<V>& out) {
    Type* t = c->getType();
    if (isa<UndefValue>(c)) { for (auto& l : lanesOf(t)) out.push_back(mkUndef(l.w)); return; }
    if (auto* ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) out.push_back(mkUndef(0)); else out.push_back(mkInt(ci->getZExtValue(), ci->getBitWidth())); return; }
    if (auto* cf = dyn_cast<ConstantFP>(c)) {
      if (t->isFloatTy()) out.push_back(mkF(cf->getValueAPF().convertToFloat(), 32));
      else if (t->isDoubleTy()) out.push_back(mkF(cf->getValueAPF().convertToDouble(), 64));
      else { APFloat f = cf->getValueAPF(); bool li; f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li); out.push_back(mkF(f.convertToDouble(), 64)); }
      return; }
    if (t->isPointerTy()) { V v; if (constPtr(c, v)) out.push_back(v); else out.push_back(mkUndef(64)); return; }
    if (isa<ConstantAggregateZero>(c)) {
      for (auto& l : lanesOf(t)) { if (l.t == T_INT) out.push_back(mkInt(0, l.w)); else if (l.t == T_PTR) out.push_back(mkPtr(0, 0)); else out.push_back(mkF(0, l.w)); }
      return; }
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < cd->getNumElements(); i++) flatConst(cd->getElementAsConstant(i), out); return; }
    if (auto* ca = dyn_cast<ConstantAggregate>(c)) { for (unsigned i = 0; i < ca->getNumOperands(); i++) flatConst(cast<Constant>(ca->getOperand(i)), out); return; }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
      if (ce->getOpcode() == Instruction::PtrToInt) { V v; if (constPtr(ce->getOperand(0), v)) { out.push_back(v); return; } }
      if (ce->getOpcode() == Instruction::BitCast) { flatConst(ce->getOperand(0), out); return; }
    }
    for (auto& l : lanesOf(t)) out.push_back(mkUndef(l.w));
  }
  void initGlobal(::Global& g, const Constant* c, uint64_t off) {
    Type* t = c->getType();
    if (isa<UndefValue>(c)) return;
    if (isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c)) { uint64_t n = DL->getTypeAllocSize(t); for (uint64_t i = 0; i < n && off + i < g.size; i++) { g.bytes[off + i] = 0; g.init[off + i] = 1; } return; }
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
      uint64_t es = DL->getTypeAllocSize(cd->getElementType());
      for (unsigned i = 0; i < cd->getNumElements(); i++) initGlobal(g, cd->getElementAsConstant(i), off + i * es); return; }
    if (auto* ca = dyn_cast<ConstantArray>(c)) { uint64_t es = DL->getTypeAllocSize(ca->getType()->getElementType());
      for (unsigned i = 0; i < ca->getNumOperands(); i++) initGlobal(g, ca->getOperand(i), off + i * es); return; }
    if (auto* cs = dyn_cast<ConstantStruct>(c)) { const StructLayout* sl = DL->getStructLayout(cs->getType());
      for (unsigned i = 0; i < cs->getNumOperands(); i++) initGlobal(g, cs->getOperand(i), off + (uint64_t) sl->getElementOffset(i)); return; }
    if (auto* cv = dyn_cast<ConstantVector>(c)) { uint64_t es = DL->getTypeStoreSize(cv->getType()->getElementType());
      for (unsigned i = 0; i < cv->getNumOperands(); i++) initGlobal(g, cv->getOperand(i), off + i * es); return; }
    std::vector<V> vs; flatConst(c, vs); Lanes ls = lanesOf(t);
    for (size_t i = 0; i < ls.size(); i++) {
      uint64_t o = off + ls[i].off; uint64_t bits = 0;
      if (vs[i].k == V_PTR) { if (vs[i].obj) { g.relocs.push_back({(uint32_t) o, vs[i]}); for (int j = 0; j < 8; j++) g.init[o + j] = 1; continue; } bits = vs[i].i; }
      else if (vs[i].k == V_INT) bits = vs[i].i;
      else if (vs[i].k == V_FC) { if (ls[i].w == 32) { float f = vs[i].d; uint32_t u; memcpy(&u, &f, 4); bits = u; } else memcpy(&bits, &vs[i].d, 8); }
      else continue;
      for (int j = 0; j < ls[i].bytes; j++) { g.bytes[o + j] = bits >> (8 * j); g.init[o + j] = 1; }
    }
  }
  // --- function translation
  std::map<const Value*, int> reg; std::map<const BasicBlock*, int> bbi; Func* F = nullptr;
  std::map<const Constant*, int> cmap;
  int constBase(const Constant* c) {
    auto it = cmap.find(c); if (it != cmap.end()) return it->second;
    int b = F->consts.size(); flatConst(c, F->consts); cmap[c] = b; return b;
  }
  void ops(const Value* v, std::vector<int>& out) {
    int n = lanesOf(v->getType()).size();
    if (auto* c = dyn_cast<Constant>(v)) { int b = constBase(c); for (int i = 0; i < n; i++) out.push_back(~(b + i)); return; }
    if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return;
    int r = reg.at(v); for (int i = 0; i < n; i++) out.push_back(r + i);
  }
  int op1(const Value* v) { std::vector<int> o; ops(v, o); return o.empty() ? ~0 : o[0]; }
  Edge edge(const BasicBlock* from, const BasicBlock* to) {
    Edge e; e.bb = bbi.at(to);
    for (auto& phi : to->phis()) {
      std::vector<int> s; const Value* in = phi.getIncomingValueForBlock(from); ops(in, s);
      int d = reg.at(&phi);
      for (size_t i = 0; i < s.size(); i++) e.moves.push_back({d + (int) i, s[i]});
    }
    return e;
  }
  int fileId(const std::string& s) { auto it = filemap.find(s); if (it != filemap.end()) return it->second; int k = M.files.size(); M.files.push_back(s); filemap[s] = k; return k; }
  void function(const llvm::Function& f, ::Func& out) {
    F = &out; reg.clear(); bbi.clear(); cmap.clear();
    int r = 0;
    for (auto& a : f.args()) { int n = lanesOf(a.getType()).size(); reg[&a] = r; out.argLanes.push_back(n); r += n; }
    out.nargs = r;
    int bi = 0;
    for (auto& bb : f) { bbi[&bb] = bi++; for (auto& in : bb) if (!in.getType()->isVoidTy()) { reg[&in] = r; r += lanesOf(in.getType()).size(); } }
    out.nregs = r; out.ret = lanesOf(f.getReturnType());
    for (auto& bb : f) {
      std::vector<::Inst> code;
      for (auto& in : bb) { ::Inst I; I.op = O_UNSUP; if (!translate(in, I)) continue; code.push_back(std::move(I)); }
      out.bbs.push_back(std::move(code));
    }
  }
  bool translate(const Instruction& in, ::Inst& I) {
    if (isa<PHINode>(in) || isa<DbgInfoIntrinsic>(in)) return false;
    if (const DILocation* dl = in.getDebugLoc().get()) { I.line = dl->getLine(); I.file = fileId(dl->getFilename().str()); }
    Lanes rl; if (!in.getType()->isVoidTy()) { I.dst = reg.at(&in); rl = lanesOf(in.getType()); I.lanes = rl.size(); if (!rl.empty()) I.ty = rl[0]; }
    I.retlanes = rl.size();
    auto unsup = [&]() { I.op = O_UNSUP; std::string s; raw_string_ostream os(s); in.print(os); I.name = os.str(); return true; };
    for (auto& l : rl) if (l.t == T_INT && l.w == 0) return unsup();
    if (auto* a = dyn_cast<AllocaInst>(&in)) { I.op = O_ALLOCA; I.size = DL->getTypeAllocSize(a->getAllocatedType()); I.align = a->getAlign().value(); I.a.push_back(op1(a->getArraySize())); return true; }
    if (auto* l = dyn_cast<LoadInst>(&in)) { I.op = O_LOAD; I.mem = rl; I.a.push_back(op1(l->getPointerOperand())); I.size = DL->getTypeStoreSize(in.getType()); I.align = l->getAlign().value(); I.sub = l->isAtomic(); return true; }
    if (auto* s = dyn_cast<StoreInst>(&in)) { I.op = O_STORE; I.mem = lanesOf(s->getValueOperand()->getType()); I.a.push_back(op1(s->getPointerOperand())); ops(s->getValueOperand(), I.a);
      for (auto& l : I.mem) if (l.t == T_INT && l.w == 0) return unsup();
      I.size = DL->getTypeStoreSize(s->getValueOperand()->getType()); I.align = s->getAlign().value(); I.sub = s->isAtomic(); return true; }
    if (auto* g = dyn_cast<GetElementPtrInst>(&in)) {
      I.op = O_GEP; I.a.push_back(op1(g->getPointerOperand())); int64_t off = 0;
      if (in.getType()->isVectorTy()) return unsup();
      for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
        const Value* idx = it.getOperand();
        if (StructType* st = it.getStructTypeOrNull()) { off += (uint64_t) DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); continue; }
        int64_t sc = DL->getTypeAllocSize(it.getIndexedType());
        if (auto* ci = dyn_cast<ConstantInt>(idx)) { off += ci->getSExtValue() * sc; continue; }
        I.a.push_back(op1(idx)); I.k.push_back(sc); 
      }
      I.size = off; return true; }
    if (auto* b = dyn_cast<BinaryOperator>(&in)) { I.op = O_BIN; I.sub = b->getOpcode(); ops(b->getOperand(0), I.a); ops(b->getOperand(1), I.a); return true; }
    if (auto* u = dyn_cast<UnaryOperator>(&in)) { I.op = O_FNEG; ops(u->getOperand(0), I.a); return true; }
    if (auto* c = dyn_cast<ICmpInst>(&in)) { I.op = O_ICMP; I.sub = c->getPredicate(); I.ty2 = lanesOf(c->getOperand(0)->getType())[0]; ops(c->getOperand(0), I.a); ops(c->getOperand(1), I.a); return true; }
    if (auto* c = dyn_cast<FCmpInst>(&in)) { I.op = O_FCMP; I.sub = c->getPredicate(); I.ty2 = lanesOf(c->getOperand(0)->getType())[0]; ops(c->getOperand(0), I.a); ops(c->getOperand(1), I.a); return true; }
    if (auto* c = dyn_cast<CastInst>(&in)) {
      I.op = O_CAST; I.sub = c->getOpcode(); Lanes s = lanesOf(c->getOperand(0)->getType()); ops(c->getOperand(0), I.a); I.ty2 = s[0];
      I.mem = s;
      return true; }
    if (isa<SelectInst>(in)) { I.op = O_SELECT; ops(in.getOperand(0), I.a); I.k.push_back(I.a.size()); ops(in.getOperand(1), I.a); ops(in.getOperand(2), I.a); return true; }
    if (isa<FreezeInst>(in)) { I.op = O_FREEZE; ops(in.getOperand(0), I.a); return true; }
    if (auto* s = dyn_cast<ShuffleVectorInst>(&in)) { I.op = O_SHUFFLE; ops(s->getOperand(0), I.a); ops(s->getOperand(1), I.a); for (int m : s->getShuffleMask()) I.k.push_back(m); return true; }
    if (auto* e = dyn_cast<ExtractElementInst>(&in)) {
      ops(e->getVectorOperand(), I.a); 
      if (auto* ci = dyn_cast<ConstantInt>(e->getIndexOperand())) { I.op = O_COPY; int x = I.a[ci->getZExtValue()]; I.a.assign(1, x); }
      else { I.op = O_EXTRACTE; I.a.push_back(op1(e->getIndexOperand())); }
      return true; }
    if (auto* e = dyn_cast<InsertElementInst>(&in)) {
      ops(e->getOperand(0), I.a);
      if (auto* ci = dyn_cast<ConstantInt>(e->getOperand(2))) { I.op = O_COPY; I.a[ci->getZExtValue()] = op1(e->getOperand(1)); }
      else { I.op = O_INSERTE; I.a.push_back(op1(e->getOperand(1))); I.a.push_back(op1(e->getOperand(2))); }
      return true; }
    if (auto* e = dyn_cast<ExtractValueInst>(&in)) {
      int start = laneIndex(e->getAggregateOperand()->getType(), e->getIndices());
      std::vector<int> all; ops(e->getAggregateOperand(), all); I.op = O_COPY;
      for (int i = 0; i < I.lanes; i++) I.a.push_back(all[start + i]); return true; }
    if (auto* e = dyn_cast<InsertValueInst>(&in)) {
      int start = laneIndex(e->getAggregateOperand()->getType(), e->getIndices());
      ops(e->getAggregateOperand(), I.a); std::vector<int> v; ops(e->getInsertedValueOperand(), v); I.op = O_COPY;
      for (size_t i = 0; i < v.size(); i++) I.a[start + i] = v[i]; return true; }
    if (auto* b = dyn_cast<BranchInst>(&in)) {
      if (b->isUnconditional()) { I.op = O_BR; I.e.push_back(edge(in.getParent(), b->getSuccessor(0))); }
      else { I.op = O_CONDBR; I.a.push_back(op1(b->getCondition())); I.e.push_back(edge(in.getParent(), b->getSuccessor(0))); I.e.push_back(edge(in.getParent(), b->getSuccessor(1))); }
      return true; }
    if (auto* s = dyn_cast<SwitchInst>(&in)) {
      I.op = O_SWITCH; I.a.push_back(op1(s->getCondition())); I.e.push_back(edge(in.getParent(), s->getDefaultDest()));
      for (auto& c : s->cases()) { I.k.push_back(c.getCaseValue()->getZExtValue()); I.e.push_back(edge(in.getParent(), c.getCaseSuccessor())); }
      return true; }
    if (isa<ReturnInst>(in)) { I.op = O_RET; if (in.getNumOperands()) ops(in.getOperand(0), I.a); return true; }
    if (isa<UnreachableInst>(in)) { I.op = O_UNREACHABLE; return true; }
    if (isa<ResumeInst>(in)) { I.op = O_RESUME; ops(in.getOperand(0), I.a); return true; }
    if (auto* lp = dyn_cast<LandingPadInst>(&in)) {
      I.op = O_LANDINGPAD; I.cleanup = lp->isCleanup();
      for (unsigned i = 0; i < lp->getNumClauses(); i++) I.clauses.push_back({lp->isFilter(i) ? 1 : 0, lp->isFilter(i) ? 0 : ~constBase(lp->getClause(i))});
      return true; }
    if (auto* cb = dyn_cast<CallBase>(&in)) {
      if (cb->isInlineAsm()) return unsup();
      I.op = O_CALL;
      const Value* cv = cb->getCalledOperand()->stripPointerCasts();
      if (auto* ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliasee()->stripPointerCasts();
      if (auto* fn = dyn_cast<llvm::Function>(cv)) {
        std::string nm = fn->getName().str();
        if (nm.rfind("llvm.lifetime", 0) == 0 || nm.rfind("llvm.dbg", 0) == 0 || nm.rfind("llvm.assume", 0) == 0 || nm.rfind("llvm.experimental.noalias", 0) == 0 || nm.rfind("llvm.prefetch",0) == 0) {
          if (auto* inv = dyn_cast<InvokeInst>(cb)) { I.op = O_BR; I.e.push_back(edge(in.getParent(), inv->getNormalDest())); return true; }
          return false; }
        if (nm.rfind("llvm.fmuladd", 0) == 0 || nm.rfind("llvm.fma.", 0) == 0) { I.op = O_BIN; I.sub = nm[8] == 'a' || nm.rfind("llvm.fma.", 0) == 0 ? 101 : 100; for (int i = 0; i < 3; i++) ops(cb->getArgOperand(i), I.a); return true; }
        I.callee = fmap.at(fn); I.name = nm;
      } else I.a.push_back(op1(cb->getCalledOperand()));
      I.k.clear();
      for (auto& arg : cb->args()) { if (arg->getType()->isMetadataTy()) continue; 
        for (auto& l : lanesOf(arg->getType())) I.mem.push_back(l);
        ops(arg, I.a); }
      if (auto* inv = dyn_cast<InvokeInst>(cb)) { I.e.push_back(edge(in.getParent(), inv->getNormalDest())); I.e.push_back(edge(in.getParent(), inv->getUnwindDest())); }
      return true; }
    if (auto* rm = dyn_cast<AtomicRMWInst>(&in)) { I.op = O_ATOMICRMW; I.sub = rm->getOperation(); I.mem = rl; I.size = DL->getTypeStoreSize(in.getType()); I.a = {op1(rm->getPointerOperand()), op1(rm->getValOperand())}; return true; }
    if (auto* cx = dyn_cast<AtomicCmpXchgInst>(&in)) { I.op = O_CMPXCHG; I.mem = lanesOf(cx->getCompareOperand()->getType()); I.size = I.mem[0].bytes; I.a = {op1(cx->getPointerOperand()), op1(cx->getCompareOperand()), op1(cx->getNewValOperand())}; return true; }
    if (isa<FenceInst>(in)) { I.op = O_FENCE; return true; }
    return unsup();
  }
  int laneIndex(Type* t, ArrayRef<unsigned> idx) {
    int s = 0;
    for (unsigned i : idx) {
      if (auto* st = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < i; j++) s += lanesOf(st->getElementType(j)).size(); t = st->getElementType(i); }
      else if (auto* at = dyn_cast<ArrayType>(t)) { s += i * lanesOf(at->getElementType()).size(); t = at->getElementType(); }
    }
    return s;
  }
};
}
bool loadModule(const std::string& path, ::Module& M, std::string& err) {
  static LLVMContext ctx; SMDiagnostic d;
  static std::unique_ptr<llvm::Module> m;
  m = parseIRFile(path, d, ctx);
  if (!m) { err = d.getMessage().str(); return false; }
  Loader L(M, &m->getDataLayout(), ctx);
  for (auto& g : m->globals()) { L.gmap[&g] = M.globals.size(); ::Global G; G.name = g.getName().str(); M.gidx[G.name] = M.globals.size();
    G.size = g.getValueType()->isSized() ? (uint64_t) L.DL->getTypeAllocSize(g.getValueType()) : 0; G.align = g.getAlign() ? g.getAlign()->value() : 16; G.constant = g.isConstant(); G.tls = g.isThreadLocal(); G.external = g.isDeclaration(); M.globals.push_back(G); }
  for (auto& f : *m) { L.fmap[&f] = M.funcs.size(); Func F; F.name = f.getName().str(); F.pretty = demangle(F.name); F.decl = f.isDeclaration(); M.fidx[F.name] = M.funcs.size(); M.funcs.push_back(std::move(F)); }
  int gi = 0;
  for (auto& g : m->globals()) { ::Global& G = M.globals[gi++]; G.bytes.assign(G.size, 0); G.init.assign(G.size, 0);
    if (g.hasInitializer() && g.getName() != "llvm.global_ctors" && g.getName() != "llvm.used") L.initGlobal(G, g.getInitializer(), 0); }
  int fi = 0;
  for (auto& f : *m) { Func& F = M.funcs[fi++]; if (!f.isDeclaration()) L.function(f, F); }
  if (auto* gc = m->getGlobalVariable("llvm.global_ctors")) if (gc->hasInitializer()) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer()))
    for (unsigned i = 0; i < ca->getNumOperands(); i++) if (auto* fn = dyn_cast<llvm::Function>(ca->getOperand(i)->getOperand(1)->stripPointerCasts())) M.ctors.push_back(L.fmap[fn]);
  return true;
}
