// lower: links LLVM bitcode files, keeps what is reachable from the harness entry and
// lowers every instruction to the flat bytecode that symx executes symbolically.
#include "sxformat.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/IPO/GlobalDCE.h"
#include "llvm/Transforms/IPO/Internalize.h"
#include "llvm/Passes/PassBuilder.h"
#include <map>
#include <set>
#include <thread>
using namespace llvm;

static Writer W;
static const DataLayout* DL;
static std::map<const GlobalVariable*, uint32_t> gidx;
static std::map<const Function*, uint32_t> fidx;
static std::vector<ConstRec> consts;
static std::map<std::tuple<uint32_t,uint32_t,uint64_t>, int32_t> cmap;
static std::vector<std::string> strs;
static std::vector<Inst> code;
static std::vector<int32_t> aux;

static int32_t constOp(uint32_t kind, uint32_t idx, uint64_t val) {
  auto k = std::make_tuple(kind, idx, val);
  auto it = cmap.find(k);
  if (it != cmap.end()) return it->second;
  consts.push_back({kind, idx, val});
  int32_t r = ~(int32_t)(consts.size() - 1);
  cmap[k] = r;
  return r;
}
static uint32_t strId(const std::string& s) { strs.push_back(s); return strs.size() - 1; }

static unsigned leafCount(Type* t) {
  if (t->isVoidTy() || t->isTokenTy() || t->isMetadataTy() || t->isLabelTy()) return 0;
  if (auto* st = dyn_cast<StructType>(t)) { unsigned n = 0; for (auto* e : st->elements()) n += leafCount(e); return n; }
  if (auto* at = dyn_cast<ArrayType>(t)) return at->getNumElements() * leafCount(at->getElementType());
  if (auto* vt = dyn_cast<FixedVectorType>(t)) return vt->getNumElements();
  if (t->isIntegerTy(128)) return 1;
  return 1;
}
static void leafTypes(Type* t, uint64_t off, std::vector<std::pair<Type*, uint64_t>>& out) {
  if (auto* st = dyn_cast<StructType>(t)) {
    auto* sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) leafTypes(st->getElementType(i), off + sl->getElementOffset(i), out);
  } else if (auto* at = dyn_cast<ArrayType>(t)) {
    uint64_t es = DL->getTypeAllocSize(at->getElementType());
    for (unsigned i = 0; i < at->getNumElements(); i++) leafTypes(at->getElementType(), off + i * es, out);
  } else if (auto* vt = dyn_cast<FixedVectorType>(t)) {
    uint64_t es = DL->getTypeAllocSize(vt->getElementType());
    for (unsigned i = 0; i < vt->getNumElements(); i++) leafTypes(vt->getElementType(), off + i * es, out);
  } else out.push_back({t, off});
}
static unsigned bitsOf(Type* t) {
  if (t->isPointerTy()) return 64;
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isFloatTy()) return 32;
  if (t->isDoubleTy()) return 64;
  if (t->isX86_FP80Ty()) return 80;
  return 0;
}

// Resolve a scalar constant to (kind, idx, value).
static bool resolveConst(const Constant* c, ConstRec& r) {
  if (auto* ci = dyn_cast<ConstantInt>(c)) {
    if (ci->getBitWidth() > 64) return false;
    r = {0, 0, ci->getZExtValue()}; return true;
  }
  if (auto* cf = dyn_cast<ConstantFP>(c)) {
    if (cf->getType()->isX86_FP80Ty()) return false;
    r = {0, 0, cf->getValueAPF().bitcastToAPInt().getZExtValue()}; return true;
  }
  if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c)) { r = {0, 0, 0}; return true; }
  if (auto* f = dyn_cast<Function>(c)) { r = {2, fidx.at(f), 0}; return true; }
  if (auto* g = dyn_cast<GlobalVariable>(c)) { r = {1, gidx.at(g), 0}; return true; }
  if (auto* ga = dyn_cast<GlobalAlias>(c)) return resolveConst(ga->getAliasee(), r);
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr:
      return resolveConst(ce->getOperand(0), r);
    case Instruction::GetElementPtr: {
      APInt off(64, 0);
      if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) return false;
      if (!resolveConst(ce->getOperand(0), r)) return false;
      r.val += off.getSExtValue(); return r.kind != 2 || off == 0;
    }
    case Instruction::Add: case Instruction::Sub: {
      ConstRec a, b;
      if (!resolveConst(ce->getOperand(0), a) || !resolveConst(ce->getOperand(1), b)) return false;
      if (ce->getOpcode() == Instruction::Sub) {
        if (b.kind == 0) { r = a; r.val -= b.val; return true; }
        if (a.kind == b.kind && a.idx == b.idx) { r = {0, 0, a.val - b.val}; return true; }
        return false;
      }
      if (b.kind == 0) { r = a; r.val += b.val; return true; }
      if (a.kind == 0) { r = b; r.val += a.val; return true; }
      return false;
    }
    case Instruction::Trunc: {
      if (!resolveConst(ce->getOperand(0), r) || r.kind) return false;
      unsigned b = bitsOf(ce->getType()); if (b < 64) r.val &= (1ull << b) - 1; return true;
    }
    default: return false;
    }
  }
  return false;
}
static Constant* leafConst(Constant* c, unsigned& leaf) {
  Type* t = c->getType();
  if (isa<StructType>(t) || isa<ArrayType>(t) || isa<FixedVectorType>(t)) {
    unsigned n = isa<StructType>(t) ? t->getStructNumElements()
               : isa<ArrayType>(t) ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
    for (unsigned i = 0; i < n; i++) {
      Constant* e = c->getAggregateElement(i);
      unsigned k = leafCount(e->getType());
      if (leaf < k) return leafConst(e, leaf);
      leaf -= k;
    }
    return nullptr;
  }
  return c;
}

struct RelocRec { uint64_t off; uint32_t kind, idx; uint64_t add; };
static void initBytes(const Constant* c, uint64_t off, std::vector<char>& buf, std::vector<RelocRec>& rel) {
  Type* t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || isa<ConstantPointerNull>(c)) return;
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
    StringRef s = cd->getRawDataValues(); memcpy(&buf[off], s.data(), s.size()); return;
  }
  if (auto* ca = dyn_cast<ConstantArray>(c)) {
    uint64_t es = DL->getTypeAllocSize(ca->getType()->getElementType());
    for (unsigned i = 0; i < ca->getNumOperands(); i++) initBytes(ca->getOperand(i), off + i * es, buf, rel);
    return;
  }
  if (auto* cs = dyn_cast<ConstantStruct>(c)) {
    auto* sl = DL->getStructLayout(cs->getType());
    for (unsigned i = 0; i < cs->getNumOperands(); i++) initBytes(cs->getOperand(i), off + sl->getElementOffset(i), buf, rel);
    return;
  }
  if (auto* cv = dyn_cast<ConstantVector>(c)) {
    uint64_t es = DL->getTypeAllocSize(cv->getType()->getElementType());
    for (unsigned i = 0; i < cv->getNumOperands(); i++) initBytes(cv->getOperand(i), off + i * es, buf, rel);
    return;
  }
  if (auto* cf = dyn_cast<ConstantFP>(c)) {
    APInt v = cf->getValueAPF().bitcastToAPInt();
    memcpy(&buf[off], v.getRawData(), (v.getBitWidth() + 7) / 8); return;
  }
  ConstRec r;
  if (!resolveConst(c, r)) { errs() << "lower: unresolvable initializer: " << *c << "\n"; return; }
  uint64_t sz = DL->getTypeStoreSize(t);
  if (r.kind == 0) { memcpy(&buf[off], &r.val, sz > 8 ? 8 : sz); }
  else rel.push_back({off, r.kind, r.idx, r.val});
}

struct FnLower {
  Function& F;
  std::map<const Value*, int32_t> slot;
  std::map<const BasicBlock*, uint32_t> bbpc;
  int32_t nslots = 0;
  struct Fix { size_t where; int kind; const BasicBlock* from; const BasicBlock* to; };
  std::vector<Fix> fixes;
  uint32_t start;
  FnLower(Function& f) : F(f) {}
  int32_t newSlots(unsigned n) { int32_t r = nslots; nslots += n; return r; }
  int32_t op(Value* v, unsigned leaf = 0) {
    if (auto* c = dyn_cast<Constant>(v)) {
      unsigned l = leaf; Constant* lc = leafConst(c, l);
      ConstRec r;
      if (!lc || !resolveConst(lc, r)) { unsup("constant operand"); return constOp(0, 0, 0); }
      unsigned b = bitsOf(lc->getType());
      if (r.kind == 0 && b && b < 64) r.val &= (1ull << b) - 1;
      return constOp(r.kind, r.idx, r.val);
    }
    auto it = slot.find(v);
    if (it == slot.end()) { errs() << "lower: no slot for " << *v << " in " << F.getName() << "\n"; exit(2); }
    return it->second + leaf;
  }
  Inst& emit(uint16_t o, int w = 0, int32_t dst = NOOPND, int32_t a = NOOPND, int32_t b = NOOPND, int32_t c = NOOPND) {
    Inst i; memset(&i, 0, sizeof i);
    i.op = o; i.w = w; i.dst = dst; i.a = a; i.b = b; i.c = c;
    code.push_back(i); return code.back();
  }
  void unsup(const std::string& s) { emit(OP_UNSUP).x = strId(s + " in " + F.getName().str()); }
  void branchFix(size_t where, int kind, const BasicBlock* from, const BasicBlock* to) { fixes.push_back({where, kind, from, to}); }

  void run() {
    start = code.size();
    for (auto& a : F.args()) slot[&a] = newSlots(leafCount(a.getType()));
    for (auto& bb : F) for (auto& i : bb) { unsigned n = leafCount(i.getType()); if (n) slot[&i] = newSlots(n); }
    for (auto& bb : F) {
      bbpc[&bb] = code.size();
      for (auto& i : bb) lower(i);
    }
    // edges
    std::map<std::pair<const BasicBlock*, const BasicBlock*>, uint32_t> edge;
    auto fx = fixes;
    for (auto& f : fx) {
      uint32_t target;
      if (!isa<PHINode>(f.to->front())) target = bbpc[f.to];
      else {
        auto k = std::make_pair(f.from, f.to);
        auto it = edge.find(k);
        if (it != edge.end()) target = it->second;
        else {
          target = code.size(); edge[k] = target;
          std::vector<std::pair<int32_t,int32_t>> mv;
          for (auto& i : *f.to) {
            auto* p = dyn_cast<PHINode>(&i); if (!p) break;
            Value* in = p->getIncomingValueForBlock(f.from);
            if (isa<UndefValue>(in)) { for (unsigned l = 0; l < leafCount(p->getType()); l++) mv.push_back({slot[p] + (int)l, constOp(0,0,0)}); continue; }
            for (unsigned l = 0; l < leafCount(p->getType()); l++) mv.push_back({slot[p] + (int)l, op(in, l)});
          }
          uint32_t ax = aux.size(); aux.push_back(mv.size());
          for (auto& m : mv) { aux.push_back(m.first); aux.push_back(m.second); }
          emit(OP_PHIS).x = ax;
          emit(OP_BR).x = bbpc[f.to];
        }
      }
      if (f.kind == 0) code[f.where].x = target;
      else if (f.kind == 1) code[f.where].imm = target;
      else aux[f.where] = target;
    }
  }
  void call(CallBase& cb) {
    int32_t dst = leafCount(cb.getType()) ? slot[&cb] : NOOPND;
    if (auto* ii = dyn_cast<IntrinsicInst>(&cb)) { if (intrinsic(*ii, dst)) {
        if (auto* inv = dyn_cast<InvokeInst>(&cb)) { emit(OP_BR); branchFix(code.size()-1, 0, inv->getParent(), inv->getNormalDest()); }
        return; } }
    if (cb.isInlineAsm()) {
      auto* ia = cast<InlineAsm>(cb.getCalledOperand());
      if (ia->getAsmString().empty()) { // compiler barrier
        return;
      }
      unsup("inline asm"); return; }
    std::vector<int32_t> args;
    for (unsigned i = 0; i < cb.arg_size(); i++) {
      Value* a = cb.getArgOperand(i);
      if (a->getType()->isMetadataTy()) continue;
      if (cb.isByValArgument(i)) {
        Type* bt = cb.getParamByValType(i);
        uint64_t sz = DL->getTypeAllocSize(bt);
        int32_t t = newSlots(1);
        Inst& al = emit(OP_ALLOCA, 64, t); al.imm = sz; al.x = 16;
        emit(OP_MEMCPY, 0, NOOPND, t, op(a), constOp(0, 0, sz));
        args.push_back(t); continue;
      }
      for (unsigned l = 0; l < leafCount(a->getType()); l++) args.push_back(op(a, l));
    }
    Value* cv = cb.getCalledOperand()->stripPointerCastsAndAliases();
    auto* f = dyn_cast<Function>(cv);
    int32_t cal = f ? (int32_t)fidx.at(f) : op(cb.getCalledOperand());
    auto* inv = dyn_cast<InvokeInst>(&cb);
    uint32_t ax = aux.size();
    aux.push_back(args.size());
    for (auto a : args) aux.push_back(a);
    Inst& in = emit(inv ? OP_INVOKE : OP_CALL, leafCount(cb.getType()), dst, cal);
    in.w2 = f ? 1 : 0; in.x = ax; in.b = cb.getFunctionType()->getNumParams();
    in.imm = cb.getType()->isVoidTy() ? 0 : bitsOf(cb.getType());
    if (inv) {
      aux.push_back(0); branchFix(aux.size() - 1, 2, inv->getParent(), inv->getNormalDest());
      aux.push_back(0); branchFix(aux.size() - 1, 2, inv->getParent(), inv->getUnwindDest());
    }
  }
  bool intrinsic(IntrinsicInst& ii, int32_t dst) {
    unsigned w = bitsOf(ii.getType());
    auto A = [&](int k) { return op(ii.getArgOperand(k)); };
    if (isa<FixedVectorType>(ii.getType())) { unsup("vector intrinsic"); return true; }
    switch (ii.getIntrinsicID()) {
    case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign:
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume:
    case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::donothing:
    case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::var_annotation:
    case Intrinsic::stackrestore: case Intrinsic::vaend: return true;
    case Intrinsic::stacksave: emit(OP_MOV, 64, dst, constOp(0,0,0)); return true;
    case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group:
    case Intrinsic::ssa_copy: emit(OP_MOV, w, dst, A(0)); return true;
    case Intrinsic::is_constant: emit(OP_MOV, 1, dst, constOp(0,0,0)); return true;
    case Intrinsic::objectsize: {
      bool mn = cast<ConstantInt>(ii.getArgOperand(1))->isOne();
      emit(OP_MOV, w, dst, constOp(0,0, mn ? 0 : ~0ull)); return true; }
    case Intrinsic::memcpy: case Intrinsic::memcpy_inline: emit(OP_MEMCPY, 0, NOOPND, A(0), A(1), A(2)); return true;
    case Intrinsic::memmove: emit(OP_MEMMOVE, 0, NOOPND, A(0), A(1), A(2)); return true;
    case Intrinsic::memset: emit(OP_MEMSET, 0, NOOPND, A(0), A(1), A(2)); return true;
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
      uint16_t o = OP_UADDO;
      switch (ii.getIntrinsicID()) {
        case Intrinsic::usub_with_overflow: o = OP_USUBO; break; case Intrinsic::umul_with_overflow: o = OP_UMULO; break;
        case Intrinsic::sadd_with_overflow: o = OP_SADDO; break; case Intrinsic::ssub_with_overflow: o = OP_SSUBO; break;
        case Intrinsic::smul_with_overflow: o = OP_SMULO; break; default: break; }
      emit(o, bitsOf(ii.getArgOperand(0)->getType()), dst, A(0), A(1)); return true; }
    case Intrinsic::umin: emit(OP_UMIN, w, dst, A(0), A(1)); return true;
    case Intrinsic::umax: emit(OP_UMAX, w, dst, A(0), A(1)); return true;
    case Intrinsic::smin: emit(OP_SMIN, w, dst, A(0), A(1)); return true;
    case Intrinsic::smax: emit(OP_SMAX, w, dst, A(0), A(1)); return true;
    case Intrinsic::abs: emit(OP_ABS, w, dst, A(0)); return true;
    case Intrinsic::ctpop: emit(OP_CTPOP, w, dst, A(0)); return true;
    case Intrinsic::ctlz: emit(OP_CTLZ, w, dst, A(0)); return true;
    case Intrinsic::cttz: emit(OP_CTTZ, w, dst, A(0)); return true;
    case Intrinsic::bswap: emit(OP_BSWAP, w, dst, A(0)); return true;
    case Intrinsic::fshl: emit(OP_FSHL, w, dst, A(0), A(1), A(2)); return true;
    case Intrinsic::fshr: emit(OP_FSHR, w, dst, A(0), A(1), A(2)); return true;
    case Intrinsic::uadd_sat: emit(OP_UADDSAT, w, dst, A(0), A(1)); return true;
    case Intrinsic::usub_sat: emit(OP_USUBSAT, w, dst, A(0), A(1)); return true;
    case Intrinsic::eh_typeid_for: emit(OP_EHTYPEID, 32, dst, A(0)); return true;
    case Intrinsic::vastart: emit(OP_VASTART, 0, NOOPND, A(0)); return true;
    case Intrinsic::vacopy: emit(OP_VACOPY, 0, NOOPND, A(0), A(1)); return true;
    case Intrinsic::fmuladd: {
      int32_t t = newSlots(1);
      emit(OP_FMUL, w, t, A(0), A(1)); emit(OP_FADD, w, dst, t, A(2)); return true; }
    case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap: emit(OP_UNREACHABLE); return true;
    case Intrinsic::threadlocal_address: emit(OP_MOV, 64, dst, A(0)); return true;
    default: unsup("intrinsic " + ii.getCalledFunction()->getName().str()); return true;
    }
  }
  void gep(GetElementPtrInst& g) {
    if (g.getType()->isVectorTy()) { unsup("vector gep"); return; }
    int32_t cur = op(g.getPointerOperand()); int64_t cst = 0; int32_t dst = slot[&g];
    struct Dyn { int32_t o; unsigned w; uint64_t sc; };
    std::vector<Dyn> dyn;
    for (auto it = gep_type_begin(g); it != gep_type_end(g); ++it) {
      Value* idx = it.getOperand();
      if (auto* st = it.getStructTypeOrNull()) { cst += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); continue; }
      uint64_t es = DL->getTypeAllocSize(it.getIndexedType());
      if (auto* ci = dyn_cast<ConstantInt>(idx)) cst += ci->getSExtValue() * (int64_t)es;
      else dyn.push_back({op(idx), bitsOf(idx->getType()), es});
    }
    if (dyn.empty()) { emit(OP_GEPC, 64, dst, cur).imm = cst; return; }
    for (size_t i = 0; i < dyn.size(); i++) {
      Inst& in = emit(OP_GEPI, 64, dst, cur, dyn[i].o); in.w2 = dyn[i].w; in.imm = dyn[i].sc; cur = dst;
    }
    if (cst) emit(OP_GEPC, 64, dst, cur).imm = cst;
  }
  void lower(Instruction& I) {
    int32_t dst = leafCount(I.getType()) ? slot[&I] : NOOPND;
    if (auto* b = dyn_cast<BinaryOperator>(&I)) {
      bool vec = isa<FixedVectorType>(b->getType());
      unsigned n = leafCount(b->getType());
      Type* et = b->getType()->getScalarType();
      unsigned w = bitsOf(et);
      uint16_t o;
      switch (b->getOpcode()) {
      case Instruction::Add: o = OP_ADD; break; case Instruction::Sub: o = OP_SUB; break; case Instruction::Mul: o = OP_MUL; break;
      case Instruction::UDiv: o = OP_UDIV; break; case Instruction::SDiv: o = OP_SDIV; break;
      case Instruction::URem: o = OP_UREM; break; case Instruction::SRem: o = OP_SREM; break;
      case Instruction::And: o = OP_AND; break; case Instruction::Or: o = OP_OR; break; case Instruction::Xor: o = OP_XOR; break;
      case Instruction::Shl: o = OP_SHL; break; case Instruction::LShr: o = OP_LSHR; break; case Instruction::AShr: o = OP_ASHR; break;
      case Instruction::FAdd: o = OP_FADD; break; case Instruction::FSub: o = OP_FSUB; break; case Instruction::FMul: o = OP_FMUL; break;
      case Instruction::FDiv: o = OP_FDIV; break; case Instruction::FRem: o = OP_FREM; break;
      default: unsup("binop"); return; }
      if (w > 64) { unsup("wide binop"); return; }
      (void)vec;
      for (unsigned l = 0; l < n; l++) emit(o, w, dst + l, op(b->getOperand(0), l), op(b->getOperand(1), l));
      return;
    }
    switch (I.getOpcode()) {
    case Instruction::FNeg: emit(OP_FNEG, bitsOf(I.getType()), dst, op(I.getOperand(0))); return;
    case Instruction::ICmp: {
      auto& c = cast<ICmpInst>(I); uint16_t o;
      switch (c.getPredicate()) {
      case CmpInst::ICMP_EQ: o = OP_EQ; break; case CmpInst::ICMP_NE: o = OP_NE; break;
      case CmpInst::ICMP_ULT: o = OP_ULT; break; case CmpInst::ICMP_ULE: o = OP_ULE; break;
      case CmpInst::ICMP_UGT: o = OP_UGT; break; case CmpInst::ICMP_UGE: o = OP_UGE; break;
      case CmpInst::ICMP_SLT: o = OP_SLT; break; case CmpInst::ICMP_SLE: o = OP_SLE; break;
      case CmpInst::ICMP_SGT: o = OP_SGT; break; default: o = OP_SGE; break; }
      unsigned w = bitsOf(c.getOperand(0)->getType()->getScalarType());
      if (w > 64) { unsup("wide icmp"); return; }
      for (unsigned l = 0; l < leafCount(I.getType()); l++) emit(o, w, dst + l, op(c.getOperand(0), l), op(c.getOperand(1), l));
      return; }
    case Instruction::FCmp: { unsigned w = bitsOf(I.getOperand(0)->getType()); if (w != 32 && w != 64) { unsup("fcmp width"); return; }
      emit(OP_FCMP, w, dst, op(I.getOperand(0)), op(I.getOperand(1))).x = cast<FCmpInst>(I).getPredicate(); return; }
    case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: {
      uint16_t o = I.getOpcode() == Instruction::ZExt ? OP_ZEXT : I.getOpcode() == Instruction::SExt ? OP_SEXT : OP_TRUNC;
      unsigned w = bitsOf(I.getType()->getScalarType()), w2 = bitsOf(I.getOperand(0)->getType()->getScalarType());
      if (w > 64 || w2 > 64) { unsup("wide cast"); return; }
      for (unsigned l = 0; l < leafCount(I.getType()); l++) emit(o, w, dst + l, op(I.getOperand(0), l)).w2 = w2;
      return; }
    case Instruction::PtrToInt: case Instruction::IntToPtr: {
      unsigned w = bitsOf(I.getType()), w2 = bitsOf(I.getOperand(0)->getType());
      emit(w < w2 ? OP_TRUNC : OP_ZEXT, w, dst, op(I.getOperand(0))).w2 = w2; return; }
    case Instruction::BitCast:
      if (leafCount(I.getType()) != leafCount(I.getOperand(0)->getType())) { unsup("bitcast vector"); return; }
      for (unsigned l = 0; l < leafCount(I.getType()); l++) emit(OP_MOV, 0, dst + l, op(I.getOperand(0), l)); return;
    case Instruction::Freeze:
      for (unsigned l = 0; l < leafCount(I.getType()); l++) emit(OP_MOV, 0, dst + l, op(I.getOperand(0), l)); return;
    case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPExt: case Instruction::FPTrunc: {
      uint16_t o = OP_FPTOSI;
      switch (I.getOpcode()) { case Instruction::FPToUI: o = OP_FPTOUI; break; case Instruction::SIToFP: o = OP_SITOFP; break;
        case Instruction::UIToFP: o = OP_UITOFP; break; case Instruction::FPExt: o = OP_FPEXT; break; case Instruction::FPTrunc: o = OP_FPTRUNC; break; default: break; }
      unsigned w = bitsOf(I.getType()), w2 = bitsOf(I.getOperand(0)->getType());
      if (w > 64 || w2 > 64 || !w || !w2) { unsup("fp cast"); return; }
      emit(o, w, dst, op(I.getOperand(0))).w2 = w2; return; }
    case Instruction::GetElementPtr: gep(cast<GetElementPtrInst>(I)); return;
    case Instruction::Load: case Instruction::Store: {
      bool ld = I.getOpcode() == Instruction::Load;
      Type* t = ld ? I.getType() : I.getOperand(0)->getType();
      std::vector<std::pair<Type*, uint64_t>> ls; leafTypes(t, 0, ls);
      int32_t p = op(I.getOperand(ld ? 0 : 1));
      for (unsigned l = 0; l < ls.size(); l++) {
        unsigned w = bitsOf(ls[l].first); int32_t q = p;
        if (w > 64 || !w) { unsup("wide load/store"); return; }
        if (ls[l].second) { q = newSlots(1); emit(OP_GEPC, 64, q, p).imm = ls[l].second; }
        if (ld) emit(OP_LOAD, w, dst + l, q);
        else {
          if (isa<UndefValue>(I.getOperand(0)) && !isa<PoisonValue>(I.getOperand(0))) continue;
          emit(OP_STORE, w, NOOPND, op(I.getOperand(0), l), q);
        }
      }
      return; }
    case Instruction::Alloca: {
      auto& a = cast<AllocaInst>(I);
      uint64_t sz = DL->getTypeAllocSize(a.getAllocatedType());
      int32_t cnt = NOOPND;
      if (auto* ci = dyn_cast<ConstantInt>(a.getArraySize())) sz *= ci->getZExtValue(); else cnt = op(a.getArraySize());
      Inst& in = emit(OP_ALLOCA, 64, dst, NOOPND, cnt); in.imm = sz; in.x = a.getAlign().value(); return; }
    case Instruction::Br: {
      auto& b = cast<BranchInst>(I);
      if (b.isUnconditional()) { emit(OP_BR); branchFix(code.size() - 1, 0, I.getParent(), b.getSuccessor(0)); }
      else { int32_t c = op(b.getCondition()); emit(OP_CBR, 1, NOOPND, c); size_t k = code.size() - 1;
        branchFix(k, 0, I.getParent(), b.getSuccessor(0)); branchFix(k, 1, I.getParent(), b.getSuccessor(1)); }
      return; }
    case Instruction::Switch: {
      auto& s = cast<SwitchInst>(I); int32_t c = op(s.getCondition());
      uint32_t ax = aux.size(); aux.push_back(s.getNumCases());
      emit(OP_SWITCH, bitsOf(s.getCondition()->getType()), NOOPND, c).x = ax;
      for (auto& cs : s.cases()) {
        uint64_t v = cs.getCaseValue()->getZExtValue();
        aux.push_back((int32_t)(uint32_t)v); aux.push_back((int32_t)(uint32_t)(v >> 32));
        aux.push_back(0); branchFix(aux.size() - 1, 2, I.getParent(), cs.getCaseSuccessor());
      }
      aux.push_back(0); branchFix(aux.size() - 1, 2, I.getParent(), s.getDefaultDest());
      return; }
    case Instruction::PHI: return;
    case Instruction::Select: {
      auto& s = cast<SelectInst>(I);
      bool vc = s.getCondition()->getType()->isVectorTy();
      for (unsigned l = 0; l < leafCount(I.getType()); l++)
        emit(OP_SELECT, bitsOf(I.getType()->getScalarType()), dst + l, op(s.getCondition(), vc ? l : 0), op(s.getTrueValue(), l), op(s.getFalseValue(), l));
      return; }
    case Instruction::Call: case Instruction::Invoke: call(cast<CallBase>(I)); return;
    case Instruction::Ret: {
      auto& r = cast<ReturnInst>(I); uint32_t ax;
      std::vector<int32_t> v;
      if (r.getReturnValue()) for (unsigned l = 0; l < leafCount(r.getReturnValue()->getType()); l++) v.push_back(op(r.getReturnValue(), l));
      ax = aux.size(); aux.push_back(v.size()); for (auto x : v) aux.push_back(x);
      emit(OP_RET).x = ax; return; }
    case Instruction::Unreachable: emit(OP_UNREACHABLE); return;
    case Instruction::ExtractValue: {
      auto& e = cast<ExtractValueInst>(I); Type* t = e.getAggregateOperand()->getType(); unsigned off = 0;
      for (unsigned k : e.indices()) {
        if (auto* st = dyn_cast<StructType>(t)) { for (unsigned i = 0; i < k; i++) off += leafCount(st->getElementType(i)); t = st->getElementType(k); }
        else { auto* at = cast<ArrayType>(t); off += k * leafCount(at->getElementType()); t = at->getElementType(); } }
      for (unsigned l = 0; l < leafCount(I.getType()); l++) emit(OP_MOV, 0, dst + l, op(e.getAggregateOperand(), off + l));
      return; }
    case Instruction::InsertValue: {
      auto& e = cast<InsertValueInst>(I); Type* t = e.getType(); unsigned off = 0;
      for (unsigned k : e.indices()) {
        if (auto* st = dyn_cast<StructType>(t)) { for (unsigned i = 0; i < k; i++) off += leafCount(st->getElementType(i)); t = st->getElementType(k); }
        else { auto* at = cast<ArrayType>(t); off += k * leafCount(at->getElementType()); t = at->getElementType(); } }
      unsigned n = leafCount(I.getType()), m = leafCount(e.getInsertedValueOperand()->getType());
      for (unsigned l = 0; l < n; l++) {
        if (l >= off && l < off + m) emit(OP_MOV, 0, dst + l, op(e.getInsertedValueOperand(), l - off));
        else emit(OP_MOV, 0, dst + l, op(e.getAggregateOperand(), l)); }
      return; }
    case Instruction::ExtractElement: {
      auto* ci = dyn_cast<ConstantInt>(I.getOperand(1)); if (!ci) { unsup("extractelement"); return; }
      emit(OP_MOV, 0, dst, op(I.getOperand(0), ci->getZExtValue())); return; }
    case Instruction::InsertElement: {
      auto* ci = dyn_cast<ConstantInt>(I.getOperand(2)); if (!ci) { unsup("insertelement"); return; }
      for (unsigned l = 0; l < leafCount(I.getType()); l++)
        emit(OP_MOV, 0, dst + l, l == ci->getZExtValue() ? op(I.getOperand(1)) : op(I.getOperand(0), l));
      return; }
    case Instruction::ShuffleVector: {
      auto& s = cast<ShuffleVectorInst>(I); unsigned n = leafCount(I.getType()), m = leafCount(s.getOperand(0)->getType());
      for (unsigned l = 0; l < n; l++) { int k = s.getMaskValue(l); if (k < 0) k = 0;
        emit(OP_MOV, 0, dst + l, (unsigned)k < m ? op(s.getOperand(0), k) : op(s.getOperand(1), k - m)); }
      return; }
    case Instruction::LandingPad: {
      auto& lp = cast<LandingPadInst>(I); std::vector<int32_t> v;
      v.push_back(lp.isCleanup()); v.push_back(lp.getNumClauses());
      for (unsigned i = 0; i < lp.getNumClauses(); i++) {
        if (lp.isCatch(i)) { v.push_back(0); v.push_back(op(lp.getClause(i))); }
        else { v.push_back(1); Constant* c = lp.getClause(i); unsigned n = c->getType()->getArrayNumElements();
          v.push_back(n); for (unsigned k = 0; k < n; k++) v.push_back(op(c, k)); } }
      uint32_t ax = aux.size(); for (auto x : v) aux.push_back(x);
      emit(OP_LANDINGPAD, 0, dst).x = ax; return; }
    case Instruction::Resume: emit(OP_RESUME, 0, NOOPND, op(I.getOperand(0), 0), op(I.getOperand(0), 1)); return;
    case Instruction::Fence: return;
    case Instruction::AtomicRMW: { auto& a = cast<AtomicRMWInst>(I);
      emit(OP_RMW, bitsOf(I.getType()), dst, op(a.getPointerOperand()), op(a.getValOperand())).x = a.getOperation(); return; }
    case Instruction::AtomicCmpXchg: { auto& a = cast<AtomicCmpXchgInst>(I);
      emit(OP_CMPXCHG, bitsOf(a.getNewValOperand()->getType()), dst, op(a.getPointerOperand()), op(a.getCompareOperand()), op(a.getNewValOperand())); return; }
    default: unsup(std::string("instruction ") + I.getOpcodeName()); return;
    }
  }
};

int main(int argc, char** argv) {
  if (argc < 4) { fprintf(stderr, "usage: lower out.sx entry a.bc...\n"); return 2; }
  LLVMContext ctx; SMDiagnostic err;
  std::unique_ptr<Module> M;
  for (int i = 3; i < argc; i++) {
    auto m = parseIRFile(argv[i], err, ctx);
    if (!m) { err.print("lower", errs()); return 2; }
    if (!M) M = std::move(m);
    else if (Linker::linkModules(*M, std::move(m), Linker::Flags::OverrideFromSrc)) { errs() << "link failed: " << argv[i] << "\n"; return 2; }
  }
  std::string entry = argv[2];
  { // NAME -> m_NAME redirection: every external the model environment defines replaces the real one
    std::vector<std::pair<GlobalValue*, GlobalValue*>> todo;
    auto look = [&](GlobalValue& g) { if (g.isDeclaration() || !g.getName().starts_with("m_")) return; GlobalValue* o = M->getNamedValue(g.getName().drop_front(2)); if (o && o->isDeclaration()) todo.push_back({o, &g}); };
    for (auto& f : *M) look(f); for (auto& g : M->globals()) look(g);
    for (auto& p : todo) p.first->replaceAllUsesWith(p.second);
  }
  internalizeModule(*M, [&](const GlobalValue& gv) { return gv.getName() == entry || gv.getName().starts_with("sxkeep_"); });
  {
    PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM; MPM.addPass(GlobalDCEPass()); MPM.run(*M, MAM);
  }
  DL = &M->getDataLayout();
  std::vector<GlobalVariable*> gs; std::vector<Function*> fs;
  for (auto& g : M->globals()) { gidx[&g] = gs.size(); gs.push_back(&g); }
  for (auto& f : *M) { fidx[&f] = fs.size(); fs.push_back(&f); }
  W.raw("SX01", 4);
  // globals
  W.u32(gs.size());
  for (auto* g : gs) {
    W.str(g->getName().str());
    uint64_t sz = g->getValueType()->isSized() ? DL->getTypeAllocSize(g->getValueType()).getFixedValue() : 0;
    W.u64(sz); W.u32(g->isDeclaration()); W.u32(g->isConstant());
    std::vector<char> buf(sz + 16, 0); std::vector<RelocRec> rel;
    bool special = g->getName().starts_with("llvm.");
    if (g->hasInitializer()) {
      if (g->getName() == "llvm.global_ctors" || !special) initBytes(g->getInitializer(), 0, buf, rel);
    }
    bool zero = true; for (uint64_t i = 0; i < sz; i++) if (buf[i]) { zero = false; break; }
    W.u32(zero); if (!zero) W.raw(buf.data(), sz);
    W.u32(rel.size()); for (auto& r : rel) { W.u64(r.off); W.u32(r.kind); W.u32(r.idx); W.u64(r.add); }
  }
  // functions
  Writer FW;
  for (auto* f : fs) {
    FW.str(f->getName().str());
    if (f->isDeclaration()) { FW.u32(1); FW.u32(f->isVarArg()); FW.u32(f->getFunctionType()->getNumParams()); continue; }
    FnLower L(*f); L.run();
    unsigned np = 0; for (auto& a : f->args()) np += leafCount(a.getType());
    FW.u32(0); FW.u32(f->isVarArg()); FW.u32(np); FW.u32(L.nslots); FW.u32(L.start); FW.u32(code.size() - L.start);
  }
  W.u32(fs.size()); W.raw(FW.buf.data(), FW.buf.size());
  W.u32(consts.size()); for (auto& c : consts) { W.u32(c.kind); W.u32(c.idx); W.u64(c.val); }
  W.u32(strs.size()); for (auto& s : strs) W.str(s);
  W.u32(code.size()); W.raw(code.data(), code.size() * sizeof(Inst));
  W.u32(aux.size()); W.raw(aux.data(), aux.size() * 4);
  FILE* o = fopen(argv[1], "wb"); if (!o) { perror(argv[1]); return 2; }
  fwrite(W.buf.data(), 1, W.buf.size(), o); fclose(o);
  fflush(nullptr); _Exit(0);
}
