// LLVM pass plugin: turns a module of the code under test into one that carries, beside every
// integer / double SSA value, the id of a symbolic expression describing it (0 = concrete).
//   sv-models : replaces hash functions by a constant and pair<double,bool> comparisons / min / max
//               by branch-free (merged) runtime models with the same meaning
//   sv-instr  : the instrumentation itself
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/ADT/SmallVector.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/PassManager.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/Local.h"
#include <map>
#include <set>
#include <string>
#include <fstream>
using namespace llvm;

namespace {
typedef SmallVector<Value *, 2> Sh;

static std::string dem(const Function &F) { return demangle(F.getName().str()); }

// ---------------------------------------------------------------- models
struct Models : PassInfoMixin<Models> {
  static void constBody(Function &F, uint64_t v) {
    F.deleteBody();
    F.setComdat(nullptr);
    F.setLinkage(GlobalValue::InternalLinkage);
    F.removeFnAttr(Attribute::NoInline);
    BasicBlock *bb = BasicBlock::Create(F.getContext(), "e", &F);
    ReturnInst::Create(F.getContext(), ConstantInt::get(F.getReturnType(), v), bb);
  }
  static void forward(Function &F, const char *name) {
    Module &M = *F.getParent();
    auto callee = M.getOrInsertFunction(name, F.getFunctionType());
    F.deleteBody();
    F.setComdat(nullptr);
    F.setLinkage(GlobalValue::InternalLinkage);
    // drop parameter / return attributes that would not hold for the model
    F.setAttributes(AttributeList());
    BasicBlock *bb = BasicBlock::Create(F.getContext(), "e", &F);
    IRBuilder<> B(bb);
    SmallVector<Value *, 4> args;
    for (auto &a : F.args()) args.push_back(&a);
    auto *c = B.CreateCall(callee, args);
    if (F.getReturnType()->isVoidTy()) B.CreateRetVoid(); else B.CreateRet(c);
  }
  PreservedAnalyses run(Module &M, ModuleAnalysisManager &) {
    const std::string P = "std::pair<double, bool>";
    if (const char *o = getenv("SV_PASS_NAMES")) { std::ofstream os(o); for (auto &F : M) if (!F.isDeclaration()) os << "F " << dem(F) << "\n"; }
    for (auto &F : M) {
      if (F.isDeclaration()) continue;
      std::string d = dem(F);
      if (F.getReturnType()->isIntegerTy() &&
          (d.find("hash_value(") != std::string::npos || d.find("hash_value<") != std::string::npos ||
           (d.find("hash<") != std::string::npos && d.find("::operator()") != std::string::npos &&
            d.find("_Hash") == std::string::npos && F.getReturnType()->isIntegerTy(64) &&
            d.rfind("std::hash<", 0) != 0 && d.rfind("boost::hash<", 0) == 0))) {
        // pointers and plain integers keep their hash; everything else is hashed to one bucket
        bool ptrOnly = d.find("hash<std::shared_ptr") != std::string::npos || d.find("*>::operator()") != std::string::npos;
        // (SV_REALHASH: user hash functions stay as they are, hashing concretizes what it reads)
        if (!ptrOnly && !getenv("SV_REALHASH")) constBody(F, 0);
        continue;
      }
      auto is = [&](const std::string &n) { return d == n; };
      std::string a2 = "(" + P + " const&, " + P + " const&)";
      if (is(P + " const& std::min<" + P + " >" + a2) || is(P + " const& std::min<" + P + ">" + a2)) forward(F, "sv_model_pmin");
      else if (is(P + " const& std::max<" + P + " >" + a2) || is(P + " const& std::max<" + P + ">" + a2)) forward(F, "sv_model_pmax");
      else {
        static const std::pair<const char *, const char *> ops[] = {
            {"<", "sv_model_plt"}, {">", "sv_model_pgt"}, {"<=", "sv_model_ple"},
            {">=", "sv_model_pge"}, {"==", "sv_model_peq"}, {"!=", "sv_model_pne"}};
        for (auto &o : ops) {
          std::string b = std::string("bool std::operator") + o.first;
          if (is(b + "<double, bool>" + a2) || is(b + " <double, bool>" + a2)) { forward(F, o.second); break; }
        }
      }
    }
    return PreservedAnalyses::none();
  }
  static bool isRequired() { return true; }
};

// ---------------------------------------------------------------- instrumentation
struct Instr : PassInfoMixin<Instr> {
  Module *M; LLVMContext *C; const DataLayout *DL;
  Type *I8, *I32, *I64, *Dbl, *Ptr, *Void;
  Constant *Z;
  FunctionCallee fBin, fFBin, fICmp, fFCmp, fCast, fSiToFp, fUiToFp, fFpToSi, fFpToUi, fSelI, fSelD, fBr, fEqBr, fLoad, fStore,
      fClear, fConcI, fConcD, fConcMem, fCopy, fMove, fSet, fFUn, fMinMax, fAbs, fByval, fAllocClear, fBitsOf, fOfBits, fConcP;
  GlobalVariable *gArgs, *gRet, *gCallee, *gByval;
  std::set<std::string> externals;

  FunctionCallee fn(const char *n, Type *r, ArrayRef<Type *> a) {
    return M->getOrInsertFunction(n, FunctionType::get(r, a, false));
  }
  void init(Module &m) {
    M = &m; C = &m.getContext(); DL = &m.getDataLayout();
    I8 = Type::getInt8Ty(*C); I32 = Type::getInt32Ty(*C); I64 = Type::getInt64Ty(*C); Dbl = Type::getDoubleTy(*C);
    Ptr = PointerType::getUnqual(*C); Void = Type::getVoidTy(*C); Z = ConstantInt::get(I32, 0);
    fBin = fn("svrt_bin", I32, {I32, I32, I64, I32, I64, I32});
    fFBin = fn("svrt_fbin", I32, {I32, Dbl, I32, Dbl, I32});
    fICmp = fn("svrt_icmp", I32, {I32, I32, I64, I32, I64, I32});
    fFCmp = fn("svrt_fcmp", I32, {I32, Dbl, I32, Dbl, I32});
    fCast = fn("svrt_cast", I32, {I32, I32, I32, I64, I32});
    fSiToFp = fn("svrt_sitofp", I32, {I32, I64, I32});
    fUiToFp = fn("svrt_uitofp", I32, {I32, I64, I32});
    fFpToSi = fn("svrt_fptosi", I32, {I32, Dbl, I32});
    fFpToUi = fn("svrt_fptoui", I32, {I32, Dbl, I32});
    fSelI = fn("svrt_seli", I32, {I32, I32, I32, I64, I32, I64, I32});
    fSelD = fn("svrt_seld", I32, {I32, I32, Dbl, I32, Dbl, I32});
    fBr = fn("svrt_br", Void, {I32, I32});
    fEqBr = fn("svrt_eqbr", Void, {I32, I64, I32, I64});
    fLoad = fn("svrt_load", I32, {Ptr, I32, I32});
    fStore = fn("svrt_store", Void, {Ptr, I32, I64, I32});
    fClear = fn("svrt_clear", Void, {Ptr, I64});
    fConcI = fn("svrt_conci", Void, {I32, I64, I32});
    fConcD = fn("svrt_concd", Void, {Dbl, I32});
    fConcMem = fn("svrt_concmem", Void, {Ptr, I64});
    fCopy = fn("svrt_copy", Void, {Ptr, Ptr, I64});
    fSet = fn("svrt_set", Void, {Ptr, I64, I32, I32});
    fFUn = fn("svrt_fun", I32, {I32, Dbl, I32});
    fMinMax = fn("svrt_minmax", I32, {I32, I32, I64, I32, I64, I32});
    fAllocClear = fn("svrt_clear", Void, {Ptr, I64});
    fBitsOf = fn("svrt_bitsof", I32, {Dbl, I32});
    fOfBits = fn("svrt_ofbits", I32, {I64, I32});
    auto arr = [&](const char *n, Type *t) {
      return cast<GlobalVariable>(M->getOrInsertGlobal(n, t));
    };
    gArgs = arr("svrt_args", ArrayType::get(I32, 512));
    gRet = arr("svrt_ret", ArrayType::get(I32, 64));
    gCallee = arr("svrt_callee", Ptr);
    gByval = arr("svrt_byval", ArrayType::get(Ptr, 64));
  }
  static bool supI(Type *T) { return T->isIntegerTy() && T->getIntegerBitWidth() <= 64; }
  bool sup(Type *T) { return supI(T) || T->isDoubleTy(); }
  void leaves(Type *T, SmallVectorImpl<Type *> &o) {
    if (auto *S = dyn_cast<StructType>(T)) { for (auto *e : S->elements()) leaves(e, o); }
    else if (auto *A = dyn_cast<ArrayType>(T)) { for (uint64_t i = 0; i < A->getNumElements(); i++) leaves(A->getElementType(), o); }
    else if (!T->isVoidTy()) o.push_back(T);
  }
  unsigned nleaves(Type *T) { SmallVector<Type *, 4> v; leaves(T, v); return v.size(); }
  unsigned leafOffset(Type *T, ArrayRef<unsigned> idx, Type *&out) {
    unsigned off = 0;
    for (unsigned i : idx) {
      if (auto *S = dyn_cast<StructType>(T)) {
        for (unsigned k = 0; k < i; k++) off += nleaves(S->getElementType(k));
        T = S->getElementType(i);
      } else { auto *A = cast<ArrayType>(T); off += i * nleaves(A->getElementType()); T = A->getElementType(); }
    }
    out = T; return off;
  }

  std::map<Value *, Sh> sh;
  Function *F;
  Sh zeros(Type *T) { return Sh(nleaves(T), Z); }
  Sh shadow(Value *v) {
    auto it = sh.find(v);
    if (it != sh.end()) return it->second;
    return zeros(v->getType());
  }
  Value *s1(Value *v) { Sh s = shadow(v); return s.size() == 1 ? s[0] : (Value *)Z; }
  bool zero(Value *s) { return s == Z; }
  Value *c32(uint64_t v) { return ConstantInt::get(I32, v); }
  Value *c64(uint64_t v) { return ConstantInt::get(I64, v); }
  Value *bits64(IRBuilder<> &B, Value *v) {
    Type *T = v->getType();
    if (T->isIntegerTy(64)) return v;
    if (T->isIntegerTy()) return B.CreateZExt(v, I64);
    if (T->isDoubleTy()) return B.CreateBitCast(v, I64);
    return c64(0);
  }
  Value *argSlot(IRBuilder<> &B, unsigned i) { return B.CreateConstInBoundsGEP2_32(gArgs->getValueType(), gArgs, 0, i); }
  Value *retSlot(IRBuilder<> &B, unsigned i) { return B.CreateConstInBoundsGEP2_32(gRet->getValueType(), gRet, 0, i); }

  void concretize(IRBuilder<> &B, Value *v) {
    SmallVector<Type *, 4> lv; leaves(v->getType(), lv);
    Sh s = shadow(v);
    for (unsigned i = 0; i < s.size(); i++) {
      if (zero(s[i])) continue;
      if (lv.size() == 1 && lv[0] == v->getType()) {
        if (supI(lv[0])) B.CreateCall(fConcI, {c32(lv[0]->getIntegerBitWidth()), bits64(B, v), s[i]});
        else if (lv[0]->isDoubleTy()) B.CreateCall(fConcD, {v, s[i]});
      } else {
        // aggregate leaf: the runtime knows the value of the expression itself
        B.CreateCall(fConcI, {c32(0), c64(0), s[i]});
      }
    }
  }
  unsigned szOf(Type *T) { return DL->getTypeStoreSize(T).getFixedValue(); }

  void doLoad(LoadInst *L) {
    Type *T = L->getType();
    IRBuilder<> B(L->getNextNode());
    if (T->isPointerTy()) return;
    if (sup(T)) { sh[L] = {B.CreateCall(fLoad, {L->getPointerOperand(), c32(szOf(T)), c32(T->isDoubleTy() ? 0 : T->getIntegerBitWidth())})}; return; }
    if (T->isAggregateType()) {
      Sh r; SmallVector<std::pair<Type *, uint64_t>, 4> fl; flat(T, 0, fl);
      for (auto &p : fl) {
        if (!sup(p.first)) { r.push_back(Z); continue; }
        Value *a = B.CreatePtrAdd(L->getPointerOperand(), c64(p.second));
        r.push_back(B.CreateCall(fLoad, {a, c32(szOf(p.first)), c32(p.first->isDoubleTy() ? 0 : p.first->getIntegerBitWidth())}));
      }
      sh[L] = r; return;
    }
    B.CreateCall(fConcMem, {L->getPointerOperand(), c64(szOf(T))});
  }
  void flat(Type *T, uint64_t off, SmallVectorImpl<std::pair<Type *, uint64_t>> &o) {
    if (auto *S = dyn_cast<StructType>(T)) {
      auto *SL = DL->getStructLayout(S);
      for (unsigned i = 0; i < S->getNumElements(); i++) flat(S->getElementType(i), off + SL->getElementOffset(i).getFixedValue(), o);
    } else if (auto *A = dyn_cast<ArrayType>(T)) {
      for (uint64_t i = 0; i < A->getNumElements(); i++) flat(A->getElementType(), off + i * DL->getTypeAllocSize(A->getElementType()).getFixedValue(), o);
    } else o.push_back({T, off});
  }
  void doStore(StoreInst *S) {
    Value *v = S->getValueOperand(); Type *T = v->getType();
    IRBuilder<> B(S->getNextNode());
    if (sup(T)) { Value *s = s1(v);
      if (zero(s)) B.CreateCall(fClear, {S->getPointerOperand(), c64(szOf(T))});
      else B.CreateCall(fStore, {S->getPointerOperand(), c32(szOf(T)), bits64(B, v), s});
      return; }
    if (T->isAggregateType()) {
      SmallVector<std::pair<Type *, uint64_t>, 4> fl; flat(T, 0, fl); Sh s = shadow(v);
      B.CreateCall(fClear, {S->getPointerOperand(), c64(szOf(T))});
      for (unsigned i = 0; i < fl.size(); i++) {
        if (zero(s[i])) continue;
        Value *a = B.CreatePtrAdd(S->getPointerOperand(), c64(fl[i].second));
        B.CreateCall(fStore, {a, c32(szOf(fl[i].first)), c64(0), B.CreateOr(s[i], c32(0))});
      }
      return;
    }
    B.CreateCall(fClear, {S->getPointerOperand(), c64(szOf(T))});
  }
  Value *selSh(IRBuilder<> &B, Value *c, Value *sc, Value *t, Value *st, Value *f, Value *sf) {
    Type *T = t->getType();
    if (zero(sc)) { if (zero(st) && zero(sf)) return Z; return B.CreateSelect(c, st, sf); }
    Value *cc = B.CreateZExt(c, I32);
    if (supI(T)) return B.CreateCall(fSelI, {c32(T->getIntegerBitWidth()), cc, sc, bits64(B, t), st, bits64(B, f), sf});
    return B.CreateCall(fSelD, {cc, sc, t, st, f, sf});
  }
  static bool isSvApi(StringRef n) { return n.starts_with("sv_"); }

  // returns true when the call was entirely handled (result shadow set)
  bool intrinsicLike(CallBase *CB) {
    Function *cf = CB->getCalledFunction();
    if (!cf) return false;
    StringRef n = cf->getName();
    IRBuilder<> B(CB->getNextNode() ? CB->getNextNode() : CB);
    Instruction *next = isa<InvokeInst>(CB) ? nullptr : CB->getNextNode();
    auto after = [&]() -> IRBuilder<> { return IRBuilder<>(next); };
    auto before = [&]() -> IRBuilder<> { return IRBuilder<>(CB); };
    if (auto *II = dyn_cast<IntrinsicInst>(CB)) {
      switch (II->getIntrinsicID()) {
      case Intrinsic::memcpy: case Intrinsic::memcpy_inline: case Intrinsic::memmove: {
        auto b = before(); concretize(b, CB->getArgOperand(2));
        b.CreateCall(fCopy, {CB->getArgOperand(0), CB->getArgOperand(1), b.CreateZExtOrTrunc(CB->getArgOperand(2), I64)}); return true; }
      case Intrinsic::memset: {
        auto b = before(); concretize(b, CB->getArgOperand(2));
        b.CreateCall(fSet, {CB->getArgOperand(0), b.CreateZExtOrTrunc(CB->getArgOperand(2), I64), b.CreateZExt(CB->getArgOperand(1), I32), s1(CB->getArgOperand(1))}); return true; }
      case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl:
      case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::donothing: case Intrinsic::trap:
      case Intrinsic::stacksave: case Intrinsic::stackrestore: case Intrinsic::eh_typeid_for: case Intrinsic::invariant_start:
      case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group:
        return true;
      case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::ssa_copy:
        sh[CB] = shadow(CB->getArgOperand(0)); return true;
      case Intrinsic::fabs: case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::round: case Intrinsic::rint: case Intrinsic::nearbyint:
        if (!CB->getType()->isDoubleTy()) break;
        { Value *s = s1(CB->getArgOperand(0)); if (zero(s)) return true;
          unsigned k = II->getIntrinsicID() == Intrinsic::fabs ? 0 : II->getIntrinsicID() == Intrinsic::floor ? 1 : II->getIntrinsicID() == Intrinsic::ceil ? 2 :
                       II->getIntrinsicID() == Intrinsic::trunc ? 3 : II->getIntrinsicID() == Intrinsic::round ? 4 : 5;
          auto b = before(); sh[CB] = {b.CreateCall(fFUn, {c32(k), CB->getArgOperand(0), s})}; return true; }
      case Intrinsic::fmuladd: case Intrinsic::fma: {
        if (!CB->getType()->isDoubleTy()) break;
        auto b = before(); Value *x = CB->getArgOperand(0), *y = CB->getArgOperand(1), *z = CB->getArgOperand(2);
        Value *m = b.CreateCall(fFBin, {c32(2), x, s1(x), y, s1(y)});
        sh[CB] = {b.CreateCall(fFBin, {c32(0), b.CreateFMul(x, y), m, z, s1(z)})}; return true; }
      case Intrinsic::minnum: case Intrinsic::maxnum: case Intrinsic::minimum: case Intrinsic::maximum: {
        if (!CB->getType()->isDoubleTy()) break;
        auto b = before(); Value *x = CB->getArgOperand(0), *y = CB->getArgOperand(1);
        if (zero(s1(x)) && zero(s1(y))) return true;
        bool mn = II->getIntrinsicID() == Intrinsic::minnum || II->getIntrinsicID() == Intrinsic::minimum;
        Value *c = mn ? b.CreateFCmpOLT(x, y) : b.CreateFCmpOLT(y, x);
        Value *sc = b.CreateCall(fFCmp, {c32(CmpInst::FCMP_OLT), mn ? x : y, mn ? s1(x) : s1(y), mn ? y : x, mn ? s1(y) : s1(x)});
        sh[CB] = {b.CreateCall(fSelD, {b.CreateZExt(c, I32), sc, x, s1(x), y, s1(y)})}; return true; }
      case Intrinsic::smin: case Intrinsic::smax: case Intrinsic::umin: case Intrinsic::umax: {
        if (!supI(CB->getType())) break;
        auto b = before(); Value *x = CB->getArgOperand(0), *y = CB->getArgOperand(1);
        if (zero(s1(x)) && zero(s1(y))) return true;
        auto id = II->getIntrinsicID();
        CmpInst::Predicate p = id == Intrinsic::smin ? CmpInst::ICMP_SLT : id == Intrinsic::smax ? CmpInst::ICMP_SGT : id == Intrinsic::umin ? CmpInst::ICMP_ULT : CmpInst::ICMP_UGT;
        unsigned w = CB->getType()->getIntegerBitWidth();
        Value *c = b.CreateICmp(p, x, y);
        Value *sc = b.CreateCall(fICmp, {c32(p), c32(w), bits64(b, x), s1(x), bits64(b, y), s1(y)});
        sh[CB] = {b.CreateCall(fSelI, {c32(w), b.CreateZExt(c, I32), sc, bits64(b, x), s1(x), bits64(b, y), s1(y)})}; return true; }
      case Intrinsic::abs: {
        if (!supI(CB->getType())) break;
        auto b = before(); Value *x = CB->getArgOperand(0); if (zero(s1(x))) return true;
        unsigned w = CB->getType()->getIntegerBitWidth(); Value *zv = ConstantInt::get(CB->getType(), 0);
        Value *c = b.CreateICmpSLT(x, zv);
        Value *sc = b.CreateCall(fICmp, {c32(CmpInst::ICMP_SLT), c32(w), bits64(b, x), s1(x), c64(0), Z});
        Value *ng = b.CreateSub(zv, x);
        Value *sn = b.CreateCall(fBin, {c32(Instruction::Sub), c32(w), c64(0), Z, bits64(b, x), s1(x)});
        sh[CB] = {b.CreateCall(fSelI, {c32(w), b.CreateZExt(c, I32), sc, bits64(b, ng), sn, bits64(b, x), s1(x)})}; return true; }
      default: break;
      }
      // generic intrinsic: concretize scalar operands
      auto b = before();
      for (auto &a : CB->args()) if (!a->getType()->isMetadataTy() && !a->getType()->isPointerTy()) concretize(b, a);
      (void)after;
      return true;
    }
    auto memfn = [&](int k) {
      auto b = before(); concretize(b, CB->getArgOperand(2));
      if (k == 0) b.CreateCall(fCopy, {CB->getArgOperand(0), CB->getArgOperand(1), CB->getArgOperand(2)});
      else b.CreateCall(fSet, {CB->getArgOperand(0), CB->getArgOperand(2), b.CreateZExtOrTrunc(CB->getArgOperand(1), I32), Z});
    };
    if (cf->isDeclaration()) {
      if (n == "memcpy" || n == "memmove") { memfn(0); return true; }
      if (n == "memset") { auto b = before(); concretize(b, CB->getArgOperand(1)); memfn(1); return true; }
      if (n == "memcmp" || n == "bcmp") { CB->setCalledFunction(M->getOrInsertFunction("sv_memcmp", cf->getFunctionType())); cf = CB->getCalledFunction(); return false; }
      if (n == "memchr") { CB->setCalledFunction(M->getOrInsertFunction("sv_memchr", cf->getFunctionType())); return false; }
      if (n == "strlen") { CB->setCalledFunction(M->getOrInsertFunction("sv_strlen", cf->getFunctionType())); return false; }
      if (n == "_ZSt11_Hash_bytesPKvmm") { CB->setCalledFunction(M->getOrInsertFunction("sv_hash_bytes", cf->getFunctionType())); return false; }
      static const std::pair<const char *, unsigned> fu[] = {{"fabs", 0}, {"floor", 1}, {"ceil", 2}, {"trunc", 3}, {"round", 4}, {"rint", 5}};
      for (auto &p : fu) if (n == p.first && CB->getType()->isDoubleTy()) {
        Value *s = s1(CB->getArgOperand(0)); if (zero(s)) return true;
        auto b = before(); sh[CB] = {b.CreateCall(fFUn, {c32(p.second), CB->getArgOperand(0), s})}; return true; }
    }
    return false;
  }

  void doCall(CallBase *CB) {
    if (CB->isInlineAsm()) return;
    if (intrinsicLike(CB)) return;
    Function *cf = CB->getCalledFunction();
    bool api = cf && isSvApi(cf->getName());
    bool ext = cf && cf->isDeclaration() && !api;
    Type *T = CB->getType();
    bool must = isa<CallInst>(CB) && cast<CallInst>(CB)->isMustTailCall();
    IRBuilder<> B(CB);
    if (ext) {
      externals.insert(cf->getName().str());
      for (auto &a : CB->args()) if (!a->getType()->isMetadataTy()) concretize(B, a);
    } else {
      if (CB->getFunctionType()->isVarArg()) { for (auto &a : CB->args()) concretize(B, a); }
      unsigned k = 0;
      for (unsigned i = 0; i < CB->arg_size(); i++) {
        Value *a = CB->getArgOperand(i);
        for (Value *s : shadow(a)) { if (k < 512) B.CreateStore(s, argSlot(B, k)); k++; }
        if (CB->isByValArgument(i) && i < 64) B.CreateStore(a, B.CreateConstInBoundsGEP2_32(gByval->getValueType(), gByval, 0, i));
      }
      if (!T->isVoidTy() && !must) { unsigned r = nleaves(T); for (unsigned i = 0; i < r && i < 64; i++) B.CreateStore(Z, retSlot(B, i)); }
      B.CreateStore(CB->getCalledOperand(), gCallee);
    }
    if (must) return;
    Instruction *ip = nullptr;
    if (auto *I = dyn_cast<InvokeInst>(CB)) ip = &*I->getNormalDest()->getFirstInsertionPt();
    else ip = CB->getNextNode();
    IRBuilder<> A(ip);
    if (ext) {
      StringRef n = cf->getName();
      if (n == "malloc" || n == "_Znwm" || n == "_Znam") A.CreateCall(fClear, {CB, CB->getArgOperand(0)});
      else if (n == "_ZnwmSt11align_val_t") A.CreateCall(fClear, {CB, CB->getArgOperand(0)});
      else if (n == "calloc") A.CreateCall(fClear, {CB, A.CreateMul(CB->getArgOperand(0), CB->getArgOperand(1))});
      else if (n == "realloc") A.CreateCall(fClear, {CB, CB->getArgOperand(1)});
      return;
    }
    if (!T->isVoidTy()) {
      Sh r; SmallVector<Type *, 4> lv; leaves(T, lv);
      for (unsigned i = 0; i < lv.size(); i++) {
        if (i < 64 && sup(lv[i])) r.push_back(A.CreateLoad(I32, retSlot(A, i))); else r.push_back(Z);
      }
      sh[CB] = r;
    }
  }

  void runOn(Function &Fn) {
    F = &Fn; sh.clear();
    removeUnreachableBlocks(Fn);
    // make invoke normal edges non critical
    SmallVector<InvokeInst *, 16> inv;
    for (auto &BB : Fn) if (auto *I = dyn_cast<InvokeInst>(BB.getTerminator())) inv.push_back(I);
    for (auto *I : inv) if (!I->getNormalDest()->getSinglePredecessor()) SplitEdge(I->getParent(), I->getNormalDest());
    // collect instructions in RPO before adding any
    std::vector<Instruction *> work;
    ReversePostOrderTraversal<Function *> RPOT(&Fn);
    for (auto *BB : RPOT) for (auto &I : *BB) work.push_back(&I);
    // arguments
    {
      IRBuilder<> B(&*Fn.getEntryBlock().getFirstInsertionPt());
      bool any = false, byv = false;
      for (auto &a : Fn.args()) { SmallVector<Type *, 4> lv; leaves(a.getType(), lv); for (auto *t : lv) any |= sup(t); byv |= a.hasByValAttr(); }
      // allocas first so that entry stays well formed
      while (isa<AllocaInst>(&*B.GetInsertPoint())) B.SetInsertPoint(B.GetInsertPoint()->getNextNode());
      if (any || byv) {
        Value *ok = B.CreateICmpEQ(B.CreateLoad(Ptr, gCallee), &Fn);
        Value *mask = B.CreateSExt(ok, I32);
        unsigned k = 0, ai = 0;
        for (auto &a : Fn.args()) {
          SmallVector<Type *, 4> lv; leaves(a.getType(), lv); Sh s;
          for (auto *t : lv) {
            if (sup(t) && k < 512) s.push_back(B.CreateAnd(B.CreateLoad(I32, argSlot(B, k)), mask)); else s.push_back(Z);
            k++;
          }
          sh[&a] = s;
          if (a.hasByValAttr() && ai < 64) {
            Value *src = B.CreateLoad(Ptr, B.CreateConstInBoundsGEP2_32(gByval->getValueType(), gByval, 0, ai));
            src = B.CreateSelect(ok, src, ConstantPointerNull::get(cast<PointerType>(Ptr)));
            B.CreateCall(fCopy, {&a, src, c64(DL->getTypeAllocSize(a.getParamByValType()).getFixedValue())});
          }
          ai++;
        }
      }
    }
    std::vector<PHINode *> phis;
    for (Instruction *I : work) {
      Type *T = I->getType();
      if (auto *P = dyn_cast<PHINode>(I)) {
        SmallVector<Type *, 4> lv; leaves(T, lv); Sh s; IRBuilder<> B(P);
        for (auto *t : lv) if (sup(t)) s.push_back(B.CreatePHI(I32, P->getNumIncomingValues())); else s.push_back(Z);
        sh[P] = s; phis.push_back(P); continue;
      }
      if (auto *BO = dyn_cast<BinaryOperator>(I)) {
        Value *a = BO->getOperand(0), *b = BO->getOperand(1);
        if (supI(T)) {
          if (zero(s1(a)) && zero(s1(b))) continue;
          IRBuilder<> B(I);
          sh[I] = {B.CreateCall(fBin, {c32(BO->getOpcode()), c32(T->getIntegerBitWidth()), bits64(B, a), s1(a), bits64(B, b), s1(b)})};
        } else if (T->isDoubleTy()) {
          if (zero(s1(a)) && zero(s1(b))) continue;
          unsigned k; switch (BO->getOpcode()) { case Instruction::FAdd: k = 0; break; case Instruction::FSub: k = 1; break; case Instruction::FMul: k = 2; break; case Instruction::FDiv: k = 3; break; default: k = 4; }
          IRBuilder<> B(I); sh[I] = {B.CreateCall(fFBin, {c32(k), a, s1(a), b, s1(b)})};
        }
        continue;
      }
      if (auto *U = dyn_cast<UnaryOperator>(I)) {
        if (T->isDoubleTy() && !zero(s1(U->getOperand(0)))) { IRBuilder<> B(I); sh[I] = {B.CreateCall(fFUn, {c32(6), U->getOperand(0), s1(U->getOperand(0))})}; }
        continue;
      }
      if (auto *IC = dyn_cast<ICmpInst>(I)) {
        Value *a = IC->getOperand(0), *b = IC->getOperand(1);
        if (supI(a->getType()) && !(zero(s1(a)) && zero(s1(b)))) {
          IRBuilder<> B(I);
          sh[I] = {B.CreateCall(fICmp, {c32(IC->getPredicate()), c32(a->getType()->getIntegerBitWidth()), bits64(B, a), s1(a), bits64(B, b), s1(b)})};
        }
        continue;
      }
      if (auto *FC = dyn_cast<FCmpInst>(I)) {
        Value *a = FC->getOperand(0), *b = FC->getOperand(1);
        if (a->getType()->isDoubleTy() && !(zero(s1(a)) && zero(s1(b)))) {
          IRBuilder<> B(I); sh[I] = {B.CreateCall(fFCmp, {c32(FC->getPredicate()), a, s1(a), b, s1(b)})};
        }
        continue;
      }
      if (auto *CI = dyn_cast<CastInst>(I)) {
        Value *a = CI->getOperand(0); Type *S = a->getType();
        Value *s = s1(a); if (zero(s)) continue;
        IRBuilder<> B(I);
        if (supI(S) && supI(T)) sh[I] = {B.CreateCall(fCast, {c32(CI->getOpcode()), c32(S->getIntegerBitWidth()), c32(T->getIntegerBitWidth()), bits64(B, a), s})};
        else if (CI->getOpcode() == Instruction::SIToFP && T->isDoubleTy()) sh[I] = {B.CreateCall(fSiToFp, {c32(S->getIntegerBitWidth()), bits64(B, a), s})};
        else if (CI->getOpcode() == Instruction::UIToFP && T->isDoubleTy()) sh[I] = {B.CreateCall(fUiToFp, {c32(S->getIntegerBitWidth()), bits64(B, a), s})};
        else if (CI->getOpcode() == Instruction::FPToSI && S->isDoubleTy() && supI(T)) sh[I] = {B.CreateCall(fFpToSi, {c32(T->getIntegerBitWidth()), a, s})};
        else if (CI->getOpcode() == Instruction::FPToUI && S->isDoubleTy() && supI(T)) sh[I] = {B.CreateCall(fFpToUi, {c32(T->getIntegerBitWidth()), a, s})};
        else if (CI->getOpcode() == Instruction::BitCast && S->isDoubleTy() && T->isIntegerTy(64)) sh[I] = {B.CreateCall(fBitsOf, {a, s})};
        else if (CI->getOpcode() == Instruction::BitCast && T->isDoubleTy() && S->isIntegerTy(64)) sh[I] = {B.CreateCall(fOfBits, {a, s})};
        else concretize(B, a);
        continue;
      }
      if (isa<FreezeInst>(I)) { sh[I] = shadow(I->getOperand(0)); continue; }
      if (auto *S = dyn_cast<SelectInst>(I)) {
        IRBuilder<> B(I); Value *c = S->getCondition();
        if (!c->getType()->isIntegerTy(1)) continue;
        Value *sc = s1(c);
        if (sup(T)) { Value *r = selSh(B, c, sc, S->getTrueValue(), s1(S->getTrueValue()), S->getFalseValue(), s1(S->getFalseValue())); if (!zero(r)) sh[I] = {r}; }
        else {
          if (!zero(sc)) B.CreateCall(fBr, {B.CreateZExt(c, I32), sc});
          if (T->isAggregateType()) { Sh a = shadow(S->getTrueValue()), b = shadow(S->getFalseValue()), r; for (unsigned i = 0; i < a.size(); i++) r.push_back(B.CreateSelect(c, a[i], b[i])); sh[I] = r; }
        }
        continue;
      }
      if (auto *L = dyn_cast<LoadInst>(I)) { doLoad(L); continue; }
      if (auto *S = dyn_cast<StoreInst>(I)) { doStore(S); continue; }
      if (auto *A = dyn_cast<AllocaInst>(I)) {
        IRBuilder<> B(I);
        if (!A->isStaticAlloca()) concretize(B, A->getArraySize());
        Instruction *ip = A->getNextNode(); while (isa<AllocaInst>(ip)) ip = ip->getNextNode();
        IRBuilder<> N(ip);
        if (A->isStaticAlloca()) { auto sz = A->getAllocationSize(*DL); if (sz) N.CreateCall(fClear, {A, c64(sz->getFixedValue())}); }
        else { IRBuilder<> N2(A->getNextNode()); N2.CreateCall(fClear, {A, N2.CreateMul(N2.CreateZExtOrTrunc(A->getArraySize(), I64), c64(DL->getTypeAllocSize(A->getAllocatedType()).getFixedValue()))}); }
        continue;
      }
      if (auto *G = dyn_cast<GetElementPtrInst>(I)) { IRBuilder<> B(I); for (auto &ix : G->indices()) concretize(B, ix); continue; }
      if (auto *E = dyn_cast<ExtractValueInst>(I)) {
        Sh a = shadow(E->getAggregateOperand()); Type *o; unsigned off = leafOffset(E->getAggregateOperand()->getType(), E->getIndices(), o);
        Sh r; for (unsigned i = 0; i < nleaves(o); i++) r.push_back(a[off + i]); sh[I] = r; continue;
      }
      if (auto *E = dyn_cast<InsertValueInst>(I)) {
        Sh a = shadow(E->getAggregateOperand()); Type *o; unsigned off = leafOffset(T, E->getIndices(), o);
        Sh v = shadow(E->getInsertedValueOperand()); for (unsigned i = 0; i < v.size(); i++) a[off + i] = v[i]; sh[I] = a; continue;
      }
      if (auto *CB = dyn_cast<CallBase>(I)) { doCall(CB); continue; }
      if (auto *BI = dyn_cast<BranchInst>(I)) {
        if (BI->isConditional() && !zero(s1(BI->getCondition()))) { IRBuilder<> B(I); B.CreateCall(fBr, {B.CreateZExt(BI->getCondition(), I32), s1(BI->getCondition())}); }
        continue;
      }
      if (auto *SI = dyn_cast<SwitchInst>(I)) {
        Value *c = SI->getCondition(); Value *s = s1(c);
        if (!zero(s) && supI(c->getType())) {
          // every case is compared in turn; cases sharing a destination are still separate (sound, finer)
          IRBuilder<> B(I); unsigned w = c->getType()->getIntegerBitWidth();
          Value *v = bits64(B, c);
          Value *first = ConstantInt::get(I64, 0); (void)first;
          // emit a call per case; the runtime stops recording after the matching one
          Value *done = nullptr;
          for (auto &cs : SI->cases()) {
            Value *k = c64(cs.getCaseValue()->getZExtValue());
            (void)done;
            B.CreateCall(fEqBr, {c32(w), v, s, k});
          }
        }
        continue;
      }
      if (auto *R = dyn_cast<ReturnInst>(I)) {
        Value *v = R->getReturnValue();
        if (v) {
          if (I->getPrevNode()) if (auto *pc = dyn_cast<CallInst>(I->getPrevNode())) if (pc->isMustTailCall()) continue;
          IRBuilder<> B(I); Sh s = shadow(v); for (unsigned i = 0; i < s.size() && i < 64; i++) B.CreateStore(s[i], retSlot(B, i));
        }
        continue;
      }
      if (isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I)) {
        IRBuilder<> B(I->getNextNode());
        IRBuilder<> P(I);
        for (unsigned i = 1; i < I->getNumOperands(); i++) concretize(P, I->getOperand(i));
        B.CreateCall(fConcMem, {I->getOperand(0), c64(8)});
        continue;
      }
      if (isa<ExtractElementInst>(I) || isa<InsertElementInst>(I) || isa<ShuffleVectorInst>(I)) {
        IRBuilder<> B(I); for (auto &o : I->operands()) concretize(B, o); continue;
      }
      // landingpad, resume, unreachable, fence...: nothing
    }
    for (auto *P : phis) {
      Sh s = sh[P];
      for (unsigned k = 0; k < s.size(); k++) {
        auto *np = dyn_cast<PHINode>(s[k]); if (!np) continue;
        for (unsigned i = 0; i < P->getNumIncomingValues(); i++) np->addIncoming(shadow(P->getIncomingValue(i))[k], P->getIncomingBlock(i));
      }
    }
  }
  PreservedAnalyses run(Module &m, ModuleAnalysisManager &) {
    init(m);
    std::vector<Function *> fs; std::vector<std::string> names;
    for (auto &f : m) if (!f.isDeclaration() && !f.getName().starts_with("svrt_")) fs.push_back(&f);
    for (auto &f : m) { // the instrumentation has side effects of its own
      if (f.isIntrinsic()) continue;
      f.removeFnAttr(Attribute::Memory); f.removeFnAttr(Attribute::Speculatable);
    }
    for (auto *f : fs) for (auto &I : instructions(*f)) if (auto *CB = dyn_cast<CallBase>(&I)) {
      if (!isa<IntrinsicInst>(CB)) { CB->removeFnAttr(Attribute::Memory); CB->removeFnAttr(Attribute::Speculatable); }
    }
    for (auto *f : fs) { names.push_back(dem(*f)); runOn(*f); }
    if (const char *o = getenv("SV_PASS_REPORT")) {
      std::ofstream os(o);
      for (auto &n : names) os << "F " << n << "\n";
      for (auto &n : externals) os << "X " << demangle(n) << "\n";
    }
    return PreservedAnalyses::none();
  }
  static bool isRequired() { return true; }
};
} // namespace

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
  return {LLVM_PLUGIN_API_VERSION, "sv", "1", [](PassBuilder &PB) {
    PB.registerPipelineParsingCallback([](StringRef N, ModulePassManager &MPM, ArrayRef<PassBuilder::PipelineElement>) {
      if (N == "sv-models") { MPM.addPass(Models()); return true; }
      if (N == "sv-instr") { MPM.addPass(Instr()); return true; }
      return false;
    });
  }};
}
