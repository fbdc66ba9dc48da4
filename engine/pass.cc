// SymPass: LLVM 18 pass plugin that turns ordinary C/C++ IR into IR that also
// builds, next to every SSA value, a symbolic expression handle ("shadow").
// A null shadow means "this value does not depend on symbolic input".
// See DESIGN.md, "The engine".
#include "llvm/ADT/DenseMap.h"
#include "llvm/ADT/SmallVector.h"
#include "llvm/ADT/StringSet.h"
#include "llvm/Analysis/ConstantFolding.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/PassManager.h"
#include "llvm/IR/Verifier.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/ModuleUtils.h"

using namespace llvm;

namespace {

enum { MAXARGS = 96, MAXRETS = 16 };

// Opcodes shared with rt.cc
enum Op {
  OP_ADD = 1, OP_SUB, OP_MUL, OP_UDIV, OP_SDIV, OP_UREM, OP_SREM, OP_SHL, OP_LSHR, OP_ASHR,
  OP_AND, OP_OR, OP_XOR,
  OP_FADD = 20, OP_FSUB, OP_FMUL, OP_FDIV, OP_FREM, OP_FMIN, OP_FMAX, OP_FCOPYSIGN,
  OP_ZEXT = 40, OP_SEXT, OP_TRUNC, OP_FPTOUI, OP_FPTOSI, OP_UITOFP, OP_SITOFP, OP_FPTRUNC, OP_FPEXT,
  OP_FNEG = 60, OP_FABS, OP_FSQRT, OP_FFLOOR, OP_FCEIL, OP_FTRUNC, OP_FRINT, OP_FROUND,
  OP_BSWAP, OP_CTPOP, OP_CTLZ, OP_CTTZ, OP_ABS,
  OP_SMIN = 80, OP_SMAX, OP_UMIN, OP_UMAX,
};

struct SymPass : PassInfoMixin<SymPass> {
  Module *M;
  const DataLayout *DL;
  LLVMContext *C;
  Type *PtrTy, *I64, *I32, *I8, *I1, *VoidTy;
  Constant *Null;
  FunctionCallee fBin, fIcmp, fFcmp, fCast, fUn, fSelect, fBranch, fSwitch, fLoad, fStore,
      fConc, fMemcpy, fMemset, fClear, fPrecall, fExtPtr, fFree, fRegister, fByval, fOvf, fIsFPClass;
  GlobalVariable *gArgs, *gArgTag, *gRets, *gRetTag;
  StringMap<Constant *> strCache;

  void init(Module &m) {
    M = &m;
    DL = &m.getDataLayout();
    C = &m.getContext();
    PtrTy = PointerType::getUnqual(*C);
    I64 = Type::getInt64Ty(*C);
    I32 = Type::getInt32Ty(*C);
    I8 = Type::getInt8Ty(*C);
    I1 = Type::getInt1Ty(*C);
    VoidTy = Type::getVoidTy(*C);
    Null = ConstantPointerNull::get(cast<PointerType>(PtrTy));
    auto D = [&](const char *n, Type *r, ArrayRef<Type *> a) {
      FunctionCallee f = m.getOrInsertFunction(n, FunctionType::get(r, a, false));
      if (auto *F = dyn_cast<Function>(f.getCallee())) F->setDoesNotThrow();
      return f;
    };
    fBin = D("__sy_bin", PtrTy, {I32, I32, PtrTy, I64, PtrTy, I64, I64, PtrTy});
    fIcmp = D("__sy_icmp", PtrTy, {I32, I32, PtrTy, I64, PtrTy, I64, I8, PtrTy});
    fFcmp = D("__sy_fcmp", PtrTy, {I32, I32, PtrTy, I64, PtrTy, I64, I8, PtrTy});
    fCast = D("__sy_cast", PtrTy, {I32, I32, I32, PtrTy, I64, I64, PtrTy});
    fUn = D("__sy_un", PtrTy, {I32, I32, PtrTy, I64, I64, PtrTy});
    fSelect = D("__sy_select", PtrTy, {I32, PtrTy, I8, PtrTy, I64, PtrTy, I64, PtrTy});
    fBranch = D("__sy_branch", VoidTy, {PtrTy, I8, PtrTy});
    fSwitch = D("__sy_switch", VoidTy, {PtrTy, I64, I32, I32, PtrTy, PtrTy});
    fLoad = D("__sy_load", PtrTy, {PtrTy, I64, I64, I32});
    fStore = D("__sy_store", VoidTy, {PtrTy, I64, PtrTy, I32});
    fConc = D("__sy_conc", VoidTy, {PtrTy, I64, PtrTy, PtrTy});
    fMemcpy = D("__sy_memcpy", VoidTy, {PtrTy, PtrTy, I64});
    fMemset = D("__sy_memset", VoidTy, {PtrTy, PtrTy, I8, I64});
    fClear = D("__sy_clear", VoidTy, {PtrTy, I64});
    fPrecall = D("__sy_precall", VoidTy, {PtrTy, PtrTy, I32, PtrTy});
    fExtPtr = D("__sy_extptr", VoidTy, {PtrTy, PtrTy, PtrTy, PtrTy});
    fFree = D("__sy_free", VoidTy, {PtrTy});
    fRegister = D("__sy_register", VoidTy, {PtrTy, I64});
    fByval = D("__sy_byval", VoidTy, {PtrTy, PtrTy, I64});
    fOvf = D("__sy_ovf", PtrTy, {I32, I32, PtrTy, I64, PtrTy, I64, I8, PtrTy});
    fIsFPClass = D("__sy_isfpclass", PtrTy, {I32, I32, PtrTy, I64, I8, PtrTy});
    auto G = [&](const char *n, Type *t) {
      auto *g = m.getGlobalVariable(n);
      if (!g) g = new GlobalVariable(m, t, false, GlobalValue::ExternalLinkage, nullptr, n);
      return g;
    };
    gArgs = G("__sy_args", ArrayType::get(PtrTy, MAXARGS));
    gArgTag = G("__sy_argtag", PtrTy);
    gRets = G("__sy_rets", ArrayType::get(PtrTy, MAXRETS));
    gRetTag = G("__sy_rettag", PtrTy);
  }

  Constant *str(StringRef s) {
    auto it = strCache.find(s);
    if (it != strCache.end()) return it->second;
    Constant *cd = ConstantDataArray::getString(*C, s);
    auto *g = new GlobalVariable(*M, cd->getType(), true, GlobalValue::PrivateLinkage, cd, ".sy.str");
    strCache[s] = g;
    return g;
  }

  // ---- type flattening -------------------------------------------------
  struct Leaf { Type *ty; uint64_t off; };
  bool flatten(Type *t, uint64_t off, SmallVectorImpl<Leaf> &out) {
    if (auto *st = dyn_cast<StructType>(t)) {
      if (st->isOpaque()) return false;
      const StructLayout *sl = DL->getStructLayout(st);
      for (unsigned i = 0; i < st->getNumElements(); ++i)
        if (!flatten(st->getElementType(i), off + sl->getElementOffset(i), out)) return false;
      return true;
    }
    if (auto *at = dyn_cast<ArrayType>(t)) {
      uint64_t sz = DL->getTypeAllocSize(at->getElementType());
      for (uint64_t i = 0; i < at->getNumElements(); ++i)
        if (!flatten(at->getElementType(), off + i * sz, out)) return false;
      return true;
    }
    if (auto *vt = dyn_cast<FixedVectorType>(t)) {
      uint64_t bits = DL->getTypeSizeInBits(vt->getElementType());
      for (uint64_t i = 0; i < vt->getNumElements(); ++i)
        if (!flatten(vt->getElementType(), off + i * bits / 8, out)) return false;
      return true;
    }
    out.push_back({t, off});
    return true;
  }
  unsigned nleaves(Type *t) {
    if (t->isVoidTy() || t->isTokenTy() || t->isMetadataTy() || t->isLabelTy()) return 0;
    SmallVector<Leaf, 8> v;
    if (!flatten(t, 0, v)) return 0;
    return v.size();
  }
  bool scalarOK(Type *t) {
    if (t->isPointerTy() || t->isFloatTy() || t->isDoubleTy()) return true;
    if (auto *it = dyn_cast<IntegerType>(t)) return it->getBitWidth() <= 64;
    return false;
  }
  unsigned bitsOf(Type *t) {
    if (t->isPointerTy()) return 64;
    return t->getPrimitiveSizeInBits();
  }

  // ---- per function state ------------------------------------------------
  Function *F;
  GlobalVariable *FI;
  DenseMap<Value *, SmallVector<Value *, 1>> Sh;
  SmallVector<Instruction *, 64> work;

  Value *toI64(IRBuilder<> &B, Value *v) {
    Type *t = v->getType();
    if (t->isPointerTy()) return B.CreatePtrToInt(v, I64);
    if (t->isDoubleTy()) return B.CreateBitCast(v, I64);
    if (t->isFloatTy()) return B.CreateZExt(B.CreateBitCast(v, I32), I64);
    if (auto *it = dyn_cast<IntegerType>(t)) {
      if (it->getBitWidth() == 64) return v;
      if (it->getBitWidth() < 64) return B.CreateZExt(v, I64);
      return B.CreateTrunc(v, I64);
    }
    return ConstantInt::get(I64, 0);
  }
  Value *c32(uint64_t v) { return ConstantInt::get(I32, v); }
  Value *c64(uint64_t v) { return ConstantInt::get(I64, v); }
  bool isNull(Value *v) { return v == Null; }

  SmallVector<Value *, 1> sh(Value *v) {
    auto it = Sh.find(v);
    if (it != Sh.end()) return it->second;
    SmallVector<Value *, 1> r;
    unsigned n = nleaves(v->getType());
    r.assign(n, Null);
    return r;
  }
  Value *sh1(Value *v) {
    auto s = sh(v);
    return s.size() == 1 ? s[0] : Null;
  }
  void setSh(Value *v, Value *s) { if (!isNull(s)) Sh[v] = {s}; }
  void setShV(Value *v, SmallVector<Value *, 1> s) { Sh[v] = std::move(s); }
  bool allNull(const SmallVectorImpl<Value *> &v) {
    for (auto *x : v) if (!isNull(x)) return false;
    return true;
  }

  // leaf value of (possibly aggregate) v
  Value *leafVal(IRBuilder<> &B, Value *v, unsigned k) {
    Type *t = v->getType();
    if (!t->isAggregateType() && !t->isVectorTy()) return v;
    unsigned cur = 0;
    std::function<Value *(Value *, Type *)> rec = [&](Value *x, Type *ty) -> Value * {
      if (auto *vt = dyn_cast<FixedVectorType>(ty)) {
        unsigned n = vt->getNumElements();
        if (k < cur + n) return B.CreateExtractElement(x, (uint64_t)(k - cur));
        cur += n;
        return nullptr;
      }
      if (ty->isAggregateType()) {
        unsigned n = ty->isStructTy() ? ty->getStructNumElements() : ty->getArrayNumElements();
        for (unsigned i = 0; i < n; ++i) {
          Type *et = ty->isStructTy() ? ty->getStructElementType(i) : ty->getArrayElementType();
          unsigned m = nleaves(et);
          if (k < cur + m) {
            if (!et->isAggregateType() && !et->isVectorTy()) return B.CreateExtractValue(x, i);
            return rec(B.CreateExtractValue(x, i), et);
          }
          cur += m;
        }
        return nullptr;
      }
      return x;
    };
    return rec(v, t);
  }

  void conc(IRBuilder<> &B, Value *v, const char *why) {
    auto s = sh(v);
    for (unsigned i = 0; i < s.size(); ++i)
      if (!isNull(s[i])) {
        Value *lv = leafVal(B, v, i);
        B.CreateCall(fConc, {s[i], toI64(B, lv), FI, str(why)});
      }
  }
  void concOperands(Instruction &I, const char *why) {
    IRBuilder<> B(&I);
    for (Use &u : I.operands())
      if (!isa<BasicBlock>(u.get()) && !isa<MetadataAsValue>(u.get())) conc(B, u.get(), why);
  }

  Instruction *after(Instruction &I) {
    Instruction *n = I.getNextNode();
    while (n && isa<PHINode>(n)) n = n->getNextNode();
    return n;
  }

  void binop(Instruction &I, int op, Value *a, Value *b, bool fp) {
    Value *sa = sh1(a), *sb = sh1(b);
    if (isNull(sa) && isNull(sb)) return;
    bool div = (op >= OP_UDIV && op <= OP_SREM);
    // divisions: the trap condition must be recorded before the native op
    IRBuilder<> B0(&I);
    if (div) {
      Value *r = B0.CreateCall(fBin, {c32(op + 1000), c32(bitsOf(I.getType())), sa, toI64(B0, a), sb, toI64(B0, b), c64(0), FI});
      (void)r;
    }
    IRBuilder<> B(after(I));
    Value *r = B.CreateCall(fBin, {c32(op), c32(bitsOf(I.getType())), sa, toI64(B, a), sb, toI64(B, b), toI64(B, &I), FI});
    setSh(&I, r);
  }

  void handle(Instruction &I);
  void handleCall(CallBase &CB);
  bool handleIntrinsic(IntrinsicInst &II);
  bool handleLibFn(CallBase &CB, StringRef name);
  void handleMemLoad(Instruction &I, Value *ptr, Type *ty);
  void runOnFunction(Function &f, GlobalVariable *fi);
  PreservedAnalyses run(Module &m, ModuleAnalysisManager &);
  static bool isRequired() { return true; }
};

static bool skipName(StringRef n) {
  return n.starts_with("__sy_") || n.starts_with("sym_") || n.starts_with("__cxx_global_array_dtor") ;
}

// External functions that neither read symbolic memory through their pointer
// arguments nor need modelling.
static bool benignExternal(StringRef n) {
  static const StringSet<> S = {
      "malloc", "calloc", "realloc", "free", "_Znwm", "_Znam", "_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm",
      "_ZnwmSt11align_val_t", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t",
      "__cxa_allocate_exception", "__cxa_free_exception", "__cxa_throw", "__cxa_begin_catch",
      "__cxa_end_catch", "__cxa_rethrow", "__cxa_get_exception_ptr", "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort",
      "__cxa_atexit", "__cxa_pure_virtual", "__dynamic_cast", "__gxx_personality_v0", "_Unwind_Resume",
      "_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_",
      "_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_",
      "_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base", "_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base",
      "_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base", "_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base",
      "_ZNSt8__detail15_List_node_base7_M_hookEPS0_", "_ZNSt8__detail15_List_node_base9_M_unhookEv",
      "_ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_", "_ZNSt8__detail15_List_node_base7_M_swapERS0_S1_",
      "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "_ZNSt8ios_baseC2Ev", "_ZNSt8ios_baseD2Ev",
      "_ZNSt9basic_iosIcSt11char_traitsIcEE4initEPSt15basic_streambufIcS1_E",
      "_ZNSt6localeC1Ev", "_ZNSt6localeD1Ev", "_ZSt9terminatev", "_ZSt17__throw_bad_allocv",
      "_ZSt20__throw_length_errorPKc", "_ZSt24__throw_out_of_range_fmtPKcz", "_ZSt19__throw_logic_errorPKc",
      "_ZSt25__throw_bad_function_callv", "_ZSt28__throw_bad_array_new_lengthv",
      "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_trylock", "__errno_location", "abort", "exit",
      "_ZNSt9exceptionD2Ev", "_ZNSt9exceptionD1Ev", "_ZNKSt9exception4whatEv", "__assert_fail"};
  return S.contains(n);
}

static StringRef renamed(StringRef n) {
  static const StringMap<StringRef> R = {
      {"memcmp", "__syl_memcmp"}, {"bcmp", "__syl_memcmp"}, {"strlen", "__syl_strlen"}, {"strnlen", "__syl_strnlen"},
      {"strcmp", "__syl_strcmp"}, {"strncmp", "__syl_strncmp"}, {"memchr", "__syl_memchr"}, {"strchr", "__syl_strchr"},
      {"strcpy", "__syl_strcpy"}, {"strncpy", "__syl_strncpy"}, {"strdup", "__syl_strdup"},
      {"isspace", "__syl_isspace"}, {"isdigit", "__syl_isdigit"}, {"isalpha", "__syl_isalpha"}, {"isalnum", "__syl_isalnum"},
      {"tolower", "__syl_tolower"}, {"toupper", "__syl_toupper"}, {"strtol", "__syl_strtol"}, {"strtoul", "__syl_strtoul"},
      {"strcasecmp", "__syl_strcasecmp"}, {"strncasecmp", "__syl_strncasecmp"},
      {"__isoc23_strtol", "__syl_strtol"}, {"__isoc23_strtoul", "__syl_strtoul"}, {"atoi", "__syl_atoi"},
      {"strrchr", "__syl_strrchr"}, {"strstr", "__syl_strstr"}};
  auto it = R.find(n);
  return it == R.end() ? StringRef() : it->second;
}

void SymPass::handleMemLoad(Instruction &I, Value *ptr, Type *ty) {
  IRBuilder<> B0(&I);
  conc(B0, ptr, "address");
  SmallVector<Leaf, 4> lv;
  if (!flatten(ty, 0, lv)) return;
  IRBuilder<> B(after(I));
  SmallVector<Value *, 1> out;
  for (unsigned k = 0; k < lv.size(); ++k) {
    Type *t = lv[k].ty;
    Value *p = lv[k].off ? B.CreateConstGEP1_64(I8, ptr, lv[k].off) : ptr;
    if (!scalarOK(t)) {
      // load of an unsupported type: the bytes are forced concrete
      B.CreateCall(fLoad, {p, c64(DL->getTypeStoreSize(t)), c64(0), c32(0)});
      out.push_back(Null);
      continue;
    }
    Value *v = leafVal(B, &I, k);
    out.push_back(B.CreateCall(fLoad, {p, c64(DL->getTypeStoreSize(t)), toI64(B, v), c32(bitsOf(t))}));
  }
  setShV(&I, out);
}

bool SymPass::handleIntrinsic(IntrinsicInst &II) {
  auto A = [&](unsigned i) { return II.getArgOperand(i); };
  auto un = [&](int op) {
    if (II.getType()->isVectorTy() || !scalarOK(II.getType())) { concOperands(II, "intrinsic"); return true; }
    Value *s = sh1(A(0));
    if (isNull(s)) return true;
    IRBuilder<> B(after(II));
    setSh(&II, B.CreateCall(fUn, {c32(op), c32(bitsOf(II.getType())), s, toI64(B, A(0)), toI64(B, &II), FI}));
    return true;
  };
  auto bi = [&](int op) {
    if (II.getType()->isVectorTy() || !scalarOK(II.getType())) { concOperands(II, "intrinsic"); return true; }
    binop(II, op, A(0), A(1), false);
    return true;
  };
  switch (II.getIntrinsicID()) {
  case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
    IRBuilder<> B(&II);
    conc(B, A(0), "memcpy dst"); conc(B, A(1), "memcpy src"); conc(B, A(2), "memcpy len");
    B.CreateCall(fMemcpy, {A(0), A(1), B.CreateZExtOrTrunc(A(2), I64)});
    return true;
  }
  case Intrinsic::memset: case Intrinsic::memset_inline: {
    IRBuilder<> B(&II);
    conc(B, A(0), "memset dst"); conc(B, A(2), "memset len");
    B.CreateCall(fMemset, {A(0), sh1(A(1)), A(1), B.CreateZExtOrTrunc(A(2), I64)});
    return true;
  }
  case Intrinsic::fabs: return un(OP_FABS);
  case Intrinsic::sqrt: return un(OP_FSQRT);
  case Intrinsic::floor: return un(OP_FFLOOR);
  case Intrinsic::ceil: return un(OP_FCEIL);
  case Intrinsic::trunc: return un(OP_FTRUNC);
  case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: return un(OP_FRINT);
  case Intrinsic::round: return un(OP_FROUND);
  case Intrinsic::bswap: return un(OP_BSWAP);
  case Intrinsic::ctpop: return un(OP_CTPOP);
  case Intrinsic::ctlz: return un(OP_CTLZ);
  case Intrinsic::cttz: return un(OP_CTTZ);
  case Intrinsic::abs: return un(OP_ABS);
  case Intrinsic::smin: return bi(OP_SMIN);
  case Intrinsic::smax: return bi(OP_SMAX);
  case Intrinsic::umin: return bi(OP_UMIN);
  case Intrinsic::umax: return bi(OP_UMAX);
  case Intrinsic::copysign: return bi(OP_FCOPYSIGN);
  case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group:
  case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy:
    setShV(&II, sh(A(0)));
    return true;
  case Intrinsic::fmuladd: {
    if (!scalarOK(II.getType())) { concOperands(II, "fmuladd"); return true; }
    Value *s0 = sh1(A(0)), *s1 = sh1(A(1)), *s2 = sh1(A(2));
    if (isNull(s0) && isNull(s1) && isNull(s2)) return true;
    IRBuilder<> B(after(II));
    Value *mul = B.CreateFMul(A(0), A(1));
    Value *sm = B.CreateCall(fBin, {c32(OP_FMUL), c32(bitsOf(II.getType())), s0, toI64(B, A(0)), s1, toI64(B, A(1)), toI64(B, mul), FI});
    setSh(&II, B.CreateCall(fBin, {c32(OP_FADD), c32(bitsOf(II.getType())), sm, toI64(B, mul), s2, toI64(B, A(2)), toI64(B, &II), FI}));
    return true;
  }
  case Intrinsic::fshl: case Intrinsic::fshr: {
    concOperands(II, "funnel shift");
    return true;
  }
  case Intrinsic::sadd_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::ssub_with_overflow:
  case Intrinsic::usub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::umul_with_overflow: {
    Type *t = A(0)->getType();
    Value *sa = sh1(A(0)), *sb = sh1(A(1));
    if (isNull(sa) && isNull(sb)) return true;
    if (!scalarOK(t)) { concOperands(II, "overflow op"); return true; }
    int op, k;
    switch (II.getIntrinsicID()) {
    case Intrinsic::sadd_with_overflow: op = OP_ADD; k = 0; break;
    case Intrinsic::uadd_with_overflow: op = OP_ADD; k = 1; break;
    case Intrinsic::ssub_with_overflow: op = OP_SUB; k = 2; break;
    case Intrinsic::usub_with_overflow: op = OP_SUB; k = 3; break;
    case Intrinsic::smul_with_overflow: op = OP_MUL; k = 4; break;
    default: op = OP_MUL; k = 5; break;
    }
    IRBuilder<> B(after(II));
    Value *v0 = B.CreateExtractValue(&II, 0), *v1 = B.CreateExtractValue(&II, 1);
    unsigned bits = bitsOf(t);
    Value *r = B.CreateCall(fBin, {c32(op), c32(bits), sa, toI64(B, A(0)), sb, toI64(B, A(1)), toI64(B, v0), FI});
    Value *o = B.CreateCall(fOvf, {c32(k), c32(bits), sa, toI64(B, A(0)), sb, toI64(B, A(1)), B.CreateZExt(v1, I8), FI});
    setShV(&II, {r, o});
    return true;
  }
  case Intrinsic::is_fpclass: {
    Value *s = sh1(A(0));
    if (isNull(s)) return true;
    IRBuilder<> B(after(II));
    setSh(&II, B.CreateCall(fIsFPClass, {B.CreateZExtOrTrunc(A(1), I32), c32(bitsOf(A(0)->getType())), s, toI64(B, A(0)), B.CreateZExt(&II, I8), FI}));
    return true;
  }
  case Intrinsic::lifetime_start: {
    return true;
  }
  case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label:
  case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start:
  case Intrinsic::invariant_end: case Intrinsic::stacksave: case Intrinsic::stackrestore: case Intrinsic::eh_typeid_for:
  case Intrinsic::trap: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::objectsize:
  case Intrinsic::is_constant: case Intrinsic::threadlocal_address: case Intrinsic::debugtrap: case Intrinsic::var_annotation:
    return true;
  case Intrinsic::vastart: case Intrinsic::vaend: case Intrinsic::vacopy:
    return true;
  default:
    concOperands(II, "intrinsic");
    return true;
  }
}

bool SymPass::handleLibFn(CallBase &CB, StringRef n) {
  auto A = [&](unsigned i) { return CB.getArgOperand(i); };
  if (isa<InvokeInst>(CB)) return false;
  int op = 0;
  unsigned na = CB.arg_size();
  if (na == 1 && (n == "floor" || n == "floorf")) op = OP_FFLOOR;
  else if (na == 1 && (n == "ceil" || n == "ceilf")) op = OP_FCEIL;
  else if (na == 1 && (n == "trunc" || n == "truncf")) op = OP_FTRUNC;
  else if (na == 1 && (n == "round" || n == "roundf")) op = OP_FROUND;
  else if (na == 1 && (n == "rint" || n == "nearbyint")) op = OP_FRINT;
  else if (na == 1 && (n == "sqrt" || n == "sqrtf")) op = OP_FSQRT;
  else if (na == 1 && (n == "fabs" || n == "fabsf")) op = OP_FABS;
  if (op && scalarOK(CB.getType())) {
    Value *s = sh1(A(0));
    if (!isNull(s)) {
      IRBuilder<> B(after(CB));
      setSh(&CB, B.CreateCall(fUn, {c32(op), c32(bitsOf(CB.getType())), s, toI64(B, A(0)), toI64(B, &CB), FI}));
    }
    return true;
  }
  if ((n == "fmod" || n == "fmodf") && na == 2 && scalarOK(CB.getType())) { binop(CB, OP_FREM, A(0), A(1), false); return true; }
  if ((n == "memcpy" || n == "memmove") && na == 3) {
    IRBuilder<> B(&CB);
    conc(B, A(0), "memcpy"); conc(B, A(1), "memcpy"); conc(B, A(2), "memcpy len");
    B.CreateCall(fMemcpy, {A(0), A(1), A(2)});
    return true;
  }
  if ((n == "malloc" && na == 1) || (n == "calloc" && na == 2)) { // what the memory held before does not count
    IRBuilder<> B(after(CB));
    Value *sz = na == 1 ? A(0) : B.CreateMul(A(0), A(1));
    B.CreateCall(fClear, {&CB, B.CreateZExtOrTrunc(sz, I64)});
    return false;
  }
  if (n == "memset" && na == 3) {
    IRBuilder<> B(&CB);
    conc(B, A(0), "memset"); conc(B, A(2), "memset len");
    B.CreateCall(fMemset, {A(0), sh1(A(1)), B.CreateTrunc(A(1), I8), A(2)});
    return true;
  }
  return false;
}

void SymPass::handleCall(CallBase &CB) {
  if (auto *II = dyn_cast<IntrinsicInst>(&CB)) { handleIntrinsic(*II); return; }
  if (CB.isInlineAsm()) {
    bool any = false;
    for (Use &u : CB.args()) if (!allNull(sh(u.get()))) any = true;
    if (any) { IRBuilder<> B(&CB); for (Use &u : CB.args()) conc(B, u.get(), "inline asm"); }
    return;
  }
  Value *callee = CB.getCalledOperand()->stripPointerCasts();
  Function *CF = dyn_cast<Function>(callee);
  StringRef name = CF ? CF->getName() : StringRef();
  if (CF && CF->isDeclaration()) {
    if (handleLibFn(CB, name)) return;
    StringRef rn = renamed(name);
    if (!rn.empty()) {
      FunctionCallee nf = M->getOrInsertFunction(rn, CB.getFunctionType());
      CB.setCalledFunction(nf);
      CB.setAttributes(AttributeList());
      callee = nf.getCallee();
      CF = cast<Function>(callee);
      name = CF->getName();
    }
    if (name == "free" || name.starts_with("_ZdlPv") || name.starts_with("_ZdaPv")) {
      IRBuilder<> B(&CB);
      conc(B, CB.getArgOperand(0), "free");
      B.CreateCall(fFree, {CB.getArgOperand(0)});
      return;
    }
    if (name == "realloc") { IRBuilder<> B(&CB); conc(B, CB.getArgOperand(0), "realloc"); conc(B, CB.getArgOperand(1), "realloc"); return; }
  }
  bool symApi = CF && name.starts_with("sym_");
  if (CF && name.starts_with("__sy_")) return;
  IRBuilder<> B(&CB);
  conc(B, CB.getCalledOperand(), "indirect callee");
  // argument shadows
  unsigned slot = 0;
  bool anySym = false;
  SmallVector<Value *, 16> argSh;
  for (unsigned i = 0; i < CB.arg_size(); ++i) {
    Value *a = CB.getArgOperand(i);
    if (CB.isByValArgument(i)) {
      argSh.push_back(a); // raw source address; shadow memory copied by the callee
      continue;
    }
    for (Value *s : sh(a)) {
      argSh.push_back(s);
      if (!isNull(s)) anySym = true;
    }
  }
  bool haveTag = !argSh.empty() && argSh.size() <= MAXARGS;
  if (argSh.size() > MAXARGS) { errs() << "SymPass: too many argument leaves in call to " << name << "\n"; }
  if (haveTag) {
    bool any = anySym;
    for (unsigned i = 0; i < CB.arg_size(); ++i) if (CB.isByValArgument(i)) any = true;
    if (any) {
      for (Value *s : argSh) {
        B.CreateStore(s, B.CreateConstInBoundsGEP2_64(gArgs->getValueType(), gArgs, 0, slot));
        ++slot;
      }
      B.CreateStore(CB.getCalledOperand(), gArgTag);
    } else
      B.CreateStore(Null, gArgTag);
  }
  bool benign = CF && CF->isDeclaration() && benignExternal(name);
  Constant *nm = name.empty() ? str("<indirect>") : str(name);
  if (!symApi && anySym) {
    // Concrete values of symbolic args, needed if the callee turns out to be external
    Type *AT = ArrayType::get(I64, argSh.size());
    IRBuilder<> EB(&*F->getEntryBlock().getFirstInsertionPt());
    AllocaInst *buf = EB.CreateAlloca(AT);
    unsigned k = 0;
    for (unsigned i = 0; i < CB.arg_size(); ++i) {
      Value *a = CB.getArgOperand(i);
      if (CB.isByValArgument(i)) { ++k; continue; }
      unsigned n = nleaves(a->getType());
      for (unsigned j = 0; j < n; ++j, ++k)
        if (!isNull(argSh[k])) B.CreateStore(toI64(B, leafVal(B, a, j)), B.CreateConstInBoundsGEP2_64(AT, buf, 0, k));
        else B.CreateStore(c64(0), B.CreateConstInBoundsGEP2_64(AT, buf, 0, k));
    }
    B.CreateCall(fPrecall, {CB.getCalledOperand(), nm, c32(argSh.size()), buf});
  }
  if (!symApi && !benign && (!CF || CF->isDeclaration())) {
    for (unsigned i = 0; i < CB.arg_size(); ++i) {
      Value *a = CB.getArgOperand(i);
      if (a->getType()->isPointerTy() && !isa<Constant>(a)) B.CreateCall(fExtPtr, {CB.getCalledOperand(), nm, a, FI});
    }
  }
  // return shadows
  Type *rt = CB.getType();
  unsigned nr = nleaves(rt);
  if (nr == 0 || nr > MAXRETS) return;
  if (auto *ci = dyn_cast<CallInst>(&CB)) if (ci->isMustTailCall()) { errs() << "SymPass: musttail in " << F->getName() << "\n"; return; }
  B.CreateStore(Null, gRetTag);
  Instruction *ip;
  if (auto *inv = dyn_cast<InvokeInst>(&CB)) {
    BasicBlock *nd = inv->getNormalDest();
    ip = &*nd->getFirstInsertionPt();
  } else
    ip = CB.getNextNode();
  IRBuilder<> R(ip);
  Value *tag = R.CreateLoad(PtrTy, gRetTag);
  Value *m = R.CreateICmpEQ(tag, CB.getCalledOperand());
  SmallVector<Value *, 1> out;
  for (unsigned i = 0; i < nr; ++i) {
    Value *v = R.CreateLoad(PtrTy, R.CreateConstInBoundsGEP2_64(gRets->getValueType(), gRets, 0, i));
    out.push_back(R.CreateSelect(m, v, Null));
  }
  setShV(&CB, out);
}

void SymPass::handle(Instruction &I) {
  Type *T = I.getType();
  // ops on vectors / unsupported scalars: force concrete (vector data movement is tracked per lane)
  switch (I.getOpcode()) {
  case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv:
  case Instruction::URem: case Instruction::SRem: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
  case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::FAdd: case Instruction::FSub:
  case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
    static const DenseMap<unsigned, int> ops = {
        {Instruction::Add, OP_ADD}, {Instruction::Sub, OP_SUB}, {Instruction::Mul, OP_MUL}, {Instruction::UDiv, OP_UDIV},
        {Instruction::SDiv, OP_SDIV}, {Instruction::URem, OP_UREM}, {Instruction::SRem, OP_SREM}, {Instruction::Shl, OP_SHL},
        {Instruction::LShr, OP_LSHR}, {Instruction::AShr, OP_ASHR}, {Instruction::And, OP_AND}, {Instruction::Or, OP_OR},
        {Instruction::Xor, OP_XOR}, {Instruction::FAdd, OP_FADD}, {Instruction::FSub, OP_FSUB}, {Instruction::FMul, OP_FMUL},
        {Instruction::FDiv, OP_FDIV}, {Instruction::FRem, OP_FREM}};
    if (!scalarOK(T)) { concOperands(I, "vector/wide op"); return; }
    binop(I, ops.lookup(I.getOpcode()), I.getOperand(0), I.getOperand(1), false);
    return;
  }
  case Instruction::FNeg: {
    if (!scalarOK(T)) { concOperands(I, "vector/wide op"); return; }
    Value *s = sh1(I.getOperand(0));
    if (isNull(s)) return;
    IRBuilder<> B(after(I));
    setSh(&I, B.CreateCall(fUn, {c32(OP_FNEG), c32(bitsOf(T)), s, toI64(B, I.getOperand(0)), toI64(B, &I), FI}));
    return;
  }
  case Instruction::ICmp: case Instruction::FCmp: {
    Value *a = I.getOperand(0), *b = I.getOperand(1);
    if (T->isVectorTy() || !scalarOK(a->getType())) { concOperands(I, "vector/wide cmp"); return; }
    Value *sa = sh1(a), *sb = sh1(b);
    if (isNull(sa) && isNull(sb)) return;
    IRBuilder<> B(after(I));
    setSh(&I, B.CreateCall(isa<ICmpInst>(I) ? fIcmp : fFcmp,
                           {c32(cast<CmpInst>(I).getPredicate()), c32(bitsOf(a->getType())), sa, toI64(B, a), sb, toI64(B, b),
                            B.CreateZExt(&I, I8), FI}));
    return;
  }
  case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: case Instruction::FPToUI: case Instruction::FPToSI:
  case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPTrunc: case Instruction::FPExt: {
    Value *a = I.getOperand(0);
    if (T->isVectorTy() || !scalarOK(T) || !scalarOK(a->getType())) { concOperands(I, "vector/wide cast"); return; }
    Value *s = sh1(a);
    if (isNull(s)) return;
    static const DenseMap<unsigned, int> ops = {
        {Instruction::ZExt, OP_ZEXT}, {Instruction::SExt, OP_SEXT}, {Instruction::Trunc, OP_TRUNC}, {Instruction::FPToUI, OP_FPTOUI},
        {Instruction::FPToSI, OP_FPTOSI}, {Instruction::UIToFP, OP_UITOFP}, {Instruction::SIToFP, OP_SITOFP},
        {Instruction::FPTrunc, OP_FPTRUNC}, {Instruction::FPExt, OP_FPEXT}};
    IRBuilder<> B(after(I));
    Value *fz = (T->isFloatingPointTy() || a->getType()->isFloatingPointTy()) ? toI64(B, B.CreateFreeze(&I)) : toI64(B, &I);
    setSh(&I, B.CreateCall(fCast, {c32(ops.lookup(I.getOpcode())), c32(bitsOf(a->getType())), c32(bitsOf(T)), s, toI64(B, a), fz, FI}));
    return;
  }
  case Instruction::BitCast: {
    Value *a = I.getOperand(0);
    if (nleaves(T) == 1 && nleaves(a->getType()) == 1 && scalarOK(T) && scalarOK(a->getType())) { setShV(&I, sh(a)); return; }
    concOperands(I, "vector bitcast");
    return;
  }
  case Instruction::PtrToInt: case Instruction::IntToPtr: {
    Value *a = I.getOperand(0);
    unsigned fb = bitsOf(a->getType()), tb = bitsOf(T);
    if (T->isVectorTy()) { concOperands(I, "vector"); return; }
    if (fb == tb) { setShV(&I, sh(a)); return; }
    Value *s = sh1(a);
    if (isNull(s)) return;
    IRBuilder<> B(after(I));
    setSh(&I, B.CreateCall(fCast, {c32(fb < tb ? OP_ZEXT : OP_TRUNC), c32(fb), c32(tb), s, toI64(B, a), toI64(B, &I), FI}));
    return;
  }
  case Instruction::AddrSpaceCast: concOperands(I, "asc"); return;
  case Instruction::Freeze: setShV(&I, sh(I.getOperand(0))); return;
  case Instruction::Select: {
    auto &S = cast<SelectInst>(I);
    Value *c = S.getCondition();
    auto st = sh(S.getTrueValue()), sf = sh(S.getFalseValue());
    if (c->getType()->isVectorTy()) { concOperands(I, "vector select"); return; }
    Value *sc = sh1(c);
    if (isNull(sc) && allNull(st) && allNull(sf)) return;
    IRBuilder<> B(after(I));
    SmallVector<Value *, 1> out;
    if (T->isPointerTy() || T->isAggregateType() || T->isVectorTy() || !scalarOK(T)) {
      if (!isNull(sc)) { IRBuilder<> B0(&I); B0.CreateCall(fBranch, {sc, B0.CreateZExt(c, I8), FI}); }
      for (unsigned i = 0; i < st.size(); ++i) out.push_back(B.CreateSelect(c, st[i], sf[i]));
    } else {
      out.push_back(B.CreateCall(fSelect, {c32(bitsOf(T)), sc, B.CreateZExt(c, I8), st[0], toI64(B, B.CreateFreeze(S.getTrueValue())), sf[0],
                                           toI64(B, B.CreateFreeze(S.getFalseValue())), FI}));
    }
    setShV(&I, out);
    return;
  }
  case Instruction::ExtractValue: {
    auto &E = cast<ExtractValueInst>(I);
    auto s = sh(E.getAggregateOperand());
    if (allNull(s)) return;
    unsigned pos = 0;
    Type *t = E.getAggregateOperand()->getType();
    for (unsigned ix : E.indices()) {
      for (unsigned i = 0; i < ix; ++i) pos += nleaves(t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType());
      t = t->isStructTy() ? t->getStructElementType(ix) : t->getArrayElementType();
    }
    unsigned n = nleaves(t);
    SmallVector<Value *, 1> out(s.begin() + pos, s.begin() + pos + n);
    setShV(&I, out);
    return;
  }
  case Instruction::InsertValue: {
    auto &E = cast<InsertValueInst>(I);
    auto s = sh(E.getAggregateOperand());
    auto v = sh(E.getInsertedValueOperand());
    unsigned pos = 0;
    Type *t = T;
    for (unsigned ix : E.indices()) {
      for (unsigned i = 0; i < ix; ++i) pos += nleaves(t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType());
      t = t->isStructTy() ? t->getStructElementType(ix) : t->getArrayElementType();
    }
    for (unsigned i = 0; i < v.size(); ++i) s[pos + i] = v[i];
    setShV(&I, s);
    return;
  }
  case Instruction::ExtractElement: {
    auto s = sh(I.getOperand(0));
    IRBuilder<> B0(&I);
    conc(B0, I.getOperand(1), "vector index");
    if (allNull(s)) return;
    if (auto *ci = dyn_cast<ConstantInt>(I.getOperand(1))) { setShV(&I, {s[ci->getZExtValue()]}); return; }
    conc(B0, I.getOperand(0), "vector");
    return;
  }
  case Instruction::InsertElement: {
    auto s = sh(I.getOperand(0));
    auto v = sh(I.getOperand(1));
    if (allNull(s) && allNull(v)) return;
    if (auto *ci = dyn_cast<ConstantInt>(I.getOperand(2))) { s[ci->getZExtValue()] = v[0]; setShV(&I, s); return; }
    concOperands(I, "vector");
    return;
  }
  case Instruction::ShuffleVector: {
    auto &V = cast<ShuffleVectorInst>(I);
    auto a = sh(V.getOperand(0)), b = sh(V.getOperand(1));
    if (allNull(a) && allNull(b)) return;
    SmallVector<Value *, 1> out;
    for (int m : V.getShuffleMask()) out.push_back(m < 0 ? Null : m < (int)a.size() ? a[m] : b[m - a.size()]);
    setShV(&I, out);
    return;
  }
  case Instruction::GetElementPtr: {
    auto &G = cast<GetElementPtrInst>(I);
    if (T->isVectorTy()) { concOperands(I, "vector gep"); return; }
    bool any = !isNull(sh1(G.getPointerOperand()));
    for (Use &u : G.indices()) if (!isNull(sh1(u.get()))) any = true;
    if (!any) return;
    MapVector<Value *, APInt> VO;
    APInt CO(64, 0);
    if (!G.collectOffset(*DL, 64, VO, CO)) { concOperands(I, "gep"); return; }
    IRBuilder<> B(after(I));
    Value *acc = sh1(G.getPointerOperand());
    Value *accV = B.CreatePtrToInt(G.getPointerOperand(), I64);
    auto add = [&](Value *s, Value *v) {
      Value *nv = B.CreateAdd(accV, v);
      if (!isNull(acc) || !isNull(s)) acc = B.CreateCall(fBin, {c32(OP_ADD), c32(64), acc, accV, s, v, nv, FI});
      accV = nv;
    };
    if (CO != 0) add(Null, c64(CO.getZExtValue()));
    for (auto &kv : VO) {
      Value *ix = kv.first, *s = sh1(ix);
      unsigned fb = bitsOf(ix->getType());
      Value *iv = B.CreateSExtOrTrunc(ix, I64);
      if (!isNull(s) && fb < 64) s = B.CreateCall(fCast, {c32(OP_SEXT), c32(fb), c32(64), s, toI64(B, ix), iv, FI});
      Value *pv = B.CreateMul(iv, c64(kv.second.getZExtValue()));
      if (!isNull(s)) s = B.CreateCall(fBin, {c32(OP_MUL), c32(64), s, iv, Null, c64(kv.second.getZExtValue()), pv, FI});
      add(s, pv);
    }
    setSh(&I, acc);
    return;
  }
  case Instruction::Load: {
    handleMemLoad(I, cast<LoadInst>(I).getPointerOperand(), T);
    return;
  }
  case Instruction::Store: {
    auto &S = cast<StoreInst>(I);
    Value *v = S.getValueOperand(), *p = S.getPointerOperand();
    IRBuilder<> B(&I);
    conc(B, p, "address");
    SmallVector<Leaf, 4> lv;
    if (!flatten(v->getType(), 0, lv)) return;
    auto s = sh(v);
    if (allNull(s)) {
      B.CreateCall(fClear, {p, c64(DL->getTypeStoreSize(v->getType()))});
      return;
    }
    for (unsigned k = 0; k < lv.size(); ++k) {
      Value *pp = lv[k].off ? B.CreateConstGEP1_64(I8, p, lv[k].off) : p;
      B.CreateCall(fStore, {pp, c64(DL->getTypeStoreSize(lv[k].ty)), scalarOK(lv[k].ty) ? s[k] : Null, c32(scalarOK(lv[k].ty) ? bitsOf(lv[k].ty) : 0)});
    }
    return;
  }
  case Instruction::AtomicRMW: case Instruction::AtomicCmpXchg: {
    concOperands(I, "atomic");
    IRBuilder<> B(&I);
    Type *vt = isa<AtomicRMWInst>(I) ? cast<AtomicRMWInst>(I).getValOperand()->getType() : cast<AtomicCmpXchgInst>(I).getNewValOperand()->getType();
    Value *p = I.getOperand(0);
    B.CreateCall(fLoad, {p, c64(DL->getTypeStoreSize(vt)), c64(0), c32(0)}); // forces concrete
    B.CreateCall(fClear, {p, c64(DL->getTypeStoreSize(vt))});
    return;
  }
  case Instruction::Alloca: {
    auto &A = cast<AllocaInst>(I);
    if (!isa<Constant>(A.getArraySize())) { IRBuilder<> B0(&I); conc(B0, A.getArraySize(), "alloca size"); }
    auto sz = A.getAllocationSize(*DL);
    if (!sz) return;
    // insert after the block of entry allocas
    Instruction *ip = I.getNextNode();
    while (isa<AllocaInst>(ip)) ip = ip->getNextNode();
    IRBuilder<> B(ip);
    B.CreateCall(fClear, {&I, c64(sz->getFixedValue())});
    return;
  }
  case Instruction::Br: {
    auto &Br = cast<BranchInst>(I);
    if (!Br.isConditional()) return;
    Value *s = sh1(Br.getCondition());
    if (isNull(s)) return;
    IRBuilder<> B(&I);
    B.CreateCall(fBranch, {s, B.CreateZExt(Br.getCondition(), I8), FI});
    return;
  }
  case Instruction::Switch: {
    auto &S = cast<SwitchInst>(I);
    Value *s = sh1(S.getCondition());
    if (isNull(s)) return;
    SmallVector<uint64_t, 16> cv;
    for (auto &c : S.cases()) cv.push_back(c.getCaseValue()->getZExtValue());
    Constant *cd = ConstantDataArray::get(*C, ArrayRef<uint64_t>(cv));
    auto *g = new GlobalVariable(*M, cd->getType(), true, GlobalValue::PrivateLinkage, cd, ".sy.cases");
    IRBuilder<> B(&I);
    B.CreateCall(fSwitch, {s, toI64(B, S.getCondition()), c32(bitsOf(S.getCondition()->getType())), c32(cv.size()), g, FI});
    return;
  }
  case Instruction::IndirectBr: concOperands(I, "indirectbr"); return;
  case Instruction::Ret: {
    auto &R = cast<ReturnInst>(I);
    Value *v = R.getReturnValue();
    if (!v) return;
    unsigned n = nleaves(v->getType());
    if (n == 0) return;
    auto s = sh(v);
    IRBuilder<> B(&I);
    if (n > MAXRETS || allNull(s)) { if (n > MAXRETS) conc(B, v, "return"); B.CreateStore(Null, gRetTag); return; }
    for (unsigned i = 0; i < n; ++i) B.CreateStore(s[i], B.CreateConstInBoundsGEP2_64(gRets->getValueType(), gRets, 0, i));
    B.CreateStore(F, gRetTag);
    return;
  }
  case Instruction::Call: case Instruction::Invoke: handleCall(cast<CallBase>(I)); return;
  case Instruction::VAArg: return;
  default: return;
  }
}

void SymPass::runOnFunction(Function &f, GlobalVariable *fi) {
  F = &f;
  FI = fi;
  Sh.clear();
  work.clear();
  SmallVector<PHINode *, 16> phis;
  // every invoke gets a normal destination of its own (return shadows are read there)
  SmallVector<InvokeInst *, 8> invs;
  for (BasicBlock &BB : f)
    if (auto *inv = dyn_cast<InvokeInst>(BB.getTerminator()))
      if (!inv->getNormalDest()->getSinglePredecessor()) invs.push_back(inv);
  for (InvokeInst *inv : invs) {
    BasicBlock *nd = inv->getNormalDest(), *bb = inv->getParent();
    BasicBlock *nb = BasicBlock::Create(*C, "sy.inv", &f, nd);
    BranchInst::Create(nd, nb);
    inv->setNormalDest(nb);
    nd->replacePhiUsesWith(bb, nb);
  }
  // Program order such that definitions are seen before uses (RPO); phis pre-created.
  for (BasicBlock &BB : f)
    for (Instruction &I : BB)
      if (auto *P = dyn_cast<PHINode>(&I)) phis.push_back(P);
  ReversePostOrderTraversal<Function *> RPOT(&f);
  for (BasicBlock *BB : RPOT)
    for (Instruction &I : *BB)
      if (!isa<PHINode>(I)) work.push_back(&I);
  DenseMap<PHINode *, SmallVector<PHINode *, 1>> shPhi;
  for (PHINode *P : phis) {
    unsigned n = nleaves(P->getType());
    if (!n) continue;
    SmallVector<Value *, 1> s;
    SmallVector<PHINode *, 1> sp;
    for (unsigned i = 0; i < n; ++i) {
      auto *q = PHINode::Create(PtrTy, P->getNumIncomingValues(), "sy.phi", P);
      s.push_back(q);
      sp.push_back(q);
    }
    Sh[P] = s;
    shPhi[P] = sp;
  }
  // function entry
  Instruction *eip = &*f.getEntryBlock().getFirstInsertionPt();
  while (isa<AllocaInst>(eip)) eip = eip->getNextNode();
  if (f.arg_size()) {
    IRBuilder<> B(eip);
    Value *tag = B.CreateLoad(PtrTy, gArgTag);
    Value *m = B.CreateICmpEQ(tag, F);
    unsigned slot = 0;
    for (Argument &a : f.args()) {
      if (a.hasByValAttr()) {
        if (slot < MAXARGS) {
          Value *v = B.CreateLoad(PtrTy, B.CreateConstInBoundsGEP2_64(gArgs->getValueType(), gArgs, 0, slot));
          B.CreateCall(fByval, {&a, B.CreateSelect(m, v, Null), c64(DL->getTypeAllocSize(a.getParamByValType()))});
        }
        ++slot;
        continue;
      }
      unsigned n = nleaves(a.getType());
      SmallVector<Value *, 1> s;
      for (unsigned i = 0; i < n; ++i, ++slot) {
        if (slot >= MAXARGS) { s.push_back(Null); continue; }
        Value *v = B.CreateLoad(PtrTy, B.CreateConstInBoundsGEP2_64(gArgs->getValueType(), gArgs, 0, slot));
        s.push_back(B.CreateSelect(m, v, Null));
      }
      if (n) Sh[&a] = s;
    }
    B.CreateStore(Null, gArgTag);
  }
  for (Instruction *I : work) handle(*I);
  for (PHINode *P : phis) {
    auto it = shPhi.find(P);
    if (it == shPhi.end()) continue;
    for (unsigned k = 0; k < P->getNumIncomingValues(); ++k) {
      auto s = sh(P->getIncomingValue(k));
      for (unsigned i = 0; i < it->second.size(); ++i) it->second[i]->addIncoming(i < s.size() ? s[i] : Null, P->getIncomingBlock(k));
    }
  }
  // unreachable blocks' phis: incoming lists must match (handled above)
}

PreservedAnalyses SymPass::run(Module &m, ModuleAnalysisManager &) {
  init(m);
  std::vector<Function *> fns;
  for (Function &f : m) {
    if (f.isDeclaration() || f.hasAvailableExternallyLinkage()) continue;
    if (skipName(f.getName())) continue;
    if (f.hasFnAttribute(Attribute::Naked)) continue;
    fns.push_back(&f);
  }
  StructType *FIT = StructType::get(*C, {PtrTy, PtrTy, I64});
  std::vector<Constant *> tab;
  for (Function *f : fns) {
    // memory(...) / readnone attributes would be lies once instrumented
    f->removeFnAttr(Attribute::Memory);
    f->removeFnAttr(Attribute::WillReturn);
    f->removeFnAttr(Attribute::NoSync);
    f->removeFnAttr(Attribute::Speculatable);
    for (auto &a : f->args()) {
      a.removeAttr(Attribute::ReadNone); a.removeAttr(Attribute::ReadOnly); a.removeAttr(Attribute::WriteOnly); a.removeAttr(Attribute::NoCapture);
    }
    auto *fi = new GlobalVariable(m, FIT, false, GlobalValue::PrivateLinkage,
                                  ConstantStruct::get(FIT, {f, str(f->getName()), ConstantInt::get(I64, 0)}), ".sy.fi");
    tab.push_back(fi);
    runOnFunction(*f, fi);
  }
  for (Function *f : fns)
    for (Instruction &I : instructions(*f))
      if (auto *cb = dyn_cast<CallBase>(&I)) {
        cb->removeFnAttr(Attribute::Memory);
        cb->removeFnAttr(Attribute::WillReturn);
        cb->removeFnAttr(Attribute::Speculatable);
        if (auto *ci = dyn_cast<CallInst>(cb)) if (!ci->isMustTailCall()) ci->setTailCallKind(CallInst::TCK_None);
      }
  if (!tab.empty()) {
    ArrayType *AT = ArrayType::get(PtrTy, tab.size());
    auto *g = new GlobalVariable(m, AT, true, GlobalValue::PrivateLinkage, ConstantArray::get(AT, tab), ".sy.tab");
    Function *ctor = Function::Create(FunctionType::get(VoidTy, false), GlobalValue::InternalLinkage, "__sy_ctor", m);
    IRBuilder<> B(BasicBlock::Create(*C, "", ctor));
    B.CreateCall(fRegister, {g, c64(tab.size())});
    B.CreateRetVoid();
    appendToGlobalCtors(m, ctor, 0);
  }
  std::string err;
  raw_string_ostream os(err);
  if (verifyModule(m, &os)) {
    errs() << "SymPass produced invalid IR: " << os.str() << "\n";
    exit(1);
  }
  return PreservedAnalyses::none();
}

} // namespace

extern "C" ::llvm::PassPluginLibraryInfo LLVM_ATTRIBUTE_WEAK llvmGetPassPluginInfo() {
  return {LLVM_PLUGIN_API_VERSION, "SymPass", "1", [](PassBuilder &PB) {
            PB.registerOptimizerLastEPCallback([](ModulePassManager &MPM, OptimizationLevel) { MPM.addPass(SymPass()); });
          }};
}
