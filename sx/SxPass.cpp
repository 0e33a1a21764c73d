// Instrumentation pass: turns the LLVM IR of the code under test into code that computes, next to every integer and
// floating point value, the symbolic expression of that value over the harness inputs.
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/PassManager.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/ADT/StringMap.h"
#include "llvm/ADT/DenseSet.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "sx_ops.h"
#include <cstdlib>
using namespace llvm;

namespace {

struct Sx {
  Module& M; LLVMContext& C; const DataLayout& DL;
  Type *Ptr, *I8, *I32, *I64, *VoidT;
  FunctionCallee fBin, fUn, fCast, fIte, fLoad, fStore, fStoreC, fBranch, fSwitch, fConc, fOpaque, fUnsup, fMemcpy, fMemset, fClear, fExtCall;
  GlobalVariable *gArgs, *gRet, *gCallee, *gRetFn;
  Constant* Null;
  StringMap<GlobalVariable*> strs;

  Sx(Module& m) : M(m), C(m.getContext()), DL(m.getDataLayout()) {
    Ptr = PointerType::getUnqual(C); I8 = Type::getInt8Ty(C); I32 = Type::getInt32Ty(C); I64 = Type::getInt64Ty(C); VoidT = Type::getVoidTy(C);
    Null = ConstantPointerNull::get(PointerType::getUnqual(C));
    AttributeList al; al = al.addFnAttribute(C, Attribute::NoUnwind);
    fBin = M.getOrInsertFunction("__sx_bin", al, Ptr, I32, I32, I64, Ptr, I64, Ptr);
    fUn = M.getOrInsertFunction("__sx_un", al, Ptr, I32, I32, I64, Ptr, I64);
    fCast = M.getOrInsertFunction("__sx_cast", al, Ptr, I32, I32, I32, I64, Ptr);
    fIte = M.getOrInsertFunction("__sx_ite", al, Ptr, I8, Ptr, I32, I32, I64, Ptr, I64, Ptr);
    fLoad = M.getOrInsertFunction("__sx_load", al, Ptr, Ptr, I32, I32, I64);
    fStore = M.getOrInsertFunction("__sx_store", al, VoidT, Ptr, I32, Ptr, I64);
    fStoreC = M.getOrInsertFunction("__sx_store_c", al, VoidT, Ptr, I32);
    fBranch = M.getOrInsertFunction("__sx_branch", al, VoidT, Ptr, I8, Ptr, I32);
    fSwitch = M.getOrInsertFunction("__sx_switch", al, VoidT, Ptr, I64, I32, Ptr, I32, Ptr, I32);
    fConc = M.getOrInsertFunction("__sx_conc", al, VoidT, Ptr, I64, I32, Ptr, I32);
    fOpaque = M.getOrInsertFunction("__sx_opaque", al, VoidT, Ptr, Ptr);
    fUnsup = M.getOrInsertFunction("__sx_unsupported", al, VoidT, Ptr, Ptr);
    fMemcpy = M.getOrInsertFunction("__sx_memcpy", al, VoidT, Ptr, Ptr, I64);
    fMemset = M.getOrInsertFunction("__sx_memset", al, VoidT, Ptr, I64, Ptr, I64);
    fClear = M.getOrInsertFunction("__sx_clear", al, VoidT, Ptr, I64);
    fExtCall = M.getOrInsertFunction("__sx_extmem", al, VoidT, Ptr, Ptr);
    gArgs = tls("__sx_args", ArrayType::get(Ptr, 64)); gRet = tls("__sx_ret", ArrayType::get(Ptr, 16));
    gCallee = tls("__sx_callee", Ptr); gRetFn = tls("__sx_retfn", Ptr);
  }
  GlobalVariable* tls(const char* n, Type* t) {
    if (auto* g = M.getGlobalVariable(n)) return g;
    return new GlobalVariable(M, t, false, GlobalValue::ExternalLinkage, nullptr, n, nullptr, GlobalValue::InitialExecTLSModel);
  }
  Constant* str(StringRef s) {
    auto& g = strs[s];
    if (!g) {
      Constant* c = ConstantDataArray::getString(C, s);
      g = new GlobalVariable(M, c->getType(), true, GlobalValue::PrivateLinkage, c, "__sx_s");
      g->setUnnamedAddr(GlobalValue::UnnamedAddr::Global);
    }
    return g;
  }

  // ---- shadow types
  static bool isFP(Type* t) { return t->isDoubleTy() || t->isFloatTy(); }
  static bool isInt(Type* t) { return t->isIntegerTy() && t->getIntegerBitWidth() <= 64; }
  static bool isScalar(Type* t) { return isFP(t) || isInt(t); }
  static unsigned width(Type* t) { return t->isDoubleTy() ? 64 : t->isFloatTy() ? 32 : t->getIntegerBitWidth(); }
  Type* shTy(Type* t) {
    if (isScalar(t)) return Ptr;
    if (auto* s = dyn_cast<StructType>(t)) {
      SmallVector<Type*, 4> e; bool any = false;
      for (auto* x : s->elements()) { Type* y = shTy(x); any |= y != nullptr; e.push_back(y ? y : I8); }
      return any ? StructType::get(C, e) : nullptr;
    }
    if (auto* a = dyn_cast<ArrayType>(t)) { Type* y = shTy(a->getElementType()); return y && a->getNumElements() <= 64 ? ArrayType::get(y, a->getNumElements()) : nullptr; }
    if (auto* v = dyn_cast<FixedVectorType>(t)) return isScalar(v->getElementType()) && v->getNumElements() <= 16 ? ArrayType::get(Ptr, v->getNumElements()) : nullptr;
    return nullptr;
  }
  static bool isNull(Value* s) { return !s || isa<ConstantPointerNull>(s) || isa<ConstantAggregateZero>(s) || isa<UndefValue>(s); }

  // ---- per function
  DenseMap<Value*, Value*> sh;
  Function* F = nullptr; Constant* fnName = nullptr; unsigned siteNo = 0;

  Value* S(Value* v) {
    Type* t = shTy(v->getType());
    if (!t) return nullptr;
    auto it = sh.find(v);
    if (it != sh.end() && it->second) return it->second;
    return Constant::getNullValue(t);
  }
  Value* bits(IRBuilder<>& B, Value* v) {
    Type* t = v->getType();
    if (t->isDoubleTy()) return B.CreateBitCast(v, I64);
    if (t->isFloatTy()) return B.CreateZExt(B.CreateBitCast(v, I32), I64);
    if (t->isPointerTy()) return B.CreatePtrToInt(v, I64);
    if (t == I64) return v;
    return B.CreateZExt(v, I64);
  }
  Value* c32(IRBuilder<>& B, uint64_t v) { return ConstantInt::get(I32, v); }

  void flatten(IRBuilder<>& B, Type* t, Value* s, SmallVectorImpl<Value*>& out) { // shadow value -> scalar list
    Type* st = shTy(t); if (!st) return;
    if (isScalar(t)) { out.push_back(s); return; }
    unsigned n = st->isStructTy() ? st->getStructNumElements() : st->getArrayNumElements();
    for (unsigned i = 0; i < n; ++i) {
      Type* et = t->isStructTy() ? t->getStructElementType(i) : t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType();
      if (!shTy(et)) continue;
      flatten(B, et, B.CreateExtractValue(s, i), out);
    }
  }
  unsigned countFlat(Type* t) {
    Type* st = shTy(t); if (!st) return 0;
    if (isScalar(t)) return 1;
    unsigned n = st->isStructTy() ? st->getStructNumElements() : st->getArrayNumElements(), r = 0;
    for (unsigned i = 0; i < n; ++i) r += countFlat(t->isStructTy() ? t->getStructElementType(i) : t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType());
    return r;
  }
  Value* unflatten(IRBuilder<>& B, Type* t, function_ref<Value*(unsigned)> get, unsigned& k) {
    Type* st = shTy(t);
    if (isScalar(t)) return get(k++);
    Value* r = Constant::getNullValue(st);
    unsigned n = st->isStructTy() ? st->getStructNumElements() : st->getArrayNumElements();
    for (unsigned i = 0; i < n; ++i) {
      Type* et = t->isStructTy() ? t->getStructElementType(i) : t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType();
      if (!shTy(et)) continue;
      r = B.CreateInsertValue(r, unflatten(B, et, get, k), i);
    }
    return r;
  }
  Value* slot(IRBuilder<>& B, GlobalVariable* g, unsigned i) { return B.CreateConstInBoundsGEP2_64(g->getValueType(), g, 0, i); }

  void unsup(IRBuilder<>& B, Value* v, const Twine& what) {
    Value* s = S(v); if (!s || isNull(s)) return;
    SmallVector<Value*, 8> fl; flatten(B, v->getType(), s, fl);
    for (auto* x : fl) if (!isNull(x)) B.CreateCall(fUnsup, {x, str(what.str())});
  }
  void conc(IRBuilder<>& B, Value* v) {
    if (!isInt(v->getType())) { unsup(B, v, "conc"); return; }
    Value* s = S(v); if (isNull(s)) return;
    B.CreateCall(fConc, {s, bits(B, v), c32(B, width(v->getType())), fnName, c32(B, siteNo++)});
  }

  Value* bin(IRBuilder<>& B, unsigned op, unsigned w, Value* a, Value* sa, Value* b, Value* sb) {
    if (isNull(sa) && isNull(sb)) return Null;
    return B.CreateCall(fBin, {c32(B, op), c32(B, w), bits(B, a), sa, bits(B, b), sb});
  }
  Value* un(IRBuilder<>& B, unsigned op, unsigned w, Value* a, Value* sa, uint64_t imm = 0) {
    if (isNull(sa)) return Null;
    return B.CreateCall(fUn, {c32(B, op), c32(B, w), bits(B, a), sa, ConstantInt::get(I64, imm)});
  }
  Value* castE(IRBuilder<>& B, unsigned op, unsigned fw, unsigned tw, Value* a, Value* sa) {
    if (isNull(sa)) return Null;
    return B.CreateCall(fCast, {c32(B, op), c32(B, fw), c32(B, tw), bits(B, a), sa});
  }
  Value* ite(IRBuilder<>& B, Value* c, Value* sc, Type* t, Value* a, Value* sa, Value* b, Value* sb) {
    if (isNull(sc) && isNull(sa) && isNull(sb)) return Null;
    return B.CreateCall(fIte, {B.CreateZExt(c, I8), sc, c32(B, width(t)), c32(B, isFP(t)), bits(B, a), sa, bits(B, b), sb});
  }

  static unsigned binOp(unsigned o) {
    switch (o) {
      case Instruction::Add: return OP_ADD; case Instruction::Sub: return OP_SUB; case Instruction::Mul: return OP_MUL;
      case Instruction::UDiv: return OP_UDIV; case Instruction::SDiv: return OP_SDIV; case Instruction::URem: return OP_UREM; case Instruction::SRem: return OP_SREM;
      case Instruction::Shl: return OP_SHL; case Instruction::LShr: return OP_LSHR; case Instruction::AShr: return OP_ASHR;
      case Instruction::And: return OP_AND; case Instruction::Or: return OP_OR; case Instruction::Xor: return OP_XOR;
      case Instruction::FAdd: return OP_FADD; case Instruction::FSub: return OP_FSUB; case Instruction::FMul: return OP_FMUL; case Instruction::FDiv: return OP_FDIV; case Instruction::FRem: return OP_FREM;
    }
    return 0;
  }
  static unsigned icmpOp(CmpInst::Predicate p) {
    switch (p) {
      case CmpInst::ICMP_EQ: return OP_EQ; case CmpInst::ICMP_NE: return OP_NE; case CmpInst::ICMP_ULT: return OP_ULT; case CmpInst::ICMP_ULE: return OP_ULE;
      case CmpInst::ICMP_UGT: return OP_UGT; case CmpInst::ICMP_UGE: return OP_UGE; case CmpInst::ICMP_SLT: return OP_SLT; case CmpInst::ICMP_SLE: return OP_SLE;
      case CmpInst::ICMP_SGT: return OP_SGT; case CmpInst::ICMP_SGE: return OP_SGE; default: return 0;
    }
  }
  // fcmp in terms of OEQ/OLT/OLE/UNO and boolean negation (un OP_NOT)
  Value* fcmp(IRBuilder<>& B, CmpInst::Predicate p, unsigned w, Value* a, Value* sa, Value* b, Value* sb) {
    if (isNull(sa) && isNull(sb)) return Null;
    auto neg = [&](Value* s, Value* cv) { return B.CreateCall(fUn, {c32(B, OP_NOT), c32(B, 1), B.CreateZExt(cv, I64), s, ConstantInt::get(I64, 0)}); };
    auto pos = [&](unsigned op, Value* x, Value* sx, Value* y, Value* sy) { return bin(B, op, w, x, sx, y, sy); };
    auto orr = [&](Value* s1, Value* c1, Value* s2, Value* c2) { return B.CreateCall(fBin, {c32(B, OP_OR), c32(B, 1), B.CreateZExt(c1, I64), s1, B.CreateZExt(c2, I64), s2}); };
    switch (p) {
      case CmpInst::FCMP_OEQ: return pos(OP_FOEQ, a, sa, b, sb);
      case CmpInst::FCMP_UNE: return neg(pos(OP_FOEQ, a, sa, b, sb), B.CreateFCmpOEQ(a, b));
      case CmpInst::FCMP_OLT: return pos(OP_FOLT, a, sa, b, sb);
      case CmpInst::FCMP_UGE: return neg(pos(OP_FOLT, a, sa, b, sb), B.CreateFCmpOLT(a, b));
      case CmpInst::FCMP_OLE: return pos(OP_FOLE, a, sa, b, sb);
      case CmpInst::FCMP_UGT: return neg(pos(OP_FOLE, a, sa, b, sb), B.CreateFCmpOLE(a, b));
      case CmpInst::FCMP_OGT: return pos(OP_FOLT, b, sb, a, sa);
      case CmpInst::FCMP_ULE: return neg(pos(OP_FOLT, b, sb, a, sa), B.CreateFCmpOLT(b, a));
      case CmpInst::FCMP_OGE: return pos(OP_FOLE, b, sb, a, sa);
      case CmpInst::FCMP_ULT: return neg(pos(OP_FOLE, b, sb, a, sa), B.CreateFCmpOLE(b, a));
      case CmpInst::FCMP_UNO: return pos(OP_FUNO, a, sa, b, sb);
      case CmpInst::FCMP_ORD: return neg(pos(OP_FUNO, a, sa, b, sb), B.CreateFCmpUNO(a, b));
      case CmpInst::FCMP_UEQ: return orr(pos(OP_FOEQ, a, sa, b, sb), B.CreateFCmpOEQ(a, b), pos(OP_FUNO, a, sa, b, sb), B.CreateFCmpUNO(a, b));
      case CmpInst::FCMP_ONE: return neg(orr(pos(OP_FOEQ, a, sa, b, sb), B.CreateFCmpOEQ(a, b), pos(OP_FUNO, a, sa, b, sb), B.CreateFCmpUNO(a, b)), B.CreateFCmpUEQ(a, b));
      default: return Null;
    }
  }

  static bool isExternalName(StringRef n) {
    if (n.startswith("__sxr_")) return true;
    if (n.startswith("__sx") || n.startswith("sxh_")) return false;
    if (n.startswith("_ZNSt7__cxx1112basic_string") || n.startswith("_ZNKSt7__cxx1112basic_string")) return false;  // instantiated, instrumented, in strings.cpp
    if (!n.startswith("_Z")) return true;
    if (n.contains("7powsybl") || n.contains("sxh_")) return false;
    return n.startswith("_ZNS") || n.startswith("_ZNKS") || n.startswith("_ZS") || n.startswith("_ZN5boost") || n.startswith("_ZNK5boost") || n.startswith("_ZN10__cxxabi") || n.startswith("_ZTh") || n.startswith("_Zn") || n.startswith("_Zd");
  }
  static const char* redirect(StringRef n) {
    static const char* const t[][2] = {
      {"memcmp", "__sxm_memcmp"}, {"bcmp", "__sxm_memcmp"}, {"strlen", "__sxm_strlen"}, {"strcmp", "__sxm_strcmp"}, {"memchr", "__sxm_memchr"},
      {"strtod", "__sxm_strtod"}, {"strtol", "__sxm_strtol"}, {"strtoul", "__sxm_strtoul"}, {"__isoc23_strtol", "__sxm_strtol"}, {"__isoc23_strtoul", "__sxm_strtoul"},
      {"sin", "__sxm_sin"}, {"cos", "__sxm_cos"}, {"tan", "__sxm_tan"}, {"atan", "__sxm_atan"}, {"atan2", "__sxm_atan2"}, {"hypot", "__sxm_hypot"}, {"exp", "__sxm_exp"}, {"log", "__sxm_log"}, {"pow", "__sxm_pow"},
      {"sqrt", "__sxm_sqrt"}, {"fabs", "__sxm_fabs"}, {"round", "__sxm_round"}, {"cabs", "__sxm_cabs"}, {"carg", "__sxm_carg"}, {"fmod", "__sxm_fmod"},
      {"_ZNSt7__cxx119to_stringEi", "sxh_tostr_i"}, {"_ZNSt7__cxx119to_stringEl", "sxh_tostr_l"}, {"_ZNSt7__cxx119to_stringEx", "sxh_tostr_x"},
      {"_ZNSt7__cxx119to_stringEj", "sxh_tostr_j"}, {"_ZNSt7__cxx119to_stringEm", "sxh_tostr_m"}, {"_ZNSt7__cxx119to_stringEy", "sxh_tostr_y"}, {"_ZNSo9_M_insertIdEERSoT_", "sxh_insert_double"},
      {"__muldc3", "__sxm_muldc3"}, {"__divdc3", "__sxm_divdc3"},
    };
    for (auto& e : t) if (n == e[0]) return e[1];
    return nullptr;
  }

  // ---- calls
  void call(CallBase* CB) {
    Function* callee = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts());
    if (CB->isInlineAsm()) { IRBuilder<> B(CB); for (auto& a : CB->args()) unsup(B, a.get(), "inline asm"); return; }
    if (callee && callee->isIntrinsic()) { intrinsic(CB, callee); return; }
    if (auto* ci = dyn_cast<CallInst>(CB)) if (ci->getTailCallKind() != CallInst::TCK_NoTail) ci->setTailCallKind(CallInst::TCK_None);
    IRBuilder<> B(CB);
    Value* target = CB->getCalledOperand();
    StringRef name = callee ? callee->getName() : StringRef();
    bool rtfn = name.startswith("__sx_") && !name.startswith("__sx_api");
    if (rtfn) return;
    bool ext = callee && callee->isDeclaration() && isExternalName(name);
    if (ext) {
      for (auto& a : CB->args()) {
        Value* v = a.get();
        if (v->getType()->isPointerTy()) { if (!isa<Constant>(v) && !name.startswith("_Zd") && name != "free") B.CreateCall(fExtCall, {v, str(name)}); continue; }
        Value* s = S(v); if (!s || isNull(s)) continue;
        if (isInt(v->getType()) && !name.startswith("_ZNSo") && !name.startswith("_ZNSolsE") && name != "snprintf" && name != "vsnprintf") conc(B, v);
        else { SmallVector<Value*, 8> fl; flatten(B, v->getType(), s, fl); for (auto* x : fl) if (!isNull(x)) B.CreateCall(fOpaque, {x, str(name)}); }
      }
      return;
    }
    // pass argument shadows
    SmallVector<Value*, 16> fl; bool any = false;
    for (unsigned i = 0; i < CB->arg_size(); ++i) {
      Value* v = CB->getArgOperand(i);
      if (v->getType()->isPointerTy()) { if (CB->isByValArgument(i)) { fl.push_back(v); any = true; } continue; }
      if (!shTy(v->getType())) continue;
      SmallVector<Value*, 4> one; flatten(B, v->getType(), S(v), one);
      for (auto* x : one) { if (!isNull(x)) any = true; fl.push_back(x); }
    }
    if (fl.size() > 60) { any = false; }
    if (any) {
      B.CreateStore(target, gCallee);
      for (unsigned i = 0; i < fl.size(); ++i) B.CreateStore(fl[i], slot(B, gArgs, i));
    } else if (!fl.empty() || !callee) B.CreateStore(Null, gCallee);
    // fetch result shadows
    Type* rt = CB->getType();
    unsigned n = countFlat(rt);
    if (n == 0 || n > 16 || CB->use_empty()) return;
    Instruction* ip = nullptr;
    if (auto* II = dyn_cast<InvokeInst>(CB)) ip = &*II->getNormalDest()->getFirstInsertionPt(); else ip = CB->getNextNode();
    IRBuilder<> A(ip);
    Value* m = A.CreateICmpEQ(A.CreateLoad(Ptr, gRetFn), target);
    unsigned k = 0;
    sh[CB] = unflatten(A, rt, [&](unsigned i) { return A.CreateSelect(m, A.CreateLoad(Ptr, slot(A, gRet, i)), Null); }, k);
  }

  void intrinsic(CallBase* CB, Function* callee) {
    auto id = callee->getIntrinsicID();
    Type* t = CB->getType();
    IRBuilder<> B(CB);
    auto A = [&]() { return IRBuilder<>(CB->getNextNode()); };
    auto arg = [&](unsigned i) { return CB->getArgOperand(i); };
    switch (id) {
      case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline:
        conc(B, arg(2)); B.CreateCall(fMemcpy, {arg(0), arg(1), bits(B, arg(2))}); return;
      case Intrinsic::memset: case Intrinsic::memset_inline:
        conc(B, arg(2)); B.CreateCall(fMemset, {arg(0), bits(B, arg(1)), S(arg(1)), bits(B, arg(2))}); return;
      case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label:
      case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::eh_typeid_for: case Intrinsic::objectsize: case Intrinsic::is_constant:
      case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::stacksave: case Intrinsic::stackrestore: case Intrinsic::trap: case Intrinsic::vastart: case Intrinsic::vaend: case Intrinsic::vacopy:
      case Intrinsic::threadlocal_address: case Intrinsic::returnaddress: case Intrinsic::frameaddress:
        return;
      case Intrinsic::expect: sh[CB] = S(arg(0)); return;
      default: break;
    }
    if (isScalar(t)) {
      IRBuilder<> a = A(); unsigned w = width(t);
      auto bin2 = [&](unsigned op) { sh[CB] = bin(a, op, w, arg(0), S(arg(0)), arg(1), S(arg(1))); };
      auto minmax = [&](unsigned cmp, CmpInst::Predicate p) {
        Value* sc = bin(a, cmp, w, arg(0), S(arg(0)), arg(1), S(arg(1)));
        Value* c = a.CreateICmp(p, arg(0), arg(1));
        sh[CB] = ite(a, c, sc, t, arg(0), S(arg(0)), arg(1), S(arg(1)));
      };
      switch (id) {
        case Intrinsic::umin: minmax(OP_ULT, CmpInst::ICMP_ULT); return;
        case Intrinsic::umax: minmax(OP_UGT, CmpInst::ICMP_UGT); return;
        case Intrinsic::smin: minmax(OP_SLT, CmpInst::ICMP_SLT); return;
        case Intrinsic::smax: minmax(OP_SGT, CmpInst::ICMP_SGT); return;
        case Intrinsic::abs: {
          Value* s = S(arg(0)); if (isNull(s)) return;
          Value* z = Constant::getNullValue(t);
          Value* sc = bin(a, OP_SLT, w, arg(0), s, z, Null); Value* c = a.CreateICmpSLT(arg(0), z);
          Value* ng = a.CreateNeg(arg(0)); Value* sn = bin(a, OP_SUB, w, z, Null, arg(0), s);
          sh[CB] = ite(a, c, sc, t, ng, sn, arg(0), s); return; }
        case Intrinsic::uadd_sat: case Intrinsic::usub_sat: {
          Value *x = arg(0), *y = arg(1); bool add = id == Intrinsic::uadd_sat;
          if (isNull(S(x)) && isNull(S(y))) return;
          Value* r = add ? a.CreateAdd(x, y) : a.CreateSub(x, y); Value* sr = bin(a, add ? OP_ADD : OP_SUB, w, x, S(x), y, S(y));
          Value* c = add ? a.CreateICmpULT(r, x) : a.CreateICmpULT(x, y);
          Value* sc = add ? bin(a, OP_ULT, w, r, sr, x, S(x)) : bin(a, OP_ULT, w, x, S(x), y, S(y));
          Value* sat = add ? (Value*)Constant::getAllOnesValue(t) : (Value*)Constant::getNullValue(t);
          sh[CB] = ite(a, c, sc, t, sat, Null, r, sr); return; }
        case Intrinsic::fshl: case Intrinsic::fshr:
          if (arg(0) == arg(1) || true) {
            Value *x = arg(0), *y = arg(1), *z = arg(2);
            if (auto* k = dyn_cast<ConstantInt>(z)) {
              uint64_t n = k->getZExtValue() % w; if (id == Intrinsic::fshr) n = (w - n) % w;
              if (n == 0) { sh[CB] = id == Intrinsic::fshl ? S(x) : S(y); return; }
              Constant *cn = ConstantInt::get(t, n), *cm = ConstantInt::get(t, w - n);
              Value* h = bin(a, OP_SHL, w, x, S(x), cn, Null); Value* l = bin(a, OP_LSHR, w, y, S(y), cm, Null);
              sh[CB] = bin(a, OP_OR, w, a.CreateShl(x, cn), h, a.CreateLShr(y, cm), l); return;
            }
            for (auto* v : {x, y, z}) unsup(B, v, "fsh"); return;
          }
          return;
        case Intrinsic::fabs: sh[CB] = un(a, OP_FABS, w, arg(0), S(arg(0))); return;
        case Intrinsic::sqrt: sh[CB] = un(a, OP_FSQRT, w, arg(0), S(arg(0))); return;
        case Intrinsic::floor: sh[CB] = un(a, OP_FROUND, w, arg(0), S(arg(0)), 0); return;
        case Intrinsic::ceil: sh[CB] = un(a, OP_FROUND, w, arg(0), S(arg(0)), 1); return;
        case Intrinsic::trunc: sh[CB] = un(a, OP_FROUND, w, arg(0), S(arg(0)), 2); return;
        case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: sh[CB] = un(a, OP_FROUND, w, arg(0), S(arg(0)), 3); return;
        case Intrinsic::round: sh[CB] = un(a, OP_FROUND, w, arg(0), S(arg(0)), 4); return;
        case Intrinsic::copysign: bin2(OP_FCOPYSIGN); return;
        case Intrinsic::minnum: bin2(OP_FMIN); return;
        case Intrinsic::maxnum: bin2(OP_FMAX); return;
        case Intrinsic::is_fpclass: {
          Value* v = arg(0); if (!isFP(v->getType())) { unsup(B, v, "fpclass"); return; }
          sh[CB] = un(a, OP_FISCLASS, width(v->getType()), v, S(v), cast<ConstantInt>(arg(1))->getZExtValue()); return; }
        case Intrinsic::fmuladd: case Intrinsic::fma: {
          Value* m = bin(a, OP_FMUL, w, arg(0), S(arg(0)), arg(1), S(arg(1)));
          sh[CB] = bin(a, OP_FADD, w, a.CreateFMul(arg(0), arg(1)), m, arg(2), S(arg(2))); return; }
        case Intrinsic::sin: sh[CB] = un(a, OP_UF, w, arg(0), S(arg(0)), 1); return;
        case Intrinsic::cos: sh[CB] = un(a, OP_UF, w, arg(0), S(arg(0)), 2); return;
        default: break;
      }
    }
    if (auto* wo = dyn_cast<WithOverflowInst>(CB)) {
      IRBuilder<> a = A(); Value *x = wo->getLHS(), *y = wo->getRHS(); Type* it = x->getType();
      if (!isInt(it)) { unsup(B, x, "wo"); return; }
      unsigned w = width(it);
      if (isNull(S(x)) && isNull(S(y))) return;
      Value* r = a.CreateExtractValue(CB, 0);
      Value* sr = bin(a, binOp(wo->getBinaryOp()), w, x, S(x), y, S(y));
      Value* ov = Null;
      if (wo->getBinaryOp() == Instruction::Add && !wo->isSigned()) ov = bin(a, OP_ULT, w, r, sr, x, S(x));
      else if (wo->getBinaryOp() == Instruction::Sub && !wo->isSigned()) ov = bin(a, OP_ULT, w, x, S(x), y, S(y));
      else if (wo->getBinaryOp() == Instruction::Mul && !wo->isSigned() && isa<ConstantInt>(y) && !cast<ConstantInt>(y)->isZero()) {
        auto* k = cast<ConstantInt>(y); APInt lim = APInt::getMaxValue(w).udiv(k->getValue());
        ov = bin(a, OP_UGT, w, x, S(x), ConstantInt::get(it, lim), Null);
      } else { unsup(B, x, "overflow-op"); unsup(B, y, "overflow-op"); }
      Value* s = Constant::getNullValue(shTy(CB->getType()));
      s = a.CreateInsertValue(s, sr, 0); s = a.CreateInsertValue(s, ov, 1);
      sh[CB] = s; return;
    }
    for (auto& a : CB->args()) if (shTy(a->getType())) unsup(B, a.get(), callee->getName());
  }

  static bool interesting(Function& F) {
    StringRef n = F.getName();
    return !F.isDeclaration() && !n.startswith("__sx") && !F.hasFnAttribute(Attribute::Naked);
  }

  void function(Function& Fn) {
    F = &Fn; sh.clear(); siteNo = 0; fnName = str(Fn.getName());
    // give every invoke a private normal destination
    SmallVector<InvokeInst*, 16> invs;
    for (auto& BB : Fn) if (auto* II = dyn_cast<InvokeInst>(BB.getTerminator())) if (!II->getNormalDest()->getSinglePredecessor()) invs.push_back(II);
    for (auto* II : invs) {
      BasicBlock* D = II->getNormalDest();
      BasicBlock* N = BasicBlock::Create(C, "sx.inv", &Fn, D);
      BranchInst::Create(D, N);
      // only the normal edge is replaced
      II->setNormalDest(N);
      for (auto& phi : D->phis()) { int i = phi.getBasicBlockIndex(II->getParent()); if (i >= 0) phi.setIncomingBlock(i, N); }
    }
    SmallVector<Instruction*, 256> ins; SmallVector<PHINode*, 32> phis;
    ReversePostOrderTraversal<Function*> rpo(&Fn);
    for (auto* BB : rpo) for (auto& I : *BB) ins.push_back(&I);
    // arguments
    {
      IRBuilder<> B(&*Fn.getEntryBlock().getFirstInsertionPt());
      unsigned k = 0; Value* m = nullptr;
      unsigned total = 0; for (auto& a : Fn.args()) total += a.getType()->isPointerTy() ? (a.hasByValAttr() ? 1 : 0) : countFlat(a.getType());
      if (total && total <= 60 && !Fn.isVarArg())
        for (auto& a : Fn.args()) {
          if (a.getType()->isPointerTy()) {
            if (!a.hasByValAttr()) continue;
            if (!m) m = B.CreateICmpEQ(B.CreateLoad(Ptr, gCallee), &Fn);
            Value* src = B.CreateSelect(m, B.CreateLoad(Ptr, slot(B, gArgs, k++)), &a);
            B.CreateCall(fMemcpy, {&a, src, ConstantInt::get(I64, DL.getTypeAllocSize(a.getParamByValType()))});
            continue;
          }
          if (!shTy(a.getType())) continue;
          if (!m) m = B.CreateICmpEQ(B.CreateLoad(Ptr, gCallee), &Fn);
          sh[&a] = unflatten(B, a.getType(), [&](unsigned i) { return B.CreateSelect(m, B.CreateLoad(Ptr, slot(B, gArgs, i)), Null); }, k);
        }
    }
    // optimistic fixpoint: which values can carry an expression at all
    DenseSet<Value*> may; SmallVector<Value*, 64> work;
    auto mark = [&](Value* v) { if (shTy(v->getType()) && may.insert(v).second) work.push_back(v); };
    for (auto& a : Fn.args()) mark(&a);
    for (auto* I : ins) if (isa<LoadInst>(I) || (isa<CallBase>(I) && !isa<IntrinsicInst>(I))) mark(I);
    while (!work.empty()) { Value* v = work.pop_back_val(); for (auto* u : v->users()) if (auto* ui = dyn_cast<Instruction>(u)) if (!isa<CallBase>(ui) || isa<IntrinsicInst>(ui)) mark(ui); }
    for (auto* I : ins) if (auto* P = dyn_cast<PHINode>(I)) if (Type* t = may.count(P) ? shTy(P->getType()) : nullptr) {
      auto* q = PHINode::Create(t, P->getNumIncomingValues(), "", P); sh[P] = q; phis.push_back(P);
    }
    for (auto* I : ins) visit(I);
    for (auto* P : phis) { auto* q = cast<PHINode>(sh[P]); for (unsigned i = 0; i < P->getNumIncomingValues(); ++i) q->addIncoming(S(P->getIncomingValue(i)), P->getIncomingBlock(i)); }
  }

  void visit(Instruction* I) {
    Type* t = I->getType();
    if (isa<PHINode>(I)) return;
    if (auto* CB = dyn_cast<CallBase>(I)) { call(CB); return; }
    if (isa<LandingPadInst>(I) || isa<ResumeInst>(I) || isa<UnreachableInst>(I)) return;
    if (auto* A = dyn_cast<AllocaInst>(I)) {
      auto sz = A->getAllocationSize(DL);
      if (sz && !sz->isScalable() && sz->getFixedValue() <= 4096) { IRBuilder<> B(I->getNextNode()); B.CreateCall(fClear, {I, ConstantInt::get(I64, sz->getFixedValue())}); }
      return;
    }
    if (auto* R = dyn_cast<ReturnInst>(I)) {
      Value* v = R->getReturnValue(); if (!v) return;
      IRBuilder<> B(I);
      unsigned n = countFlat(v->getType()); if (!n || n > 16) return;
      Value* s = S(v);
      if (isNull(s)) { B.CreateStore(Null, gRetFn); return; }
      SmallVector<Value*, 8> fl; flatten(B, v->getType(), s, fl);
      B.CreateStore(F, gRetFn);
      for (unsigned i = 0; i < fl.size(); ++i) B.CreateStore(fl[i], slot(B, gRet, i));
      return;
    }
    if (auto* Br = dyn_cast<BranchInst>(I)) {
      if (!Br->isConditional()) return;
      Value* s = S(Br->getCondition()); if (isNull(s)) return;
      IRBuilder<> B(I); B.CreateCall(fBranch, {s, B.CreateZExt(Br->getCondition(), I8), fnName, c32(B, siteNo++)});
      return;
    }
    if (auto* Sw = dyn_cast<SwitchInst>(I)) {
      Value* c = Sw->getCondition(); IRBuilder<> B(I);
      if (!isInt(c->getType())) { unsup(B, c, "switch"); return; }
      Value* s = S(c); if (isNull(s)) return;
      SmallVector<uint64_t, 16> cs; for (auto& k : Sw->cases()) cs.push_back(k.getCaseValue()->getZExtValue());
      Constant* arr = ConstantDataArray::get(C, cs);
      auto* g = new GlobalVariable(M, arr->getType(), true, GlobalValue::PrivateLinkage, arr, "__sx_sw");
      B.CreateCall(fSwitch, {s, bits(B, c), c32(B, width(c->getType())), g, c32(B, cs.size()), fnName, c32(B, siteNo)}); siteNo += 1;
      return;
    }
    if (auto* L = dyn_cast<LoadInst>(I)) {
      IRBuilder<> B(I->getNextNode());
      if (isScalar(t)) {
        unsigned w = width(t); Value* p = L->getPointerOperand();
        if (isFP(t) || w % 8 == 0) sh[I] = B.CreateCall(fLoad, {p, c32(B, w / 8), c32(B, isFP(t)), bits(B, I)});
        return;
      }
      if (auto* v = dyn_cast<FixedVectorType>(t)) if (shTy(t)) {
        Type* e = v->getElementType(); unsigned w = width(e); if (w % 8) return;
        Value* r = Constant::getNullValue(shTy(t));
        for (unsigned i = 0; i < v->getNumElements(); ++i) {
          Value* p = B.CreateConstGEP1_64(I8, L->getPointerOperand(), i * (w / 8));
          r = B.CreateInsertValue(r, B.CreateCall(fLoad, {p, c32(B, w / 8), c32(B, isFP(e)), bits(B, B.CreateExtractElement(I, i))}), i);
        }
        sh[I] = r;
      }
      return;
    }
    if (auto* St = dyn_cast<StoreInst>(I)) {
      Value *v = St->getValueOperand(), *p = St->getPointerOperand(); Type* vt = v->getType(); IRBuilder<> B(I);
      if (vt->isPointerTy()) return;
      uint64_t sz = DL.getTypeStoreSize(vt);
      if (isScalar(vt) && (isFP(vt) || width(vt) % 8 == 0)) {
        Value* s = S(v);
        if (isNull(s)) B.CreateCall(fStoreC, {p, c32(B, sz)}); else B.CreateCall(fStore, {p, c32(B, sz), s, bits(B, v)});
        return;
      }
      if (auto* vv = dyn_cast<FixedVectorType>(vt)) if (shTy(vt) && width(vv->getElementType()) % 8 == 0 && !isNull(S(v))) {
        unsigned w = width(vv->getElementType()); Value* s = S(v);
        for (unsigned i = 0; i < vv->getNumElements(); ++i)
          B.CreateCall(fStore, {B.CreateConstGEP1_64(I8, p, i * (w / 8)), c32(B, w / 8), B.CreateExtractValue(s, i), bits(B, B.CreateExtractElement(v, i))});
        return;
      }
      unsup(B, v, "store-type"); B.CreateCall(fStoreC, {p, c32(B, sz)});
      return;
    }
    if (auto* G = dyn_cast<GetElementPtrInst>(I)) { IRBuilder<> B(I); for (auto& x : G->indices()) if (!isa<Constant>(x)) { if (isInt(x->getType())) conc(B, x); else unsup(B, x, "gep"); } return; }
    if (auto* BO = dyn_cast<BinaryOperator>(I)) {
      Value *a = BO->getOperand(0), *b = BO->getOperand(1); unsigned op = binOp(BO->getOpcode());
      if (isScalar(t)) {
        if (isNull(S(a)) && isNull(S(b))) return;
        if (op == OP_UDIV || op == OP_SDIV || op == OP_UREM || op == OP_SREM) {
          if (!isNull(S(b))) { IRBuilder<> B(I); Value* z = Constant::getNullValue(t);
            Value* sc = bin(B, OP_EQ, width(t), b, S(b), z, Null); B.CreateCall(fBranch, {sc, B.CreateZExt(B.CreateICmpEQ(b, z), I8), fnName, c32(B, siteNo++)}); }
        }
        IRBuilder<> B(I->getNextNode());
        if (op == OP_FREM) { unsup(B, a, "frem"); unsup(B, b, "frem"); return; }
        sh[I] = bin(B, op, width(t), a, S(a), b, S(b)); return;
      }
      if (auto* v = dyn_cast<FixedVectorType>(t)) if (shTy(t)) {
        if (isNull(S(a)) && isNull(S(b))) return;
        IRBuilder<> B(I->getNextNode()); Value* r = Constant::getNullValue(shTy(t)); Value *sa = S(a), *sb = S(b);
        for (unsigned i = 0; i < v->getNumElements(); ++i)
          r = B.CreateInsertValue(r, bin(B, op, width(v->getElementType()), B.CreateExtractElement(a, i), B.CreateExtractValue(sa, i), B.CreateExtractElement(b, i), B.CreateExtractValue(sb, i)), i);
        sh[I] = r; return;
      }
      IRBuilder<> B(I); unsup(B, a, "wide-binop"); unsup(B, b, "wide-binop"); return;
    }
    if (auto* U = dyn_cast<UnaryOperator>(I)) {
      if (isScalar(t)) { IRBuilder<> B(I->getNextNode()); sh[I] = un(B, OP_FNEG, width(t), U->getOperand(0), S(U->getOperand(0))); return; }
      IRBuilder<> B(I); unsup(B, U->getOperand(0), "vec-fneg"); return;
    }
    if (auto* Cm = dyn_cast<ICmpInst>(I)) {
      Value *a = Cm->getOperand(0), *b = Cm->getOperand(1);
      if (isInt(a->getType())) { IRBuilder<> B(I->getNextNode()); sh[I] = bin(B, icmpOp(Cm->getPredicate()), width(a->getType()), a, S(a), b, S(b)); return; }
      IRBuilder<> B(I); unsup(B, a, "vec-icmp"); unsup(B, b, "vec-icmp"); return;
    }
    if (auto* Cm = dyn_cast<FCmpInst>(I)) {
      Value *a = Cm->getOperand(0), *b = Cm->getOperand(1);
      if (isFP(a->getType())) { IRBuilder<> B(I->getNextNode()); sh[I] = fcmp(B, Cm->getPredicate(), width(a->getType()), a, S(a), b, S(b)); return; }
      if (auto* v = dyn_cast<FixedVectorType>(a->getType())) if (isFP(v->getElementType())) {
        if (isNull(S(a)) && isNull(S(b))) return;
        IRBuilder<> B(I->getNextNode()); Value* r = Constant::getNullValue(shTy(t));
        for (unsigned i = 0; i < v->getNumElements(); ++i)
          r = B.CreateInsertValue(r, fcmp(B, Cm->getPredicate(), width(v->getElementType()), B.CreateExtractElement(a, i), B.CreateExtractValue(S(a), i), B.CreateExtractElement(b, i), B.CreateExtractValue(S(b), i)), i);
        sh[I] = r; return;
      }
      IRBuilder<> B(I); unsup(B, a, "fcmp"); unsup(B, b, "fcmp"); return;
    }
    if (auto* Se = dyn_cast<SelectInst>(I)) {
      Value *c = Se->getCondition(), *a = Se->getTrueValue(), *b = Se->getFalseValue();
      if (!c->getType()->isIntegerTy(1)) { IRBuilder<> B(I); unsup(B, c, "vec-select"); unsup(B, a, "vec-select"); unsup(B, b, "vec-select"); return; }
      if (isScalar(t)) { IRBuilder<> B(I->getNextNode()); sh[I] = ite(B, c, S(c), t, a, S(a), b, S(b)); return; }
      Value* sc = S(c);
      if (!isNull(sc)) { IRBuilder<> B(I); B.CreateCall(fBranch, {sc, B.CreateZExt(c, I8), fnName, c32(B, siteNo++)}); }
      if (shTy(t)) { IRBuilder<> B(I->getNextNode()); if (!isNull(S(a)) || !isNull(S(b))) sh[I] = B.CreateSelect(c, S(a), S(b)); }
      return;
    }
    if (auto* Ca = dyn_cast<CastInst>(I)) {
      Value* v = Ca->getOperand(0); Type* f = v->getType();
      if (isa<IntToPtrInst>(I)) { IRBuilder<> B(I); if (isInt(f)) conc(B, v); else unsup(B, v, "inttoptr"); return; }
      if (isScalar(f) && isScalar(t)) {
        IRBuilder<> B(I->getNextNode()); unsigned op = 0, fw = width(f), tw = width(t);
        switch (Ca->getOpcode()) {
          case Instruction::ZExt: op = OP_ZEXT; break; case Instruction::SExt: op = OP_SEXT; break; case Instruction::Trunc: op = OP_TRUNC; break;
          case Instruction::FPExt: op = OP_FEXT; break; case Instruction::FPTrunc: op = OP_FTRUNC; break;
          case Instruction::FPToSI: op = OP_FTOSI; break; case Instruction::FPToUI: op = OP_FTOUI; break; case Instruction::SIToFP: op = OP_SITOF; break; case Instruction::UIToFP: op = OP_UITOF; break;
          case Instruction::BitCast: op = isFP(f) ? (isFP(t) ? 0 : OP_F2BV) : (isFP(t) ? OP_BV2F : 0); if (!op) { sh[I] = S(v); return; } break;
          default: return;
        }
        sh[I] = castE(B, op, fw, tw, v, S(v)); return;
      }
      IRBuilder<> B(I); unsup(B, v, "cast"); return;
    }
    if (auto* E = dyn_cast<ExtractValueInst>(I)) {
      Type* st = shTy(t); if (!st) return; Value* s = S(E->getAggregateOperand()); if (!s || isNull(s)) return;
      IRBuilder<> B(I->getNextNode()); sh[I] = B.CreateExtractValue(s, E->getIndices()); return;
    }
    if (auto* N = dyn_cast<InsertValueInst>(I)) {
      Type* st = shTy(t); if (!st) return; Value *s = S(N->getAggregateOperand()), *x = S(N->getInsertedValueOperand());
      IRBuilder<> B(I->getNextNode());
      if (x) sh[I] = B.CreateInsertValue(s, x, N->getIndices()); else sh[I] = s;
      return;
    }
    if (auto* E = dyn_cast<ExtractElementInst>(I)) {
      Value* s = S(E->getVectorOperand()); if (!s || isNull(s) || !shTy(t)) return;
      auto* k = dyn_cast<ConstantInt>(E->getIndexOperand());
      if (!k) { IRBuilder<> B(I); unsup(B, E->getVectorOperand(), "extractelement"); return; }
      IRBuilder<> B(I->getNextNode()); sh[I] = B.CreateExtractValue(s, k->getZExtValue()); return;
    }
    if (auto* N = dyn_cast<InsertElementInst>(I)) {
      if (!shTy(t)) return; Value *s = S(N->getOperand(0)), *x = S(N->getOperand(1)); auto* k = dyn_cast<ConstantInt>(N->getOperand(2));
      if (!k) { IRBuilder<> B(I); unsup(B, N->getOperand(0), "insertelement"); unsup(B, N->getOperand(1), "insertelement"); return; }
      IRBuilder<> B(I->getNextNode()); sh[I] = B.CreateInsertValue(s, x, k->getZExtValue()); return;
    }
    if (auto* SV = dyn_cast<ShuffleVectorInst>(I)) {
      if (!shTy(t)) return; Value *a = S(SV->getOperand(0)), *b = S(SV->getOperand(1)); if (!a || (isNull(a) && isNull(b))) return;
      IRBuilder<> B(I->getNextNode()); Value* r = Constant::getNullValue(shTy(t)); int n = cast<FixedVectorType>(SV->getOperand(0)->getType())->getNumElements();
      auto m = SV->getShuffleMask();
      for (unsigned i = 0; i < m.size(); ++i) if (m[i] >= 0) r = B.CreateInsertValue(r, B.CreateExtractValue(m[i] < n ? a : b, m[i] < n ? m[i] : m[i] - n), i);
      sh[I] = r; return;
    }
    if (isa<FreezeInst>(I)) { if (shTy(t)) sh[I] = S(I->getOperand(0)); return; }
    if (auto* A = dyn_cast<AtomicRMWInst>(I)) { IRBuilder<> B(I); unsup(B, A->getValOperand(), "atomic"); B.CreateCall(fStoreC, {A->getPointerOperand(), c32(B, DL.getTypeStoreSize(A->getValOperand()->getType()))}); return; }
    if (auto* A = dyn_cast<AtomicCmpXchgInst>(I)) { IRBuilder<> B(I); unsup(B, A->getNewValOperand(), "atomic"); B.CreateCall(fStoreC, {A->getPointerOperand(), c32(B, DL.getTypeStoreSize(A->getNewValOperand()->getType()))}); return; }
    if (isa<PtrToIntInst>(I)) return;
    IRBuilder<> B(I); for (auto& o : I->operands()) if (shTy(o->getType())) unsup(B, o.get(), "instr");
  }
};

// before inlining: library functions that have a stand-in lose their inline body
struct SxEarly : PassInfoMixin<SxEarly> {
  PreservedAnalyses run(Module& M, ModuleAnalysisManager&) {
    for (auto& F : M) if (!F.isDeclaration() && F.hasLinkOnceLinkage()) if (Sx::redirect(F.getName())) { F.deleteBody(); F.setComdat(nullptr); F.setLinkage(GlobalValue::ExternalLinkage); }
    return PreservedAnalyses::none();
  }
  static bool isRequired() { return true; }
};

struct SxPass : PassInfoMixin<SxPass> {
  PreservedAnalyses run(Module& M, ModuleAnalysisManager&) {
    // models of external functions
    if (M.getModuleIdentifier().find("sx_strings") == std::string::npos) {
    SmallVector<std::pair<Function*, const char*>, 8> rd;
    for (auto& F : M) if (F.isDeclaration() && !F.isIntrinsic()) if (auto* r = Sx::redirect(F.getName())) rd.push_back({&F, r});
    for (auto& p : rd) { auto c = M.getOrInsertFunction(p.second, p.first->getFunctionType()); p.first->replaceAllUsesWith(c.getCallee()); }
    } else {
      for (auto& A : M.aliases()) A.setVisibility(GlobalValue::HiddenVisibility);
      for (auto& F : M) if (!F.isDeclaration() && F.getName().startswith("_Z")) F.setVisibility(GlobalValue::HiddenVisibility);
      for (auto* nm : {"memcmp", "strlen", "memchr"}) if (auto* F = M.getFunction(nm)) { auto c = M.getOrInsertFunction(Sx::redirect(nm), F->getFunctionType()); F->replaceAllUsesWith(c.getCallee()); }
    }
    SmallVector<Function*, 64> fs; for (auto& F : M) if (Sx::interesting(F)) fs.push_back(&F);
    Sx sx(M);
    for (auto* F : fs) sx.function(*F);
    return PreservedAnalyses::none();
  }
  static bool isRequired() { return true; }
};
}  // namespace

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
  return {LLVM_PLUGIN_API_VERSION, "sx", "1", [](PassBuilder& PB) {
    PB.registerPipelineStartEPCallback([](ModulePassManager& MPM, OptimizationLevel) { MPM.addPass(SxEarly()); });
    PB.registerOptimizerLastEPCallback([](ModulePassManager& MPM, OptimizationLevel) { MPM.addPass(SxPass()); });
  }};
}
