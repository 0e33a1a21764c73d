// Operation codes shared by the instrumentation pass and the runtime.
#ifndef SX_OPS_H
#define SX_OPS_H
enum SxOp {
  // leaves
  OP_CONST = 1, OP_VAR,
  // integer binary (operands BV(w); for w==1 Bool logic where applicable)
  OP_ADD, OP_SUB, OP_MUL, OP_UDIV, OP_SDIV, OP_UREM, OP_SREM, OP_SHL, OP_LSHR, OP_ASHR, OP_AND, OP_OR, OP_XOR,
  // integer comparisons -> Bool
  OP_EQ, OP_NE, OP_ULT, OP_ULE, OP_UGT, OP_UGE, OP_SLT, OP_SLE, OP_SGT, OP_SGE,
  // casts
  OP_ZEXT, OP_SEXT, OP_TRUNC, OP_EXTRACT /*imm = low bit*/, OP_CONCAT, OP_ITE, OP_NOT,
  // floating point
  OP_FADD, OP_FSUB, OP_FMUL, OP_FDIV, OP_FREM, OP_FNEG, OP_FABS, OP_FSQRT, OP_FCOPYSIGN, OP_FMIN, OP_FMAX,
  OP_FROUND /*imm = mode: 0 floor 1 ceil 2 trunc 3 rint(RNE) 4 round(RNA)*/,
  OP_FOEQ, OP_FOLT, OP_FOLE, OP_FUNO /* isnan(a)||isnan(b) */,
  OP_FISCLASS /* imm = llvm.is.fpclass mask */,
  OP_BV2F, OP_F2BV, OP_FEXT, OP_FTRUNC, OP_FTOSI, OP_FTOUI, OP_SITOF, OP_UITOF,
  OP_UF /* uninterpreted libm function; imm = id */,
  OP_RNEAR /* |a-b| <= 1e-6*max(1,|a|,|b|); decided over the reals */,
  OP_LAST
};
#endif
