#pragma once
#include "dom.h"
enum Op : int {
  O_NONE, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_SHL, O_LSHR, O_ASHR, O_AND, O_OR, O_XOR,
  O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FREM, O_FNEG,
  O_EQ, O_NE, O_UGT, O_UGE, O_ULT, O_ULE, O_SGT, O_SGE, O_SLT, O_SLE,
  O_FCMP, // + predicate 0..15
  O_FCMP_END = O_FCMP + 15,
  O_ZEXT, O_SEXT, O_TRUNC, O_FPTOSI, O_FPTOUI, O_SITOFP, O_UITOFP, O_FPEXT, O_FPTRUNC, O_SELECT,
  O_SMAX, O_SMIN, O_UMAX, O_UMIN, O_ABS, O_SQABS, O_SADDSAT, O_SSUBSAT, O_UADDSAT, O_USUBSAT, O_UQSUBX,
  O_FSHL, O_FSHR, O_CTPOP, O_CTLZ, O_CTTZ, O_BSWAP, O_BITREV,
  O_FABS, O_COPYSIGN, O_X86MIN, O_X86MAX, O_FMINNUM, O_FMAXNUM, O_FMIN, O_FMAX, O_FMA, O_SQRT, O_FLOOR, O_CEIL, O_ROUND, O_RINT, O_TRUNCF, O_EXP, O_LOG, O_LOG2, O_POW, O_SIN, O_COS, O_TANH, O_ATANH,
  O_PSIGN, O_SADDO, O_UADDO, O_SSUBO, O_USUBO, O_SMULO, O_UMULO, O_SLTMASK, O_PARITY, O_MULH, O_UMULH, O_SSHL, O_USHL, O_SQNEG,
  O_BFUN = 100000
};
u64 evalop(int op, unsigned w, unsigned ws, u64 a, u64 b, u64 c);
// w: result width, ws: operand width (of operand 0)
Val apply(int op, unsigned w, unsigned ws, const std::vector<Val> &ops);
Val opaque(int op, unsigned w, const std::vector<Val> &ops);
Val concatv(const std::vector<Val> &lo_first);
Val slicev(const Val &v, unsigned lo, unsigned w);
struct Assign { std::unordered_map<u32, bool> m; std::unordered_map<OpaqueDef *, u64> memo; u64 rng = 1; bool imprec = false; bool next() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng >> 33 & 1; } };
bool evalsym(u32 s, Assign &A);
bool evalbit(const Bit &b, Assign &A);
u64 evalword(const Val &v, Assign &A);
extern u64 n_pw, n_opaque;
Val mkivl(unsigned w, bool flt, u32 basis, std::vector<i64> lo, std::vector<i64> hi, std::vector<double> flo, std::vector<double> fhi);
