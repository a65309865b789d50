// Hash-consed expression DAG over machine integers and IEEE floats, with static interval analysis,
// simplification and a bit-exact native evaluator.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <cmath>
#include <climits>

enum Op : uint8_t {
  O_CONST, O_VAR,
  O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
  O_ZEXT, O_SEXT, O_TRUNC /*extract aux=low bit*/, O_CONCAT,
  O_EQ, O_ULT, O_ULE, O_SLT, O_SLE, O_ITE,
  O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FREM, O_FSQRT, O_FNEG, O_FABS, O_FMIN, O_FMAX, O_FCOPYSIGN,
  O_FFLOOR, O_FCEIL, O_FTRUNC, O_FROUND, O_FRINT,
  O_FPEXT, O_FPTRUNC, O_SI2F, O_UI2F, O_F2SI, O_F2UI, O_BITS2F, O_F2BITS,
  O_FEQ, O_FLT, O_FLE, O_FUNO,
  O_LIBM
};
enum LibmFn : int { LM_SIN, LM_COS, LM_TAN, LM_ASIN, LM_ACOS, LM_ATAN, LM_ATAN2, LM_EXP, LM_LOG, LM_POW, LM_FMOD, LM_HYPOT, LM_TANH, LM_EXP2, LM_LOG2, LM_LOG10, LM_CBRT, LM_SINH, LM_COSH, LM_COUNT };
extern const char* libmName[];

static const int GRAN_NONE = INT_MIN;

struct Expr {
  Op op; uint8_t w; bool fp; bool nan;      // nan: value may be NaN
  bool wild;                                 // cone contains a maybe-NaN / full range float input
  bool hasFp, hasLibm, hasBits;              // cone properties
  uint16_t nfmul;                            // rough exact-FP cost of the cone (saturating)
  int aux;
  int gran;                                  // fp: value is a multiple of 2^gran (if finite)
  Expr *a, *b, *c;
  uint64_t k;                                // constant bits, or var index
  int64_t ilo, ihi;                          // signed interval (ints)
  double flo, fhi;                           // interval (floats, ignoring NaN)
  uint32_t id;
  uint32_t epoch; uint64_t ev;               // evaluator memo
  std::vector<uint32_t>* vars;               // sorted var ids of the cone
};

struct VarInfo { std::string name; uint8_t w; bool fp; int64_t ilo, ihi; double flo, fhi; int gran; bool wild; Expr* e; int seq; };
extern std::vector<VarInfo> gVars;

typedef std::vector<uint64_t> Assign;  // indexed by var id

Expr* mkConst(uint8_t w, bool fp, uint64_t bits);
Expr* mkVar(const VarInfo& v);
Expr* mk(Op op, uint8_t w, bool fp, Expr* a, Expr* b = nullptr, Expr* c = nullptr, int aux = 0);
uint64_t evalOp(Op op, uint8_t w, bool fp, int aux, uint8_t aw, uint64_t a, uint64_t b, uint64_t c, uint8_t bw = 0);
uint64_t evalExpr(Expr* e, const Assign& as, uint32_t epoch);
uint32_t newEpoch();
std::string showExpr(Expr* e, int depth = 6);
size_t numExprs();

inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sxt(uint64_t v, unsigned w) { if (w >= 64) return (int64_t)v; uint64_t m = 1ull << (w - 1); v &= maskw(w); return (int64_t)((v ^ m) - m); }
inline float b2f(uint64_t b) { uint32_t x = (uint32_t)b; float f; memcpy(&f, &x, 4); return f; }
inline double b2d(uint64_t b) { double d; memcpy(&d, &b, 8); return d; }
inline uint64_t f2b(float f) { uint32_t x; memcpy(&x, &f, 4); return x; }
inline uint64_t d2b(double d) { uint64_t x; memcpy(&x, &d, 8); return x; }
inline double bToD(uint64_t b, uint8_t w) { return w == 32 ? (double)b2f(b) : b2d(b); }

inline Expr* mkTrue() { return mkConst(1, false, 1); }
inline Expr* mkFalse() { return mkConst(1, false, 0); }
inline Expr* mkNot(Expr* a) { return mk(O_XOR, 1, false, a, mkTrue()); }
inline Expr* mkAnd(Expr* a, Expr* b) { return mk(O_AND, 1, false, a, b); }
inline Expr* mkOr(Expr* a, Expr* b) { return mk(O_OR, 1, false, a, b); }
inline Expr* mkIte(Expr* c, Expr* a, Expr* b) { return mk(O_ITE, a->w, a->fp, c, a, b); }
inline bool isTrue(Expr* e) { return e->op == O_CONST && e->k == 1 && e->w == 1; }
inline bool isFalse(Expr* e) { return e->op == O_CONST && e->k == 0 && e->w == 1; }
