#include "expr.h"
#include <algorithm>
#include <sstream>
#include <deque>
#include <cfenv>

const char* libmName[] = {"sin", "cos", "tan", "asin", "acos", "atan", "atan2", "exp", "log", "pow", "fmod", "hypot", "tanh", "exp2", "log2", "log10", "cbrt", "sinh", "cosh"};
std::vector<VarInfo> gVars;
static std::deque<Expr> arena;
struct Key { uint64_t h; Op op; uint8_t w; bool fp; int aux; Expr *a, *b, *c; uint64_t k; };
static std::unordered_multimap<uint64_t, Expr*> table;
static uint32_t gEpoch = 0;
uint32_t newEpoch() { return ++gEpoch; }
size_t numExprs() { return arena.size(); }

static uint64_t hmix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 32); }

// ---------------------------------------------------------------- native evaluation
static double libmD(int f, double a, double b) {
  switch (f) {
    case LM_SIN: return sin(a); case LM_COS: return cos(a); case LM_TAN: return tan(a); case LM_ASIN: return asin(a);
    case LM_ACOS: return acos(a); case LM_ATAN: return atan(a); case LM_ATAN2: return atan2(a, b); case LM_EXP: return exp(a);
    case LM_LOG: return log(a); case LM_POW: return pow(a, b); case LM_FMOD: return fmod(a, b); case LM_HYPOT: return hypot(a, b);
    case LM_TANH: return tanh(a); case LM_EXP2: return exp2(a); case LM_LOG2: return log2(a); case LM_LOG10: return log10(a); case LM_CBRT: return cbrt(a);
    case LM_SINH: return sinh(a); case LM_COSH: return cosh(a);
  }
  return 0;
}
static float libmF(int f, float a, float b) {
  switch (f) {
    case LM_SIN: return sinf(a); case LM_COS: return cosf(a); case LM_TAN: return tanf(a); case LM_ASIN: return asinf(a);
    case LM_ACOS: return acosf(a); case LM_ATAN: return atanf(a); case LM_ATAN2: return atan2f(a, b); case LM_EXP: return expf(a);
    case LM_LOG: return logf(a); case LM_POW: return powf(a, b); case LM_FMOD: return fmodf(a, b); case LM_HYPOT: return hypotf(a, b);
    case LM_TANH: return tanhf(a); case LM_EXP2: return exp2f(a); case LM_LOG2: return log2f(a); case LM_LOG10: return log10f(a); case LM_CBRT: return cbrtf(a);
    case LM_SINH: return sinhf(a); case LM_COSH: return coshf(a);
  }
  return 0;
}
static uint64_t f2si(double d, uint8_t w) {  // x86 cvtt semantics
  if (w <= 32) {
    if (w == 32) { if (!(d > -2147483649.0 && d < 2147483648.0)) return 0x80000000ull; return (uint64_t)(uint32_t)(int32_t)d; }
    if (!(d > -2147483649.0 && d < 2147483648.0)) return 0;
    return ((uint64_t)(int64_t)(int32_t)d) & maskw(w);
  }
  if (!(d >= -9223372036854775808.0 && d < 9223372036854775808.0)) return 0x8000000000000000ull;
  return (uint64_t)(int64_t)d;
}
static uint64_t f2ui(double d, uint8_t w) {
  if (w < 64) return f2si(d, 64) & maskw(w);
  if (d >= 9223372036854775808.0) { return f2si(d - 9223372036854775808.0, 64) ^ 0x8000000000000000ull; }
  return f2si(d, 64);
}
uint64_t evalOp(Op op, uint8_t w, bool fp, int aux, uint8_t aw, uint64_t a, uint64_t b, uint64_t c, uint8_t bw) {
  uint64_t m = maskw(w);
  switch (op) {
    case O_ADD: return (a + b) & m; case O_SUB: return (a - b) & m; case O_MUL: return (a * b) & m;
    case O_UDIV: return b ? (a / b) & m : m; case O_UREM: return b ? (a % b) & m : a;
    case O_SDIV: { int64_t x = sxt(a, w), y = sxt(b, w); if (y == 0) return x < 0 ? 1 : m; if (y == -1) return (uint64_t)(0 - (uint64_t)x) & m; return (uint64_t)(x / y) & m; }
    case O_SREM: { int64_t x = sxt(a, w), y = sxt(b, w); if (y == 0) return a; if (y == -1) return 0; return (uint64_t)(x % y) & m; }
    case O_AND: return a & b; case O_OR: return a | b; case O_XOR: return (a ^ b) & m;
    case O_SHL: return b >= w ? 0 : (a << b) & m; case O_LSHR: return b >= w ? 0 : (a >> b) & m;
    case O_ASHR: { int64_t x = sxt(a, w); return (uint64_t)(x >> (b >= w ? w - 1 : b)) & m; }
    case O_ZEXT: return a; case O_SEXT: return (uint64_t)sxt(a, aw) & m; case O_TRUNC: return (a >> aux) & m;
    case O_CONCAT: return ((a << bw) | b) & m;
    case O_EQ: return a == b; case O_ULT: return a < b; case O_ULE: return a <= b;
    case O_SLT: return sxt(a, aw) < sxt(b, aw); case O_SLE: return sxt(a, aw) <= sxt(b, aw);
    case O_ITE: return a ? b : c;
    case O_FADD: return w == 32 ? f2b(b2f(a) + b2f(b)) : d2b(b2d(a) + b2d(b));
    case O_FSUB: return w == 32 ? f2b(b2f(a) - b2f(b)) : d2b(b2d(a) - b2d(b));
    case O_FMUL: return w == 32 ? f2b(b2f(a) * b2f(b)) : d2b(b2d(a) * b2d(b));
    case O_FDIV: return w == 32 ? f2b(b2f(a) / b2f(b)) : d2b(b2d(a) / b2d(b));
    case O_FREM: return w == 32 ? f2b(fmodf(b2f(a), b2f(b))) : d2b(fmod(b2d(a), b2d(b)));
    case O_FSQRT: return w == 32 ? f2b(sqrtf(b2f(a))) : d2b(sqrt(b2d(a)));
    case O_FNEG: return a ^ (1ull << (w - 1)); case O_FABS: return a & ~(1ull << (w - 1)) & m;
    case O_FMIN: return w == 32 ? f2b(fminf(b2f(a), b2f(b))) : d2b(fmin(b2d(a), b2d(b)));
    case O_FMAX: return w == 32 ? f2b(fmaxf(b2f(a), b2f(b))) : d2b(fmax(b2d(a), b2d(b)));
    case O_FCOPYSIGN: { uint64_t s = 1ull << (w - 1); return (a & ~s & m) | (b & s); }
    case O_FFLOOR: return w == 32 ? f2b(floorf(b2f(a))) : d2b(floor(b2d(a)));
    case O_FCEIL: return w == 32 ? f2b(ceilf(b2f(a))) : d2b(ceil(b2d(a)));
    case O_FTRUNC: return w == 32 ? f2b(truncf(b2f(a))) : d2b(trunc(b2d(a)));
    case O_FROUND: return w == 32 ? f2b(roundf(b2f(a))) : d2b(round(b2d(a)));
    case O_FRINT: return w == 32 ? f2b(nearbyintf(b2f(a))) : d2b(nearbyint(b2d(a)));
    case O_FPEXT: return d2b((double)b2f(a)); case O_FPTRUNC: return f2b((float)b2d(a));
    case O_SI2F: return w == 32 ? f2b((float)sxt(a, aw)) : d2b((double)sxt(a, aw));
    case O_UI2F: return w == 32 ? f2b((float)a) : d2b((double)a);
    case O_F2SI: return f2si(bToD(a, aw), w); case O_F2UI: return f2ui(bToD(a, aw), w);
    case O_BITS2F: case O_F2BITS: return a;
    case O_FEQ: return aw == 32 ? b2f(a) == b2f(b) : b2d(a) == b2d(b);
    case O_FLT: return aw == 32 ? b2f(a) < b2f(b) : b2d(a) < b2d(b);
    case O_FLE: return aw == 32 ? b2f(a) <= b2f(b) : b2d(a) <= b2d(b);
    case O_FUNO: return aw == 32 ? (std::isnan(b2f(a)) || std::isnan(b2f(b))) : (std::isnan(b2d(a)) || std::isnan(b2d(b)));
    case O_LIBM: return w == 32 ? f2b(libmF(aux, b2f(a), b2f(b))) : d2b(libmD(aux, b2d(a), b2d(b)));
    default: return 0;
  }
}

uint64_t evalExpr(Expr* root, const Assign& as, uint32_t epoch) {
  if (root->op == O_CONST) return root->k;
  if (root->epoch == epoch) return root->ev;
  static thread_local std::vector<Expr*> st;
  size_t base = st.size();
  st.push_back(root);
  while (st.size() > base) {
    Expr* e = st.back();
    if (e->epoch == epoch || e->op == O_CONST) { if (e->op == O_CONST) { e->ev = e->k; e->epoch = epoch; } st.pop_back(); continue; }
    if (e->op == O_VAR) { e->ev = e->k < as.size() ? as[e->k] : 0; e->epoch = epoch; st.pop_back(); continue; }
    if (e->op == O_ITE) {
      if (e->a->epoch != epoch) { st.push_back(e->a); continue; }
      Expr* t = e->a->ev ? e->b : e->c;
      if (t->epoch != epoch) { st.push_back(t); continue; }
      e->ev = t->ev; e->epoch = epoch; st.pop_back(); continue;
    }
    bool ok = true;
    if (e->a && e->a->epoch != epoch) { st.push_back(e->a); ok = false; }
    if (e->b && e->b->epoch != epoch) { st.push_back(e->b); ok = false; }
    if (e->c && e->c->epoch != epoch) { st.push_back(e->c); ok = false; }
    if (!ok) continue;
    e->ev = evalOp(e->op, e->w, e->fp, e->aux, e->a ? e->a->w : 0, e->a ? e->a->ev : 0, e->b ? e->b->ev : 0, e->c ? e->c->ev : 0, e->b ? e->b->w : 0);
    e->epoch = epoch; st.pop_back();
  }
  return root->ev;
}

// ---------------------------------------------------------------- intervals
static int granOf(double d) {
  if (d == 0 || !std::isfinite(d)) return d == 0 ? 2000 : GRAN_NONE;
  int ex; double m = frexp(d, &ex); // d = m * 2^ex
  int64_t im = (int64_t)ldexp(m, 53); int g = ex - 53;
  while ((im & 1) == 0) { im >>= 1; g++; }
  return g;
}
typedef __int128 i128;
static void setI(Expr* e, i128 lo, i128 hi) {
  i128 mn = e->w >= 64 ? (i128)INT64_MIN : -((i128)1 << (e->w - 1)), mx = e->w >= 64 ? (i128)INT64_MAX : ((i128)1 << (e->w - 1)) - 1;
  if (e->w == 1) { mn = 0; mx = 1; }
  if (lo < mn || hi > mx) { lo = mn; hi = mx; }
  e->ilo = (int64_t)lo; e->ihi = (int64_t)hi;
}
static double rdn(Expr* e, double v) { return e->w == 32 ? (double)(float)v : v; }
static void setF(Expr* e, double lo, double hi, bool nan) {
  if (std::isnan(lo)) { lo = -INFINITY; }
  if (std::isnan(hi)) { hi = INFINITY; }
  e->flo = lo; e->fhi = hi; e->nan = nan;
}
static bool canInf(Expr* e) { return std::isinf(e->flo) || std::isinf(e->fhi); }
static bool has0(Expr* e) { return e->flo <= 0 && e->fhi >= 0; }
static double fop(Expr* e, Op op, double x, double y) {
  uint64_t r;
  if (e->w == 32) { r = evalOp(op, 32, true, 0, 32, f2b((float)x), f2b((float)y), 0); return b2f(r); }
  r = evalOp(op, 64, true, 0, 64, d2b(x), d2b(y), 0); return b2d(r);
}
static bool exactBits(Expr* e) {  // |e| bounded and granular enough to be exactly representable before rounding
  if (e->gran == GRAN_NONE || !std::isfinite(e->flo) || !std::isfinite(e->fhi)) return false;
  double m = std::max(fabs(e->flo), fabs(e->fhi));
  if (m == 0) return true;
  int ex; frexp(m, &ex);
  return ex - e->gran <= (e->w == 32 ? 24 : 53) && e->gran > (e->w == 32 ? -140 : -1000);
}
static void analyse(Expr* e) {
  Expr *a = e->a, *b = e->b, *c = e->c;
  e->wild = (a && a->wild) || (b && b->wild) || (c && c->wild);
  e->hasFp = e->fp || (a && a->hasFp) || (b && b->hasFp) || (c && c->hasFp);
  e->hasLibm = e->op == O_LIBM || (a && a->hasLibm) || (b && b->hasLibm) || (c && c->hasLibm);
  e->hasBits = e->op == O_BITS2F || e->op == O_F2BITS || e->op == O_FCOPYSIGN || (a && a->hasBits) || (b && b->hasBits) || (c && c->hasBits);
  unsigned cost = (a ? a->nfmul : 0) + (b ? b->nfmul : 0) + (c ? c->nfmul : 0);
  if (e->op == O_FADD || e->op == O_FSUB) cost += e->w == 32 ? 1 : 2;
  if (e->op == O_FMUL) cost += (e->w == 32 ? 4 : 16);
  if (e->op == O_FDIV || e->op == O_FSQRT || e->op == O_FREM) cost += e->w == 32 ? 10 : 40;
  if (e->op == O_LIBM) cost += 200;
  e->nfmul = (uint16_t)std::min(cost, 60000u);
  e->gran = GRAN_NONE; e->nan = false; e->flo = -INFINITY; e->fhi = INFINITY;
  if (!e->fp) {
    i128 full_lo = e->w >= 64 ? (i128)INT64_MIN : -((i128)1 << (e->w - 1)), full_hi = e->w >= 64 ? (i128)INT64_MAX : ((i128)1 << (e->w - 1)) - 1;
    if (e->w == 1) { full_lo = 0; full_hi = 1; }
    i128 lo = full_lo, hi = full_hi;
    switch (e->op) {
      case O_CONST: lo = hi = e->w == 1 ? (i128)(e->k & 1) : (i128)sxt(e->k, e->w); break;
      case O_VAR: lo = gVars[e->k].ilo; hi = gVars[e->k].ihi; break;
      case O_ADD: if (e->w > 1) { lo = (i128)a->ilo + b->ilo; hi = (i128)a->ihi + b->ihi; } break;
      case O_SUB: if (e->w > 1) { lo = (i128)a->ilo - b->ihi; hi = (i128)a->ihi - b->ilo; } break;
      case O_MUL: if (e->w > 1) { i128 p[4] = {(i128)a->ilo * b->ilo, (i128)a->ilo * b->ihi, (i128)a->ihi * b->ilo, (i128)a->ihi * b->ihi}; lo = *std::min_element(p, p + 4); hi = *std::max_element(p, p + 4); } break;
      case O_UDIV: if (a->ilo >= 0 && b->ilo > 0) { lo = a->ilo / b->ihi; hi = a->ihi / b->ilo; } break;
      case O_SDIV: if (b->ilo > 0) { i128 p[4] = {a->ilo / b->ilo, a->ilo / b->ihi, a->ihi / b->ilo, a->ihi / b->ihi}; lo = *std::min_element(p, p + 4); hi = *std::max_element(p, p + 4); } break;
      case O_UREM: if (b->ilo > 0) { lo = 0; hi = (i128)b->ihi - 1; if (a->ilo >= 0 && a->ihi < hi) hi = a->ihi; } break;
      case O_SREM: if (b->ilo > 0) { hi = a->ihi <= 0 ? 0 : (i128)b->ihi - 1; lo = a->ilo >= 0 ? 0 : -((i128)b->ihi - 1); if (a->ilo > lo) lo = a->ilo >= 0 ? 0 : a->ilo; if (a->ihi < hi) hi = a->ihi >= 0 ? a->ihi : 0; } break;
      case O_AND: if (e->w > 1 && (b->ilo >= 0 || a->ilo >= 0)) { lo = 0; i128 x = full_hi; if (a->ilo >= 0) x = std::min(x, (i128)a->ihi); if (b->ilo >= 0) x = std::min(x, (i128)b->ihi); hi = x; } break;
      case O_OR: case O_XOR: if (e->w > 1 && a->ilo >= 0 && b->ilo >= 0) { lo = 0; uint64_t m = (uint64_t)(a->ihi | b->ihi); while (m & (m + 1)) m |= m >> 1 | (m >> 2); hi = (i128)m; } break;
      case O_LSHR: if (a->ilo >= 0 && b->op == O_CONST && b->k < e->w) { lo = a->ilo >> b->k; hi = a->ihi >> b->k; } break;
      case O_ASHR: if (b->op == O_CONST && b->k < e->w) { lo = a->ilo >> b->k; hi = a->ihi >> b->k; } break;
      case O_SHL: if (b->op == O_CONST && b->k < 62) { lo = (i128)a->ilo << b->k; hi = (i128)a->ihi << b->k; } break;
      case O_ZEXT: if (a->w == 1) { lo = 0; hi = 1; } else if (a->ilo >= 0) { lo = a->ilo; hi = a->ihi; } else { lo = 0; hi = ((i128)1 << a->w) - 1; } break;
      case O_SEXT: if (a->w == 1) { lo = -1; hi = 0; } else { lo = a->ilo; hi = a->ihi; } break;
      case O_TRUNC: if (e->aux == 0 && e->w > 1 && a->ilo >= full_lo && a->ihi <= full_hi) { lo = a->ilo; hi = a->ihi; } break;
      case O_CONCAT: if (a->op == O_CONST && a->k == 0) { lo = 0; hi = b->ilo >= 0 ? (i128)b->ihi : (((i128)1 << b->w) - 1); } break;
      case O_ITE: lo = std::min(b->ilo, c->ilo); hi = std::max(b->ihi, c->ihi); break;
      case O_F2SI: if (!a->nan && a->flo > -2147483648.0 && a->fhi < 2147483647.0) { lo = (int64_t)a->flo; hi = (int64_t)a->fhi; } break;
      case O_F2UI: if (!a->nan && a->flo >= 0 && a->fhi < 2147483647.0) { lo = (int64_t)a->flo; hi = (int64_t)a->fhi; } break;
      case O_F2BITS: if (!a->nan && (a->op == O_FABS || a->flo > 0)) { lo = a->flo > 0 ? (i128)(e->w == 32 ? f2b((float)a->flo) : d2b(a->flo)) - 1 : 0; hi = (i128)(e->w == 32 ? f2b((float)a->fhi) : d2b(a->fhi)) + 1; if (lo < 0) lo = 0; if (e->w != 32 && e->w != 64) { lo = full_lo; hi = full_hi; } } break;
      default: break;
    }
    setI(e, lo, hi);
    return;
  }
  switch (e->op) {
    case O_CONST: { double d = bToD(e->k, e->w); if (std::isnan(d)) { setF(e, INFINITY, -INFINITY, true); } else { setF(e, d, d, false); e->gran = granOf(d); } break; }
    case O_VAR: { auto& v = gVars[e->k]; setF(e, v.flo, v.fhi, v.wild); e->gran = v.gran; e->wild = v.wild; break; }
    case O_FADD: setF(e, fop(e, O_FADD, a->flo, b->flo), fop(e, O_FADD, a->fhi, b->fhi), a->nan || b->nan || (canInf(a) && canInf(b))); e->gran = (a->gran == GRAN_NONE || b->gran == GRAN_NONE) ? GRAN_NONE : std::min(a->gran, b->gran); break;
    case O_FSUB: setF(e, fop(e, O_FSUB, a->flo, b->fhi), fop(e, O_FSUB, a->fhi, b->flo), a->nan || b->nan || (canInf(a) && canInf(b))); e->gran = (a->gran == GRAN_NONE || b->gran == GRAN_NONE) ? GRAN_NONE : std::min(a->gran, b->gran); break;
    case O_FMUL: {
      double p[4] = {fop(e, O_FMUL, a->flo, b->flo), fop(e, O_FMUL, a->flo, b->fhi), fop(e, O_FMUL, a->fhi, b->flo), fop(e, O_FMUL, a->fhi, b->fhi)};
      bool bad = false; for (double x : p) bad |= std::isnan(x);
      if (bad) setF(e, -INFINITY, INFINITY, true && (a->nan || b->nan || (canInf(a) && has0(b)) || (canInf(b) && has0(a))));
      else { double lo = *std::min_element(p, p + 4), hi = *std::max_element(p, p + 4); if (a == b && lo < 0) lo = 0; setF(e, lo, hi, a->nan || b->nan || (canInf(a) && has0(b)) || (canInf(b) && has0(a))); }
      if (a == b && e->flo < 0) e->flo = 0;
      e->gran = (a->gran == GRAN_NONE || b->gran == GRAN_NONE) ? GRAN_NONE : std::min(2000, a->gran + b->gran); break; }
    case O_FDIV: {
      bool nz = e->aux & 1; // divisor known non-zero
      if (!has0(b)) {
        double p[4] = {fop(e, O_FDIV, a->flo, b->flo), fop(e, O_FDIV, a->flo, b->fhi), fop(e, O_FDIV, a->fhi, b->flo), fop(e, O_FDIV, a->fhi, b->fhi)};
        bool bad = false; for (double x : p) bad |= std::isnan(x);
        if (bad) setF(e, -INFINITY, INFINITY, a->nan || b->nan || (canInf(a) && canInf(b)));
        else setF(e, *std::min_element(p, p + 4), *std::max_element(p, p + 4), a->nan || b->nan || (canInf(a) && canInf(b)));
      } else {
        setF(e, -INFINITY, INFINITY, a->nan || b->nan || (has0(a) && !nz) || (canInf(a) && canInf(b)));
        if (a->flo >= 0 && b->flo >= 0 && nz) e->flo = 0;
        if (a->fhi <= 0 && b->flo >= 0 && nz) e->fhi = 0;
      }
      // division by a power of two keeps granularity
      if (b->op == O_CONST && b->gran != GRAN_NONE && a->gran != GRAN_NONE) { double d = bToD(b->k, b->w); int ex; double m = frexp(d, &ex); if (fabs(m) == 0.5) e->gran = a->gran - (ex - 1); }
      break; }
    case O_FREM: { double bm = b->nan ? INFINITY : std::max(fabs(b->flo), fabs(b->fhi)); double lo = a->flo >= 0 ? 0 : std::max(a->flo, -bm), hi = a->fhi <= 0 ? 0 : std::min(a->fhi, bm); setF(e, lo, hi, a->nan || b->nan || (b->flo <= 0 && b->fhi >= 0) || std::isinf(a->flo) || std::isinf(a->fhi)); if (!e->nan && a->gran != GRAN_NONE && b->gran != GRAN_NONE) e->gran = std::min(a->gran, b->gran); break; }
    case O_FSQRT: setF(e, a->flo > 0 ? fop(e, O_FSQRT, a->flo, 0) : 0.0, a->fhi > 0 ? fop(e, O_FSQRT, a->fhi, 0) : 0.0, a->nan || (a->flo < 0 && !(e->aux & 1))); break;
    case O_FNEG: setF(e, -a->fhi, -a->flo, a->nan); e->gran = a->gran; break;
    case O_FABS: setF(e, a->flo >= 0 ? a->flo : (a->fhi <= 0 ? -a->fhi : 0.0), std::max(fabs(a->flo), fabs(a->fhi)), a->nan); e->gran = a->gran; break;
    case O_FMIN: setF(e, std::min(a->flo, b->flo), std::max(a->fhi, b->fhi), a->nan && b->nan); if (!a->nan && !b->nan) e->fhi = std::min(a->fhi, b->fhi); e->gran = (a->gran == GRAN_NONE || b->gran == GRAN_NONE) ? GRAN_NONE : std::min(a->gran, b->gran); break;
    case O_FMAX: setF(e, std::min(a->flo, b->flo), std::max(a->fhi, b->fhi), a->nan && b->nan); if (!a->nan && !b->nan) e->flo = std::max(a->flo, b->flo); e->gran = (a->gran == GRAN_NONE || b->gran == GRAN_NONE) ? GRAN_NONE : std::min(a->gran, b->gran); break;
    case O_FCOPYSIGN: { double m = std::max(fabs(a->flo), fabs(a->fhi)); setF(e, -m, m, a->nan); e->gran = a->gran; break; }
    case O_FFLOOR: setF(e, floor(a->flo), floor(a->fhi), a->nan); e->gran = a->nan || canInf(a) ? GRAN_NONE : 0; break;
    case O_FCEIL: setF(e, ceil(a->flo), ceil(a->fhi), a->nan); e->gran = a->nan || canInf(a) ? GRAN_NONE : 0; break;
    case O_FTRUNC: setF(e, trunc(a->flo), trunc(a->fhi), a->nan); e->gran = a->nan || canInf(a) ? GRAN_NONE : 0; break;
    case O_FROUND: setF(e, round(a->flo), round(a->fhi), a->nan); e->gran = a->nan || canInf(a) ? GRAN_NONE : 0; break;
    case O_FRINT: setF(e, nearbyint(a->flo), nearbyint(a->fhi), a->nan); e->gran = a->nan || canInf(a) ? GRAN_NONE : 0; break;
    case O_FPEXT: setF(e, a->flo, a->fhi, a->nan); e->gran = a->gran; break;
    case O_FPTRUNC: setF(e, (double)(float)a->flo, (double)(float)a->fhi, a->nan); e->gran = a->gran; break;
    case O_SI2F: if (a->w == 1) setF(e, -1, 0, false); else setF(e, rdn(e, (double)a->ilo), rdn(e, (double)a->ihi), false); e->gran = 0; break;
    case O_UI2F: if (a->w == 1) setF(e, 0, 1, false); else if (a->ilo >= 0) setF(e, rdn(e, (double)a->ilo), rdn(e, (double)a->ihi), false); else setF(e, 0, ldexp(1.0, a->w), false); e->gran = 0; break;
    case O_BITS2F: setF(e, -INFINITY, INFINITY, true); e->wild = true; break;
    case O_ITE: setF(e, std::min(b->flo, c->flo), std::max(b->fhi, c->fhi), b->nan || c->nan); e->gran = (b->gran == GRAN_NONE || c->gran == GRAN_NONE) ? GRAN_NONE : std::min(b->gran, c->gran); break;
    case O_LIBM: {
      bool n = a->nan || (b && b->nan);
      double pi = e->w == 32 ? (double)(float)M_PI : M_PI;
      switch (e->aux) {
        case LM_SIN: case LM_COS: setF(e, -1, 1, n || canInf(a)); break;
        case LM_TANH: setF(e, -1, 1, n); break;
        case LM_ASIN: setF(e, -pi / 2 - 1e-6, pi / 2 + 1e-6, n || a->flo < -1 || a->fhi > 1); break;
        case LM_ACOS: setF(e, 0, pi, n || a->flo < -1 || a->fhi > 1); break;
        case LM_ATAN: setF(e, -pi / 2 - 1e-6, pi / 2 + 1e-6, n); break;
        case LM_ATAN2: { double p2 = e->w == 32 ? (double)(float)M_PI_2 : M_PI_2; double lo = -pi, hi = pi; if (b->flo >= 0) { lo = -p2; hi = p2; } if (a->flo > 0) lo = 0; if (a->fhi < 0) hi = 0; setF(e, lo, hi, n); break; }
        case LM_EXP: { double lo = exp(a->flo), hi = exp(a->fhi); setF(e, lo * (1 - 1e-6), hi * (1 + 1e-6), n); if (e->flo < 0) e->flo = 0; break; }
        case LM_HYPOT: setF(e, 0, INFINITY, n); if (!canInf(a) && !canInf(b)) e->fhi = (double)(float)(hypot(std::max(fabs(a->flo), fabs(a->fhi)), std::max(fabs(b->flo), fabs(b->fhi))) * 1.000001); break;
        case LM_POW: setF(e, a->flo >= 0 ? 0 : -INFINITY, INFINITY, n || a->flo < 0); break;
        case LM_FMOD: { double bm = b->nan ? INFINITY : std::max(fabs(b->flo), fabs(b->fhi)); double lo = a->flo >= 0 ? 0 : std::max(a->flo, -bm), hi = a->fhi <= 0 ? 0 : std::min(a->fhi, bm);
            setF(e, lo, hi, n || canInf(a) || has0(b)); if (!e->nan && a->gran != GRAN_NONE && b->gran != GRAN_NONE) e->gran = std::min(a->gran, b->gran); break; }
        case LM_LOG: case LM_LOG2: case LM_LOG10: setF(e, -INFINITY, INFINITY, n || a->flo < 0); break;
        default: setF(e, -INFINITY, INFINITY, n); break;
      }
      break; }
    default: setF(e, -INFINITY, INFINITY, true); break;
  }
  // granularity survives only if the operation was exact
  if (e->op != O_CONST && e->op != O_VAR && e->gran != GRAN_NONE && !exactBits(e)) e->gran = GRAN_NONE;
}

// ---------------------------------------------------------------- construction
static Expr* intern(Op op, uint8_t w, bool fp, int aux, Expr* a, Expr* b, Expr* c, uint64_t k) {
  uint64_t h = hmix(hmix(hmix(op | (w << 8) | (fp << 16), (uint64_t)(uint32_t)aux), (uint64_t)a), (uint64_t)b);
  h = hmix(hmix(h, (uint64_t)c), k);
  auto r = table.equal_range(h);
  for (auto it = r.first; it != r.second; ++it) {
    Expr* e = it->second;
    if (e->op == op && e->w == w && e->fp == fp && e->aux == aux && e->a == a && e->b == b && e->c == c && e->k == k) return e;
  }
  arena.emplace_back();
  Expr* e = &arena.back();
  memset(e, 0, sizeof(Expr));
  e->op = op; e->w = w; e->fp = fp; e->aux = aux; e->a = a; e->b = b; e->c = c; e->k = k; e->id = arena.size(); e->epoch = 0;
  analyse(e);
  // variable sets
  if (op == O_VAR) e->vars = new std::vector<uint32_t>{(uint32_t)k};
  else {
    std::vector<uint32_t>* best = nullptr; int n = 0;
    for (Expr* x : {a, b, c}) if (x && x->vars) { n++; if (!best || x->vars->size() > best->size()) best = x->vars; }
    if (n <= 1) e->vars = best;
    else {
      std::vector<uint32_t> u;
      for (Expr* x : {a, b, c}) if (x && x->vars) { std::vector<uint32_t> t; std::set_union(u.begin(), u.end(), x->vars->begin(), x->vars->end(), std::back_inserter(t)); u.swap(t); }
      if (u.size() == best->size()) e->vars = best; else e->vars = new std::vector<uint32_t>(u);
    }
  }
  table.emplace(h, e);
  return e;
}
Expr* mkConst(uint8_t w, bool fp, uint64_t bits) { return intern(O_CONST, w, fp, 0, nullptr, nullptr, nullptr, bits & maskw(w)); }
Expr* mkVar(const VarInfo& v0) {
  gVars.push_back(v0);
  Expr* e = intern(O_VAR, v0.w, v0.fp, 0, nullptr, nullptr, nullptr, gVars.size() - 1);
  gVars.back().e = e;
  return e;
}
static bool C(Expr* e) { return e && e->op == O_CONST; }
// ite-tree whose leaves are all constants (bounded depth)
static bool iteConst(Expr* e, int d = 0) { if (C(e)) return true; if (e->op != O_ITE || d > 40) return false; return C(e->b) ? iteConst(e->c, d + 1) : (C(e->c) ? iteConst(e->b, d + 1) : (d < 8 && iteConst(e->b, d + 1) && iteConst(e->c, d + 1))); }

static int ufLess(Expr* a, Expr* b) {  // a<b decided by intervals? 1 true 0 false -1 unknown (no NaN)
  if (a->nan || b->nan) return -1;
  if (a->fhi < b->flo) return 1;
  if (a->flo >= b->fhi) return 0;
  return -1;
}
Expr* mk(Op op, uint8_t w, bool fp, Expr* a, Expr* b, Expr* c, int aux) {
  // constants
  if (op == O_ITE) {
    if (C(a)) return a->k ? b : c;
    if (b == c) return b;
    if (a->op == O_XOR && isTrue(a->b)) return mk(O_ITE, w, fp, a->a, c, b);
    if (w == 1) {
      if (isTrue(b)) return mkOr(a, c);
      if (isFalse(b)) return mkAnd(mkNot(a), c);
      if (isTrue(c)) return mkOr(mkNot(a), b);
      if (isFalse(c)) return mkAnd(a, b);
    }
    if (b->op == O_ITE && b->a == a) return mk(O_ITE, w, fp, a, b->b, c);
    if (c->op == O_ITE && c->a == a) return mk(O_ITE, w, fp, a, b, c->c);
    if (c->op == O_ITE && c->b == b) return mk(O_ITE, w, fp, mkOr(a, c->a), b, c->c);
    return intern(op, w, fp, 0, a, b, c, 0);
  }
  if (C(a) && (!b || C(b)) && (!c || C(c))) return mkConst(w, fp, evalOp(op, w, fp, aux, a->w, a->k, b ? b->k : 0, c ? c->k : 0, b ? b->w : 0));
  // canonical order for commutative integer ops / constants right
  switch (op) {
    case O_ADD: case O_MUL: case O_AND: case O_OR: case O_XOR: case O_EQ: case O_FADD: case O_FMUL: case O_FEQ:
      if (C(a) || (!C(b) && a->id > b->id)) std::swap(a, b);
      break;
    default: break;
  }
  uint64_t m = maskw(w);
  // push operations into ite trees with constant leaves
  auto pushable = [&](Op o) { switch (o) { case O_CONST: case O_VAR: case O_ITE: return false; default: return true; } };
  if (pushable(op) && !c) {
    if (a->op == O_ITE && (!b || C(b)) && iteConst(a)) return mkIte(a->a, mk(op, w, fp, a->b, b, nullptr, aux), mk(op, w, fp, a->c, b, nullptr, aux));
    if (b && b->op == O_ITE && C(a) && iteConst(b)) return mkIte(b->a, mk(op, w, fp, a, b->b, nullptr, aux), mk(op, w, fp, a, b->c, nullptr, aux));
    if (b && a->op == O_ITE && b->op == O_ITE && a->a == b->a && op != O_LIBM) {
      bool simp = (C(a->b) && C(b->b)) || (C(a->c) && C(b->c)) || op == O_CONCAT;
      if (simp) return mkIte(a->a, mk(op, w, fp, a->b, b->b, nullptr, aux), mk(op, w, fp, a->c, b->c, nullptr, aux));
    }
    if (a->op == O_ITE && (op == O_BITS2F || op == O_F2BITS || op == O_TRUNC || op == O_ZEXT || op == O_SEXT || op == O_FPEXT || op == O_FPTRUNC))
      return mkIte(a->a, mk(op, w, fp, a->b, nullptr, nullptr, aux), mk(op, w, fp, a->c, nullptr, nullptr, aux));
  }
  switch (op) {
    case O_ADD:
      if (C(b)) { if (b->k == 0) return a; if (a->op == O_ADD && C(a->b)) return mk(O_ADD, w, fp, a->a, mkConst(w, false, a->b->k + b->k)); }
      if (a->op == O_SUB && a->b == b) return a->a;
      if (b->op == O_SUB && b->b == a) return b->a;
      if (a->op == O_ADD && C(a->b)) return mk(O_ADD, w, fp, mk(O_ADD, w, fp, a->a, b), a->b);
      if (b->op == O_ADD && C(b->b)) return mk(O_ADD, w, fp, mk(O_ADD, w, fp, a, b->a), b->b);
      break;
    case O_SUB:
      if (a == b) return mkConst(w, false, 0);
      if (C(b)) return mk(O_ADD, w, fp, a, mkConst(w, false, 0 - b->k));
      if (a->op == O_ADD && a->b == b) return a->a;
      if (a->op == O_ADD && a->a == b) return a->b;
      if (a->op == O_ADD && C(a->b)) return mk(O_ADD, w, fp, mk(O_SUB, w, fp, a->a, b), a->b);
      if (b->op == O_ADD && C(b->b)) return mk(O_ADD, w, fp, mk(O_SUB, w, fp, a, b->a), mkConst(w, false, 0 - b->b->k));
      break;
    case O_MUL:
      if (C(b)) { if (b->k == 0) return b; if (b->k == 1) return a; if (a->op == O_MUL && C(a->b)) return mk(O_MUL, w, fp, a->a, mkConst(w, false, a->b->k * b->k));
        if (a->op == O_ADD && C(a->b)) return mk(O_ADD, w, fp, mk(O_MUL, w, fp, a->a, b), mkConst(w, false, a->b->k * b->k)); }
      break;
    case O_SHL: if (C(b)) { if (b->k == 0) return a; if (b->k >= w) return mkConst(w, false, 0); return mk(O_MUL, w, false, a, mkConst(w, false, 1ull << b->k)); } break;
    case O_UDIV: case O_SDIV: if (C(b) && b->k == 1) return a;
      if (C(b) && sxt(b->k, w) > 0 && a->ihi < sxt(b->k, w) && (a->ilo >= 0 || (op == O_SDIV && a->ilo > -sxt(b->k, w)))) return mkConst(w, false, 0);

      if (C(b) && b->k > 1 && a->op == O_MUL && C(a->b) && sxt(b->k, w) > 0 && sxt(a->b->k, w) % sxt(b->k, w) == 0 && sxt(a->b->k, w) > 0) {
        i128 lo = (i128)a->a->ilo * sxt(a->b->k, w), hi = (i128)a->a->ihi * sxt(a->b->k, w);
        i128 mx = ((i128)1 << (w - 1)) - 1;
        if (lo >= (op == O_UDIV ? (i128)0 : -mx) && hi <= mx) return mk(O_MUL, w, fp, a->a, mkConst(w, false, a->b->k / b->k));
      }
      break;
    case O_UREM: case O_SREM: if (C(b) && b->k == 1) return mkConst(w, false, 0);
      if (C(b) && a->ilo >= 0 && sxt(b->k, w) > 0 && a->ihi < sxt(b->k, w)) return a;
      if (op == O_SREM && C(b) && sxt(b->k, w) > 0 && a->ilo > -sxt(b->k, w) && a->ihi < sxt(b->k, w)) return a;
      break;
    case O_AND:
      if (C(b) && a->op == O_F2BITS && w > 16 && b->k == maskw(w) >> 1) return mk(O_F2BITS, w, false, mk(O_FABS, w, true, a->a));
      if (a == b) return a;
      if (C(b)) { if (b->k == 0) return b; if (b->k == m) return a; if (a->op == O_AND && C(a->b)) return mk(O_AND, w, fp, a->a, mkConst(w, false, a->b->k & b->k)); if (a->op == O_ZEXT && b->k == maskw(a->a->w)) return a;
        if (w > 1 && a->ilo >= 0 && ((b->k + 1) & b->k) == 0 && (uint64_t)a->ihi <= b->k) return a; }
      if (w == 1) {
        if (a->op == O_XOR && isTrue(a->b) && a->a == b) return mkFalse();
        if (b->op == O_XOR && isTrue(b->b) && b->a == a) return mkFalse();
        if (a->op == O_AND && (a->a == b || a->b == b)) return a;
        if (b->op == O_AND && (b->a == a || b->b == a)) return b;
        if (a->op == O_OR && (a->a == b || a->b == b)) return b;
        if (b->op == O_OR && (b->a == a || b->b == a)) return a;
      }
      break;
    case O_OR:
      if (a == b) return a;
      if (C(b)) { if (b->k == 0) return a; if (b->k == m) return b; }
      if (w == 1) {
        if (a->op == O_XOR && isTrue(a->b) && a->a == b) return mkTrue();
        if (b->op == O_XOR && isTrue(b->b) && b->a == a) return mkTrue();
        if (a->op == O_OR && (a->a == b || a->b == b)) return a;
        if (b->op == O_OR && (b->a == a || b->b == a)) return b;
        if (a->op == O_AND && (a->a == b || a->b == b)) return b;
        if (b->op == O_AND && (b->a == a || b->b == a)) return a;
        // (x&y)|(!x&z) style left alone;  x | (!x & y) = x|y
        auto absorb = [&](Expr* x, Expr* y) -> Expr* { if (y->op != O_AND) return nullptr; for (int i = 0; i < 2; i++) { Expr* p = i ? y->b : y->a; Expr* q = i ? y->a : y->b; if ((p->op == O_XOR && isTrue(p->b) && p->a == x) || (x->op == O_XOR && isTrue(x->b) && x->a == p)) return mkOr(x, q); } return nullptr; };
        if (Expr* r = absorb(a, b)) return r;
        if (Expr* r = absorb(b, a)) return r;
        // (x & y) | (x & !y) = x
        if (a->op == O_AND && b->op == O_AND) {
          Expr* xs[2] = {a->a, a->b}; Expr* ys[2] = {b->a, b->b};
          for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) if (xs[i] == ys[j]) { Expr *p = xs[1 - i], *q = ys[1 - j]; if ((p->op == O_XOR && isTrue(p->b) && p->a == q) || (q->op == O_XOR && isTrue(q->b) && q->a == p)) return xs[i]; }
        }
      }
      // or of disjoint zero-extended pieces: (zext lo) | (zext hi << n) -> concat
      if (w > 1) {
        for (int sw = 0; sw < 2; sw++) {
          Expr* lo = sw ? b : a; Expr* hi = sw ? a : b;
          if (lo->op == O_ZEXT && hi->op == O_MUL && C(hi->b) && hi->b->k == (1ull << lo->a->w) && hi->a->op == O_ZEXT && hi->a->a->w + lo->a->w <= w) {
            Expr* cc = mk(O_CONCAT, hi->a->a->w + lo->a->w, false, hi->a->a, lo->a);
            return cc->w == w ? cc : mk(O_ZEXT, w, false, cc);
          }
          if (lo->op == O_ZEXT && C(hi) && (hi->k & maskw(lo->a->w)) == 0) return mk(O_CONCAT, w, false, mkConst(w - lo->a->w, false, hi->k >> lo->a->w), lo->a);
          if (lo->op == O_MUL && C(lo->b) && C(hi) && (lo->b->k & (lo->b->k - 1)) == 0 && lo->b->k > 1 && lo->a->op == O_ZEXT && hi->k < lo->b->k) {
            int sh = __builtin_ctzll(lo->b->k);
            if (lo->a->a->w + sh <= w) { Expr* cc = mk(O_CONCAT, lo->a->a->w + sh, false, lo->a->a, mkConst(sh, false, hi->k)); return cc->w == w ? cc : mk(O_ZEXT, w, false, cc); }
          }
        }
      }
      break;
    case O_XOR:
      if (a == b) return mkConst(w, false, 0);
      if (C(b)) { if (b->k == 0) return a; if (a->op == O_XOR && C(a->b)) return mk(O_XOR, w, fp, a->a, mkConst(w, false, a->b->k ^ b->k)); }
      if (w == 1 && isTrue(b)) { // push negation through integer comparisons
        if (a->op == O_ULT) return mk(O_ULE, 1, false, a->b, a->a);
        if (a->op == O_ULE) return mk(O_ULT, 1, false, a->b, a->a);
        if (a->op == O_SLT) return mk(O_SLE, 1, false, a->b, a->a);
        if (a->op == O_SLE) return mk(O_SLT, 1, false, a->b, a->a);
        if (a->op == O_FLT && !a->a->nan && !a->b->nan) return mk(O_FLE, 1, false, a->b, a->a);
        if (a->op == O_FLE && !a->a->nan && !a->b->nan) return mk(O_FLT, 1, false, a->b, a->a);
      }
      break;
    case O_LSHR:
      if (C(b)) { if (b->k == 0) return a; if (b->k >= w) return mkConst(w, false, 0); return mk(O_ZEXT, w, false, mk(O_TRUNC, w - b->k, false, a, nullptr, nullptr, (int)b->k)); } break;
    case O_ASHR: if (C(b) && b->k == 0) return a;
      if (C(b) && b->k > 0 && b->k < w && w <= 64 && a->op == O_MUL && C(a->b) && a->b->k == (1ull << b->k)) {  // (x << k) >> k
        i128 mx = (i128)1 << (w - 1 - b->k); if (a->a->ilo >= -mx && a->a->ihi < mx) return a->a;
      }
      if (C(b) && a->ilo >= 0 && b->k < 63 && (a->ihi >> b->k) == 0) return mkConst(w, false, 0);
      if (C(b) && a->ihi < 0 && b->k == w - 1) return mkConst(w, false, maskw(w));
      break;
    case O_ZEXT: if (a->w == w) return a; if (a->op == O_ZEXT) return mk(O_ZEXT, w, false, a->a); break;
    case O_SEXT: if (a->w == w) return a; if (a->op == O_SEXT) return mk(O_SEXT, w, false, a->a); if (a->op == O_ZEXT && a->w > a->a->w) return mk(O_ZEXT, w, false, a->a);
      if (a->op == O_ADD && C(a->b)) { // no signed overflow -> distribute (helps address arithmetic)
        i128 lo = (i128)a->a->ilo + sxt(a->b->k, a->w), hi = (i128)a->a->ihi + sxt(a->b->k, a->w), mx = ((i128)1 << (a->w - 1));
        if (lo >= -mx && hi < mx) return mk(O_ADD, w, false, mk(O_SEXT, w, false, a->a), mkConst(w, false, (uint64_t)sxt(a->b->k, a->w)));
      }
      break;
    case O_TRUNC:
      if (aux == 0 && a->w == w) return a;
      if (a->op == O_TRUNC) return mk(O_TRUNC, w, false, a->a, nullptr, nullptr, aux + a->aux);
      if (a->op == O_ZEXT || (a->op == O_SEXT && aux == 0 && w <= a->a->w)) { if (aux + w <= a->a->w) return mk(O_TRUNC, w, false, a->a, nullptr, nullptr, aux); if (a->op == O_ZEXT && aux >= a->a->w) return mkConst(w, false, 0); if (aux == 0 && w > a->a->w) return mk(a->op, w, false, a->a);
        if (a->op == O_ZEXT && aux > 0) return mk(O_ZEXT, w, false, mk(O_TRUNC, a->a->w - aux, false, a->a, nullptr, nullptr, aux)); }
      if (a->op == O_CONCAT) { unsigned lw = a->b->w; if (aux + w <= lw) return mk(O_TRUNC, w, false, a->b, nullptr, nullptr, aux); if (aux >= (int)lw) return mk(O_TRUNC, w, false, a->a, nullptr, nullptr, aux - lw); }
      if (aux > 0 && a->op == O_MUL && C(a->b) && a->b->k && (a->b->k & (a->b->k - 1)) == 0 && aux == __builtin_ctzll(a->b->k) && aux + w <= a->w) return mk(O_TRUNC, w, false, a->a);  // (x << k) >> k
      if (aux == 0 && (a->op == O_ADD || a->op == O_SUB || a->op == O_MUL || a->op == O_AND || a->op == O_OR || a->op == O_XOR)) return mk(a->op, w, false, mk(O_TRUNC, w, false, a->a), mk(O_TRUNC, w, false, a->b));
      break;
    case O_CONCAT:
      if (a->op == O_TRUNC && b->op == O_TRUNC && a->a == b->a && a->aux == b->aux + b->w) return mk(O_TRUNC, w, false, a->a, nullptr, nullptr, b->aux);
      if (C(a) && a->k == 0) return mk(O_ZEXT, w, false, b);
      if (a->op == O_TRUNC && a->aux >= (int)b->w && mk(O_TRUNC, b->w, false, a->a, nullptr, nullptr, a->aux - (int)b->w) == b) return mk(O_TRUNC, w, false, a->a, nullptr, nullptr, a->aux - (int)b->w);
      break;
    case O_EQ:
      if (a == b) return mkTrue();
      if (a->w == 1) { if (C(b)) return b->k ? a : mkNot(a); }
      else if (a->ihi < b->ilo || b->ihi < a->ilo) return mkFalse();
      if (C(b)) {
        if (a->op == O_ZEXT) { if (b->k > maskw(a->a->w)) return mkFalse(); return mk(O_EQ, 1, false, a->a, mkConst(a->a->w, false, b->k)); }
        if (a->op == O_SEXT) { uint64_t t = b->k & maskw(a->a->w); if (((uint64_t)sxt(t, a->a->w) & maskw(a->w)) != b->k) return mkFalse(); return mk(O_EQ, 1, false, a->a, mkConst(a->a->w, false, t)); }
        if (a->op == O_ADD && C(a->b)) return mk(O_EQ, 1, false, a->a, mkConst(a->w, false, b->k - a->b->k));
        if (a->op == O_MUL && C(a->b) && a->w > 1) { int64_t k = sxt(a->b->k, a->w), t = sxt(b->k, a->w); i128 lo = (i128)a->a->ilo * k, hi = (i128)a->a->ihi * k; if (lo > hi) std::swap(lo, hi); i128 mx = ((i128)1 << (a->w - 1)); if (k != 0 && lo >= -mx && hi < mx) { if (t % k) return mkFalse(); return mk(O_EQ, 1, false, a->a, mkConst(a->w, false, (uint64_t)(t / k))); } }
        if (a->op == O_SUB && b->k == 0) return mk(O_EQ, 1, false, a->a, a->b);
        if (a->op == O_F2BITS && (a->a->op != O_BITS2F) && b->k == 0) {}
      }
      break;
    case O_SLT: if (a == b) return mkFalse(); if (a->w > 1) { if (a->ihi < b->ilo) return mkTrue(); if (a->ilo >= b->ihi) return mkFalse(); } break;
    case O_SLE: if (a == b) return mkTrue(); if (a->w > 1) { if (a->ihi <= b->ilo) return mkTrue(); if (a->ilo > b->ihi) return mkFalse(); } break;
    case O_ULT: if (a == b) return mkFalse(); if (C(b) && b->k == 0) return mkFalse(); if (a->w > 1) {
        if (a->ilo >= 0 && b->ilo >= 0) { if (a->ihi < b->ilo) return mkTrue(); if (a->ilo >= b->ihi) return mkFalse(); return mk(O_SLT, 1, false, a, b); }
        if (a->ilo >= 0 && b->ihi < 0) return mkTrue(); if (a->ihi < 0 && b->ilo >= 0) return mkFalse(); } break;
    case O_ULE: if (a == b) return mkTrue(); if (C(a) && a->k == 0) return mkTrue(); if (a->w > 1) {
        if (a->ilo >= 0 && b->ilo >= 0) { if (a->ihi <= b->ilo) return mkTrue(); if (a->ilo > b->ihi) return mkFalse(); return mk(O_SLE, 1, false, a, b); }
        if (a->ilo >= 0 && b->ihi < 0) return mkTrue(); if (a->ihi < 0 && b->ilo >= 0) return mkFalse(); } break;
    case O_FNEG: if (a->op == O_FNEG) return a->a; break;
    case O_FABS: if (a->op == O_FABS) return a; if (a->op == O_FNEG) return mk(O_FABS, w, true, a->a); if (!a->nan && a->flo > 0) return a; break;
    case O_FMUL: if (C(b) && bToD(b->k, w) == 1.0) return a; if (C(b) && bToD(b->k, w) == -1.0) return mk(O_FNEG, w, true, a); break;
    case O_FDIV: if (C(b) && bToD(b->k, w) == 1.0) return a;
      if (C(b)) { double d = bToD(b->k, w); int ex; double mm = frexp(d, &ex); if (fabs(mm) == 0.5 && ex > -20 && ex < 20) return mk(O_FMUL, w, true, a, mkConst(w, true, w == 32 ? f2b((float)(1.0 / d)) : d2b(1.0 / d))); }
      break;
    case O_FSUB: if (C(b) && bToD(b->k, w) == 0 && !std::signbit(bToD(b->k, w))) return a; break;
    case O_FADD: if (C(b) && b->k == (w == 32 ? 0x80000000ull : 0x8000000000000000ull)) return a; break;
    case O_FPTRUNC: if (a->op == O_FPEXT) return a->a; break;
    case O_BITS2F: if (a->op == O_F2BITS) return a->a; break;
    case O_F2BITS: if (a->op == O_BITS2F) return a->a; break;
    case O_F2SI: // integer-valued conversions back and forth
      if ((a->op == O_SI2F) && a->a->w == w && a->gran == 0) return a->a;
      if (a->op == O_FTRUNC) return mk(O_F2SI, w, false, a->a);
      break;
    case O_FFLOOR: case O_FCEIL: case O_FTRUNC: case O_FROUND: case O_FRINT: if (a->gran != GRAN_NONE && a->gran >= 0 && !a->nan) return a; break;
    case O_FEQ: if (!a->nan && a == b) return mkTrue(); if (!a->nan && !b->nan && (a->fhi < b->flo || b->fhi < a->flo)) return mkFalse(); if ((C(a) && a->nan) || (C(b) && b->nan)) return mkFalse();
      break;
    case O_FLT: { if (a == b) return mkFalse(); int r = ufLess(a, b); if (r >= 0) return r ? mkTrue() : mkFalse(); if ((C(a) && a->nan) || (C(b) && b->nan)) return mkFalse();
      if (a->flo >= b->fhi && a->flo <= a->fhi && b->flo <= b->fhi) return mkFalse(); // even with NaN: never less
      if (a->op == O_FPEXT && b->op == O_FPEXT) return mk(O_FLT, 1, false, a->a, b->a);
      break; }
    case O_FLE: { if (!a->nan && a == b) return mkTrue(); if (!a->nan && !b->nan) { if (a->fhi <= b->flo) return mkTrue(); if (a->flo > b->fhi) return mkFalse(); } if ((C(a) && a->nan) || (C(b) && b->nan)) return mkFalse();
      if (a->op == O_FPEXT && b->op == O_FPEXT) return mk(O_FLE, 1, false, a->a, b->a);
      break; }
    case O_FUNO: if (!a->nan && !b->nan) return mkFalse(); if ((C(a) && a->nan) || (C(b) && b->nan)) return mkTrue(); 
      if (C(a)) return mk(O_FUNO, 1, false, b, b);
      if (C(b)) return mk(O_FUNO, 1, false, a, a);
      if (!a->nan && a != b) return mk(O_FUNO, 1, false, b, b);
      if (!b->nan && a != b) return mk(O_FUNO, 1, false, a, a);
      if (a == b && (a->op == O_FPEXT || a->op == O_FNEG || a->op == O_FABS)) return mk(O_FUNO, 1, false, a->a, a->a);
      break;
    default: break;
  }
  return intern(op, w, fp, aux, a, b, c, 0);
}

static const char* opn[] = {"const", "var", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "zext", "sext", "trunc", "concat", "eq", "ult", "ule", "slt", "sle", "ite", "fadd", "fsub", "fmul", "fdiv", "frem", "fsqrt", "fneg", "fabs", "fmin", "fmax", "copysign", "floor", "ceil", "ftrunc", "round", "rint", "fpext", "fptrunc", "si2f", "ui2f", "f2si", "f2ui", "bits2f", "f2bits", "feq", "flt", "fle", "funo", "libm"};
std::string showExpr(Expr* e, int d) {
  std::ostringstream o;
  if (!e) return "null";
  if (e->op == O_CONST) { if (e->fp) o << bToD(e->k, e->w); else o << sxt(e->k, e->w); return o.str(); }
  if (e->op == O_VAR) return gVars[e->k].name;
  if (d <= 0) return "..";
  o << "(" << (e->op == O_LIBM ? libmName[e->aux] : opn[e->op]);
  for (Expr* x : {e->a, e->b, e->c}) if (x) o << " " << showExpr(x, d - 1);
  o << ")";
  return o.str();
}
