#include "solver.h"
#include <z3++.h>
#include <algorithm>
#include <chrono>
#include <iostream>
#include <unordered_set>
#include <deque>

SolveStats gStats;
SolverOpts gSolverOpts;
static z3::context& Z() { static z3::context* c = new z3::context(); return *c; }
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

static void postorder(const std::vector<Expr*>& roots, std::vector<Expr*>& out, std::unordered_set<Expr*>* skip = nullptr) {
  std::unordered_set<Expr*> seen;
  std::vector<std::pair<Expr*, int>> st;
  for (Expr* r : roots) {
    if (seen.count(r)) continue;
    st.push_back({r, 0});
    while (!st.empty()) {
      auto& [e, i] = st.back();
      if (i == 0) { if (seen.count(e)) { st.pop_back(); continue; } }
      Expr* ch[3] = {e->a, e->b, e->c};
      while (i < 3 && (!ch[i] || seen.count(ch[i]))) i++;
      if (i < 3) { Expr* n = ch[i]; i++; st.push_back({n, 0}); continue; }
      Expr* d = e; st.pop_back();
      if (seen.insert(d).second) out.push_back(d);
    }
  }
}

// ------------------------------------------------------------------ exact encoding (bit-vectors + IEEE floats)
static std::unordered_map<Expr*, z3::expr*> exMemo;
static z3::sort fsort(uint8_t w) { return w == 32 ? Z().fpa_sort<32>() : Z().fpa_sort<64>(); }
static z3::expr X(Expr* e) { return *exMemo.at(e); }
static z3::expr wrapE(Z3_ast a) { Z().check_error(); return z3::expr(Z(), a); }
static z3::expr rm(const char* m) {
  if (!strcmp(m, "rne")) return wrapE(Z3_mk_fpa_rne(Z()));
  if (!strcmp(m, "rtz")) return wrapE(Z3_mk_fpa_rtz(Z()));
  if (!strcmp(m, "rtn")) return wrapE(Z3_mk_fpa_rtn(Z()));
  if (!strcmp(m, "rtp")) return wrapE(Z3_mk_fpa_rtp(Z()));
  return wrapE(Z3_mk_fpa_rna(Z()));
}
static z3::expr bvc(uint64_t k, unsigned w) { return w == 1 ? Z().bool_val(k & 1) : Z().bv_val((uint64_t)(k & maskw(w)), w); }
static z3::expr asBv(Expr* e) { z3::expr x = X(e); if (e->w == 1) return z3::ite(x, Z().bv_val(1, 1), Z().bv_val(0, 1)); return x; }
static std::unordered_map<Expr*, std::vector<z3::expr>> exSide;
static void encExact(Expr* e) {
  if (exMemo.count(e)) return;
  auto& c = Z();
  z3::expr r(c);
  auto bin = [&](Expr* x) { return X(x); };
  switch (e->op) {
    case O_CONST: if (e->fp) { r = wrapE(Z3_mk_fpa_to_fp_bv(c, bvc(e->k, e->w), fsort(e->w))); r = r.simplify(); } else r = bvc(e->k, e->w); break;
    case O_VAR: { std::string n = "v" + std::to_string(e->k);
      if (e->fp) r = wrapE(Z3_mk_fpa_to_fp_bv(c, c.bv_const(n.c_str(), e->w), fsort(e->w))); else r = e->w == 1 ? c.bool_const(n.c_str()) : c.bv_const(n.c_str(), e->w); break; }
    case O_ADD: r = e->w == 1 ? (X(e->a) != X(e->b)) : bin(e->a) + bin(e->b); break;
    case O_SUB: r = e->w == 1 ? (X(e->a) != X(e->b)) : bin(e->a) - bin(e->b); break;
    case O_MUL: r = e->w == 1 ? (X(e->a) && X(e->b)) : bin(e->a) * bin(e->b); break;
    case O_UDIV: r = z3::udiv(X(e->a), X(e->b)); break;
    case O_SDIV: r = X(e->a) / X(e->b); break;
    case O_UREM: r = z3::urem(X(e->a), X(e->b)); break;
    case O_SREM: r = z3::srem(X(e->a), X(e->b)); break;
    case O_AND: r = e->w == 1 ? (X(e->a) && X(e->b)) : (X(e->a) & X(e->b)); break;
    case O_OR: r = e->w == 1 ? (X(e->a) || X(e->b)) : (X(e->a) | X(e->b)); break;
    case O_XOR: if (e->w == 1) r = isTrue(e->b) ? !X(e->a) : (X(e->a) != X(e->b)); else r = X(e->a) ^ X(e->b); break;
    case O_SHL: r = z3::shl(X(e->a), X(e->b)); break;
    case O_LSHR: r = z3::lshr(X(e->a), X(e->b)); break;
    case O_ASHR: r = z3::ashr(X(e->a), X(e->b)); break;
    case O_ZEXT: if (e->a->w == 1) r = z3::ite(X(e->a), bvc(1, e->w), bvc(0, e->w)); else r = z3::zext(X(e->a), e->w - e->a->w); break;
    case O_SEXT: if (e->a->w == 1) r = z3::ite(X(e->a), bvc(~0ull, e->w), bvc(0, e->w)); else r = z3::sext(X(e->a), e->w - e->a->w); break;
    case O_TRUNC: r = asBv(e->a).extract(e->aux + e->w - 1, e->aux); if (e->w == 1) r = (r == c.bv_val(1, 1)); break;
    case O_CONCAT: r = z3::concat(asBv(e->a), asBv(e->b)); break;
    case O_EQ: r = X(e->a) == X(e->b); break;
    case O_ULT: r = e->a->w == 1 ? (!X(e->a) && X(e->b)) : z3::ult(X(e->a), X(e->b)); break;
    case O_ULE: r = e->a->w == 1 ? (!X(e->a) || X(e->b)) : z3::ule(X(e->a), X(e->b)); break;
    case O_SLT: r = e->a->w == 1 ? (X(e->a) && !X(e->b)) : z3::slt(X(e->a), X(e->b)); break;
    case O_SLE: r = e->a->w == 1 ? (X(e->a) || !X(e->b)) : z3::sle(X(e->a), X(e->b)); break;
    case O_ITE: r = z3::ite(X(e->a), X(e->b), X(e->c)); break;
    case O_FADD: r = wrapE(Z3_mk_fpa_add(c, rm("rne"), X(e->a), X(e->b))); break;
    case O_FSUB: r = wrapE(Z3_mk_fpa_sub(c, rm("rne"), X(e->a), X(e->b))); break;
    case O_FMUL: r = wrapE(Z3_mk_fpa_mul(c, rm("rne"), X(e->a), X(e->b))); break;
    case O_FDIV: r = wrapE(Z3_mk_fpa_div(c, rm("rne"), X(e->a), X(e->b))); break;
    case O_FSQRT: r = wrapE(Z3_mk_fpa_sqrt(c, rm("rne"), X(e->a))); break;
    case O_FNEG: r = wrapE(Z3_mk_fpa_neg(c, X(e->a))); break;
    case O_FABS: r = wrapE(Z3_mk_fpa_abs(c, X(e->a))); break;
    case O_FMIN: r = wrapE(Z3_mk_fpa_min(c, X(e->a), X(e->b))); break;
    case O_FMAX: r = wrapE(Z3_mk_fpa_max(c, X(e->a), X(e->b))); break;
    case O_FCOPYSIGN: { z3::expr sa = wrapE(Z3_mk_fpa_abs(c, X(e->a))); r = z3::ite(wrapE(Z3_mk_fpa_is_negative(c, X(e->b))), wrapE(Z3_mk_fpa_neg(c, sa)), sa); break; }
    case O_FFLOOR: r = wrapE(Z3_mk_fpa_round_to_integral(c, rm("rtn"), X(e->a))); break;
    case O_FCEIL: r = wrapE(Z3_mk_fpa_round_to_integral(c, rm("rtp"), X(e->a))); break;
    case O_FTRUNC: r = wrapE(Z3_mk_fpa_round_to_integral(c, rm("rtz"), X(e->a))); break;
    case O_FROUND: r = wrapE(Z3_mk_fpa_round_to_integral(c, rm("rna"), X(e->a))); break;
    case O_FRINT: r = wrapE(Z3_mk_fpa_round_to_integral(c, rm("rne"), X(e->a))); break;
    case O_FPEXT: case O_FPTRUNC: r = wrapE(Z3_mk_fpa_to_fp_float(c, rm("rne"), X(e->a), fsort(e->w))); break;
    case O_SI2F: r = wrapE(Z3_mk_fpa_to_fp_signed(c, rm("rne"), asBv(e->a), fsort(e->w))); break;
    case O_UI2F: r = wrapE(Z3_mk_fpa_to_fp_unsigned(c, rm("rne"), asBv(e->a), fsort(e->w))); break;
    case O_F2SI: { // x86 conversion semantics
      unsigned cw = e->w < 32 ? 32 : e->w;
      z3::expr x = X(e->a);
      double hi = cw == 32 ? 2147483648.0 : 9223372036854775808.0, lo = cw == 32 ? -2147483649.0 : -9223372036854775808.0;
      auto fc = [&](double d) { return e->a->w == 32 ? wrapE(Z3_mk_fpa_numeral_float(c, (float)d, fsort(32))) : wrapE(Z3_mk_fpa_numeral_double(c, d, fsort(64))); };
      if (e->a->w == 32 && cw == 32) lo = -2147483648.0;
      z3::expr okl = (cw == 32 && e->a->w == 64) ? wrapE(Z3_mk_fpa_gt(c, x, fc(lo))) : wrapE(Z3_mk_fpa_geq(c, x, fc(lo)));
      z3::expr ok = okl && wrapE(Z3_mk_fpa_lt(c, x, fc(hi)));
      z3::expr bad = Z().bv_val((uint64_t)(1ull << (cw - 1)), cw);
      r = z3::ite(ok, wrapE(Z3_mk_fpa_to_sbv(c, rm("rtz"), x, cw)), bad);
      if (e->w < cw) { r = r.extract(e->w - 1, 0); if (e->w == 1) r = (r == c.bv_val(1, 1)); }
      break; }
    case O_F2UI: {
      z3::expr x = X(e->a);
      auto fc = [&](double d) { return e->a->w == 32 ? wrapE(Z3_mk_fpa_numeral_float(c, (float)d, fsort(32))) : wrapE(Z3_mk_fpa_numeral_double(c, d, fsort(64))); };
      z3::expr ok = wrapE(Z3_mk_fpa_geq(c, x, fc(-9223372036854775808.0))) && wrapE(Z3_mk_fpa_lt(c, x, fc(9223372036854775808.0)));
      z3::expr ok2 = wrapE(Z3_mk_fpa_geq(c, x, fc(0))) && wrapE(Z3_mk_fpa_lt(c, x, fc(18446744073709551616.0)));
      z3::expr bad = Z().bv_val((uint64_t)0x8000000000000000ull, 64);
      r = z3::ite(ok, wrapE(Z3_mk_fpa_to_sbv(c, rm("rtz"), x, 64)), e->w == 64 ? z3::ite(ok2, wrapE(Z3_mk_fpa_to_ubv(c, rm("rtz"), x, 64)), bad) : bad);
      if (e->w < 64) { r = r.extract(e->w - 1, 0); if (e->w == 1) r = (r == c.bv_val(1, 1)); }
      break; }
    case O_BITS2F: r = wrapE(Z3_mk_fpa_to_fp_bv(c, X(e->a), fsort(e->w))); break;
    case O_F2BITS: r = wrapE(Z3_mk_fpa_to_ieee_bv(c, X(e->a))); break;
    case O_FEQ: r = wrapE(Z3_mk_fpa_eq(c, X(e->a), X(e->b))); break;
    case O_FLT: r = wrapE(Z3_mk_fpa_lt(c, X(e->a), X(e->b))); break;
    case O_FLE: r = wrapE(Z3_mk_fpa_leq(c, X(e->a), X(e->b))); break;
    case O_FUNO: r = wrapE(Z3_mk_fpa_is_nan(c, X(e->a))); if (e->b != e->a) r = r || wrapE(Z3_mk_fpa_is_nan(c, X(e->b))); break;
    case O_FREM: case O_LIBM: { // uninterpreted, range-constrained
      z3::expr v = c.bv_const(("lm" + std::to_string(e->id)).c_str(), e->w);
      r = wrapE(Z3_mk_fpa_to_fp_bv(c, v, fsort(e->w)));
      z3::expr nan = wrapE(Z3_mk_fpa_is_nan(c, r));
      z3::expr in = c.bool_val(true);
      auto fc = [&](double d) { return e->w == 32 ? wrapE(Z3_mk_fpa_numeral_float(c, (float)d, fsort(32))) : wrapE(Z3_mk_fpa_numeral_double(c, d, fsort(64))); };
      if (!std::isinf(e->flo)) in = in && wrapE(Z3_mk_fpa_geq(c, r, fc(e->flo)));
      if (!std::isinf(e->fhi)) in = in && wrapE(Z3_mk_fpa_leq(c, r, fc(e->fhi)));
      if (!e->nan) in = in && !nan;
      else { z3::expr an = wrapE(Z3_mk_fpa_is_nan(c, X(e->a))); if (e->b) an = an || wrapE(Z3_mk_fpa_is_nan(c, X(e->b))); in = (an && nan) || (!an && (in || nan)); }
      exSide[e].push_back(in);
      break; }
    default: std::cerr << "encExact: op " << (int)e->op << "\n"; abort();
  }
  exMemo[e] = new z3::expr(r);
}

// ------------------------------------------------------------------ arithmetic relaxation (Int + Real with rounding-error variables)
// Three encodings of floating point over the reals: mode 0 has one rounding-error variable per operation; modes 1 and 2
// ("compact") carry an exact real expression R plus a forward error bound |value-R| <= rel*|R|+abs and introduce an error
// variable only where a value is compared, truncated or (mode 2) subtracted.
static int arMode = 0;
static std::unordered_map<Expr*, z3::expr*> arMemoM[4];
static std::unordered_map<Expr*, std::vector<z3::expr>> arSideM[4];
#define arMemo arMemoM[arMode]
#define arSide arSideM[arMode]
static std::unordered_map<Expr*, int> arOkMemo;
static bool nonlinearFlag(Expr* e) { return (e->op == O_FMUL || e->op == O_MUL) ? (e->a->op != O_CONST && e->b->op != O_CONST) : (e->op == O_FDIV ? e->b->op != O_CONST : e->op == O_FSQRT); }
static z3::expr Vof(Expr* e);
static z3::expr A(Expr* e) { if (arMode && e->fp) return Vof(e); return *arMemo.at(e); }
static z3::expr ratOf(double d) {
  if (d == 0) return Z().real_val(0);
  if (gSolverOpts.reals && fabs(d) > 1e-12 && fabs(d) < 1e12) {  // rounding is not modelled: the simplest rational that rounds to the constant
    double tol = fabs(d) * ((double)(float)d == d ? ldexp(1, -25) : ldexp(1, -53)); long double x = fabsl((long double)d); long double p0 = 0, q0 = 1, p1 = 1, q1 = 0;
    for (int i = 0; i < 30; i++) {
      long double a = floorl(x), p2 = a * p1 + p0, q2 = a * q1 + q0; if (p2 > 9e17L || q2 > 9e17L) break;
      p0 = p1; q0 = q1; p1 = p2; q1 = q2;
      if (fabsl(p1 / q1 - fabsl((long double)d)) <= tol) return Z().real_val(((d < 0 ? "-" : "") + std::to_string((int64_t)p1) + "/" + std::to_string((int64_t)q1)).c_str());
      if (x - a < 1e-18L) break; x = 1 / (x - a);
    }
  }
  int ex; double m = frexp(d, &ex); int64_t im = (int64_t)ldexp(m, 53); int g = ex - 53;
  while ((im & 1) == 0) { im >>= 1; g++; }
  std::string num = std::to_string(im);
  if (g == 0) return Z().real_val(num.c_str());
  // 2^|g| as decimal string
  std::string p = "1"; for (int i = 0; i < abs(g); i++) { int carry = 0; for (int j = (int)p.size() - 1; j >= 0; j--) { int v = (p[j] - '0') * 2 + carry; p[j] = '0' + v % 10; carry = v / 10; } if (carry) p.insert(p.begin(), '0' + carry); }
  if (g > 0) { z3::expr r = Z().real_val(num.c_str()) * Z().real_val(p.c_str()); return r.simplify(); }
  return Z().real_val((num + "/" + p).c_str());
}
static z3::expr ic(int64_t v) { return Z().int_val((int64_t)v); }
static z3::expr pow2i(unsigned w) { if (w < 63) return ic((int64_t)1 << w); z3::expr r = ic((int64_t)1 << 62); for (unsigned i = 62; i < w; i++) r = r * 2; return r.simplify(); }
static z3::expr uns(Expr* e) { z3::expr a = A(e); if (e->w == 1) return z3::ite(a, ic(1), ic(0)); if (e->ilo >= 0) return a; return z3::ite(a < 0, a + pow2i(e->w), a); }
static z3::expr toIntF(const z3::expr& x) { return wrapE(Z3_mk_real2int(Z(), x)); }
static z3::expr toReal(const z3::expr& x) { return wrapE(Z3_mk_int2real(Z(), x)); }
static z3::expr wrapInt(const z3::expr& t, unsigned w) { z3::expr h = pow2i(w - 1), m = pow2i(w); return z3::mod(t + h, m) - h; }
static bool arOk(Expr* root) {
  auto it = arOkMemo.find(root);
  if (it != arOkMemo.end()) return it->second;
  std::vector<Expr*> po; postorder({root}, po);
  for (Expr* e : po) {
    if (arOkMemo.count(e)) continue;
    bool ok = true;
    for (Expr* x : {e->a, e->b, e->c}) if (x && !arOkMemo.at(x)) ok = false;
    if (e->fp && e->nan) ok = false;
    if (e->op == O_BITS2F) ok = false;
    if (e->op == O_CONST && e->fp && !std::isfinite(bToD(e->k, e->w))) ok = false;
    arOkMemo[e] = ok;
  }
  return arOkMemo.at(root);
}
static z3::expr roundErr(Expr* e, const z3::expr& E) {
  if (e->gran != GRAN_NONE || gSolverOpts.reals) return E;
  auto& c = Z();
  z3::expr r = c.real_const(("r" + std::to_string(e->id)).c_str());
  auto& sd = arSide[e];
  double u = e->w == 32 ? ldexp(1, -24) : ldexp(1, -53), eta = e->w == 32 ? ldexp(1, -149) : ldexp(1, -1074);
  bool fin = std::isfinite(e->flo) && std::isfinite(e->fhi);
  if (!std::isinf(e->flo)) sd.push_back(r >= ratOf(e->flo));
  if (!std::isinf(e->fhi)) sd.push_back(r <= ratOf(e->fhi));
  (void)eta;
  double etaUse = e->w == 32 ? ldexp(1, -149) : ldexp(1, -200);
  z3::expr ue = ratOf(u), et = ratOf(etaUse);
  if (e->flo >= 0) { sd.push_back(r - E <= E * ue + et); sd.push_back(E - r <= E * ue + et); sd.push_back(E >= 0); }
  else if (e->fhi <= 0) { sd.push_back(r - E <= et - E * ue); sd.push_back(E - r <= et - E * ue); sd.push_back(E <= 0); }
  else {
    z3::expr pos = (r - E <= E * ue + et) && (E - r <= E * ue + et) && (r >= 0);
    z3::expr neg = (r - E <= et - E * ue) && (E - r <= et - E * ue) && (r <= 0);
    sd.push_back((E >= 0 && pos) || (E <= 0 && neg));
    if (fin) { double m = std::max(fabs(e->flo), fabs(e->fhi)) * u * 1.0001 + etaUse; sd.push_back(r - E <= ratOf(m)); sd.push_back(E - r <= ratOf(m)); }
  }
  return r;
}
static void libmAxioms(Expr* e, const z3::expr& x, const z3::expr& y, const z3::expr& r, double tol, std::vector<z3::expr>& sd) {
  z3::expr T = ratOf(tol);
  double pi = M_PI;
  z3::expr hp = ratOf(pi / 2 * (1 + 1e-6)), hm = ratOf(pi / 2 * (1 - 1e-6));
  if (e->aux == LM_ATAN2) {
    sd.push_back(z3::implies(x > 0, r >= 0)); sd.push_back(z3::implies(x < 0, r <= 0));
    sd.push_back(z3::implies(y > 0, r <= hp && r >= -hp));
    sd.push_back(z3::implies(y < 0, r >= hm || r <= -hm));
    sd.push_back(z3::implies(x == 0 && y > 0, r == 0));
    sd.push_back(z3::implies(x == 0 && y < 0, r >= ratOf(pi * (1 - 1e-6)) || r <= ratOf(-pi * (1 - 1e-6))));
    sd.push_back(z3::implies(y == 0 && x > 0, r >= hm && r <= hp)); sd.push_back(z3::implies(y == 0 && x < 0, r <= -hm && r >= -hp));
  } else if (e->aux == LM_SIN) {
    sd.push_back(z3::implies(x >= 0, r <= x + T)); sd.push_back(z3::implies(x <= 0, r >= x - T));
  } else if (e->aux == LM_HYPOT) {
    z3::expr aa = z3::ite(x >= 0, x, -x), bb = z3::ite(y >= 0, y, -y);
    z3::expr f = ratOf(1 - 4e-7), g = ratOf(1 + 4e-7);
    sd.push_back(r >= aa * f); sd.push_back(r >= bb * f); sd.push_back(r <= (aa + bb) * g);
  }
}
static void encCompact(Expr* e);
static void encArith(Expr* e) {
  if (arMode && e->fp) { encCompact(e); return; }
  if (arMemo.count(e)) return;
  auto& c = Z();
  z3::expr r(c);
  auto fresh = [&]() {
    z3::expr v = e->w == 1 ? c.bool_const(("i" + std::to_string(e->id)).c_str()) : c.int_const(("i" + std::to_string(e->id)).c_str());
    if (e->w > 1) { arSide[e].push_back(v >= ic(e->ilo)); arSide[e].push_back(v <= ic(e->ihi)); }
    return v;
  };
  Expr *a = e->a, *b = e->b;
  typedef __int128 i128;
  auto fits = [&](i128 lo, i128 hi) { i128 mx = (i128)1 << (e->w - 1); return lo >= -mx && hi < mx; };
  switch (e->op) {
    case O_CONST: if (e->fp) r = ratOf(bToD(e->k, e->w)); else r = e->w == 1 ? c.bool_val(e->k & 1) : ic(sxt(e->k, e->w)); break;
    case O_VAR: {
      std::string n = "x" + std::to_string(e->k);
      if (e->fp) { r = c.real_const(n.c_str()); arSide[e].push_back(r >= ratOf(e->flo)); arSide[e].push_back(r <= ratOf(e->fhi)); }
      else if (e->w == 1) r = c.bool_const(n.c_str());
      else { r = c.int_const(n.c_str()); arSide[e].push_back(r >= ic(e->ilo)); arSide[e].push_back(r <= ic(e->ihi)); }
      break; }
    case O_ADD: if (e->w == 1) { r = A(a) != A(b); break; } r = A(a) + A(b); if (!fits((i128)a->ilo + b->ilo, (i128)a->ihi + b->ihi)) r = wrapInt(r, e->w); break;
    case O_SUB: if (e->w == 1) { r = A(a) != A(b); break; } r = A(a) - A(b); if (!fits((i128)a->ilo - b->ihi, (i128)a->ihi - b->ilo)) r = wrapInt(r, e->w); break;
    case O_MUL: { if (e->w == 1) { r = A(a) && A(b); break; } r = A(a) * A(b);
      i128 p[4] = {(i128)a->ilo * b->ilo, (i128)a->ilo * b->ihi, (i128)a->ihi * b->ilo, (i128)a->ihi * b->ihi};
      if (!fits(*std::min_element(p, p + 4), *std::max_element(p, p + 4))) r = wrapInt(r, e->w); break; }
    case O_UDIV: if (a->ilo >= 0 && b->ilo > 0) r = A(a) / A(b); else r = fresh(); break;
    case O_SDIV: if (b->ilo > 0) r = a->ilo >= 0 ? A(a) / A(b) : z3::ite(A(a) >= 0, A(a) / A(b), -((-A(a)) / A(b))); else r = fresh(); break;
    case O_UREM: if (a->ilo >= 0 && b->ilo > 0) r = z3::mod(A(a), A(b)); else r = fresh(); break;
    case O_SREM: if (b->ilo > 0) r = a->ilo >= 0 ? z3::mod(A(a), A(b)) : z3::ite(A(a) >= 0, z3::mod(A(a), A(b)), -z3::mod(-A(a), A(b))); else r = fresh(); break;
    case O_AND: if (e->w == 1) r = A(a) && A(b);
      else if (b->op == O_CONST && ((b->k + 1) & b->k) == 0 && b->k < maskw(e->w)) r = z3::mod(A(a), pow2i(__builtin_popcountll(b->k)));
      else r = fresh(); break;
    case O_OR: if (e->w == 1) r = A(a) || A(b);
      else if (a->op == O_SHL && a->b->op == O_CONST && a->b->k < 63 && b->ilo >= 0 && (i128)b->ihi < ((i128)1 << a->b->k)) r = A(a) + A(b);
      else if (b->op == O_SHL && b->b->op == O_CONST && b->b->k < 63 && a->ilo >= 0 && (i128)a->ihi < ((i128)1 << b->b->k)) r = A(a) + A(b);
      else r = fresh(); break;
    case O_XOR: if (e->w == 1) r = isTrue(b) ? !A(a) : (A(a) != A(b)); else if (b->op == O_CONST && b->k == maskw(e->w)) r = -A(a) - 1; else r = fresh(); break;
    case O_SHL: if (b->op == O_CONST && b->k < 62) { r = A(a) * pow2i((unsigned)b->k); if (!fits((i128)a->ilo << b->k, (i128)a->ihi << b->k)) r = wrapInt(r, e->w); } else r = fresh(); break;
    case O_LSHR: if (b->op == O_CONST && b->k < 62) r = uns(a) / pow2i((unsigned)b->k); else r = fresh(); break;
    case O_ASHR: if (b->op == O_CONST && b->k < 62) r = A(a) / pow2i((unsigned)b->k); else r = fresh(); break;
    case O_ZEXT: r = uns(a); if (e->w == 64 && a->w == 64) r = A(a); break;
    case O_SEXT: r = a->w == 1 ? z3::ite(A(a), ic(-1), ic(0)) : A(a); break;
    case O_TRUNC: {
      z3::expr t = e->aux ? (a->w == 1 ? ic(0) : A(a) / pow2i(e->aux)) : A(a);
      if (e->w == 1) r = z3::mod(t, ic(2)) == ic(1);
      else if (e->aux == 0 && fits(a->ilo, a->ihi)) r = t;
      else r = wrapInt(t, e->w);
      break; }
    case O_CONCAT: { z3::expr hi = a->w == 1 ? z3::ite(A(a), ic(-1), ic(0)) : A(a); r = hi * pow2i(b->w) + uns(b); break; }
    case O_EQ: r = A(a) == A(b); break;
    case O_ULT: r = uns(a) < uns(b); break;
    case O_ULE: r = uns(a) <= uns(b); break;
    case O_SLT: r = a->w == 1 ? (A(a) && !A(b)) : (A(a) < A(b)); break;
    case O_SLE: r = a->w == 1 ? (A(a) || !A(b)) : (A(a) <= A(b)); break;
    case O_ITE: r = z3::ite(A(a), A(b), A(e->c)); break;
    case O_FADD: r = roundErr(e, A(a) + A(b)); break;
    case O_FSUB: r = roundErr(e, A(a) - A(b)); break;
    case O_FMUL: r = roundErr(e, A(a) * A(b)); break;
    case O_FDIV:
      if (b->op == O_CONST) r = roundErr(e, A(a) / A(b));
      else { z3::expr q = c.real_const(("q" + std::to_string(e->id)).c_str()); arSide[e].push_back(q * A(b) == A(a)); arSide[e].push_back(A(b) != 0); r = roundErr(e, q); }
      break;
    case O_FSQRT: { z3::expr s = c.real_const(("s" + std::to_string(e->id)).c_str()); arSide[e].push_back(s >= 0); arSide[e].push_back(s * s == A(a)); r = roundErr(e, s); break; }
    case O_FNEG: r = -A(a); break;
    case O_FABS: r = z3::ite(A(a) >= 0, A(a), -A(a)); break;
    case O_FMIN: r = z3::ite(A(a) <= A(b), A(a), A(b)); break;
    case O_FMAX: r = z3::ite(A(a) >= A(b), A(a), A(b)); break;
    case O_FCOPYSIGN: { z3::expr m = z3::ite(A(a) >= 0, A(a), -A(a)); z3::expr sg = c.bool_const(("sg" + std::to_string(e->id)).c_str()); arSide[e].push_back((A(b) == 0) || (sg == (A(b) < 0))); r = z3::ite(sg, -m, m); break; }
    case O_FFLOOR: r = toReal(toIntF(A(a))); break;
    case O_FCEIL: r = -toReal(toIntF(-A(a))); break;
    case O_FTRUNC: r = z3::ite(A(a) >= 0, toReal(toIntF(A(a))), -toReal(toIntF(-A(a)))); break;
    case O_FROUND: { z3::expr h = c.real_val(1, 2); r = z3::ite(A(a) >= 0, toReal(toIntF(A(a) + h)), -toReal(toIntF(-A(a) + h))); break; }
    case O_FRINT: { z3::expr k = c.int_const(("k" + std::to_string(e->id)).c_str()); z3::expr h = c.real_val(1, 2); r = toReal(k); arSide[e].push_back(r - A(a) <= h); arSide[e].push_back(A(a) - r <= h); break; }
    case O_FPEXT: r = A(a); break;
    case O_FPTRUNC: r = roundErr(e, A(a)); break;
    case O_SI2F: { z3::expr t = a->w == 1 ? z3::ite(A(a), ic(-1), ic(0)) : A(a); r = roundErr(e, toReal(t)); break; }
    case O_UI2F: r = roundErr(e, toReal(uns(a))); break;
    case O_F2SI: case O_F2UI: {
      z3::expr t = z3::ite(A(a) >= 0, toIntF(A(a)), -toIntF(-A(a)));
      if (e->w == 1) { r = fresh(); break; }
      unsigned cw = e->op == O_F2UI ? 64 : (e->w < 32 ? 32 : e->w);
      double lim = ldexp(1.0, cw - 1);
      if (a->flo > -lim && a->fhi < lim) { r = t; }
      else { z3::expr l = pow2i(cw - 1); r = z3::ite(t >= -l && t < l, t, -l); }
      if (e->w < cw && !(a->flo > -ldexp(1.0, e->w - 1) && a->fhi < ldexp(1.0, e->w - 1))) r = wrapInt(r, e->w);
      break; }
    case O_F2BITS: r = fresh(); if (e->w > 1) { arSide[e].push_back(z3::implies(A(a) > 0, r >= ic(0))); arSide[e].push_back(z3::implies(A(a) < 0, r < ic(0))); } break;
    case O_FEQ: r = A(a) == A(b); break;
    case O_FLT: r = A(a) < A(b); break;
    case O_FLE: r = A(a) <= A(b); break;
    case O_FUNO: r = c.bool_val(false); break;
    case O_FREM: case O_LIBM: {
      if ((e->op == O_FREM || e->aux == LM_FMOD) && b->flo > 0 && b->op == O_CONST) {
        z3::expr q = A(a) / A(b);
        r = z3::ite(A(a) >= 0, A(a) - A(b) * toReal(toIntF(q)), -(-A(a) - A(b) * toReal(toIntF(-q))));
        break;
      }
      r = c.real_const(("m" + std::to_string(e->id)).c_str());
      if (!std::isinf(e->flo)) arSide[e].push_back(r >= ratOf(e->flo));
      if (!std::isinf(e->fhi)) arSide[e].push_back(r <= ratOf(e->fhi));
      if (e->op == O_LIBM) libmAxioms(e, A(a), b ? A(b) : A(a), r, e->w == 32 ? 4e-7 : 1e-15, arSide[e]);
      break; }
    default: std::cerr << "encArith: op " << (int)e->op << " " << showExpr(e) << "\n"; abort();
  }
  arMemo[e] = new z3::expr(r);
}


// ------------------------------------------------------------------ compact encoding (modes 1, 2)
struct CInfo { z3::expr R; double rel, abs; bool sg = true; /* rounding never flips the sign of R */ z3::expr* V; z3::expr *la, *lb; CInfo(z3::expr r) : R(r), rel(0), abs(0), V(nullptr), la(nullptr), lb(nullptr) {} };
static std::unordered_map<Expr*, CInfo*> cinfoM[4];
static CInfo& CI(Expr* e) { return *cinfoM[arMode].at(e); }
static z3::expr absZ(const z3::expr& x) { return z3::ite(x >= 0, x, -x); }
static z3::expr Vof(Expr* e) {
  CInfo& ci = CI(e);
  if (ci.V) return *ci.V;
  if (ci.rel == 0 && ci.abs == 0) { ci.V = new z3::expr(ci.R); return *ci.V; }
  z3::expr v = Z().real_const(("V" + std::to_string(e->id)).c_str());
  auto& sd = arSide[e];
  z3::expr d = v - ci.R;
  if (ci.rel == 0) { sd.push_back(d <= ratOf(ci.abs)); sd.push_back(-d <= ratOf(ci.abs)); }
  else if (e->flo >= 0 && ci.abs == 0) { z3::expr b = ci.R * ratOf(ci.rel); sd.push_back(d <= b); sd.push_back(-d <= b); }
  else if (e->fhi <= 0 && ci.abs == 0) { z3::expr b = -ci.R * ratOf(ci.rel); sd.push_back(d <= b); sd.push_back(-d <= b); }
  else { z3::expr b = absZ(ci.R) * ratOf(ci.rel) + ratOf(ci.abs); sd.push_back(d <= b); sd.push_back(-d <= b); }
  if (!std::isinf(e->flo)) sd.push_back(v >= ratOf(e->flo));
  if (!std::isinf(e->fhi)) sd.push_back(v <= ratOf(e->fhi));
  if (ci.sg && ci.abs > 0 && e->flo < 0 && e->fhi > 0) { sd.push_back(z3::implies(ci.R >= 0, v >= 0)); sd.push_back(z3::implies(ci.R <= 0, v <= 0)); }
  ci.V = new z3::expr(v);
  return v;
}
static double magR(Expr* e) { CInfo& ci = CI(e); double m = std::max(fabs(e->flo), fabs(e->fhi)); return (m + ci.abs) / (1 - std::min(0.5, ci.rel)) * (1 + 1e-12); }
static z3::expr fromInt(const z3::expr& x) { return toReal(x); }
static std::map<std::pair<int, std::pair<unsigned, unsigned>>, z3::expr*> ufKey; static std::vector<z3::expr>* keepAlive = new std::vector<z3::expr>();
static std::map<unsigned, std::pair<z3::expr*, z3::expr*>> trigOf;   // argument ast id -> (sin, cos)
// mode 3: nonlinear operations are free (shared by canonical operands), only their ranges are kept
static std::map<std::pair<int, std::pair<unsigned, unsigned>>, z3::expr*> relKey;
static z3::expr relaxedOf(int op, const z3::expr& p0, const z3::expr& q0) {
  z3::expr p = p0.simplify(), q = q0.simplify();
  auto key = std::make_pair(op, std::make_pair((unsigned)Z3_get_ast_id(Z(), p), (unsigned)Z3_get_ast_id(Z(), q)));
  auto it = relKey.find(key);
  if (it == relKey.end()) { keepAlive->push_back(p); keepAlive->push_back(q); it = relKey.emplace(key, new z3::expr(Z().real_const(("w" + std::to_string(relKey.size())).c_str()))).first; }
  return *it->second;
}
static void divAxioms(std::vector<z3::expr>& sd, const z3::expr& q, const z3::expr& x, const z3::expr& y) {
  auto one = Z().real_val(1);
  sd.push_back(z3::implies(y > 0 && x >= 0, q >= 0)); sd.push_back(z3::implies(y > 0 && x <= 0, q <= 0)); sd.push_back(z3::implies(y > 0 && x <= y, q <= one)); sd.push_back(z3::implies(y > 0 && x >= y, q >= one));
  sd.push_back(z3::implies(y > 0 && x >= -y, q >= -one)); sd.push_back(z3::implies(y > 0 && x <= -y, q <= -one));
  sd.push_back(z3::implies(y < 0 && x >= 0, q <= 0)); sd.push_back(z3::implies(y < 0 && x <= 0, q >= 0)); sd.push_back(z3::implies(y < 0 && x >= y, q <= one)); sd.push_back(z3::implies(y < 0 && x <= y, q >= one));
}
static void encCompact(Expr* e);
static void encCompact(Expr* e) {
  auto& memo = cinfoM[arMode];
  if (memo.count(e)) return;
  auto& c = Z(); Expr *a = e->a, *b = e->b;
  double u = e->w == 32 ? ldexp(1, -24) : ldexp(1, -53), eta = e->w == 32 ? ldexp(1, -149) : ldexp(1, -400);
  const double K = 1 + 1e-9;
  CInfo* ci = nullptr; bool sg = true;
  auto set = [&](const z3::expr& R, double rel, double ab) { ci = new CInfo(R); ci->rel = rel; ci->abs = ab; ci->sg = sg || (ab == 0 && rel < 1); };
  auto opaque = [&](const char* pre) { z3::expr r = c.real_const((pre + std::to_string(e->id)).c_str()); if (!std::isinf(e->flo)) arSide[e].push_back(r >= ratOf(e->flo)); if (!std::isinf(e->fhi)) arSide[e].push_back(r <= ratOf(e->fhi)); set(r, 0, 0); };
  auto rounded = [&](const z3::expr& R, double rel, double ab, bool uf) {  // result of one rounding of a value within rel,ab of R
    if (e->gran != GRAN_NONE || gSolverOpts.reals) { set(R, rel, ab); return; }
    set(R, (rel + u + u * rel) * K, (ab * (1 + u) + (uf ? eta : 0)) * K);
  };
  auto oldOp = [&](const z3::expr& ex) {  // operation on materialised operands with its own rounding variable
    set(roundErr(e, ex), 0, 0);
  };
  auto relaxed = [&](const z3::expr& r, double rel, double ab, bool uf) {  // r: shared free variable standing for the real result
    rounded(r, rel, ab, uf); auto& sd = arSide[e];
    double er = (ci->abs + ci->rel * std::max(fabs(e->flo), fabs(e->fhi)) * 1.1) * (1 + 1e-9);
    if (!std::isinf(e->flo) && std::isfinite(er)) sd.push_back(r >= ratOf(e->flo == 0 && ab == 0 ? 0 : e->flo - er));
    if (!std::isinf(e->fhi) && std::isfinite(er)) sd.push_back(r <= ratOf(e->fhi == 0 && ab == 0 ? 0 : e->fhi + er));
  };
  switch (e->op) {
    case O_CONST: set(ratOf(bToD(e->k, e->w)), 0, 0); break;
    case O_VAR: { z3::expr r = c.real_const(("x" + std::to_string(e->k)).c_str()); arSide[e].push_back(r >= ratOf(e->flo)); arSide[e].push_back(r <= ratOf(e->fhi)); set(r, 0, 0); break; }
    case O_FADD: case O_FSUB: {
      CInfo &x = CI(a), &y = CI(b); bool sub = e->op == O_FSUB;
      bool same = (a->flo >= 0 && (sub ? b->fhi <= 0 : b->flo >= 0)) || (a->fhi <= 0 && (sub ? b->flo >= 0 : b->fhi <= 0));
      z3::expr R = sub ? x.R - y.R : x.R + y.R;
      sg = (x.rel == 0 && y.rel == 0 && x.abs == 0 && y.abs == 0) || (same && x.sg && y.sg) || (arMode == 2 && (x.rel > 0 || y.rel > 0));
      if (x.rel == 0 && y.rel == 0) rounded(R, 0, x.abs + y.abs, false);
      else if (same) { double rl = std::max(x.rel, y.rel); rounded(R, rl, (x.abs + y.abs) * (1 + 2.1 * rl), false); }
      else if (arMode == 2 || std::isinf(magR(a)) || std::isinf(magR(b))) { z3::expr Va = Vof(a), Vb = Vof(b); rounded(sub ? Va - Vb : Va + Vb, 0, 0, false); }
      else rounded(R, 0, x.rel * magR(a) + x.abs + y.rel * magR(b) + y.abs, false);
      break; }
    case O_FMUL: {
      CInfo &x = CI(a), &y = CI(b);
      if (arMode == 3 && a->op != O_CONST && b->op != O_CONST && !x.R.is_numeral() && !y.R.is_numeral()) {
        if ((x.abs > 0 && std::isinf(magR(b))) || (y.abs > 0 && std::isinf(magR(a)))) { opaque("m"); break; }
        sg = x.sg && y.sg;
        double ab = 0; if (x.abs > 0) ab += x.abs * magR(b) * (1 + y.rel); if (y.abs > 0) ab += y.abs * magR(a) * (1 + x.rel); ab += x.abs * y.abs;
        relaxed(relaxedOf(O_FMUL, x.R * y.R, c.real_val(0)), x.rel + y.rel + x.rel * y.rel, ab, true); break;
      }
      if ((x.abs > 0 && std::isinf(magR(b))) || (y.abs > 0 && std::isinf(magR(a)))) { rounded(Vof(a) * Vof(b), 0, 0, true); break; }
      sg = x.sg && y.sg;
      double ab = 0; if (x.abs > 0) ab += x.abs * magR(b) * (1 + y.rel); if (y.abs > 0) ab += y.abs * magR(a) * (1 + x.rel); ab += x.abs * y.abs;
      rounded(x.R * y.R, x.rel + y.rel + x.rel * y.rel, ab, !(a->op == O_CONST && fabs(bToD(a->k, a->w)) >= 1) && !(b->op == O_CONST && fabs(bToD(b->k, b->w)) >= 1));
      break; }
    case O_FDIV: {
      CInfo &x = CI(a), &y = CI(b);
      sg = x.sg && y.sg;
      if (b->op == O_CONST) { rounded(x.R / y.R, x.rel, x.abs / fabs(bToD(b->k, b->w)), true); break; }
      if (arMode == 3 && !y.R.is_numeral()) { double mbL = (b->flo > 0) ? b->flo : (b->fhi < 0 ? -b->fhi : 0), rb = y.rel; if (y.abs > 0) rb = mbL > 0 ? y.rel + y.abs / mbL * 1.1 : 1;
        if (rb < 0.1 && (x.abs == 0 || mbL > 0)) { z3::expr q = relaxedOf(O_FDIV, x.R, y.R); divAxioms(arSide[e], q, x.R, y.R); sg = x.sg && y.sg; relaxed(q, (x.rel + rb) / (1 - rb), x.abs > 0 ? x.abs / mbL * 1.1 / (1 - rb) : 0, true); }
        else { z3::expr Va = Vof(a), Vb = Vof(b), q = relaxedOf(O_FDIV, Va, Vb); divAxioms(arSide[e], q, Va, Vb); relaxed(q, 0, 0, true); }
        break; }
      double mb = (b->flo > 0) ? b->flo : (b->fhi < 0 ? -b->fhi : 0);
      z3::expr q = c.real_const(("q" + std::to_string(e->id)).c_str());
      double mbR = mb > 0 ? (mb - y.abs) / (1 + y.rel) : 0;
      double rb = y.rel; if (y.abs > 0) rb = mbR > 0 ? rb + y.abs / mbR : 1;
      if (rb < 0.1 && (x.abs == 0 || mbR > 0)) {
        arSide[e].push_back(q * y.R == x.R); arSide[e].push_back(y.R != 0); divAxioms(arSide[e], q, x.R, y.R);
        rounded(q, (x.rel + rb) / (1 - rb), x.abs > 0 ? x.abs / mbR / (1 - rb) : 0, true);
      } else { z3::expr Va = Vof(a), Vb = Vof(b); arSide[e].push_back(q * Vb == Va); arSide[e].push_back(Vb != 0); divAxioms(arSide[e], q, Va, Vb); rounded(q, 0, 0, true); }
      break; }
    case O_FSQRT: {
      if (arMode == 3) { CInfo& x = CI(a); if (x.abs == 0) relaxed(relaxedOf(O_FSQRT, x.R, x.R), x.rel, 0, false); else opaque("m"); break; }
      CInfo& x = CI(a); z3::expr s = c.real_const(("s" + std::to_string(e->id)).c_str()); auto& sd = arSide[e];
      sd.push_back(s >= 0);
      if (x.abs == 0) { sd.push_back(s * s == x.R); rounded(s, x.rel, 0, false); }
      else { z3::expr R0 = z3::ite(x.R >= 0, x.R, c.real_val(0)); sd.push_back(s * s == R0); double lo = a->flo - x.abs - x.rel * magR(a); double ab = std::sqrt(x.abs); if (lo > 0) ab = std::min(ab, x.abs / std::sqrt(lo)); rounded(s, x.rel, ab, false); }
      break; }
    case O_FNEG: sg = CI(a).sg; set(-CI(a).R, CI(a).rel, CI(a).abs); break;
    case O_FABS: set(a->flo >= 0 && CI(a).abs == 0 ? CI(a).R : absZ(CI(a).R), CI(a).rel, CI(a).abs); break;
    case O_FMIN: case O_FMAX: { CInfo &x = CI(a), &y = CI(b); sg = x.sg && y.sg; set(e->op == O_FMIN ? z3::ite(x.R <= y.R, x.R, y.R) : z3::ite(x.R >= y.R, x.R, y.R), std::max(x.rel, y.rel), std::max(x.abs, y.abs)); break; }
    case O_FCOPYSIGN: { z3::expr m = absZ(A(a)); z3::expr sg = c.bool_const(("sg" + std::to_string(e->id)).c_str()); z3::expr vb = A(b); arSide[e].push_back((vb == 0) || (sg == (vb < 0))); set(z3::ite(sg, -m, m), 0, 0); break; }
    case O_ITE: { CInfo &x = CI(e->b), &y = CI(e->c); sg = x.sg && y.sg; set(z3::ite(A(a), x.R, y.R), std::max(x.rel, y.rel), std::max(x.abs, y.abs)); break; }
    case O_FFLOOR: set(toReal(toIntF(A(a))), 0, 0); break;
    case O_FCEIL: set(-toReal(toIntF(-A(a))), 0, 0); break;
    case O_FTRUNC: { z3::expr v = A(a); set(z3::ite(v >= 0, toReal(toIntF(v)), -toReal(toIntF(-v))), 0, 0); break; }
    case O_FROUND: { z3::expr h = c.real_val(1, 2), v = A(a); set(z3::ite(v >= 0, toReal(toIntF(v + h)), -toReal(toIntF(-v + h))), 0, 0); break; }
    case O_FRINT: { z3::expr k = c.int_const(("k" + std::to_string(e->id)).c_str()); z3::expr h = c.real_val(1, 2), v = A(a); set(toReal(k), 0, 0); arSide[e].push_back(toReal(k) - v <= h); arSide[e].push_back(v - toReal(k) <= h); break; }
    case O_FPEXT: sg = CI(a).sg; set(CI(a).R, CI(a).rel, CI(a).abs); break;
    case O_FPTRUNC: sg = CI(a).sg; rounded(CI(a).R, CI(a).rel, CI(a).abs, true); break;
    case O_SI2F: { z3::expr t = a->w == 1 ? z3::ite(A(a), ic(-1), ic(0)) : A(a); rounded(toReal(t), 0, 0, false); break; }
    case O_UI2F: rounded(toReal(uns(a)), 0, 0, false); break;
    case O_FREM: case O_LIBM: {
      if ((e->op == O_FREM || e->aux == LM_FMOD) && b->flo > 0 && b->op == O_CONST) { z3::expr va = A(a), vb = A(b), q = va / vb; set(z3::ite(va >= 0, va - vb * toReal(toIntF(q)), -(-va - vb * toReal(toIntF(-q)))), 0, 0); break; }
      if (e->op == O_FREM || e->aux == LM_FMOD) { opaque("m"); break; }
      double tol = e->w == 32 ? 4e-7 : 4e-15;
      CInfo& x = CI(a); int f = e->aux;
      bool lip = f == LM_SIN || f == LM_COS || f == LM_ATAN || f == LM_TANH || f == LM_ASIN || f == LM_ACOS;
      bool rel2 = f == LM_ATAN2 && x.abs == 0 && CI(b).abs == 0;
      if ((lip && std::isfinite(magR(a))) || rel2) {
        z3::expr ra = x.R.simplify(); z3::expr rb = b ? CI(b).R.simplify() : ra;
        auto key = std::make_pair(f, std::make_pair((unsigned)Z3_get_ast_id(c, ra), b ? (unsigned)Z3_get_ast_id(c, rb) : 0u));
        auto it = ufKey.find(key);
        if (it == ufKey.end()) { keepAlive->push_back(ra); keepAlive->push_back(rb); z3::expr m = c.real_const(("u" + std::to_string(ufKey.size())).c_str()); it = ufKey.emplace(key, new z3::expr(m)).first; }
        z3::expr m = *it->second; auto& sd = arSide[e];
        double pi2 = M_PI * (1 + 1e-9);
        if (f == LM_SIN || f == LM_COS) {
          sd.push_back(m >= -1); sd.push_back(m <= 1);
          auto& t = trigOf[key.second.first]; (f == LM_SIN ? t.first : t.second) = it->second;
          if (arMode != 3 && t.first && t.second) sd.push_back(*t.first * *t.first + *t.second * *t.second == 1);
        } else if (f == LM_TANH) { sd.push_back(m > -1); sd.push_back(m < 1); }
        else if (f == LM_ASIN) { sd.push_back(m >= ratOf(-pi2 / 2)); sd.push_back(m <= ratOf(pi2 / 2)); }
        else if (f == LM_ACOS) { sd.push_back(m >= 0); sd.push_back(m <= ratOf(pi2)); }
        else if (f == LM_ATAN) { sd.push_back(m > ratOf(-pi2 / 2)); sd.push_back(m < ratOf(pi2 / 2)); }
        else { sd.push_back(m >= ratOf(-pi2)); sd.push_back(m <= ratOf(pi2)); }
        libmAxioms(e, ra, rb, m, 0, sd);
        sg = rel2;
        if (rel2) set(m, 2 * (x.rel + CI(b).rel) + tol, eta); else if (f == LM_ASIN || f == LM_ACOS) set(m, 0, 2.2215 * std::sqrt(x.rel * magR(a) + x.abs) + tol);  // Hoelder 1/2
        else set(m, 0, x.rel * magR(a) + x.abs + tol);
        ci->la = new z3::expr(ra); ci->lb = new z3::expr(rb);
      } else { opaque("m"); z3::expr va = A(a), vb = b ? A(b) : va; libmAxioms(e, va, vb, ci->R, tol, arSide[e]); ci->la = new z3::expr(va); ci->lb = new z3::expr(vb); }
      break; }
    default: opaque("m"); break;
  }
  (void)oldOp;
  memo[e] = ci;
}
// ------------------------------------------------------------------ queries
bool satisfies(const std::vector<Expr*>& pc, Expr* q, const Assign& as) {
  uint32_t ep = newEpoch();
  if (q && !evalExpr(q, as, ep)) return false;
  for (Expr* e : pc) if (!evalExpr(e, as, ep)) return false;
  return true;
}
static std::vector<Expr*> slice(const std::vector<Expr*>& pc, Expr* q) {
  std::vector<Expr*> out; if (!q->vars) return out;
  std::unordered_set<uint32_t> vs(q->vars->begin(), q->vars->end());
  std::vector<char> in(pc.size(), 0);
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < pc.size(); i++) if (!in[i] && pc[i]->vars) {
      bool hit = false; for (uint32_t v : *pc[i]->vars) if (vs.count(v)) { hit = true; break; }
      if (hit) { in[i] = 1; ch = true; vs.insert(pc[i]->vars->begin(), pc[i]->vars->end()); }
    }
  }
  for (size_t i = 0; i < pc.size(); i++) if (in[i]) out.push_back(pc[i]);
  return out;
}
static std::deque<Assign> recentModels;
static bool boundsOk(const std::set<uint32_t>& vars, const Assign& m) {
  for (uint32_t v : vars) {
    VarInfo& vi = gVars[v]; uint64_t x = v < m.size() ? m[v] : 0;
    if (vi.fp) { if (vi.wild) continue; double d = bToD(x, vi.w); if (!(d >= vi.flo && d <= vi.fhi)) return false; if (vi.gran != GRAN_NONE) { double s = ldexp(d, -vi.gran); if (s != trunc(s)) return false; } }
    else if (vi.w > 1) { int64_t k = sxt(x, vi.w); if (k < vi.ilo || k > vi.ihi) return false; }
  }
  return true;
}
struct CacheEnt { SolveR r; Assign m; };
static std::map<std::vector<uint32_t>, CacheEnt> qcache;

static void varBoundsExact(z3::solver& s, const std::set<uint32_t>& vars) {
  auto& c = Z();
  for (uint32_t v : vars) {
    VarInfo& vi = gVars[v];
    z3::expr x = X(vi.e);
    if (vi.fp) {
      if (!vi.wild) {
        auto fc = [&](double d) { return vi.w == 32 ? wrapE(Z3_mk_fpa_numeral_float(c, (float)d, fsort(32))) : wrapE(Z3_mk_fpa_numeral_double(c, d, fsort(64))); };
        s.add(wrapE(Z3_mk_fpa_geq(c, x, fc(vi.flo)))); s.add(wrapE(Z3_mk_fpa_leq(c, x, fc(vi.fhi))));
        if (vi.gran != GRAN_NONE) { // multiple of 2^gran
          z3::expr sc = wrapE(Z3_mk_fpa_mul(c, rm("rne"), x, fc(ldexp(1.0, -vi.gran))));
          s.add(wrapE(Z3_mk_fpa_eq(c, wrapE(Z3_mk_fpa_round_to_integral(c, rm("rtz"), sc)), sc)));
        }
      }
    } else if (vi.w > 1) {
      int64_t mn = vi.w >= 64 ? INT64_MIN : -((int64_t)1 << (vi.w - 1)), mx = vi.w >= 64 ? INT64_MAX : ((int64_t)1 << (vi.w - 1)) - 1;
      if (vi.ilo > mn) s.add(z3::sge(x, bvc((uint64_t)vi.ilo, vi.w)));
      if (vi.ihi < mx) s.add(z3::sle(x, bvc((uint64_t)vi.ihi, vi.w)));
    }
  }
}
static SolveR runZ3(z3::solver& s, unsigned ms) {
  z3::params p(Z()); p.set("timeout", ms); s.set(p);
  double t0 = now();
  z3::check_result r = z3::unknown;
  try { r = s.check(); } catch (z3::exception& ex) { if (gSolverOpts.verbose) std::cerr << "z3: " << ex.msg() << "\n"; }
  double dt = now() - t0;
  gStats.z3calls++; gStats.z3time += dt; gStats.maxq = std::max(gStats.maxq, dt);
  if (gSolverOpts.verbose > 1 && dt > 0.5) std::cerr << "[z3 " << dt << "s -> " << r << "]\n";
  return r == z3::unsat ? S_UNSAT : r == z3::sat ? S_SAT : S_UNKNOWN;
}
static SolveR exactQuery(const std::vector<Expr*>& cs, const std::vector<Expr*>& po, const std::set<uint32_t>& vars, bool hasFp, Assign& m, unsigned ms) {
  gStats.exactCalls++;
  auto& c = Z();
  for (Expr* e : po) encExact(e);
  z3::solver s = hasFp ? z3::tactic(c, "qffpbv").mk_solver() : z3::tactic(c, "qfbv").mk_solver();
  varBoundsExact(s, vars);
  for (Expr* e : po) { auto it = exSide.find(e); if (it != exSide.end()) for (auto& x : it->second) s.add(x); }
  for (Expr* e : cs) s.add(X(e));
  SolveR r = runZ3(s, ms);
  if (r == S_SAT) {
    z3::model mo = s.get_model();
    for (uint32_t v : vars) {
      VarInfo& vi = gVars[v];
      std::string n = "v" + std::to_string(v);
      uint64_t val = 0;
      if (vi.w == 1 && !vi.fp) { z3::expr x = mo.eval(c.bool_const(n.c_str()), true); val = x.is_true(); }
      else { z3::expr x = mo.eval(c.bv_const(n.c_str(), vi.w), true); uint64_t u = 0; x.is_numeral_u64(u); val = u; }
      if (m.size() <= v) m.resize(v + 1, 0);
      m[v] = val;
    }
  }
  return r;
}
static bool gridInts = false;
static double numeralToDouble(z3::expr x) {
  if (x.is_algebraic()) x = x.algebraic_lower(40);
  std::string s = x.get_decimal_string(40);
  if (!s.empty() && s.back() == '?') s.pop_back();
  return strtod(s.c_str(), nullptr);
}
static uint64_t snapVar(const VarInfo& vi, double d, int ulp) {
  if (vi.gran != GRAN_NONE) { double st = ldexp(1.0, vi.gran); d = nearbyint(d / st) * st; }
  d = std::min(std::max(d, vi.flo), vi.fhi);
  if (vi.w == 32) { float f = (float)d; if (vi.gran == GRAN_NONE) { for (int i = 0; i < abs(ulp); i++) f = nextafterf(f, ulp > 0 ? INFINITY : -INFINITY); if (f < vi.flo) f = (float)vi.flo; if (f > vi.fhi) f = (float)vi.fhi; } return f2b(f); }
  if (vi.gran == GRAN_NONE) for (int i = 0; i < abs(ulp); i++) d = nextafter(d, ulp > 0 ? INFINITY : -INFINITY);
  return d2b(d);
}
static double libmRef(int f, double x) { return f == LM_ASIN ? asin(x) : f == LM_ACOS ? acos(x) : f == LM_EXP ? exp(x) : log(x); }
// Lipschitz refinement of libm applications at the model point
static double lipOf(int f, bool& ok) { ok = true; switch (f) { case LM_SIN: case LM_COS: case LM_ATAN: case LM_TANH: return 1.0; default: ok = false; return 0; } }
static SolveR arithQuery(const std::vector<Expr*>& cs, const std::vector<Expr*>& po, const std::set<uint32_t>& vars, Assign& m, unsigned ms, bool tryConfirm, bool& confirmed, bool linear = false) {
  gStats.arithCalls++;
  auto& c = Z();
  confirmed = false;
  bool nl = false;
  for (Expr* e : po) { encArith(e); if (!linear && nonlinearFlag(e)) nl = true; }
  z3::solver s = nl ? z3::solver(c) : z3::solver(c);
  for (Expr* e : po) { auto it = arSide.find(e); if (it != arSide.end()) for (auto& x : it->second) s.add(x); }
  if (gridInts) for (uint32_t v : vars) { VarInfo& vi = gVars[v]; if (vi.fp && vi.gran != GRAN_NONE) { z3::expr k = c.int_const(("g" + std::to_string(v)).c_str()); s.add(A(vi.e) == toReal(k) * ratOf(ldexp(1.0, vi.gran))); } }
  for (Expr* e : cs) s.add(A(e));
  double t0 = now();
  int maxRef = tryConfirm ? 40 : 0;
  std::vector<Expr*> libms; for (Expr* e : po) if (e->op == O_LIBM && e->aux != LM_FMOD) libms.push_back(e);
  for (int it = 0;; it++) {
    unsigned left = (unsigned)std::max(200.0, ms - (now() - t0) * 1000);
    bool nlFirst = gSolverOpts.reals && nl && it == 0;
    SolveR r = nlFirst ? S_UNKNOWN : runZ3(s, left);
    if (r == S_UNKNOWN && nl && it == 0) {
      z3::solver s2 = z3::tactic(c, "qfnra-nlsat").mk_solver();
      for (auto x : s.assertions()) s2.add(x);
      bool hasInt = false; (void)hasInt;
      r = runZ3(s2, nlFirst ? left / 4 : left);
      if (nlFirst && r == S_UNKNOWN) { r = runZ3(s, left); if (r != S_SAT) return r; s2 = s; }
      if (r == S_UNSAT) return r;
      if (r != S_SAT) return r;
      s = s2;
    }
    if (r != S_SAT) return r;
    z3::model mo = s.get_model();
    std::map<uint32_t, double> vals;
    Assign base = m;
    for (uint32_t v : vars) {
      VarInfo& vi = gVars[v];
      if (base.size() <= v) base.resize(v + 1, 0);
      if (vi.fp) { double d = numeralToDouble(mo.eval(A(vi.e), true)); vals[v] = d; base[v] = snapVar(vi, d, 0); }
      else if (vi.w == 1) base[v] = mo.eval(A(vi.e), true).is_true();
      else { int64_t k = 0; mo.eval(A(vi.e), true).is_numeral_i64(k); base[v] = (uint64_t)k & maskw(vi.w); }
    }
    if (satisfies(cs, nullptr, base)) { m = base; confirmed = true; return S_SAT; }
    if (tryConfirm) {
      // neighbours of the model point
      std::vector<uint32_t> fv; for (auto& kv : vals) fv.push_back(kv.first);
      uint64_t rng = 88172645463325252ull;
      for (int k = 0; k < 60; k++) {
        Assign t = base;
        for (uint32_t v : fv) { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; int d = (int)(rng % 5) - 2; if (gVars[v].gran == GRAN_NONE) t[v] = snapVar(gVars[v], vals[v], d); else { double st = ldexp(1.0, gVars[v].gran); t[v] = snapVar(gVars[v], vals[v] + d * st / 2, 0); } }
        if (satisfies(cs, nullptr, t)) { m = t; confirmed = true; return S_SAT; }
      }
    }
    if (it >= maxRef || (now() - t0) * 1000 > ms) { m = base; return S_SAT; }
    // refine
    bool refined = false;
    uint32_t ep = newEpoch();
    (void)ep;
    for (Expr* e : libms) {
      bool ok; double L = lipOf(e->aux, ok);
      CInfo* ce = arMode ? &CI(e) : nullptr;
      z3::expr xA = ce && ce->la ? *ce->la : A(e->a), xB = e->b ? (ce && ce->lb ? *ce->lb : A(e->b)) : xA, xE = ce ? ce->R : A(e);
      double a0 = numeralToDouble(mo.eval(xA, true)), rv = numeralToDouble(mo.eval(xE, true));
      double tol = e->w == 32 ? 4e-7 : 4e-15;
      if (ok) {
        double tv = e->w == 32 ? (double)b2f(evalOp(O_LIBM, 32, true, e->aux, 32, f2b((float)a0), 0, 0)) : b2d(evalOp(O_LIBM, 64, true, e->aux, 64, d2b(a0), 0, 0));
        double a0r = e->w == 32 ? (double)(float)a0 : a0;
        if (fabs(tv - rv) > 2 * tol) {
          z3::expr d = xA - ratOf(a0r); z3::expr ad = z3::ite(d >= 0, d, -d);
          z3::expr diff = xE - ratOf(tv);
          std::vector<z3::expr> ax;
          ax.push_back(diff <= ad * ratOf(L) + ratOf(tol)); ax.push_back(diff >= -(ad * ratOf(L)) - ratOf(tol));
          if (e->aux == LM_SIN || e->aux == LM_COS) { // second-order: |f(x)-f(a)-f'(a)(x-a)| <= (x-a)^2/2 ; use on |x-a|<=0.25 with piecewise |x-a|*0.125
            double fd = e->aux == LM_SIN ? cos(a0r) : -sin(a0r);
            for (double h : {0.25, 0.03, 0.004}) {
              z3::expr lin = diff - d * ratOf(fd);
              ax.push_back(z3::implies(ad <= ratOf(h), lin <= ad * ratOf(h / 2) + ratOf(tol) && lin >= -(ad * ratOf(h / 2)) - ratOf(tol)));
            }
          }
          for (auto& x : ax) { arSide[e].push_back(x); s.add(x); }
          refined = true;
        }
      } else if (e->aux == LM_ASIN || e->aux == LM_ACOS || e->aux == LM_EXP || e->aux == LM_LOG) { // monotone
        double tv = libmRef(e->aux, a0), tl = e->w == 32 ? 4e-7 * std::max(1.0, fabs(tv)) : 4e-15 * std::max(1.0, fabs(tv)); bool dec = e->aux == LM_ACOS;
        if (std::isfinite(tv) && fabs(tv - rv) > 2 * tl) {
          z3::expr ge = dec ? xE <= ratOf(tv + tl) : xE >= ratOf(tv - tl), le = dec ? xE >= ratOf(tv - tl) : xE <= ratOf(tv + tl);
          z3::expr x1 = z3::implies(xA >= ratOf(a0), ge), x2 = z3::implies(xA <= ratOf(a0), le);
          for (auto& x : {x1, x2}) { arSide[e].push_back(x); s.add(x); }
          refined = true;
        }
      } else if (e->aux == LM_ATAN2) {
        double b0 = numeralToDouble(mo.eval(xB, true));
        double tv = atan2(a0, b0);
        if (fabs(tv - rv) > 1e-6 && (a0 != 0 || b0 != 0)) {
          // rotate into the model direction: with c=cos t0, s=sin t0: u = c*b + s*a, v = c*a - s*b ; theta - t0 = atan2(v,u) -> for u>0: |theta - t0| <= |v|/u, sign as v
          double cc = cos(tv), ss = sin(tv);
          z3::expr u = ratOf(cc) * xB + ratOf(ss) * xA, v = ratOf(cc) * xA - ratOf(ss) * xB;
          z3::expr dth = xE - ratOf(tv);
          double ht = M_PI * 1.000001;
          std::vector<z3::expr> ax;
          for (double h : {1.0, 0.1, 0.01, 0.001, 1e-5, 1e-7}) { // |v| <= h*u  -> |theta-t0| (mod 2pi) <= h
            double lim = atan(h) + 1e-6;
            z3::expr close = (u > 0) && v <= ratOf(h) * u && -v <= ratOf(h) * u;
            z3::expr nearr = dth <= ratOf(lim) && dth >= ratOf(-lim);
            if (fabs(tv) + lim > M_PI) nearr = nearr || dth >= ratOf(2 * M_PI - lim - 1e-6) || dth <= ratOf(-2 * M_PI + lim + 1e-6);
            ax.push_back(z3::implies(close, nearr));
            (void)ht;
          }
          for (auto& x : ax) { arSide[e].push_back(x); s.add(x); }
          refined = true;
        }
      }
    }
    gStats.refinements++;
    if (!refined) { m = base; return S_SAT; }
  }
}

SolveR solve(const std::vector<Expr*>& pc0, Expr* q, Assign& model, bool isAssert) {
  gStats.queries++;
  if (isFalse(q)) { gStats.unsat++; return S_UNSAT; }
  if (isTrue(q)) { return S_SAT; }
  std::vector<Expr*> cs = slice(pc0, q);
  cs.push_back(q);
  std::vector<uint32_t> key; for (Expr* e : cs) key.push_back(e->id);
  std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
  std::set<uint32_t> vars; for (Expr* e : cs) if (e->vars) vars.insert(e->vars->begin(), e->vars->end());
  auto install = [&](const Assign& m) { for (uint32_t v : vars) { if (model.size() <= v) model.resize(v + 1, 0); model[v] = v < m.size() ? m[v] : 0; } };
  auto ci = qcache.find(key);
  if (ci != qcache.end() && !(isAssert && (ci->second.r == S_MAYBE || ci->second.r == S_UNKNOWN))) {
    gStats.cacheHits++; if (ci->second.r == S_SAT) install(ci->second.m);
    return ci->second.r;
  }
  if (boundsOk(vars, model) && satisfies(cs, nullptr, model)) { gStats.modelHits++; return S_SAT; }
  for (auto& m : recentModels) if (boundsOk(vars, m) && satisfies(cs, nullptr, m)) { gStats.modelHits++; install(m); return S_SAT; }
  std::vector<Expr*> po; postorder(cs, po);
  bool hasFp = false, aok = true, libm = false; unsigned cost = 0;
  for (Expr* e : po) { if (e->fp || e->op == O_FEQ) hasFp = true; if (e->op == O_LIBM || e->op == O_FREM) libm = true;
    if (e->op == O_FADD || e->op == O_FSUB) cost += e->w == 32 ? 1 : 2; if (e->op == O_FMUL) cost += e->w == 32 ? 5 : 20; if (e->op == O_FDIV || e->op == O_FSQRT) cost += e->w == 32 ? 12 : 60; if (e->op==O_FFLOOR||e->op==O_FROUND||e->op==O_FCEIL||e->op==O_F2SI||e->op==O_SI2F||e->op==O_FPEXT||e->op==O_FPTRUNC) cost += 2; }
  for (Expr* e : cs) if (!arOk(e)) { aok = false; break; }
  unsigned ms = isAssert ? gSolverOpts.assertMs : gSolverOpts.branchMs;
  SolveR res = S_UNKNOWN; Assign m = model;
  auto confirm = [&]() { return satisfies(cs, nullptr, m); };
  bool exactFirst = !hasFp || (!aok && !gSolverOpts.reals) || gSolverOpts.forceExact || (!gSolverOpts.forceArith && !libm && cost <= 14);
  bool maybe = false;
  auto doExact = [&](unsigned t) {
    Assign k = m; SolveR r = exactQuery(cs, po, vars, hasFp, m, t);
    if (r == S_SAT && !confirm()) { if (!libm && gSolverOpts.verbose) std::cerr << "warning: exact model not confirmed by evaluator\n"; m = k; maybe = true; r = S_MAYBE; }
    return r;
  };
  bool nlq = false; for (Expr* e : po) if (nonlinearFlag(e)) nlq = true;
  auto doArith = [&](unsigned t) {
    bool conf = false; Assign k = m;
    gridInts = false;
    if (nlq || libm) { // linear relaxation first
      arMode = 3; SolveR r = arithQuery(cs, po, vars, m, isAssert ? (gSolverOpts.reals ? std::min(t / 5, 1500u) : t / 5) : 400u, false, conf, true); arMode = 0;
      if (r == S_UNSAT) return S_UNSAT;
      if (r == S_SAT && conf) return S_SAT;
      m = k; conf = false;
    }
    if (!gSolverOpts.reals && (nlq || libm || isAssert)) for (int md = 1; md <= (nlq || libm ? 2 : 1); md++) {
      arMode = md; SolveR r = arithQuery(cs, po, vars, m, isAssert ? t / 4 : std::min(t, libm ? 500u : 1500u), isAssert, conf); arMode = 0;
      if (r == S_UNSAT) return S_UNSAT;
      if (r == S_SAT && conf) return S_SAT;
      m = k; if (!isAssert) break;
    }
    SolveR r = S_UNKNOWN;
    if (gSolverOpts.reals && (nlq || libm)) { arMode = 1; r = arithQuery(cs, po, vars, m, !isAssert && libm ? std::min(t, 500u) : t, isAssert, conf); arMode = 0; }
    else r = arithQuery(cs, po, vars, m, !isAssert && libm ? std::min(t, 500u) : t, isAssert, conf);
    if (r == S_SAT && !conf && isAssert) { bool anyGrid = false; for (uint32_t v : vars) anyGrid |= gVars[v].fp && gVars[v].gran != GRAN_NONE; if (anyGrid) { gridInts = true; Assign k2 = k; SolveR r2 = arithQuery(cs, po, vars, k2, t, true, conf); gridInts = false; if (r2 == S_UNSAT) return S_UNSAT; if (r2 == S_SAT && conf) { m = k2; return S_SAT; } } }
    if (r == S_SAT && !conf) { m = k; maybe = true; r = S_MAYBE; }
    return r;
  };
  if (exactFirst && hasFp && aok && isAssert && cost > 3 && !gSolverOpts.forceExact) {
    bool conf = false; Assign k = m;
    for (int md : {3, 1}) if (res == S_UNKNOWN) { arMode = md; SolveR r = arithQuery(cs, po, vars, m, 400, false, conf, md == 3); arMode = 0; if (r == S_UNSAT) res = r; else m = k; if (md == 3 && !nlq && !libm) break; }
  }
  if (res == S_UNSAT) {}
  else if (exactFirst) {
    res = doExact(!hasFp ? ms : (aok ? std::min(ms, 8000u) : ms));
    if ((res == S_UNKNOWN || res == S_MAYBE) && aok && hasFp) res = doArith(ms);
  } else {
    res = doArith(ms);
    if ((res == S_MAYBE || res == S_UNKNOWN) && isAssert && !libm && cost < 2000) { SolveR r2 = doExact(ms); if (r2 == S_UNSAT || r2 == S_SAT) res = r2; }
    else if (res == S_MAYBE && !isAssert && !libm && cost <= 60) { SolveR r2 = doExact(1500); if (r2 == S_UNSAT || r2 == S_SAT) res = r2; }
  }
  if (res == S_UNKNOWN && maybe) res = S_MAYBE;
  if (gSolverOpts.verbose > 2) fprintf(stderr, "[query %s -> %d, %zu conjuncts]\n", isAssert ? "assert" : "branch", (int)res, cs.size());
  switch (res) { case S_UNSAT: gStats.unsat++; break; case S_SAT: gStats.sat++; break; case S_MAYBE: gStats.maybe++; break; default: gStats.unknown++; }
  if (res == S_SAT) { install(m); recentModels.push_front(model); if (recentModels.size() > 24) recentModels.pop_back(); }
  qcache[key] = {res, res == S_SAT ? m : Assign()};
  return res;
}
