// The quadratic chain with arbitrary (symbolic) coefficients: the code's many-body blocks (Chain) and the single-particle reference (Ref).
#pragma once
#include "core.h"
using namespace core;
struct Ref { // spin orbitals o = (site*nch+ch)*ns+s; T hermitian, D antisymmetric: H = sum T (c+c - 1/2) + (1/2 sum D c+c+ + h.c.)
  int M; std::vector<double> B; Ref(int m) : M(m), B(4 * m * m, 0.0) {}
  double &b(int i, int j) { return B[i * 2 * M + j]; }
  void T(int i, int j, double x) { b(i, j) += x; b(M + i, M + j) -= x; if (i != j) { b(j, i) += x; b(M + j, M + i) -= x; } }
  void D(int i, int j, double x) { b(i, M + j) += x; b(j, M + i) -= x; b(M + j, i) += x; b(M + i, j) -= x; }
  typedef std::vector<std::vector<std::pair<int, double>>> Sp;
  Sp sp() { Sp r(2 * M); for (int i = 0; i < 2 * M; i++) for (int j = 0; j < 2 * M; j++) if (!sym_const_zero(b(i, j))) r[i].push_back({j, b(i, j)}); return r; }
  std::vector<double> sq; // B^2, dense
  void fin() { auto s = sp(); sq.assign(4 * M * M, 0.0); for (int i = 0; i < 2 * M; i++) for (auto &[k, x] : s[i]) for (auto &[j, y] : s[k]) sq[i * 2 * M + j] += x * y; }
  double t2() { double t = 0; for (int i = 0; i < 2 * M; i++) t += sq[i * 2 * M + i]; return t / 2; }        // sum over modes of eps^2
  double t4() { double t = 0; for (auto x : sq) if (!sym_const_zero(x)) t += x * x; return t / 2; }
  double k2() { return t2() / 4; } double k4() { return -t4() / 8; }
  double m4() { return k4() + 3 * k2() * k2(); }
  double bn(int i, int j, int n) { std::vector<double> v(2 * M, 0.0); v[j] = 1; auto s = sp(); for (; n > 0; n--) { std::vector<double> w(2 * M, 0.0); for (int a = 0; a < 2 * M; a++) for (auto &[k, x] : s[a]) if (!sym_const_zero(v[k])) w[a] += x * v[k]; v = w; } return v[i]; } // (B^n)_ij
  // <V^2 H^2> for V = sum_i v_i (n_i - 1/2) commuting with H; <V H>
  double vv(const std::vector<double> &v) { double a = 0, b2 = 0, c = 0; for (int i = 0; i < M; i++) { a += b(i, i) * v[i]; b2 += v[i] * v[i]; c += (sq[i * 2 * M + i] + sq[(M + i) * 2 * M + M + i]) / 2 * v[i] * v[i]; }
    return (-1.5 * c + 6 * (k2() * b2 / 2 + a * a / 4)) / 12; }
  double vh(const std::vector<double> &v) { double a = 0; for (int i = 0; i < M; i++) a += b(i, i) * v[i]; return a / 4; }
};
#define STR2(x) #x
#define STR(x) STR2(x)
struct Model {
  Chain c; const int nch = sym_param("ch", 1), nsite = sym_param("sites", 2), ns = sym_param("ns", 2), kz = sym_param("zeta", 1), kx = sym_param("xi", 1), pol = sym_param("pol", 0), kd = sym_param("delta", 0), kk = sym_param("kappa", 0), rung = sym_param("rungs", 0), rot = sym_param("rot", 0), conc = sym_param("conc", 0);
  std::vector<int> vac; Ref R; int cnt = 0;
  int o(int site, int ch, int s) const { return ((site - 1) * nch + ch) * ns + s; }
  int shells() const { return nsite * (c.P.substeps ? nch : 1); }
  double val(const std::string &n) { static const double cv[] = {0.7, -0.4, 0.3, 1.1, -0.9, 0.6, 0.8, -0.2, 0.5, 0.35}; cnt++; if (conc == 1000) return 1; return conc && cnt % conc ? cv[cnt % 10] : sym::D(n, -2, 2); }
  Model() : R(sym_param("sites", 2) * sym_param("ch", 1) * sym_param("ns", 2)) {
    if (pol) c.P.polarized = true; if (pol == 2) c.P.pol2x2 = true; if (rung) c.P.rungs = true; if (sym_param("sub", 0)) c.P.substeps = true; if (sym_param("abs", 1)) c.P.absolute = true;
    for (int i = 0; i < sym_param("nq", 2); i++) vac.push_back(sym_param(("v" + std::to_string(i)).c_str(), 0));
    c.start(STR(SYNAME), nch, [](const Params &P) -> std::unique_ptr<Symmetry<S_>> { return std::make_unique<SYCLASS<S_>>(P); }, vac);
    for (int n = 1; n <= nsite; n++) for (int ch = 0; ch < nch; ch++) { // on-site terms
      static double z0, d0; bool first = ch == 0;
      if (kz) for (int s = 0; s < (pol ? 2 : 1); s++) { double z = kz == 2 && !first ? z0 : val(sym::idx("zeta", n, ch + nch * s)); z0 = z; c.coef->zeta.set(n, ch + nch * s, z); for (int t = 0; t < ns; t++) if (!pol || t == s) R.T(o(n, ch, t), o(n, ch, t), z); }
      if (kd) { double d = kd == 2 && !first ? d0 : val(sym::idx("delta", n, ch)); d0 = d; c.coef->delta.set(n, ch, d); R.D(o(n, ch, 0), o(n, ch, 1), d); }
      if (pol == 2) { double z = val(sym::idx("zeta", n, ch + 3 * nch)); c.coef->zeta.set(n, ch + 3 * nch, z); R.T(o(n, ch, 0), o(n, ch, 1), z); }
    }
    if (rung) for (int n = 1; n <= nsite; n++) { double z = val(sym::idx("zetaR", n)); c.coef->zetaR.set(n, 0, z); for (int t = 0; t < ns; t++) R.T(o(n, 0, t), o(n, 1, t), z); }
    for (int n = 1; n < nsite; n++) for (int ch = 0; ch < nch; ch++) { // hopping and nearest-neighbour pairing
      static double x0, k0; bool first = ch == 0;
      for (int s = 0; s < (pol ? 2 : 1); s++) { double x = kx == 2 && !first ? x0 : val(sym::idx("xi", n, ch + nch * s)); x0 = x; c.coef->xi.set(n, ch + nch * s, x); for (int t = 0; t < ns; t++) if (!pol || t == s) R.T(o(n, ch, t), o(n + 1, ch, t), x); }
      if (kk) { double k = kk == 2 && !first ? k0 : val(sym::idx("kappa", n, ch)); k0 = k; c.coef->kappa.set(n, ch, k); double g = kk == 3 ? -1 : 1; R.D(o(n, ch, 0), o(n + 1, ch, 1), g * k); R.D(o(n, ch, 1), o(n + 1, ch, 0), -g * k); }
      if (pol == 2) for (int s = 0; s < 2; s++) { double x = val(sym::idx("xi", n, ch + (2 + s) * nch)); c.coef->xi.set(n, ch + (2 + s) * nch, x); R.T(o(n, ch, s), o(n + 1, ch, 1 - s), x); }
      if (rung) { double x = val(sym::idx("xiR", n, ch)); c.coef->xiR.set(n, ch, x); for (int t = 0; t < ns; t++) R.T(o(n, ch, t), o(n + 1, 1 - ch, t), x); }
    }
    R.fin();
  }
  void add(bool last) { if (rot && !last) c.add([](const Invar &, int m) { return rotation(m); }); else c.add(); }
};
