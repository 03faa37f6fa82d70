// Driver of the c++/ core: a Wilson chain built site by site with the real symmetry classes.
#pragma once
#include "nrg-general.hpp"
#include "sym.h"
#include SYFILE
#ifndef SCAL
#define SCAL double
#endif
namespace core {
using namespace NRG;
using S_ = SCAL; using Mat = Matrix_traits<S_>; using Tc = coef_traits<S_>;
inline double re(double x) { return x; }
inline double re(const std::complex<double> &x) { return x.real(); }
inline double cabs2(double x) { return x * x; }
inline double cabs2(const std::complex<double> &x) { return x.real() * x.real() + x.imag() * x.imag(); }
inline double mulre(double a, double b) { return a * b; } // Re(conj(a) b)
inline double mulre(const std::complex<double> &a, const std::complex<double> &b) { return a.real() * b.real() + a.imag() * b.imag(); }
inline bool zero(double x) { return x == 0; }
inline bool zero(const std::complex<double> &x) { return x.real() == 0 && x.imag() == 0; }
struct SMat { // sparse rows (structural zeros are dropped: only exact constants 0 vanish)
  size_t n = 0, m = 0; std::vector<std::vector<std::pair<int, S_>>> r;
  SMat(size_t a = 0, size_t b = 0) : n(a), m(b), r(a) {}
};
// is x a structural (constant) zero? symbolic values count as non-zero
extern "C" int sym_const_zero(double);
inline bool nz(double x) { return !sym_const_zero(x); }
inline bool nz(const std::complex<double> &x) { return !sym_const_zero(x.real()) || !sym_const_zero(x.imag()); }
inline SMat sparse(const Mat &a) { SMat s(a.rows(), a.cols()); for (size_t i = 0; i < s.n; i++) for (size_t j = 0; j < s.m; j++) if (nz(a(i, j))) s.r[i].push_back({(int)j, a(i, j)}); return s; }
inline SMat mul(const SMat &a, const SMat &b) {
  SMat s(a.n, b.m); std::vector<S_> acc(b.m); std::vector<char> has(b.m);
  for (size_t i = 0; i < a.n; i++) { std::fill(acc.begin(), acc.end(), S_{}); std::fill(has.begin(), has.end(), 0); for (auto &[k, x] : a.r[i]) for (auto &[j, y] : b.r[k]) { acc[j] += x * y; has[j] = 1; } for (size_t j = 0; j < b.m; j++) if (has[j] && nz(acc[j])) s.r[i].push_back({(int)j, acc[j]}); }
  return s;
}
inline S_ cj(double x) { return x; }
inline std::complex<double> cj(const std::complex<double> &x) { return std::conj(x); }
inline SMat adj(const SMat &a) { SMat s(a.m, a.n); for (size_t i = 0; i < a.n; i++) for (auto &[j, x] : a.r[i]) s.r[j].push_back({(int)i, cj(x)}); return s; }
inline Mat dense(const SMat &a) { Mat m = Mat::Zero(a.n, a.m); for (size_t i = 0; i < a.n; i++) for (auto &[j, x] : a.r[i]) m(i, j) = x; return m; }
// Re tr(a^dagger b)
inline double dot(const SMat &a, const SMat &b) { double t = 0; for (size_t i = 0; i < a.n; i++) { size_t q = 0; for (auto &[j, x] : a.r[i]) { while (q < b.r[i].size() && b.r[i][q].first < j) q++; if (q < b.r[i].size() && b.r[i][q].first == j) t += mulre(x, b.r[i][q].second); } } return t; }
inline double tr(const SMat &a) { double t = 0; for (size_t i = 0; i < a.n; i++) for (auto &[j, x] : a.r[i]) if (j == (int)i) t += re(x); return t; }

// a basis change: product of plane rotations (and of phases, for complex matrices); orthogonal up to rounding
inline double ph(int k, double) { return k % 2 ? -1 : 1; }
inline std::complex<double> ph(int k, std::complex<double>) { return k % 2 ? std::complex<double>(0, 1) : std::complex<double>(0.6, 0.8); }
inline Mat rotation(int n) {
  Mat U = Mat::Identity(n, n);
  for (int i = 0; i + 1 < n; i++) { static const double cs[3][2] = {{0.6, 0.8}, {0.28, -0.96}, {0.352, 0.936}}; const double c = cs[i % 3][0], s = cs[i % 3][1]; for (int j = 0; j < n; j++) { const S_ a = U(i, j), b = U(i + 1, j); U(i, j) = c * a + s * b; U(i + 1, j) = c * b - s * a; } }
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) U(i, j) = U(i, j) * ph(i, S_{});
  return U;
}
struct Chain {
  Params P; std::unique_ptr<Symmetry<S_>> Sym; std::unique_ptr<Coef<S_>> coef; std::unique_ptr<Step> step; MemTime mt;
  std::unique_ptr<Stats<S_>> stats; Operators<S_> oper; std::unique_ptr<Output<S_>> output;
  DiagInfo<S_> diag; Opch<S_> opch; SubspaceStructure sub; std::map<Invar, Mat> H; int sites = 0;
  void size(set_of_coef_tables<S_> &t, int n) { std::string s; for (int i = 0; i < n; i++) s += "0 0\n"; std::istringstream f(s); t.read(f, n); }
  void start(const std::string &sym, int channels, std::unique_ptr<Symmetry<S_>> (*mk)(const Params &), const std::vector<int> &vac) {
    Invar::invdim = 0; Invar::qntype.clear(); Invar::names.clear(); P.symtype = sym; P.Nmax = 20; P.silent = true;
    P.set_channels_and_combs(channels); Sym = mk(P); Sym->load(); Sym->erase_first();
    step = std::make_unique<Step>(P, RUNTYPE::NRG); step->set(0);
    coef = std::make_unique<Coef<S_>>(P); for (auto *t : {&coef->xi, &coef->zeta, &coef->xiR, &coef->zetaR, &coef->delta, &coef->kappa}) { size(*t, P.coefchannels); for (int c = 0; c < (int)P.coefchannels; c++) for (int n = 0; n < 8; n++) t->set(n, c, 0.0); }
    stats = std::make_unique<Stats<S_>>(P, Sym->get_td_fields(), 0.0); output = std::make_unique<Output<S_>>(RUNTYPE::NRG, oper, *stats, P);
    Invar v; { std::string s; for (int x : vac) s += std::to_string(x) + " "; std::istringstream f(s); f >> v; }
    ::NRG::Eigen<S_> e(std::vector<double>{0.0}, 1.0); diag[v] = e; H[v] = Mat::Zero(1, 1);
    opch = Opch<S_>(P); for (auto &c : opch) for (auto &m : c) m[{v, v}] = Mat::Zero(1, 1);
  }
  // One NRG step. The energies passed to the code are the diagonal of H; the remaining (block) part is added here, so
  // that the basis may be any basis of the previous shell. rot: basis rotation per subspace (identity when absent).
  void add(const std::function<Mat(const Invar &, int)> &rot = nullptr) {
    const auto N = sites++; step->set(N); const double f = P.nrg_step_scale_factor();
    sub = SubspaceStructure(diag, Sym.get()); TaskList tl(sub, false); DiagInfo<S_> nd; std::map<Invar, Mat> nH;
    for (const auto &I : tl.get()) {
      Mat h = hamiltonian(*step, I, opch, *coef, diag, *output, Sym.get(), P); const auto anc = Sym->ancestors(I); const SubspaceDimensions rm{I, anc, diag, Sym.get()};
      for (const auto i : Sym->combs()) { if (!rm.rmax(i)) continue; const auto &ph = H.at(anc[i]); auto o = rm.offset(i); for (size_t a = 0; a < rm.rmax(i); a++) for (size_t b = a + 1; b < rm.rmax(i); b++) h(o + a, o + b) += f * ph(a, b); }
      for (long a = 0; a < h.rows(); a++) for (long b = 0; b < a; b++) h(a, b) = conj_me(h(b, a));
      RawEigen<S_> raw; raw.val.assign(h.rows(), 0.0); Mat U = rot ? rot(I, h.rows()) : Mat(Mat::Identity(h.rows(), h.rows())); raw.vec = U;
      if (rot && h.rows() > 1) h = dense(mul(mul(sparse(U), sparse(h)), adj(sparse(U))));
      std::vector<double> d(h.rows()); for (long a = 0; a < h.rows(); a++) d[a] = re(h(a, a));
      ::NRG::Eigen<S_> e(std::move(raw), *step); e.values.set_corr(d); e.truncate_prepare(h.rows()); nd[I] = std::move(e); nH[I] = std::move(h);
    }
    diag = std::move(nd); H = std::move(nH); split_in_blocks(diag, sub); diag.truncate_perform();
    recalc_irreducible(*step, diag, sub, opch, Sym.get(), mt, P);
  }
  double scale() { return step->scale(); }
};
}
