// Each spectral algorithm collects the Lehmann sum of its paper: one shell, arbitrary matrix elements and density matrices.
#include "core.h"
using namespace core;
typedef std::complex<double> Z;
static double S1(const std::string &n, double) { return sym::D(n, -2, 2); }
static Z S1(const std::string &n, Z) { const double a = sym::D(n, -2, 2); return Z(a, sym::D(n + "i", -2, 2)); }
static Z zz(double x) { return x; } static Z zz(const Z &x) { return x; }
struct Bin { double e; Z w; };
static std::vector<Bin> load(const std::string &fn, bool reim) { auto v = sym::getbin(fn); std::vector<Bin> r; const size_t k = reim ? 3 : 2; sym::check(v.size() % k == 0 && v.size() > 0, "records are complete"); for (size_t i = 0; i + k <= v.size(); i += k) r.push_back({v[i], {v[i + 1], reim ? v[i + 2] : 0.0}}); return r; }
static void small(double x, double y, const char *m) { sym::close(x, y, m, 3e-7); }
static void rel(double x, double y, const char *m) { sym::close(x, y, m, 1e-6); }
extern "C" void harness() {
  const int alg = sym_param("alg", 0), bos = sym_param("bos", 0), last = sym_param("last", 0), proj = sym_param("project", 0), pairs = sym_param("pairs", 1), deg = sym_param("deg", 0), nst[3] = {(int)sym_param("n0", 2), (int)sym_param("n1", 2), 1}, kst[3] = {(int)sym_param("k0", 2), (int)sym_param("k1", 2), 1}, shell = sym_param("shell", 4); const bool cplx = !std::is_same_v<S_, double>;
  Chain c; c.start("QS", 1, [](const Params &P) -> std::unique_ptr<Symmetry<S_>> { return std::make_unique<SYCLASS<S_>>(P); }, {0, 1}); auto &P = c.P; P.Lambda = 2.0; P.bins = 2; P.emin = 1e-6; P.emax = 100.0; P.discard_trim = 0.0; P.discard_immediately = 0.0; P.savebins = true; P.broaden = false; P.reim = cplx; P.absolute = sym_param("absolute", 0) == 1; P.Nmax = last ? shell + 1 : 20; P.NN2even = shell % 2 == 0; P.mats = 3; const double gtp = 0.75, chitp = 1.5; P.gtp = gtp; P.chitp = chitp; P.project = std::string(proj == 1 ? "evenQ" : proj == 2 ? "oddQ" : "");
  const bool ft = alg <= 1 || (alg >= 11), fdm = alg >= 7 && alg <= 10, mats = alg == 1 || alg == 3 || alg == 10; c.step->set(shell); Step st(P, ft ? RUNTYPE::NRG : RUNTYPE::DMNRG); st.set(shell); const double es = st.energyscale(), sc = st.scale(), u = es / sc, T = 0.5 * es; P.T = T; /* u: unit of the energies passed in */
  // levels (in units of the energy scale), shifted as the code keeps them; all distinct differences
  static const double lev[3][3] = {{0, 1.5, 3.0}, {0.25, 2.75, 5.5}, {1.0, 0, 0}}; static const char *qn[3] = {"0 1", "1 2", "-1 2"}; const double shift = 0.375, tsh = 1.25, gs = 1.0;
  DiagInfo<S_> diag; std::vector<Invar> In; std::vector<std::vector<double>> E(3); DensMatElements<S_> rho; std::vector<Mat> R(3);
  for (int s = 0; s < 3; s++) { std::istringstream f(qn[s]); Invar I; f >> I; In.push_back(I); if (s == 2 && pairs < 3) continue; RawEigen<S_> raw; for (int i = 0; i < nst[s]; i++) { E[s].push_back((deg && s == 1 && i == 0 ? lev[0][1] : lev[s][i]) * es); raw.val.push_back(E[s][i] / sc + shift); } raw.vec = Mat::Identity(nst[s], nst[s]); diag[I] = ::NRG::Eigen<S_>(std::move(raw), st); auto &g = diag[I]; std::vector<double> co; for (double x : E[s]) co.push_back(x / sc); g.values.set_corr(co); g.values.set_scale(sc); g.values.set_shift(shift); g.values.set_T_shift(tsh); g.values.set_abs_GS_energy(gs); g.truncate_prepare(kst[s]);
    const int nr = fdm && last ? nst[s] : kst[s]; R[s] = Mat::Zero(nr, nr); for (int i = 0; i < nr; i++) for (int j = i; j < nr; j++) { const std::string n = "r" + std::to_string(s) + sym::idx("_", i, j); if (i == j) R[s](i, i) = sym::D(n, 0, 1); else { R[s](i, j) = S1(n, S_{}); R[s](j, i) = cj(R[s](i, j)); } } rho[I] = R[s]; }
  // operators: the pair (I1,Ip) holds <I1| O |Ip>
  struct Pr { int j, i; Mat a, b; bool second; }; std::vector<Pr> pr; MatrixElements<S_> o1, o2; static const int pj[4] = {1, 0, 1, 2}, pi[4] = {0, 2, 1, 0};
  for (int k = 0; k < pairs; k++) { const int j = pj[k], i = pi[k]; if ((j == 2 || i == 2) && pairs < 3) continue; Mat a(nst[j], nst[i]), b(nst[j], nst[i]); for (int r = 0; r < nst[j]; r++) for (int q = 0; q < nst[i]; q++) { a(r, q) = S1("a" + std::to_string(k) + sym::idx("_", r, q), S_{}); b(r, q) = S1("b" + std::to_string(k) + sym::idx("_", r, q), S_{}); } const bool second = !(k == 2 && sym_param("miss", 0)); o1[{In[j], In[i]}] = a; if (second) o2[{In[j], In[i]}] = b; pr.push_back({j, i, a, b, second}); }
  const int spin = sym_param("spin", 1); auto ff = [](const Invar &Ip, const Invar &I1) { return 0.5 + 0.25 * Ip.get("SS") + I1.get("SS"); }; auto cf = [](const Invar &I1, const Invar &Ip, int sp) { return !(I1 == Ip && sp == -1); };
  auto &stats = *c.stats; const bool zc = sym_param("zc", 0) == 1; const double Zv = zc ? 1.75 : sym::D("Z", 0.5, 4), wnf = zc ? 0.625 : sym::D("wnf", 0, 2); stats.Zft = stats.Zgt = stats.Zchit = -1; if (alg <= 1 || (alg >= 4 && alg <= 6)) stats.Zft = Zv; else if (alg == 14) stats.Zchit = Zv; else stats.Zgt = Zv; stats.wnfactor[st.ndx()] = wnf;
  const gf_type gt = bos ? gf_type::bosonic : gf_type::fermionic; std::shared_ptr<Algo<S_>> A; static const char *nm[] = {"FT", "FTmats", "DMNRG", "DMNRGmats", "CFSls", "CFSgt", "CFS", "FDMls", "FDMgt", "FDM", "FDMmats", "GT", "I1T", "I2T", "CHIT"};
  switch (alg) {
    case 0: A = std::make_shared<Algo_FT<S_>>("A-B", "spec", gt, P); break; case 1: A = std::make_shared<Algo_FTmats<S_>>("A-B", "spec", gt, P); break; case 2: A = std::make_shared<Algo_DMNRG<S_>>("A-B", "spec", gt, P); break; case 3: A = std::make_shared<Algo_DMNRGmats<S_>>("A-B", "spec", gt, P); break;
    case 4: A = std::make_shared<Algo_CFSls<S_>>("A-B", "spec", gt, P); break; case 5: A = std::make_shared<Algo_CFSgt<S_>>("A-B", "spec", gt, P); break; case 6: A = std::make_shared<Algo_CFS<S_>>("A-B", "spec", gt, P); break;
    case 7: A = std::make_shared<Algo_FDMls<S_>>("A-B", "spec", gt, P); break; case 8: A = std::make_shared<Algo_FDMgt<S_>>("A-B", "spec", gt, P); break; case 9: A = std::make_shared<Algo_FDM<S_>>("A-B", "spec", gt, P); break; case 10: A = std::make_shared<Algo_FDMmats<S_>>("A-B", "spec", gt, P); break;
    case 11: A = std::make_shared<Algo_GT<S_, 0>>("A-B", "spec", gt, P); break; case 12: A = std::make_shared<Algo_GT<S_, 1>>("A-B", "spec", gt, P); break; case 13: A = std::make_shared<Algo_GT<S_, 2>>("A-B", "spec", gt, P); break; default: A = std::make_shared<Algo_CHIT<S_>>("A-B", "spec", gt, P);
  }
  sym::check(A->rho_type() == (fdm ? "rhoFDM" : alg >= 2 && alg <= 6 ? "rho" : ""), "the density matrix asked for");
  DensMatElements<S_> none; for (int s = 0; s < 3; s++) if (rho.count(In[s])) none[In[s]] = Mat::Zero(rho[In[s]].rows(), rho[In[s]].rows());
  BaseSpectrum<S_> spec(o1, o2, spin, A, ff, cf); const int calls = sym_param("calls", 1); for (int q = 0; q < calls; q++) spec.calc(st, diag, fdm ? none : rho, fdm ? rho : none, stats, c.Sym.get(), P); A->save();
  // the Lehmann sum: list of (energy, weight of the "greater" part, weight of the "lesser" part)
  struct Pk { double e; Z g, l; double ei; bool kk; }; std::vector<Pk> pk; const double sg = bos ? -1 : 1;
  for (auto &p : pr) {
    if (!p.second || (p.i == p.j && spin == -1)) continue; if (proj) { auto odd = [&](int s) { return s != 0; }; if (odd(p.i) == (proj == 1) || odd(p.j) == (proj == 1)) continue; }
    const double f = 0.5 + 0.25 * In[p.i].get("SS") + In[p.j].get("SS"); const int ni = nst[p.i], nj = nst[p.j], ki = kst[p.i], kj = kst[p.j]; const double off = fdm ? tsh - gs : 0;
    for (int j = 0; j < nj; j++) for (int i = 0; i < ni; i++) {
      const double Ei = E[p.i][i], Ej = E[p.j][j], bi = std::exp(-(Ei + off) / T), bj = std::exp(-(Ej + off) / T); const Z ac = std::conj(zz(p.a(j, i))), b = zz(p.b(j, i)); Z g = 0, l = 0; bool use = true;
      auto brho = [&](int n) { Z t = 0; for (int k = 0; k < n; k++) t += zz(p.b(j, k)) * zz(R[p.i](k, i)); return t; }; auto rhob = [&](int n) { Z t = 0; for (int k = 0; k < n; k++) t += zz(R[p.j](j, k)) * zz(p.b(k, i)); return t; };
      const bool Ki = i < ki, Kj = j < kj;
      if (alg <= 1) { use = Ki && Kj; g = ac * b * bi / Zv; l = ac * b * bj / Zv; }
      else if (alg <= 3) { use = Ki && Kj; if (use) { g = ac * brho(ki); for (int k = 0; k < kj; k++) l += std::conj(zz(p.a(k, i))) * zz(R[p.j](k, j)); l *= b; } }
      else if (alg <= 6) { if (last) { use = Ki && Kj; g = ac * b * bi / Zv; l = ac * b * bj / Zv; } else { use = Ki != Kj; if (Ki && !Kj) l = ac * brho(ki); /* excitations from kept to discarded states */ if (Kj && !Ki) { g = 0; for (int k = 0; k < kj; k++) g += std::conj(zz(p.a(k, i))) * zz(R[p.j](k, j)); g *= b; } } }
      else if (fdm) { const bool Di = last || !Ki, Dj = last || !Kj; use = Di || Dj; if (use) { g = Di ? ac * b * bi * wnf : ac * brho(ki); l = Dj ? ac * b * bj * wnf : ac * rhob(kj); } }
      else { use = Ki && Kj; const double Tt = (alg == 14 ? chitp : gtp) * es, x = (Ej - Ei) / Tt, ei = std::exp(-Ei / Tt), ej = std::exp(-Ej / Tt); if (alg == 14) g = ac * b / Zv * (x == 0 ? ei : (ei - ej) / x); else { const double ch = 2 * std::cosh(x / 2); g = ac * b / Zv * (ei + ej) * std::pow(Ej - Ei, alg - 11) / (Tt * ch * ch); } }
      if (use) pk.push_back({Ej - Ei, g * f, l * f, Ei, (fdm || (alg >= 4 && alg <= 6)) && !last && Ki != Kj});
    }
  }
  const std::string fn = std::string("spec_") + nm[alg] + "_dens_A-B";
  if (alg >= 11) { // one value per temperature
    auto t = sym::table(fn + ".dat"); sym::check((int)t.size() == calls, "one line per shell"); if ((int)t.size() != calls) return; Z v = 0; for (auto &p : pk) v += p.g; int used = 0; for (auto &p : pr) used += p.second; (void)used; sym::check(t[0].size() == (cplx ? 3u : 2u), "columns"); if (t[0].size() < 2) return; sym::close(t[0][0], (alg == 14 ? chitp : gtp) * es, "the temperature of the shell"); rel(t[0][1], v.real(), "thermal integral of the spectral function at the temperature of the shell"); if (cplx) rel(t[0][2], v.imag(), "thermal integral of the spectral function at the temperature of the shell (imaginary part)");
  } else if (mats) {
    auto t = sym::table(fn + ".dat"); sym::check(t.size() == 3, "one line per Matsubara frequency"); if (t.size() != 3) return;
    for (int n = 0; n < 3; n++) { const double w = M_PI * T * (2 * n + (bos ? 0 : 1)); sym::check(t[n].size() == 3, "columns"); if (t[n].size() != 3) return; sym::close(t[n][0], w, "Matsubara frequencies"); Z v = 0; for (auto &p : pk) { if (bos && n == 0 && p.e == 0) v += -p.g / T; else v += (p.g + sg * p.l) / (Z(0, w) - p.e); } v *= (double)calls; rel(t[n][1] * es, v.real() * es, "the Green's function is the Lehmann sum"); rel(t[n][2] * es, v.imag() * es, "the Green's function is the Lehmann sum (imaginary part)"); }
  } else {
    std::vector<Bin> r = load(fn + ".bin", cplx); SpectrumRealFreq<S_> ref("A-B", "ref", "ref", P); ChainBinning<S_> cb(P); const bool onlyl = alg == 4 || alg == 7, onlyg = alg == 5 || alg == 8; for (int q = 0; q < calls; q++) for (auto &p : pk) cb.add(p.e, (onlyl ? Z(0) : p.g) + (onlyg ? Z(0) : sg * p.l));
    if (alg == 0 || alg == 2) ref.mergeNN2(cb, st); else ref.mergeCFS(cb); ref.save(); auto q = load("ref.bin", cplx); sym::check(r.size() == q.size(), "same bins"); if (r.size() != q.size()) return; Z tot = 0, want = 0;
    for (size_t i = 0; i < r.size(); i++) { sym::check(r[i].e == q[i].e, "same bins"); small(r[i].w.real(), q[i].w.real(), "the spectral function is the Lehmann sum"); small(r[i].w.imag(), q[i].w.imag(), "the spectral function is the Lehmann sum (imaginary part)"); tot += r[i].w; }
    if (alg >= 4) { for (int k = 0; k < calls; k++) for (auto &p : pk) want += (onlyl ? Z(0) : p.g) + (onlyg ? Z(0) : sg * p.l); small(tot.real(), want.real(), "no spectral weight is lost"); small(tot.imag(), want.imag(), "no spectral weight is lost (imaginary part)"); }
  }
}
