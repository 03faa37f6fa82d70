// Collection of spectral weight: coarse graining, patching of shells, trimming, broadening, Matsubara and temperature tables.
#include "core.h"
using namespace core;
typedef std::complex<double> Z;
struct Bin { double e; Z w; };
static std::vector<Bin> load(const std::string &fn, bool reim) { auto v = sym::getbin(fn); std::vector<Bin> r; const size_t k = reim ? 3 : 2; for (size_t i = 0; i + k <= v.size(); i += k) r.push_back({v[i], {v[i + 1], reim ? v[i + 2] : 0.0}}); sym::check(v.size() % k == 0, "records are complete"); return r; }
static Z W(const std::string &n, bool cplx) { return {sym::D(n, -2, 2), cplx ? sym::D(n + "i", -2, 2) : 0.0}; }
static void cl(const Z &a, const Z &b, const char *m) { sym::close(a.real(), b.real(), m); sym::close(a.imag(), b.imag(), m); }
static double kernel(double e, double p, double a, double w) { // modified log-Gaussian, Gaussian below w
  double l = 0; if ((e > 0 && p > 0) || (e < 0 && p < 0)) l = std::exp(-std::pow(std::log(e / p) / a - a / 4, 2)) / (a * std::abs(e) * 1.7724538509055160273); if (std::abs(e) > w) return l;
  const double h = std::exp(-std::pow(std::log(std::abs(e) / w) / a, 2)); return l * h + std::exp(-std::pow((e - p) / w, 2)) / (w * 1.7724538509055160273) * (1 - h);
}
extern "C" void harness() {
  const int mode = sym_param("mode", 0), nb = sym_param("bins", 1), n = sym_param("n", 2), cplx = sym_param("cplx", 1); Params P; P.silent = true; P.set_channels_and_combs(sym_param("channels", 1)); P.Nmax = sym_param("Nmax", 20); P.Lambda = 2.0; P.bins = nb; P.emin = 0.1; P.emax = 10.0; P.discard_trim = 0.0; P.discard_immediately = 0.0; P.savebins = true; P.broaden = false; P.reim = cplx == 1; P.T = 0.1; P.absolute = sym_param("absolute", 0) == 1;
  Step st(P, RUNTYPE::DMNRG);
  if (mode == 0 || mode == 8 || mode == 10) { // coarse graining
    const double lo = sym_param("far", 0) ? 0.0 : 0.1, hi = sym_param("far", 0) ? 1000 : 10; if (mode == 8) { P.accumulation = 0.25; if (sym_param("lin", 0)) P.linstep = 0.1; } const double d = mode == 10 ? sym::D("discard", 0.001, 2) : 0; P.discard_immediately = d;
    ChainBinning<S_> a(P), b(P); std::vector<double> e; std::vector<Z> w; const int sg = sym_param("sign", 0); const double top = mode == 8 ? 9.9 : hi;
    for (int i = 0; i < n; i++) { e.push_back(sym::D(sym::idx("e", i), sg == 1 || (sg == 2 && i % 2) ? -top : mode == 8 ? 1e-3 : lo, sg == 1 || (sg == 2 && i % 2) ? (mode == 8 ? -1e-3 : -lo) : top)); w.push_back(W(sym::idx("w", i), cplx)); if (sym_param("pair", 0)) (i % 2 ? b : a).add({e[i], w[i]}, Z(0.5, 0)); else (i % 2 ? b : a).add(e[i], w[i]); if (sym_param("pair", 0)) w[i] *= 0.5; }
    SpectrumRealFreq<S_> s("A-A", "FT", "spec", P); s.mergeCFS(a); s.mergeCFS(b); s.save(); const auto r = load("spec.bin", cplx == 1); const int side = mode == 8 ? (int)r.size() / 2 : 2 * nb + 1;
    sym::check((int)r.size() == 2 * side, "the bins cover the requested range on both sides"); if ((int)r.size() != 2 * side) return;
    std::vector<double> g; for (int i = 0; i < side; i++) { g.push_back(r[i].e); if (mode != 8) sym::close(g[i], std::pow(10, -1 + i / (double)nb), "bins are equidistant on the logarithmic scale", 1e-9); sym::check(r[side + i].e == -g[i] && (i == 0 || g[i] > g[i - 1] || (mode == 8 && g[i] == g[i - 1])), "bins are ordered and the same on both sides"); }
    if (mode == 10) { Z t = 0, u = 0; for (auto &x : r) t += x.w; for (int i = 0; i < n; i++) { const double m2 = w[i].real() * w[i].real() + w[i].imag() * w[i].imag(); if (!(m2 < d * d * e[i] * e[i]) || e[i] < 0) u += w[i]; } cl(t, u, "only peaks below the clipping threshold are discarded"); return; }
    Z tp[2] = {}, ep[2] = {}, up[2] = {}, fp[2] = {};
    for (int i = 0; i < 2 * side; i++) { const int q = i >= side; tp[q] += r[i].w; ep[q] += r[i].w * (mode == 8 ? g[i % side] : std::log10(g[i % side])); }
    for (int i = 0; i < n; i++) { const int q = e[i] < 0; const double x = e[i] < 0 ? -e[i] : e[i]; up[q] += w[i]; double l = mode == 8 ? x : x < 0.1 ? -1 : std::log10(x); if (mode != 8) l = l < -1 ? -1 : l > 1 ? 1 : l; fp[q] += w[i] * l; }
    for (int q = 0; q < 2; q++) { cl(tp[q], up[q], "coarse graining conserves the spectral weight on each side of the axis"); cl(ep[q], fp[q], mode == 8 ? "coarse graining conserves the energy" : "coarse graining conserves the logarithmic energy"); }
    for (int i = 0; i < 2 * side; i++) { Z ref = 0; for (int k = 0; k < n; k++) { const int q = e[k] < 0; const double x = q ? -e[k] : e[k]; if (q != (i >= side)) continue; const int j = i % side; const double lx = mode == 8 ? x : x < 0.1 ? -1 : std::log10(x); auto at = [&](int m) { return mode == 8 ? g[m] : -1 + m / (double)nb; }; const bool far = (j > 0 && lx <= at(j - 1) - 1e-12) || (j + 1 < side && lx >= at(j + 1) + 1e-12 && j >= 0); if (!far) ref = 1; } if (ref == Z(0)) cl(r[i].w, 0, "a peak is shared between the two nearest bins only"); }
  } else if (mode == 1) { // patching
    const int last = P.Nmax - 1, avg = sym_param("avg", 0), even = sym_param("even", 1), nn1 = sym_param("nn1", 0), first = sym_param("first", 0), sub = sym_param("sub", 0); P.Ninit = first; P.NN1 = nn1 == 1; P.NN2avg = avg == 1; P.NN2even = even == 1; P.substeps = sub == 1; const int th = sym_param("tanh", 0); P.NNtanh = th; const double p = th || !sym_param("fixw", 1) ? 2.0 : sym::D("goodE", 1.2, 3); P.goodE = p; P.emin = 0.001; P.emax = 1.0;
    const double f = nn1 || sub ? std::sqrt(2.) : 2; ChainBinning<S_> full(P); SpectrumRealFreq<S_> s("A-A", "FT", "spec", P), one("A-A", "FT", "one", P); std::vector<double> g; for (int i = 0; i <= 3 * nb; i++) g.push_back(std::pow(10, -3 + i / (double)nb)); std::vector<Z> w; 
    const int fw = sym_param("fixw", 1); if (fw == 0) {} for (size_t i = 0; i < 2 * g.size(); i++) { w.push_back(fw ? Z(1 + 0.125 * i, cplx ? 0.25 * i - 1 : 0) : Z(sym::D(sym::idx("w", i), 0.5, 2), cplx ? sym::D(sym::idx("v", i), -1, 1) : 0)); full.add(i < g.size() ? g[i] : -g[i - g.size()], w[i]); }
    one.mergeCFS(full); one.save(); const auto r0 = load("one.bin", cplx == 1); // the weight as collected in the bins
    std::vector<double> tot(g.size()), lo, hi; double elo = 1e9, ehi = 0;
    for (int N = first; N <= last; N++) { st.set(N); s.mergeNN2(full, st); const bool used = nn1 || avg || (even ? N % 2 == 0 : N % 2 == 1); if (!used) continue; const double sc = st.energyscale() * p, a = sc, b = sc * f, c = sc * f * f; const bool L = N == last, F = N == first; if (a < elo) elo = a; if (c > ehi) ehi = c;
      for (size_t i = 0; i < g.size(); i++) { const double E = g[i]; double x = 0; if (E <= a || E >= c) x = 0; else if (L && E <= b) x = 1; else if (F && E >= b) x = 1; else if (!th) x = E <= b ? (E - a) / (b - a) : (c - E) / (c - b); else { auto q = [&](double y) { return (std::tanh(th * (y - 0.5)) - std::tanh(-0.5 * th)) / (2 * std::tanh(0.5 * th)); }; x = E <= b ? q((E - a) / (b - a)) : 1 - q((E - b) / (c - b)); } tot[i] += (avg ? 0.5 : 1.0) * x; } }
    s.save(); const auto r = load("spec.bin", cplx == 1); sym::check(r.size() == r0.size() && r.size() == 2 * g.size(), "the bins cover the requested range on both sides"); if (r.size() != r0.size()) return;
    for (size_t i = 0; i < r.size(); i++) { const size_t j = i % g.size(); cl(r[i].w, r0[i].w * tot[j], "each shell contributes with its window function");
      if (sym_param("unity", 1)) { double low = 0, high = 1e9; for (int q = 0; q < 2; q++) { if (nn1 ? q == 1 : !(avg || q == (even ? 0 : 1))) continue; int a = last, b = first; if (!nn1) { while (a % 2 != q) a--; while (b % 2 != q) b++; } st.set(a); const double l = st.energyscale() * p * (a == last ? 1 : f); st.set(b); const double h = st.energyscale() * p * f * (b == first ? f : 1); low = l > low ? l : low; high = h < high ? h : high; } if (g[j] > low * 1.0001 && g[j] < high * 0.9999) cl(r[i].w, r0[i].w, "the windows of consecutive shells add up to one"); } }
  } else if (mode == 2) { // trimming of light bins
    P.bins = nb; const double d = sym::D("trim", 0, 1); P.discard_trim = d; ChainBinning<S_> a(P); std::vector<double> g; for (int i = 0; i <= 2 * nb; i++) g.push_back(std::pow(10, -1 + i / (double)nb)); std::vector<double> w; for (size_t i = 0; i < 2 * g.size(); i++) { w.push_back(sym::D(sym::idx("w", i), -3, 3)); a.add(i < g.size() ? g[i] : -g[i - g.size()], w[i]); }
    { P.discard_trim = 0.0; SpectrumRealFreq<S_> o("A-A", "FT", "one", P); o.mergeCFS(a); o.save(); P.discard_trim = d; } SpectrumRealFreq<S_> s("A-A", "FT", "spec", P); s.mergeCFS(a); s.save(); const auto r0 = load("one.bin", cplx == 1), r = load("spec.bin", cplx == 1); size_t k = 0; sym::check(r0.size() == 2 * g.size(), "without clipping every bin is kept"); if (r0.size() != 2 * g.size()) return;
    for (size_t i = 0; i < r0.size(); i++) { const bool have = k < r.size() && r[k].e == r0[i].e; const size_t j = i % g.size(); if (j + 1 == g.size()) sym::check(have, "the bin at the upper limit is always kept"); else { const double x = r0[i].w.real(), m = x < 0 ? -x : x; sym::check(have == (m >= d * std::abs(r0[i + 1].e - r0[i].e)), "exactly the bins below the clipping threshold are discarded"); } if (have) { cl(r[k].w, r0[i].w, "kept bins are unchanged"); k++; } }
    sym::check(k == r.size(), "no bin is added");
  } else if (mode == 3) { // broadening
    P.savebins = false; P.broaden = true; const int sy = sym_param("sym", 0); const double al = sy == 1 ? sym::D("alpha", 0.1, 1) : 0.3, om = sy == 2 ? sym::D("omega0", 0.01, 1) : sym_param("om100", 50) / 100.; P.alpha = al; P.broaden_max = 2.0; P.broaden_min = 0.3; P.broaden_ratio = 2.0; if (sym_param("auto", 0)) { P.omega0 = -1.0; P.omega0_ratio = 2.0; P.T = om / 2; } else P.omega0 = om;
    ChainBinning<S_> a(P); std::vector<double> g; for (int i = 0; i <= 2 * nb; i++) g.push_back(std::pow(10, -1 + i / (double)nb)); std::vector<Z> w; for (size_t i = 0; i < 2 * g.size(); i++) { w.push_back(sy ? Z(1 + 0.5 * (i % 3)) : W(sym::idx("w", i), cplx)); a.add(i < g.size() ? g[i] : -g[i - g.size()], w[i]); }
    SpectrumRealFreq<S_> s("A-A", "FT", "spec", P), o("A-A", "FT", "one", P); s.mergeCFS(a); P.savebins = true; P.broaden = false; o.mergeCFS(a); o.save(); const auto r0 = load("one.bin", cplx == 1); P.savebins = false; P.broaden = true; s.save(); sym::check(!sym::exists("spec.bin") && sym::exists("spec.dat"), "the outputs asked for are written"); auto t = sym::table("spec.dat"); static const double E[] = {-2, -1, -0.5, 0.5, 1, 2}; sym::check(t.size() == 6, "the mesh covers both signs of the frequency"); if (t.size() != 6) return;
    for (int i = 0; i < 6; i++) { sym::check((int)t[i].size() == (cplx ? 3 : 2), "columns"); if ((int)t[i].size() != (cplx ? 3 : 2)) return; sym::close(t[i][0], E[i], "mesh points in increasing order"); double re_ = 0, im_ = 0; for (auto &b : r0) { const double k = kernel(E[i], b.e, al, om); re_ += b.w.real() * k; im_ += b.w.imag() * k; } sym::close(t[i][1], re_, "the spectrum is the sum of broadened peaks", 1e-6); if (cplx) { const double m = t[i][1] < 0 ? -t[i][1] : t[i][1]; sym::check(t[i][2] - im_ < 1e-6 && im_ - t[i][2] < 1e-6, "the imaginary part is broadened in the same way"); (void)m; } }
  } else if (mode == 4) { // refused parameters
    P.savebins = false; P.broaden = true; const int k = sym::C("which", 0, 6); const double v = sym::D("value", -3, 20); P.omega0 = 0.5; P.broaden_max = 2.0; P.broaden_min = 0.3; P.broaden_ratio = 2.0; bool bad = false;
    if (k == 0) { P.alpha = v; bad = !(v > 0); } else if (k == 1) { P.broaden_ratio = v; bad = !(v > 1); } else if (k == 2) { P.broaden_max = v; bad = !(v > 0.3); } else if (k == 3) { P.broaden_min = v; sym::assume(v > 0); bad = !(v < 2); } else if (k == 4) { P.omega0 = v; sym::assume(v >= 0); bad = !(v > 0); } else if (k == 5) { P.omega0 = -1.0; P.omega0_ratio = v; bad = !(v > 0); } else { P.broaden_min = -1.0; P.broaden_min_ratio = v; bad = !(v > 0); }
    sym::assume(bad); SpectrumRealFreq<S_> s("A-A", "FT", "spec", P); int rc = sym::guard([&] { try { s.save(); } catch (std::invalid_argument &) { throw std::runtime_error("refused"); } }); sym::check(rc != 0, "unusable broadening parameters are refused"); sym::check(!sym::exists("spec.dat"), "nothing is written for refused parameters");
  } else if (mode == 9) { const double lo = sym::D("emin", 0.001, 5), hi = sym::D("emax", 0.001, 5); const int zero = sym::C("zero", 0, 1); P.emin = lo; P.emax = hi; if (zero) P.bins = 0; else sym::assume(lo >= hi); int rc = sym::guard([&] { try { Bins<S_> b(P); } catch (std::invalid_argument &) { throw std::runtime_error("refused"); } }); sym::check(rc != 0, "unusable binning limits are refused");
  } else if (mode == 5) { // Matsubara axis
    const int m = sym_param("mats", 3); const double T = sym::D("T", 0.01, 2); P.T = T; P.mats = m; for (auto gt : {gf_type::fermionic, gf_type::bosonic}) { const bool bos = gt == gf_type::bosonic; GFMatsubara<S_> G("A-A", "FTmats", bos ? "bos" : "fer", gt, P); std::vector<Z> t(m); for (int c = 0; c < 2; c++) { ChainMatsubara<S_> cm(P, gt); for (int k = 0; k < n; k++) for (int i = 0; i < m; i++) { const Z w = W(sym::idx(bos ? "b" : "f", i, k) + sym::idx("c", c), true); cm.add(i, w); t[i] += w; } G.merge(cm); } G.save(); auto r = sym::table(bos ? "bos.dat" : "fer.dat"); sym::check((int)r.size() == m, "one line per Matsubara frequency"); if ((int)r.size() != m) return;
      for (int i = 0; i < m; i++) { sym::check(r[i].size() == 3, "columns"); if (r[i].size() != 3) return; sym::close(r[i][0], M_PI * T * (2 * i + (bos ? 0 : 1)), "Matsubara frequencies"); sym::close(r[i][1], t[i].real(), "contributions of all shells are added"); const double d = r[i][2] - t[i].imag(); sym::check(d < 1e-7 && d > -1e-7, "contributions of all shells are added (imaginary part)"); } }
  } else if (mode == 6) { // temperature dependence
    TempDependence<S_> R("A-A", "GT", "gt", P); std::vector<double> T; std::vector<Z> w; for (int c = 0; c < 2; c++) { ChainTempDependence<S_> ct(P); const double t = sym::D(sym::idx("T", c), 0.01, 2); for (int k = 0; k < n; k++) { const Z x = W(sym::idx("w", c, k), cplx); ct.add(t, x); if (k == 0) { T.push_back(t); w.push_back(x); } else w.back() += x; } R.merge(ct); } R.save(); auto r = sym::table("gt.dat"); sym::check(r.size() == 2, "one line per temperature"); if (r.size() != 2) return; sym::assume(T[0] != T[1]); const int s0 = T[0] < T[1] ? 0 : 1;
    for (int i = 0; i < 2; i++) { const int k = i ? 1 - s0 : s0; sym::close(r[i][0], T[k], "temperatures in increasing order"); sym::close(r[i][1], w[k].real(), "contributions at the same temperature are added"); if (cplx) { const double d = r[i][2] - w[k].imag(); sym::check(d < 1e-7 && d > -1e-7, "contributions at the same temperature are added (imaginary part)"); } }
  } else if (mode == 7) { // statistical factors and moments
    const double x = sym::D("omega", -60, 60), T = sym_param("T100", 50) / 100.; const double f = fermi_fnc(x, T), f2 = fermi_fnc(-x, T); sym::check(f >= 0 && f <= 1, "the Fermi function lies between zero and one"); if (x / T < 36 && x / T > -36) sym::close(f + f2, 1, "occupied and empty fractions add up to one"); if (x > 0) sym::check(f >= 0.5, "the Fermi factor of positive frequencies"); else sym::check(f <= 0.5, "the Fermi factor of negative frequencies"); const double u = x / T, ef = std::exp(u < 0 ? u : -u); if (u > -700 && u < 36) sym::close(f, u < 0 ? ef / (1 + ef) : 1 / (1 + ef), "Fermi function");
    Spikes<S_> p, q; p.emplace_back(0.5, W("p0", true)); p.emplace_back(2.0, W("p1", true)); q.emplace_back(0.25, W("q0", true)); for (int m = 0; m < 5; m++) cl(moment(q, p, m), p[0].second * std::pow(0.5, m) + p[1].second * std::pow(2, m) + q[0].second * std::pow(-0.25, m), "spectral moments"); cl(p.sum_weights(), p[0].second + p[1].second, "total weight");
    cl(fd_fermi(q, p, 0.3), p[0].second / (1 + std::exp(-0.5 / 0.3)) + p[1].second / (1 + std::exp(-2 / 0.3)) + q[0].second / (1 + std::exp(0.25 / 0.3)), "fluctuation-dissipation integral of a fermionic spectrum"); cl(fd_bose(q, p, 0.3), p[0].second / (1 - std::exp(-0.5 / 0.3)) + p[1].second / (1 - std::exp(-2 / 0.3)) + q[0].second / (1 - std::exp(0.25 / 0.3)), "fluctuation-dissipation integral of a bosonic spectrum");
  }
}
