// bw: broadening of discrete spectra with the log-Gaussian kernel
#include "sym.h"
#include "bw/bw.cc"
static double kern(double E, double a, double w) { double g = log(E / w) / a - a / 4; return exp(-g * g) / (a * (E < 0 ? -E : E) * sqrt(M_PI)); }
extern "C" void harness() {
  int Nz_ = sym_param("Nz", 1), nit = sym_param("iter", 1), n = sym_param("n", 2), pos = sym_param("pos", 0), fix = sym_param("fconst", 0), wide = sym_param("wide", 0);
  std::vector<double> f, w;
  for (int z = 1; z <= Nz_; z++) {
    std::string d = std::to_string(z); sym::mkdir(d); std::vector<double> v;
    for (int i = 0; i < n; i++) {
      bool neg = sym_param("neg", 1) && (i % 2);
      double x = fix ? (neg ? -0.7 : 0.6) * (z + i) : neg ? sym::D(sym::idx("f", z, i), -2, -0.25) : sym::D(sym::idx("f", z, i), 0.25, 2), y = sym_param("wconst", 0) ? 0.5 + 0.25 * i + 0.1 * z : sym::D(sym::idx("w", z, i), pos ? -1 : 0.1, 2);
      v.push_back(x); v.push_back(y); f.push_back(x); w.push_back(y);
    }
    sym::putbin(d + "/raw.bin", v);
  }
  double B = sym_param("bconst", 0) ? 0.8 : sym::D("b0", 0.2, 1.5);
  std::vector<std::string> a{"bw", "-m", wide ? "0.05" : "0.5", "-M", "1", "-r", wide ? "4" : "2", "-n", std::to_string(nit), "-t", "0", "-q", "0.5", "-x", "0.1", "-s"}; if (pos) a.push_back("-p");
  a.push_back("raw.bin"); a.push_back(sym::num(B)); a.push_back(std::to_string(Nz_));
  int rc = sym::run(sym_tool_main, a);
  sym::check(sym::ok(rc), "valid input is processed");
  auto t = sym::table("a1.dat");
  sym::check((int)t.size() == (wide ? 8 : 4), "output on the whole mesh");
  double E4[4] = {-2, -0.5, 0.5, 2}, E8[8] = {-12.8, -0.8, -0.2, -0.05, 0.05, 0.2, 0.8, 12.8}, *E = wide ? E8 : E4;
  for (size_t i = 0; i < t.size() && i < (wide ? 8 : 4); i++) {
    if (t[i].size() != 2) { sym::check(0, "two columns"); continue; }
    double x = t[i][0], s = 0;
    sym::close(x, E[i], "logarithmic mesh, symmetric about zero, in increasing order");
    for (size_t k = 0; k < f.size(); k++) if ((f[k] < 0) == (x < 0)) s += w[k] / Nz_ * kern(x, B, f[k]);
    if (wide) { // tails: compare relative to the kernel, peak by peak
      double K = 0; for (size_t k = 0; k < f.size(); k++) if ((f[k] < 0) == (x < 0)) { double q = kern(x, B, f[k]); if (q > K) K = q; }
      if (K > 0) sym::close(t[i][1] / K, s / K, "the tails of the kernel are those of the log-Gaussian", 1e-4);
      else sym::close(t[i][1], 0, "peaks do not leak to the other sign of the frequency");
      continue;
    }
    if (pos) { sym::check(t[i][1] > 0 || t[i][1] == s, "positive when requested"); if (s >= 0) sym::close(t[i][1], s, "broadened spectrum is the kernel sum over peaks of the same sign", 1e-5); }
    else sym::close(t[i][1], s, "broadened spectrum is the kernel sum over peaks of the same sign", 1e-5);
  }
  for (int it = 1; it < nit; it++) {
    auto b = sym::table("b" + std::to_string(it) + ".dat"); sym::check(b.size() >= 1, "broadening widths are reported");
    for (auto &r : b) { sym::check(r.size() == 2 && r[1] >= 0.1, "width never below the lower bound"); sym::check(r.size() == 2 && r[1] <= B + 1e-9, "width never above the asymptotic width"); }
  }
}
