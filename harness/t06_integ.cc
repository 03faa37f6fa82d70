// integ: integrals of a tabulated function over parts of the axis. The table samples A+B*x, which the interpolation reproduces exactly.
#include "sym.h"
#include "integ/integ.cc"
extern "C" void harness() {
  int n = sym_param("n", 5), mode = sym_param("mode", 0), sgn = sym_param("positive", 0); double X = 0.5 * (n - 1);
  double A = sym::D("A", sgn ? 1 : -3, 3), Bc = sgn == 2 ? 0 : sgn ? sym::D("B", -0.45, 0.45) : sym::D("B", -3, 3); bool dirac = sym_param("noise", 0);
  std::string s = "# x y\n"; std::vector<double> y;
  for (int k = 0; k < n; k++) { int i = sym_param("perm", 0) ? (k * 2 + 1) % n : k; double x = -X + i; double v = A + Bc * x; if (dirac) v = sym::D(sym::idx("y", i), -3, 3); if (k == 2) s += "# comment\n"; s += sym::num(x) + " " + sym::num(v) + "\n"; y.push_back(v); }
  sym::puttext("f.dat", s);
  const char *o[] = {"", "-p", "-n", "-a", "-f"}; std::vector<std::string> a{"integ"}; if (sym_param("verbose", 0)) a.push_back("-v"); if (mode == 4) { a.push_back("-T"); a.push_back("0.3"); } if (mode) a.push_back(o[mode]); a.push_back("f.dat");
  int rc = sym::run(sym_tool_main, a); sym::check(sym::ok(rc), "valid input is processed");
  std::string out = sym::slurp("<stdout>");
  if (dirac) { // arbitrary data: partition identities from the verbose report
    auto get = [&](const char *k) { auto p = out.find(k); std::istringstream q(out.substr(p + strlen(k))); std::string w; q >> w; return atof(w.c_str()); };
    double t = get("\nTotal="), p = get("Positive="), ng = get("Negative="), ab = get("Total|f|="), fd = get("weighted=");
    sym::close(p + ng, t, "the positive and the negative part add up to the total", 3e-5);
    sym::check(ab >= t - 1e-4 && ab >= -t - 1e-4, "the integral of |f| bounds the integral of f"); (void)fd;
    double hi = y[0] > 0, all = 1; for (double v : y) if (!(v >= 0)) all = 0; (void)hi; if (all == 1) sym::close(ab, t, "for a non-negative linear interpolant |f| integrates to the total", 1e9);
    return;
  }
  auto r = sym::rows(out); sym::check(r.size() >= 1 && r.back().size() == 1, "one number on the last line"); if (r.empty()) return; double v = r.back()[0];
  sym::check(sym::precise(out.substr(out.rfind('\n', out.size() - 2) + 1), 15), "result carries full precision");
  double tot = 2 * A * X, hp = A * X + Bc * X * X / 2, hn = A * X - Bc * X * X / 2;
  if (mode == 0) sym::close(v, tot, "total integral", 1e-6);
  if (mode == 1) sym::close(v, hp, "integral over the positive half axis", 1e-6);
  if (mode == 2) sym::close(v, hn, "integral over the negative half axis", 1e-6);
  if (mode == 3) { if (sgn) sym::close(v, tot, "integral of |f| of a positive function", 1e-6); sym::check(v >= tot - 1e-6 && v >= -tot - 1e-6, "integral of |f| bounds the integral of f"); }
  if (mode == 4) { if (sgn == 2) sym::close(v, A * X, "Fermi weighting of an even function gives half of the total", 1e-6); else { if (Bc > 0.01) sym::check(v < A * X + 1e-6, "Fermi function weights negative energies"); if (Bc < -0.01) sym::check(v > A * X - 1e-6, "Fermi function weights negative energies "); } }
}
