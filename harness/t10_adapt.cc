// adapt: solutions of the discretisation equations for a tabulated hybridisation function
#include "sym.h"
#include "adapt/adapt.cc"
#include "interp.h"
// integral of the piecewise linear table from 0 to e, constant continuation at both ends
static double R(const Tab &t, double e) { double s = 0; if (e <= t[0].first) return t[0].second * e; s = t[0].second * t[0].first; for (size_t i = 1; i < t.size(); i++) { double a = t[i - 1].first, b = t[i].first, u = t[i - 1].second, v = t[i].second; if (e <= a) break; double h = e < b ? e : b; s += (h - a) * (u + (u + (v - u) * (h - a) / (b - a))) / 2; } if (e > t.back().first) s += (e - t.back().first) * t.back().second; return s; }
extern "C" void harness() {
  const int neg = sym_param("neg", 0), adaptive = sym_param("adapt", 0), shape = sym_param("shape", 0), sy = sym_param("sym", 0), order = sym_param("order", 0), gap = sym_param("gap", 0), flat = sym_param("flat", 0); const double Lam = sym_param("Lambda", 2), b = sym_param("b100", 100) / 100., xmax = sym_param("xmax", 4), out = 1. / sym_param("steps", 4), dx = 1. / sym_param("dx", 16), tol = 1. / sym_param("tol", 20000), bnd = gap ? 0.25 : 0;
  const double c = sym::D("amp", 0.1, 10), t = sy ? sym::D("shape", 0.5, 2) : 1;
  static const double X[4][4] = {{0.125, 0.5, 0.75, 1}, {0.0625, 0.25, 0.5, 1}, {0.2, 0.4, 0.9, 1.5}, {0.1, 0.3, 0.5, 0.8}}, Y[4][4] = {{1, 1, 1, 1}, {1, 1.5, 0.75, 1.25}, {0.5, 0.75, 1.25, 1}, {2, 1, 1, 1.5}};
  Tab r; std::string s = "# comment\n"; for (int i = 0; i < 4; i++) { const int k = order ? (i * 3 + 2) % 4 : i; s += sym::num((neg ? -1 : 1) * X[shape][k] * b) + " " + sym::num(c * Y[shape][k] * (k == sy - 1 ? t : 1)) + "\n"; if (i != 2) s += sym::num((neg ? 1 : -1) * (0.3 + 0.2 * i)) + " " + sym::num(c * (5 + i)) + " 7\n"; if (i == 1) s += "\n"; }
  for (int i = 0; i < 4; i++) r.push_back({X[shape][i], Y[shape][i] * (i == sy - 1 ? t : 1)}); // in units of c, rescaled to the band
  if (flat) for (auto &p : r) p.second = 1;
  if (!flat) sym::puttext(order ? "rho.dat" : "Delta.dat", s);
  std::string par = "[extra]\nLambda=7\n[param]\n# Lambda=5\n"; par += "Lambda = " + sym::num(Lam) + "\nbandrescale=" + sym::num(b) + "\nxmax=" + sym::num(xmax) + "\nxfine=" + sym::num(sym_param("fine", 0) ? 1.0625 : 2) + "\noutputstep=" + sym::num(out) + "\ndx_fine=" + sym::num(sym_param("fine", 0) ? 1. / sym_param("fine", 0) : dx) + "\ndx_fast=" + sym::num(dx) + "\nallowed_error=" + sym::num(1. / sym_param("err", 2000)) + "\n";
  if (order) par += "dos=rho.dat\n"; if (adaptive) par += "adapt=true\nsecant_eps=" + sym::num(1. / 4096) + "\nsecant_factor=0.015625\n"; if (adaptive == 2) par += "loadg=true\n"; if (gap) par += "hardgap=true\nboundary=" + sym::num(bnd) + "\n"; par += "\n[other]\nLambda=3\nadapt=" + std::string(adaptive ? "false" : "true") + "\n"; sym::puttext("param", par);
  const std::string gfn = neg ? "GSOLNEG.dat" : "GSOL.dat", ffn = neg ? "FSOLNEG.dat" : "FSOL.dat"; Tab g;
  if (adaptive == 2) { std::string w; for (int i = 0; i < 4; i++) { const double x = 2 + i * (xmax - 1) / 3, k = 1 + 0.25 * i; g.push_back({x, k}); w += sym::num(x) + " " + sym::num(k) + "\n"; } sym::puttext(gfn, w); }
  std::vector<std::string> cmd{"adapt"}; if (flat == 2) cmd.push_back("--flat=0.5"); if (flat == 1) { cmd.push_back("--flat"); cmd.push_back("2"); } if (neg) cmd.push_back(order ? "neg" : "N"); else if (order) cmd.push_back("p");
  int rc = sym::run(sym_tool_main, cmd); sym::check(sym::ok(rc), "valid input is processed"); if (!sym::ok(rc)) return;
  sym::check(!sym::exists(neg ? "FSOL.dat" : "FSOLNEG.dat"), "only the selected side is solved"); sym::check(sym::exists(gfn) == (adaptive > 0), "mesh solution is written in the adaptive mode"); sym::check(sym::precise(sym::slurp(ffn), 15), "tables carry full precision");
  if (adaptive == 1) { sym::check(sym::precise(sym::slurp(gfn), 15), "tables carry full precision"); auto tg = sym::table(gfn.c_str()); const int n = std::ceil((xmax - 2) / out) + 1; sym::check((int)tg.size() == n, "one row per output step"); if ((int)tg.size() != n) return; for (auto &q : tg) g.push_back({q[0], q[1]});
    auto e = [&](int i) { return g[i].second * std::pow(Lam, 2 - g[i].first); }; const double A = (R(r, 1) - R(r, e(n - 1))) / (1 - std::pow(Lam, 2 - g[n - 1].first)); sym::close(A, R(r, 1), "mesh exhausts the hybridisation function", 1e-3); sym::close(g[n - 1].second, A / r[0].second, "mesh solution approaches its asymptotic value", 1e-3);
    for (int i = 0; i < n; i++) { sym::close(g[i].first, 2 + i * out, "rows follow the output step", 1e-9); sym::close(R(r, 1) - R(r, e(i)), A * (1 - std::pow(Lam, 2 - g[i].first)), "mesh points divide the hybridisation function geometrically", tol); } }
  auto eps = [&](double x) { const double e = x <= 2 ? 1.0 : (adaptive ? lin(g, x) : 1.0) * std::pow(Lam, 2 - x); return gap ? (1 - bnd) * e + bnd : e; };
  auto F = sym::table(ffn.c_str()); const int n = std::ceil((xmax - 1) / out) + 1; sym::check((int)F.size() == n, "one row per output step"); if ((int)F.size() != n) return;
  double rhs = 0, e1 = 1e9; const int N = sym_param("panels", 16);
  for (int i = 0; i < n; i++) {
    sym::close(F[i][0], 1 + i * out, "rows follow the output step", 1e-9);
    if (i) { const double a = 1 + (i - 1) * out, h = out / N; for (int k = 0; k < N; k++) { auto q = [&](double x) { return R(r, eps(x)) - R(r, eps(x + 1)); }; rhs += h / 6 * (q(a + k * h) + 4 * q(a + (k + 0.5) * h) + q(a + (k + 1) * h)); } }
    const double E = F[i][1] * std::pow(Lam, 2 - F[i][0]); sym::check(E > 0 && E <= 1 && E < e1, "representative energies decrease"); e1 = E;
    sym::close(R(r, 1) - R(r, E), rhs, "representative energies share the hybridisation function as required", tol);
  }
}
