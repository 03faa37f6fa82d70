// nrgchain: discretisation coefficients of a tabulated hybridisation function
#include "sym.h"
#include "nrgchain/nrgchain.cc"
typedef std::vector<std::pair<double, double>> T;
// integral of the piecewise linear table from 0 to e, constant continuation at both ends
static double I(const T &t, double e) { double s = 0; if (e <= t[0].first) return t[0].second * e; s = t[0].second * t[0].first; for (size_t i = 1; i < t.size(); i++) { double a = t[i - 1].first, b = t[i].first, u = t[i - 1].second, v = t[i].second; if (e <= a) break; double h = e < b ? e : b; s += (h - a) * (u + (u + (v - u) * (h - a) / (b - a))) / 2; } if (e > t.back().first) s += (e - t.back().first) * t.back().second; return s; }
static double L(const T &t, double x) { if (x <= t[0].first) return t[0].second; for (size_t i = 1; i < t.size(); i++) if (x < t[i].first) return t[i - 1].second + (t[i].second - t[i - 1].second) * (x - t[i - 1].first) / (t[i].first - t[i - 1].first); return t.back().second; }
extern "C" void harness() {
  int M = sym_param("mMAX", 1), adaptive = sym_param("adapt", 0), flat = sym_param("flat", 0); double z = sym_param("z100", 100) / 100., b = sym_param("b", 1), Lam = sym_param("Lambda", 2); T r[2], f[2], g[2]; std::string s;
  static const double X[2][3] = {{0.125, 0.5, 1}, {0.25, 0.75, 1}};
  double c = sym_param("amp", 1) ? sym::D("amp", 0.5, 2) : 1;
  for (int q = 0; q < 2 && !flat; q++) for (int i = 0; i < 3; i++) { double v = sym_param("amp", 1) ? c * (1 + 0.5 * ((i + q) % 2)) : sym::D(sym::idx(q ? "n" : "p", i), 0.5, 2); r[q].push_back({X[q][i], v * b}); s += sym::num((q ? -1 : 1) * X[q][i] * b) + " " + sym::num(v) + "\n"; }
  if (flat) r[0] = r[1] = {{1e-9, 0.5}, {1, 0.5}}; else sym::puttext("Delta.dat", s);
  for (int q = 0; q < 2 && !flat; q++) { std::string u, w; for (int i = 0; i < 4; i++) { double x = 1 + i * 1.5, v = sym::D(sym::idx(q ? "fn" : "fp", i), 0.3, 1), k = 1 + 0.125 * i * (q + 1); f[q].push_back({x, v}); u += sym::num(x) + " " + sym::num(v) + "\n"; g[q].push_back({x, k}); w += sym::num(x) + " " + sym::num(k) + "\n"; } sym::puttext(q ? "FSOLNEG.dat" : "FSOL.dat", u); if (adaptive) sym::puttext(q ? "GSOLNEG.dat" : "GSOL.dat", w); }
  sym::puttext("param", std::string("[param]\nLambda=") + sym::num(Lam) + "\nz=" + sym::num(z) + "\nmMAX=" + std::to_string(M) + "\nbandrescale=" + sym::num(b) + (adaptive ? "\nadapt=true" : "") + (flat ? "\nband=flat" : "") + "\n\n[other]\nz=0.3\n");
  int rc = sym::run(sym_tool_main, {"nrgchain", "s"}); sym::check(sym::ok(rc), "valid input is processed"); sym::check(!sym::exists("xi.dat"), "no chain is computed when only tables are requested");
  auto th = sym::table("theta.dat"); sym::check(th.size() == 1 && th[0].size() == 1, "one hybridisation weight"); if (th.size() != 1) return;
  auto eps = [&](int q, double x) { return x <= 2 ? 1.0 : (adaptive ? L(g[q], x) : 1.0) * std::pow(Lam, 2 - x); };
  double theta = 0; for (int q = 0; q < 2; q++) theta += I(r[q], eps(q, z + 1)) - I(r[q], eps(q, z + M + 2)); sym::close(th[0][0], theta, "hybridisation weight is the integral of the hybridisation function over the discretised band");
  sym::check(sym::precise(sym::slurp("theta.dat"), 15), "tables carry full precision"); double sum = 0;
  for (int q = 0; q < 2; q++) { auto u = sym::table(q ? "du_neg.dat" : "du_pos.dat"), e = sym::table(q ? "de_neg.dat" : "de_pos.dat"); sym::check((int)u.size() == M + 1 && (int)e.size() == M + 1, "one coefficient per interval"); if ((int)u.size() != M + 1 || (int)e.size() != M + 1) return; sym::check(sym::precise(sym::slurp(q ? "du_neg.dat" : "du_pos.dat"), 15) && sym::precise(sym::slurp(q ? "de_neg.dat" : "de_pos.dat"), 15), "tables carry full precision");
    for (int m = 0; m <= M; m++) { double x = z + m + 1, w = I(r[q], eps(q, x)) - I(r[q], eps(q, x + 1)); sum += u[m][0] * u[m][0]; sym::check(u[m][0] >= 0, "coefficients are non-negative"); sym::close(u[m][0] * u[m][0] * theta, w, "weight of an interval is the share of the hybridisation function in it", 1e-6); double ref = flat ? (std::floor(x) == 1 ? (1 - std::pow(Lam, -(x - 1))) / std::log(Lam) + 1 - (x - 1) : (1 - 1 / Lam) / std::log(Lam) * std::pow(Lam, 2 - x)) : L(f[q], x) * std::pow(Lam, 2 - x); sym::close(e[m][0], ref, "energy of an interval follows the discretisation solution"); } }
  sym::close(sum, 1, "coefficients are normalised", 1e-6);
}
