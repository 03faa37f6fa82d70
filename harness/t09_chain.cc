// nrgchain: tridiagonalisation of tabulated star coefficients
#include "sym.h"
#include "nrgchain/nrgchain.cc"
extern "C" void harness() {
  int M = sym_param("mMAX", 1), N = sym_param("Nmax", 1), var = sym_param("var", 0), resc = sym_param("rescalexi", 0); double b = sym_param("bsym", 0) ? sym::D("bandrescale", 0.5, 4) : 1, z = 1, Lam = 2; int n = 2 * (M + 1);
  // star geometry: first the positive, then the negative branch
  static const double W[4][6] = {{0.6, 0.48, 0.64, 0}, {}, {1, 2, 2, 4}, {1, 0.5, 2, 0.75, 1, 0.25}}; static const double E0[6] = {1, 0.25, 0.125, 0.75, 0.375, 0.0625}; double w[6], e[6]; static const char *fu[2] = {"du_pos.dat", "du_neg.dat"}, *fe[2] = {"de_pos.dat", "de_neg.dat"};
  for (int q = 0; q < 2; q++) { std::string u, v; for (int m = 0; m <= M; m++) { int k = q * (M + 1) + m; w[k] = var == 1 ? (k != 1 ? 1.0 : sym::D(sym::idx("u", k), 0.25, 2)) : W[var][k]; e[k] = var == 1 || (var >= 2 && k) || (var == 0 && k > 1) ? E0[k] : sym::D(sym::idx("e", k), 0.1, 2); u += sym::num(w[k]) + "\n"; v += "# c\n" + sym::num(e[k]) + "\n"; if (q) e[k] = -e[k]; } sym::puttext(fu[q], u); sym::puttext(fe[q], v); }
  double nrm = 0; for (int k = 0; k < n; k++) nrm += w[k] * w[k];
  for (int k = 0; k < n; k++) for (int j = 0; j < k; j++) if (w[k] != 0 && w[j] != 0) sym::assume(e[k] - e[j] > 0.05 || e[j] - e[k] > 0.05);
  sym::puttext("param", "[param]\nLambda=2\nz=1\nmMAX=" + std::to_string(M) + "\nNmax=" + std::to_string(N) + "\nbandrescale=" + sym::num(b) + (resc ? "\nrescalexi=true" : "") + "\n");
  int rc = sym::run(sym_tool_main, {"nrgchain", "l"}); sym::check(sym::ok(rc), "valid input is processed");
  auto X = sym::table("xi.dat"), Z = sym::table("zeta.dat"); sym::check((int)X.size() == N + 1 && (int)Z.size() == N + 1, "one coefficient per chain site"); if ((int)X.size() != N + 1 || (int)Z.size() != N + 1) return; sym::check(sym::precise(sym::slurp("xi.dat"), 15) && sym::precise(sym::slurp("zeta.dat"), 15), "coefficients carry full precision");
  double x[3], zt[3]; for (int k = 0; k <= N; k++) { double sc = resc ? (1 - 1 / Lam) / std::log(Lam) * std::pow(Lam, -k / 2.0 + 1 - z) : 1; x[k] = X[k][0] * sc; zt[k] = Z[k][0]; sym::check(x[k] > 0, "hopping constants are positive"); }
  // the chain reproduces the moments of the star: <f|H^k|f>
  double m[6]; for (int p = 1; p <= 5; p++) { m[p] = 0; for (int k = 0; k < n; k++) { double t = w[k] * w[k] / nrm; for (int i = 0; i < p; i++) t *= e[k] * b; m[p] += t; } }
  double x2 = x[0] * x[0]; sym::close(zt[0], m[1], "first moment of the spectral function of the first site", 1e-6); sym::close(x2 + zt[0] * zt[0], m[2], "second moment of the spectral function of the first site", 1e-6);
  if (N >= 1) sym::close(zt[0] * (zt[0] * zt[0] + 2 * x2) + x2 * zt[1], m[3], "third moment of the spectral function of the first site", 1e-6);
  if (N >= 1 && sym_param("m4", 1)) { double a = zt[0] * zt[0] + x2, c = x[0] * (zt[0] + zt[1]), d = x[0] * x[1]; sym::close(a * a + c * c + d * d, m[4], "fourth moment of the spectral function of the first site", 1e-6); }
}
