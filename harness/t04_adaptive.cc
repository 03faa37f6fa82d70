// bw: adaptive widths - each stage of an iteration follows from the previous one (all of them written with -S)
#include "sym.h"
#include "bw/bw.cc"
static double kern(double E, double a, double w) { double g = log(E / w) / a - a / 4; return exp(-g * g) / (a * (E < 0 ? -E : E) * sqrt(M_PI)); }
typedef std::vector<std::vector<double>> Tb;
static bool two(const Tb &t, size_t n, const char *l) { bool ok = t.size() == n; for (auto &r : t) ok = ok && r.size() == 2; sym::check(ok, l); return ok; }
extern "C" void harness() {
  const int n = sym_param("n", 2), dyn = sym_param("dyn", 0), nit = sym_param("iter", 2); const double q = 0.5, B = 0.8, bm = sym_param("bmin10", 1) / 10.; sym::mkdir("1");
  static const double F[4] = {0.6, -0.75, 1.25, -0.3}; std::vector<double> v, f, w; const double s0 = sym_param("scale", 0) ? sym::D("weight", 0.5, 2) : 1;
  for (int i = 0; i < n; i++) { f.push_back(F[i]); w.push_back(sym_param("scale", 0) ? s0 * (1 + 0.375 * i) : sym::D(sym::idx("w", i), 0.1, 2)); v.push_back(f[i]); v.push_back(w[i]); }
  sym::putbin("1/raw.bin", v);
  std::vector<std::string> a{"bw", "-m", "0.25", "-M", "1", "-r", "2", "-n", std::to_string(nit), "-t", "0", "-q", sym::num(q), "-x", sym::num(bm), "-s", "-S"}; if (dyn) { a.push_back("-d"); a.push_back("0.05"); }
  for (auto x : {"raw.bin", "0.8", "1"}) a.push_back(x);
  int rc = sym::run(sym_tool_main, a); sym::check(sym::ok(rc), "valid input is processed"); std::vector<double> b(n, B);
  for (int it = 1; it <= nit; it++) {
    std::string k = std::to_string(it) + ".dat"; Tb A = sym::table("a" + k), I = sym::table("inta" + k), J = sym::table("intb" + k), K = sym::table("intc" + k), P = sym::table("bpos" + k), N = sym::table("bneg" + k), W = sym::table("b" + k); const size_t m = A.size();
    if (it == 1 || !dyn) sym::check(m == 6, "output on the whole mesh"); else sym::check(m >= 8, "the mesh is refined"); if (!two(A, m, "two columns")) return;
    for (size_t i = 1; i < m; i++) sym::check(A[i][0] > A[i - 1][0], "mesh in increasing order");
    for (size_t i = 0; i < m; i++) { double s = 0; for (int j = 0; j < n; j++) if ((f[j] < 0) == (A[i][0] < 0)) s += w[j] * kern(A[i][0], b[j], f[j]); sym::close(A[i][1], s, "spectrum of an iteration is broadened with the widths of the previous one", 1e-4); }
    if (!two(I, m, "integrated spectrum on the mesh") || !two(J, m, "integrated spectrum on the mesh") || !two(K, m, "integrated spectrum on the mesh") || !two(P, m, "widths on the mesh") || !two(N, m, "widths on the mesh") || !two(W, n, "a width for every peak")) return;
    double c = 0, z = 0; std::vector<double> C; for (size_t i = 0; i < m; i++) { if (i) c += (A[i][1] + A[i - 1][1]) * (A[i][0] - A[i - 1][0]) / 2; C.push_back(c); } for (size_t i = 1; i < m; i++) if (A[i - 1][0] < 0 && A[i][0] > 0) z = (C[i] + C[i - 1]) / 2;
    for (size_t i = 0; i < m; i++) { sym::close(I[i][1], C[i], "integral from below", 1e-4); sym::close(J[i][1], C[i] - z, "integral from zero", 1e-4); sym::close(K[i][1], C[m - 1] - C[i], "integral from above", 1e-4); }
    auto D = [&](const Tb &t, size_t i) { if (i == 0) return 0.0; double r = t[i][1] / t[i - 1][1]; if (sym_decide(t[i - 1][1] == 0) || sym_decide(!(r > 0))) return 0.0; double d = log(r) / log(A[i][0] / A[i - 1][0] < 0 ? -A[i][0] / A[i - 1][0] : A[i][0] / A[i - 1][0]); return d < 0 ? -d : d; };
    for (size_t i = 0; i < m; i++) {
      if (i && A[i][0] + A[i - 1][0] == 0) continue; // across zero the logarithmic derivative is not defined
      double da = D(I, i), db = D(J, i), dc = D(K, i);
      sym::close(P[i][1], B * q * (1 / (q + db) + 1 / (q + dc)) / 2, "width above zero from the logarithmic derivatives of the integrals from zero and from above", 1e-4);
      sym::close(N[i][1], B * q * (1 / (q + da) + 1 / (q + db)) / 2, "width below zero from the logarithmic derivatives of the integrals from below and from zero", 1e-4);
    }
    std::vector<double> bn(n); for (int j = 0; j < n; j++) { const Tb &t = f[j] < 0 ? N : P; double x = f[j], y = x <= A[0][0] ? t[0][1] : t[m - 1][1]; for (size_t i = 1; i < m; i++) if (A[i - 1][0] < x && x <= A[i][0]) y = t[i - 1][1] + (t[i][1] - t[i - 1][1]) * (x - A[i - 1][0]) / (A[i][0] - A[i - 1][0]); bn[j] = y > bm ? y : bm; }
    for (auto &r : W) for (int j = 0; j < n; j++) if (r[0] == f[j]) { sym::close(r[1], bn[j], "width of a peak interpolated at its frequency, not below the lower bound", 1e-4); b[j] = r[1]; }
  }
}
