// kk: Kramers-Kronig transformation on a symmetric grid
#include "sym.h"
#include "kk/kk.cc"
extern "C" void harness() {
  int n = sym_param("n", 6), mode = sym_param("mode", 0), st = sym_param("std", 0), perm = sym_param("perm", 0); std::vector<double> x, y; double X = n / 2;
  for (int i = 0; i < n; i++) x.push_back(i < n / 2 ? i - n / 2 : i - n / 2 + 1);
  double A = 0, Bc = 0;
  if (mode == 0) { A = sym::D("A", -3, 3); Bc = sym::D("B", -3, 3); for (double t : x) y.push_back(A + Bc * t); }
  else { y.resize(n); for (int i = n / 2; i < n; i++) { double v = sym::D(sym::idx("y", i), -3, 3); y[i] = v; y[n - 1 - i] = mode == 1 ? v : -v; } }
  std::string s = "# w im\n"; for (int k = 0; k < n; k++) { int i = perm ? (5 * k + 3) % n : k; if (k == 3) s += "# comment\n"; s += sym::num(x[i]) + " " + sym::num(y[i]) + "\n"; }
  sym::puttext(st ? "<stdin>" : "im.dat", s); int rc = st ? sym::run(sym_tool_main, {"kk", "-"}) : sym::run(sym_tool_main, {"kk", "im.dat", "re.dat"});
  sym::check(sym::ok(rc), "valid input is processed"); std::string out = sym::slurp(st ? "<stdout>" : "re.dat"); sym::check(sym::precise(out, 15), "output carries full precision");
  if (st) sym::check(out.find_first_of("Kk>=RS") == std::string::npos, "filter mode writes nothing but the table");
  auto r = sym::rows(out); sym::check((int)r.size() == n, "one output row per grid point"); if ((int)r.size() != n) return;
  for (int i = 0; i < n; i++) { sym::check(r[i].size() == 2, "two columns"); if (r[i].size() != 2) return; sym::close(r[i][0], x[i], "output on the sorted input grid"); }
  if (mode == 0) for (int i = 0; i < n; i++) { double z = x[i], e = 2 * Bc * X - (i == 0 || i == n - 1 ? 0 : 2 * (A + Bc * z) * atanh(z / X)); sym::close(r[i][1], e / M_PI, "principal value integral of a linear function", 1e-6); }
  else for (int i = 0; i < n; i++) sym::close(r[i][1], mode == 1 ? -r[n - 1 - i][1] : r[n - 1 - i][1], mode == 1 ? "even input gives odd output" : "odd input gives even output", 1e-6);
}
