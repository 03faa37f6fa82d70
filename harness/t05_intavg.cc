// intavg: z-averaging of tabulated functions given on different meshes
#include "sym.h"
#include "interp.h"
#include "intavg/intavg.cc"
extern "C" void harness() {
  int nz = sym_param("Nz", 2), fix = sym_param("fconst", 0), rev = sym_param("zero", 0); std::vector<Tab> in; std::vector<double> xs;
  for (int z = 1; z <= nz; z++) {
    int n = sym_param(("n" + std::to_string(z)).c_str(), 2); Tab t; std::string s = "# comment\n";
    for (int i = 0; i < n; i++) {
      double x = fix ? -1 + (rev ? 1 : 0.7 + 0.3 * z) * i : sym::D(sym::idx("x", z, i), -3, 3), y = sym::D(sym::idx("y", z, i), -5, 5);
      if (!fix) { if (i) sym::assume(x > t.back().first + 0.01); if (sym_param("nozero", 1)) sym::assume(x > 0.001 || x < -0.001); }
      t.push_back({x, y}); xs.push_back(x); if (i == 1) s += "#another comment\n"; s += sym::num(x) + " " + sym::num(y) + "\n";
    }
    in.push_back(t); sym::mkdir(std::to_string(z)); sym::puttext(std::to_string(z) + "/a.dat", s);
  }
  std::vector<std::string> a{"intavg"}; if (sym_param("verbose", 0)) a.push_back("-v"); a.push_back("a.dat"); a.push_back(std::to_string(nz));
  int rc = sym::run(sym_tool_main, a); sym::check(sym::ok(rc), "valid input is processed");
  auto t = sym::table("a.dat");
  sym::check(sym::precise(sym::slurp("a.dat"), 15), "output carries full precision");
  sym::check(!t.empty(), "output written");
  for (auto &r : t) {
    sym::check(r.size() == 2, "two columns"); if (r.size() != 2) return;
    bool from = false; for (double x : xs) if (x - r[0] < 1e-12 && r[0] - x < 1e-12) from = true;
    sym::check(from, "every output abscissa is an input abscissa");
    double s = 0; for (auto &q : in) s += lin(q, r[0]);
    sym::close(r[1], s / nz, "output is the mean of the interpolated data sets");
  }
  for (size_t i = 1; i < t.size(); i++) sym::check(t[i][0] > t[i - 1][0], "output mesh strictly increasing");
  for (double x : xs) { bool f = false; for (auto &r : t) { double d = r[0] - x, e = 1.001e-6 * (x < 0 ? -x : x); if (d <= e && d >= -e) f = true; } sym::check(f, "every input abscissa is represented in the output"); }
}
