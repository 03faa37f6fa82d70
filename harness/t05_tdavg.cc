// tdavg: z-averaging of thermodynamic tables stored as blocks of one file, with an optional reference
#include "sym.h"
#include "interp.h"
#include "tdavg/tdavg.cc"
extern "C" void harness() {
  int nz = sym_param("Nz", 2), nc = sym_param("cols", 2), ref = sym_param("ref", 0), fix = sym_param("fconst", 0), order = sym_param("desc", 1), cc = sym_param("copy", 0);
  std::vector<std::vector<Tab>> in(nz), rf(nz); std::vector<double> xs;
  for (int r = 0; r <= (ref ? 1 : 0); r++) {
    std::string s;
    for (int z = 1; z <= nz; z++) {
      int n = sym_param(((r ? "m" : "n") + std::to_string(z)).c_str(), 2); auto &T = r ? rf[z - 1] : in[z - 1]; T.resize(nc); s += "# first\n"; s += "# T c1 c2\n"; std::vector<std::string> L; double last = 0;
      for (int i = 0; i < n; i++) {
        double x = fix ? 0.5 + 0.25 * i + 0.1 * z + 0.03 * r : sym::D(sym::idx(r ? "u" : "t", z, i), 0.1, 3); if (!fix && i) sym::assume(x > last + 0.01); last = x;
        std::string l = sym::num(x); for (int c = 0; c < nc; c++) { double y = sym::D(sym::idx(r ? "r" : "v", 10 * z + c, i), -5, 5); T[c].push_back({x, y}); l += " " + sym::num(y); }
        if (!r) xs.push_back(x); L.push_back(l + "\n");
      }
      if (order) for (int i = n; i--;) s += L[i]; else for (auto &l : L) s += l;
    }
    sym::puttext(r ? (ref == 2 ? "td-ref.dat" : "zero.dat") : (ref == 2 ? "td.dat" : "x.dat"), s);
  }
  std::vector<std::string> a{"tdavg"}; if (cc) a.push_back("-c"); if (sym_param("verbose", 0)) { a.push_back("-v"); a.push_back("-V"); } if (ref != 2) a.push_back("x.dat"); if (ref == 1) a.push_back("zero.dat");
  int rc = sym::run(sym_tool_main, a); sym::check(sym::ok(rc), "valid input is processed");
  std::string out = sym::slurp(ref == 2 ? "td-avg.dat" : "x.dat.avg.dat"); auto t = sym::rows(out);
  sym::check(sym::precise(out, 15), "output carries full precision");
  if (cc) sym::check(out.substr(0, 10) == "# T c1 c2\n", "last header line copied"); else sym::check(out.find('#') == std::string::npos, "no header");
  sym::check(!t.empty(), "output written");
  for (auto &r : t) {
    sym::check((int)r.size() == nc + 1, "same columns as the input"); if ((int)r.size() != nc + 1) return;
    bool from = false; for (double x : xs) if (x - r[0] < 1e-12 && r[0] - x < 1e-12) from = true; sym::check(from, "every output temperature is an input temperature");
    for (int c = 0; c < nc; c++) { double s = 0; for (int z = 0; z < nz; z++) { s += lin(in[z][c], r[0]); if (ref) s -= lin(rf[z][c], r[0]); } sym::close(r[c + 1], s / nz, "output is the mean of the interpolated blocks minus the reference"); }
  }
  for (size_t i = 1; i < t.size(); i++) sym::check(t[i][0] > t[i - 1][0], "output temperatures strictly increasing");
  for (double x : xs) { bool f = false; for (auto &r : t) { double d = r[0] - x, e = 1.001e-6 * x; if (d <= e && d >= -e) f = true; } sym::check(f, "every input temperature is represented in the output"); }
}
