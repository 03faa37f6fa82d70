// matrix: references outside the tabulated coefficients and missing files are refused
#include "sym.h"
extern "C" void harness() {
  int mode = sym_param("mode", 0), nx = 2, nz = 1; std::vector<std::string> a{"matrix"};
  if (mode == 0) {
    sym::puttext("theta.dat", "1\n"); sym::puttext("xi.dat", "1\n2\n"); sym::puttext("zeta.dat", "3\n"); int what = sym::C("what", 0, 2), ch = sym::C("ch", 0, 2), i = sym::C("i", 0, 4);
    sym::puttext("mat", "{" + std::string(what == 0 ? "coefxi" : what == 1 ? "coefzeta" : "gammaPolCh") + "[" + std::to_string(ch) + (what < 2 ? "," + std::to_string(i) : "") + "]}\n"); a.push_back("mat");
    bool good = ch == 1 && (what == 2 || i < (what == 0 ? nx : nz)); int rc = sym::run(sym_tool_main, a); sym::check(good ? sym::ok(rc) : sym::refused(rc), "a coefficient that is not in the tables is refused"); if (!good) { auto t = sym::rows(sym::slurp("<stdout>")); sym::check(t.empty(), "no value is made up for a missing coefficient"); }
  } else if (mode == 1) {
    a.push_back("-s"); for (int k = 0; k < 4; k++) sym::puttext("V" + std::to_string(k / 2 + 1) + std::to_string(k % 2 + 1) + ".dat", "1\n"); sym::puttext("xi.dat", "1\n2\n"); sym::puttext("zeta.dat", "3\n"); sym::puttext("scdelta.dat", "1\n"); sym::puttext("sckappa.dat", "1\n2\n3\n");
    int what = sym::C("what", 0, 2), p = sym::C("p", 0, 3), q = sym::C("q", 0, 3); sym::puttext("mat", "{" + std::string(what == 0 ? "coefV" : what == 1 ? "coefdelta" : "coefkappa") + "[" + std::to_string(p) + "," + std::to_string(q) + "]}\n"); a.push_back("mat");
    bool good = what == 0 ? p >= 1 && p <= 2 && q >= 1 && q <= 2 : p == 1 && q < (what == 1 ? 1 : 3); int rc = sym::run(sym_tool_main, a); sym::check(good ? sym::ok(rc) : sym::refused(rc), "a coefficient that is not in the tables is refused");
  } else {
    int miss = sym::C("missing", 0, 3); static const char *f[4] = {"theta.dat", "xi.dat", "zeta.dat", "mat"}; for (int k = 0; k < 4; k++) if (k != miss) sym::puttext(f[k], k == 3 ? "{1}\n" : "1\n"); a.push_back("mat"); sym::check(sym::refused(sym::run(sym_tool_main, a)), "a missing file is refused"); sym::check(sym::rows(sym::slurp("<stdout>")).empty(), "nothing is written when a file is missing");
  }
}
