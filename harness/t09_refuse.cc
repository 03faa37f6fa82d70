// nrgchain: unusable parameters, tables and files are refused
#include "sym.h"
#include "nrgchain/nrgchain.cc"
extern "C" void harness() {
  int mode = sym_param("mode", 0);
  if (mode == 0) { // parameter ranges
    static const char *nm[] = {"Lambda", "z", "xmax", "mMAX", "preccpp", "Nmax"}; const int k = sym::C("which", 0, 5); double v; std::string t;
    if (k < 3) { v = sym::D("value", -3, 40); t = sym::num(v); } else { v = sym::C("count", -1, 12); t = std::to_string((int)v); }
    const bool bad = k == 0 ? !(v > 1) : k == 1 ? !(v > 0 && v <= 1) : k == 2 ? !(v >= 1) : k == 3 ? v <= 0 : k == 4 ? v <= 10 : v < 0; sym::assume(bad);
    sym::puttext("param", std::string("[param]\nband=flat\n") + (k == 3 ? "" : "mMAX=1\n") + nm[k] + "=" + t + "\n"); int rc = sym::run(sym_tool_main, {"nrgchain", "s"}); sym::check(sym::refused(rc), "parameters outside their range are refused"); sym::check(!sym::exists("theta.dat") && !sym::exists("du_pos.dat"), "nothing is written for refused parameters");
  } else if (mode == 3) { // the limits themselves are usable
    static const char *ok[] = {"Lambda=1.05\nz=1", "z=0.001", "xmax=1", "preccpp=11", "Lambda=40\nz=0.5"}; sym::puttext("param", std::string("[param]\nband=flat\nmMAX=1\n") + ok[sym::C("valid", 0, 4)] + "\n"); int rc = sym::run(sym_tool_main, {"nrgchain", "s"}); sym::check(sym::ok(rc) && sym::table("theta.dat").size() == 1, "parameters inside their range are accepted");
  } else if (mode == 1) { // stored tables that do not fit
    int M = 1; std::string f[4]; int which = sym::C("which", 0, 3), len = sym::C("len", 0, 3); static const char *fn[4] = {"de_pos.dat", "de_neg.dat", "du_pos.dat", "du_neg.dat"}; static const double v[4][2] = {{1, 0.5}, {0.75, 0.25}, {0.6, 0.48}, {0.6, 0.2}};
    for (int k = 0; k < 4; k++) { if (k == which && len == 3) continue; std::string s; for (int i = 0; i < (k == which ? len : 2); i++) s += sym::num(v[k][i]) + "\n"; sym::puttext(fn[k], s); }
    sym::puttext("param", "[param]\nmMAX=" + std::to_string(M) + "\nNmax=1\n"); int rc = sym::run(sym_tool_main, {"nrgchain", "l"}); sym::check(len == 2 ? sym::ok(rc) : sym::refused(rc), "tables shorter than the discretisation are refused");
  } else { // hybridisation function
    double y = sym::D("y", -2, 2), y2 = sym::D("y2", -2, 2); int neg = sym::C("neg", 0, 1), ff = sym::C("fsol", 0, 1); sym::puttext("Delta.dat", "0.5 " + sym::num(y) + "\n1 1\n" + (neg ? "-1 1\n-0.5 " + sym::num(y2) + "\n" : "")); for (auto n : {"FSOL.dat", "FSOLNEG.dat"}) if (ff || n[4] == '.') sym::puttext(n, "1 0.5\n4 0.6\n");
    sym::puttext("param", "[param]\nmMAX=1\n"); sym::assume(y < 0 || !neg || y2 < 0 || !ff); int rc = sym::run(sym_tool_main, {"nrgchain", "s"}); sym::check(sym::refused(rc), "an unusable hybridisation function is refused"); sym::check(!sym::exists("du_pos.dat"), "no tables are written for a refused hybridisation function");
  }
}
