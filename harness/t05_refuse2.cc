// intavg: missing data sets, unreadable files and unusable numbers of data sets are refused
#include "sym.h"
#include "intavg/intavg.cc"
extern "C" void harness() {
  int what = sym::C("what", 0, 4), bad = sym::C("bad_z", 1, 2), nz = what == 1 ? 0 : what == 2 ? -3 : 2;
  for (int z = 1; z <= 2; z++) { sym::mkdir(std::to_string(z)); if (what == 0 && z == bad) continue; std::string s; for (int i = 0; i < 2; i++) s += sym::num(i + 0.1 * z) + " " + sym::num(sym::D(sym::idx("y", z, i), -1, 1)) + "\n"; sym::puttext(std::to_string(z) + "/a.dat", s); }
  std::vector<std::string> a{"intavg"}; if (nz < 0) a.push_back("--"); a.push_back("a.dat"); if (what != 3) a.push_back(std::to_string(nz));
  int rc = sym::run(sym_tool_main, a); if (what == 4) { sym::check(sym::ok(rc), "valid input is processed"); return; }
  sym::check(sym::refused(rc), "missing data sets and unusable numbers of data sets are refused"); sym::check(!sym::exists("a.dat"), "no result is written when the input is refused");
}
