// mats: truncated or missing raw files are refused
#include "sym.h"
#include "mats/mats.cc"
extern "C" void harness() {
  int m = sym::C("mode", 1, 3), nc = m == 1 ? 1 : 2, bad = sym::C("bad_z", 1, 2), what = sym::C("what", 0, 4), nrec = sym::C("records", 0, 2), bytes = sym::C("extra_bytes", 1, 8 * (nc + 1) - 1);
  if (what != 1) sym_assume(bytes == 1);
  for (int z = 1; z <= 2; z++) {
    std::string d = std::to_string(z); sym::mkdir(d);
    if (z == bad && what == 0) continue;
    std::vector<double> v; for (int i = 0; i < nrec * (nc + 1); i++) v.push_back(sym::D(sym::idx("v" + d + "_", i), -1, 1));
    sym::putbin(d + "/raw.bin", v);
    if (z == bad && what == 1) { std::ofstream o(d + "/raw.bin", std::ios::binary | std::ios::app); for (int i = 0; i < bytes; i++) o.put('x'); }
  }
  std::vector<std::string> args{"mats"}; if (m == 2) args.push_back("-2"); if (m == 3) args.push_back("-3");
  for (auto x : {"raw.bin", what == 4 ? "0" : "2", what == 2 ? "0" : "0.5", what == 3 ? "0" : "2"}) args.push_back(x);
  int rc = sym::run(sym_tool_main, args);
  sym::check(!sym::ok(rc) && rc < 4000, "a missing or truncated input or an invalid temperature, number of frequencies or of z values is refused"); sym::check(!sym::exists("spec.dat"), "no result is written when the input is refused");
}
