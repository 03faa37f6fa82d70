// specmoments: truncated or missing raw files are refused
#include "sym.h"
#include "specmoments/specmoments.cc"
extern "C" void harness() {
  int bad = sym::C("bad_z", 1, 2), what = sym::C("what", 0, 3), nrec = sym::C("records", 0, 2), bytes = sym::C("extra_bytes", 1, 15);
  if (what != 1) sym_assume(bytes == 1);
  for (int z = 1; z <= 2; z++) {
    std::string d = std::to_string(z); sym::mkdir(d);
    if (z == bad && what == 0) continue;
    std::vector<double> v; for (int i = 0; i < nrec * 2; i++) v.push_back(what == 2 && i % 2 ? 0.0 : sym::D(sym::idx("v" + d + "_", i), -1, 1));
    sym::putbin(d + "/raw.bin", v);
    if (z == bad && what == 1) { std::ofstream o(d + "/raw.bin", std::ios::binary | std::ios::app); for (int i = 0; i < bytes; i++) o.put('x'); }
  }
  std::vector<std::string> a{"specmoments"}; if (what == 2) a.push_back("-c"); a.push_back("raw.bin"); a.push_back(what == 3 ? "0" : "2"); int rc = sym::run(sym_tool_main, a);
  sym::check(!sym::ok(rc) && rc < 4000, "missing or truncated input, no data sets, and central moments of zero weight are refused");
}
