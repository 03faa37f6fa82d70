// binavg: malformed input sets are refused and nothing is written
#include "sym.h"
#include <map>
#include <algorithm>
#include "binavg/binavg.cc"
using namespace sym;
extern "C" void harness() {
  int mode = C("mode", 1, 3), ncol = mode == 1 ? 1 : 2, bad = C("bad_z", 1, 2), what = C("what", 0, 4), nrec = C("records", 0, 2), bytes = C("extra_bytes", 1, 8 * (ncol + 1) - 1);
  if (what != 1) sym_assume(bytes == 1);
  for (int z = 1; z <= 2; z++) {
    string d = std::to_string(z); mkdir(d);
    if (z == bad && what == 0) continue; // missing file
    vector<double> v; for (int i = 0; i < nrec * (ncol + 1); i++) v.push_back(D(idx("v" + d + "_", i), -1, 1));
    putbin(d + "/raw.bin", v);
    if (z == bad && what == 1) { std::ofstream o(d + "/raw.bin", std::ios::binary | std::ios::app); for (int i = 0; i < bytes; i++) o.put('x'); }
  }
  vector<string> args{"binavg"}; if (mode == 2) args.push_back("-2"); if (mode == 3) args.push_back("-3"); args.push_back("raw.bin");
  if (what < 4) args.push_back(what == 2 ? "3" : what == 3 ? "0" : "2"); // 2: third directory does not exist, 3: no data sets, 4: argument missing
  int rc = run(sym_tool_main, args);
  check(!ok(rc) && rc < 4000, "a missing or truncated input is refused"); check(!exists("raw.bin"), "no result is written when an input is refused");
}
