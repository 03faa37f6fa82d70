// tdavg: inconsistent tables are refused
#include "sym.h"
#include "tdavg/tdavg.cc"
extern "C" void harness() {
  int c1 = sym::C("cols1", 0, 2), c2 = sym::C("cols2", 0, 2), br = sym::C("blocks_ref", 0, 2);
  auto row = [](int c, const char *n) { std::string s = sym::num(sym::D(n, 0.1, 1)); for (int i = 0; i < c; i++) s += " " + sym::num(sym::D(std::string(n) + std::to_string(i), -1, 1)); return s + "\n"; };
  sym::puttext("x.dat", "# h\n" + row(c1, "a") + row(c2, "b")); if (br) sym::puttext("r.dat", br == 1 ? "# h\n" + row(c1, "c") : "# h\n" + row(c1, "c") + "# h\n" + row(c1, "d"));
  std::vector<std::string> a{"tdavg", "x.dat"}; if (br) a.push_back("r.dat");
  int rc = sym::run(sym_tool_main, a);
  if (c1 != c2) sym::check(sym::refused(rc), "unequal numbers of columns are refused");
  else if (br == 2) sym::check(sym::refused(rc), "a reference with a different number of blocks is refused");
  else sym::check(sym::ok(rc), "consistent tables are processed");
}
