// kk: grids that are not symmetric are refused
#include "sym.h"
#include "kk/kk.cc"
extern "C" void harness() {
  int n = sym::C("n", 0, 8); if (n > 0 && n < 6) { if (n % 2 == 0) return; } int d = n == 6 || n == 8 ? sym::C("moved", -1, n - 1) : -1; double e = d >= 0 ? sym::D("shift", 0.001, 0.4) : 0;
  std::string s; for (int i = 0; i < n; i++) s += sym::num((n % 2 || i < n / 2 ? i - n / 2 : i - n / 2 + 1) + (i == d ? e : 0)) + " " + sym::num(sym::D(sym::idx("y", i), -1, 1)) + "\n";
  sym::puttext("a", s); int rc = sym::run(sym_tool_main, {"kk", "a", "b"});
  if (n == 0 || n % 2 || d >= 0) { sym::check(sym::refused(rc), "asymmetric, odd or empty grids are refused"); sym::check(sym::table("b").empty(), "no result is written"); }
  else sym::check(sym::ok(rc), "symmetric grids are accepted");
}
