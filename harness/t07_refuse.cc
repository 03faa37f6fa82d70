// diag: only complete square matrices are accepted
#include "sym.h"
#include "diag/diag.cc"
extern "C" void harness() {
  int n = sym::C("n", 0, sym_param("max", 5)); std::string s; for (int i = 0; i < n; i++) s += sym::num(n == 4 && i == 2 ? 0.5 : n == 4 && i == 1 ? 0.5 : sym::D(sym::idx("a", i), -3, 3)) + (i % 2 ? "\n" : " ");
  sym::puttext("in", s); int rc = sym::run(sym_tool_main, {"diag", "-o", "val", "in"});
  if (n == 1 || n == 4) { sym::check(sym::ok(rc), "square matrices are processed"); sym::check(sym::exists("val"), "eigenvalues written"); }
  else { sym::check(sym::refused(rc), "input that is not a square matrix is refused"); sym::check(!sym::exists("val"), "no output for refused input"); }
}
