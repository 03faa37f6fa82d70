// adapt: unusable parameters, tables and command lines are refused
#include "sym.h"
#include "adapt/adapt.cc"
extern "C" void harness() {
  const int mode = sym_param("mode", 0); std::vector<std::string> cmd{"adapt"}; bool bad = true; std::string par = "[param]\nxmax=2\nxfine=1.5\ndx_fine=0.0625\ndx_fast=0.0625\noutputstep=0.5\nallowed_error=0.001\n"; const std::string tab = "0.5 1\n1 1\n-0.5 1\n-1 2\n"; bool file = true; std::string d = tab;
  if (mode == 0) { static const char *nm[] = {"Lambda", "xmax", "xfine", "outputstep", "max_abs"}; const int k = sym::C("which", 0, 4); const double v = sym::D("value", -3, 3); bad = k == 3 ? !(v <= 1) : k == 4 ? !(v > 0) : !(v > 1); sym::assume(bad); par += std::string(nm[k]) + "=" + sym::num(v) + "\n"; }
  else if (mode == 1) { const int n = sym::C("lines", 0, 2), neg = sym::C("neg", 0, 1), only = sym::C("other side only", 0, 1); const double y = sym::D("y", -2, -0.001), x = sym::D("x", 0.2, 0.4); d = only ? "" : n == 0 ? "" : n == 1 ? (sym::num(neg ? -x : x) + "\n") : sym::num(neg ? -x : x) + " " + sym::num(y) + "\n" + tab; if (only) { file = n > 0; d = neg ? "0.5 1\n1 1\n" : "-0.5 1\n-1 1\n"; } if (neg) cmd.push_back("N"); }
  else if (mode == 2) { static const std::vector<std::vector<std::string>> v = {{"--flat"}, {"--flat=0"}, {"--flat=-1"}, {"--flat=1x"}, {"--flat", "inf"}, {"--flat="}, {"--flat", "1", "--flat=1"}, {"P", "N"}, {"-x"}, {"param", "other"}, {"nofile"}, {"--flat=nan"}}; for (auto &a : v[sym::C("command", 0, (int)v.size() - 1)]) cmd.push_back(a); }
  else if (mode == 3) { const double ts[] = {1e-10, 0.25}; par += "dx_fine=" + sym::num(ts[0]) + "\nmax_subdiv=" + std::to_string(sym::C("max_subdiv", 19, 40)) + "\n"; }
  else { par += "adapt=true\nloadg=true\n"; const int n = sym::C("rows", 0, 2); if (n) sym::puttext("GSOL.dat", n == 1 ? "2 1\n" : "# none\n"); } // mesh solution missing or too short
  if (file) sym::puttext("Delta.dat", d); sym::puttext("param", par);
  int rc = sym::run(sym_tool_main, cmd); sym::check(sym::refused(rc), "unusable parameters, tables and command lines are refused"); sym::check(!sym::exists("FSOL.dat") && !sym::exists("FSOLNEG.dat"), "no solution is written for refused input");
}
