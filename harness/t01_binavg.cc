// binavg: z-averaging of raw binary spectra
#include "sym.h"
#include <map>
#include <algorithm>
#include "binavg/binavg.cc"
using namespace sym;
static vector<double> f, w; // all records that count
static void make(const string &fn, const string &tag, int n, int ncol, int col) {
  vector<double> v;
  for (int i = 0; i < n; i++) { double x = D(idx("f" + tag + "_", i), -2, 2); v.push_back(x); f.push_back(x);
    for (int c = 1; c <= ncol; c++) { double y = D(idx("w" + tag + "_", i, c), -3, 3); v.push_back(y); if (c == col) w.push_back(y); } }
  putbin(fn, v);
}
extern "C" void harness() {
  int mode = sym_param("mode", 1), Nz = sym_param("Nz", 2), one = sym_param("one", 0), ncol = mode == 1 ? 1 : 2, col = mode == 3 ? 2 : 1;
  int n[4] = {0, (int)sym_param("n1", 2), (int)sym_param("n2", 1), (int)sym_param("n3", 1)};
  vector<string> args{"binavg"};
  if (mode == 2) args.push_back("-2"); if (mode == 3) args.push_back("-3"); if (one) args.push_back("-o"); if (sym_param("verbose", 0)) args.push_back("-v");
  args.push_back("raw.bin"); args.push_back(std::to_string(Nz));
  bool flat = one && Nz == 1;
  for (int z = 1; z <= Nz; z++) { string d = std::to_string(z); if (!flat) mkdir(d); make(flat ? "raw.bin" : d + "/raw.bin", d, n[z], ncol, col); }
  int rc = run(sym_tool_main, args);
  check(ok(rc), "a valid set of inputs is averaged");
  auto r = getbin(one ? "spec.bin" : "raw.bin");
  check(r.size() % 2 == 0, "output consists of (frequency, weight) pairs");
  size_t m = r.size() / 2;
  for (size_t j = 0; j + 1 < m; j++) check(r[2 * j] < r[2 * j + 2], "output frequencies are strictly increasing");
  for (size_t j = 0; j < m; j++) { double s = 0; bool any = false; for (size_t i = 0; i < f.size(); i++) if (f[i] == r[2 * j]) { s += w[i]; any = true; } check(any, "no frequency is invented"); close(r[2 * j + 1] * Nz, s, "weight at a frequency is the average over z of the input weight there"); }
  for (size_t i = 0; i < f.size(); i++) { bool any = false; for (size_t j = 0; j < m; j++) any |= f[i] == r[2 * j]; check(any, "no input frequency is lost"); }
}
