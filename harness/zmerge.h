// raw binary spectra for several z: writes the files and keeps the records the tool should use
#pragma once
#include "sym.h"
namespace zm {
using namespace sym;
static vector<double> f, w;
static double FR = 2;
static void make(const string &fn, const string &tag, int n, int ncol, int col) {
  vector<double> v;
  for (int i = 0; i < n; i++) { double x = sym_param("fconst", 0) ? -1.5 + 0.75 * f.size() : D(idx("f" + tag + "_", i), -FR, FR); v.push_back(x); f.push_back(x);
    for (int c = 1; c <= ncol; c++) { double y = sym_param("wconst", 0) ? 0.5 + 0.25 * (w.size() % 3) : D(idx("w" + tag + "_", i, c), -3, 3); v.push_back(y); if (c == col) w.push_back(y); } }
  putbin(fn, v);
}
static vector<string> input(const string &prog, int mode, int Nz, int one, int *n) {
  int ncol = mode == 1 ? 1 : 2, col = mode == 3 ? 2 : 1; vector<string> args{prog};
  if (mode == 2) args.push_back("-2"); if (mode == 3) args.push_back("-3"); if (one) args.push_back("-o"); if (sym_param("verbose", 0)) args.push_back("-v");
  bool flat = one && Nz == 1;
  for (int z = 1; z <= Nz; z++) { string d = std::to_string(z); if (!flat) mkdir(d); make(flat ? "raw.bin" : d + "/raw.bin", d, n[z], ncol, col); }
  return args;
}
}
