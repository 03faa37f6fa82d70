// specmoments: raw and central moments of z-averaged spectra
#include "zmerge.h"
#include "specmoments/specmoments.cc"
extern "C" void harness() {
  using namespace sym;
  int Nz_ = sym_param("Nz", 2), one_ = sym_param("one", 0), cent = sym_param("central", 0), filt = sym_param("filter", 0);
  int n[4] = {0, (int)sym_param("n1", 1), (int)sym_param("n2", 1), (int)sym_param("n3", 1)};
  auto args = zm::input("specmoments", 1, Nz_, one_, n);
  double lo = 0, hi = 1e300;
  if (filt & 1) { lo = D("low", 0, 2); args.push_back("-l"); args.push_back(sym::num(lo)); }
  if (filt & 2) { hi = D("high", 0, 2); args.push_back("-h"); args.push_back(sym::num(hi)); }
  if (filt & 4) args.push_back("-p"); if (filt & 8) args.push_back("-n"); if (cent) args.push_back("-c");
  args.push_back("raw.bin"); args.push_back(std::to_string(Nz_));
  double m[5] = {0, 0, 0, 0, 0}; vector<double> W;
  for (size_t k = 0; k < zm::f.size(); k++) { double x = zm::f[k], w = zm::w[k] / Nz_, a = x < 0 ? -x : x; if (a < lo || a > hi || (x < 0 && (filt & 4)) || (x > 0 && (filt & 8))) w = 0; W.push_back(w); m[0] += w; m[1] += w * x; m[2] += w * x * x; m[3] += w * x * x * x; m[4] += w * x * x * x * x; }
  if (cent) sym::assume(m[0] > 0.01 || m[0] < -0.01);
  int rc = sym::run(sym_tool_main, args);
  sym::check(sym::ok(rc), "valid input is processed");
  string txt = slurp("<stdout>"); auto t = sym::rows(txt);
  sym::check(t.size() == 1 && t[0].size() == 5, "one line with five numbers"); if (t.empty() || t.back().size() != 5) return;
  sym::check(sym::precise(txt, 15), "results are written at full precision");
  auto &r = t.back();
  if (!cent) { const char *l[] = {"moment 0", "moment 1", "moment 2", "moment 3", "moment 4"}; for (int k = 0; k < 5; k++) sym::close(r[k], m[k], l[k]); }
  else {
    sym::close(r[0], m[0], "total weight"); sym::close(r[1], m[1], "first moment");
    double mu = m[1] / m[0], c2 = 0, c3 = 0, c4 = 0; for (size_t k = 0; k < zm::f.size(); k++) { double d = zm::f[k] - mu; c2 += W[k] * d * d; c3 += W[k] * d * d * d; c4 += W[k] * d * d * d * d; }
    sym::close(r[2] * m[0], c2, "second central moment"); sym::close(r[3] * m[0], c3, "third central moment"); sym::close(r[4] * m[0], c4, "fourth central moment");
  }
}
