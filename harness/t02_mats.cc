// mats: Green's function on Matsubara frequencies
#include "zmerge.h"
#include "mats/mats.cc"
extern "C" void harness() {
  using namespace sym;
  int mode = sym_param("mode", 1), Nz_ = sym_param("Nz", 2), one_ = sym_param("one", 0), nm = sym_param("nmats", 2);
  int n[4] = {0, (int)sym_param("n1", 1), (int)sym_param("n2", 1), (int)sym_param("n3", 1)};
  auto args = zm::input("mats", mode, Nz_, one_, n);
  double T_ = D("T", 1e-3, 4);
  args.push_back("raw.bin"); args.push_back(std::to_string(Nz_)); args.push_back(sym::num(T_)); args.push_back(std::to_string(nm));
  int rc = sym::run(sym_tool_main, args);
  sym::check(sym::ok(rc), "valid input is processed");
  string txt = slurp("spec.dat"); auto t = sym::rows(txt);
  sym::check((int)t.size() == nm, "one line per requested Matsubara frequency");
  sym::check(sym::precise(txt, 15), "results are written at full precision");
  for (int i = 0; i < nm && i < (int)t.size(); i++) {
    sym::check(t[i].size() == 3, "three columns"); if (t[i].size() != 3) continue;
    double wn = M_PI * T_ * (2 * i + 1);
    sym::close(t[i][0], wn, "frequency is the fermionic Matsubara frequency");
    double re = 0, im = 0; for (size_t k = 0; k < zm::f.size(); k++) { double d = wn * wn + zm::f[k] * zm::f[k]; re += -zm::w[k] * zm::f[k] / d / Nz_; im += -zm::w[k] * wn / d / Nz_; }
    sym::close(t[i][1], re, "real part is the transform of the z-averaged spectrum"); sym::close(t[i][2], im, "imaginary part is the transform of the z-averaged spectrum");
  }
}
