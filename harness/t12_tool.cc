// hilb tool: the ways to call it agree with the closed form for a tabulated linear density of states
#include "sym.h"
#include "hilb/hilb.cc"
using C = std::complex<double>;
extern "C" void harness() {
  int mode = sym_param("mode", 1), G = sym_param("G", 0), shift = sym_param("shift", 0), bethe = sym_param("bethe", 0); double A = bethe ? 1 : sym::D("A", 1, 3), Bc = bethe ? 0 : sym::D("B", -0.4, 0.4), f = bethe ? 2.0 : 1;
  std::string s; for (int i = 0; i < 5; i++) { int j = sym_param("perm", 0) ? (3 * i + 2) % 5 : i; double x = -2 + j; s += sym::num(x) + " " + sym::num(A + Bc * x) + "\n"; } sym::puttext("dos", s);
  auto ref = [&](C z, double &re, double &im) { if (bethe) { C q = z / f; C r = std::sqrt(C(1 - q.real() * q.real() + q.imag() * q.imag(), -2 * q.real() * q.imag())); C gg = 2.0 * C(q.real() + r.imag() , q.imag() - r.real()) / f; re = gg.real(); im = gg.imag(); return; } C I0 = std::log((z + 2.0) / (z - 2.0)), I1 = z * I0 - 4.0; re = A * I0.real() + Bc * I1.real(); im = A * I0.imag() + Bc * I1.imag(); };
  std::vector<std::string> a{"hilb"}; if (bethe == 1) { a.push_back("-B"); a.push_back("2"); } if (bethe == 2) { a.push_back("-s"); a.push_back("0.5"); } if (!bethe) { a.push_back("-d"); a.push_back("dos"); } if (G) a.push_back("-G"); if (shift) { a.push_back("-x"); a.push_back("0.5"); a.push_back("-y"); a.push_back("0.25"); }
  double dx = shift ? 0.5 : 0, dy = shift ? 0.25 : 0, re, im, tol = bethe ? 2e-4 : 1e-5; std::string num; 
  if (mode == 1) {
    a.push_back("-o"); a.push_back("out"); a.push_back("0.25"); a.push_back("1.5"); int rc = sym::run(sym_tool_main, a); sym::check(sym::ok(rc), "valid input is processed"); ref(C(0.25 + dx, 1.5 + dy), re, im);
    std::string o = sym::slurp("out"); sym::check(sym::precise(o, 15), "output carries full precision"); for (char &c : o) if (c == '(' || c == ')' || c == ',') c = ' '; auto t = sym::rows(o);
    sym::check(t.size() == 1 && t[0].size() == (G ? 2u : 1u), "one line"); if (t.size() != 1 || t[0].size() != (G ? 2u : 1u)) return; if (G) sym::close(t[0][0], re, "real part", tol); sym::close(t[0][G], im, "imaginary part", tol);
  } else if (mode == 2) {
    static const double q[3][3] = {{1, 0.25, 1.5}, {7, -1, 2}, {3, 3, 1}}; std::string l; for (auto &r : q) l += sym::num(r[0]) + " " + sym::num(r[1]) + " " + sym::num(r[2]) + "\n"; sym::puttext("pts", l); a.push_back("pts");
    int rc = sym::run(sym_tool_main, a); sym::check(sym::ok(rc), "valid input is processed"); auto t = sym::rows(sym::slurp("<stdout>")); sym::check(t.size() == 3, "one line per input line"); if (t.size() != 3) return;
    for (int i = 0; i < 3; i++) { sym::check(t[i].size() == (G ? 3u : 2u), "columns"); if (t[i].size() != (G ? 3u : 2u)) return; ref(C(q[i][1] + dx, q[i][2] + dy), re, im); sym::close(t[i][0], q[i][0], "label kept"); if (G) sym::close(t[i][1], re, "real part", tol); sym::close(t[i][1 + G], im, "imaginary part", tol); }
  } else {
    static const double q[3][3] = {{-1, 0.25, -1.5}, {0.5, -1, -2}, {2, 0.5, -1}}; std::string l, m; for (auto &r : q) { l += sym::num(r[0]) + " " + sym::num(r[1]) + "\n"; m += sym::num(r[0]) + " " + sym::num(r[2]) + "\n"; } sym::puttext("rs", l); sym::puttext("is", m); for (auto k : {"rs", "is", "ra", "ia"}) a.push_back(k);
    int rc = sym::run(sym_tool_main, a); sym::check(sym::ok(rc), "valid input is processed"); auto t = sym::table("ra"), u = sym::table("ia"); sym::check(t.size() == 3 && u.size() == 3, "one line per frequency"); if (t.size() != 3 || u.size() != 3) return;
    for (int i = 0; i < 3; i++) { sym::check(t[i].size() == 2 && u[i].size() == 2, "two columns"); if (t[i].size() != 2 || u[i].size() != 2) return; ref(C(q[i][0] - q[i][1] + dx, -q[i][2] + dy), re, im); double k = G ? 1 : -1 / M_PI; sym::close(t[i][0], q[i][0], "frequency kept"); sym::close(u[i][0], q[i][0], "frequency kept"); sym::close(t[i][1], k * re, "local Green's function, real part", tol); sym::close(u[i][1], k * im, "local Green's function, imaginary part", tol); if (!G && !bethe) sym::check(u[i][1] >= 0, "spectral function non-negative"); }
  }
}
