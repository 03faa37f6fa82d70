// hilb: Hilbert transform of a polynomial (complex) spectral function, against the closed form
#include "sym.h"
#include "hilb/hilb.cc"
using C = std::complex<double>;
extern "C" void harness() {
  double B = sym_param("B2", 0) ? 2.0 : 1.0; static const double zs[][2] = {{0.3, 2}, {-1.7, 0.5}, {0.4, -1.5}, {0.3, 1e-4}, {0.3, -1e-4}, {1.5 , 1e-4}, {-1.5, 1e-4}, {-0.2, 5e-4}, {1, 1e-4}, {-1, -2e-4}, {1, 0.25}, {0, -9e-4}};
  int k = sym_param("z", 0); double x = zs[k][0] * B, y = zs[k][1];
  double ar = sym::D("ar", -2, 2), br = sym::D("br", -2, 2), cr = sym::D("cr", -2, 2), ai = sym::D("ai", -2, 2), bi = sym::D("bi", -2, 2);
  auto rr = [&](double w) { return w < -B || w > B ? 0 : ar + br * w + cr * w * w; }; auto ri = [&](double w) { return w < -B || w > B ? 0 : ai + bi * w; };
  auto g = NRG::Hilb::hilbert_transform(rr, ri, B, C(x, y));
  C z(x, y), I0 = std::log((z + B) / (z - B)), I1 = z * I0 - 2 * B, I2 = z * I1;
  auto re = [&](double a, double b, double c, C &p0, C &p1, C &p2) { return a * p0.real() + b * p1.real() + c * p2.real(); };
  auto im = [&](double a, double b, double c, C &p0, C &p1, C &p2) { return a * p0.imag() + b * p1.imag() + c * p2.imag(); };
  double er = re(ar, br, cr, I0, I1, I2) - im(ai, bi, 0, I0, I1, I2), ei = im(ar, br, cr, I0, I1, I2) + re(ai, bi, 0, I0, I1, I2);
  if (k == 8 || k == 9) { // exactly at a band edge, singularity subtracted (see known_findings.json): nothing but the recorded value instead of the right one
    double qr = rr(x), qi = ri(x), dr = qr * I0.real() - qi * I0.imag(), di = qr * I0.imag() + qi * I0.real(), t = 1e-6;
    auto near = [&](double a, double b) { return a - b < t && b - a < t; };
    sym::check((near(g.real(), er) && near(g.imag(), ei)) || (near(g.real(), dr) && near(g.imag(), di)), "at a band edge: the integral of rho(E)/(z-E), or its subtracted part alone");
    sym::close(g.real(), er, "at a band edge, close to the real axis: the integral of rho(E)/(z-E)", 1e-5);
    sym::close(g.imag(), ei, "at a band edge, close to the real axis: the integral of rho(E)/(z-E)", 1e-5);
  } else {
  sym::close(g.real(), er, "real part equals the integral of rho(E)/(z-E)", 1e-5);
  sym::close(g.imag(), ei, "imaginary part equals the integral of rho(E)/(z-E)", 1e-5);
  }
  // conjugation symmetry for a real spectral function
  auto zero = [](double) { return 0.0; };
  auto g1 = NRG::Hilb::hilbert_transform(rr, zero, B, C(x, y)), g2 = NRG::Hilb::hilbert_transform(rr, zero, B, C(x, -y));
  sym::close(g1.real(), g2.real(), "G(z*) = G(z)* for a real spectral function", 1e-6); sym::close(g1.imag(), -g2.imag(), "G(z*) = G(z)* for a real spectral function", 1e-6);
}
