// diag: eigen decomposition of a symmetric matrix given as text
#include "sym.h"
#include "diag/diag.cc"
extern "C" void harness() {
  int n = sym_param("n", 2), bin = sym_param("bin", 0), sc = sym_param("scale", 0), rot = sym_param("rot", 0); double A[3][3] = {{0}};
  // a symmetric matrix with arbitrary eigenvalues and a rational orthogonal eigenbasis
  static const double R2[4][4] = {{1, 0, 0, 1}, {0.6, 0.8, -0.8, 0.6}, {-5 / 13., 12 / 13., 12 / 13., 5 / 13.}, {0, 1, 1, 0}};
  static const double R3[4][9] = {{1, 0, 0, 0, 1, 0, 0, 0, 1}, {1 / 3., 2 / 3., 2 / 3., 2 / 3., 1 / 3., -2 / 3., 2 / 3., -2 / 3., 1 / 3.}, {0.6, 0.8, 0, -0.8, 0.6, 0, 0, 0, 1}, {2 / 7., 3 / 7., 6 / 7., 3 / 7., -6 / 7., 2 / 7., 6 / 7., 2 / 7., -3 / 7.}};
  const double one[1] = {1}, *V = n == 1 ? one : n == 2 ? R2[rot] : R3[rot]; double lam[3], flam[3], f = sc == 1 ? 2 : sc == 2 ? 0.5 : 1; for (int k = 0; k < n; k++) { lam[k] = sym::D(sym::idx("lambda", k), -3, 3); flam[k] = f * lam[k]; }
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int k = 0; k < n; k++) A[i][j] += lam[k] * V[k * n + i] * V[k * n + j];
  sym_eig_oracle(n, lam, V); if (sc) sym_eig_oracle(n, flam, V);
  std::string s; for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) s += (j ? " " : "") + sym::num(A[i][j]); s += "\n"; }
  sym::puttext("in", s); std::vector<std::string> a{"diag", "-o", "val", "-O", "vec"}; if (bin) { a.push_back("-t"); a.push_back("-B"); } if (sym_param("quiet", 0)) a.push_back("-q"); if (sym_param("verbose", 0)) { a.push_back("-v"); a.push_back("-V"); } if (sc) { a.push_back("-s"); a.push_back(sym::num(f)); } a.push_back("in");
  int rc = sym::run(sym_tool_main, a); sym::check(sym::ok(rc), "valid input is processed");
  auto w = sym::table("val"); sym::check((int)w.size() == n, "one eigenvalue per dimension"); if ((int)w.size() != n) return; sym::check(sym::precise(sym::slurp("val"), 15), "eigenvalues carry full precision");
  std::vector<std::vector<double>> v;
  if (bin) {
    std::ifstream F("vec", std::ios::binary); unsigned d[2] = {9, 9}; F.read((char *)d, sizeof d); sym::check(F && d[0] == (unsigned)n && d[1] == (unsigned)n, "binary header holds the dimensions");
    for (int i = 0; i < n; i++) { v.emplace_back(n); F.read((char *)v[i].data(), n * 8); } sym::check(bool(F), "binary file complete"); char c; F.read(&c, 1); sym::check(!F, "no trailing bytes");
  } else { v = sym::table("vec"); sym::check(sym::precise(sym::slurp("vec"), 15), "eigenvectors carry full precision"); }
  sym::check((int)v.size() == n, "one eigenvector per dimension"); if ((int)v.size() != n) return;
  for (int k = 0; k < n; k++) {
    if ((int)w[k].size() != 1 || (int)v[k].size() != n) { sym::check(0, "shape of the output"); return; }
    double q = 0; for (int i = 0; i < n; i++) q += v[k][i] * v[k][i]; sym::close(q, 1, "eigenvectors are normalised");
    for (int i = 0; i < n; i++) { double y = 0; for (int j = 0; j < n; j++) y += A[i][j] * v[k][j]; sym::close(y * f, w[k][0] * v[k][i], "A v = lambda v (times the requested factor)"); }
    if (k) { sym::check(w[k - 1][0] <= w[k][0] + 1e-12, "eigenvalues ascending"); double o = 0; for (int i = 0; i < n; i++) o += v[k][i] * v[k - 1][i]; sym::close(o, 0, "eigenvectors are orthogonal"); }
  }
}
