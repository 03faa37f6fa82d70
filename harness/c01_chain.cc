// A Wilson chain of a few sites with arbitrary coefficients: the block Hamiltonians assembled shell by shell are the
// quadratic Hamiltonian of the chain, whatever the symmetry used.
#include "chain.h"
extern "C" void harness() {
  Model m; Chain &c = m.c; Ref &R = m.R; const int nch = m.nch, nsite = m.nsite, ns = m.ns, lev = sym_param("moments", 4); auto o = [&](int a, int b, int s) { return m.o(a, b, s); };
  for (int n = 0; n < m.shells(); n++) m.add(n + 1 == m.shells());
  auto vac0 = [&](const std::string &nm) { return m.vac[Invar::names.at(nm)]; };
  // ---- moments of the many-body spectrum, multiplicities included
  const double sc = c.scale(); double dim = 0, m1 = 0, m2 = 0, m3 = 0, m4 = 0; std::map<std::string, double> q1, q2;
  for (auto &[I, h] : c.H) {
    const double g = c.Sym->mult(I); dim += g * h.rows(); SMat s = sparse(h), s2 = mul(s, s); const double t1 = tr(s), t2 = tr(s2); m1 += g * t1; m2 += g * t2; if (lev >= 3) m3 += g * dot(s2, s); if (lev >= 4) m4 += g * dot(s2, s2);
    for (auto &[nm, i] : Invar::names) { const int v = I.get(nm); double a = v; if (nm == "SS" || nm == "II" || nm == "II1" || nm == "II2" || nm == "JJ") { q2[nm] += g * (v * v - 1) / 12. * t2; continue; } if (nm == "T") { q2[nm] += g * v * (v + 1) / 3. * t2; continue; } if (Invar::qntype[i] != additive || nm == "x") continue; if (nm == "SSZ" || nm == "SZ") a = (v - vac0(nm)) / 2.0; if (ns == 1) a += nsite * (nm == "Q" ? nch : 1) / 2.0; q1[nm] += g * a * t1; q2[nm] += g * a * a * t2; }
  }
  if (sym_param("dump", 0)) { sym_dump("dim", dim); sym_dump("m1", m1); sym_dump("m2/dim", m2 * sc * sc / dim); sym_dump("k2", R.k2()); for (auto &[I, h] : c.H) { SMat s = sparse(h); sym_dump(I.name().c_str(), c.Sym->mult(I) * tr(mul(s, s))); } }
  sym::close(dim, std::pow(2.0, R.M), "the multiplets of a chain of n sites account for every many-body state"); if (dim != std::pow(2.0, R.M)) return;
  sym::close(m1 * sc / dim, 0, "Tr H"); sym::close(m2 * sc * sc / dim, R.k2(), "Tr H^2 of the chain"); if (lev >= 3) sym::close(m3 * sc * sc * sc / dim, 0, "Tr H^3"); if (lev >= 4) sym::close(m4 * sc * sc * sc * sc / dim, R.m4(), "Tr H^4 of the chain");
  for (auto &[nm, x] : q2) {
    std::vector<double> v(R.M); for (int n = 1; n <= nsite; n++) for (int ch = 0; ch < nch; ch++) for (int s = 0; s < ns; s++) { const double sz = s == 0 ? 0.5 : -0.5; const bool A = ch == 0; double w = 0;
      if (nm == "Q") w = 1; else if (nm == "SS" || nm == "SSZ" || nm == "SZ") w = sz; else if (nm == "II") w = 0.5; else if (nm == "Q1") w = A; else if (nm == "Q2") w = ch == 1; else if (nm == "Q3") w = ch == 2; else if (nm == "II1") w = A * 0.5; else if (nm == "II2") w = !A * 0.5; else if (nm == "T" || nm == "TZ") w = ch - 1; else if (nm == "JJ") { static const double j[6] = {0.5, -0.5, 1.5, 0.5, -0.5, -1.5}; w = j[ch * 2 + s]; }
      v[o(n, ch, s)] = w; }
    static std::map<std::string, std::pair<std::string, std::string>> lab; auto &L = lab[nm]; L = {"Tr " + nm + " H: quantum number " + nm, "Tr " + nm + "^2 H^2: quantum number " + nm};
    if (q1.count(nm)) sym::close(q1[nm] * sc / dim, R.vh(v), L.first.c_str());
    sym::close(x * sc * sc / dim, R.vv(v), L.second.c_str());
  }
}
