// Operators carried along the chain: fermion operators of the first site (recalculated from shell to shell) and of the
// last site (calculated anew) have the commutator moments of the free-fermion chain; singlets are carried unchanged.
#include "chain.h"
typedef std::map<Twoinvar, SMat> OpMat;
static OpMat sp(const MatrixElements<S_> &m) { OpMat r; for (auto &[II, x] : m) if (x.rows() && x.cols()) r[II] = sparse(x); return r; }
static SMat sub(const SMat &a, const SMat &b) { SMat s(a.n, a.m); for (size_t i = 0; i < a.n; i++) { std::map<int, S_> t; for (auto &[j, x] : a.r[i]) t[j] += x; for (auto &[j, x] : b.r[i]) t[j] -= x; for (auto &[j, x] : t) if (nz(x)) s.r[i].push_back({j, x}); } return s; }
static const char *lab(const std::string &s) { static std::map<std::string, std::string> m; auto &x = m[s]; x = s; return x.c_str(); }
// a bilinear operator (1/2 Psi+ A Psi) + shift of the reference model: ||ad_B^k A||^2 / 8 = Tr [H,[H,..O]]^2 / dim
struct Bil { int M; std::vector<double> a; double shift = 0; bool imag = false; Bil(int m) : M(m), a(4 * m * m, 0.0) {}
  void n(int i, double x) { a[i * 2 * M + i] += x; a[(M + i) * 2 * M + M + i] -= x; }
  void hop(int i, int j, double x) { a[i * 2 * M + j] += x; a[(M + j) * 2 * M + M + i] -= x; }      // x c+_i c_j
  void pair(int i, int j, double x) { a[i * 2 * M + M + j] += x; a[j * 2 * M + M + i] -= x; }       // x c+_i c+_j
  void unpair(int i, int j, double x) { a[(M + j) * 2 * M + i] += x; a[(M + i) * 2 * M + j] -= x; } // x c_j c_i
  double norm() const { double t = 0; for (auto x : a) if (!sym_const_zero(x)) t += x * x; return t / 8; }
  double with(const Ref &R) const { double t = 0; for (size_t i = 0; i < a.size(); i++) if (!sym_const_zero(a[i])) t += a[i] * R.B[i]; return imag ? 0 : t / 8; }
  Bil ad(Ref &R) const { Bil r(M); auto s = R.sp(); const int D = 2 * M; for (int i = 0; i < D; i++) for (auto &[k, x] : s[i]) for (int j = 0; j < D; j++) { if (!sym_const_zero(a[k * D + j])) r.a[i * D + j] += x * a[k * D + j]; if (!sym_const_zero(a[j * D + i])) r.a[j * D + k] -= a[j * D + i] * x; } return r; }
};
static const char *gname[] = {"SZtot", "SXtot", "SYtot", "Qtot", "Iztot", "Ixtot", "Iytot", "Iptot", "Imtot", "Qdiff", "Q1", "Q2", "N1", "N2", "N3", "Q1u", "Q1d", "Q1UP", "Q2UP", "Q1DO", "Q2DO"};
static Bil global(Model &m, int g) {
  Bil b(m.R.M); b.imag = g == 2 || g == 6;
  for (int n = 1; n <= m.nsite; n++) for (int ch = 0; ch < m.nch; ch++) { const double sg = n % 2 ? -1 : 1; auto o = [&](int s) { return m.o(n, ch, s); };
    auto num = [&](double u, double d) { b.n(o(0), u); if (m.ns == 2) b.n(o(1), d); };
    switch (g) {
      case 0: num(0.5, -0.5); break;
      case 1: b.hop(o(0), o(1), 0.5); b.hop(o(1), o(0), 0.5); break;
      case 2: b.hop(o(0), o(1), 0.5); b.hop(o(1), o(0), -0.5); break;
      case 3: num(1, 1); break;
      case 4: num(0.5, 0.5); break;
      case 5: b.pair(o(0), o(1), sg / 2); b.unpair(o(0), o(1), sg / 2); break;
      case 6: b.pair(o(0), o(1), sg / 2); b.unpair(o(0), o(1), -sg / 2); break;
      case 7: b.pair(o(0), o(1), sg); break;
      case 8: b.unpair(o(0), o(1), sg); break;
      case 9: num(ch == 0 ? -1 : ch == 1, ch == 0 ? -1 : ch == 1); break;
      case 10: case 11: if (ch == g - 10) num(1, 1); break;
      case 12: case 13: case 14: if (ch == g - 12) num(1, 1); break;
      case 15: case 17: case 18: if (ch == (g == 18)) num(1, 0); break;
      case 16: case 19: case 20: if (ch == (g == 20)) num(0, 1); break;
    } }
  return b;
}
extern "C" void harness() {
  Model m; Chain &c = m.c; Ref &R = m.R; const int nsite = m.nsite, nch = m.nch, M = R.M, lev = sym_param("ops", 3), mode = sym_param("mode", 3), first = c.P.substeps ? nch - 1 : 0, quad = sym_param("quad", -1);
  Opch<S_> d; MatrixElements<S_> Hs, tri, orb; std::map<int, MatrixElements<S_>> gl; const int sz0 = Invar::names.count("SSZ") ? c.diag.begin()->first.get("SSZ") : Invar::names.count("SZ") ? c.diag.begin()->first.get("SZ") : 0, glb = sym_param("gl", 0);
  for (int g = 0; g < 21; g++) if (glb >> g & 1) for (auto &[I, e] : c.diag) gl[g][{I, I}] = Mat::Zero(1, 1); double sc1 = 1;
  for (int n = 0; n < m.shells(); n++) {
    m.add(n + 1 == m.shells());
    if (n > first && mode & 1) for (int k = 0; k < sym_param("dch", nch); k++) for (auto &x : d[k]) x = k == quad ? c.Sym->recalc_quadruplet(c.diag, c.sub, x) : c.Sym->recalc_doublet(c.diag, c.sub, x);
    if (n > first && mode & 2) Hs = c.Sym->recalc_singlet(c.diag, c.sub, Hs, 1);
    if (n > first && mode & 4) tri = c.Sym->recalc_triplet(c.diag, c.sub, tri);
    if (n > first && mode & 16) orb = c.Sym->recalc_orb_triplet(c.diag, c.sub, orb);
    if (n == first && mode & 16) for (auto &[I, h] : c.H) { const double t = I.get("T"); orb[{I, I}] = Mat::Identity(h.rows(), h.rows()) * std::sqrt(t * (t + 1)); }
    for (auto &[g, x] : gl) { x = c.Sym->recalc_singlet(c.diag, c.sub, x, 1); c.Sym->recalc_global(*c.step, c.diag, gname[g], x); }
    if (n == first && mode & 4) for (auto &[I, h] : c.H) tri[{I, I}] = Mat::Identity(h.rows(), h.rows()) * (Invar::names.count("SS") ? std::sqrt(I.get("SS") * I.get("SS") - 1.0) / 2 : (I.get(Invar::names.count("SSZ") ? "SSZ" : "SZ") - sz0) / 2.0); // the total spin of the first site
    if (n == first) { d = c.opch; sc1 = c.scale(); for (auto &[I, h] : c.H) Hs[{I, I}] = h; }
  }
  const double sc = c.scale(); double dim = 0; std::map<Invar, SMat> H; for (auto &[I, h] : c.H) { SMat s = sparse(h); for (auto &r : s.r) for (auto &[j, x] : r) x *= sc; H[I] = s; dim += c.Sym->mult(I) * h.rows(); }
  sym::close(dim, std::pow(2.0, M), "all many-body states");
  auto L = [&](const OpMat &o) { OpMat r; for (auto &[II, x] : o) r[II] = sub(mul(H.at(II.first), x), mul(x, H.at(II.second))); return r; };
  if (mode & 1) {
    const int per = c.P.perchannel; const bool field = c.Sym->isfield() && per == 1, tz = Invar::names.count("TZ");
    struct O { std::string name; int ch, j; OpMat m[3]; bool last; }; std::vector<O> ops;
    for (int e = 0; e < 2; e++) for (int ch = 0; ch < nch; ch++) for (int j = 0; j < per; j++) { O o{e ? "fN" : "f1", ch, j, {}, bool(e)}; const int k0 = tz ? 0 : ch; o.m[0] = sp(e ? c.opch[k0][j] : d[k0][j]); 
      if (sym_param("c3", 0)) for (auto it = o.m[0].begin(); it != o.m[0].end();) if (it->first.first.get("P") != it->first.second.get("P")) it = o.m[0].erase(it); else ++it; // the part with zero angular momentum about the axis
      if (tz) for (auto it = o.m[0].begin(); it != o.m[0].end();) if (it->first.first.get("TZ") - it->first.second.get("TZ") != 1 - ch || (Invar::names.count("SZ") && it->first.first.get("SZ") - it->first.second.get("SZ") != 1)) it = o.m[0].erase(it); else ++it; // the orbitals (and spins) are the components of one operator
      if (ch == quad) for (auto it = o.m[0].begin(); it != o.m[0].end();) if (!c.Sym->triangle_inequality(it->first.first, it->first.second, Invar(1, 4))) { for (auto &r : it->second.r) for (auto &[k, x] : r) sym::close(re(x), 0, "a quadruplet operator obeys the triangle rule"); it = o.m[0].erase(it); } else ++it;
      if (c.opch[k0][j].empty() || (e ? ch >= sym_param("nch", nch) : ch >= sym_param("dch", nch))) continue; // NONE: creation operators only
      for (int k = 1; k <= (lev + 1) / 2; k++) o.m[k] = L(o.m[k - 1]); ops.push_back(o); }
    for (auto &a : ops) for (auto &b : ops) { if (a.last > b.last) continue; if (!sym_param("all", 1) && (a.ch != b.ch || a.j != b.j)) continue;
      for (int spin = field ? -1 : 0; spin <= (field ? 1 : 0); spin += 2) for (int n = 0; n <= lev; n++) {
        double t = 0; for (auto &[II, x] : a.m[n / 2]) { auto it = b.m[n - n / 2].find(II); if (it == b.m[n - n / 2].end()) continue; if (field && !c.Sym->check_SPIN(II.first, II.second, spin)) continue; t += (a.ch == quad ? c.Sym->specdensquad_factor(II.second, II.first) : c.Sym->specdens_factor(II.second, II.first)) * dot(x, it->second); }
        auto ix = [&](const O &o, int ch) { const int site = o.last ? nsite : 1; int s = field ? spin < 0 : per == 1 ? 0 : per == 2 ? o.j : (o.j % 2 == 0); return m.o(site, ch, s) + (per == 4 && o.j >= 2 ? M : 0); };
        auto vec = [&](const O &o) { std::vector<std::pair<int, double>> v; if (sym_param("c3", 0)) for (int ch = 0; ch < 3; ch++) v.push_back({ix(o, ch), 1.0 / 3}); else if (!o.last && sym_param("lr", 0)) for (int ch = 0; ch < 2; ch++) v.push_back({ix(o, ch), 0.5}); else v.push_back({ix(o, o.ch), 1}); return v; }; // left-right parity: only the even part is carried along
        double e = 0; for (auto &[i, x] : vec(a)) for (auto &[j, y] : vec(b)) e += x * y * R.bn(i, j, n);
        e = e / 2 * (a.last != b.last && sym_param("gauge", 0) && nsite % 2 == 0 ? -1 : 1); // gauge: f_n -> (-1)^n f_n 
        if (sym_param("dump", 0)) { sym_dump((a.name + std::to_string(a.ch) + std::to_string(a.j) + " " + b.name + std::to_string(b.ch) + std::to_string(b.j) + " spin" + std::to_string(spin) + " n" + std::to_string(n) + " got").c_str(), t / dim); sym_dump("      exp", e); continue; }
        sym::close(t / dim, e, lab("moment " + std::to_string(n) + " of <" + a.name + ";" + b.name + ">"));
      } }
  }
  if (mode & 2) { // the Hamiltonian of the first site, carried as a singlet operator
    double oh = 0, oo = 0; Ref A(M); for (int i = 0; i < 2 * M; i++) for (int j = 0; j < 2 * M; j++) { auto in = [&](int x) { return x % M < nch * m.ns; }; if (in(i) && in(j)) A.b(i, j) = R.b(i, j); }
    auto o = sp(Hs); for (auto &[II, x] : o) { const double g = c.Sym->mult(II.first); sym::check(II.first == II.second, "a singlet operator is diagonal in the quantum numbers"); oh += g * sc1 * dot(x, H.at(II.first)); oo += g * sc1 * sc1 * dot(x, x); }
    double eh = 0, eo = 0; for (int i = 0; i < 2 * M; i++) for (int j = 0; j < 2 * M; j++) { eh += A.b(i, j) * R.b(i, j); eo += A.b(i, j) * A.b(i, j); }
    sym::close(oh / dim, eh / 8, "Tr H1 H of a singlet operator carried to the next shell"); sym::close(oo / dim, eo / 8, "Tr H1^2 of a singlet operator carried to the next shell");
  }
  for (int w : {4, 16}) if (mode & w) { // <S_z; S_z> and <T_z; T_z> of the first site
    Bil A(M); const bool sz = w == 4; for (int ch = 0; ch < nch; ch++) for (int t = 0; t < 2; t++) A.n(m.o(1, ch, t), sz ? (t ? -0.5 : 0.5) : 1 - ch);
    auto o = sp(sz ? tri : orb); for (int k = 0; k <= lev / 2; k++) { double t = 0; for (auto &[II, x] : o) t += (sz ? c.Sym->dynamicsusceptibility_factor(II.second, II.first) : c.Sym->dynamic_orb_susceptibility_factor(II.second, II.first)) * dot(x, x);
      if (sym_param("dump", 0)) { sym_dump(((sz ? "Sz k=" : "Tz k=") + std::to_string(k) + " got").c_str(), t / dim); sym_dump("      exp", A.norm()); } else sym::close(t / dim, A.norm(), lab("moment " + std::to_string(2 * k) + (sz ? " of the spin of the first site" : " of the orbital moment of the first site")));
      if (k < lev / 2) { o = L(o); A = A.ad(R); } }
  }
  for (auto &[g, x] : gl) { Bil A = global(m, g); auto o = sp(x); double oh = 0, o1 = 0; 
    for (auto &[II, y] : o) { sym::check(II.first == II.second, "a global operator is diagonal in the quantum numbers"); oh += c.Sym->mult(II.first) * dot(y, H.at(II.first)); o1 += c.Sym->mult(II.first) * tr(y); }
    auto cmp = [&](double a, double b, const std::string &l) { if (sym_param("dump", 0)) { sym_dump((std::string(gname[g]) + " " + l + " got").c_str(), a); sym_dump("      exp", b); } else sym::close(a, b, lab(l + " of the global operator " + gname[g])); };
    double sh = m.ns == 1 ? (g == 3 ? -m.nch * m.nsite / 2.0 : g >= 12 ? -m.nsite / 2.0 : 0) : g >= 10 && g != 15 && g != 16 ? (g >= 15 ? 1 : m.ns) * m.nsite / 2.0 : 0; cmp(o1 / dim, sh, "trace"); cmp(oh / dim, A.with(R), "overlap with H");
    for (int k = 0; k <= lev / 2; k++) { double t = 0; for (auto &[II, y] : o) t += c.Sym->mult(II.first) * dot(y, y); cmp(t / dim, A.norm() + (k ? 0 : sh * sh), "moment " + std::to_string(2 * k)); if (k < lev / 2) { o = L(o); A = A.ad(R); } }
  }
}
