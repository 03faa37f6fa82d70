// Truncation of an NRG shell: energy references, repair of small splittings, choice of the states that are kept.
#include "core.h"
using namespace core;
extern "C" void harness() {
  Chain c; c.start("QS", 1, [](const Params &P) -> std::unique_ptr<Symmetry<S_>> { return std::make_unique<SYCLASS<S_>>(P); }, {0, 1}); auto &P = c.P; const int mode = sym_param("mode", 0), fixb = sym_param("fix", 0), kk = sym_param("keepall", 0), shell = sym_param("shell", 1), last = sym_param("last", 0);
  P.absolute = sym_param("absolute", 0) == 1; P.Nmax = last ? shell + 1 : 20; if (last == 2) P.lastall = true; c.step->set(shell); Step &st = *c.step;
  static const char *qn[] = {"0 1", "1 2", "0 3"}; static const int mul[] = {1, 2, 3}; int n[3] = {(int)sym_param("n0", 2), (int)sym_param("n1", 2), (int)sym_param("n2", 0)}, extra[3] = {(int)sym_param("x0", 0), (int)sym_param("x1", 0), 0};
  DiagInfo<S_> diag; std::vector<std::vector<double>> E(3); std::vector<Invar> In; int N = 0, all = 0;
  for (int s = 0; s < 3; s++) if (n[s]) {
    for (int i = 0; i < n[s]; i++) E[s].push_back(sym::D(sym::idx("e", s, i), -4, 4)); for (int i = 1; i < n[s]; i++) sym::assume(E[s][i] >= E[s][i - 1]);
    RawEigen<S_> raw; raw.val = E[s]; raw.vec = Mat::Identity(n[s], n[s] + extra[s]); std::istringstream f(qn[s]); Invar I; f >> I; In.push_back(I); diag[I] = ::NRG::Eigen<S_>(std::move(raw), st); N += n[s]; all += mul[s] * n[s];
  }
  if (mode == 2) { // ordering by a separate criterion (quasi-energies): levels, repaired levels and eigenvectors move together
    for (auto &[I, g] : diag) { g.values.set_corr(g.values.all_rel()); Mat m = Mat::Zero(g.getnrcomputed(), 2); for (size_t i = 0; i < g.getnrcomputed(); i++) { m(i, 0) = g.values.rel(i); g.values.set_crit(i, sym::D(sym::idx("c", i, I.get("SS")), -2, 2)); m(i, 1) = g.values.crit(i); } g.vectors.set(m); }
    const auto before = diag; diag.sort_by_c(); double clw = 1e9;
    for (auto &[I, g] : diag) { auto &b = before.at(I); for (size_t i = 0; i < g.getnrcomputed(); i++) { auto &v = g.values; sym::check(i == 0 || v.crit(i - 1) <= v.crit(i), "levels are ordered by the criterion"); clw = v.crit(i) < clw ? v.crit(i) : clw;
        sym::check(v.rel(i) == v.corr(i) && g.vectors()(i, 0) == v.rel(i) && g.vectors()(i, 1) == v.crit(i), "levels, repaired levels and eigenvectors move together"); int nb = 0, na = 0; for (size_t j = 0; j < g.getnrcomputed(); j++) { nb += b.values.rel(j) == v.rel(i) && b.values.crit(j) == v.crit(i); na += v.rel(j) == v.rel(i) && v.crit(j) == v.crit(i); } sym::check(na == nb, "no level is lost or duplicated by the ordering"); } }
    sym::close(diag.find_Clw(), clw, "the lowest value of the criterion"); const double sh = sym::D("shift", -1, 1); const auto d2 = diag; diag.shift(sh, clw);
    for (auto &[I, g] : diag) for (size_t i = 0; i < g.getnrcomputed(); i++) { auto &b = d2.at(I).values; sym::close(g.values.rel(i), b.rel(i) - sh, "shifted levels"); sym::close(g.values.corr(i), b.corr(i) - sh, "shifted levels"); sym::close(g.values.crit(i), b.crit(i) - clw, "shifted criterion"); }
    return;
  }
  // references
  const double eg = diag.find_Egs(); { bool is = false; for (auto &v : E) for (double e : v) { sym::check(eg <= e, "the reference is the lowest energy"); } for (auto &v : E) if (!v.empty()) is = is || eg == v[0]; sym::check(is, "the reference is one of the energies"); }
  diag.set_shift_Egs(eg);
  const double eps = fixb ? sym::D("fixeps", 0, 1) : 0; if (fixb == 2) sym::assume(eps > 0.1);
  Clusters<S_>{diag, eps, P};
  std::vector<double> raw, e; std::vector<int> sub; for (size_t s = 0; s < In.size(); s++) { auto &v = diag.at(In[s]).values; sym::check((int)v.size() == n[s] && (int)v.all_corr().size() == n[s] && (int)v.all_crit().size() == n[s], "every level has its repaired energy"); for (int i = 0; i < n[s]; i++) { raw.push_back(E[s][i] - eg); e.push_back(v.corr(i)); sub.push_back(s); sym::close(v.rel_zero(i), E[s][i] - eg, "energies measured from the ground state"); sym::check(v.crit(i) == v.corr(i), "levels are ordered by the repaired energy"); } }
  const double tol = 1e-9;
  for (int i = 0; i < N; i++) {
    sym::check(e[i] <= raw[i] && (e[i] > raw[i] - eps || e[i] == raw[i]), "the repair lowers a level by less than the threshold");
    for (int j = 0; j < N; j++) if (j != i) { if (fixb) { sym::check(!(raw[i] <= raw[j]) || e[i] <= e[j], "the repair keeps the order of the levels"); sym::check(!(raw[j] - raw[i] >= eps + tol) || e[j] > e[i], "levels further apart than the threshold stay distinct"); if (j > i) sym::check(e[i] == e[j] || e[i] - e[j] >= eps - tol || e[j] - e[i] >= eps - tol, "repaired levels coincide or differ by at least the threshold"); } }
  }
  if (mode == 1) return;
  // truncation
  const size_t keep = sym::I("keep", 2, N + 1), keepmin = sym_param("kmin", 0) ? sym::I("keepmin", 0, N + 1) : 0, smax = sym_param("sg", 0) ? sym::I("safeguardmax", 0, N) : 0; const double kE = sym_param("kE", 0) ? sym::D("keepenergy", 0.01, 4) : -1, sg = sym_param("sg", 0) ? sym::D("safeguard", -0.5, 1) : 0;
  if (kE > 0) sym::assume(keepmin <= keep); P.keep = keep; P.keepmin = keepmin; P.keepenergy = kE; P.safeguard = sg; P.safeguardmax = smax;
  static const char *ka[] = {"", "even", "odd", "1,3", "13"}; P.keepall = std::string(ka[kk]); const bool every = kk == 1 ? shell % 2 == 0 : kk == 2 ? shell % 2 == 1 : kk == 3 ? shell == 1 || shell == 3 : kk == 4 ? shell == 13 : false;
  bool few = false; int rc = sym::guard([&] { try { truncate_prepare(st, diag, c.Sym->multfnc(), P); } catch (NotEnough &) { few = true; } });
  sym::check(rc == 0, "a shell with at least one level can be truncated"); if (rc) return;
  std::vector<int> k; int cnt = 0, i0 = 0; double top = -1, bot = 1e9; bool none = true;
  std::vector<char> kept(N); for (size_t s = 0; s < In.size(); s++) { const int nk = diag.at(In[s]).getnrkept(); k.push_back(nk); cnt += nk; for (int i = 0; i < n[s]; i++, i0++) { kept[i0] = i < nk; if (i < nk) top = e[i0] > top ? e[i0] : top; else { bot = e[i0] < bot ? e[i0] : bot; none = false; } } }
  if (!few) { truncate_stats ts(diag, c.Sym->multfnc()); int want = 0, tot = 0, wantm = 0, totm = 0; for (size_t s = 0; s < In.size(); s++) { want += k[s]; wantm += mul[s] * k[s]; tot += n[s] + extra[s]; totm += mul[s] * (n[s] + extra[s]); } sym::check((int)ts.nrkept == want && (int)ts.nrall == tot && (int)ts.nrkeptmult == wantm && (int)ts.nrallmult == totm, "the numbers of kept states, with multiplicities"); }
  if (last == 2) { sym::check(cnt == N, "all states are kept in the last step on request"); return; }
  sym::check(cnt > 0, "at least one level is kept");
  sym::check(none || bot > top, "every kept level lies below every discarded level");
  if (every) sym::check(none, "steps on the keep-all list keep every level");
  else {
    // number of levels asked for
    int below = 0; for (double x : e) below += x <= kE * (P.absolute ? st.energyscale() : 1.0); size_t ask = keep;
    if (kE > 0) { ask = 1 + below; if (ask > keep) ask = keep; if (ask < keepmin) ask = keepmin; }
    sym::check((size_t)cnt >= ask || none, "at least the requested number of levels is kept");
    std::vector<double> s(e); std::sort(s.begin(), s.end());
    int ext = 0; for (int j = 1; j < cnt; j++) if ((size_t)j >= ask) { sym::check(s[j] - s[j - 1] <= (sg > 0 ? sg : 0) || (ask >= (size_t)N), "a level is added only next to a nearly degenerate one"); ext++; }
    int ties = 0; for (int j = 0; j < cnt; j++) ties += s[j] == s[cnt - 1];
    sym::check(sg > 0 ? (size_t)ext <= smax + ties - 1 : ext <= ties - 1, "no more additional levels than allowed");
    if (!none) sym::check(sg <= 0 || (size_t)ext >= smax || bot - top > sg, "levels are not cut inside a nearly degenerate group");
  }
  // missing levels
  bool miss = false; for (size_t s = 0, a = 0; s < In.size(); a += n[s], s++) if (extra[s] && k[s] == n[s] && e[a + n[s] - 1] < top) miss = true;
  sym::check(few == miss, "levels that were not computed and might have to be kept are reported");
  if (few) return;
  for (size_t s = 0, a = 0; s < In.size(); a += n[s], s++) { auto &g = diag.at(In[s]); g.U.resize(1); g.U.set(0, g.vectors()); sym::check((int)g.getnrdiscarded() == n[s] - k[s] && (int)g.getnrall() == n[s] && (int)g.getnrstored() == n[s], "counts before the truncation"); }
  diag.truncate_perform();
  for (size_t s = 0; s < In.size(); s++) { auto &g = diag.at(In[s]); sym::check((int)diag.size_subspace(In[s]) == k[s] && (int)g.U.get(0).rows() == k[s] && (int)g.U.get(0).cols() == n[s] + extra[s], "the stored block holds the kept states"); for (int i = 0; i < k[s]; i++) for (int j = 0; j < n[s] + extra[s]; j++) sym::check(g.U.get(0)(i, j) == (i == j), "the kept eigenvectors are unchanged"); sym::check((int)(g.Krange().size() + g.Drange().size()) == n[s] && (int)g.Krange().size() == (last ? 0 : k[s]), "kept and discarded states make up the shell"); }
}
