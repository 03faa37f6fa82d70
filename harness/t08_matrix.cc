// matrix: the calculator that turns coefficient files and expressions into numeric matrices
#include "sym.h"
typedef std::vector<double> vd;
static vd load(const char *fn, const char *n, int k, double lo, double hi) { vd v; std::string s; for (int i = 0; i < k; i++) { v.push_back(sym::D(sym::idx(n, i), lo, hi)); s += sym::num(v[i]) + "\n"; } sym::puttext(fn, s); return v; }
static double ap(int op, double a, double b) { return op == 0 ? a + b : op == 1 ? a - b : op == 2 ? a * b : a / b; }
static bool hi(int op) { return op >= 2; }
extern "C" void harness() {
  int mode = sym_param("mode", 0); std::vector<std::string> a{"matrix"}; std::string in; std::vector<vd> e; std::string pre; if (sym_param("pre", 0)) { a.push_back("-P"); pre = "="; } if (sym_param("verbose", 0)) { a.push_back("-v"); a.push_back("-V"); }
  if (mode == 0) { // operators, precedence, associativity, parentheses and signs on arbitrary operands
    load("theta.dat", "th", 1, 0.1, 9); vd x = load("xi.dat", "x", 3, 0.5, 3), z = load("zeta.dat", "z", 1, 0.5, 3); static const char o[] = "+-*/";
    int p = sym_param("op", 0) , q = sym::C("q", 0, 3), sh = sym::C("shape", 0, 3); std::string A = "coefxi[1,0]", B = "coefxi[1, 1]", C = "coefxi[1,2]"; double r = 0; bool neg = sh == 3;
    if (sh == 0 || sh == 3) { in = (neg ? "-" : "") + A + " " + o[p] + B + o[q] + " " + C; double a0 = neg ? -x[0] : x[0]; r = hi(q) && !hi(p) ? ap(p, a0, ap(q, x[1], x[2])) : ap(q, ap(p, a0, x[1]), x[2]); }
    if (sh == 1) { in = A + o[p] + "(" + B + o[q] + C + ")"; if (p == 3) sym::assume(ap(q, x[1], x[2]) > 0.1 || ap(q, x[1], x[2]) < -0.1); r = ap(p, x[0], ap(q, x[1], x[2])); }
    if (sh == 2) { in = "{-(" + A + o[p] + B + "),(" + C + "*coefzeta[1,0])}"; e.push_back({-ap(p, x[0], x[1]), x[2] * z[0]}); } else e.push_back({r});
    in += "\n";
  } else if (mode == 1) { // every coefficient reaches the matrix element it is named in; functions
    vd t = load("theta.dat", "th", 1, 0.1, 9), x = load("xi.dat", "x", 3, -3, 3), z = load("zeta.dat", "z", 3, -3, 3); int i = sym::C("i", 0, 2), j = sym::C("j", 0, 2); double u = sym::D("u", -2, 2), w = sym::D("w", 0.1, 2);
    sym::puttext("param", "[param]\nalpha=" + sym::num(w) + "\nmodel=SIAM\nbeta_1=" + sym::num(u) + "\n\n[extra]\nbeta=coefxi\n"); a.push_back("param");
    in = "# comment {\n{{coefzeta[1, " + std::to_string(i) + "],\n gammaPolCh[1]} , {beta_1*2, exp[beta_1]-log(alpha)+Sqrt[alpha]},\n{coefxi[1," + std::to_string(j) + "],-1.5e-1}}\n{beta_1,.5,3}\ngamma=2*alpha\n gamma*alpha\n";
    e = {{z[i], sqrt(t[0] / M_PI)}, {u * 2, exp(u) - log(w) + sqrt(w)}, {x[j], -0.15}, {u, 0.5, 3}, {2 * w * w}};
  } else if (mode == 2) { // channels
    int n = sym_param("nch", 2); a.push_back("-c"); a.push_back(std::to_string(n)); in = "{{"; std::vector<vd> m(3);
    for (int c = 1; c <= n; c++) { std::string k = std::to_string(c), s = k + ".dat"; vd t = load(("theta" + s).c_str(), ("t" + k).c_str(), 1, 0.1, 9), x = load(("xi" + s).c_str(), ("x" + k).c_str(), 2, -3, 3), z = load(("zeta" + s).c_str(), ("z" + k).c_str(), 2, -3, 3); m[0].push_back(sqrt(t[0] / M_PI)); m[1].push_back(x[c == 2]); m[2].push_back(z[c == 1]); }
    for (int r = 0; r < 3; r++) { for (int c = 1; c <= n; c++) in += (c > 1 ? "," : "") + std::string(r == 0 ? "gammaPolCh[" : r == 1 ? "coefxi[" : "coefzeta[") + std::to_string(c) + (r == 0 ? "]" : r == 1 ? (c == 2 ? ",1]" : ",0]") : (c == 1 ? ",1]" : ",0]")); in += r < 2 ? "},{" : "}}\n"; } e = m;
  } else { // superconducting bath: Nambu couplings, pairing terms
    a.push_back("-s"); vd v[4]; for (int k = 0; k < 4; k++) { std::string n = "V" + std::to_string(k / 2 + 1) + std::to_string(k % 2 + 1); v[k] = load((n + ".dat").c_str(), n.c_str(), 1, -3, 3); }
    vd x = load("xi.dat", "x", 2, -3, 3), z = load("zeta.dat", "z", 2, -3, 3), d = load("scdelta.dat", "d", 2, -3, 3), k = load("sckappa.dat", "k", 2, -3, 3); int i = sym::C("i", 0, 1); std::string I = "[1," + std::to_string(i) + "]";
    in = "{{coefV[1,1],coefV[1,2]},{coefV[2,1],coefV[2,2]}}\n{coefxi" + I + ",coefzeta" + I + ",coefdelta" + I + ",coefkappa" + I + "}\n"; e = {{v[0][0], v[1][0]}, {v[2][0], v[3][0]}, {x[i], z[i], d[i], k[i]}};
  }
  int split = sym_param("split", 0); size_t cut = split ? in.find("\n{") : std::string::npos; if (cut != std::string::npos && mode == 3) { sym::puttext("m1", in.substr(0, cut + 1)); sym::puttext("m2", in.substr(cut + 1)); a.push_back("m1"); a.push_back("m2"); } else { sym::puttext("mat", in); a.push_back("mat"); }
  int rc = sym::run(sym_tool_main, a); sym::check(sym::ok(rc), "valid input is processed"); std::string out = sym::slurp("<stdout>"); sym::check(sym::precise(out, 15), "output carries full precision");
  std::istringstream o(out); std::string l; size_t k = 0; while (std::getline(o, l)) { sym::check(k < e.size(), "one line per matrix row"); if (k >= e.size()) return; std::istringstream f(l); if (!pre.empty()) { std::string w; f >> w; sym::check(w == pre, "prefix on every line"); } double y; for (double x : e[k]) { if (!(f >> y)) { sym::check(false, "one number per element"); return; } sym::close(y, x, "element has the value of its expression"); } std::string rest; sym::check(!(f >> rest), "no extra text in a line"); k++; }
  sym::check(k == e.size(), "one line per matrix row");
}
