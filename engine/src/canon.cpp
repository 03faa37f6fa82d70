// Canonical form of field expressions: rational functions over Q of the solver variables, with the squares of
// square-root variables replaced by their radicands. Every step is an identity on the current path (denominators
// are non-zero there), so the simplified term has the same value in every model.
#include "symx.h"
#include <gmpxx.h>
namespace {
typedef std::vector<std::pair<unsigned, unsigned>> Mon; // sorted (variable, exponent)
struct Big {}; // too large
struct Poly {
  std::map<Mon, mpq_class> t;
  bool zero() const { return t.empty(); }
  bool isConst() const { return t.empty() || (t.size() == 1 && t.begin()->first.empty()); }
  mpq_class c() const { return t.empty() ? mpq_class(0) : t.begin()->second; }
  void add(const Mon &m, const mpq_class &x) { if (x == 0) return; auto [it, n] = t.try_emplace(m, x); if (!n) { it->second += x; if (it->second == 0) t.erase(it); } if (t.size() > 600) throw Big(); }
};
Poly konst(const mpq_class &x) { Poly p; p.add({}, x); return p; }
Mon mmul(const Mon &a, const Mon &b) { Mon r; size_t i = 0, j = 0; while (i < a.size() || j < b.size()) { if (j == b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]); else if (i == a.size() || b[j].first < a[i].first) r.push_back(b[j++]); else { r.push_back({a[i].first, a[i].second + b[j].second}); i++; j++; } } return r; }
bool mdiv(const Mon &a, const Mon &b, Mon &r) { r.clear(); size_t j = 0; for (auto &x : a) { unsigned e = x.second; if (j < b.size() && b[j].first == x.first) { if (b[j].second > e) return false; e -= b[j].second; j++; } if (e) r.push_back({x.first, e}); } return j == b.size(); }
Poly padd(const Poly &a, const Poly &b, int s = 1) { Poly r = a; for (auto &x : b.t) r.add(x.first, s > 0 ? x.second : mpq_class(-x.second)); return r; }
Poly pmul(const Poly &a, const Poly &b) { if (a.t.size() * b.t.size() > 60000) throw Big(); Poly r; for (auto &x : a.t) for (auto &y : b.t) r.add(mmul(x.first, y.first), x.second * y.second); return r; }
// order for division: graded by map order is not a monomial order; compare lexicographically by exponent
bool mless(const Mon &a, const Mon &b) { unsigned da = 0, db = 0; for (auto &x : a) da += x.second; for (auto &x : b) db += x.second; if (da != db) return da < db; size_t i = 0, j = 0; while (i < a.size() && j < b.size()) { if (a[i].first != b[j].first) return a[i].first > b[j].first; if (a[i].second != b[j].second) return a[i].second < b[j].second; i++; j++; } return i == a.size() && j < b.size(); }
const Mon &lead(const Poly &p) { const Mon *m = &p.t.begin()->first; for (auto &x : p.t) if (mless(*m, x.first)) m = &x.first; return *m; }
bool pdiv(Poly a, const Poly &b, Poly &q) { // exact division
  q = Poly(); if (b.zero()) return false; Mon lb = lead(b); mpq_class cb = b.t.at(lb); int n = 0;
  while (!a.zero()) { Mon la = lead(a), m; if (!mdiv(la, lb, m) || ++n > 600) return false; mpq_class c = a.t.at(la) / cb; Poly t; t.add(m, c); q.add(m, c); a = padd(a, pmul(t, b), -1); }
  return true;
}
struct RF { Poly n, d; };
struct Canon {
  Exec &E; std::map<unsigned, RF> memo; static std::map<unsigned, z3::expr> *atoms; static std::map<unsigned, int> *root;
  std::map<unsigned, RF> radic;
  Canon(Exec &e) : E(e) { if (!atoms) { atoms = new std::map<unsigned, z3::expr>(); root = new std::map<unsigned, int>(); } }
  RF norm(Poly n, Poly d) {
    for (int it = 0; it < 200; it++) { // v^2 -> radicand
      unsigned hit = ~0u; for (auto *p : {&n, &d}) for (auto &x : p->t) for (auto &y : x.first) if (y.second > 1 && isRoot(y.first) && hit == ~0u) hit = y.first;
      if (hit == ~0u) break; RF r = rad(hit);
      auto red = [&](const Poly &p, Poly &out, Poly &den) { // p = A + B v^2 ... replaced once per power of two
        unsigned mx = 0; for (auto &x : p.t) for (auto &y : x.first) if (y.first == hit) mx = std::max(mx, y.second / 2);
        std::vector<Poly> rn{konst(1)}, rd{konst(1)}; for (unsigned i = 0; i < mx; i++) { rn.push_back(pmul(rn.back(), r.n)); rd.push_back(pmul(rd.back(), r.d)); }
        out = Poly(); den = rd[mx]; for (auto &x : p.t) { Mon m; unsigned k = 0; for (auto &y : x.first) if (y.first == hit) { k = y.second / 2; if (y.second & 1) m.push_back({y.first, 1}); } else m.push_back(y); Poly t; t.add(m, x.second); out = padd(out, pmul(t, pmul(rn[k], rd[mx - k]))); }
      };
      Poly n1, dn, d1, dd; red(n, n1, dn); red(d, d1, dd); n = pmul(n1, dd); d = pmul(d1, dn);
    }
    if (d.zero()) throw Big();
    if (n.zero()) return {Poly(), konst(1)};
    // monomial factors
    auto common = [](const Poly &p) { Mon m = p.t.begin()->first; for (auto &x : p.t) { Mon r; size_t j = 0; for (auto &y : m) { while (j < x.first.size() && x.first[j].first < y.first) j++; if (j < x.first.size() && x.first[j].first == y.first) r.push_back({y.first, std::min(y.second, x.first[j].second)}); } m = r; } return m; };
    auto scale = [](Poly &p, const Mon &m) { Poly r; for (auto &x : p.t) { Mon q; mdiv(x.first, m, q); r.add(q, x.second); } p = r; };
    Mon a = common(n), b = common(d), g; for (auto &x : a) for (auto &y : b) if (x.first == y.first) g.push_back({x.first, std::min(x.second, y.second)});
    if (!g.empty()) { scale(n, g); scale(d, g); }
    b = common(d); for (auto &y : b) if (isRoot(y.first)) { Poly v; v.add({{y.first, 1}}, 1); return norm(pmul(n, v), pmul(d, v)); }
    Poly q; if (!d.isConst() && pdiv(n, d, q)) { n = q; d = konst(1); } else if (!n.isConst() && !d.isConst() && pdiv(d, n, q)) { d = q; n = konst(1); }
    mpq_class c = d.t.at(lead(d)); if (c != 1) { for (auto &x : n.t) x.second /= c; for (auto &x : d.t) x.second /= c; }
    return {n, d};
  }
  bool isRoot(unsigned id) { auto it = root->find(id); return it != root->end() && it->second >= 0; }
  RF rad(unsigned id) { auto it = radic.find(id); if (it != radic.end()) return it->second; RF r = go(E.apps[root->at(id)].arg); radic[id] = r; return r; }
  RF atom(const z3::expr &e) { unsigned id = e.id(); atoms->emplace(id, e); if (!root->count(id)) { int k = -1; for (size_t i = 0; i < E.apps.size(); i++) if ((E.apps[i].f == "sqrt" || E.apps[i].f == "hypot") && E.apps[i].var.id() == id) k = i; (*root)[id] = k; } Poly p; p.add({{id, 1}}, 1); return {p, konst(1)}; }
  RF go(const z3::expr &e) {
    auto it = memo.find(e.id()); if (it != memo.end()) return it->second; RF r;
    if (e.is_numeral()) { mpq_class q(e.is_int() ? e.to_string() : Z3_get_numeral_string(*ZC, e)); q.canonicalize(); r = {konst(q), konst(1)}; }
    else if (e.is_app()) {
      auto k = e.decl().decl_kind(); unsigned n = e.num_args();
      if (k == Z3_OP_ADD || k == Z3_OP_SUB) { r = go(e.arg(0)); for (unsigned i = 1; i < n; i++) { RF x = go(e.arg(i)); int s = k == Z3_OP_ADD ? 1 : -1; Poly q, q2; if (r.d.t == x.d.t) r = norm(padd(r.n, x.n, s), r.d); else if (pdiv(r.d, x.d, q)) r = norm(padd(r.n, pmul(x.n, q), s), r.d); else if (pdiv(x.d, r.d, q)) r = norm(padd(pmul(r.n, q), x.n, s), x.d); else r = norm(padd(pmul(r.n, x.d), pmul(x.n, r.d), s), pmul(r.d, x.d)); } }
      else if (k == Z3_OP_UMINUS) { RF x = go(e.arg(0)); r = {padd(Poly(), x.n, -1), x.d}; }
      else if (k == Z3_OP_MUL) { r = go(e.arg(0)); for (unsigned i = 1; i < n; i++) { RF x = go(e.arg(i)); r = norm(pmul(r.n, x.n), pmul(r.d, x.d)); } }
      else if (k == Z3_OP_DIV) { RF x = go(e.arg(0)), y = go(e.arg(1)); if (y.n.zero()) throw Big(); r = norm(pmul(x.n, y.d), pmul(x.d, y.n)); }
      else if (k == Z3_OP_POWER && e.arg(1).is_numeral()) { int p = 0; try { p = e.arg(1).get_numeral_int(); } catch (...) { throw Big(); } if (p < 1 || p > 8) r = atom(e); else { RF x = go(e.arg(0)); r = x; for (int i = 1; i < p; i++) r = norm(pmul(r.n, x.n), pmul(r.d, x.d)); } }
      else r = atom(e);
    } else r = atom(e);
    memo[e.id()] = r; E.keep.push_back(e); return r;
  }
  z3::expr build(const Poly &p) {
    if (p.zero()) return ZC->real_val(0); z3::expr_vector v(*ZC);
    for (auto &x : p.t) { z3::expr_vector f(*ZC); if (x.second != 1 || x.first.empty()) f.push_back(ZC->real_val(x.second.get_str().c_str())); for (auto &y : x.first) for (unsigned k = 0; k < y.second; k++) f.push_back(atoms->at(y.first)); z3::expr m = f[0]; if (f.size() > 1) { std::vector<Z3_ast> as; for (unsigned i = 0; i < f.size(); i++) as.push_back(f[i]); m = z3::expr(*ZC, Z3_mk_mul(*ZC, as.size(), as.data())); } v.push_back(m); }
    return v.size() == 1 ? v[0] : z3::sum(v);
  }
};
std::map<unsigned, z3::expr> *Canon::atoms; std::map<unsigned, int> *Canon::root;
}
Val Exec::canon(const Val &v) {
  if (v.k != K_SYM || !v.e().is_real()) return v;
  try { Canon c(*this); RF r = c.go(v.e()); if (r.n.t.size() + r.d.t.size() > 300) return v;
    if (r.n.isConst() && r.d.isConst()) { mpq_class q = r.n.c() / r.d.c(); double d = q.get_d(); if (mpq_class(d) == q) return mkDbl(d); return mkReal(ZC->real_val(q.get_str().c_str())); }
    expr n = c.build(r.n); if (r.d.isConst() && r.d.c() == 1) return mkReal(n); return mkReal(n / c.build(r.d)); }
  catch (Big &) { if (getenv("SYMX_CANON")) fprintf(stderr, "canon: too big: %s\n", v.e().to_string().substr(0, 300).c_str()); return v; }
}
// sqrt of c^2 m^2 (a single monomial): |c m|
Val Exec::canonSqrt(const Val &v, bool &ok) {
  ok = false; if (v.k != K_SYM) return v;
  try { Canon c(*this); RF r = c.go(v.e()); if (r.n.t.size() != 1 || r.d.t.size() != 1) return v; Poly out[2]; int k = 0;
    for (auto *p : {&r.n, &r.d}) { mpq_class q = p->t.begin()->second; if (q < 0) return v; mpz_class a, b; if (!mpz_perfect_square_p(q.get_num_mpz_t()) || !mpz_perfect_square_p(q.get_den_mpz_t())) return v; a = sqrt(q.get_num()); b = sqrt(q.get_den()); Mon m; for (auto &x : p->t.begin()->first) { if (x.second % 2) return v; m.push_back({x.first, x.second / 2}); } out[k++].add(m, mpq_class(a, b)); }
    ok = true; expr e = c.build(out[0]); if (!(out[1].isConst() && out[1].c() == 1)) e = e / c.build(out[1]); if (e.is_numeral()) { double d; bool ex; if (numeralToDouble(e, d, &ex) && ex) return mkDbl(d); return mkReal(e); } return fabsV(mkReal(e)); }
  catch (Big &) { ok = false; return v; }
}
