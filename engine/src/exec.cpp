#include "symx.h"
#include <atomic>
#include <thread>
#include <llvm/Support/raw_ostream.h>
#include <fstream>
#include <unistd.h>
using namespace llvm;

std::string typeName(Type *t) { std::string r; raw_string_ostream os(r); t->print(os); return r; }

// ------------------------------------------------------------------ memory
static const char *okind(const Obj &o) { switch (o.kind) { case Obj::HEAP: return "heap"; case Obj::STACK: return "stack"; case Obj::GLOBAL: return "global"; default: return "object"; } }
uint64_t Exec::alloc(State &s, uint64_t size, int kind, const std::string &name) {
  if (size > (1ull << 30)) unsup(s, "allocation of " + std::to_string(size) + " bytes");
  auto o = std::make_shared<Obj>(); o->size = size; o->kind = (decltype(o->kind))kind; o->b.assign(size, 0); o->name = name;
  return s.mem.add(o) << 32;
}
const Obj &Exec::objR(State &s, uint64_t addr, uint64_t n, const char *what) {
  uint64_t id = addr >> 32, off = addr & 0xffffffffu;
  const Obj *o = s.mem.get(id);
  if (!o) ub(s, std::string(what) + (addr < 65536 ? " through a null pointer" : " through a wild pointer"));
  if (o->freed) ub(s, std::string(what) + " after free/return of a " + okind(*o) + " object");
  if (off + n > o->size) ub(s, std::string(what) + " of " + std::to_string(n) + " bytes out of bounds at offset " + std::to_string(off) + " of a " + okind(*o) + " object of " + std::to_string(o->size) + " bytes " + o->name);
  return *o;
}
Obj &Exec::objW(State &s, uint64_t addr, uint64_t n, const char *what) {
  const Obj &o = objR(s, addr, n, what);
  if (o.kind == Obj::FUNC) ub(s, "write to a function");
  return *s.mem.getW(addr >> 32);
}
Val Exec::load(State &s, uint64_t addr, Type *T) {
  if (auto *st = dyn_cast<StructType>(T)) { auto *sl = DL->getStructLayout(st); std::vector<Val> v; for (unsigned i = 0; i < st->getNumElements(); i++) v.push_back(load(s, addr + sl->getElementOffset(i), st->getElementType(i))); return mkAgg(v); }
  if (auto *at = dyn_cast<ArrayType>(T)) { std::vector<Val> v; uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (uint64_t i = 0; i < at->getNumElements(); i++) v.push_back(load(s, addr + i * es, at->getElementType())); return mkAgg(v); }
  if (auto *vt = dyn_cast<FixedVectorType>(T)) { std::vector<Val> v; uint64_t es = DL->getTypeStoreSize(vt->getElementType()); for (uint64_t i = 0; i < vt->getNumElements(); i++) v.push_back(load(s, addr + i * es, vt->getElementType())); return mkAgg(v); }
  uint64_t n = DL->getTypeStoreSize(T);
  const Obj &o = objR(s, addr, n, "read");
  if (T->isFloatingPointTy()) return objReadVal(o, addr & 0xffffffffu, n, true, 0);
  Val v = objReadVal(o, addr & 0xffffffffu, n, false, T->isIntegerTy() ? T->getIntegerBitWidth() : 64);
  if (T->isIntegerTy(1) && v.k == K_SYM && !v.e().is_bool()) return mkBool(v.e() != 0);
  return v;
}
void Exec::store(State &s, uint64_t addr, const Val &v, Type *T) {
  if (auto *st = dyn_cast<StructType>(T)) { auto *sl = DL->getStructLayout(st); if (v.k == K_UNDEF) return; for (unsigned i = 0; i < st->getNumElements(); i++) store(s, addr + sl->getElementOffset(i), v.p->v[i], st->getElementType(i)); return; }
  if (auto *at = dyn_cast<ArrayType>(T)) { if (v.k == K_UNDEF) return; uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (uint64_t i = 0; i < at->getNumElements(); i++) store(s, addr + i * es, v.p->v[i], at->getElementType()); return; }
  if (auto *vt = dyn_cast<FixedVectorType>(T)) { if (v.k == K_UNDEF) return; uint64_t es = DL->getTypeStoreSize(vt->getElementType()); for (uint64_t i = 0; i < vt->getNumElements(); i++) store(s, addr + i * es, v.p->v[i], vt->getElementType()); return; }
  uint64_t n = DL->getTypeStoreSize(T);
  Obj &o = objW(s, addr, n, "write");
  if (v.k == K_SYM && v.w == 1) { objWriteVal(o, addr & 0xffffffffu, mkSymInt(z3::ite(v.e(), ZC->int_val(1), ZC->int_val(0)), 8 * n, 0, 1), n); return; }
  objWriteVal(o, addr & 0xffffffffu, v, n);
}
void Exec::memcopy(State &s, uint64_t d, uint64_t a, uint64_t n) {
  if (!n) return;
  objR(s, a, n, "read (memory copy)"); objW(s, d, n, "write (memory copy)");
  Obj &dst = *s.mem.getW(d >> 32); const Obj &src = *s.mem.get(a >> 32);
  objCopy(dst, d & 0xffffffffu, src, a & 0xffffffffu, n);
}
std::string Exec::cbytes(State &s, uint64_t addr, uint64_t n) {
  if (!n) return "";
  objR(s, addr, n, "read");
  uint32_t off = addr & 0xffffffffu;
  if (!objConcrete(*s.mem.get(addr >> 32), off, n)) {
    for (uint64_t i = 0; i < n; i++) { Val v = objReadVal(*s.mem.get(addr >> 32), off + i, 1, false, 8); if (v.k == K_SYM) { uint64_t x = concretize(s, v); objWriteVal(*s.mem.getW(addr >> 32), off + i, mkInt(8, x), 1); } }
  }
  const Obj *o = s.mem.get(addr >> 32);
  return std::string((const char *)&o->b[off], n);
}
std::string Exec::cstr(State &s, uint64_t addr) {
  const Obj &o = objR(s, addr, 1, "read (string)");
  uint32_t off = addr & 0xffffffffu, n = 0; std::string r;
  while (true) { if (off + n >= o.size) ub(s, "unterminated string"); std::string c = cbytes(s, addr + n, 1); if (!c[0]) return r; r += c; n++; if (n > 1000000) unsup(s, "long string"); }
}
void Exec::wbytes(State &s, uint64_t addr, const void *p, uint64_t n) {
  if (!n) return; Obj &o = objW(s, addr, n, "write"); objClear(o, addr & 0xffffffffu, n); memcpy(&o.b[addr & 0xffffffffu], p, n);
}

// ------------------------------------------------------------------ solver
void Exec::sync(State &s) {
  std::vector<std::shared_ptr<PCNode>> chain;
  for (auto p = s.pc; p; p = p->parent) chain.push_back(p);
  std::reverse(chain.begin(), chain.end());
  size_t k = 0; while (k < chain.size() && k < sstack.size() && chain[k] == sstack[k]) k++;
  while (sstack.size() > k) { S->pop(); sstack.pop_back(); }
  for (; k < chain.size(); k++) { S->push(); S->add(chain[k]->e); sstack.push_back(chain[k]); }
}
void Exec::addPC(State &s, const expr &e) { s.pc = std::make_shared<PCNode>(s.pc, e); }

static std::string cvc5Query(const std::vector<expr> &all, unsigned to) {
  // last resort back end; only an "unsat" answer is used
  z3::solver t(*ZC, z3::solver::simple()); for (auto &e : all) t.add(e);
  std::string fn = "/tmp/symx_" + std::to_string(getpid()) + ".smt2"; { std::ofstream f(fn); f << "(set-logic ALL)\n" << t.to_smt2(); }
  std::string cmd = "timeout " + std::to_string(to / 1000 + 2) + " cvc5 --tlimit=" + std::to_string(to) + " " + fn + " 2>&1"; FILE *p = popen(cmd.c_str(), "r"); std::string out; char b[256]; while (fgets(b, 256, p)) out += b; pclose(p); unlink(fn.c_str());
  if (out.find("error") != std::string::npos) return "unknown";
  if (out.compare(0, 5, "unsat") == 0) return "unsat"; if (out.compare(0, 3, "sat") == 0) return "sat"; return "unknown";
}
std::atomic<double> queryDeadline{0};
struct Deadline { Deadline(unsigned ms) { queryDeadline = nowSec() + ms / 1000.0 + 1; } ~Deadline() { queryDeadline = 0; } };
void startWatchdog() { std::thread([] { while (true) { usleep(200000); double d = queryDeadline; if (d > 0 && nowSec() > d) Z3_interrupt(*ZC); } }).detach(); }
z3::check_result Exec::query(State &s, const std::vector<expr> &ex, unsigned to, std::shared_ptr<z3::model> *m, bool full) {
  double t = nowSec(); nq++;
  sync(s);
  z3::check_result r = z3::unknown; weak = nullptr;
  try {
    S->push(); for (auto &e : ex) S->add(e);
    z3::params p(*ZC); p.set("timeout", to); S->set(p);
    { Deadline dl(to); r = S->check(); }
    if (r == z3::sat && !s.lazy.empty()) {
      weak = std::make_shared<z3::model>(S->get_model()); bool allTrue = true;
      for (auto &x : s.lazy) { expr v = weak->eval(x, true); if (!v.is_true()) { allTrue = false; break; } }
      if (!allTrue) {
        for (auto &x : s.lazy) S->add(x);
        { Deadline dl(to); r = S->check(); } if (r == z3::sat) weak = nullptr;
      }
    }
    if (r == z3::sat && m) *m = std::make_shared<z3::model>(S->get_model());
  } catch (z3::exception &e) { r = z3::unknown; note(std::string("z3: ") + e.msg()); }
  S->pop();
  if (r == z3::unknown && full && fullCheckFallback) {
    std::vector<expr> all; for (auto &p : sstack) all.push_back(p->e); for (auto &e : ex) all.push_back(e);
    for (auto &e : s.lazy) all.push_back(e);
    for (const char *lg : {"QF_NRA", "QF_NIRA"}) {
      if (r != z3::unknown) break;
      try { z3::solver f(*ZC, lg); z3::params p(*ZC); p.set("timeout", to); f.set(p); for (auto &e : all) f.add(e); { Deadline dl(to); r = f.check(); } if (r == z3::sat && m) *m = std::make_shared<z3::model>(f.get_model()); }
      catch (z3::exception &e) { r = z3::unknown; }
    }
    if (r == z3::unknown) { std::string c = cvc5Query(all, to); if (c == "unsat") r = z3::unsat; }
  }
  double dt = nowSec() - t; tsolve += dt;
  if (getenv("SYMX_SLOW") && dt > atof(getenv("SYMX_SLOW"))) { fprintf(stderr, "[slow %.1fs r=%d] at %s\n", dt, (int)r, where(s).c_str()); for (auto &e : ex) fprintf(stderr, "   %s\n", e.to_string().substr(0, 600).c_str()); }
  if (r == z3::sat) nsat++; else if (r == z3::unsat) nunsat++; else nunk++;
  return r;
}
bool Exec::modelTrue(State &s, const expr &c, bool &val) {
  if (!s.model) return false;
  try { expr v = s.model->eval(c, true); if (v.is_true()) { val = true; return true; } if (v.is_false()) { val = false; return true; } v = v.simplify(); if (v.is_true()) { val = true; return true; } if (v.is_false()) { val = false; return true; } } catch (z3::exception &) {}
  return false;
}
bool Exec::feasible(State &s) {
  if (s.model) return true;
  std::shared_ptr<z3::model> m;
  auto r = query(s, {}, checkTimeout, &m, true);
  if (r == z3::sat) s.model = m;
  return r != z3::unsat;
}
bool Exec::decide(State &s, const expr &c0) {
  expr c = c0.simplify();
  if (c.is_true()) return true;
  if (c.is_false()) return false;
  bool neg = false; expr base = c;
  while (base.is_not()) { base = base.arg(0); neg = !neg; }
  auto it = s.known.find(base.id());
  if (it != s.known.end() && it->second.w == 1) return (it->second.lo & 1) != neg;
  if (keptIds.insert(base.id()).second) keep.push_back(base);
  bool v;
  if (!modelTrue(s, base, v)) {
    std::shared_ptr<z3::model> m;
    auto r = query(s, {base}, branchTimeout, &m, false);
    if (r == z3::sat) { s.model = m; v = true; }
    else if (r == z3::unsat) {
      // base is impossible; the path itself may be too
      v = false;
      if (!s.model) { auto r2 = query(s, {}, branchTimeout, &m, false); if (r2 == z3::unsat) throw PathEnd{"infeasible", 1}; if (r2 == z3::sat) s.model = m; }
      s.known[base.id()] = mkInt(1, 0); return v != neg;
    } else v = true;
  }
  expr other = v ? !base : base;
  std::shared_ptr<z3::model> m;
  auto r = query(s, {other}, branchTimeout, &m, false);
  if (r == z3::unsat) { s.known[base.id()] = mkInt(1, v); return v != neg; }
  nforks++;
  if (getenv("SYMX_FORKS")) fprintf(stderr, "fork %lu at %s: %s\n", (unsigned long)nforks, where(s).c_str(), base.to_string().substr(0, 200).c_str());
  auto o = std::make_unique<State>(s);
  o->forks++; o->id = nforks;
  addPC(*o, other); o->known[base.id()] = mkInt(1, !v); o->model = r == z3::sat ? m : nullptr;
  work.push_back(std::move(o));
  addPC(s, v ? base : !base); s.known[base.id()] = mkInt(1, v); s.forks++;
  return v != neg;
}
uint64_t Exec::concretize(State &s, const Val &v0) {
  Val v = v0.k == K_CAT ? norm(s, v0) : v0;
  if (v.k == K_INT) return v.lo;
  if (v.k == K_UNDEF) return 0;
  if (v.k == K_DBL) return v.lo;
  if (v.isReal()) unsup(s, "enumeration of a symbolic real");
  if (v.w == 1) return decide(s, v.e());
  expr e = v.e().simplify();
  auto it = s.known.find(e.id()); if (it != s.known.end()) return mkInt(v.w, it->second.u()).lo;
  for (int guard = 0; guard < 100000; guard++) {
    if (!s.model && !feasible(s)) throw PathEnd{"infeasible", 1};
    if (!s.model) unsup(s, "no model while enumerating");
    expr x = s.model->eval(e, true).simplify(); if (!x.is_numeral()) unsup(s, "non-numeral model value");
    Val c = mkSymInt(x, 64, 0, 0);
    if (decide(s, e == intE(c.s()))) { if (keptIds.insert(e.id()).second) keep.push_back(e); s.known[e.id()] = mkInt(64, c.u()); return mkInt(v.w, c.u()).lo; }
  }
  unsup(s, "enumeration bound");
}

// ------------------------------------------------------------------ reporting
static std::string locOf(Instruction *I) {
  std::string r = I->getFunction()->getName().str();
  if (auto *sp = I->getFunction()->getSubprogram()) { r = sp->getName().str(); }
  if (auto &dl = I->getDebugLoc()) { auto *l = dl.get(); while (l->getInlinedAt() && l->getFilename().contains("/c++/")) l = l->getInlinedAt(); r += " (" + l->getFilename().str() + ":" + std::to_string(l->getLine()) + ")"; }
  return r;
}
std::string Exec::where(State &s) {
  if (s.stack.empty()) return "?";
  for (int i = s.stack.size() - 1; i >= 0; i--) { auto &f = *s.stack[i]; auto &bb = f.f->bbs[f.bb]; if (f.ip >= (int)bb.ins.size()) continue; std::string l = locOf(bb.ins[f.ip].I); if (i == 0 || l.find("/repo/") != std::string::npos) return l; }
  auto &f = *s.stack.back(); return locOf(f.f->bbs[f.bb].ins[f.ip].I);
}
std::string Exec::backtrace(State &s) {
  std::string r; for (int i = s.stack.size() - 1; i >= 0 && i > (int)s.stack.size() - 15; i--) { auto &f = *s.stack[i]; auto &bb = f.f->bbs[f.bb]; if (f.ip < (int)bb.ins.size()) r += "   #" + std::to_string(i) + " " + locOf(bb.ins[f.ip].I) + "\n"; } return r;
}
void Exec::unsup(State &s, const std::string &what) { throw PathEnd{"unsupported: " + what + " at " + where(s) + "\n" + backtrace(s), 3}; }

static std::string fmtInput(const Exec::Input &in, const expr &v) {
  char b[64];
  if (in.type == 0) { std::string t = Z3_get_numeral_string(*ZC, v); return t; }
  double d = 0;
  if (v.is_numeral()) numeralToDouble(v, d);
  else { std::string t = Z3_get_numeral_decimal_string(*ZC, v, 20); if (!t.empty() && t.back() == '?') t.pop_back(); d = atof(t.c_str()); }
  snprintf(b, 64, "%.17g", d); return b;
}
std::shared_ptr<z3::model> Exec::niceModel(State &s, std::shared_ptr<z3::model> m, const std::vector<expr> &neg) {
  // move the counterexample to short dyadic inputs where possible, so that it survives floating-point replay
  sync(s);
  double t = nowSec();
  S->push(); for (auto &e : neg) S->add(e); for (auto &e : s.lazy) S->add(e);
  for (auto &in : inputs) {
    if (nowSec() - t > 8) break;
    expr v = m->eval(in.e, true);
    try {
      if (in.type == 0) { S->add(in.e == v); continue; }
      double d = atof(fmtInput(in, v).c_str());
      std::vector<double> cand{std::round(d), std::round(d * 4) / 4, std::round(d * 64) / 64, std::round(d * 4096) / 4096, std::round(d * 1073741824.) / 1073741824., d};
      bool done = false; 
      for (double c : cand) {
        S->push(); S->add(in.e == dblE(c)); z3::params p(*ZC); p.set("timeout", 700u); S->set(p);
        auto r = S->check();
        if (r == z3::sat) { auto mm = std::make_shared<z3::model>(S->get_model()); m = mm; S->pop(); S->add(in.e == dblE(c)); done = true; break; }
        S->pop();
      }
      (void)done;
    } catch (z3::exception &) {}
  }
  S->pop(); tsolve += nowSec() - t;
  return m;
}
// a handful of candidate assignments (short dyadic inputs): a counterexample found this way spares a nonlinear query
bool Exec::guess(State &s, const std::vector<expr> &neg, std::shared_ptr<z3::model> &m) {
  if (inputs.empty() || s.pc && nowSec() - t0 > maxTime) return false;
  double t = nowSec(); uint64_t rng = 88172645463325252ull;
  for (int k = 0; k < 10 && nowSec() - t < 4; k++) {
    auto mm = std::make_shared<z3::model>(*ZC);
    for (auto &in : inputs) {
      rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; double u = (rng >> 40) / double(1 << 24);
      double lo = in.lo, hi = in.hi; if (!(lo > -1e3)) lo = std::min(-1e3, hi); if (!(hi < 1e3)) hi = std::max(1e3, lo); if (hi - lo > 64) { lo = std::max(lo, -4.0); hi = std::min(hi, lo + 8); if (lo > hi) { lo = in.lo; hi = in.hi; } }
      double x = lo + u * (hi - lo); const double q = in.type == 0 ? 1 : 64; x = std::round(x * q) / q; x = std::min(std::max(x, in.lo), in.hi);
      expr v = in.type == 0 ? ZC->int_val((int64_t)x) : dblE(x); z3::func_decl f = in.e.decl(); if (!in.e.is_const() || in.e.is_numeral()) return false; mm->add_const_interp(f, v);
    }
    auto holds = [&](const expr &e) { try { Deadline dl(1500); expr v = mm->eval(e, false); if (v.is_true()) return true; if (v.is_false()) return false; return v.simplify().is_true(); } catch (z3::exception &) { return false; } };
    bool ok = true; for (auto &e : neg) if (!holds(e)) { ok = false; break; }
    for (auto p = s.pc; ok && p; p = p->parent) ok = holds(p->e);
    for (auto &e : s.lazy) if (ok) ok = holds(e);
    if (ok) { m = mm; tsolve += nowSec() - t; nq++; nsat++; return true; }
  }
  tsolve += nowSec() - t; return false;
}
void Exec::violation(State &s, const std::string &label, const std::string &kind, std::shared_ptr<z3::model> m, const std::vector<expr> &neg) {
  auto &st = checks[label];
  st.violated++;
  if (st.ces >= maxCE) return;
  st.ces++;
  if (!guessed) m = niceModel(s, m, neg);
  CE c; c.label = label; c.kind = kind; c.where = where(s);
  for (auto &in : inputs) { expr v = m->eval(in.e, true); c.inputs.push_back({in.name, fmtInput(in, v)}); }
  ces.push_back(c);
  if (getenv("SYMX_CE")) { fprintf(stderr, "CE %s [%s] at %s\n", label.c_str(), kind.c_str(), c.where.c_str()); for (auto &x : c.inputs) fprintf(stderr, "    %s = %s\n", x.first.c_str(), x.second.c_str()); for (auto &n : neg) fprintf(stderr, "   %s\n", n.to_string().substr(0, 1500).c_str()); }
}
void Exec::ub(State &s, const std::string &what) {
  std::string label = "no-undefined-behaviour";
  auto &st = checks[label]; st.reached++;
  std::shared_ptr<z3::model> m;
  auto r = query(s, {}, checkTimeout, &m, true);
  if (r == z3::unsat) { st.discharged++; throw PathEnd{"infeasible", 1}; }
  if (r == z3::sat) { violation(s, label, what + " at " + where(s) + "\n" + backtrace(s), m, {}); throw PathEnd{"undefined behaviour: " + what + " at " + where(s), 2}; }
  st.unknown++; throw PathEnd{"undefined behaviour on a path of unknown feasibility: " + what + " at " + where(s), 3};
}
void Exec::check(State &s, const Val &c0, const std::string &label) {
  auto &st = checks[label]; st.reached++;
  if (s.model) st.witnessed++;
  if (c0.k != K_SYM) {
    if (c0.k != K_UNDEF && (c0.lo & 1)) { if (!s.model && feasible(s) && s.model) st.witnessed++; st.discharged++; st.trivial++; return; }
    std::shared_ptr<z3::model> m; auto r = query(s, {}, checkTimeout, &m, true);
    if (r == z3::sat) { violation(s, label, "check fails on this path", m, {}); return; }
    if (r == z3::unsat) { st.discharged++; throw PathEnd{"infeasible", 1}; }
    st.unknown++; incomplete("check " + label + ": path feasibility unknown"); return;
  }
  expr c = c0.e().simplify();
  if (c.is_true()) { st.discharged++; if (!s.model && feasible(s) && s.model) st.witnessed++; return; }
  std::shared_ptr<z3::model> m;
  guessed = guess(s, {!c}, m);
  struct Reset { bool &b; ~Reset() { b = false; } } reset{guessed};
  auto r = guessed ? z3::sat : query(s, {!c}, checkTimeout, &m, true);
  if (r == z3::unsat) { st.discharged++; if (!s.model && feasible(s) && s.model) st.witnessed++; }
  else if (r == z3::sat) violation(s, label, "check fails", m, {!c});
  else { st.unknown++; incomplete("check " + label + ": solver gave no answer"); if (weak) { violation(s, label, "candidate: function axioms undecided", weak, {!c}); st.violated--; } }
  if (r != z3::unsat) { addPC(s, c); bool v; if (!modelTrue(s, c, v) || !v) { s.model.reset(); if (!feasible(s)) throw PathEnd{"infeasible after check", 1}; } }
}
extern expr realE(const Val &v);
void Exec::checkClose(State &s, const Val &a, const Val &b, double tol, const std::string &label) {
  if (a.k != K_SYM && b.k != K_SYM) {
    double x = a.d(), y = b.d(); bool ok;
    if (std::isnan(x) || std::isnan(y)) ok = std::isnan(x) && std::isnan(y);
    else if (std::isinf(x) || std::isinf(y)) ok = x == y;
    else ok = std::fabs(x - y) <= tol * std::max(1.0, std::fabs(y));
    if (!ok) { char t[100]; snprintf(t, 100, " (%.17g vs %.17g)", x, y); note("failed close check " + label + t); }
    check(s, mkInt(1, ok), label); return;
  }
  if ((a.k == K_DBL && !std::isfinite(a.d())) || (b.k == K_DBL && !std::isfinite(b.d()))) { check(s, mkInt(1, 0), label); return; }
  expr x = realE(a), y = realE(b);
  expr d = x - y;
  auto &st = checks[label];
  bool eq = x.id() == y.id();
  if (!eq) { Val c = canon(mkReal(d)); if (c.k == K_DBL) { eq = c.d() == 0; if (!eq) d = dblE(c.d()); } else d = c.e(); }
  if (!eq) { try { z3::params p(*ZC); p.set("som", true); Deadline dl(8000); expr z = d.simplify(p); eq = z.is_numeral() && std::string(Z3_get_numeral_string(*ZC, z)) == "0"; } catch (z3::exception &) {} }
  st.reached++; if (s.model) st.witnessed++; else if (feasible(s) && s.model) st.witnessed++;
  if (eq) { st.discharged++; nq++; nunsat++; return; }
  std::shared_ptr<z3::model> m;
  expr ay = z3::ite(y < 0, -y, y), ad = z3::ite(d < 0, -d, d);
  auto viol = [&](double t) { return d > dblE(t) * (1 + ay) || d < -dblE(t) * (1 + ay); };
  if ((guessed = guess(s, {viol(std::max(tol, 1e-4))}, m))) { violation(s, label, "values differ", m, {viol(tol)}); guessed = false; return; }
  // exact equality first: cheapest when it holds
  auto r = query(s, {d != 0}, checkTimeout / 2, &m, false);
  if (r == z3::unsat) { st.discharged++; return; }
  for (double t : {1e-2, 1e-4}) if (t > tol * 10) {
    auto r2 = query(s, {viol(t)}, checkTimeout / 2, &m, false);
    if (r2 == z3::sat) { violation(s, label, "values differ", m, {viol(t)}); return; }
  }
  r = query(s, {viol(tol)}, checkTimeout, &m, true);
  if (r == z3::unsat) { st.discharged++; return; }
  if (r == z3::sat) violation(s, label, "values differ", m, {viol(tol)});
  else { st.unknown++; incomplete("check " + label + ": solver gave no answer"); if (weak) { violation(s, label, "candidate: function axioms undecided", weak, {viol(tol)}); st.violated--; } }
  // the path goes on unconstrained: assuming the (nonlinear) assertion would only burden the later queries
}

// ------------------------------------------------------------------ frames
FnInfo *Exec::info(Function *F) {
  auto it = fns.find(F); if (it != fns.end()) return it->second.get();
  auto fi = std::make_unique<FnInfo>(); FnInfo *f = fi.get(); f->F = F; fns[F] = std::move(fi);
  for (auto &a : F->args()) f->reg[&a] = f->nregs++;
  int n = 0; for (auto &B : *F) { f->bbid[&B] = n++; for (auto &I : B) if (!I.getType()->isVoidTy()) f->reg[&I] = f->nregs++; }
  DenseMap<const Value *, int> cidx;
  auto opIdx = [&](Value *v) -> int {
    auto r = f->reg.find(v); if (r != f->reg.end()) return r->second;
    auto c = cidx.find(v); if (c != cidx.end()) return c->second;
    Val x;
    if (auto *cc = dyn_cast<Constant>(v)) x = evalConst(cc);
    f->consts.push_back(x); int id = ~(int)(f->consts.size() - 1); cidx[v] = id; return id;
  };
  for (auto &B : *F) {
    f->bbs.emplace_back(); BBI &bi = f->bbs.back(); bi.B = &B;
    for (auto &I : B) {
      if (isa<DbgInfoIntrinsic>(&I)) continue;
      if (isa<PHINode>(&I)) bi.nphi++;
      PI p; p.I = &I; p.op = I.getOpcode(); p.dst = I.getType()->isVoidTy() ? -1 : f->reg[&I];
      if (auto *cb = dyn_cast<CallBase>(&I)) {
        for (unsigned i = 0; i < cb->arg_size(); i++) { Value *a = cb->getArgOperand(i); if (isa<MetadataAsValue>(a)) p.ops.push_back(opIdx(UndefValue::get(Type::getInt64Ty(M->getContext())))); else p.ops.push_back(opIdx(a)); }
        if (Function *cf = cb->getCalledFunction()) { p.callee = cf; if (cf->isIntrinsic()) p.iid = cf->getIntrinsicID(); else { auto b = builtins.find(cf->getName().str()); if (b != builtins.end()) p.bi = &b->second; } }
        else p.ops.push_back(cb->isInlineAsm() ? 0 : opIdx(cb->getCalledOperand()));
      } else if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
        p.ops.push_back(opIdx(g->getPointerOperand()));
        if (!I.getType()->isVectorTy())
        for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
          if (auto *st = gi.getStructTypeOrNull()) p.goff += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(gi.getOperand())->getZExtValue());
          else { int64_t sz = DL->getTypeAllocSize(gi.getIndexedType()); if (auto *ci = dyn_cast<ConstantInt>(gi.getOperand())) p.goff += ci->getSExtValue() * sz; else p.gidx.push_back({opIdx(gi.getOperand()), sz}); }
        }
      } else if (!isa<BranchInst>(&I) || cast<BranchInst>(&I)->isConditional()) {
        for (auto &o : I.operands()) { if (isa<BasicBlock>(o.get()) || isa<MetadataAsValue>(o.get())) { p.ops.push_back(0); continue; } p.ops.push_back(opIdx(o.get())); }
      }
      bi.ins.push_back(std::move(p));
    }
  }
  return f;
}
Val Exec::evalConst(Constant *c) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) { const APInt &a = ci->getValue(); u128 x = a.getRawData()[0]; if (a.getNumWords() > 1) x |= (u128)a.getRawData()[1] << 64; return mkInt(ci->getBitWidth(), x); }
  if (auto *cf = dyn_cast<ConstantFP>(c)) { APFloat a = cf->getValueAPF(); bool l; a.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &l); return mkDbl(a.convertToDouble()); }
  if (isa<ConstantPointerNull>(c)) return mkInt(64, 0);
  if (isa<UndefValue>(c)) {
    Type *T = c->getType();
    if (auto *st = dyn_cast<StructType>(T)) { std::vector<Val> v; for (unsigned i = 0; i < st->getNumElements(); i++) v.push_back(evalConst(UndefValue::get(st->getElementType(i)))); return mkAgg(v); }
    if (auto *at = dyn_cast<ArrayType>(T)) { std::vector<Val> v(at->getNumElements(), evalConst(UndefValue::get(at->getElementType()))); return mkAgg(v); }
    if (auto *vt = dyn_cast<FixedVectorType>(T)) { std::vector<Val> v(vt->getNumElements(), evalConst(UndefValue::get(vt->getElementType()))); return mkAgg(v); }
    Val u; u.w = T->isIntegerTy() ? T->getIntegerBitWidth() : T->isPointerTy() ? 64 : 0; return u;
  }
  if (auto *z = dyn_cast<ConstantAggregateZero>(c)) {
    Type *T = c->getType(); std::vector<Val> v;
    if (auto *st = dyn_cast<StructType>(T)) for (unsigned i = 0; i < st->getNumElements(); i++) v.push_back(evalConst(z->getElementValue(i)));
    else { unsigned n = z->getElementCount().getFixedValue(); if (n) v.assign(n, evalConst(z->getElementValue(0u))); }
    return mkAgg(v);
  }
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { std::vector<Val> v; for (unsigned i = 0; i < cd->getNumElements(); i++) v.push_back(evalConst(cd->getElementAsConstant(i))); return mkAgg(v); }
  if (isa<ConstantAggregate>(c)) { std::vector<Val> v; for (auto &o : c->operands()) v.push_back(evalConst(cast<Constant>(o.get()))); return mkAgg(v); }
  if (auto *gv = dyn_cast<GlobalValue>(c)) {
    if (auto *ga = dyn_cast<GlobalAlias>(gv)) return evalConst(ga->getAliasee());
    auto it = gaddr.find(gv); if (it != gaddr.end()) return mkInt(64, it->second);
    return mkInt(64, 0);
  }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    if (auto *g = dyn_cast<GEPOperator>(ce)) { APInt off(64, 0); g->accumulateConstantOffset(*DL, off); Val b = evalConst(cast<Constant>(g->getPointerOperand())); return mkInt(64, b.lo + off.getSExtValue()); }
    State dummy;
    switch (ce->getOpcode()) {
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: { Val v = evalConst(ce->getOperand(0)); if (ce->getType()->isIntegerTy()) return mkInt(ce->getType()->getIntegerBitWidth(), v.u()); return v; }
      case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: return castV(dummy, ce->getOpcode(), evalConst(ce->getOperand(0)), ce->getOperand(0)->getType(), ce->getType());
      case Instruction::ICmp: return icmp(dummy, ce->getPredicate(), evalConst(ce->getOperand(0)), evalConst(ce->getOperand(1)));
      case Instruction::Select: { Val v = evalConst(ce->getOperand(0)); return evalConst(ce->getOperand((v.lo & 1) ? 1 : 2)); }
      default: return binop(dummy, nullptr, ce->getOpcode(), evalConst(ce->getOperand(0)), evalConst(ce->getOperand(1)), ce->getType());
    }
  }
  if (auto *b = dyn_cast<BlockAddress>(c)) { (void)b; return mkInt(64, 0); }
  if (auto *d = dyn_cast<DSOLocalEquivalent>(c)) return evalConst(d->getGlobalValue());
  return Val();
}
void Exec::allocGlobals(State &s) {
  for (auto &F : *M) { auto o = std::make_shared<Obj>(); o->kind = Obj::FUNC; o->fn = &F; o->size = 1; o->b.assign(1, 0); o->name = F.getName().str(); gaddr[&F] = s.mem.add(o) << 32; }
  for (auto &G : M->globals()) {
    uint64_t sz = G.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(G.getValueType()) : 8; if (G.isDeclaration()) sz = std::max<uint64_t>(sz, 4096);
    gaddr[&G] = alloc(s, sz, Obj::GLOBAL, G.getName().str());
  }
  for (auto &G : M->globals()) if (G.hasInitializer()) { Constant *c = G.getInitializer(); if (!isa<UndefValue>(c) && !c->isNullValue()) store(s, gaddr[&G], evalConst(c), G.getValueType()); }
}
void Exec::pushFrame(State &s, Function *F, const std::vector<Val> &args, int mark) {
  if (F->isDeclaration()) { unmodelled[F->getName().str()]++; unsup(s, "call to unmodelled external function " + F->getName().str()); }
  if (s.stack.size() > 4000) ub(s, "stack overflow (call depth 4000)");
  auto fr = std::make_shared<Frame>(); fr->f = info(F); fr->regs.resize(fr->f->nregs); fr->mark = mark; fr->f->execs++;
  unsigned np = F->arg_size();
  for (unsigned i = 0; i < np && i < args.size(); i++) fr->regs[i] = args[i];
  // byval arguments are copied by the callee's view
  for (unsigned i = 0; i < np && i < args.size(); i++) if (F->getArg(i)->hasByValAttr()) { uint64_t n = DL->getTypeAllocSize(F->getParamByValType(i)); uint64_t a = alloc(s, n, Obj::STACK); memcopy(s, a, concretize(s, args[i]), n); fr->allocas.push_back(a); fr->regs[i] = mkInt(64, a); }
  for (unsigned i = np; i < args.size(); i++) fr->varargs.push_back(args[i]);
  fr->bb = 0; fr->ip = 0; fr->pbb = -1;
  s.stack.push_back(fr); noAdvance = true;
}
void Exec::popFrame(State &s) {
  for (uint64_t a : s.stack.back()->allocas) s.mem.kill(a >> 32);
  s.stack.pop_back();
}
void Exec::setDst(State &s, const Val &v) { Frame &f = s.top(); const PI &pi = f.f->bbs[f.bb].ins[f.ip]; if (pi.dst >= 0) f.regs[pi.dst] = v; }
void Exec::finishCall(State &s, const Val &ret) {
  setDst(s, ret); Frame &f = s.top(); const PI &pi = f.f->bbs[f.bb].ins[f.ip];
  if (auto *iv = dyn_cast<InvokeInst>(pi.I)) jump(s, f, f.f->bbid[iv->getNormalDest()]); else f.ip++;
  noAdvance = true;
}
void Exec::jump(State &s, Frame &f, int bb) {
  BBI &B = f.f->bbs[bb]; int from = f.bb;
  if (B.nphi) {
    std::vector<Val> nv(B.nphi);
    for (int i = 0; i < B.nphi; i++) { auto *ph = cast<PHINode>(B.ins[i].I); int k = ph->getBasicBlockIndex(f.f->bbs[from].B); nv[i] = getOp(s, f, B.ins[i].ops[k]); B.ins[i].cov = true; }
    for (int i = 0; i < B.nphi; i++) f.regs[B.ins[i].dst] = nv[i];
  }
  f.pbb = from; f.bb = bb; f.ip = B.nphi; noAdvance = true;
}
void Exec::doReturn(State &s, Val ret) {
  int mark = s.stack.back()->mark; auto snap = s.stack.back()->snap;
  popFrame(s);
  if (s.stack.empty()) throw PathEnd{"done", 0};
  if (mark == 1) ret = mkInt(32, 0);
  if (mark == 2) { if (ret.k == K_SYM) ret = mkInt(32, concretize(s, ret)); if (snap) s.mem = *snap; if (ret.k == K_UNDEF) ret = mkInt(32, 0); ret = mkInt(32, ret.lo & 0xff); }
  finishCall(s, ret);
}
void Exec::popToMark(State &s, int code) {
  while (!s.stack.empty()) {
    int mark = s.stack.back()->mark; auto snap = s.stack.back()->snap; popFrame(s);
    if (mark) { if (s.stack.empty()) break; if (mark == 2 && snap) s.mem = *snap; finishCall(s, mkInt(32, code)); return; }
  }
  throw PathEnd{"terminated outside a guard with code " + std::to_string(code), 4};
}
void Exec::doExit(State &s, int code) { popToMark(s, 1000 + (code & 0xff)); }
void Exec::unwindTo(State &s, uint64_t obj) {
  // pops frames up to the nearest invoke; the landing pad decides
  bool first = true;
  while (!s.stack.empty()) {
    Frame &f = s.top(); const PI &pi = f.f->bbs[f.bb].ins[f.ip];
    if (!(first && pi.op == Instruction::Resume)) if (auto *iv = dyn_cast<InvokeInst>(pi.I)) {
      // stash the exception object for the landing pad
      int bb = f.f->bbid[iv->getUnwindDest()]; jump(s, f, bb);
      s.curExc = obj; return;
    }
    first = false;
    int mark = f.mark; auto snap = f.snap; popFrame(s);
    if (mark) { if (s.stack.empty()) break; if (mark == 2 && snap) s.mem = *snap; finishCall(s, mkInt(32, 2000)); return; }
  }
  throw PathEnd{"uncaught exception", 4};
}

// ------------------------------------------------------------------ typeinfo
static std::string tiName(State &s, uint64_t ti) { const Obj *o = s.mem.get(ti >> 32); return o ? o->name : ""; }
static bool tiBase(Exec &E, State &s, uint64_t t, uint64_t b, int depth = 0) {
  if (t == b) return true; if (!t || depth > 20) return false;
  std::string tn = tiName(s, t), bn = tiName(s, b); if (!tn.empty() && tn == bn) return true;
  const Obj *o = s.mem.get(t >> 32); if (!o) return false;
  GlobalVariable *g = E.M->getNamedGlobal(o->name); if (!g || !g->hasInitializer()) return false;
  auto *cs = dyn_cast<ConstantStruct>(g->getInitializer()); if (!cs) return false;
  // {vtable, name, [base...]}
  for (unsigned i = 2; i < cs->getNumOperands(); i++) { Constant *op = cs->getOperand(i); if (op->getType()->isPointerTy()) { Val v = E.evalConst(op); if (v.lo && tiName(s, v.lo).compare(0, 4, "_ZTI") == 0 && tiBase(E, s, v.lo, b, depth + 1)) return true; } }
  return false;
}
static Val landing(Exec &E, State &s, LandingPadInst *lp, uint64_t obj) {
  uint64_t ti = s.excs[obj].ti; int sel = 0; bool found = false;
  for (unsigned i = 0; i < lp->getNumClauses() && !found; i++) {
    if (lp->isCatch(i)) { Constant *c = lp->getClause(i); Val v = E.evalConst(c); if (v.lo == 0 || tiBase(E, s, ti, v.lo)) { sel = (int)(v.lo >> 32) + 1; found = true; } }
    else { // filter: an exception outside the list must not pass
      Constant *c = lp->getClause(i); bool in = false; if (auto *ca = dyn_cast<ConstantArray>(c)) for (auto &o : ca->operands()) if (tiBase(E, s, ti, E.evalConst(cast<Constant>(o.get())).lo)) in = true; if (!in) { sel = -1; found = true; } }
  }
  if (!found && !lp->isCleanup()) return Val(); // not for us
  return mkAgg({mkInt(64, obj), mkInt(32, (uint64_t)(int64_t)sel)});
}

// ------------------------------------------------------------------ instructions
void Exec::doCall(State &s, const PI &pi, Function *F, std::vector<Val> &args, Builtin *bi) {
  if (!bi && F) { auto b = builtins.find(F->getName().str()); if (b != builtins.end()) bi = &b->second; }
  if (bi) {
    Val ret; noAdvance = false; if (pi.callee || !F) bi->fn(*this, s, pi, args, ret); else { PI q = pi; q.callee = F; bi->fn(*this, s, q, args, ret); }
    if (!noAdvance) { setDst(s, ret); Frame &f = s.top(); if (auto *iv = dyn_cast<InvokeInst>(pi.I)) jump(s, f, f.f->bbid[iv->getNormalDest()]); else f.ip++; }
    return;
  }
  pushFrame(s, F, args);
}
void Exec::step(State &s) {
  Frame &f = s.top();
  PI &pi = f.f->bbs[f.bb].ins[f.ip];
  pi.cov = true; s.instrs++; totinstr++;
  execPI(s, f, pi);
}
void Exec::execPI(State &s, Frame &f, const PI &pi) {
  Instruction *I = pi.I;
  auto op = [&](int i) -> Val { return getOp(s, f, pi.ops[i]); };
  auto done = [&](const Val &v) { Frame &g = s.top(); if (pi.dst >= 0) g.regs[pi.dst] = v; g.ip++; };
  switch (pi.op) {
    case Instruction::Br: {
      auto *b = cast<BranchInst>(I);
      if (b->isUnconditional()) { jump(s, f, f.f->bbid[b->getSuccessor(0)]); return; }
      Val c = op(0); bool t;
      if (c.k == K_UNDEF) { note("branch on an undefined value at " + where(s)); t = false; } else t = decideV(s, c);
      Frame &g = s.top(); jump(s, g, g.f->bbid[b->getSuccessor(t ? 0 : 1)]); return;
    }
    case Instruction::Switch: {
      auto *sw = cast<SwitchInst>(I); Val c = op(0); if (c.k == K_CAT) c = norm(s, c);
      if (c.k == K_SYM) {
        BasicBlock *dst = sw->getDefaultDest();
        for (auto &cs : sw->cases()) { Val k = evalConst(cs.getCaseValue()); Val e = icmp(s, CmpInst::ICMP_EQ, c, k); if (decideV(s, e)) { dst = cs.getCaseSuccessor(); break; } }
        Frame &g = s.top(); jump(s, g, g.f->bbid[dst]); return;
      }
      BasicBlock *dst = sw->getDefaultDest(); for (auto &cs : sw->cases()) { const APInt &a = cs.getCaseValue()->getValue(); if (a.getRawData()[0] == c.lo) { dst = cs.getCaseSuccessor(); break; } }
      jump(s, f, f.f->bbid[dst]); return;
    }
    case Instruction::Ret: { Val r; if (I->getNumOperands()) r = op(0); doReturn(s, r); return; }
    case Instruction::Unreachable: ub(s, "reached unreachable code");
    case Instruction::Call: case Instruction::Invoke: {
      auto *cb = cast<CallBase>(I);
      std::vector<Val> args; args.reserve(cb->arg_size()); for (unsigned i = 0; i < cb->arg_size(); i++) args.push_back(getOp(s, f, pi.ops[i]));
      if (pi.iid) { Val ret; noAdvance = false; intrinsicCall(*this, s, pi, args, ret); if (!noAdvance) { Frame &g = s.top(); if (pi.dst >= 0) g.regs[pi.dst] = ret; if (auto *iv = dyn_cast<InvokeInst>(I)) jump(s, g, g.f->bbid[iv->getNormalDest()]); else g.ip++; } return; }
      if (cb->isInlineAsm()) { if (!I->getType()->isVoidTy()) unsup(s, "inline assembly with a result"); Frame &g = s.top(); g.ip++; return; }
      Function *F = pi.callee;
      if (!F) {
        uint64_t a = concretize(s, getOp(s, f, pi.ops.back())); const Obj *o = s.mem.get(a >> 32);
        if (!o || o->kind != Obj::FUNC) ub(s, "call through an invalid function pointer");
        F = o->fn;
      }
      doCall(s, pi, F, args, pi.bi); return;
    }
    case Instruction::LandingPad: {
      uint64_t obj = s.curExc; Val v = landing(*this, s, cast<LandingPadInst>(I), obj);
      if (v.k == K_UNDEF) { // no clause matches: keep unwinding from the caller
        Frame &g = s.top(); int mark = g.mark; auto snap = g.snap; popFrame(s);
        if (mark) { if (s.stack.empty()) throw PathEnd{"uncaught exception", 4}; if (mark == 2 && snap) s.mem = *snap; finishCall(s, mkInt(32, 2000)); return; }
        if (s.stack.empty()) throw PathEnd{"uncaught exception", 4};
        unwindTo(s, obj); return;
      }
      done(v); return;
    }
    case Instruction::Resume: { Val v = op(0); uint64_t obj = v.p->v[0].lo; unwindTo(s, obj); return; }
    case Instruction::Alloca: {
      auto *ai = cast<AllocaInst>(I); uint64_t n = DL->getTypeAllocSize(ai->getAllocatedType()); if (ai->isArrayAllocation()) n *= concretize(s, op(0));
      uint64_t a = alloc(s, n, Obj::STACK); Frame &g = s.top(); g.allocas.push_back(a); done(mkInt(64, a)); return;
    }
    case Instruction::Load: { uint64_t a = concretize(s, op(0)); done(load(s, a, I->getType())); return; }
    case Instruction::Store: { uint64_t a = concretize(s, op(1)); store(s, a, op(0), cast<StoreInst>(I)->getValueOperand()->getType()); Frame &g = s.top(); g.ip++; return; }
    case Instruction::GetElementPtr: {
      if (I->getType()->isVectorTy()) unsup(s, "vector gep");
      Val b = op(0); bool sym = b.k == K_SYM || b.k == K_CAT; for (auto &x : pi.gidx) { auto k = getOp(s, f, x.first).k; if (k == K_SYM || k == K_CAT) sym = true; }
      if (!sym) { uint64_t a = b.lo + pi.goff; for (auto &x : pi.gidx) { Val v = getOp(s, f, x.first); a += (uint64_t)((int64_t)v.s() * x.second); } done(mkInt(64, a)); return; }
      Val acc = binop(s, nullptr, Instruction::Add, b, mkInt(64, (u128)(i128)pi.goff), Type::getInt64Ty(M->getContext()));
      for (auto &x : pi.gidx) {
        Val v = norm(s, getOp(s, f, x.first)); if (v.w < 64) v = castV(s, Instruction::SExt, v, IntegerType::get(M->getContext(), v.w), Type::getInt64Ty(M->getContext()));
        acc = binop(s, nullptr, Instruction::Add, acc, binop(s, nullptr, Instruction::Mul, v, mkInt(64, (u128)(i128)x.second), Type::getInt64Ty(M->getContext())), Type::getInt64Ty(M->getContext()));
      }
      done(acc); return;
    }
    case Instruction::PHI: unsup(s, "phi");
    case Instruction::ICmp: done(icmp(s, cast<ICmpInst>(I)->getPredicate(), op(0), op(1))); return;
    case Instruction::FCmp: done(fcmp(s, cast<FCmpInst>(I)->getPredicate(), op(0), op(1))); return;
    case Instruction::Select: done(selectV(s, op(0), op(1), op(2), I->getType())); return;
    case Instruction::FNeg: done(fneg(op(0))); return;
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: done(fbin(s, pi.op, op(0), op(1), I->getType()->getScalarType()->isFloatTy())); return;
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::FPTrunc: case Instruction::FPExt: case Instruction::SIToFP: case Instruction::UIToFP:
    case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
      done(castV(s, pi.op, op(0), I->getOperand(0)->getType(), I->getType())); return;
    case Instruction::ExtractValue: { Val v = op(0); for (unsigned i : cast<ExtractValueInst>(I)->indices()) { if (v.k != K_AGG) { v = Val(); break; } v = Val(v.p->v[i]); } done(v); return; }
    case Instruction::InsertValue: {
      std::function<Val(Val, ArrayRef<unsigned>, Type *)> ins = [&](Val a, ArrayRef<unsigned> ix, Type *T) -> Val {
        if (ix.empty()) return op(1);
        std::vector<Val> v; if (a.k == K_AGG) v = a.p->v; else { v.resize(T->isStructTy() ? T->getStructNumElements() : T->getArrayNumElements()); }
        Type *ET = T->isStructTy() ? T->getStructElementType(ix[0]) : T->getArrayElementType();
        v[ix[0]] = ins(v[ix[0]], ix.drop_front(), ET); return mkAgg(v); };
      done(ins(op(0), cast<InsertValueInst>(I)->getIndices(), I->getType())); return;
    }
    case Instruction::ExtractElement: { Val v = op(0); uint64_t i = concretize(s, op(1)); if (v.k != K_AGG || i >= v.p->v.size()) { done(Val()); return; } done(v.p->v[i]); return; }
    case Instruction::InsertElement: { Val v = op(0); uint64_t i = concretize(s, op(2)); std::vector<Val> r; if (v.k == K_AGG) r = v.p->v; else r.resize(cast<FixedVectorType>(I->getType())->getNumElements()); if (i < r.size()) r[i] = op(1); done(mkAgg(r)); return; }
    case Instruction::ShuffleVector: {
      auto *sv = cast<ShuffleVectorInst>(I); Val a = op(0), b = op(1); unsigned n = cast<FixedVectorType>(sv->getOperand(0)->getType())->getNumElements(); std::vector<Val> r;
      for (int m : sv->getShuffleMask()) { if (m < 0) r.push_back(Val()); else if ((unsigned)m < n) r.push_back(a.k == K_AGG ? a.p->v[m] : Val()); else r.push_back(b.k == K_AGG ? b.p->v[m - n] : Val()); } done(mkAgg(r)); return;
    }
    case Instruction::Freeze: { Val v = op(0); if (v.k == K_UNDEF) { if (I->getType()->isIntegerTy()) v = mkInt(I->getType()->getIntegerBitWidth(), 0); else if (I->getType()->isFloatingPointTy()) v = mkDbl(0); else if (I->getType()->isPointerTy()) v = mkInt(64, 0); } done(v); return; }
    case Instruction::AtomicRMW: {
      auto *a = cast<AtomicRMWInst>(I); uint64_t p = concretize(s, op(0)); Type *T = a->getValOperand()->getType(); Val old = load(s, p, T), v = op(1), n;
      switch (a->getOperation()) { case AtomicRMWInst::Xchg: n = v; break; case AtomicRMWInst::Add: n = binop(s, nullptr, Instruction::Add, old, v, T); break; case AtomicRMWInst::Sub: n = binop(s, nullptr, Instruction::Sub, old, v, T); break; case AtomicRMWInst::Or: n = binop(s, nullptr, Instruction::Or, old, v, T); break; case AtomicRMWInst::And: n = binop(s, nullptr, Instruction::And, old, v, T); break; default: unsup(s, "atomicrmw"); }
      store(s, p, n, T); done(old); return;
    }
    case Instruction::AtomicCmpXchg: { uint64_t p = concretize(s, op(0)); Type *T = I->getOperand(1)->getType(); Val old = load(s, p, T); bool eq = decideV(s, icmp(s, CmpInst::ICMP_EQ, old, op(1))); if (eq) store(s, p, op(2), T); done(mkAgg({old, mkInt(1, eq)})); return; }
    case Instruction::Fence: { Frame &g = s.top(); g.ip++; return; }
    default: {
      if (I->isBinaryOp()) { done(binop(s, I, pi.op, op(0), op(1), I->getType())); return; }
      unsup(s, std::string("instruction ") + I->getOpcodeName());
    }
  }
}

void Exec::runAll() {
  t0 = nowSec();
  while (!work.empty()) {
    auto st = std::move(work.back()); work.pop_back();
    State &s = *st; cur = &s;
    std::string why = "done"; int kind = 0;
    try {
      uint64_t n = 0, lastq = nq;
      while (true) {
        step(s);
        if ((++n & 0xfff) == 0 || nq != lastq) { lastq = nq; if (nowSec() - t0 > maxTime) throw PathEnd{"time limit", 3}; if (totinstr > maxInstrs) throw PathEnd{"instruction limit", 3}; }
      }
    } catch (PathEnd &e) { why = e.why; kind = e.kind; }
    catch (z3::exception &e) { why = std::string("solver error: ") + e.msg() + " at " + where(s); kind = 3; }
    npaths++;
    if (kind == 4) { // abnormal end outside any guard: a failure of the harness's own expectation
      auto &c = checks["no-unexpected-termination"]; c.reached++;
      std::shared_ptr<z3::model> m; auto r = query(s, {}, checkTimeout, &m, true);
      if (r == z3::sat) violation(s, "no-unexpected-termination", why, m, {}); else if (r == z3::unsat) { c.discharged++; why = "infeasible"; } else { c.unknown++; incomplete(why); }
    }
    auto candidate = [&](State &t) { if (pending.size() >= 6 || inputs.empty()) return; try { std::shared_ptr<z3::model> m = t.model; if (!m && query(t, {}, 2000, &m, true) != z3::sat) return; if (!m) return; CE c; for (auto &in : inputs) { expr v = m->eval(in.e, true); c.inputs.push_back({in.name, fmtInput(in, v)}); } pending.push_back(c); } catch (z3::exception &) {} };
    if (kind == 3) { incomplete(why); candidate(s); }
    if (kind == 0) {
      ncompleted++;
      if (wits.size() < 8 && (ncompleted & (ncompleted - 1)) == 0 && !inputs.empty()) try {
        std::shared_ptr<z3::model> m; if (query(s, {}, checkTimeout, &m, true) == z3::sat && m) { m = niceModel(s, m, {}); CE c; c.label = "__witness"; for (auto &in : inputs) { expr v = m->eval(in.e, true); c.inputs.push_back({in.name, fmtInput(in, v)}); } wits.push_back(c); }
      } catch (z3::exception &) {}
    }
    pathEnds[kind == 0 ? "completed" : kind == 1 ? "infeasible" : why]++;
    if (nowSec() - t0 > maxTime || totinstr > maxInstrs || npaths > maxPaths) { if (!work.empty()) { incomplete("exploration stopped with " + std::to_string(work.size()) + " states pending (time/instruction/path limit)"); for (size_t k = 0; k < work.size(); k += 1 + work.size() / 5) candidate(*work[k]); work.clear(); } }
  }
}
