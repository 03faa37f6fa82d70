#include "symx.h"
#include <complex>
#include <cstdarg>
#include <llvm/IR/IntrinsicsX86.h>
using namespace llvm;
extern expr realE(const Val &v);
typedef std::vector<Val> Args;
#define BI(name) static void name(Exec &E, State &s, const PI &pi, Args &a, Val &ret)
#define UNUSED (void)E; (void)s; (void)pi; (void)a; (void)ret

static uint64_t I64(Exec &E, State &s, const Val &v) { return E.concretize(s, v); }

// ---- tokens: symbolic numbers inside text
std::string Exec::token(State &s, const Val &v, int prec) {
  if (v.k != K_SYM) return "";
  std::string key = std::to_string(v.e().id()) + "/" + std::to_string(prec);
  auto it = tokIds.find(key); int id;
  if (it == tokIds.end()) { id = tokVals.size(); tokVals.push_back(v); tokPrec.push_back(prec); tokIds[key] = id; keep.push_back(v.e()); } else id = it->second;
  char b[64]; snprintf(b, 64, "9.1%06d7e+250", id); return b;
}
static int tokId(double d) {
  d = std::fabs(d); if (!(d > 9.0e250 && d < 9.2e250)) return -1;
  char b[64]; snprintf(b, 64, "%.15e", d); std::string t = b; // 9.1dddddd7000000e+250
  if (t.compare(0, 3, "9.1")) return -1;
  int id = atoi(t.substr(3, 6).c_str()); snprintf(b, 64, "9.1%06d7e+250", id); return strtod(b, 0) == d ? id : -1;
}
bool Exec::tokenValue(double d, Val &out) { int id = tokId(d); if (id < 0 || id >= (int)tokVals.size()) return false; out = d < 0 ? fneg(tokVals[id]) : tokVals[id]; return true; }

// ---- C library
BI(b_malloc) { UNUSED; ret = mkInt(64, E.alloc(s, I64(E, s, a[0]), Obj::HEAP)); }
BI(b_calloc) { UNUSED; ret = mkInt(64, E.alloc(s, I64(E, s, a[0]) * I64(E, s, a[1]), Obj::HEAP)); }
BI(b_free) { UNUSED; uint64_t p = I64(E, s, a[0]); if (!p) return; const Obj *o = s.mem.get(p >> 32); if (!o) E.ub(s, "free of a wild pointer"); if (o->freed) E.ub(s, "double free"); if ((p & 0xffffffffu) || o->kind != Obj::HEAP) E.ub(s, "free of a pointer that was not allocated"); s.mem.kill(p >> 32); }
BI(b_realloc) { UNUSED; uint64_t p = I64(E, s, a[0]), n = I64(E, s, a[1]); uint64_t q = E.alloc(s, n, Obj::HEAP); if (p) { const Obj &o = E.objR(s, p, 0, "realloc"); E.memcopy(s, q, p, std::min<uint64_t>(n, o.size)); s.mem.kill(p >> 32); } ret = mkInt(64, q); }
BI(b_amalloc) { UNUSED; ret = mkInt(64, E.alloc(s, I64(E, s, a[1]), Obj::HEAP)); }
BI(b_posix_memalign) { UNUSED; uint64_t q = E.alloc(s, I64(E, s, a[2]), Obj::HEAP); E.store(s, I64(E, s, a[0]), mkInt(64, q), Type::getInt64Ty(E.M->getContext())); ret = mkInt(32, 0); }
BI(b_memcpy) { UNUSED; uint64_t d = I64(E, s, a[0]), b = I64(E, s, a[1]), n = I64(E, s, a[2]); E.memcopy(s, d, b, n); ret = mkInt(64, d); }
BI(b_memset) {
  UNUSED; uint64_t d = I64(E, s, a[0]), n = I64(E, s, a[2]); ret = mkInt(64, d); if (!n) return; uint8_t c = I64(E, s, a[1]);
  Obj &o = E.objW(s, d, n, "write (memset)"); objClear(o, d & 0xffffffffu, n); memset(&o.b[d & 0xffffffffu], c, n);
}
BI(b_memcmp) {
  UNUSED; uint64_t x = I64(E, s, a[0]), y = I64(E, s, a[1]), n = I64(E, s, a[2]);
  if (!n) { ret = mkInt(32, 0); return; }
  const Obj *p = &E.objR(s, x, n, "read"), *q = &E.objR(s, y, n, "read"); uint32_t xo = x & 0xffffffffu, yo = y & 0xffffffffu;
  if (objConcrete(*p, xo, n) && objConcrete(*q, yo, n)) { int r = memcmp(&p->b[xo], &q->b[yo], n); ret = mkInt(32, (u128)(i128)(r < 0 ? -1 : r > 0)); return; }
  for (uint64_t i = 0; i < n; i++) {
    Val u = objReadVal(*s.mem.get(x >> 32), xo + i, 1, false, 8), v = objReadVal(*s.mem.get(y >> 32), yo + i, 1, false, 8);
    if (E.decideV(s, E.icmp(s, CmpInst::ICMP_EQ, u, v))) continue;
    ret = mkInt(32, E.decideV(s, E.icmp(s, CmpInst::ICMP_ULT, u, v)) ? (u128)(i128)-1 : 1); return;
  }
  ret = mkInt(32, 0);
}
BI(b_strlen) { UNUSED; uint64_t x = I64(E, s, a[0]); uint64_t n = 0; while (true) { const Obj &o = E.objR(s, x + n, 1, "read (strlen)"); Val v = objReadVal(o, (x + n) & 0xffffffffu, 1, false, 8); if (E.decideV(s, E.icmp(s, CmpInst::ICMP_EQ, v, mkInt(8, 0)))) break; n++; } ret = mkInt(64, n); }
BI(b_memchr) { UNUSED; uint64_t x = I64(E, s, a[0]), n = I64(E, s, a[2]); Val c = E.castV(s, Instruction::Trunc, a[1], Type::getInt32Ty(E.M->getContext()), Type::getInt8Ty(E.M->getContext())); for (uint64_t i = 0; i < n; i++) { const Obj &o = E.objR(s, x + i, 1, "read (memchr)"); Val v = objReadVal(o, (x + i) & 0xffffffffu, 1, false, 8); if (E.decideV(s, E.icmp(s, CmpInst::ICMP_EQ, v, c))) { ret = mkInt(64, x + i); return; } } ret = mkInt(64, 0); }
BI(b_strchr) { UNUSED; uint64_t x = I64(E, s, a[0]); std::string t = E.cstr(s, x); char c = I64(E, s, a[1]); size_t p = c ? t.find(c) : t.size(); ret = mkInt(64, p == std::string::npos ? 0 : x + p); }
BI(b_strrchr) { UNUSED; uint64_t x = I64(E, s, a[0]); std::string t = E.cstr(s, x); char c = I64(E, s, a[1]); size_t p = c ? t.rfind(c) : t.size(); ret = mkInt(64, p == std::string::npos ? 0 : x + p); }
BI(b_strstr) { UNUSED; uint64_t x = I64(E, s, a[0]); std::string t = E.cstr(s, x); size_t p = t.find(E.cstr(s, I64(E, s, a[1]))); ret = mkInt(64, p == std::string::npos ? 0 : x + p); }
BI(b_strcmp) { UNUSED; std::string x = E.cstr(s, I64(E, s, a[0])), y = E.cstr(s, I64(E, s, a[1])); int r = strcmp(x.c_str(), y.c_str()); ret = mkInt(32, (u128)(i128)(r < 0 ? -1 : r > 0)); }
BI(b_strncmp) { UNUSED; std::string x = E.cstr(s, I64(E, s, a[0])), y = E.cstr(s, I64(E, s, a[1])); int r = strncmp(x.c_str(), y.c_str(), I64(E, s, a[2])); ret = mkInt(32, (u128)(i128)(r < 0 ? -1 : r > 0)); }
BI(b_strcasecmp) { UNUSED; std::string x = E.cstr(s, I64(E, s, a[0])), y = E.cstr(s, I64(E, s, a[1])); int r = strcasecmp(x.c_str(), y.c_str()); ret = mkInt(32, (u128)(i128)r); }
BI(b_strcpy) { UNUSED; uint64_t d = I64(E, s, a[0]); std::string x = E.cstr(s, I64(E, s, a[1])); E.wbytes(s, d, x.c_str(), x.size() + 1); ret = mkInt(64, d); }
BI(b_strncpy) { UNUSED; uint64_t d = I64(E, s, a[0]); std::string x = E.cstr(s, I64(E, s, a[1])); uint64_t n = I64(E, s, a[2]); x.resize(n, 0); E.wbytes(s, d, x.data(), n); ret = mkInt(64, d); }
BI(b_strcat) { UNUSED; uint64_t d = I64(E, s, a[0]); std::string x = E.cstr(s, I64(E, s, a[1])), y = E.cstr(s, d); E.wbytes(s, d + y.size(), x.c_str(), x.size() + 1); ret = mkInt(64, d); }
BI(b_strdup) { UNUSED; std::string x = E.cstr(s, I64(E, s, a[0])); uint64_t d = E.alloc(s, x.size() + 1, Obj::HEAP); E.wbytes(s, d, x.c_str(), x.size() + 1); ret = mkInt(64, d); }

BI(b_strtod) {
  UNUSED; uint64_t p = I64(E, s, a[0]), ep = I64(E, s, a[1]);
  std::string t = E.cstr(s, p); char *end; double d = strtod(t.c_str(), &end);
  if (ep) E.store(s, ep, mkInt(64, p + (end - t.c_str())), Type::getInt64Ty(E.M->getContext()));
  Val v; ret = E.tokenValue(d, v) ? v : mkDbl(d);
}
BI(b_atof) { UNUSED; std::string t = E.cstr(s, I64(E, s, a[0])); double d = atof(t.c_str()); Val v; ret = E.tokenValue(d, v) ? v : mkDbl(d); }
template <bool U> static void b_strtol(Exec &E, State &s, const PI &pi, Args &a, Val &ret) {
  (void)pi; uint64_t p = I64(E, s, a[0]), ep = I64(E, s, a[1]); std::string t = E.cstr(s, p); char *end; int base = a.size() > 2 ? (int)I64(E, s, a[2]) : 10;
  errno = 0; uint64_t v = U ? strtoul(t.c_str(), &end, base) : (uint64_t)strtol(t.c_str(), &end, base);
  if (errno) { auto *g = E.M->getNamedGlobal("__rt_errno"); if (g) E.store(s, E.gaddr[g], mkInt(32, errno), Type::getInt32Ty(E.M->getContext())); }
  if (ep) E.store(s, ep, mkInt(64, p + (end - t.c_str())), Type::getInt64Ty(E.M->getContext())); ret = mkInt(64, v);
}
BI(b_atoi) { UNUSED; ret = mkInt(32, (u128)(i128)atoi(E.cstr(s, I64(E, s, a[0])).c_str())); }
BI(b_atol) { UNUSED; ret = mkInt(64, (u128)(i128)atol(E.cstr(s, I64(E, s, a[0])).c_str())); }
// int __rt_fmt_double(char *buf, double v, int prec, int mode, int flags)
BI(b_fmt_double) {
  UNUSED; uint64_t d = I64(E, s, a[0]); int prec = (int)mkInt(32, I64(E, s, a[2])).s(), mode = I64(E, s, a[3]), fl = I64(E, s, a[4]); std::string r;
  if (a[1].k == K_SYM) {
    double x; if (numeralToDouble(a[1].e(), x)) a[1] = mkDbl(x); }
  if (a[1].k == K_SYM) r = E.token(s, a[1], mode == 1 ? 1000 + prec : prec);
  else { char f[32], b[700]; snprintf(f, 32, "%%%s%s.*%c", fl & 1 ? "+" : "", fl & 2 ? "#" : "", mode == 0 ? (fl & 4 ? 'G' : 'g') : mode == 1 ? 'f' : mode == 2 ? (fl & 4 ? 'E' : 'e') : 'a'); snprintf(b, 700, f, prec, a[1].k == K_UNDEF ? 0.0 : a[1].d()); r = b; }
  E.wbytes(s, d, r.c_str(), r.size() + 1); ret = mkInt(32, r.size());
}
static std::string format(Exec &E, State &s, const std::string &f, Args &a, size_t k) {
  std::string out; size_t i = 0;
  while (i < f.size()) {
    if (f[i] != '%') { out += f[i++]; continue; }
    size_t j = i + 1; std::string spec = "%"; std::string lm;
    while (j < f.size() && strchr("-+ #0123456789.*", f[j])) { if (f[j] == '*') { if (k >= a.size()) E.unsup(s, "printf arguments"); spec += std::to_string((int)mkInt(32, I64(E, s, a[k++])).s()); } else spec += f[j]; j++; }
    while (j < f.size() && strchr("hlLqjzt", f[j])) lm += f[j++];
    char c = f[j++]; i = j; char b[1024];
    if (c == '%') { out += '%'; continue; }
    if (k >= a.size()) E.unsup(s, "printf arguments");
    Val v = a[k++];
    if (strchr("di", c)) { int64_t x = I64(E, s, v); if (v.w <= 32) x = (int64_t)mkInt(32, x).s(); snprintf(b, 1024, (spec + "l" + c).c_str(), (long)x); out += b; }
    else if (strchr("uxXo", c)) { uint64_t x = I64(E, s, v); snprintf(b, 1024, (spec + "l" + c).c_str(), (unsigned long)x); out += b; }
    else if (c == 'c') out += (char)I64(E, s, v);
    else if (c == 's') { std::string t = E.cstr(s, I64(E, s, v)); if (spec == "%") out += t; else { snprintf(b, 1024, (spec + "s").c_str(), t.c_str()); out += b; } }
    else if (c == 'p') { snprintf(b, 1024, "%p", (void *)I64(E, s, v)); out += b; }
    else if (strchr("fFeEgGaA", c)) { int prec = 6; auto dot = spec.find('.'); if (dot != std::string::npos) prec = atoi(spec.c_str() + dot + 1); if (v.k == K_SYM) { double x; if (numeralToDouble(v.e(), x)) v = mkDbl(x); } if (v.k == K_SYM) out += E.token(s, v, strchr("fF", c) ? 1000 + prec : strchr("eE", c) ? prec + 1 : prec); else { snprintf(b, 1024, (spec + c).c_str(), v.d()); out += b; } }
    else E.unsup(s, std::string("printf conversion %") + c);
  }
  return out;
}
static void vfsAppend(State &s, const std::string &fn, const std::string &t);
BI(b_printf) { UNUSED; std::string r = format(E, s, E.cstr(s, I64(E, s, a[0])), a, 1); vfsAppend(s, "<stdout>", r); ret = mkInt(32, r.size()); }
BI(b_puts) { UNUSED; vfsAppend(s, "<stdout>", E.cstr(s, I64(E, s, a[0])) + "\n"); ret = mkInt(32, 1); }
BI(b_putchar) { UNUSED; vfsAppend(s, "<stdout>", std::string(1, (char)I64(E, s, a[0]))); ret = mkInt(32, 1); }
BI(b_snprintf) { UNUSED; std::string r = format(E, s, E.cstr(s, I64(E, s, a[2])), a, 3); uint64_t n = I64(E, s, a[1]); if (n) { std::string t = r.substr(0, n - 1); E.wbytes(s, I64(E, s, a[0]), t.c_str(), t.size() + 1); } ret = mkInt(32, r.size()); }
BI(b_sprintf) { UNUSED; std::string r = format(E, s, E.cstr(s, I64(E, s, a[1])), a, 2); E.wbytes(s, I64(E, s, a[0]), r.c_str(), r.size() + 1); ret = mkInt(32, r.size()); }
// int __rt_format(char *buf, size_t n, const char *fmt, ...) is snprintf; fprintf goes through the runtime's FILE model
BI(b_exit) { UNUSED; E.doExit(s, (int)I64(E, s, a[0])); }
BI(b_abort) { UNUSED; E.popToMark(s, 3000); }
BI(b_zero32) { UNUSED; ret = mkInt(32, 0); }
BI(b_zero64) { UNUSED; ret = mkInt(64, 0); }
BI(b_zerod) { UNUSED; ret = mkDbl(0); }
BI(b_void) { UNUSED; }
BI(b_arg0) { UNUSED; ret = a[0]; }
BI(b_getenv) { UNUSED; std::string n = E.cstr(s, I64(E, s, a[0])); auto it = s.env.find(n); if (it == s.env.end()) { ret = mkInt(64, 0); return; } uint64_t p = E.alloc(s, it->second.size() + 1, Obj::HEAP); E.wbytes(s, p, it->second.c_str(), it->second.size() + 1); ret = mkInt(64, p); }
BI(b_setenv) { UNUSED; std::string n = E.cstr(s, I64(E, s, a[0])); s.env[n] = E.cstr(s, I64(E, s, a[1])); ret = mkInt(32, 0); }
BI(b_unsetenv) { UNUSED; s.env.erase(E.cstr(s, I64(E, s, a[0]))); ret = mkInt(32, 0); }

// ---- C++ ABI
BI(b_cxa_alloc) { UNUSED; ret = mkInt(64, E.alloc(s, I64(E, s, a[0]), Obj::HEAP)); }
BI(b_cxa_throw) { UNUSED; uint64_t o = I64(E, s, a[0]); Exc e{o, I64(E, s, a[1]), I64(E, s, a[2])}; s.excs[o] = e; E.unwindTo(s, o); }
BI(b_cxa_begin) { UNUSED; uint64_t o = I64(E, s, a[0]); s.caught.push_back(o); ret = mkInt(64, o); }
BI(b_cxa_end) { UNUSED; if (!s.caught.empty()) s.caught.pop_back(); }
BI(b_cxa_rethrow) { UNUSED; if (s.caught.empty()) { E.popToMark(s, 3000); return; } uint64_t o = s.caught.back(); E.unwindTo(s, o); }
BI(b_uncaught) { UNUSED; ret = mkInt(32, 0); }
BI(b_guard_acquire) { UNUSED; uint64_t p = I64(E, s, a[0]); Val v = E.load(s, p, Type::getInt8Ty(E.M->getContext())); ret = mkInt(32, v.lo ? 0 : 1); }
BI(b_guard_release) { UNUSED; E.store(s, I64(E, s, a[0]), mkInt(8, 1), Type::getInt8Ty(E.M->getContext())); }
static bool dynFind(Exec &E, State &s, uint64_t t, uint64_t dst, int64_t off, int64_t &res, int depth) {
  if (t == dst) { res = off; return true; } if (depth > 20) return false;
  const Obj *o = s.mem.get(t >> 32); if (!o) return false;
  { const Obj *d = s.mem.get(dst >> 32); if (d && d->name == o->name) { res = off; return true; } }
  auto *g = E.M->getNamedGlobal(o->name); if (!g || !g->hasInitializer()) return false; auto *cs = dyn_cast<ConstantStruct>(g->getInitializer()); if (!cs) return false;
  if (cs->getNumOperands() == 3) return dynFind(E, s, E.evalConst(cs->getOperand(2)).lo, dst, off, res, depth + 1);
  for (unsigned i = 4; i + 1 < cs->getNumOperands(); i += 2) { int64_t fl = (int64_t)E.evalConst(cs->getOperand(i + 1)).lo; if (dynFind(E, s, E.evalConst(cs->getOperand(i)).lo, dst, off + (fl >> 8), res, depth + 1)) return true; }
  return false;
}
BI(b_dynamic_cast) {
  UNUSED; uint64_t p = I64(E, s, a[0]), dst = I64(E, s, a[2]); Type *T = Type::getInt64Ty(E.M->getContext());
  uint64_t vp = E.load(s, p, T).lo; int64_t top = (int64_t)E.load(s, vp - 16, T).lo; uint64_t ti = E.load(s, vp - 8, T).lo; int64_t off;
  if (dynFind(E, s, ti, dst, 0, off, 0)) ret = mkInt(64, p + top + off); else ret = mkInt(64, 0);
}

// ---- math
static const char *mathBase(const std::string &n) { static std::set<std::string> fs{"exp", "log", "log10", "tanh", "atan", "sin", "cos", "tan", "sinh", "cosh", "exp2", "log2", "asin", "acos", "erf", "erfc", "asinh", "acosh", "atanh", "log1p", "expm1", "cbrt", "tgamma", "lgamma"}; auto it = fs.find(n); return it == fs.end() ? nullptr : it->c_str(); }
static void b_math(Exec &E, State &s, const PI &pi, Args &a, Val &ret) {
  std::string n = pi.callee->getName().str(); if (!mathBase(n)) n.pop_back();
  Val x = a[0].k == K_UNDEF ? mkDbl(0) : a[0]; ret = E.apply(s, n, x);
}
static Val powV(Exec &E, State &s, const Val &x, const Val &y) {
  if (x.k != K_SYM && y.k != K_SYM) return mkDbl(std::pow(x.d(), y.d()));
  if (y.k != K_SYM) {
    double n = y.d();
    if (n == 0) return mkDbl(1);
    if (n == std::floor(n) && std::fabs(n) <= 16) { Val r = x; for (int i = 1; i < std::fabs(n); i++) r = E.fbin(s, Instruction::FMul, r, x, false); return n < 0 ? E.fbin(s, Instruction::FDiv, mkDbl(1), r, false) : r; }
    if (n == 0.5) return E.sqrtV(s, x);
    if (n == 1.5) return E.fbin(s, Instruction::FMul, x, E.sqrtV(s, x), false);
    if (E.decide(s, x.e() < 0)) return mkDbl(NAN);
    if (E.decide(s, x.e() == 0)) return n > 0 ? mkDbl(0) : mkDbl(INFINITY);
    Val l = E.apply(s, "log", x); return E.apply(s, "exp", E.fbin(s, Instruction::FMul, y, l, false));
  }
  if (x.k != K_SYM) { if (x.d() <= 0) E.unsup(s, "pow of a non-positive base with a symbolic exponent"); if (x.d() == 1) return mkDbl(1); return E.apply(s, "exp", E.fbin(s, Instruction::FMul, mkDbl(std::log(x.d())), y, false)); }
  if (E.decide(s, x.e() <= 0)) E.unsup(s, "pow of a non-positive symbolic base");
  return E.apply(s, "exp", E.fbin(s, Instruction::FMul, y, E.apply(s, "log", x), false));
}
BI(b_pow) { UNUSED; ret = powV(E, s, a[0], a[1]); }
static Val hypotV(Exec &E, State &s, const Val &x, const Val &y) {
  if (x.k != K_SYM && y.k != K_SYM) return mkDbl(std::hypot(x.d(), y.d()));
  if (x.k != K_SYM && x.d() == 0) return E.fabsV(y);
  if (y.k != K_SYM && y.d() == 0) return E.fabsV(x);
  Val q = E.fbin(s, Instruction::FAdd, E.fbin(s, Instruction::FMul, x, x, false), E.fbin(s, Instruction::FMul, y, y, false), false); if (q.k != K_SYM) return E.sqrtV(s, q);
  { bool ok; Val r = E.canonSqrt(q, ok); if (ok) return r; }
  return mkReal(E.freshApp(s, "hypot", q.e())); // a sum of squares: no domain to check, and the defining equation is only used when v >= 0 does not settle a query
}
BI(b_hypot) { UNUSED; ret = hypotV(E, s, a[0], a[1]); }
static Val atan2V(Exec &E, State &s, const Val &y, const Val &x) {
  if (x.k != K_SYM && y.k != K_SYM) return mkDbl(std::atan2(y.d(), x.d()));
  auto pos = [&](const Val &v) { return E.decideV(s, E.fcmp(s, CmpInst::FCMP_OGT, v, mkDbl(0))); };
  auto zero = [&](const Val &v) { return E.decideV(s, E.fcmp(s, CmpInst::FCMP_OEQ, v, mkDbl(0))); };
  if (zero(x)) { if (zero(y)) return mkDbl(0); return mkDbl(pos(y) ? M_PI_2 : -M_PI_2); }
  bool xp = pos(x); if (zero(y)) return mkDbl(xp ? 0 : M_PI);
  Val t = E.apply(s, "atan", E.fbin(s, Instruction::FDiv, y, x, false)); if (xp) return t;
  return E.fbin(s, Instruction::FAdd, t, mkDbl(pos(y) ? M_PI : -M_PI), false);
}
BI(b_atan2) { UNUSED; ret = atan2V(E, s, a[0], a[1]); }
BI(b_sqrt) { UNUSED; ret = E.sqrtV(s, a[0].k == K_UNDEF ? mkDbl(0) : a[0]); }
BI(b_fabs) { UNUSED; ret = E.fabsV(a[0]); }
BI(b_floor) { UNUSED; ret = E.floorV(s, a[0], 0); }
BI(b_ceil) { UNUSED; ret = E.floorV(s, a[0], 1); }
BI(b_trunc) { UNUSED; ret = E.floorV(s, a[0], 2); }
BI(b_round) { UNUSED; ret = E.floorV(s, a[0], 3); }
BI(b_rint) { UNUSED; ret = E.floorV(s, a[0], 4); }
BI(b_lround) { UNUSED; Val r = E.floorV(s, a[0], 3); ret = E.castV(s, Instruction::FPToSI, r, Type::getDoubleTy(E.M->getContext()), Type::getInt64Ty(E.M->getContext())); }
BI(b_lrint) { UNUSED; Val r = E.floorV(s, a[0], 4); ret = E.castV(s, Instruction::FPToSI, r, Type::getDoubleTy(E.M->getContext()), Type::getInt64Ty(E.M->getContext())); }
static Val fmm(Exec &E, State &s, const Val &x, const Val &y, bool mx) {
  if (x.k == K_DBL && std::isnan(x.d())) return y; if (y.k == K_DBL && std::isnan(y.d())) return x;
  return E.selectV(s, E.fcmp(s, mx ? CmpInst::FCMP_OLT : CmpInst::FCMP_OLT, mx ? x : y, mx ? y : x), y, x, Type::getDoubleTy(E.M->getContext()));
}
BI(b_fmax) { UNUSED; ret = fmm(E, s, a[0], a[1], true); }
BI(b_fmin) { UNUSED; ret = fmm(E, s, a[0], a[1], false); }
BI(b_fmod) { UNUSED; ret = E.fbin(s, Instruction::FRem, a[0], a[1], false); }
BI(b_frexp) { UNUSED; if (a[0].k == K_SYM) E.unsup(s, "frexp of a symbolic value"); int e; double d = std::frexp(a[0].d(), &e); E.store(s, I64(E, s, a[1]), mkInt(32, (u128)(i128)e), Type::getInt32Ty(E.M->getContext())); ret = mkDbl(d); }
BI(b_modf) { UNUSED; Val t = E.floorV(s, a[0], 2); E.store(s, I64(E, s, a[1]), t, Type::getDoubleTy(E.M->getContext())); ret = E.fbin(s, Instruction::FSub, a[0], t, false); }
BI(b_ldexp) { UNUSED; int n = (int)mkInt(32, I64(E, s, a[1])).s(); ret = E.fbin(s, Instruction::FMul, a[0], mkDbl(std::ldexp(1.0, n)), false); }
BI(b_nextafter) { UNUSED; if (a[0].k == K_SYM || a[1].k == K_SYM) E.unsup(s, "nextafter of a symbolic value"); ret = mkDbl(std::nextafter(a[0].d(), a[1].d())); }
BI(b_copysign) {
  UNUSED; if (a[0].k != K_SYM && a[1].k != K_SYM) { ret = mkDbl(std::copysign(a[0].d(), a[1].d())); return; }
  Val x = E.fabsV(a[0]); if (a[1].k != K_SYM) { ret = std::signbit(a[1].d()) ? E.fneg(x) : x; return; }
  ret = E.selectV(s, mkBool(a[1].e() < 0), E.fneg(x), x, Type::getDoubleTy(E.M->getContext()));
}
BI(b_signbit) { UNUSED; ret = a[0].k == K_SYM ? mkInt(32, E.decide(s, a[0].e() < 0)) : mkInt(32, std::signbit(a[0].d())); }
BI(b_isnan) { UNUSED; ret = mkInt(32, a[0].k == K_DBL && std::isnan(a[0].d())); }
BI(b_isinf) { UNUSED; ret = mkInt(32, a[0].k == K_DBL && std::isinf(a[0].d())); }
BI(b_finite) { UNUSED; ret = mkInt(32, !(a[0].k == K_DBL && !std::isfinite(a[0].d()))); }
// complex
static bool conc(const Args &a) { for (auto &x : a) if (x.k == K_SYM) return false; return true; }
static Val cplx(const Val &r, const Val &i) { return mkAgg({r, i}); }
BI(b_muldc3) {
  UNUSED; auto m = [&](const Val &x, const Val &y) { return E.fbin(s, Instruction::FMul, x, y, false); };
  if (conc(a)) { std::complex<double> z = std::complex<double>(a[0].d(), a[1].d()) * std::complex<double>(a[2].d(), a[3].d()); ret = cplx(mkDbl(z.real()), mkDbl(z.imag())); return; }
  ret = cplx(E.fbin(s, Instruction::FSub, m(a[0], a[2]), m(a[1], a[3]), false), E.fbin(s, Instruction::FAdd, m(a[0], a[3]), m(a[1], a[2]), false));
}
static Val cdiv(Exec &E, State &s, const Val &p, const Val &q, const Val &c, const Val &d) {
  auto m = [&](const Val &x, const Val &y) { return E.fbin(s, Instruction::FMul, x, y, false); };
  auto add = [&](const Val &x, const Val &y) { return E.fbin(s, Instruction::FAdd, x, y, false); };
  auto sub = [&](const Val &x, const Val &y) { return E.fbin(s, Instruction::FSub, x, y, false); };
  auto dv = [&](const Val &x, const Val &y) { return E.fbin(s, Instruction::FDiv, x, y, false); };
  if (d.k == K_DBL && d.d() == 0) return cplx(dv(p, c), dv(q, c));
  Val den = add(m(c, c), m(d, d));
  return cplx(dv(add(m(p, c), m(q, d)), den), dv(sub(m(q, c), m(p, d)), den));
}
BI(b_divdc3) { UNUSED; if (conc(a)) { std::complex<double> z = std::complex<double>(a[0].d(), a[1].d()) / std::complex<double>(a[2].d(), a[3].d()); ret = cplx(mkDbl(z.real()), mkDbl(z.imag())); return; } ret = cdiv(E, s, a[0], a[1], a[2], a[3]); }
BI(b_cabs) { UNUSED; ret = hypotV(E, s, a[0], a[1]); }
BI(b_carg) { UNUSED; ret = atan2V(E, s, a[1], a[0]); }
BI(b_clog) {
  UNUSED; if (conc(a)) { auto z = std::log(std::complex<double>(a[0].d(), a[1].d())); ret = cplx(mkDbl(z.real()), mkDbl(z.imag())); return; }
  Val r2 = E.fbin(s, Instruction::FAdd, E.fbin(s, Instruction::FMul, a[0], a[0], false), E.fbin(s, Instruction::FMul, a[1], a[1], false), false);
  Val th = atan2V(E, s, a[1], a[0]); Val l = E.apply(s, "log", r2); ret = cplx(E.fbin(s, Instruction::FMul, mkDbl(0.5), l, false), th);
}
BI(b_cpow) { UNUSED; if (!conc(a)) E.unsup(s, "cpow of symbolic arguments"); auto z = std::pow(std::complex<double>(a[0].d(), a[1].d()), std::complex<double>(a[2].d(), a[3].d())); ret = cplx(mkDbl(z.real()), mkDbl(z.imag())); }
BI(b_cexp) { UNUSED; if (conc(a)) { auto z = std::exp(std::complex<double>(a[0].d(), a[1].d())); ret = cplx(mkDbl(z.real()), mkDbl(z.imag())); return; } Val r = E.apply(s, "exp", a[0]), c = E.apply(s, "cos", a[1]), n = E.apply(s, "sin", a[1]); ret = cplx(E.fbin(s, Instruction::FMul, r, c, false), E.fbin(s, Instruction::FMul, r, n, false)); }
BI(b_csqrt) {
  UNUSED; if (conc(a)) { auto z = std::sqrt(std::complex<double>(a[0].d(), a[1].d())); ret = cplx(mkDbl(z.real()), mkDbl(z.imag())); return; }
  Val r = hypotV(E, s, a[0], a[1]); auto half = [&](const Val &x) { return E.fbin(s, Instruction::FMul, mkDbl(0.5), x, false); };
  Val re = E.sqrtV(s, half(E.fbin(s, Instruction::FAdd, r, a[0], false))), im = E.sqrtV(s, half(E.fbin(s, Instruction::FSub, r, a[0], false)));
  bool neg = a[1].k == K_SYM ? E.decide(s, a[1].e() < 0) : std::signbit(a[1].d()); ret = cplx(re, neg ? E.fneg(im) : im);
}

// ---- virtual file system
static std::string vpath(std::string p) { while (p.compare(0, 2, "./") == 0) p = p.substr(2); while (p.size() > 1 && p.back() == '/') p.pop_back(); return p; }
static std::vector<std::string> vnames; static std::map<std::string, int> vids;
static int vid(const std::string &p) { auto it = vids.find(p); if (it != vids.end()) return it->second; vnames.push_back(p); return vids[p] = vnames.size() - 1; }
static Obj &fileW(State &s, const std::string &n) { auto &o = s.files[n]; if (!o) { o = std::make_shared<Obj>(); o->kind = Obj::FILEO; } if (o.use_count() > 1) o = std::make_shared<Obj>(*o); return *o; }
static void vfsAppend(State &s, const std::string &fn, const std::string &t) { Obj &o = fileW(s, fn); o.b.insert(o.b.end(), t.begin(), t.end()); o.size = o.b.size(); }
static bool parentOk(State &s, const std::string &p) { auto k = p.rfind('/'); if (k == std::string::npos || k == 0) return true; std::string d = p.substr(0, k); return d == "/tmp" || d == "." || s.dirs.count(d); }
BI(v_open) { // mode 0 read, 1 truncate, 2 append, 3 read/write existing
  UNUSED; std::string p = vpath(E.cstr(s, I64(E, s, a[0]))); int m = I64(E, s, a[1]);
  if (s.dirs.count(p) || p.empty()) { ret = mkInt(32, (u128)(i128)-1); return; }
  if (p == "<stdin>") fileW(s, p);
  bool ex = s.files.count(p);
  if ((m == 0 || m == 3) && !ex) { ret = mkInt(32, (u128)(i128)-1); return; }
  if (m != 0 && s.env.count("__unwritable:" + p)) { ret = mkInt(32, (u128)(i128)-1); return; }
  if (!ex && !parentOk(s, p)) { ret = mkInt(32, (u128)(i128)-1); return; }
  if (m == 1) { auto o = std::make_shared<Obj>(); o->kind = Obj::FILEO; s.files[p] = o; }
  else if (m == 2 && !ex) fileW(s, p);
  ret = mkInt(32, vid(p));
}
BI(v_size) { UNUSED; int h = I64(E, s, a[0]); auto it = s.files.find(vnames[h]); ret = mkInt(64, it == s.files.end() ? 0 : it->second->size); }
BI(v_read) {
  UNUSED; int h = I64(E, s, a[0]); uint64_t off = I64(E, s, a[1]), d = I64(E, s, a[2]), n = I64(E, s, a[3]);
  auto it = s.files.find(vnames[h]); uint64_t sz = it == s.files.end() ? 0 : it->second->size; if (off >= sz) { ret = mkInt(64, 0); return; } n = std::min(n, sz - off);
  if (n) { E.objW(s, d, n, "write (file read)"); Obj &o = *s.mem.getW(d >> 32); objCopy(o, d & 0xffffffffu, *it->second, off, n); } ret = mkInt(64, n);
}
BI(v_write) {
  UNUSED; int h = I64(E, s, a[0]); uint64_t off = I64(E, s, a[1]), d = I64(E, s, a[2]), n = I64(E, s, a[3]);
  if (s.env.count("__full:" + vnames[h])) { ret = mkInt(64, 0); return; }
  if (n) { E.objR(s, d, n, "read (file write)"); Obj &o = fileW(s, vnames[h]); if (off + n > o.size) { o.size = off + n; o.b.resize(o.size, 0); } objCopy(o, off, *s.mem.get(d >> 32), d & 0xffffffffu, n); } ret = mkInt(64, n);
}
BI(v_getc) { UNUSED; int h = I64(E, s, a[0]); uint64_t off = I64(E, s, a[1]); auto it = s.files.find(vnames[h]); if (it == s.files.end() || off >= it->second->size) { ret = mkInt(32, (u128)(i128)-1); return; } Val v = objReadVal(*it->second, off, 1, false, 8); ret = E.castV(s, Instruction::ZExt, v, Type::getInt8Ty(E.M->getContext()), Type::getInt32Ty(E.M->getContext())); }
BI(v_exists) { UNUSED; std::string p = vpath(E.cstr(s, I64(E, s, a[0]))); ret = mkInt(32, s.files.count(p) ? 1 : (s.dirs.count(p) || p == "." || p == "/tmp") ? 2 : 0); }
BI(v_remove) { UNUSED; std::string p = vpath(E.cstr(s, I64(E, s, a[0]))); bool r = s.files.erase(p); r |= s.dirs.erase(p); ret = mkInt(32, r); }
BI(v_remove_all) { UNUSED; std::string p = vpath(E.cstr(s, I64(E, s, a[0]))); int n = 0; for (auto it = s.files.begin(); it != s.files.end();) if (it->first == p || it->first.compare(0, p.size() + 1, p + "/") == 0) { it = s.files.erase(it); n++; } else ++it; for (auto it = s.dirs.begin(); it != s.dirs.end();) if (*it == p || it->compare(0, p.size() + 1, p + "/") == 0) { it = s.dirs.erase(it); n++; } else ++it; ret = mkInt(32, n); }
BI(v_rename) { UNUSED; std::string p = vpath(E.cstr(s, I64(E, s, a[0]))), q = vpath(E.cstr(s, I64(E, s, a[1]))); auto it = s.files.find(p); if (it == s.files.end() || !parentOk(s, q)) { ret = mkInt(32, 0); return; } ObjP o = it->second; s.files.erase(it); s.files[q] = o; ret = mkInt(32, 1); }
BI(v_mkdir) { UNUSED; std::string p = vpath(E.cstr(s, I64(E, s, a[0]))); bool n = !s.dirs.count(p) && !s.files.count(p); if (n) s.dirs.insert(p); ret = mkInt(32, n); }
BI(v_copy) { UNUSED; std::string p = vpath(E.cstr(s, I64(E, s, a[0]))), q = vpath(E.cstr(s, I64(E, s, a[1]))); auto it = s.files.find(p); if (it == s.files.end()) { ret = mkInt(32, 0); return; } s.files[q] = it->second; ret = mkInt(32, 1); }
BI(v_fault) { UNUSED; std::string k = E.cstr(s, I64(E, s, a[0])), p = vpath(E.cstr(s, I64(E, s, a[1]))); s.env["__" + k + ":" + p] = "1"; }
// number of significant digits a text field was written with (concrete text: its own length)
BI(v_token_prec) { UNUSED; double d = strtod(E.cstr(s, I64(E, s, a[0])).c_str(), nullptr); int id = tokId(d); ret = mkInt(32, (u128)(i128)(id < 0 ? -1 : E.tokPrec[id])); }

// ---- harness API
static Val newInput(Exec &E, State &s, const std::string &n, int type, double lo, double hi) {
  auto it = E.inputIdx.find(n);
  if (it == E.inputIdx.end()) { expr e = type == 0 ? ZC->int_const(n.c_str()) : ZC->real_const(n.c_str()); E.inputIdx[n] = E.inputs.size(); E.inputs.push_back({n, e, type, lo, hi}); }
  expr e = E.inputs[E.inputIdx[n]].e;
  if (type == 0) { E.addPC(s, e >= intE((i128)lo) && e <= intE((i128)hi)); s.model.reset(); return mkSymInt(e, 64, (i128)lo, (i128)hi); }
  if (E.pin >= 0) { uint64_t h = 1469598103934665603ull + 7919 * E.pin; for (char c : n) h = (h ^ (unsigned char)c) * 1099511628211ull; h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32; double u = (h & 0xffff) / 65536., l = lo, r = hi; if (r - l > 64) { l = std::max(l, -4.0); r = std::min(r, l + 8); if (l > r) { l = lo; r = hi; } } double x = std::round((l + u * (r - l)) * 64) / 64; x = std::min(std::max(x, lo), hi); E.addPC(s, e == dblE(x)); s.model.reset(); return mkDbl(x); }
  E.addPC(s, e >= dblE(lo) && e <= dblE(hi)); s.model.reset(); Val v; v.k = K_SYM; v.w = 0; v.p = std::make_shared<Pay>(e); return v;
}
BI(h_double) { UNUSED; ret = newInput(E, s, E.cstr(s, I64(E, s, a[0])), 1, a[1].d(), a[2].d()); }
BI(h_int) { UNUSED; ret = newInput(E, s, E.cstr(s, I64(E, s, a[0])), 0, (double)a[1].s(), (double)a[2].s()); }
BI(h_choice) { // handled in two phases because concretize may fork and re-execute
  UNUSED; std::string n = E.cstr(s, I64(E, s, a[0]));
  Val v; auto it = E.inputIdx.find(n); std::string key = "__choice:" + n;
  if (!s.env.count(key)) { v = newInput(E, s, n, 0, (double)a[1].s(), (double)a[2].s()); s.env[key] = "1"; } else v = mkSymInt(E.inputs[it->second].e, 64, a[1].s(), a[2].s());
  ret = mkInt(64, E.concretize(s, v));
}
BI(h_assume) { UNUSED; if (a[0].k != K_SYM) { if (!(a[0].lo & 0xffffffff)) throw PathEnd{"assume", 1}; return; } expr c = a[0].e().is_bool() ? a[0].e() : a[0].e() != 0; c = c.simplify(); if (c.is_true()) return; if (c.is_false()) throw PathEnd{"assume", 1}; E.addPC(s, c); bool v; if (!E.modelTrue(s, c, v) || !v) { s.model.reset(); if (!E.feasible(s)) throw PathEnd{"assume", 1}; } }
BI(h_check) { UNUSED; Val c = a[0]; if (c.k == K_SYM && !c.e().is_bool()) c = mkBool(c.e() != 0); else if (c.k == K_INT) c = mkInt(1, c.lo != 0); E.check(s, c, E.cstr(s, I64(E, s, a[1]))); }
BI(h_check_close) { UNUSED; E.checkClose(s, a[0].k == K_UNDEF ? mkDbl(0) : a[0], a[1].k == K_UNDEF ? mkDbl(0) : a[1], a[2].d(), E.cstr(s, I64(E, s, a[3]))); }
BI(h_run_main) { UNUSED; uint64_t f = I64(E, s, a[0]); const Obj *o = s.mem.get(f >> 32); auto snap = std::make_shared<Mem>(s.mem); Args b{mkInt(32, I64(E, s, a[1])), a[2]}; b.resize(std::min<size_t>(2, o->fn->arg_size())); s.files.erase("<stdout>"); s.files.erase("<stderr>"); E.pushFrame(s, o->fn, b, 2); s.stack.back()->snap = snap; }
BI(h_guard) { UNUSED; uint64_t f = I64(E, s, a[0]); const Obj *o = s.mem.get(f >> 32); Args b{a[1]}; E.pushFrame(s, o->fn, b, 1); }
BI(h_param) { UNUSED; std::string n = E.cstr(s, I64(E, s, a[0])); long v = E.params.count(n) ? E.params[n] : (long)mkInt(64, a[1].u()).s(); E.usedParams[n] = v; ret = mkInt(64, (u128)(i128)v); }
BI(h_note) { UNUSED; E.note(E.cstr(s, I64(E, s, a[0]))); if (getenv("SYMX_NOTE")) fprintf(stderr, "NOTE %s\n", E.cstr(s, I64(E, s, a[0])).c_str()); }
BI(h_dump) { UNUSED; std::string n = E.cstr(s, I64(E, s, a[0])); std::string v = a[1].k == K_SYM ? a[1].e().simplify().to_string() : a[1].k == K_DBL ? std::to_string(a[1].d()) : "undef"; fprintf(stderr, "DUMP %s = %s\n", n.c_str(), v.c_str()); }
BI(h_one) { UNUSED; ret = mkInt(32, 1); }
// h_decide: fork now on a condition (turns a symbolic condition into a concrete one)
BI(h_decide) { UNUSED; bool b = a[0].k == K_SYM ? E.decide(s, a[0].e().is_bool() ? a[0].e() : a[0].e() != 0) : (a[0].lo & 0xffffffff) != 0; ret = mkInt(32, b); }
// arbitrary value of a stub (not an input of the program: replay does not set it)
expr realE(const Val &v);
// sym_same: are the two values provably equal on this path? (an unknown answer counts as no)
BI(h_czero) { UNUSED; ret = mkInt(32, a[0].k != K_SYM && a[0].d() == 0); }
BI(h_same) { UNUSED; bool b = false; if (a[0].k != K_SYM && a[1].k != K_SYM) b = a[0].lo == a[1].lo; else { Val df = E.canon(mkReal(realE(a[0]) - realE(a[1]))); if (df.k == K_DBL) b = df.d() == 0; expr x = realE(a[0]), y = realE(a[1]); bool v = true; if (b) ; else if (x.id() == y.id()) b = true; else if (E.modelTrue(s, x == y, v) && !v) b = false; else b = E.query(s, {x != y}, 3000, nullptr, false) == z3::unsat; } ret = mkInt(32, b); }
// exact arithmetic (also on concrete operands)
static Val xop(Exec &E, State &s, unsigned op, const Val &a, const Val &b) { if ((a.k != K_SYM && !std::isfinite(a.d())) || (b.k != K_SYM && !std::isfinite(b.d()))) return E.fbin(s, op, a, b, false); expr x = realE(a), y = realE(b); return E.canon(mkReal(op == llvm::Instruction::FAdd ? x + y : op == llvm::Instruction::FSub ? x - y : op == llvm::Instruction::FMul ? x * y : x / y)); }
BI(h_fresh) { UNUSED; static int n = 0; expr e = ZC->real_const(("_stub" + std::to_string(n++)).c_str()); Val v; v.k = K_SYM; v.p = std::make_shared<Pay>(e); ret = v; E.stubs.insert("arbitrary value: " + E.cstr(s, I64(E, s, a[0]))); }
BI(h_stub) { UNUSED; E.stubs.insert(E.cstr(s, I64(E, s, a[0]))); }

// ---- GMP floats as exact reals (value kept in the first word of the object)
static Val mget(Exec &E, State &s, const Val &p) { uint64_t x = I64(E, s, p); E.objR(s, x, 24, "mpf read"); return objReadVal(*s.mem.get(x >> 32), x & 0xffffffffu, 8, true, 0); }
static void mput(Exec &E, State &s, const Val &p, const Val &v) { uint64_t x = I64(E, s, p); Obj &o = E.objW(s, x, 24, "mpf write"); objWriteVal(o, x & 0xffffffffu, v, 8); }
static Val mround(const Val &v) { // keep concrete rationals at a bounded size (the program's own precision is finite too)
  if (v.k != K_SYM || !v.e().is_numeral()) return v;
  std::string t = Z3_get_numeral_string(*ZC, v.e()); if (t.size() < 700) return v;
  mpq_t q; mpq_init(q); mpq_set_str(q, t.c_str(), 10); mpf_t f; mpf_init2(f, 1000); mpf_set_q(f, q); mpq_set_f(q, f); char *c = mpq_get_str(0, 10, q); expr e = ZC->real_val(c); free(c); mpq_clear(q); mpf_clear(f);
  Val r; r.k = K_SYM; r.p = std::make_shared<Pay>(e); return r;
}
// exact arithmetic: concrete operands become numerals
static Val msym(const Val &v) { if (v.k == K_SYM) return v; Val r; r.k = K_SYM; r.p = std::make_shared<Pay>(dblE(v.k == K_UNDEF ? 0 : v.d())); return r; }
static Val mop(Exec &E, State &s, unsigned op, const Val &x0, const Val &y0) {
  Val x = msym(x0), y = msym(y0);
  if (x.e().is_numeral() && y.e().is_numeral()) {
    expr e = op == Instruction::FAdd ? x.e() + y.e() : op == Instruction::FSub ? x.e() - y.e() : op == Instruction::FMul ? x.e() * y.e() : x.e() / y.e();
    if (op == Instruction::FDiv && std::string(Z3_get_numeral_string(*ZC, y.e())) == "0") { E.popToMark(s, 3008); return mkDbl(0); }
    Val r; r.k = K_SYM; r.p = std::make_shared<Pay>(e.simplify()); return mround(r);
  }
  return msym(xop(E, s, op, x, y));
}
BI(g_init) { UNUSED; mput(E, s, a[0], mkDbl(0)); }
BI(g_prec) { UNUSED; ret = mkInt(64, 400); }
BI(g_set_d) { UNUSED; mput(E, s, a[0], a[1]); }
BI(g_set) { UNUSED; mput(E, s, a[0], mget(E, s, a[1])); }
BI(g_init_set) { UNUSED; mput(E, s, a[0], mget(E, s, a[1])); }
BI(g_get_d) { UNUSED; Val v = mget(E, s, a[0]); if (v.k == K_SYM) { double d; if (numeralToDouble(v.e(), d)) v = mkDbl(d); } ret = v; }
BI(g_set_str) { UNUSED; std::string t = E.cstr(s, I64(E, s, a[1])); char *e; double d = strtod(t.c_str(), &e); bool ok = !t.empty() && !*e; if (ok) mput(E, s, a[0], mkDbl(d)); ret = mkInt(32, ok ? 0 : (u128)(i128)-1); }
BI(g_set_ui) { UNUSED; mput(E, s, a[0], E.castV(s, Instruction::UIToFP, a[1], Type::getInt64Ty(E.M->getContext()), Type::getDoubleTy(E.M->getContext()))); }
BI(g_set_si) { UNUSED; mput(E, s, a[0], E.castV(s, Instruction::SIToFP, a[1], Type::getInt64Ty(E.M->getContext()), Type::getDoubleTy(E.M->getContext()))); }
BI(g_add) { UNUSED; mput(E, s, a[0], mop(E, s, Instruction::FAdd, mget(E, s, a[1]), mget(E, s, a[2]))); }
BI(g_sub) { UNUSED; mput(E, s, a[0], mop(E, s, Instruction::FSub, mget(E, s, a[1]), mget(E, s, a[2]))); }
BI(g_mul) { UNUSED; mput(E, s, a[0], mop(E, s, Instruction::FMul, mget(E, s, a[1]), mget(E, s, a[2]))); }
BI(g_div) {
  UNUSED; Val y = mget(E, s, a[2]), x = mget(E, s, a[1]);
  bool z = y.k == K_SYM ? E.decide(s, y.e() == 0) : y.d() == 0;
  if (z) { E.popToMark(s, 3008); return; } // GMP aborts on division by zero
  mput(E, s, a[0], mop(E, s, Instruction::FDiv, x, y));
}
static Val ui2d(Exec &E, State &s, const Val &v) { return E.castV(s, Instruction::UIToFP, v, Type::getInt64Ty(E.M->getContext()), Type::getDoubleTy(E.M->getContext())); }
BI(g_add_ui) { UNUSED; mput(E, s, a[0], mop(E, s, Instruction::FAdd, mget(E, s, a[1]), ui2d(E, s, a[2]))); }
BI(g_mul_ui) { UNUSED; mput(E, s, a[0], mop(E, s, Instruction::FMul, mget(E, s, a[1]), ui2d(E, s, a[2]))); }
BI(g_div_ui) { UNUSED; mput(E, s, a[0], mop(E, s, Instruction::FDiv, mget(E, s, a[1]), ui2d(E, s, a[2]))); }
BI(g_ui_div) { UNUSED; Val y = mget(E, s, a[2]); bool z = y.k == K_SYM ? E.decide(s, y.e() == 0) : y.d() == 0; if (z) { E.popToMark(s, 3008); return; } mput(E, s, a[0], mop(E, s, Instruction::FDiv, ui2d(E, s, a[1]), y)); }
BI(g_neg) { UNUSED; mput(E, s, a[0], E.canon(E.fneg(mget(E, s, a[1])))); }
BI(g_abs) { UNUSED; mput(E, s, a[0], E.fabsV(mget(E, s, a[1]))); }
BI(g_sqrt) {
  UNUSED; Val x = mget(E, s, a[1]);
  bool ng = x.k == K_SYM ? E.decide(s, x.e() < 0) : x.d() < 0; if (ng) { E.popToMark(s, 3008); return; } // GMP aborts
  Val q = msym(x);
  { bool ok; Val r = E.canonSqrt(q, ok); if (ok) { mput(E, s, a[0], r); return; } }
  if (q.e().is_numeral() && (E.inputs.empty() || std::string(Z3_get_numeral_string(*ZC, q.e())).size() > 120)) {
    mpq_t r; mpq_init(r); mpq_set_str(r, Z3_get_numeral_string(*ZC, q.e()), 10); mpf_t f; mpf_init2(f, 1000); mpf_set_q(f, r); mpf_sqrt(f, f); mpq_set_f(r, f); char *c = mpq_get_str(0, 10, r); expr e = ZC->real_val(c); free(c); mpq_clear(r); mpf_clear(f); Val v; v.k = K_SYM; v.p = std::make_shared<Pay>(e); mput(E, s, a[0], v); return;
  }
  mput(E, s, a[0], q.e().is_numeral() ? mkReal(E.freshApp(s, "sqrt", q.e())) : E.sqrtV(s, x));
}
BI(g_pow_ui) { UNUSED; Val x = mget(E, s, a[1]); uint64_t n = I64(E, s, a[2]); Val r = mkDbl(1); for (uint64_t i = 0; i < n; i++) r = mop(E, s, Instruction::FMul, r, x); mput(E, s, a[0], r); }
static Val msign(Exec &E, State &s, const Val &x) {
  if (x.k != K_SYM) return mkInt(32, (u128)(i128)(x.d() < 0 ? -1 : x.d() > 0));
  if (E.decide(s, x.e() == 0)) return mkInt(32, 0); return mkInt(32, E.decide(s, x.e() > 0) ? 1 : (u128)(i128)-1);
}
BI(g_cmp) { UNUSED; Val d = mop(E, s, Instruction::FSub, mget(E, s, a[0]), mget(E, s, a[1])); ret = msign(E, s, d); }
BI(g_cmp_d) { UNUSED; Val d = mop(E, s, Instruction::FSub, mget(E, s, a[0]), a[1]); ret = msign(E, s, d); }
BI(g_cmp_ui) { UNUSED; Val d = mop(E, s, Instruction::FSub, mget(E, s, a[0]), ui2d(E, s, a[1])); ret = msign(E, s, d); }
BI(g_sgn) { UNUSED; ret = msign(E, s, mget(E, s, a[0])); }

static Val ovf(Exec &E, State &s, const Val &a, const Val &b, unsigned op, bool sg, Type *T) {
  unsigned w = T->getIntegerBitWidth();
  if (a.k == K_INT && b.k == K_INT) {
    i128 x = sg ? a.s() : (i128)a.u(), y = sg ? b.s() : (i128)b.u(); bool o = false; u128 r;
    if (w <= 64 && !(op == Instruction::Mul && !sg && w == 64)) { i128 z = op == Instruction::Add ? x + y : op == Instruction::Sub ? x - y : x * y; r = (u128)z; o = sg ? (z < smin(w) || z > smax(w)) : (z < 0 || z > smax(w) * 2 + 1); }
    else { u128 p = (u128)x * (u128)y; r = p; o = w == 64 ? (p >> 64) != 0 : false; }
    return mkAgg({mkInt(w, r), mkInt(1, o)});
  }
  Val r = E.binop(s, nullptr, op, a, b, T);
  // overflow flag by widening
  Type *W = IntegerType::get(T->getContext(), 2 * w <= 128 ? 2 * w : 128); unsigned ext = sg ? Instruction::SExt : Instruction::ZExt;
  Val wide = E.binop(s, nullptr, op, E.castV(s, ext, a, T, W), E.castV(s, ext, b, T, W), W); Val back = E.castV(s, ext, r, T, W);
  return mkAgg({r, E.icmp(s, CmpInst::ICMP_NE, wide, back)});
}
void intrinsicCall(Exec &E, State &s, const PI &pi, Args &a, Val &ret) {
  Type *T = pi.I->getType(); LLVMContext &C = E.M->getContext();
  auto vecwise = [&](auto fn) { if (a[0].k == K_AGG && T->isVectorTy()) { std::vector<Val> r; for (size_t i = 0; i < a[0].p->v.size(); i++) { Args b; for (auto &x : a) b.push_back(x.k == K_AGG ? x.p->v[i] : x); r.push_back(fn(b)); } ret = mkAgg(r); } else ret = fn(a); };
  Type *ST = T->getScalarType();
  switch (pi.iid) {
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::prefetch: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::stackrestore: case Intrinsic::invariant_end: case Intrinsic::var_annotation: case Intrinsic::donothing: case Intrinsic::sideeffect: case Intrinsic::vaend: return;
    case Intrinsic::stacksave: case Intrinsic::invariant_start: ret = mkInt(64, 0); return;
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: case Intrinsic::annotation: case Intrinsic::ptr_annotation: case Intrinsic::arithmetic_fence: case Intrinsic::ssa_copy: ret = a[0]; return;
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: E.memcopy(s, I64(E, s, a[0]), I64(E, s, a[1]), I64(E, s, a[2])); return;
    case Intrinsic::memset: case Intrinsic::memset_inline: { Val r; b_memset(E, s, pi, a, r); return; }
    case Intrinsic::trap: case Intrinsic::debugtrap: E.popToMark(s, 3000); return;
    case Intrinsic::ubsantrap: E.ub(s, "sanitizer-detected undefined behaviour (check " + std::to_string(I64(E, s, a[0])) + ")");
    case Intrinsic::eh_typeid_for: ret = mkInt(32, (I64(E, s, a[0]) >> 32) + 1); return;
    case Intrinsic::objectsize: ret = mkInt(T->getIntegerBitWidth(), (u128)(i128)-1); return;
    case Intrinsic::is_constant: ret = mkInt(1, 0); return;
    case Intrinsic::fabs: vecwise([&](Args &b) { return E.fabsV(b[0]); }); return;
    case Intrinsic::sqrt: vecwise([&](Args &b) { return E.sqrtV(s, b[0]); }); return;
    case Intrinsic::floor: vecwise([&](Args &b) { return E.floorV(s, b[0], 0); }); return;
    case Intrinsic::ceil: vecwise([&](Args &b) { return E.floorV(s, b[0], 1); }); return;
    case Intrinsic::trunc: vecwise([&](Args &b) { return E.floorV(s, b[0], 2); }); return;
    case Intrinsic::round: vecwise([&](Args &b) { return E.floorV(s, b[0], 3); }); return;
    case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: vecwise([&](Args &b) { return E.floorV(s, b[0], 4); }); return;
    case Intrinsic::lround: case Intrinsic::llround: ret = E.castV(s, Instruction::FPToSI, E.floorV(s, a[0], 3), Type::getDoubleTy(C), T); return;
    case Intrinsic::lrint: case Intrinsic::llrint: ret = E.castV(s, Instruction::FPToSI, E.floorV(s, a[0], 4), Type::getDoubleTy(C), T); return;
    case Intrinsic::copysign: vecwise([&](Args &b) { Val r; b_copysign(E, s, pi, b, r); return r; }); return;
    case Intrinsic::maxnum: case Intrinsic::maximum: vecwise([&](Args &b) { return fmm(E, s, b[0], b[1], true); }); return;
    case Intrinsic::minnum: case Intrinsic::minimum: vecwise([&](Args &b) { return fmm(E, s, b[0], b[1], false); }); return;
    case Intrinsic::fma: case Intrinsic::fmuladd: vecwise([&](Args &b) { return E.fbin(s, Instruction::FAdd, E.fbin(s, Instruction::FMul, b[0], b[1], false), b[2], false); }); return;
    case Intrinsic::pow: ret = powV(E, s, a[0], a[1]); return;
    case Intrinsic::powi: { int n = (int)mkInt(32, I64(E, s, a[1])).s(); if (a[0].k != K_SYM) { ret = mkDbl(std::pow(a[0].d(), n)); return; } ret = powV(E, s, a[0], mkDbl(n)); return; }
    case Intrinsic::ldexp: { Val r; b_ldexp(E, s, pi, a, r); ret = r; return; }
    case Intrinsic::exp: ret = E.apply(s, "exp", a[0]); return; case Intrinsic::exp2: ret = E.apply(s, "exp2", a[0]); return;
    case Intrinsic::log: ret = E.apply(s, "log", a[0]); return; case Intrinsic::log2: ret = E.apply(s, "log2", a[0]); return; case Intrinsic::log10: ret = E.apply(s, "log10", a[0]); return;
    case Intrinsic::sin: ret = E.apply(s, "sin", a[0]); return; case Intrinsic::cos: ret = E.apply(s, "cos", a[0]); return;
    case Intrinsic::smax: vecwise([&](Args &b) { return E.selectV(s, E.icmp(s, CmpInst::ICMP_SGT, b[0], b[1]), b[0], b[1], ST); }); return;
    case Intrinsic::smin: vecwise([&](Args &b) { return E.selectV(s, E.icmp(s, CmpInst::ICMP_SLT, b[0], b[1]), b[0], b[1], ST); }); return;
    case Intrinsic::umax: vecwise([&](Args &b) { return E.selectV(s, E.icmp(s, CmpInst::ICMP_UGT, b[0], b[1]), b[0], b[1], ST); }); return;
    case Intrinsic::umin: vecwise([&](Args &b) { return E.selectV(s, E.icmp(s, CmpInst::ICMP_ULT, b[0], b[1]), b[0], b[1], ST); }); return;
    case Intrinsic::abs: vecwise([&](Args &b) { return E.selectV(s, E.icmp(s, CmpInst::ICMP_SLT, b[0], mkInt(ST->getIntegerBitWidth(), 0)), E.binop(s, nullptr, Instruction::Sub, mkInt(ST->getIntegerBitWidth(), 0), b[0], ST), b[0], ST); }); return;
    case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: vecwise([&](Args &b) { unsigned w = ST->getIntegerBitWidth(); uint64_t x = I64(E, s, b[0]); unsigned r = 0; if (pi.iid == Intrinsic::ctpop) r = __builtin_popcountll(x); else if (pi.iid == Intrinsic::ctlz) { r = w; for (int i = w - 1; i >= 0; i--) if ((x >> i) & 1) { r = w - 1 - i; break; } } else { r = w; for (unsigned i = 0; i < w; i++) if ((x >> i) & 1) { r = i; break; } } return mkInt(w, r); }); return;
    case Intrinsic::bswap: { unsigned w = T->getIntegerBitWidth(); uint64_t x = I64(E, s, a[0]); ret = mkInt(w, __builtin_bswap64(x) >> (64 - w)); return; }
    case Intrinsic::fshl: case Intrinsic::fshr: { unsigned w = T->getIntegerBitWidth(); uint64_t x = I64(E, s, a[0]), y = I64(E, s, a[1]); unsigned n = I64(E, s, a[2]) % w; u128 z = ((u128)x << w) | y; ret = mkInt(w, pi.iid == Intrinsic::fshl ? (z << n) >> w : z >> n); return; }
    case Intrinsic::sadd_with_overflow: ret = ovf(E, s, a[0], a[1], Instruction::Add, true, a[0].k == K_AGG ? nullptr : T->getStructElementType(0)); return;
    case Intrinsic::uadd_with_overflow: ret = ovf(E, s, a[0], a[1], Instruction::Add, false, T->getStructElementType(0)); return;
    case Intrinsic::ssub_with_overflow: ret = ovf(E, s, a[0], a[1], Instruction::Sub, true, T->getStructElementType(0)); return;
    case Intrinsic::usub_with_overflow: ret = ovf(E, s, a[0], a[1], Instruction::Sub, false, T->getStructElementType(0)); return;
    case Intrinsic::smul_with_overflow: ret = ovf(E, s, a[0], a[1], Instruction::Mul, true, T->getStructElementType(0)); return;
    case Intrinsic::umul_with_overflow: ret = ovf(E, s, a[0], a[1], Instruction::Mul, false, T->getStructElementType(0)); return;
    case Intrinsic::usub_sat: vecwise([&](Args &b) { return E.selectV(s, E.icmp(s, CmpInst::ICMP_ULT, b[0], b[1]), mkInt(ST->getIntegerBitWidth(), 0), E.binop(s, nullptr, Instruction::Sub, b[0], b[1], ST), ST); }); return;
    case Intrinsic::uadd_sat: { unsigned w = T->getIntegerBitWidth(); u128 x = (u128)I64(E, s, a[0]) + I64(E, s, a[1]); u128 m = ((u128)1 << w) - 1; ret = mkInt(w, x > m ? m : x); return; }
    case Intrinsic::is_fpclass: {
      unsigned m = I64(E, s, a[1]); Val x = a[0];
      if (x.k == K_SYM) { expr e = ZC->bool_val(false); if (m & 0x10) e = e || x.e() < 0; else if (m & 0x8) e = e; if (m & 0x60) e = e || x.e() == 0; if (m & 0x100) e = e || x.e() > 0; ret = mkBool(e.simplify()); return; }
      double d = x.d(); unsigned c = std::isnan(d) ? 3 : std::isinf(d) ? (d < 0 ? 4 : 512) : d == 0 ? (std::signbit(d) ? 32 : 64) : std::fpclassify(d) == FP_SUBNORMAL ? (d < 0 ? 16 : 128) : (d < 0 ? 8 : 256);
      ret = mkInt(1, (m & c) != 0); return;
    }
    case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_mul: {
      unsigned op = pi.iid == Intrinsic::vector_reduce_add ? Instruction::Add : pi.iid == Intrinsic::vector_reduce_or ? Instruction::Or : pi.iid == Intrinsic::vector_reduce_and ? Instruction::And : Instruction::Mul; Val r = a[0].p->v[0]; for (size_t i = 1; i < a[0].p->v.size(); i++) r = E.binop(s, nullptr, op, r, a[0].p->v[i], T); ret = r; return; }
    case Intrinsic::vector_reduce_fadd: { Val r = a[0]; for (auto &x : a[1].p->v) r = E.fbin(s, Instruction::FAdd, r, x, false); ret = r; return; }
    default: break;
  }
  E.unsup(s, "intrinsic " + pi.callee->getName().str());
}

void registerBuiltins(Exec &E) {
  auto R = [&](const char *n, decltype(Builtin::fn) f) { E.builtins[n] = Builtin{f}; };
  for (auto n : {"malloc", "_Znwm", "_Znam", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t"}) R(n, b_malloc);
  for (auto n : {"free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}) R(n, b_free);
  R("calloc", b_calloc); R("realloc", b_realloc); R("aligned_alloc", b_amalloc); R("posix_memalign", b_posix_memalign);
  R("memcpy", b_memcpy); R("memmove", b_memcpy); R("memset", b_memset); R("memcmp", b_memcmp); R("bcmp", b_memcmp); R("strlen", b_strlen); R("memchr", b_memchr); R("strchr", b_strchr); R("strrchr", b_strrchr); R("strstr", b_strstr);
  R("strcmp", b_strcmp); R("strncmp", b_strncmp); R("strcasecmp", b_strcasecmp); R("strcpy", b_strcpy); R("strncpy", b_strncpy); R("strcat", b_strcat); R("strdup", b_strdup);
  R("strtod", b_strtod); R("strtold", b_strtod); R("strtof", b_strtod); R("atof", b_atof); R("strtol", b_strtol<false>); R("strtoll", b_strtol<false>); R("strtoul", b_strtol<true>); R("strtoull", b_strtol<true>); R("__isoc23_strtol", b_strtol<false>); R("__isoc23_strtoll", b_strtol<false>); R("__isoc23_strtoul", b_strtol<true>); R("__isoc23_strtoull", b_strtol<true>); R("atoi", b_atoi); R("atol", b_atol); R("atoll", b_atol);
  R("__rt_fmt_double", b_fmt_double); R("printf", b_printf); R("puts", b_puts); R("putchar", b_putchar); R("snprintf", b_snprintf); R("sprintf", b_sprintf);
  R("exit", b_exit); R("_exit", b_exit); R("_Exit", b_exit); R("quick_exit", b_exit); R("abort", b_abort); R("_ZSt9terminatev", b_abort); R("__clang_call_terminate", b_abort); R("__assert_fail", b_abort); R("_ZSt21__glibcxx_assert_failPKciS0_S0_", b_abort);
  for (auto n : {"atexit", "__cxa_atexit", "__cxa_thread_atexit", "fflush", "isatty", "usleep", "nanosleep", "getpid", "gettimeofday", "clock_gettime", "getrusage", "feclearexcept", "fetestexcept", "fesetround", "sched_yield", "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_once", "omp_get_thread_num", "omp_get_num_threads_", "setrlimit", "backtrace", "raise", "fegetround"}) R(n, b_zero32);
  for (auto n : {"time", "clock", "_ZNSt6chrono3_V212steady_clock3nowEv", "_ZNSt6chrono3_V212system_clock3nowEv", "signal", "sysconf", "backtrace_symbols"}) R(n, b_zero64);
  for (auto n : {"__cxa_free_exception", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "__sanitizer_dummy"}) R(n, b_void);
  R("getenv", b_getenv); R("secure_getenv", b_getenv); R("setenv", b_setenv); R("unsetenv", b_unsetenv);
  R("__cxa_allocate_exception", b_cxa_alloc); R("__cxa_throw", b_cxa_throw); R("__cxa_begin_catch", b_cxa_begin); R("__cxa_end_catch", b_cxa_end); R("__cxa_rethrow", b_cxa_rethrow); R("__cxa_get_exception_ptr", b_arg0); R("_ZSt19uncaught_exceptionsv", b_uncaught); R("_ZSt18uncaught_exceptionv", b_uncaught);
  R("__cxa_guard_acquire", b_guard_acquire); R("__cxa_guard_release", b_guard_release); R("__cxa_guard_abort", b_void); R("__cxa_pure_virtual", b_abort); R("__dynamic_cast", b_dynamic_cast);
  for (auto b : {"exp", "log", "log10", "tanh", "atan", "sin", "cos", "tan", "sinh", "cosh", "exp2", "log2", "asin", "acos", "erf", "erfc", "asinh", "acosh", "atanh", "log1p", "expm1", "cbrt", "tgamma", "lgamma"}) { std::string n = b; R(n.c_str(), b_math); R((n + "f").c_str(), b_math); R((n + "l").c_str(), b_math); }
  for (auto sfx : {"", "f", "l"}) {
    auto N = [&](const char *b, decltype(Builtin::fn) f) { R((std::string(b) + sfx).c_str(), f); };
    N("pow", b_pow); N("hypot", b_hypot); N("atan2", b_atan2); N("sqrt", b_sqrt); N("fabs", b_fabs); N("floor", b_floor); N("ceil", b_ceil); N("trunc", b_trunc); N("round", b_round); N("rint", b_rint); N("nearbyint", b_rint); N("lround", b_lround); N("llround", b_lround); N("lrint", b_lrint); N("llrint", b_lrint); N("fmax", b_fmax); N("fmin", b_fmin); N("fmod", b_fmod); N("frexp", b_frexp); N("modf", b_modf); N("ldexp", b_ldexp); N("scalbn", b_ldexp); N("nextafter", b_nextafter); N("copysign", b_copysign); N("__signbit", b_signbit); N("__isnan", b_isnan); N("__isinf", b_isinf); N("__finite", b_finite); N("cabs", b_cabs); N("carg", b_carg); N("clog", b_clog); N("cexp", b_cexp); N("cpow", b_cpow); N("csqrt", b_csqrt); N("isnan", b_isnan); N("isinf", b_isinf); N("finite", b_finite);
  }
  R("__muldc3", b_muldc3); R("__divdc3", b_divdc3);
  R("__vfs_open", v_open); R("__vfs_size", v_size); R("__vfs_read", v_read); R("__vfs_write", v_write); R("__vfs_getc", v_getc); R("__vfs_exists", v_exists); R("__vfs_remove", v_remove); R("__vfs_remove_all", v_remove_all); R("__vfs_rename", v_rename); R("__vfs_mkdir", v_mkdir); R("__vfs_copy", v_copy); R("__vfs_fault", v_fault); R("__rt_word_prec", v_token_prec);
  R("sym_double", h_double); R("sym_int", h_int); R("sym_choice", h_choice); R("sym_assume", h_assume); R("sym_check", h_check); R("sym_check_close", h_check_close); R("sym_run_main", h_run_main); R("sym_guard", h_guard); R("sym_param", h_param); R("sym_note", h_note); R("sym_dump", h_dump); R("sym_is_symbolic", h_one); R("sym_decide", h_decide); R("sym_fresh", h_fresh); R("sym_same", h_same); R("sym_stub", h_stub); R("sym_const_zero", h_czero);
  for (auto p : {"__gmpf_", "mpf_"}) {
    auto G = [&](const char *n, decltype(Builtin::fn) f) { R((std::string(p) + n).c_str(), f); };
    G("init", g_init); G("init2", g_init); G("clear", b_void); G("set_default_prec", b_void); G("set_prec", b_void); G("get_prec", g_prec); G("set_d", g_set_d); G("init_set_d", g_set_d); G("set", g_set); G("init_set", g_init_set); G("get_d", g_get_d); G("set_str", g_set_str); G("init_set_str", g_set_str); G("set_ui", g_set_ui); G("init_set_ui", g_set_ui); G("set_si", g_set_si); G("init_set_si", g_set_si); G("add", g_add); G("sub", g_sub); G("mul", g_mul); G("div", g_div); G("add_ui", g_add_ui); G("mul_ui", g_mul_ui); G("div_ui", g_div_ui); G("ui_div", g_ui_div); G("neg", g_neg); G("abs", g_abs); G("sqrt", g_sqrt); G("pow_ui", g_pow_ui); G("cmp", g_cmp); G("cmp_d", g_cmp_d); G("cmp_ui", g_cmp_ui); G("sgn", g_sgn);
  }
}
