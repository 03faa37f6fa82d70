#include "symx.h"
using namespace llvm;

static bool fitsS(i128 lo, i128 hi, unsigned w) { return lo >= smin(w) && hi <= smax(w); }
static const i128 BIG = ((i128)1 << 100);

static void rng(const Val &v, i128 &lo, i128 &hi) {
  if (v.k == K_INT) { lo = hi = v.s(); if (v.w == 1) lo = hi = (v.lo & 1); return; }
  lo = v.p->lo; hi = v.p->hi;
}
static expr sE(const Val &v) { // signed integer expression
  if (v.k == K_INT) return intE(v.w == 1 ? (i128)(v.lo & 1) : v.s());
  if (v.w == 1) return z3::ite(v.e(), ZC->int_val(1), ZC->int_val(0));
  return v.e();
}
static void rngU(const Val &v, i128 &lo, i128 &hi) {
  if (v.k == K_INT) { lo = hi = (i128)v.u(); return; }
  lo = v.p->lo; hi = v.p->hi; if (v.w == 1) { lo = 0; hi = 1; return; }
  if (lo < 0) { if (hi < 0) { lo += (i128)1 << v.w; hi += (i128)1 << v.w; } else { lo = 0; hi = ((i128)1 << v.w) - 1; } }
}
static expr uE(const Val &v) {
  if (v.k == K_INT) return intE((i128)v.u());
  if (v.w == 1) return sE(v);
  if (v.p->lo >= 0) return v.e();
  expr m = intE((i128)1 << v.w);
  if (v.p->hi < 0) return v.e() + m;
  return z3::ite(v.e() < 0, v.e() + m, v.e());
}
static expr bE(const Val &v) {
  if (v.k == K_INT) return ZC->bool_val(v.lo & 1);
  if (v.e().is_bool()) return v.e();
  return v.e() != 0;
}
expr realE(const Val &v) {
  if (v.k == K_DBL) return dblE(v.d());
  if (v.k == K_INT) return dblE(mkDbl(0).d());
  return v.e();
}

Val Exec::wrapSym(State &s, const expr &e, i128 lo, i128 hi, unsigned w) {
  if (fitsS(lo, hi, w)) return mkSymInt(e, w, lo, hi);
  i128 a = smin(w), b = smax(w);
  std::vector<expr> q{e < intE(a) || e > intE(b)};
  if (query(s, q, branchTimeout, nullptr, false) == z3::unsat) return mkSymInt(e, w, std::max(lo, a), std::min(hi, b));
  expr m = z3::mod(e - intE(a), intE((i128)1 << w)) + intE(a);
  return mkSymInt(m, w, a, b);
}
static void mulRng(i128 a, i128 b, i128 c, i128 d, i128 &lo, i128 &hi) {
  auto big = [](i128 x) { return x > ((i128)1 << 62) || x < -((i128)1 << 62); };
  if (big(a) || big(b) || big(c) || big(d)) { lo = -BIG; hi = BIG; return; }
  i128 x[4] = {a * c, a * d, b * c, b * d}; lo = hi = x[0];
  for (auto y : x) { lo = std::min(lo, y); hi = std::max(hi, y); }
}
Val Exec::norm(State &s, const Val &v) {
  if (v.k != K_CAT) return v;
  expr e = intE(0); i128 lo = 0, hi = 0; unsigned off = 0; size_t n = v.p->v.size();
  for (size_t i = 0; i < n; i++) {
    Val x = v.p->v[i]; i128 a, b;
    if (x.isReal()) unsup(s, "arithmetic on raw bytes of a symbolic real");
    if (x.k == K_UNDEF) { Val u; u.w = v.w; return u; }
    bool last = i + 1 == n;
    expr p = last ? sE(x) : uE(x); if (last) rng(x, a, b); else rngU(x, a, b);
    i128 sc = (i128)1 << off; e = e + p * intE(sc); lo += a * sc; hi += b * sc; off += x.w;
  }
  return mkSymInt(e.simplify(), v.w, lo, hi);
}
static Val catTrunc(const Val &v, unsigned w) {
  std::vector<Val> parts; unsigned off = 0;
  for (auto &x : v.p->v) { if (off >= w) break; if (off + x.w > w) return Val(); parts.push_back(x); off += x.w; }
  if (off != w) return Val();
  if (parts.size() == 1) return parts[0];
  Val r; r.k = K_CAT; r.w = w; auto pp = std::make_shared<Pay>(expr(*ZC)); pp->v = parts; r.p = pp; return r;
}
static Val catShr(const Val &v, unsigned sh) { // logical shift, low zero-extension only when single part left
  unsigned off = 0; std::vector<Val> parts;
  for (auto &x : v.p->v) { if (off >= sh) parts.push_back(x); else if (off + x.w > sh) return Val(); off += x.w; }
  if (parts.empty()) return mkInt(v.w, 0);
  unsigned left = sh;
  while (left) { unsigned n = std::min(left, 64u); parts.push_back(mkInt(n, 0)); left -= n; }
  Val r; r.k = K_CAT; r.w = v.w; auto pp = std::make_shared<Pay>(expr(*ZC)); pp->v = parts; r.p = pp; return r;
}

Val Exec::binop(State &s, Instruction *I, unsigned op, Val a, Val b, Type *T) {
  if (a.k == K_AGG || b.k == K_AGG) {
    std::vector<Val> r; Type *ET = T->getScalarType();
    for (size_t i = 0; i < a.p->v.size(); i++) r.push_back(binop(s, I, op, a.p->v[i], b.p->v[i], ET));
    return mkAgg(r);
  }
  unsigned w = T->getIntegerBitWidth();
  if (a.k == K_UNDEF) a = mkInt(w, 0);
  if (b.k == K_UNDEF) b = mkInt(w, 0);
  if (a.k == K_INT && b.k == K_INT) {
    u128 x = a.u(), y = b.u();
    switch (op) {
      case Instruction::Add: return mkInt(w, x + y);
      case Instruction::Sub: return mkInt(w, x - y);
      case Instruction::Mul: return mkInt(w, x * y);
      case Instruction::UDiv: if (!y) ub(s, "integer division by zero"); return mkInt(w, x / y);
      case Instruction::URem: if (!y) ub(s, "integer division by zero"); return mkInt(w, x % y);
      case Instruction::SDiv: if (!y) ub(s, "integer division by zero"); return mkInt(w, (u128)(a.s() / b.s()));
      case Instruction::SRem: if (!y) ub(s, "integer division by zero"); return mkInt(w, (u128)(a.s() % b.s()));
      case Instruction::Shl: return mkInt(w, y >= w ? 0 : x << (unsigned)y);
      case Instruction::LShr: return mkInt(w, y >= w ? 0 : x >> (unsigned)y);
      case Instruction::AShr: return mkInt(w, (u128)(a.s() >> (unsigned)(y >= w ? w - 1 : (unsigned)y)));
      case Instruction::And: return mkInt(w, x & y);
      case Instruction::Or: return mkInt(w, x | y);
      case Instruction::Xor: return mkInt(w, x ^ y);
    }
  }
  // real viewed as an integer
  if (a.isReal() || b.isReal()) {
    if (b.isReal() && !a.isReal()) std::swap(a, b);
    if (b.k == K_INT) {
      if (op == Instruction::And && b.lo == 0x7fffffffffffffffull) { Val r = fabsV(a); r.w = 64; return r; }
      if (op == Instruction::Xor && b.lo == 0x8000000000000000ull) { Val r = fneg(a); r.w = 64; return r; }
      if (op == Instruction::And && b.lo == 0x8000000000000000ull) { expr c = a.e() < 0; return decide(s, c) ? mkInt(64, 0x8000000000000000ull) : mkInt(64, 0); }
      if (op == Instruction::LShr && b.lo == 63) return decide(s, a.e() < 0) ? mkInt(64, 1) : mkInt(64, 0);
      if (op == Instruction::Or && b.lo == 0x8000000000000000ull) { Val r = fneg(fabsV(a)); r.w = 64; return r; }
    }
    unsup(s, "bit operation on a symbolic real");
  }
  if (a.k == K_CAT) {
    if (op == Instruction::LShr && b.k == K_INT) { Val r = catShr(a, b.lo); if (r.k != K_UNDEF) return r; }
    if (op == Instruction::And && b.k == K_INT) { u128 m = b.u(); unsigned n = 0; while (m & 1) { n++; m >>= 1; } if (!m && n) { Val t = catTrunc(a, n); if (t.k == K_CAT || (t.k != K_UNDEF)) return castV(s, Instruction::ZExt, t, IntegerType::get(M->getContext(), n), T); } }
  }
  a = norm(s, a); b = norm(s, b);
  if (a.k == K_INT && b.k == K_INT) return binop(s, I, op, a, b, T);
  if (w == 1) {
    expr x = bE(a), y = bE(b);
    switch (op) {
      case Instruction::And: if (a.k == K_INT) return a.lo & 1 ? b : a; if (b.k == K_INT) return b.lo & 1 ? a : b; return mkBool(x && y);
      case Instruction::Or: if (a.k == K_INT) return a.lo & 1 ? a : b; if (b.k == K_INT) return b.lo & 1 ? b : a; return mkBool(x || y);
      case Instruction::Xor: case Instruction::Add: case Instruction::Sub:
        if (a.k == K_INT) return a.lo & 1 ? mkBool(!y) : b;
        if (b.k == K_INT) return b.lo & 1 ? mkBool(!x) : a;
        return mkBool(x != y);
      case Instruction::Mul: return mkBool(x && y);
    }
    unsup(s, "i1 arithmetic");
  }
  i128 al, ah, bl, bh; rng(a, al, ah); rng(b, bl, bh);
  bool nsw = false, nuw = false;
  if (I && (op == Instruction::Add || op == Instruction::Sub || op == Instruction::Mul || op == Instruction::Shl)) { nsw = I->hasNoSignedWrap(); nuw = I->hasNoUnsignedWrap(); }
  auto finish = [&](const expr &e, i128 lo, i128 hi, const char *nm) -> Val {
    if (fitsS(lo, hi, w)) return mkSymInt(e, w, lo, hi);
    // nsw/nuw results out of range are poison; poison may be computed speculatively, so it is not reported here
    (void)nm; (void)nsw; (void)nuw;
    return wrapSym(s, e, lo, hi, w);
  };
  switch (op) {
    case Instruction::Add:
      if (b.k == K_INT && b.u() == 0) return a;
      if (a.k == K_INT && a.u() == 0) return b;
      return finish(sE(a) + sE(b), al + bl, ah + bh, "addition");
    case Instruction::Sub:
      if (b.k == K_INT && b.u() == 0) return a;
      return finish(sE(a) - sE(b), al - bh, ah - bl, "subtraction");
    case Instruction::Mul: {
      if (b.k == K_INT && b.u() == 1) return a;
      if (a.k == K_INT && a.u() == 1) return b;
      i128 lo, hi; mulRng(al, ah, bl, bh, lo, hi); return finish(sE(a) * sE(b), lo, hi, "multiplication");
    }
    case Instruction::Shl:
      if (b.k == K_INT) { i128 m = (i128)1 << (unsigned)b.lo; i128 lo, hi; mulRng(al, ah, m, m, lo, hi); return finish(sE(a) * intE(m), lo, hi, "shift"); }
      break;
    case Instruction::SDiv: case Instruction::SRem: {
      if (decide(s, sE(b) == 0)) ub(s, "integer division by zero");
      // truncated division from floor division on magnitudes
      expr x = sE(a), y = sE(b);
      expr ax = al >= 0 ? x : ah <= 0 ? -x : z3::ite(x < 0, -x, x);
      expr ay = bl >= 0 ? y : bh <= 0 ? -y : z3::ite(y < 0, -y, y);
      expr q0 = expr(*ZC, Z3_mk_div(*ZC, ax, ay));
      i128 ma = std::max(ah < 0 ? -ah : ah, al < 0 ? -al : al);
      i128 mb = std::max(bh < 0 ? -bh : bh, bl < 0 ? -bl : bl);
      if (op == Instruction::SDiv) {
        bool pa = al >= 0, na = ah <= 0, pb = bl >= 0, nb = bh <= 0;
        expr q = (pa && pb) || (na && nb) ? q0 : (pa && nb) || (na && pb) ? -q0 : z3::ite((x < 0) == (y < 0), q0, -q0);
        return mkSymInt(q, w, (pa && pb) ? (i128)0 : -ma, ma);
      }
      expr r0 = z3::mod(ax, ay); expr r = al >= 0 ? r0 : ah <= 0 ? -r0 : z3::ite(x < 0, -r0, r0);
      i128 mr = std::min(ma, mb - 1 < 0 ? (i128)0 : mb - 1);
      return mkSymInt(r, w, al >= 0 ? (i128)0 : -mr, ah <= 0 ? (i128)0 : mr);
    }
    case Instruction::UDiv: case Instruction::URem: {
      if (b.k == K_INT && b.u() == 0) ub(s, "integer division by zero");
      if (b.k != K_INT && decide(s, sE(b) == 0)) ub(s, "integer division by zero");
      i128 l1, h1, l2, h2; rngU(a, l1, h1); rngU(b, l2, h2);
      expr x = uE(a), y = uE(b);
      if (op == Instruction::UDiv) return wrapSym(s, expr(*ZC, Z3_mk_div(*ZC, x, y)), 0, h1 / std::max((i128)1, l2), w);
      return wrapSym(s, z3::mod(x, y), 0, std::min(h1, h2 - 1), w);
    }
    case Instruction::LShr:
      if (b.k == K_INT) { if (b.lo == 0) return a; i128 l, h; rngU(a, l, h); return mkSymInt(expr(*ZC, Z3_mk_div(*ZC, uE(a), intE((i128)1 << (unsigned)b.lo))), w, l >> (unsigned)b.lo, h >> (unsigned)b.lo); }
      break;
    case Instruction::AShr:
      if (b.k == K_INT) { if (b.lo == 0) return a; return mkSymInt(expr(*ZC, Z3_mk_div(*ZC, sE(a), intE((i128)1 << (unsigned)b.lo))), w, al >> (unsigned)b.lo, ah >> (unsigned)b.lo); }
      break;
    case Instruction::And: {
      if (a.k == K_INT) { std::swap(a, b); std::swap(al, bl); std::swap(ah, bh); }
      if (b.k == K_INT) {
        u128 m = b.u(); if (m == 0) return b; if (b.s() == -1) return a;
        unsigned n = 0; u128 t = m; while (t & 1) { n++; t >>= 1; }
        if (!t) { // low mask
          i128 l, h; rngU(a, l, h); if (h < ((i128)1 << n)) return a;
          return mkSymInt(z3::mod(sE(a), intE((i128)1 << n)), w, 0, ((i128)1 << n) - 1);
        }
        unsigned z = 0; t = m; while (!(t & 1)) { z++; t >>= 1; }
        // high mask ~(2^z-1)
        if (mkInt(w, m | (((u128)1 << z) - 1)).s() == -1) { expr e = sE(a) - z3::mod(sE(a), intE((i128)1 << z)); return mkSymInt(e, w, al - (((i128)1 << z) - 1) < smin(w) ? smin(w) : al - (((i128)1 << z) - 1), ah); }
        // single bit or field
        unsigned k = 0; while (t & 1) { k++; t >>= 1; }
        if (!t) { expr e = z3::mod(expr(*ZC, Z3_mk_div(*ZC, sE(a), intE((i128)1 << z))), intE((i128)1 << k)) * intE((i128)1 << z); i128 hi = (i128)((((u128)1 << k) - 1) << z); return wrapSym(s, e, 0, hi, w); }
      }
      break;
    }
    case Instruction::Or: {
      if (a.k == K_INT) { std::swap(a, b); std::swap(al, bl); std::swap(ah, bh); }
      if (b.k == K_INT && b.u() == 0) return a;
      // disjoint or: PossiblyDisjointInst or low-bits zero
      bool dis = I && isa<PossiblyDisjointInst>(I) && cast<PossiblyDisjointInst>(I)->isDisjoint();
      if (dis) return finish(sE(a) + sE(b), al + bl, ah + bh, "or");
      break;
    }
    case Instruction::Xor:
      if (a.k == K_INT) { std::swap(a, b); std::swap(al, bl); std::swap(ah, bh); }
      if (b.k == K_INT && b.s() == -1) return mkSymInt(intE(-1) - sE(a), w, -1 - ah, -1 - al);
      if (b.k == K_INT && b.u() == 0) return a;
      break;
  }
  // fall back: enumerate the feasible values of one operand at a time
  if (a.k == K_SYM) { uint64_t x = concretize(s, a); a = mkInt(w, x); }
  if (b.k == K_SYM) { uint64_t x = concretize(s, b); b = mkInt(w, x); }
  return binop(s, I, op, a, b, T);
}

Val Exec::icmp(State &s, unsigned pred, Val a, Val b) {
  if (a.k == K_AGG) { std::vector<Val> r; for (size_t i = 0; i < a.p->v.size(); i++) r.push_back(icmp(s, pred, a.p->v[i], b.p->v[i])); return mkAgg(r); }
  unsigned w = std::max(a.w, b.w); if (!w) w = 64;
  if (a.k == K_UNDEF) a = mkInt(w, 0);
  if (b.k == K_UNDEF) b = mkInt(w, 0);
  if (a.k == K_INT && b.k == K_INT) {
    bool r = false;
    switch (pred) {
      case CmpInst::ICMP_EQ: r = a.u() == b.u(); break; case CmpInst::ICMP_NE: r = a.u() != b.u(); break;
      case CmpInst::ICMP_UGT: r = a.u() > b.u(); break; case CmpInst::ICMP_UGE: r = a.u() >= b.u(); break;
      case CmpInst::ICMP_ULT: r = a.u() < b.u(); break; case CmpInst::ICMP_ULE: r = a.u() <= b.u(); break;
      case CmpInst::ICMP_SGT: r = a.s() > b.s(); break; case CmpInst::ICMP_SGE: r = a.s() >= b.s(); break;
      case CmpInst::ICMP_SLT: r = a.s() < b.s(); break; case CmpInst::ICMP_SLE: r = a.s() <= b.s(); break;
    }
    return mkInt(1, r);
  }
  if (a.isReal() || b.isReal()) {
    bool sw = !a.isReal(); if (sw) { std::swap(a, b); pred = CmpInst::getSwappedPredicate((CmpInst::Predicate)pred); }
    expr x = a.e();
    if (b.k == K_INT) {
      if (pred == CmpInst::ICMP_SLT && b.lo == 0) return mkBool(x < 0);
      if (pred == CmpInst::ICMP_SGT && b.s() == -1) return mkBool(x >= 0);
      if (pred == CmpInst::ICMP_SGE && b.lo == 0) return mkBool(x >= 0);
      double d; memcpy(&d, &b.lo, 8);
      if (pred == CmpInst::ICMP_EQ) return std::isfinite(d) ? mkBool(x == dblE(d)) : mkInt(1, 0);
      if (pred == CmpInst::ICMP_NE) return std::isfinite(d) ? mkBool(x != dblE(d)) : mkInt(1, 1);
      // magnitude tests on |x| bit patterns (positive values order like integers)
      if (pred == CmpInst::ICMP_ULT || pred == CmpInst::ICMP_SLT) { if (std::isinf(d) && d > 0) return mkInt(1, 1); if (std::isfinite(d) && d >= 0) return mkBool(x < dblE(d)); }
    }
    if (b.isReal()) { if (pred == CmpInst::ICMP_EQ) return mkBool(x == b.e()); if (pred == CmpInst::ICMP_NE) return mkBool(x != b.e()); }
    unsup(s, "integer comparison on a symbolic real");
  }
  if (a.k == K_CAT && b.k == K_CAT && a.p->v.size() == b.p->v.size() && (pred == CmpInst::ICMP_EQ || pred == CmpInst::ICMP_NE)) {
    bool same = true; expr e = ZC->bool_val(true); bool ok = true;
    for (size_t i = 0; i < a.p->v.size() && ok; i++) { auto &x = a.p->v[i], &y = b.p->v[i]; if (x.w != y.w || x.isReal() || y.isReal()) ok = false; else e = e && sE(x) == sE(y); }
    (void)same; if (ok) return mkBool(pred == CmpInst::ICMP_EQ ? e : !e);
  }
  a = norm(s, a); b = norm(s, b);
  if (w == 1) {
    expr x = bE(a), y = bE(b);
    switch (pred) {
      case CmpInst::ICMP_EQ: return b.k == K_INT ? (b.lo & 1 ? a : mkBool(!x)) : mkBool(x == y);
      case CmpInst::ICMP_NE: return b.k == K_INT ? (b.lo & 1 ? mkBool(!x) : a) : mkBool(x != y);
      case CmpInst::ICMP_ULT: case CmpInst::ICMP_SGT: return mkBool(!x && y);
      case CmpInst::ICMP_UGT: case CmpInst::ICMP_SLT: return mkBool(x && !y);
      default: return mkBool((pred == CmpInst::ICMP_ULE || pred == CmpInst::ICMP_SGE) ? (!x || y) : (x || !y));
    }
  }
  i128 al, ah, bl, bh;
  bool uns = CmpInst::isUnsigned((CmpInst::Predicate)pred);
  expr x = uns ? uE(a) : sE(a), y = uns ? uE(b) : sE(b);
  if (uns) { rngU(a, al, ah); rngU(b, bl, bh); } else { rng(a, al, ah); rng(b, bl, bh); }
  switch (pred) {
    case CmpInst::ICMP_EQ: if (ah < bl || bh < al) return mkInt(1, 0); return mkBool(x == y);
    case CmpInst::ICMP_NE: if (ah < bl || bh < al) return mkInt(1, 1); return mkBool(x != y);
    case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: if (al > bh) return mkInt(1, 1); if (ah <= bl) return mkInt(1, 0); return mkBool(x > y);
    case CmpInst::ICMP_UGE: case CmpInst::ICMP_SGE: if (al >= bh) return mkInt(1, 1); if (ah < bl) return mkInt(1, 0); return mkBool(x >= y);
    case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: if (ah < bl) return mkInt(1, 1); if (al >= bh) return mkInt(1, 0); return mkBool(x < y);
    default: if (ah <= bl) return mkInt(1, 1); if (al > bh) return mkInt(1, 0); return mkBool(x <= y);
  }
}

Val Exec::fneg(const Val &a) {
  if (a.k == K_AGG) { std::vector<Val> r; for (auto &x : a.p->v) r.push_back(fneg(x)); return mkAgg(r); }
  if (a.k == K_DBL) return mkDbl(-a.d());
  if (a.k == K_SYM) return mkReal(-a.e());
  return mkDbl(-0.0);
}
Val Exec::fabsV(const Val &a) {
  if (a.k == K_DBL) return mkDbl(std::fabs(a.d()));
  if (a.k != K_SYM) return mkDbl(0);
  return mkReal(z3::ite(a.e() < 0, -a.e(), a.e()));
}
// symbolic denominators: q with its defining polynomial constraint is what the `/` term means to z3 once d != 0
Val Exec::fbin(State &s, unsigned op, const Val &a0, const Val &b0, bool isFloat) {
  Val a = a0, b = b0;
  if (a.k == K_AGG) { std::vector<Val> r; for (size_t i = 0; i < a.p->v.size(); i++) r.push_back(fbin(s, op, a.p->v[i], b.p->v[i], isFloat)); return mkAgg(r); }
  if (a.k == K_UNDEF) a = mkDbl(0);
  if (b.k == K_UNDEF) b = mkDbl(0);
  if (a.k == K_DBL && b.k == K_DBL) {
    double x = a.d(), y = b.d(), r = 0;
    switch (op) {
      case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break;
      case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break;
      case Instruction::FRem: r = std::fmod(x, y); break;
    }
    if (isFloat) r = (float)r;
    return mkDbl(r);
  }
  bool as = a.sym(), bs = b.sym();
  if (!as && !std::isfinite(a.d())) { // special op finite symbolic
    double x = a.d(); if (std::isnan(x)) return a;
    switch (op) {
      case Instruction::FAdd: case Instruction::FSub: return a;
      case Instruction::FMul: if (decide(s, b.e() == 0)) return mkDbl(NAN); return decide(s, b.e() > 0) ? a : mkDbl(-x);
      case Instruction::FDiv: return decide(s, b.e() >= 0) ? a : mkDbl(-x);
      case Instruction::FRem: return mkDbl(NAN);
    }
  }
  if (!bs && !std::isfinite(b.d())) {
    double y = b.d(); if (std::isnan(y)) return b;
    switch (op) {
      case Instruction::FAdd: return b; case Instruction::FSub: return mkDbl(-y);
      case Instruction::FMul: if (decide(s, a.e() == 0)) return mkDbl(NAN); return decide(s, a.e() > 0) ? b : mkDbl(-y);
      case Instruction::FDiv: return mkDbl(0);
      case Instruction::FRem: return a;
    }
  }
  expr x = realE(a), y = realE(b);
  switch (op) {
    case Instruction::FAdd:
      if (!bs && b.d() == 0) return a; if (!as && a.d() == 0) return b;
      return mkReal(x + y);
    case Instruction::FSub:
      if (!bs && b.d() == 0) return a;
      if (!as && a.d() == 0) return mkReal(-y);
      if (as && bs && x.id() == y.id()) return mkDbl(0);
      return mkReal(x - y);
    case Instruction::FMul:
      if (!bs) { if (b.d() == 0) return mkDbl(0); if (b.d() == 1) return a; if (b.d() == -1) return mkReal(-x); return mkReal(y * x); }
      if (!as) { if (a.d() == 0) return mkDbl(0); if (a.d() == 1) return b; if (a.d() == -1) return mkReal(-y); }
      return mkReal(x * y);
    case Instruction::FDiv: {
      if (!bs) {
        if (b.d() == 0) { double z = b.d(); bool ng = std::signbit(z); if (decide(s, x == 0)) return mkDbl(NAN); return decide(s, x > 0) ? mkDbl(ng ? -INFINITY : INFINITY) : mkDbl(ng ? INFINITY : -INFINITY); }
        if (b.d() == 1) return a;
        return mkReal((ZC->real_val(1) / y).simplify() * x);
      }
      if (decide(s, y == 0)) {
        if (!as) { if (a.d() == 0) return mkDbl(NAN); return mkDbl(a.d() > 0 ? INFINITY : -INFINITY); }
        if (decide(s, x == 0)) return mkDbl(NAN);
        return decide(s, x > 0) ? mkDbl(INFINITY) : mkDbl(-INFINITY);
      }
      if (!as && a.d() == 0) return mkDbl(0);
      if (as && x.id() == y.id()) return mkDbl(1);
      if (canonDiv) { Val q = canon(mkReal(x / y)); if (q.k == K_SYM && q.e().is_numeral()) { double v; bool ex; if (numeralToDouble(q.e(), v, &ex)) return mkDbl(v); } return q; } // a quotient that does not depend on the inputs is rounded as the program would
      return mkReal(x / y);
    }
    case Instruction::FRem: {
      if (!bs) { // x - y*trunc(x/y)
        if (b.d() == 0) return mkDbl(NAN);
        expr q = ((ZC->real_val(1) / y).simplify()) * x;
        expr fl = expr(*ZC, Z3_mk_real2int(*ZC, z3::ite(q < 0, -q, q)));
        expr t = expr(*ZC, Z3_mk_int2real(*ZC, fl));
        return mkReal(x - y * z3::ite(q < 0, -t, t));
      }
      unsup(s, "fmod by a symbolic value");
    }
  }
  unsup(s, "floating operation");
}

Val Exec::fcmp(State &s, unsigned pred, const Val &a0, const Val &b0) {
  Val a = a0, b = b0;
  if (a.k == K_AGG) { std::vector<Val> r; for (size_t i = 0; i < a.p->v.size(); i++) r.push_back(fcmp(s, pred, a.p->v[i], b.p->v[i])); return mkAgg(r); }
  if (pred == CmpInst::FCMP_FALSE) return mkInt(1, 0);
  if (pred == CmpInst::FCMP_TRUE) return mkInt(1, 1);
  if (a.k == K_UNDEF) a = mkDbl(0);
  if (b.k == K_UNDEF) b = mkDbl(0);
  if ((a.k == K_DBL && std::isnan(a.d())) || (b.k == K_DBL && std::isnan(b.d()))) return mkInt(1, CmpInst::isUnordered((CmpInst::Predicate)pred));
  if (pred == CmpInst::FCMP_ORD) return mkInt(1, 1);
  if (pred == CmpInst::FCMP_UNO) return mkInt(1, 0);
  int kind; // 0 eq 1 gt 2 ge 3 lt 4 le 5 ne
  switch (pred) {
    case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: kind = 0; break;
    case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: kind = 1; break;
    case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: kind = 2; break;
    case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: kind = 3; break;
    case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: kind = 4; break;
    default: kind = 5;
  }
  auto conc = [&](double x, double y) { bool r = false; switch (kind) { case 0: r = x == y; break; case 1: r = x > y; break; case 2: r = x >= y; break; case 3: r = x < y; break; case 4: r = x <= y; break; default: r = x != y; } return mkInt(1, r); };
  if (a.k == K_DBL && b.k == K_DBL) return conc(a.d(), b.d());
  if (a.k == K_DBL && std::isinf(a.d())) return conc(a.d(), 0);
  if (b.k == K_DBL && std::isinf(b.d())) return conc(0, b.d());
  expr x = realE(a), y = realE(b);
  switch (kind) {
    case 0: return mkBool((x == y).simplify()); case 1: return mkBool((x > y).simplify()); case 2: return mkBool((x >= y).simplify());
    case 3: return mkBool((x < y).simplify()); case 4: return mkBool((x <= y).simplify()); default: return mkBool((x != y).simplify());
  }
}

Val Exec::selectV(State &s, const Val &c, const Val &a, const Val &b, Type *T) {
  if (c.k == K_AGG) { std::vector<Val> r; for (size_t i = 0; i < c.p->v.size(); i++) r.push_back(selectV(s, c.p->v[i], a.p->v[i], b.p->v[i], T->getScalarType())); return mkAgg(r); }
  if (c.k != K_SYM) return (c.lo & 1) ? a : b;
  if (a.k == b.k && a.k != K_SYM && a.k != K_AGG && a.k != K_CAT && a.lo == b.lo && a.hi == b.hi) return a;
  if (a.k == K_UNDEF) return b;
  if (b.k == K_UNDEF) return a;
  if (T->isFloatingPointTy()) {
    bool fin = (a.k == K_SYM || (a.k == K_DBL && std::isfinite(a.d()))) && (b.k == K_SYM || (b.k == K_DBL && std::isfinite(b.d())));
    if (!fin || forkSelectReal) return decide(s, c.e()) ? a : b;
    if (a.k == K_SYM && b.k == K_SYM && a.e().id() == b.e().id()) return a;
    return mkReal(z3::ite(c.e(), realE(a), realE(b)));
  }
  if (T->isIntegerTy() && a.k != K_CAT && b.k != K_CAT && !a.isReal() && !b.isReal()) {
    unsigned w = T->getIntegerBitWidth();
    if (w == 1) {
      expr x = bE(a), y = bE(b);
      if (a.k == K_INT) return (a.lo & 1) ? mkBool(c.e() || y) : mkBool(!c.e() && y);
      if (b.k == K_INT) return (b.lo & 1) ? mkBool(!c.e() || x) : mkBool(c.e() && x);
      return mkBool(z3::ite(c.e(), x, y));
    }
    // pointers stored as integers and huge constants stay concrete through forking
    i128 al, ah, bl, bh; rng(a, al, ah); rng(b, bl, bh);
    return mkSymInt(z3::ite(c.e(), sE(a), sE(b)), w, std::min(al, bl), std::max(ah, bh));
  }
  return decide(s, c.e()) ? a : b;
}

Val Exec::castV(State &s, unsigned op, Val a, Type *from, Type *to) {
  if (a.k == K_AGG && to->isVectorTy() && op != Instruction::BitCast) { std::vector<Val> r; for (auto &x : a.p->v) r.push_back(castV(s, op, x, from->getScalarType(), to->getScalarType())); return mkAgg(r); }
  switch (op) {
    case Instruction::Trunc: {
      unsigned w = to->getIntegerBitWidth();
      if (a.k == K_UNDEF) return mkInt(w, 0);
      if (a.k == K_INT) return mkInt(w, a.u());
      if (a.k == K_CAT) { Val t = catTrunc(a, w); if (t.k != K_UNDEF) { if (t.k == K_SYM || t.k == K_INT || t.k == K_CAT) return t; } a = norm(s, a); if (a.k == K_INT) return mkInt(w, a.u()); }
      if (a.isReal()) unsup(s, "truncation of a symbolic real's bits");
      if (w == 1) return mkBool(z3::mod(sE(a), ZC->int_val(2)) == 1);
      if (fitsS(a.p->lo, a.p->hi, w)) return mkSymInt(a.e(), w, a.p->lo, a.p->hi);
      return wrapSym(s, a.e(), a.p->lo, a.p->hi, w);
    }
    case Instruction::ZExt: case Instruction::SExt: {
      unsigned w = to->getIntegerBitWidth();
      if (a.k == K_UNDEF) return mkInt(w, 0);
      if (a.k == K_INT) return op == Instruction::ZExt ? mkInt(w, a.u()) : mkInt(w, (u128)a.s());
      if (a.k == K_CAT && op == Instruction::ZExt) {
        Val r; r.k = K_CAT; r.w = w; auto pp = std::make_shared<Pay>(expr(*ZC)); pp->v = a.p->v; unsigned left = w - a.w;
        while (left) { unsigned n = std::min(left, 64u); pp->v.push_back(mkInt(n, 0)); left -= n; } r.p = pp; return r;
      }
      a = norm(s, a); if (a.k == K_INT) return castV(s, op, a, from, to);
      if (a.w == 1) { expr b = a.e(); return op == Instruction::ZExt ? mkSymInt(z3::ite(b, ZC->int_val(1), ZC->int_val(0)), w, 0, 1) : mkSymInt(z3::ite(b, ZC->int_val(-1), ZC->int_val(0)), w, -1, 0); }
      if (op == Instruction::SExt) return mkSymInt(a.e(), w, a.p->lo, a.p->hi);
      i128 l, h; rngU(a, l, h); return mkSymInt(uE(a), w, l, h);
    }
    case Instruction::FPTrunc: if (a.k == K_DBL && to->isFloatTy()) return mkDbl((float)a.d()); return a.k == K_UNDEF ? mkDbl(0) : a;
    case Instruction::FPExt: return a.k == K_UNDEF ? mkDbl(0) : a;
    case Instruction::SIToFP: case Instruction::UIToFP: {
      if (a.k == K_UNDEF) return mkDbl(0);
      if (a.k == K_INT) { double d = op == Instruction::SIToFP ? (double)a.s() : (double)a.u(); if (to->isFloatTy()) d = (float)d; return mkDbl(d); }
      a = norm(s, a);
      expr e = op == Instruction::SIToFP ? sE(a) : uE(a);
      return mkReal(expr(*ZC, Z3_mk_int2real(*ZC, e)));
    }
    case Instruction::FPToSI: case Instruction::FPToUI: {
      unsigned w = to->getIntegerBitWidth();
      if (a.k == K_UNDEF) return mkInt(w, 0);
      if (a.k == K_DBL) {
        double d = std::trunc(a.d());
        double hi = std::ldexp(1.0, op == Instruction::FPToSI ? w - 1 : w), lo = op == Instruction::FPToSI ? -hi : 0;
        if (!(d >= lo && d < hi)) { // undefined in C++; x86 gives INT_MIN ("integer indefinite")
          note("out-of-range floating to integer conversion at " + where(s)); return mkInt(w, (u128)1 << (w - 1)); }
        return op == Instruction::FPToSI ? mkInt(w, (u128)(i128)d) : mkInt(w, (u128)d);
      }
      expr x = a.e();
      expr t = z3::ite(x >= 0, expr(*ZC, Z3_mk_real2int(*ZC, x)), -expr(*ZC, Z3_mk_real2int(*ZC, -x)));
      i128 lo = op == Instruction::FPToSI ? smin(w) : 0, hi = op == Instruction::FPToSI ? smax(w) : smax(w) * 2 + 1;
      expr out = t < intE(lo) || t > intE(hi);
      if (decide(s, out)) { note("out-of-range floating to integer conversion at " + where(s)); return mkInt(w, (u128)1 << (w - 1)); }
      return mkSymInt(t, w, lo, hi > smax(w) ? smax(w) : hi);
    }
    case Instruction::BitCast: {
      if (from == to) return a;
      if (from->isVectorTy() || to->isVectorTy()) {
        auto *fv = dyn_cast<FixedVectorType>(from), *tv = dyn_cast<FixedVectorType>(to);
        if (fv && tv && fv->getNumElements() == tv->getNumElements()) { std::vector<Val> r; for (auto &x : a.p->v) r.push_back(castV(s, op, x, fv->getElementType(), tv->getElementType())); return mkAgg(r); }
        // through a byte buffer
        Obj o; o.size = DL->getTypeStoreSize(from); o.b.resize(o.size);
        if (fv) { unsigned es = DL->getTypeStoreSize(fv->getElementType()); for (size_t i = 0; i < a.p->v.size(); i++) objWriteVal(o, i * es, a.p->v[i], es); }
        else objWriteVal(o, 0, a, o.size);
        if (tv) { std::vector<Val> r; unsigned es = DL->getTypeStoreSize(tv->getElementType()); for (unsigned i = 0; i < tv->getNumElements(); i++) r.push_back(objReadVal(o, i * es, es, tv->getElementType()->isFloatingPointTy(), tv->getElementType()->isIntegerTy() ? tv->getElementType()->getIntegerBitWidth() : 0)); return mkAgg(r); }
        return objReadVal(o, 0, o.size, to->isFloatingPointTy(), to->isIntegerTy() ? to->getIntegerBitWidth() : 64);
      }
      if (from->isFloatingPointTy() && to->isIntegerTy()) {
        if (a.k == K_DBL) { if (from->isFloatTy()) { float f = a.d(); uint32_t u; memcpy(&u, &f, 4); return mkInt(32, u); } return mkInt(64, a.lo); }
        if (a.k == K_SYM) { Val r = a; r.w = to->getIntegerBitWidth(); return r; }
        return mkInt(to->getIntegerBitWidth(), 0);
      }
      if (from->isIntegerTy() && to->isFloatingPointTy()) {
        if (a.k == K_INT) { if (to->isFloatTy()) { float f; uint32_t u = a.lo; memcpy(&f, &u, 4); return mkDbl(f); } double d; memcpy(&d, &a.lo, 8); return mkDbl(d); }
        if (a.isReal()) { Val r = a; r.w = 0; return r; }
        if (a.k == K_UNDEF) return mkDbl(0);
        unsup(s, "bitcast of a symbolic integer to floating point");
      }
      return a;
    }
    case Instruction::PtrToInt: { unsigned w = to->getIntegerBitWidth(); if (a.k == K_INT) return mkInt(w, a.u()); return a; }
    case Instruction::IntToPtr: if (a.k == K_INT) return mkInt(64, a.u()); return a;
    case Instruction::AddrSpaceCast: return a;
  }
  unsup(s, "cast");
}

// ---- non-polynomial functions
expr Exec::freshApp(State &s, const std::string &f, const expr &arg0) {
  expr arg = arg0.simplify();
  auto key = std::make_pair(f, arg.id());
  auto it = appIdx.find(key);
  int id;
  if (it == appIdx.end()) {
    id = apps.size();
    expr v = ZC->real_const(("_" + f + "_" + std::to_string(id)).c_str());
    App a{f, arg, v, {}, {}};
    if (f == "sqrt") { a.ax.push_back(v >= 0); a.ax.push_back(v * v == arg); }
    else if (f == "hypot") { a.ax.push_back(v >= 0); a.lz.push_back(v * v == arg); }
    else if (f == "exp") { a.ax.push_back(v > 0); a.lz.push_back(z3::ite(arg > 0, v > 1 + arg, z3::ite(arg == 0, v == 1, v < 1 && v > 1 + arg))); }
    else if (f == "log") { a.lz.push_back(z3::ite(arg > 1, v > 0 && v < arg - 1, z3::ite(arg == 1, v == 0, v < 0 && v < arg - 1))); }
    else if (f == "log10") { a.lz.push_back(z3::ite(arg > 1, v > 0, z3::ite(arg == 1, v == 0, v < 0))); }
    else if (f == "tanh") { a.ax.push_back(v > -1 && v < 1); a.lz.push_back(z3::ite(arg > 0, v > 0 && v < arg, z3::ite(arg == 0, v == 0, v < 0 && v > arg))); }
    else if (f == "atan") { a.ax.push_back(v > dblE(-1.5707963267948968) && v < dblE(1.5707963267948968)); a.lz.push_back(z3::ite(arg > 0, v > 0, z3::ite(arg == 0, v == 0, v < 0))); }
    else if (f == "sin" || f == "cos") { a.ax.push_back(v >= -1 && v <= 1); }
    apps.push_back(a); appIdx[key] = id; keep.push_back(arg);
  } else id = it->second;
  if (!s.axioms.count(id)) {
    static const std::set<std::string> mono{"exp", "log", "log10", "tanh", "atan", "sqrt", "asinh", "cbrt"};
    for (auto &x : apps[id].ax) addPC(s, x);
    for (auto &x : apps[id].lz) s.lazy.push_back(x);
    for (int j : s.axioms) if (apps[j].f == f) {
      const App &A = apps[id], &B = apps[j];
      if (f == "sqrt" || f == "hypot") continue;
      if (mono.count(f)) { s.lazy.push_back((A.arg < B.arg) == (A.var < B.var)); s.lazy.push_back((A.arg == B.arg) == (A.var == B.var)); }
      else s.lazy.push_back(z3::implies(A.arg == B.arg, A.var == B.var));
    }
    s.axioms.insert(id);
    bool kept = false;
    if ((f == "sqrt" || f == "hypot") && s.model) try { // every argument in the domain has a root: extend the model
      expr av = s.model->eval(apps[id].arg, true); z3::func_decl vd = apps[id].var.decl();
      if (!s.model->has_interp(vd) && Z3_algebraic_is_value(*ZC, av) && !Z3_algebraic_is_neg(*ZC, av)) { expr rt(*ZC, Z3_algebraic_root(*ZC, av, 2)); s.model->add_const_interp(vd, rt); kept = true; }
    } catch (z3::exception &) {}
    if (!kept) s.model.reset();
  }
  return apps[id].var;
}
Val Exec::sqrtV(State &s, const Val &x) {
  if (x.k != K_SYM) return mkDbl(std::sqrt(x.d()));
  expr e = x.e().simplify();
  if (e.is_numeral()) { double d; numeralToDouble(e, d); if (d < 0) return mkDbl(NAN); }
  if (decide(s, e < 0)) return mkDbl(NAN);
  // sqrt(y*y) = |y|
  if (e.is_app() && e.decl().decl_kind() == Z3_OP_MUL && e.num_args() == 2 && e.arg(0).id() == e.arg(1).id()) return fabsV(mkReal(e.arg(0)));
  { bool ok; Val r = canonSqrt(mkReal(e), ok); if (ok) return r; }
  return mkReal(freshApp(s, "sqrt", e));
}
Val Exec::floorV(State &s, const Val &x, int mode) {
  if (x.k != K_SYM) { double d = x.d(); switch (mode) { case 0: return mkDbl(std::floor(d)); case 1: return mkDbl(std::ceil(d)); case 2: return mkDbl(std::trunc(d)); case 3: return mkDbl(std::round(d)); default: return mkDbl(std::nearbyint(d)); } }
  expr e = x.e();
  auto fl = [&](const expr &y) { return expr(*ZC, Z3_mk_int2real(*ZC, expr(*ZC, Z3_mk_real2int(*ZC, y)))); };
  switch (mode) {
    case 0: return mkReal(fl(e));
    case 1: return mkReal(-fl(-e));
    case 2: return mkReal(z3::ite(e >= 0, fl(e), -fl(-e)));
    case 3: return mkReal(z3::ite(e >= 0, fl(e + ZC->real_val(1, 2)), -fl(-e + ZC->real_val(1, 2))));
    default: { expr r = fl(e + ZC->real_val(1, 2)); // ties to even
      expr tie = (r - e) == ZC->real_val(1, 2); expr ri = expr(*ZC, Z3_mk_real2int(*ZC, r)); return mkReal(z3::ite(tie && z3::mod(ri, ZC->int_val(2)) == 1, r - 1, r)); }
  }
}
Val Exec::apply(State &s, const std::string &f, const Val &x) {
  if (x.k != K_SYM) {
    double d = x.d(), r;
    if (f == "exp") r = std::exp(d); else if (f == "log") r = std::log(d); else if (f == "log10") r = std::log10(d); else if (f == "tanh") r = std::tanh(d);
    else if (f == "atan") r = std::atan(d); else if (f == "sin") r = std::sin(d); else if (f == "cos") r = std::cos(d); else if (f == "tan") r = std::tan(d);
    else if (f == "sinh") r = std::sinh(d); else if (f == "cosh") r = std::cosh(d); else if (f == "exp2") r = std::exp2(d); else if (f == "log2") r = std::log2(d);
    else if (f == "asin") r = std::asin(d); else if (f == "acos") r = std::acos(d); else if (f == "erf") r = std::erf(d); else if (f == "erfc") r = std::erfc(d);
    else if (f == "asinh") r = std::asinh(d); else if (f == "acosh") r = std::acosh(d); else if (f == "atanh") r = std::atanh(d); else if (f == "log1p") r = std::log1p(d); else if (f == "expm1") r = std::expm1(d);
    else if (f == "cbrt") r = std::cbrt(d); else if (f == "tgamma") r = std::tgamma(d); else if (f == "lgamma") r = std::lgamma(d);
    else unsup(s, "function " + f);
    return mkDbl(r);
  }
  expr e = x.e();
  if (f == "log" || f == "log10" || f == "log2" || f == "log1p") {
    expr a = f == "log1p" ? e + 1 : e;
    if (decide(s, a < 0)) return mkDbl(NAN);
    if (decide(s, a == 0)) return mkDbl(-INFINITY);
  }
  if (f == "asin" || f == "acos") { if (decide(s, e < -1 || e > 1)) return mkDbl(NAN); }
  if (f == "expm1") return mkReal(freshApp(s, "exp", e) - 1);
  if (f == "log1p") return mkReal(freshApp(s, "log", e + 1));
  if (f == "log2") return fbin(s, Instruction::FMul, mkReal(freshApp(s, "log", e)), mkDbl(1.4426950408889634), false);
  if (f == "cosh" || f == "sinh") { expr a = freshApp(s, "exp", e), b = freshApp(s, "exp", -e); return mkReal(((f == "cosh" ? a + b : a - b) / 2)); }
  stubs.insert(f + "(symbolic): fresh variable with axioms");
  return mkReal(freshApp(s, f, e));
}
