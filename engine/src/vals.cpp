#include "symx.h"
#include <sys/time.h>
z3::context *ZC = nullptr;
double nowSec() { struct timeval tv; gettimeofday(&tv, 0); return tv.tv_sec + 1e-6 * tv.tv_usec; }

std::string i128s(i128 x) {
  bool neg = x < 0; u128 u = neg ? (u128)0 - (u128)x : (u128)x;
  std::string s; do { s.insert(s.begin(), '0' + (int)(u % 10)); u /= 10; } while (u);
  return neg ? "-" + s : s;
}
Val mkInt(unsigned w, u128 x) {
  Val v; v.k = K_INT; v.w = w;
  if (w < 128) x &= (((u128)1 << w) - 1);
  v.lo = (uint64_t)x; v.hi = (uint64_t)(x >> 64); return v;
}
Val mkDbl(double d) { Val v; v.k = K_DBL; memcpy(&v.lo, &d, 8); return v; }
expr intE(i128 x) { return ZC->int_val(i128s(x).c_str()); }
expr dblE(double d) {
  static std::unordered_map<uint64_t, expr> cache;
  uint64_t b; memcpy(&b, &d, 8);
  auto it = cache.find(b); if (it != cache.end()) return it->second;
  mpq_t q; mpq_init(q); mpq_set_d(q, d);
  char *s = mpq_get_str(nullptr, 10, q); expr e = ZC->real_val(s); free(s); mpq_clear(q);
  cache.emplace(b, e); return e;
}
bool numeralToDouble(const expr &e, double &d, bool *exact) {
  if (!e.is_numeral()) return false;
  std::string s = e.to_string(); // may be in lisp form; use get_decimal via mpq
  s = Z3_get_numeral_string(*ZC, e);
  mpq_t q; mpq_init(q); mpq_set_str(q, s.c_str(), 10); mpq_canonicalize(q);
  // correctly rounded conversion
  mpf_t f; mpf_init2(f, 2200); mpf_set_q(f, q);
  d = mpq_get_d(q); // truncates
  double d2 = std::nextafter(d, mpq_sgn(q) > 0 ? INFINITY : -INFINITY);
  mpq_t a, b; mpq_init(a); mpq_init(b);
  if (std::isfinite(d)) {
    mpq_set_d(a, d);
    bool ex = mpq_equal(a, q);
    if (!ex && std::isfinite(d2)) {
      mpq_set_d(b, d2);
      mpq_sub(a, q, a); mpq_abs(a, a); mpq_sub(b, b, q); mpq_abs(b, b);
      if (mpq_cmp(b, a) < 0) d = d2;
    }
    if (exact) *exact = ex;
  } else if (exact) *exact = false;
  mpq_clear(a); mpq_clear(b); mpq_clear(q); mpf_clear(f);
  return true;
}
Val mkReal(const expr &e) {
  if (e.is_numeral()) { double d; bool ex; if (numeralToDouble(e, d, &ex) && ex) return mkDbl(d); }
  Val v; v.k = K_SYM; v.w = 0; v.p = std::make_shared<Pay>(e); return v;
}
Val mkBool(const expr &e) {
  if (e.is_true()) return mkInt(1, 1);
  if (e.is_false()) return mkInt(1, 0);
  Val v; v.k = K_SYM; v.w = 1; auto p = std::make_shared<Pay>(e); p->lo = 0; p->hi = 1; v.p = p; return v;
}
Val mkSymInt(const expr &e, unsigned w, i128 lo, i128 hi) {
  if (e.is_numeral()) {
    std::string s = Z3_get_numeral_string(*ZC, e);
    bool neg = s[0] == '-'; u128 x = 0; for (char c : s) if (c >= '0' && c <= '9') x = x * 10 + (c - '0');
    return mkInt(w, neg ? (u128)0 - x : x);
  }
  if (lo == hi) return mkInt(w, (u128)lo);
  Val v; v.k = K_SYM; v.w = w; auto p = std::make_shared<Pay>(e); p->lo = lo; p->hi = hi; v.p = p; return v;
}
Val mkAgg(std::vector<Val> vv) {
  Val v; v.k = K_AGG; auto p = std::make_shared<Pay>(expr(*ZC)); p->v = std::move(vv); v.p = p; return v;
}

// ---------------- objects
static Val extractBytes(const Val &v, uint32_t size, uint32_t off, uint32_t n) {
  // little-endian byte extraction from a value that occupies `size` bytes
  if (off == 0 && n == size) return v;
  if (v.k == K_CAT) {
    uint32_t p = 0;
    for (auto &x : v.p->v) { uint32_t sz = x.w / 8; if (off >= p && off + n <= p + sz) return extractBytes(x, sz, off - p, n); p += sz; }
    Val u; return u;
  }
  if (v.k == K_INT || v.k == K_DBL) return mkInt(n * 8, v.u() >> (8 * off));
  if (v.k == K_SYM && !v.isReal()) {
    expr e = v.e();
    if (v.w == 1) e = z3::ite(e, ZC->int_val(1), ZC->int_val(0));
    i128 lo = v.p->lo, hi = v.p->hi;
    if (off == 0 && lo >= smin(8 * n) && hi <= smax(8 * n)) return mkSymInt(e, 8 * n, lo, hi);
    i128 div = (i128)1 << (8 * off), m = (i128)1 << (8 * n);
    expr q = off ? expr(*ZC, Z3_mk_div(*ZC, e, intE(div))) : e; // floor for positive divisor
    i128 ql = lo >> (8 * off), qh = hi >> (8 * off);
    if (ql >= smin(8 * n) && qh <= smax(8 * n)) return mkSymInt(q, 8 * n, ql, qh);
    expr r = z3::mod(q - intE(smin(8 * n)), intE(m)) + intE(smin(8 * n));
    return mkSymInt(r, 8 * n, smin(8 * n), smax(8 * n));
  }
  Val u; u.k = K_UNDEF; u.w = 8 * n; return u;
}
void objClear(Obj &o, uint32_t off, uint32_t n) {
  if (o.sl.empty()) return;
  auto it = o.sl.lower_bound(off);
  if (it != o.sl.begin()) { auto p = std::prev(it); if (p->first + p->second.size > off) it = p; }
  while (it != o.sl.end() && it->first < off + n) {
    uint32_t s0 = it->first; Slot s = it->second;
    it = o.sl.erase(it);
    if (s0 >= off && s0 + s.size <= off + n) continue;
    // partial overlap: split the remaining bytes
    if (s.v.k == K_SYM && s.v.isReal()) {
      Slot u; u.v.k = K_UNDEF; u.size = 1;
      for (uint32_t b = 0; b < s.size; b++) if (s0 + b < off || s0 + b >= off + n) o.sl[s0 + b] = u;
    } else
      for (uint32_t b = 0; b < s.size; b++) if (s0 + b < off || s0 + b >= off + n) {
        Val x = extractBytes(s.v, s.size, b, 1);
        if (x.k == K_INT) o.b[s0 + b] = (uint8_t)x.lo; else o.sl[s0 + b] = Slot{x, 1};
      }
    it = o.sl.lower_bound(off);
  }
}
void objWriteVal(Obj &o, uint32_t off, const Val &v, uint32_t size) {
  objClear(o, off, size);
  switch (v.k) {
    case K_UNDEF: return; // leave previous bytes
    case K_INT: { u128 x = v.u(); for (uint32_t i = 0; i < size; i++) { o.b[off + i] = i < 16 ? (uint8_t)(x >> (8 * i)) : 0; } return; }
    case K_DBL:
      if (size == 8) memcpy(&o.b[off], &v.lo, 8);
      else if (size == 4) { float f = (float)v.d(); memcpy(&o.b[off], &f, 4); }
      else { // x86_fp80 and friends: keep the double, zero-padded
        memset(&o.b[off], 0, size); long double ld = v.d(); memcpy(&o.b[off], &ld, size < 10 ? size : 10); }
      return;
    case K_SYM: o.sl[off] = Slot{v, size}; return;
    case K_CAT: { uint32_t p = off; for (auto &x : v.p->v) { uint32_t sz = x.w ? x.w / 8 : 8; objWriteVal(o, p, x, sz); p += sz; } return; }
    default: return;
  }
}
bool objConcrete(const Obj &o, uint32_t off, uint32_t n) {
  if (o.sl.empty()) return true;
  auto it = o.sl.lower_bound(off);
  if (it != o.sl.end() && it->first < off + n) return false;
  if (it != o.sl.begin()) { auto p = std::prev(it); if (p->first + p->second.size > off) return false; }
  return true;
}
Val objReadVal(const Obj &o, uint32_t off, uint32_t size, bool fp, unsigned w) {
  if (objConcrete(o, off, size)) {
    if (fp) {
      if (size == 8) { double d; memcpy(&d, &o.b[off], 8); return mkDbl(d); }
      if (size == 4) { float f; memcpy(&f, &o.b[off], 4); return mkDbl(f); }
      long double ld = 0; memcpy(&ld, &o.b[off], 10); return mkDbl((double)ld);
    }
    u128 x = 0; for (uint32_t i = 0; i < size && i < 16; i++) x |= (u128)o.b[off + i] << (8 * i);
    return mkInt(w ? w : size * 8, x);
  }
  auto it = o.sl.find(off);
  if (it != o.sl.end() && it->second.size == size) {
    Val v = it->second.v;
    if (fp) return v;
    if (v.isReal()) { v.w = size * 8; return v; } // FPB: real viewed as an integer of the same size
    return v;
  }
  // covering slot
  it = o.sl.upper_bound(off);
  if (it != o.sl.begin()) { auto p = std::prev(it); if (p->first <= off && p->first + p->second.size >= off + size) { Val r = extractBytes(p->second.v, p->second.size, off - p->first, size); return r; } }
  // composite
  std::vector<Val> parts; uint32_t p = off, end = off + size;
  while (p < end) {
    auto q = o.sl.upper_bound(p);
    const Slot *s = nullptr; uint32_t s0 = 0;
    if (q != o.sl.begin()) { auto pr = std::prev(q); if (pr->first + pr->second.size > p) { s = &pr->second; s0 = pr->first; } }
    if (s) {
      uint32_t n = std::min(s0 + s->size, end) - p;
      Val x = extractBytes(s->v, s->size, p - s0, n); x.w = 8 * n;
      if (x.isReal() && n != 8) { Val u; u.w = 8 * n; x = u; }
      parts.push_back(x); p += n;
    } else {
      uint32_t stop = q == o.sl.end() ? end : std::min(end, q->first);
      u128 x = 0; uint32_t n = std::min<uint32_t>(stop - p, 8); for (uint32_t i = 0; i < n; i++) x |= (u128)o.b[p + i] << (8 * i);
      parts.push_back(mkInt(8 * n, x)); p += n;
    }
  }
  if (std::all_of(parts.begin(), parts.end(), [](const Val &x) { return x.k == K_UNDEF; })) { Val u; u.w = size * 8; return u; }
  Val r; r.k = K_CAT; r.w = size * 8; auto pp = std::make_shared<Pay>(expr(*ZC)); pp->v = parts; r.p = pp; return r;
}
void objCopy(Obj &dst, uint32_t doff, const Obj &src, uint32_t soff, uint32_t n) {
  if (!n) return;
  std::vector<uint8_t> tmp(src.b.begin() + soff, src.b.begin() + soff + n);
  std::vector<std::pair<uint32_t, Slot>> sl;
  if (!objConcrete(src, soff, n)) {
    auto it = src.sl.lower_bound(soff);
    if (it != src.sl.begin()) { auto p = std::prev(it); if (p->first + p->second.size > soff) it = p; }
    for (; it != src.sl.end() && it->first < soff + n; ++it) {
      uint32_t a = std::max(it->first, soff), b = std::min(it->first + it->second.size, soff + n);
      Val v = extractBytes(it->second.v, it->second.size, a - it->first, b - a);
      sl.push_back({a - soff, Slot{v, b - a}});
    }
  }
  objClear(dst, doff, n);
  memcpy(&dst.b[doff], tmp.data(), n);
  for (auto &x : sl) { if (x.second.v.k == K_INT) { for (uint32_t i = 0; i < x.second.size; i++) dst.b[doff + x.first + i] = (uint8_t)(x.second.v.u() >> (8 * i)); } else dst.sl[doff + x.first] = x.second; }
}
uint64_t Mem::add(ObjP o) {
  uint64_t id = n++; uint64_t ci = id >> 6;
  while (c.size() <= ci) c.push_back(std::make_shared<Chunk>());
  if (c[ci].use_count() > 1) c[ci] = std::make_shared<Chunk>(*c[ci]);
  c[ci]->o[id & 63] = std::move(o); return id;
}
const Obj *Mem::get(uint64_t id) const { if (id == 0 || id >= n) return nullptr; return c[id >> 6]->o[id & 63].get(); }
Obj *Mem::getW(uint64_t id) {
  if (id == 0 || id >= n) return nullptr;
  auto &ch = c[id >> 6]; if (ch.use_count() > 1) ch = std::make_shared<Chunk>(*ch);
  auto &o = ch->o[id & 63]; if (!o) return nullptr; if (o.use_count() > 1) o = std::make_shared<Obj>(*o);
  return o.get();
}

void Mem::kill(uint64_t id) {
  static ObjP tomb = [] { auto o = std::make_shared<Obj>(); o->freed = true; return o; }();
  if (id == 0 || id >= n) return;
  auto &ch = c[id >> 6]; if (ch.use_count() > 1) ch = std::make_shared<Chunk>(*ch);
  ch->o[id & 63] = tomb;
}
