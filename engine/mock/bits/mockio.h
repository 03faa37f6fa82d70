// Model of the standard stream library used when the code is encoded for the solver.
// Formatting and parsing of numbers is delegated to engine primitives so that symbolic numbers can pass through text.
#pragma once
#include <bits/c++config.h>
#include <iosfwd>
#include <bits/char_traits.h>
#include <bits/exception_defines.h>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <climits>
#include <string>
#include <type_traits>
#include <stdexcept>
#include <system_error>
#include <bits/localefwd_mock.h>
extern "C" {
int __vfs_open(const char *, int);
long __vfs_size(int);
long __vfs_read(int, unsigned long, void *, unsigned long);
long __vfs_write(int, unsigned long, const void *, unsigned long);
int __vfs_getc(int, unsigned long);
int __rt_fmt_double(char *, double, int prec, int mode, int flags);
}
namespace std {
enum _Ios_Fmtflags_m : unsigned { };
class ios_base {
public:
  typedef unsigned fmtflags;
  typedef unsigned iostate;
  typedef unsigned openmode;
  typedef int seekdir;
  typedef int io_state;
  static constexpr fmtflags boolalpha = 1, dec = 2, fixed = 4, hex = 8, internal = 16, left = 32, oct = 64, right = 128, scientific = 256, showbase = 512, showpoint = 1024, showpos = 2048, skipws = 4096, unitbuf = 8192, uppercase = 16384, adjustfield = left | right | internal, basefield = dec | oct | hex, floatfield = scientific | fixed;
  static constexpr iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
  static constexpr openmode app = 1, ate = 2, binary = 4, in = 8, out = 16, trunc = 32, __noreplace = 64;
  static constexpr seekdir beg = 0, cur = 1, end = 2;
  class failure : public std::system_error {
  public:
    explicit failure(const string &s) : system_error(make_error_code(errc::io_error), s) {}
    explicit failure(const string &s, const error_code &e) : system_error(e, s) {}
  };
  class Init { public: Init() {} ~Init() {} };
  fmtflags flags() const { return _fl; }
  fmtflags flags(fmtflags f) { auto o = _fl; _fl = f; return o; }
  fmtflags setf(fmtflags f) { auto o = _fl; _fl |= f; return o; }
  fmtflags setf(fmtflags f, fmtflags m) { auto o = _fl; _fl = (_fl & ~m) | (f & m); return o; }
  void unsetf(fmtflags f) { _fl &= ~f; }
  streamsize precision() const { return _prec; }
  streamsize precision(streamsize p) { auto o = _prec; _prec = p; return o; }
  streamsize width() const { return _w; }
  streamsize width(streamsize w) { auto o = _w; _w = w; return o; }
  static bool sync_with_stdio(bool = true) { return true; }
  locale imbue(const locale &l) { return l; }
  locale getloc() const { return locale(); }
  static int xalloc() { return 0; }
  long &iword(int) { return _iw; }
  void *&pword(int) { return _pw; }
  virtual ~ios_base() {}
protected:
  ios_base() {}
  fmtflags _fl = skipws | dec; streamsize _prec = 6, _w = 0; long _iw = 0; void *_pw = nullptr;
};
inline ios_base &boolalpha(ios_base &b) { b.setf(ios_base::boolalpha); return b; }
inline ios_base &noboolalpha(ios_base &b) { b.unsetf(ios_base::boolalpha); return b; }
inline ios_base &showbase(ios_base &b) { b.setf(ios_base::showbase); return b; }
inline ios_base &noshowbase(ios_base &b) { b.unsetf(ios_base::showbase); return b; }
inline ios_base &showpoint(ios_base &b) { b.setf(ios_base::showpoint); return b; }
inline ios_base &noshowpoint(ios_base &b) { b.unsetf(ios_base::showpoint); return b; }
inline ios_base &showpos(ios_base &b) { b.setf(ios_base::showpos); return b; }
inline ios_base &noshowpos(ios_base &b) { b.unsetf(ios_base::showpos); return b; }
inline ios_base &skipws(ios_base &b) { b.setf(ios_base::skipws); return b; }
inline ios_base &noskipws(ios_base &b) { b.unsetf(ios_base::skipws); return b; }
inline ios_base &uppercase(ios_base &b) { b.setf(ios_base::uppercase); return b; }
inline ios_base &nouppercase(ios_base &b) { b.unsetf(ios_base::uppercase); return b; }
inline ios_base &unitbuf(ios_base &b) { return b; }
inline ios_base &nounitbuf(ios_base &b) { return b; }
inline ios_base &internal(ios_base &b) { b.setf(ios_base::internal, ios_base::adjustfield); return b; }
inline ios_base &left(ios_base &b) { b.setf(ios_base::left, ios_base::adjustfield); return b; }
inline ios_base &right(ios_base &b) { b.setf(ios_base::right, ios_base::adjustfield); return b; }
inline ios_base &dec(ios_base &b) { b.setf(ios_base::dec, ios_base::basefield); return b; }
inline ios_base &hex(ios_base &b) { b.setf(ios_base::hex, ios_base::basefield); return b; }
inline ios_base &oct(ios_base &b) { b.setf(ios_base::oct, ios_base::basefield); return b; }
inline ios_base &fixed(ios_base &b) { b.setf(ios_base::fixed, ios_base::floatfield); return b; }
inline ios_base &scientific(ios_base &b) { b.setf(ios_base::scientific, ios_base::floatfield); return b; }
inline ios_base &hexfloat(ios_base &b) { b.setf(ios_base::fixed | ios_base::scientific, ios_base::floatfield); return b; }
inline ios_base &defaultfloat(ios_base &b) { b.unsetf(ios_base::floatfield); return b; }
enum class io_errc { stream = 1 };

template <typename C, typename T> class basic_streambuf {
public:
  typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
  typedef basic_streambuf<C, T> __streambuf_type;
  virtual ~basic_streambuf() {}
  int_type sputc(C c) { return overflow(T::to_int_type(c)); }
  streamsize sputn(const C *s, streamsize n) { return xsputn(s, n); }
  int_type sgetc() { return underflow(); }
  int_type sbumpc() { return uflow(); }
  int_type snextc() { if (T::eq_int_type(sbumpc(), T::eof())) return T::eof(); return sgetc(); }
  streamsize sgetn(C *s, streamsize n) { return xsgetn(s, n); }
  int_type sputbackc(C c) { return pbackfail(T::to_int_type(c)); }
  int_type sungetc() { return pbackfail(T::eof()); }
  streamsize in_avail() { return showmanyc(); }
  int pubsync() { return sync(); }
  pos_type pubseekoff(off_type o, ios_base::seekdir d, ios_base::openmode m = ios_base::in | ios_base::out) { return seekoff(o, d, m); }
  pos_type pubseekpos(pos_type p, ios_base::openmode m = ios_base::in | ios_base::out) { return seekoff(off_type(p), ios_base::beg, m); }
  basic_streambuf *pubsetbuf(C *, streamsize) { return this; }
  locale pubimbue(const locale &l) { return l; }
  locale getloc() const { return locale(); }
protected:
  basic_streambuf() {}
  C *_pb = nullptr, *_pp = nullptr, *_pe = nullptr, *_gb = nullptr, *_gp = nullptr, *_ge = nullptr;
  C *eback() const { return _gb; } C *gptr() const { return _gp; } C *egptr() const { return _ge; }
  C *pbase() const { return _pb; } C *pptr() const { return _pp; } C *epptr() const { return _pe; }
  void setg(C *a, C *b, C *c) { _gb = a; _gp = b; _ge = c; }
  void setp(C *a, C *b) { _pb = _pp = a; _pe = b; }
  void gbump(int n) { _gp += n; } void pbump(int n) { _pp += n; }
  virtual int_type overflow(int_type = T::eof()) { return T::eof(); }
  virtual streamsize xsputn(const C *s, streamsize n) { for (streamsize i = 0; i < n; i++) if (T::eq_int_type(overflow(T::to_int_type(s[i])), T::eof())) return i; return n; }
  virtual int_type underflow() { return T::eof(); }
  virtual int_type uflow() { auto c = underflow(); if (_gp && _gp < _ge) ++_gp; return c; }
  virtual streamsize xsgetn(C *s, streamsize n) { streamsize i = 0; for (; i < n; i++) { auto c = uflow(); if (T::eq_int_type(c, T::eof())) break; s[i] = T::to_char_type(c); } return i; }
  virtual int_type pbackfail(int_type = T::eof()) { return T::eof(); }
  virtual streamsize showmanyc() { return 0; }
  virtual int sync() { return 0; }
  virtual pos_type seekoff(off_type, ios_base::seekdir, ios_base::openmode = ios_base::in | ios_base::out) { return pos_type(off_type(-1)); }
};

template <typename C, typename T> class basic_ios : public ios_base {
public:
  typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
  explicit basic_ios(basic_streambuf<C, T> *b) { init(b); }
  explicit operator bool() const { return !fail(); }
  bool operator!() const { return fail(); }
  iostate rdstate() const { return _st; }
  void clear(iostate s = goodbit) { _st = _sb ? s : (s | badbit); if (_st & _ex) throw failure("basic_ios::clear"); }
  void setstate(iostate s) { clear(_st | s); }
  bool good() const { return _st == 0; }
  bool eof() const { return _st & eofbit; }
  bool fail() const { return _st & (failbit | badbit); }
  bool bad() const { return _st & badbit; }
  iostate exceptions() const { return _ex; }
  void exceptions(iostate e) { _ex = e; clear(_st); }
  basic_ostream<C, T> *tie() const { return nullptr; }
  basic_ostream<C, T> *tie(basic_ostream<C, T> *) { return nullptr; }
  basic_streambuf<C, T> *rdbuf() const { return _sb; }
  basic_streambuf<C, T> *rdbuf(basic_streambuf<C, T> *b) { auto o = _sb; _sb = b; clear(); return o; }
  basic_ios &copyfmt(const basic_ios &o) { _fl = o._fl; _prec = o._prec; _w = o._w; _fill = o._fill; return *this; }
  C fill() const { return _fill; }
  C fill(C c) { auto o = _fill; _fill = c; return o; }
  char narrow(C c, char) const { return c; }
  C widen(char c) const { return c; }
protected:
  basic_ios() {}
  void init(basic_streambuf<C, T> *b) { _sb = b; _st = b ? goodbit : badbit; }
  void _mv(basic_ios &o) { _fl = o._fl; _prec = o._prec; _w = o._w; _st = o._st; _ex = o._ex; _fill = o._fill; }
  basic_streambuf<C, T> *_sb = nullptr; iostate _st = badbit, _ex = goodbit; C _fill = C(' ');
};

template <typename C, typename T> class basic_ostream : virtual public basic_ios<C, T> {
public:
  typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
  typedef basic_ios<C, T> __ios_type; typedef ios_base B;
  explicit basic_ostream(basic_streambuf<C, T> *b) { this->init(b); }
  virtual ~basic_ostream() {}
  struct sentry { basic_ostream &o; explicit sentry(basic_ostream &x) : o(x) {} explicit operator bool() const { return o.good(); } };
  basic_ostream &operator<<(basic_ostream &(*f)(basic_ostream &)) { return f(*this); }
  basic_ostream &operator<<(basic_ios<C, T> &(*f)(basic_ios<C, T> &)) { f(*this); return *this; }
  basic_ostream &operator<<(ios_base &(*f)(ios_base &)) { f(*this); return *this; }
  basic_ostream &operator<<(bool b) { if (this->flags() & B::boolalpha) { _pad(b ? "true" : "false", b ? 4 : 5, 0); } else _int(b, false); return *this; }
  basic_ostream &operator<<(short x) { _sint(x, (unsigned short)x); return *this; }
  basic_ostream &operator<<(unsigned short x) { _int(x, false); return *this; }
  basic_ostream &operator<<(int x) { _sint(x, (unsigned)x); return *this; }
  basic_ostream &operator<<(unsigned x) { _int(x, false); return *this; }
  basic_ostream &operator<<(long x) { _sint(x, (unsigned long)x); return *this; }
  basic_ostream &operator<<(unsigned long x) { _int(x, false); return *this; }
  basic_ostream &operator<<(long long x) { _sint(x, (unsigned long long)x); return *this; }
  basic_ostream &operator<<(unsigned long long x) { _int(x, false); return *this; }
  basic_ostream &operator<<(float x) { _dbl(x); return *this; }
  basic_ostream &operator<<(double x) { _dbl(x); return *this; }
  basic_ostream &operator<<(long double x) { _dbl((double)x); return *this; }
  basic_ostream &operator<<(const void *p) { auto f = this->flags(); this->setf(B::hex, B::basefield); this->setf(B::showbase); _int((unsigned long)p, false); this->flags(f); return *this; }
  basic_ostream &operator<<(nullptr_t) { _pad("nullptr", 7, 0); return *this; }
  basic_ostream &operator<<(basic_streambuf<C, T> *b) { if (!b) { this->setstate(B::badbit); return *this; } size_t n = 0; while (true) { auto c = b->sgetc(); if (T::eq_int_type(c, T::eof())) break; put(T::to_char_type(c)); b->sbumpc(); n++; } if (!n) this->setstate(B::failbit); return *this; }
  basic_ostream &put(C c) { if (this->good()) { if (T::eq_int_type(this->_sb->sputc(c), T::eof())) this->setstate(B::badbit); } return *this; }
  basic_ostream &write(const C *s, streamsize n) { if (this->good()) { if (this->_sb->sputn(s, n) != n) this->setstate(B::badbit); } return *this; }
  basic_ostream &flush() { if (this->_sb && this->good() && this->_sb->pubsync() == -1) this->setstate(B::badbit); return *this; }
  pos_type tellp() { return this->fail() ? pos_type(-1) : this->_sb->pubseekoff(0, B::cur, B::out); }
  basic_ostream &seekp(pos_type p) { if (!this->fail()) this->_sb->pubseekoff(off_type(p), B::beg, B::out); return *this; }
  basic_ostream &seekp(off_type o, B::seekdir d) { if (!this->fail()) this->_sb->pubseekoff(o, d, B::out); return *this; }
  void _pad(const char *s, long n, long signlen) {
    long w = this->width(); this->width(0);
    if (!this->good()) return;
    long p = w > n ? w - n : 0; auto adj = this->flags() & B::adjustfield;
    if (!p) { write(s, n); return; }
    if (adj == B::left) { write(s, n); for (long i = 0; i < p; i++) put(this->_fill); }
    else if (adj == B::internal && signlen) { write(s, signlen); for (long i = 0; i < p; i++) put(this->_fill); write(s + signlen, n - signlen); }
    else { for (long i = 0; i < p; i++) put(this->_fill); write(s, n); }
  }
protected:
  basic_ostream() {}
  template <class S, class U> void _sint(S x, U u) { if ((this->flags() & B::basefield) == B::hex || (this->flags() & B::basefield) == B::oct) _int(u, false); else if (x < 0) _int(0 - (unsigned long long)(long long)x, true); else _int((unsigned long long)x, false); }
  void _int(unsigned long long x, bool neg) {
    char b[72]; int n = 72; auto bf = this->flags() & B::basefield; unsigned base = bf == B::hex ? 16 : bf == B::oct ? 8 : 10; bool z = x == 0;
    do { b[--n] = ((this->flags() & B::uppercase) ? "0123456789ABCDEF" : "0123456789abcdef")[x % base]; x /= base; } while (x);
    long sl = 0;
    if ((this->flags() & B::showbase) && !z && base == 16) { b[--n] = (this->flags() & B::uppercase) ? 'X' : 'x'; b[--n] = '0'; sl = 2; }
    if ((this->flags() & B::showbase) && !z && base == 8) { b[--n] = '0'; }
    if (neg) { b[--n] = '-'; sl = 1; } else if ((this->flags() & B::showpos) && base == 10) { b[--n] = '+'; sl = 1; }
    _pad(b + n, 72 - n, sl);
  }
  void _dbl(double x) {
    char b[700]; auto ff = this->flags() & B::floatfield; int mode = ff == B::fixed ? 1 : ff == B::scientific ? 2 : ff == 0 ? 0 : 3; int fl = ((this->flags() & B::showpos) ? 1 : 0) | ((this->flags() & B::showpoint) ? 2 : 0) | ((this->flags() & B::uppercase) ? 4 : 0);
    int prec = (int)this->precision(); if (prec < 0) prec = 6; // printf ignores a negative precision
    int n = __rt_fmt_double(b, x, prec, mode, fl); _pad(b, n, (b[0] == '-' || b[0] == '+') ? 1 : 0);
  }
};
template <class C, class T> basic_ostream<C, T> &endl(basic_ostream<C, T> &o) { o.put('\n'); return o.flush(); }
template <class C, class T> basic_ostream<C, T> &ends(basic_ostream<C, T> &o) { return o.put('\0'); }
template <class C, class T> basic_ostream<C, T> &flush(basic_ostream<C, T> &o) { return o.flush(); }
template <class T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, char c) { o._pad(&c, 1, 0); return o; }
template <class T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, signed char c) { return o << (char)c; }
template <class T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, unsigned char c) { return o << (char)c; }
template <class T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, const char *s) { if (!s) { o.setstate(ios_base::badbit); return o; } o._pad(s, (long)__builtin_strlen(s), 0); return o; }
template <class T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, const signed char *s) { return o << (const char *)s; }
template <class T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, const unsigned char *s) { return o << (const char *)s; }
template <class S, class V> requires(!is_lvalue_reference_v<S> && is_base_of_v<ios_base, S> && requires(S &s, const V &v) { s << v; }) S &&operator<<(S &&s, const V &v) { s << v; return std::move(s); }

template <typename C, typename T> class basic_istream : virtual public basic_ios<C, T> {
public:
  typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type; typedef ios_base B;
  explicit basic_istream(basic_streambuf<C, T> *b) { this->init(b); }
  virtual ~basic_istream() {}
  struct sentry { bool ok; explicit sentry(basic_istream &i, bool noskip = false) { ok = i._pre(noskip); } explicit operator bool() const { return ok; } };
  bool _pre(bool noskip) {
    if (!this->good()) { this->setstate(B::failbit); return false; }
    if (!noskip && (this->flags() & B::skipws)) { while (true) { auto c = this->_sb->sgetc(); if (T::eq_int_type(c, T::eof())) { this->setstate(B::eofbit | B::failbit); return false; } if (!_sp(T::to_char_type(c))) break; this->_sb->sbumpc(); } }
    return true;
  }
  static bool _sp(C c) { return c == ' ' || (c >= 9 && c <= 13); }
  basic_istream &operator>>(basic_istream &(*f)(basic_istream &)) { return f(*this); }
  basic_istream &operator>>(basic_ios<C, T> &(*f)(basic_ios<C, T> &)) { f(*this); return *this; }
  basic_istream &operator>>(ios_base &(*f)(ios_base &)) { f(*this); return *this; }
  basic_istream &operator>>(bool &b) {
    if (this->flags() & B::boolalpha) { string s; if (_pre(false)) { while (true) { auto c = this->_sb->sgetc(); if (T::eq_int_type(c, T::eof())) { this->setstate(B::eofbit); break; } char ch = T::to_char_type(c); if (ch < 'a' || ch > 'z') break; s += ch; this->_sb->sbumpc(); } b = s == "true"; if (!(s == "true" || s == "false")) this->setstate(B::failbit); } return *this; }
    long v = 0; _integer(v, LONG_MIN, LONG_MAX); if (!this->fail()) { b = v != 0; if (v != 0 && v != 1) { b = true; this->setstate(B::failbit); } } else if (v == 0) b = false; return *this; }
  basic_istream &operator>>(short &x) { long v; if (_integer(v, SHRT_MIN, SHRT_MAX)) x = (short)v; return *this; }
  basic_istream &operator>>(int &x) { long v; if (_integer(v, INT_MIN, INT_MAX)) x = (int)v; return *this; }
  basic_istream &operator>>(long &x) { long v; if (_integer(v, LONG_MIN, LONG_MAX)) x = v; return *this; }
  basic_istream &operator>>(long long &x) { long v; if (_integer(v, LONG_MIN, LONG_MAX)) x = v; return *this; }
  basic_istream &operator>>(unsigned short &x) { unsigned long v; if (_uinteger(v, USHRT_MAX)) x = v; return *this; }
  basic_istream &operator>>(unsigned &x) { unsigned long v; if (_uinteger(v, UINT_MAX)) x = v; return *this; }
  basic_istream &operator>>(unsigned long &x) { unsigned long v; if (_uinteger(v, ULONG_MAX)) x = v; return *this; }
  basic_istream &operator>>(unsigned long long &x) { unsigned long v; if (_uinteger(v, ULONG_MAX)) x = v; return *this; }
  basic_istream &operator>>(float &x) { double d; if (_double(d)) x = (float)d; return *this; }
  basic_istream &operator>>(double &x) { double d; if (_double(d)) x = d; return *this; }
  basic_istream &operator>>(long double &x) { double d; if (_double(d)) x = d; return *this; }
  basic_istream &operator>>(void *&p) { unsigned long v; if (_uinteger(v, ULONG_MAX)) p = (void *)v; return *this; }
  basic_istream &operator>>(basic_streambuf<C, T> *b) { size_t n = 0; if (_pre(true)) { while (true) { auto c = this->_sb->sgetc(); if (T::eq_int_type(c, T::eof())) { this->setstate(B::eofbit); break; } b->sputc(T::to_char_type(c)); this->_sb->sbumpc(); n++; } } if (!n) this->setstate(B::failbit); return *this; }
  streamsize gcount() const { return _gc; }
  int_type get() { _gc = 0; if (!_pre(true)) return T::eof(); auto c = this->_sb->sbumpc(); if (T::eq_int_type(c, T::eof())) { this->setstate(B::eofbit | B::failbit); return c; } _gc = 1; return c; }
  basic_istream &get(C &x) { auto c = get(); if (!T::eq_int_type(c, T::eof())) x = T::to_char_type(c); return *this; }
  basic_istream &get(C *s, streamsize n, C d) { _gc = 0; if (_pre(true)) { while (_gc + 1 < n) { auto c = this->_sb->sgetc(); if (T::eq_int_type(c, T::eof())) { this->setstate(B::eofbit); break; } if (T::to_char_type(c) == d) break; s[_gc++] = T::to_char_type(c); this->_sb->sbumpc(); } } if (n > 0) s[_gc] = 0; if (!_gc) this->setstate(B::failbit); return *this; }
  basic_istream &get(C *s, streamsize n) { return get(s, n, C('\n')); }
  basic_istream &getline(C *s, streamsize n, C d) {
    _gc = 0; long k = 0; if (_pre(true)) { while (true) { auto c = this->_sb->sgetc(); if (T::eq_int_type(c, T::eof())) { this->setstate(B::eofbit); break; } if (T::to_char_type(c) == d) { this->_sb->sbumpc(); _gc++; break; } if (k + 1 >= n) { this->setstate(B::failbit); break; } s[k++] = T::to_char_type(c); this->_sb->sbumpc(); _gc++; } }
    if (n > 0) s[k] = 0; if (!_gc) this->setstate(B::failbit); return *this; }
  basic_istream &getline(C *s, streamsize n) { return getline(s, n, C('\n')); }
  basic_istream &ignore(streamsize n = 1, int_type d = T::eof()) { _gc = 0; if (_pre(true)) { while (_gc < n || n == __LONG_MAX__) { auto c = this->_sb->sbumpc(); if (T::eq_int_type(c, T::eof())) { this->setstate(B::eofbit); break; } _gc++; if (!T::eq_int_type(d, T::eof()) && T::eq_int_type(c, d)) break; } } return *this; }
  int_type peek() { _gc = 0; if (!_pre(true)) return T::eof(); auto c = this->_sb->sgetc(); if (T::eq_int_type(c, T::eof())) this->setstate(B::eofbit); return c; }
  basic_istream &read(C *s, streamsize n) { _gc = 0; if (_pre(true)) { _gc = this->_sb->sgetn(s, n); if (_gc != n) this->setstate(B::eofbit | B::failbit); } return *this; }
  streamsize readsome(C *s, streamsize n) { _gc = 0; if (_pre(true)) { long a = this->_sb->in_avail(); if (a < n) n = a; if (n > 0) _gc = this->_sb->sgetn(s, n); } return _gc; }
  basic_istream &putback(C c) { _gc = 0; this->clear(this->rdstate() & ~B::eofbit); if (_pre(true)) if (T::eq_int_type(this->_sb->sputbackc(c), T::eof())) this->setstate(B::badbit); return *this; }
  basic_istream &unget() { _gc = 0; this->clear(this->rdstate() & ~B::eofbit); if (_pre(true)) if (T::eq_int_type(this->_sb->sungetc(), T::eof())) this->setstate(B::badbit); return *this; }
  int sync() { return 0; }
  pos_type tellg() { if (this->fail()) return pos_type(-1); return this->_sb->pubseekoff(0, B::cur, B::in); }
  basic_istream &seekg(pos_type p) { return seekg(off_type(p), B::beg); }
  basic_istream &seekg(off_type o, B::seekdir d) { this->clear(this->rdstate() & ~B::eofbit); if (!this->fail()) { if (off_type(this->_sb->pubseekoff(o, d, B::in)) == -1) this->setstate(B::failbit); } return *this; }
protected:
  basic_istream() {}
  streamsize _gc = 0;
  // digits collected up to a fixed maximum, as num_get does
  bool _digits(unsigned long &mag, bool &neg, bool &any, bool &over) {
    neg = any = over = false; mag = 0; auto bf = this->flags() & B::basefield; unsigned base = bf == B::hex ? 16 : bf == B::oct ? 8 : bf == B::dec ? 10 : 0;
    auto pk = [&](int &c) { auto i = this->_sb->sgetc(); if (T::eq_int_type(i, T::eof())) { this->setstate(B::eofbit); return false; } c = (unsigned char)T::to_char_type(i); return true; };
    int c; if (!pk(c)) return false;
    if (c == '-' || c == '+') { neg = c == '-'; this->_sb->sbumpc(); if (!pk(c)) return false; }
    if (base == 0 || base == 16) { if (c == '0') { any = true; this->_sb->sbumpc(); if (!pk(c)) return true; if (c == 'x' || c == 'X') { base = 16; any = false; this->_sb->sbumpc(); if (!pk(c)) return false; } else if (base == 0) base = 8; } else if (base == 0) base = 10; }
    while (true) {
      int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99; if (d >= (int)base) break;
      any = true; if (mag > (ULONG_MAX - d) / base) over = true; else mag = mag * base + d; this->_sb->sbumpc(); if (!pk(c)) break;
    }
    return any;
  }
  bool _integer(long &v, long lo, long hi) {
    v = 0; if (!_pre(false)) return false; unsigned long m; bool ng, any, ov; _digits(m, ng, any, ov);
    if (!any) { v = 0; this->setstate(B::failbit); return true; }
    if (ng ? (ov || m > 0 - (unsigned long)lo) : (ov || m > (unsigned long)hi)) { v = ng ? lo : hi; this->setstate(B::failbit); return true; }
    v = ng ? (long)(0 - m) : (long)m; return true;
  }
  bool _uinteger(unsigned long &v, unsigned long hi) {
    v = 0; if (!_pre(false)) return false; unsigned long m; bool ng, any, ov; _digits(m, ng, any, ov);
    if (!any) { this->setstate(B::failbit); return true; }
    if (ov || m > hi) { v = hi; this->setstate(B::failbit); return true; }
    v = ng ? (0 - m) & hi : m; return true;
  }
  bool _double(double &x) {
    if (!_pre(false)) return false;
    char b[512]; int n = 0; bool dot = false, e = false, any = false; char prev = 0;
    while (n < 511) {
      auto i = this->_sb->sgetc(); if (T::eq_int_type(i, T::eof())) { this->setstate(B::eofbit); break; }
      char c = T::to_char_type(i);
      if (c >= '0' && c <= '9') any = true;
      else if ((c == '+' || c == '-') && (n == 0 || prev == 'e' || prev == 'E')) {}
      else if (c == '.' && !dot && !e) dot = true;
      else if ((c == 'e' || c == 'E') && any && !e) e = true;
      else break;
      b[n++] = c; prev = c; this->_sb->sbumpc();
    }
    b[n] = 0; char *end; double d = n ? strtod(b, &end) : 0.0;
    if (!n || !any || *end) { x = 0; this->setstate(B::failbit); return true; }
    if (d == __builtin_huge_val()) { x = 1.7976931348623157e308; this->setstate(B::failbit); return true; }
    if (d == -__builtin_huge_val()) { x = -1.7976931348623157e308; this->setstate(B::failbit); return true; }
    x = d; return true;
  }
};
template <class T> basic_istream<char, T> &operator>>(basic_istream<char, T> &i, char &x) { if (i._pre(false)) { auto c = i.rdbuf()->sbumpc(); if (T::eq_int_type(c, T::eof())) i.setstate(ios_base::eofbit | ios_base::failbit); else x = T::to_char_type(c); } return i; }
template <class T> basic_istream<char, T> &operator>>(basic_istream<char, T> &i, signed char &x) { char c = x; i >> c; x = c; return i; }
template <class T> basic_istream<char, T> &operator>>(basic_istream<char, T> &i, unsigned char &x) { char c = x; i >> c; x = c; return i; }
template <class A> basic_istream<char, char_traits<char>> &operator>>(basic_istream<char, char_traits<char>> &i, basic_string<char, char_traits<char>, A> &s) { typedef char C; typedef char_traits<char> T;
  if (i._pre(false)) { s.clear(); long w = i.width(), n = 0; while (w <= 0 || n < w) { auto c = i.rdbuf()->sgetc(); if (T::eq_int_type(c, T::eof())) { i.setstate(ios_base::eofbit); break; } C ch = T::to_char_type(c); if (basic_istream<C, T>::_sp(ch)) break; s.push_back(ch); n++; i.rdbuf()->sbumpc(); } i.width(0); if (!n) i.setstate(ios_base::failbit); }
  return i;
}
template <class A> basic_istream<char, char_traits<char>> &getline(basic_istream<char, char_traits<char>> &i, basic_string<char, char_traits<char>, A> &s, char d) { typedef char C; typedef char_traits<char> T;
  if (i._pre(true)) { s.clear(); bool any = false; while (true) { auto c = i.rdbuf()->sbumpc(); if (T::eq_int_type(c, T::eof())) { i.setstate(any ? ios_base::eofbit : (ios_base::eofbit | ios_base::failbit)); break; } any = true; C ch = T::to_char_type(c); if (ch == d) break; s.push_back(ch); } }
  return i;
}
template <class A> basic_istream<char, char_traits<char>> &getline(basic_istream<char, char_traits<char>> &i, basic_string<char, char_traits<char>, A> &s) { typedef char C; return getline(i, s, C('\n')); }
template <class A> basic_istream<char, char_traits<char>> &getline(basic_istream<char, char_traits<char>> &&i, basic_string<char, char_traits<char>, A> &s) { typedef char C; return getline(i, s, C('\n')); }
template <class A> basic_istream<char, char_traits<char>> &getline(basic_istream<char, char_traits<char>> &&i, basic_string<char, char_traits<char>, A> &s, char d) { return getline(i, s, d); }
template <class C, class T> basic_istream<C, T> &ws(basic_istream<C, T> &i) { while (i.good()) { auto c = i.rdbuf()->sgetc(); if (T::eq_int_type(c, T::eof())) { i.setstate(ios_base::eofbit); break; } if (!basic_istream<C, T>::_sp(T::to_char_type(c))) break; i.rdbuf()->sbumpc(); } return i; }
template <class S, class V> requires(!is_lvalue_reference_v<S> && is_base_of_v<ios_base, S> && requires(S &s, V &&v) { s >> std::forward<V>(v); }) S &&operator>>(S &&s, V &&v) { s >> std::forward<V>(v); return std::move(s); }

template <typename C, typename T> class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T> {
public:
  typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
  explicit basic_iostream(basic_streambuf<C, T> *b) { this->init(b); }
protected:
  basic_iostream() {}
};

// ---- strings
_GLIBCXX_BEGIN_NAMESPACE_CXX11
template <typename C, typename T, typename A> class basic_stringbuf : public basic_streambuf<C, T> {
  typedef basic_string<C, T, A> S; S _s; size_t _r = 0, _w = 0; ios_base::openmode _m;
public:
  typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
  explicit basic_stringbuf(ios_base::openmode m = ios_base::in | ios_base::out) : _m(m) {}
  explicit basic_stringbuf(const S &s, ios_base::openmode m = ios_base::in | ios_base::out) : _m(m) { str(s); }
  S str() const { return _s; }
  void str(const S &s) { _s = s; _r = 0; _w = (_m & (ios_base::ate | ios_base::app)) ? s.size() : 0; }
  basic_string_view<C, T> view() const { return _s; }
protected:
  int_type overflow(int_type c) override { if (!(_m & ios_base::out)) return T::eof(); if (T::eq_int_type(c, T::eof())) return 0; if (_w < _s.size()) _s[_w] = T::to_char_type(c); else _s.push_back(T::to_char_type(c)); _w++; return c; }
  int_type underflow() override { if (!(_m & ios_base::in) || _r >= _s.size()) return T::eof(); return T::to_int_type(_s[_r]); }
  int_type uflow() override { auto c = underflow(); if (!T::eq_int_type(c, T::eof())) _r++; return c; }
  int_type pbackfail(int_type c) override { if (_r == 0) return T::eof(); _r--; if (!T::eq_int_type(c, T::eof())) _s[_r] = T::to_char_type(c); return T::to_int_type(_s[_r]); }
  streamsize xsputn(const C *p, streamsize n) override { if (!(_m & ios_base::out)) return 0; if (_w == _s.size()) { _s.append(p, n); _w += n; return n; } for (streamsize i = 0; i < n; i++) overflow(T::to_int_type(p[i])); return n; }
  streamsize showmanyc() override { return _s.size() - _r; }
  pos_type seekoff(off_type o, ios_base::seekdir d, ios_base::openmode m) override { long b = d == ios_base::beg ? 0 : d == ios_base::end ? (long)_s.size() : (m & ios_base::in) ? (long)_r : (long)_w; long p = b + o; if (p < 0 || p > (long)_s.size()) return pos_type(off_type(-1)); if (m & ios_base::in) _r = p; if (m & ios_base::out) _w = p; return pos_type(p); }
};
#define MOCK_SS(NAME, BASE, MODE) \
template <typename C, typename T, typename A> class NAME : public BASE<C, T> { basic_stringbuf<C, T, A> _b; typedef basic_string<C, T, A> S; \
public: NAME() : _b(MODE) { this->init(&_b); } explicit NAME(ios_base::openmode m) : _b(m | MODE) { this->init(&_b); } explicit NAME(const S &s, ios_base::openmode m = MODE) : _b(s, m | MODE) { this->init(&_b); } \
  NAME(NAME &&o) : _b(std::move(o._b)) { this->_mv(o); this->_sb = &_b; } NAME &operator=(NAME &&o) { _b = std::move(o._b); this->_mv(o); return *this; } \
  S str() const { return _b.str(); } void str(const S &s) { _b.str(s); } basic_string_view<C, T> view() const { return _b.view(); } basic_stringbuf<C, T, A> *rdbuf() const { return const_cast<basic_stringbuf<C, T, A> *>(&_b); } };
#define MOCK_OUT (ios_base::out)
#define MOCK_IN (ios_base::in)
#define MOCK_IO (ios_base::in | ios_base::out)
MOCK_SS(basic_istringstream, basic_istream, MOCK_IN)
MOCK_SS(basic_ostringstream, basic_ostream, MOCK_OUT)
MOCK_SS(basic_stringstream, basic_iostream, MOCK_IO)
_GLIBCXX_END_NAMESPACE_CXX11

// ---- files (in the engine's file system)
template <typename C, typename T> class basic_filebuf : public basic_streambuf<C, T> {
  int _h = -1; unsigned long _p = 0; ios_base::openmode _m = 0;
public:
  typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
  basic_filebuf() {}
  basic_filebuf(int h, ios_base::openmode m) : _h(h), _m(m) {}
  basic_filebuf(basic_filebuf &&o) : _h(o._h), _p(o._p), _m(o._m) { o._h = -1; }
  basic_filebuf &operator=(basic_filebuf &&o) { _h = o._h; _p = o._p; _m = o._m; o._h = -1; return *this; }
  bool is_open() const { return _h >= 0; }
  basic_filebuf *open(const char *n, ios_base::openmode m) {
    if (_h >= 0) return nullptr; bool i = m & ios_base::in, o = m & (ios_base::out | ios_base::app), tr = m & ios_base::trunc, ap = m & ios_base::app; if (!i && !o) return nullptr; if (tr && !o) return nullptr;
    int mode = !o ? 0 : ap ? 2 : (tr || !i) ? 1 : 3; _h = __vfs_open(n, mode); if (_h < 0) return nullptr; _m = m; _p = (m & (ios_base::ate | ios_base::app)) ? __vfs_size(_h) : 0; return this; }
  basic_filebuf *open(const string &n, ios_base::openmode m) { return open(n.c_str(), m); }
  basic_filebuf *close() { if (_h < 0) return nullptr; _h = -1; return this; }
protected:
  int_type overflow(int_type c) override { if (_h < 0 || !(_m & (ios_base::out | ios_base::app))) return T::eof(); if (T::eq_int_type(c, T::eof())) return 0; C ch = T::to_char_type(c); if (_m & ios_base::app) _p = __vfs_size(_h); if (__vfs_write(_h, _p, &ch, 1) != 1) return T::eof(); _p++; return c; }
  streamsize xsputn(const C *s, streamsize n) override { if (_h < 0 || !(_m & (ios_base::out | ios_base::app))) return 0; if (_m & ios_base::app) _p = __vfs_size(_h); long k = __vfs_write(_h, _p, s, n); _p += k; return k; }
  int_type underflow() override { if (_h < 0 || !(_m & ios_base::in)) return T::eof(); int c = __vfs_getc(_h, _p); return c; }
  int_type uflow() override { auto c = underflow(); if (!T::eq_int_type(c, T::eof())) _p++; return c; }
  streamsize xsgetn(C *s, streamsize n) override { if (_h < 0 || !(_m & ios_base::in)) return 0; long k = __vfs_read(_h, _p, s, n); _p += k; return k; }
  int_type pbackfail(int_type) override { if (!_p) return T::eof(); _p--; return underflow(); }
  streamsize showmanyc() override { return _h < 0 ? -1 : (long)__vfs_size(_h) - (long)_p; }
  pos_type seekoff(off_type o, ios_base::seekdir d, ios_base::openmode) override { if (_h < 0) return pos_type(off_type(-1)); long b = d == ios_base::beg ? 0 : d == ios_base::end ? __vfs_size(_h) : (long)_p; if (b + o < 0) return pos_type(off_type(-1)); _p = b + o; return pos_type((long)_p); }
};
#define MOCK_FS(NAME, BASE, MODE) \
template <typename C, typename T> class NAME : public BASE<C, T> { basic_filebuf<C, T> _b; \
public: NAME() { this->init(&_b); } explicit NAME(const char *n, ios_base::openmode m = MODE) { this->init(&_b); open(n, m); } explicit NAME(const string &n, ios_base::openmode m = MODE) : NAME(n.c_str(), m) {} \
  template <class P> requires requires(const P &p) { p.native(); } explicit NAME(const P &p, ios_base::openmode m = MODE) : NAME(p.native().c_str(), m) {} \
  NAME(NAME &&o) : _b(std::move(o._b)) { this->_mv(o); this->_sb = &_b; } NAME &operator=(NAME &&o) { _b = std::move(o._b); this->_mv(o); return *this; } \
  basic_filebuf<C, T> *rdbuf() const { return const_cast<basic_filebuf<C, T> *>(&_b); } bool is_open() const { return _b.is_open(); } \
  void open(const char *n, ios_base::openmode m = MODE) { if (_b.open(n, m | MODE##_EXTRA)) this->clear(); else this->setstate(ios_base::failbit); } void open(const string &n, ios_base::openmode m = MODE) { open(n.c_str(), m); } \
  template <class P> requires requires(const P &p) { p.native(); } void open(const P &p, ios_base::openmode m = MODE) { open(p.native().c_str(), m); } \
  void close() { if (!_b.close()) this->setstate(ios_base::failbit); } };
#define MOCK_OUT_EXTRA (ios_base::out)
#define MOCK_IN_EXTRA (ios_base::in)
#define MOCK_IO_EXTRA (0u)
MOCK_FS(basic_ifstream, basic_istream, MOCK_IN)
MOCK_FS(basic_ofstream, basic_ostream, MOCK_OUT)
MOCK_FS(basic_fstream, basic_iostream, MOCK_IO)

extern ostream cout, cerr, clog;
extern istream cin;

// ---- iomanip
struct _Setprecision { int n; }; inline _Setprecision setprecision(int n) { return {n}; }
struct _Setw { int n; }; inline _Setw setw(int n) { return {n}; }
template <class C> struct _Setfill { C c; }; template <class C> _Setfill<C> setfill(C c) { return {c}; }
struct _Setbase { int n; }; inline _Setbase setbase(int n) { return {n}; }
struct _Setiosflags { unsigned f; }; inline _Setiosflags setiosflags(unsigned f) { return {f}; }
struct _Resetiosflags { unsigned f; }; inline _Resetiosflags resetiosflags(unsigned f) { return {f}; }
template <class C, class T> basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, _Setprecision p) { o.precision(p.n); return o; }
template <class C, class T> basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, _Setw p) { o.width(p.n); return o; }
template <class C, class T> basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, _Setfill<C> p) { o.fill(p.c); return o; }
template <class C, class T> basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, _Setbase p) { o.setf(p.n == 16 ? ios_base::hex : p.n == 8 ? ios_base::oct : ios_base::dec, ios_base::basefield); return o; }
template <class C, class T> basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, _Setiosflags p) { o.setf(p.f); return o; }
template <class C, class T> basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, _Resetiosflags p) { o.unsetf(p.f); return o; }
template <class C, class T> basic_istream<C, T> &operator>>(basic_istream<C, T> &o, _Setw p) { o.width(p.n); return o; }
template <class C, class T> basic_istream<C, T> &operator>>(basic_istream<C, T> &o, _Setprecision p) { o.precision(p.n); return o; }
inline string quoted(const string &s, char d = '"', char e = '\\') { string r(1, d); for (char c : s) { if (c == d || c == e) r += e; r += c; } return r + d; }
}
#include <bits/streambuf_iterator.h>
