// Model of the parts of libstdc++/libc that the encoded code calls out of line.
#include <iostream>
#include <fstream>
#include <sstream>
#include <stdexcept>
#include <system_error>
#include <complex>
#include <string>
#include <functional>
#include <memory>
#include <optional>
#include <variant>
#include <any>
#include <typeinfo>
#include <new>
#include <map>
#include <unordered_map>
#include <list>
#include <charconv>
#include <cstdarg>
#include <cmath>
#include <filesystem>
#include <sys/stat.h>
extern "C" {
int __vfs_open(const char *, int); long __vfs_size(int); long __vfs_read(int, unsigned long, void *, unsigned long); long __vfs_write(int, unsigned long, const void *, unsigned long); int __vfs_getc(int, unsigned long);
}
// ---- exceptions
namespace std {
static const char *dup(const char *s, size_t n) { char *p = (char *)malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
__cow_string::__cow_string() : _M_p(dup("", 0)) {}
__cow_string::__cow_string(const string &s) : _M_p(dup(s.c_str(), s.size())) {}
__cow_string::__cow_string(const char *s, size_t n) : _M_p(dup(s, n)) {}
__cow_string::__cow_string(const __cow_string &o) noexcept : _M_p(dup(o._M_p, strlen(o._M_p))) {}
__cow_string::__cow_string(__cow_string &&o) noexcept : _M_p(o._M_p) { o._M_p = dup("", 0); }
__cow_string &__cow_string::operator=(const __cow_string &o) noexcept { if (this != &o) { free((void *)_M_p); _M_p = dup(o._M_p, strlen(o._M_p)); } return *this; }
__cow_string &__cow_string::operator=(__cow_string &&o) noexcept { std::swap(_M_p, o._M_p); return *this; }
__cow_string::~__cow_string() { free((void *)_M_p); }
exception::~exception() noexcept {}
const char *exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char *bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char *bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char *bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char *bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char *bad_function_call::what() const noexcept { return "bad_function_call"; }
bad_weak_ptr::~bad_weak_ptr() noexcept {}
const char *bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }
logic_error::logic_error(const string &s) : _M_msg(s) {}
logic_error::logic_error(const char *s) : _M_msg(s, strlen(s)) {}
logic_error::logic_error(logic_error &&o) noexcept : _M_msg(std::move(o._M_msg)) {}
logic_error &logic_error::operator=(logic_error &&o) noexcept { _M_msg = std::move(o._M_msg); return *this; }
logic_error::logic_error(const logic_error &o) noexcept : _M_msg(o._M_msg) {}
logic_error &logic_error::operator=(const logic_error &o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {}
const char *logic_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const string &s) : _M_msg(s) {}
runtime_error::runtime_error(const char *s) : _M_msg(s, strlen(s)) {}
runtime_error::runtime_error(runtime_error &&o) noexcept : _M_msg(std::move(o._M_msg)) {}
runtime_error &runtime_error::operator=(runtime_error &&o) noexcept { _M_msg = std::move(o._M_msg); return *this; }
runtime_error::runtime_error(const runtime_error &o) noexcept : _M_msg(o._M_msg) {}
runtime_error &runtime_error::operator=(const runtime_error &o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
const char *runtime_error::what() const noexcept { return _M_msg._M_p; }
#define EXC(T, B) T::T(const string &s) : B(s) {} T::T(const char *s) : B(s) {} T::~T() noexcept {}
EXC(domain_error, logic_error) EXC(invalid_argument, logic_error) EXC(length_error, logic_error) EXC(out_of_range, logic_error) EXC(range_error, runtime_error) EXC(overflow_error, runtime_error) EXC(underflow_error, runtime_error)
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_logic_error(const char *s) { throw logic_error(s); }
void __throw_domain_error(const char *s) { throw domain_error(s); }
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
void __throw_length_error(const char *s) { throw length_error(s); }
void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char *s) { throw runtime_error(s); }
void __throw_range_error(const char *s) { throw range_error(s); }
void __throw_overflow_error(const char *s) { throw overflow_error(s); }
void __throw_system_error(int e) { throw system_error(error_code(e, generic_category())); }
// ---- system_error
struct GCat : error_category { const char *name() const noexcept override { return "generic"; } string message(int e) const override { return "error " + to_string(e); } };
inline namespace _V2 {
error_category::~error_category() noexcept {}
error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); }
bool error_category::equivalent(int i, const error_condition &c) const noexcept { return default_error_condition(i) == c; }
bool error_category::equivalent(const error_code &c, int i) const noexcept { return *this == c.category() && c.value() == i; }
__cow_string error_category::_M_message(int) const { return {}; }
static GCat gc_;
const error_category &generic_category() noexcept { return gc_; }
const error_category &system_category() noexcept { return gc_; }
}
system_error::~system_error() noexcept {}
error_condition error_code::default_error_condition() const noexcept { return category().default_error_condition(value()); }
// ---- trees
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) noexcept {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
  else { auto *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; }
  return x;
}
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) noexcept { return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) noexcept {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
  else if (x->_M_left) { auto *y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; }
  else { auto *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; }
  return x;
}
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) noexcept { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) noexcept {
  x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) noexcept {
  _Rb_tree_node_base *&root = h._M_parent, *&leftmost = h._M_left, *&rightmost = h._M_right;
  _Rb_tree_node_base *y = z, *x = nullptr;
  if (!y->_M_left) x = y->_M_right; else if (!y->_M_right) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) {
    z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
    if (y != z->_M_right) { if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; }
    if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent;
  } else {
    if (x) x->_M_parent = y->_M_parent;
    if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
    if (leftmost == z) { if (!z->_M_right) leftmost = z->_M_parent; else { auto *m = x; while (m->_M_left) m = m->_M_left; leftmost = m; } }
    if (rightmost == z) { if (!z->_M_left) rightmost = z->_M_parent; else { auto *m = x; while (m->_M_right) m = m->_M_right; rightmost = m; } }
  }
  return z;
}
// ---- hashing, lists
size_t _Hash_bytes(const void *, size_t, size_t) { return 0; } // any hash function is correct; a constant one also serves symbolic keys
namespace __detail {
static const unsigned long pr[] = {2, 5, 11, 29, 97, 257, 541, 1109, 2357, 5087, 10273, 20753, 42043};
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { for (auto p : pr) if (p >= n) { const_cast<_Prime_rehash_policy *>(this)->_M_next_resize = p; return p; } return 85229; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t b, size_t e, size_t i) const { if (e + i > b) return {true, _M_next_bkt(e + i + 1 > b * 2 ? e + i + 1 : b * 2)}; return {false, 0}; }
void _List_node_base::_M_hook(_List_node_base *const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { auto *n = _M_next, *p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept {
  if (x._M_next != &x) { if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; } else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } }
  else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
void _List_node_base::_M_transfer(_List_node_base *const f, _List_node_base *const l) noexcept { if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; auto *t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
void _List_node_base::_M_reverse() noexcept { auto *t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
}
// ---- explicit instantiations the headers declare extern
template class basic_string<char>;
template ostream &operator<<(ostream &, const string &);
template ostream &operator<<(ostream &, const complex<double> &);
template istream &operator>>(istream &, complex<double> &);
// ---- standard streams
static filebuf *fbOut() { return new filebuf(__vfs_open("<stdout>", 2), ios_base::out | ios_base::app); }
static filebuf *fbErr() { return new filebuf(__vfs_open("<stderr>", 2), ios_base::out | ios_base::app); }
static filebuf *fbIn() { return new filebuf(__vfs_open("<stdin>", 0), ios_base::in); }
__attribute__((init_priority(101))) ostream cout(fbOut()), cerr(fbErr()), clog(fbErr());
__attribute__((init_priority(101))) istream cin(fbIn());
// ---- charconv
from_chars_result from_chars(const char *f, const char *l, double &v, chars_format) noexcept {
  const char *p = f; if (p != l && *p == '-') p++;
  char b[128]; int n = 0; const char *q = f; while (q != l && n < 127 && ((*q >= '0' && *q <= '9') || *q == '.' || *q == '-' || *q == '+' || *q == 'e' || *q == 'E' || (*q >= 'a' && *q <= 'z') || (*q >= 'A' && *q <= 'Z'))) b[n++] = *q++;
  b[n] = 0; if (!n || b[0] == '+') return {f, errc::invalid_argument}; char *e; double d = strtod(b, &e); if (e == b) return {f, errc::invalid_argument}; v = d; return {f + (e - b), errc()};
}
}
// ---- libc
int __rt_errno;
extern "C" {
int *__errno_location() { return &__rt_errno; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isalpha(int c) { return isupper(c) || islower(c); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isprint(int c) { return c >= 32 && c < 127; }
int ispunct(int c) { return isprint(c) && c != 32 && !isalnum(c); }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
int toupper(int c) { return islower(c) ? c - 32 : c; }
struct MF { int h; unsigned long pos; int mode; int eof, err; int unget; };
static MF f0{-1, 0, 0, 0, 0, -1}, f1{-2, 0, 2, 0, 0, -1}, f2{-3, 0, 2, 0, 0, -1};
#undef stdin
#undef stdout
#undef stderr
FILE *stdin = (FILE *)&f0, *stdout = (FILE *)&f1, *stderr = (FILE *)&f2;
static MF *F(FILE *f) { MF *m = (MF *)f; if (m->h == -1) m->h = __vfs_open("<stdin>", 0); if (m->h == -2) m->h = __vfs_open("<stdout>", 2); if (m->h == -3) m->h = __vfs_open("<stderr>", 2); return m; }
FILE *fopen(const char *n, const char *md) { int mode = md[0] == 'r' ? 0 : md[0] == 'w' ? 1 : 2; for (const char *p = md; *p; p++) if (*p == '+' && mode == 0) mode = 3; int h = __vfs_open(n, mode); if (h < 0) { __rt_errno = 2; return nullptr; } MF *m = (MF *)malloc(sizeof(MF)); *m = MF{h, 0, mode, 0, 0, -1}; return (FILE *)m; }
int fclose(FILE *f) { MF *m = F(f); int e = m->err; if (m != &f0 && m != &f1 && m != &f2) free(m); return 0 * e; }
size_t fread(void *p, size_t sz, size_t n, FILE *f) { MF *m = F(f); long k = m->h < 0 ? 0 : __vfs_read(m->h, m->pos, p, sz * n); if (k < (long)(sz * n)) m->eof = 1; m->pos += k; return sz ? k / sz : 0; }
size_t fwrite(const void *p, size_t sz, size_t n, FILE *f) { MF *m = F(f); if (m->mode == 2) m->pos = __vfs_size(m->h); long k = __vfs_write(m->h, m->pos, p, sz * n); if (k < (long)(sz * n)) m->err = 1; m->pos += k; return sz ? k / sz : 0; }
int fgetc(FILE *f) { MF *m = F(f); int c = m->h < 0 ? -1 : __vfs_getc(m->h, m->pos); if (c < 0) m->eof = 1; else m->pos++; return c; }
int getc(FILE *f) { return fgetc(f); }
int ungetc(int c, FILE *f) { MF *m = F(f); if (m->pos) m->pos--; m->eof = 0; return c; }
char *fgets(char *s, int n, FILE *f) { int k = 0; while (k + 1 < n) { int c = fgetc(f); if (c < 0) break; s[k++] = c; if (c == '\n') break; } if (!k) return nullptr; s[k] = 0; return s; }
int fputs(const char *s, FILE *f) { fwrite(s, 1, strlen(s), f); return 1; }
int fputc(int c, FILE *f) { char b = c; fwrite(&b, 1, 1, f); return c; }
int feof(FILE *f) { return F(f)->eof; }
int ferror(FILE *f) { return F(f)->err; }
void clearerr(FILE *f) { F(f)->eof = F(f)->err = 0; }
int fileno(FILE *f) { return F(f)->h; }
int fseek(FILE *f, long o, int w) { MF *m = F(f); m->pos = w == 0 ? o : w == 1 ? m->pos + o : __vfs_size(m->h) + o; m->eof = 0; return 0; }
long ftell(FILE *f) { return F(f)->pos; }
void rewind(FILE *f) { fseek(f, 0, 0); }
int vsnprintf(char *, size_t, const char *, va_list);
// getopt: short options only
char *optarg; int optind = 1, opterr = 1, optopt; static int optpos;
int getopt(int argc, char *const *argv, const char *os) {
  if (optind == 0) { optind = 1; optpos = 0; }
  if (!optpos) { if (optind >= argc || argv[optind][0] != '-' || !argv[optind][1]) return -1; if (!strcmp(argv[optind], "--")) { optind++; return -1; } optpos = 1; }
  char c = argv[optind][optpos++]; const char *p = c == ':' ? nullptr : strchr(os, c);
  if (!p) { optopt = c; if (!argv[optind][optpos]) { optind++; optpos = 0; } return '?'; }
  if (p[1] == ':') { if (argv[optind][optpos]) { optarg = argv[optind] + optpos; optind++; optpos = 0; } else if (p[2] == ':') { optarg = nullptr; optind++; optpos = 0; } else { optind++; optpos = 0; if (optind >= argc) { optopt = c; return os[0] == ':' ? ':' : '?'; } optarg = argv[optind++]; } return c; }
  if (!argv[optind][optpos]) { optind++; optpos = 0; }
  return c;
}
int system(const char *) { return 0; }
char *__cxa_demangle(const char *, char *, size_t *, int *st) { if (st) *st = -1; return nullptr; }
int dladdr(const void *, void *) { return 0; }
int _Unwind_Backtrace(void *, void *) { return 0; }
unsigned long _Unwind_GetIP(void *) { return 0; }
}
extern "C" {
int __vfs_exists(const char *); int __vfs_remove(const char *); int __vfs_rename(const char *, const char *); int __vfs_mkdir(const char *);
int remove(const char *p) { return __vfs_remove(p) ? 0 : (__rt_errno = 2, -1); }
int unlink(const char *p) { return remove(p); }
int stat(const char *p, struct stat *b) { int k = __vfs_exists(p); if (!k) { __rt_errno = 2; return -1; } memset(b, 0, sizeof *b); b->st_mode = k == 2 ? S_IFDIR | 0755 : S_IFREG | 0644; return 0; }
int rename(const char *a, const char *b) { return __vfs_rename(a, b) ? 0 : (__rt_errno = 2, -1); }
int mkdir(const char *p, unsigned) { return __vfs_mkdir(p) ? 0 : (__rt_errno = 17, -1); }
int access(const char *p, int) { return __vfs_exists(p) ? 0 : (__rt_errno = 2, -1); }
// creates a directory under a name that did not exist before; the suffix is one of the names the contract allows
char *mkdtemp(char *t) { size_t n = strlen(t); if (n < 6 || strcmp(t + n - 6, "XXXXXX")) { __rt_errno = 22; return nullptr; } for (int k = 0; k < 1000; k++) { int z = k; for (int i = 0; i < 6; i++) { t[n - 1 - i] = '0' + z % 10; z /= 10; } if (!__vfs_exists(t)) { if (__vfs_mkdir(t)) return t; __rt_errno = 13; return nullptr; } } return nullptr; }
}
