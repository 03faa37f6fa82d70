// Harness interface: the same harness source is encoded for the solver (symx) and compiled natively for replay.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <functional>
extern "C" {
double sym_double(const char *name, double lo, double hi); // any real in [lo,hi]
long sym_int(const char *name, long lo, long hi);          // any integer in [lo,hi], kept symbolic
long sym_choice(const char *name, long lo, long hi);       // any integer in [lo,hi], one path per value
void sym_assume(int);
void sym_check(int, const char *label);
void sym_check_close(double a, double b, double tol, const char *label);
int sym_run_main(int (*)(int, char **), int, char **);
int sym_tool_main(int, char **); // main() of the program under check
int sym_guard(void (*)(void *), void *);
long sym_param(const char *name, long def);
void sym_note(const char *);
void sym_dump(const char *, double);
int sym_is_symbolic();
int sym_decide(int);
double sym_fresh(const char *);
void sym_stub(const char *);
void sym_eig_oracle(int n, const double *w, const double *V); // tells the eigensolver stub about V diag(w) V^T (V: n vectors of length n)
int __rt_word_prec(const char *);
int __vfs_mkdir(const char *);
int __vfs_exists(const char *);
void __vfs_fault(const char *kind, const char *path);
}
#ifndef SYM_NATIVE
extern "C" { int __vfs_remove(const char *); }
#endif
namespace sym {
using std::string;
using std::vector;
inline double D(const string &n, double lo, double hi) { return sym_double(n.c_str(), lo, hi); }
inline long I(const string &n, long lo, long hi) { return sym_int(n.c_str(), lo, hi); }
inline long C(const string &n, long lo, long hi) { return sym_choice(n.c_str(), lo, hi); }
inline string idx(const string &n, long i) { return n + std::to_string(i); }
inline string idx(const string &n, long i, long j) { return n + std::to_string(i) + "_" + std::to_string(j); }
inline string num(double x) { std::ostringstream s; s << std::setprecision(17) << x; return s.str(); }
inline void mkdir(const string &p) { __vfs_mkdir(p.c_str()); }
inline void putbin(const string &fn, const vector<double> &v) { std::ofstream f(fn, std::ios::binary); f.write((const char *)v.data(), v.size() * sizeof(double)); }
inline vector<double> getbin(const string &fn) { vector<double> r; std::ifstream f(fn, std::ios::binary); double x; while (f.read((char *)&x, sizeof x)) r.push_back(x); return r; }
inline void puttext(const string &fn, const string &t) { std::ofstream f(fn); f << t; }
inline bool exists(const string &fn) { return __vfs_exists(fn.c_str()) != 0; }
inline string slurp(const string &fn) { std::ifstream f(fn); string r; char c; while (f.get(c)) r += c; return r; }
// numeric table: comment lines (#) and words that are not numbers are skipped
inline vector<vector<double>> rows(const string &text) {
  vector<vector<double>> t; std::istringstream f(text); string l;
  while (std::getline(f, l)) { if (l.find('#') != string::npos && l.find_first_not_of(" \t") == l.find('#')) continue; vector<double> r; std::istringstream w(l); string x; while (w >> x) { char *e; double v = strtod(x.c_str(), &e); if (!*e) r.push_back(v); } if (!r.empty()) t.push_back(r); }
  return t;
}
inline vector<vector<double>> table(const string &fn) { return rows(slurp(fn)); }
// every number in the text carries at least n significant digits (fixed notation: n decimals)
inline bool precise(const string &text, int n) { std::istringstream w(text); string x; while (w >> x) { int p = __rt_word_prec(x.c_str()); if (p >= 1000) p -= 1000; if (p >= 0 && p < n) return false; } return true; }
inline string textTable(const vector<vector<double>> &t) { string s; for (auto &r : t) { for (size_t i = 0; i < r.size(); i++) s += (i ? " " : "") + num(r[i]); s += "\n"; } return s; }
inline int run(int (*m)(int, char **), const vector<string> &args) {
  vector<char *> av; for (auto &a : args) av.push_back(const_cast<char *>(a.c_str())); av.push_back(nullptr);
  return sym_run_main(m, (int)args.size(), av.data());
}
inline bool ok(int rc) { return rc == 0 || rc == 1000; }          // returned or exited with success
inline bool refused(int rc) { return !ok(rc) && rc < 4000; }       // failed in an orderly or abrupt way (not a crash)
inline int guard(const std::function<void()> &f) { return sym_guard([](void *p) { (*(const std::function<void()> *)p)(); }, (void *)&f); }
inline void check(bool c, const char *l) { sym_check(c, l); }
inline void close(double a, double b, const char *l, double tol = 1e-7) { sym_check_close(a, b, tol, l); }
inline void assume(bool c) { sym_assume(c); }
inline bool decide(bool c) { return sym_decide(c); }
}
