// Native side of the harness interface: inputs come from a file with the solver's assignment.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <map>
#include <string>
#include <fstream>
#include <sstream>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <signal.h>
#include <stdexcept>
static std::map<std::string, std::string> in, par; static int failed = 0; static FILE *res;
static void out(const char *k, const char *l) { fprintf(res, "%s %s\n", k, l); fflush(res); }
extern "C" {
double sym_double(const char *n, double lo, double hi) { auto i = in.find(n); double v = i == in.end() ? (lo > 0 ? lo : hi < 0 ? hi : 0) : strtod(i->second.c_str(), 0); if (v < lo) v = lo; if (v > hi) v = hi; return v; }
long sym_int(const char *n, long lo, long hi) { auto i = in.find(n); long v = i == in.end() ? lo : strtol(i->second.c_str(), 0, 10); if (v < lo) v = lo; if (v > hi) v = hi; return v; }
long sym_choice(const char *n, long lo, long hi) { return sym_int(n, lo, hi); }
void sym_assume(int c) { if (!c) { out("ASSUME", "assumption not met by the rounded input"); _exit(3); } }
void sym_check(int c, const char *l) { out(c ? "OK" : "FAIL", l); if (!c) failed = 1; }
void sym_check_close(double a, double b, double tol, const char *l) { bool ok = (std::isnan(a) && std::isnan(b)) || a == b || std::fabs(a - b) <= tol * std::fmax(1, std::fabs(b)); char t[400]; snprintf(t, 400, "%s (%.17g vs %.17g)", l, a, b); if (!ok) failed = 1; out(ok ? "OK" : "FAIL", ok ? l : t); }
static int wait4it(pid_t p, int fd) { char m = 0; ssize_t k = read(fd, &m, 1); ::close(fd); int st; waitpid(p, &st, 0); if (WIFSIGNALED(st)) { int g = WTERMSIG(st); if (g == SIGABRT) return 3000; if (g == SIGFPE) return 3008; char t[40]; snprintf(t, 40, "signal %d", g); out("CRASH", t); return 4000 + g; } int rc = WEXITSTATUS(st); if (rc == 77) { out("SAN", "sanitizer report"); return 4077; } if (k == 1 && m == 'R') return rc; if (k == 1 && m == 'X') return 2000; return 1000 + rc; }
int sym_run_main(int (*f)(int, char **), int n, char **a) {
  int pp[2]; if (pipe(pp)) _exit(9); fflush(0); pid_t p = fork();
  if (!p) { ::close(pp[0]); fcntl(pp[1], F_SETFD, 0); FILE *o = freopen("<stdout>", "w", stdout); o = freopen("<stderr>", "w", stderr); (void)o; if (access("<stdin>", R_OK) == 0) { FILE *q = freopen("<stdin>", "r", stdin); (void)q; } char c; int rc; try { rc = f(n, a); c = 'R'; } catch (...) { c = 'X'; rc = 0; } if (write(pp[1], &c, 1) != 1) _exit(9); ::close(pp[1]); exit(rc); }
  ::close(pp[1]); int rc = wait4it(p, pp[0]); std::ifstream e("<stderr>"); std::stringstream s; s << e.rdbuf(); if (s.str().find("runtime error:") != std::string::npos) out("SAN", s.str().substr(0, 300).c_str()); return rc;
}
int sym_guard(void (*f)(void *), void *x) {
  int pp[2]; if (pipe(pp)) _exit(9); fflush(0); pid_t p = fork();
  if (!p) { ::close(pp[0]); char c = 'R'; try { f(x); } catch (...) { c = 'X'; } if (write(pp[1], &c, 1) != 1) _exit(9); fflush(0); _exit(0); }
  ::close(pp[1]); int rc = wait4it(p, pp[0]); if (rc == 0) f(x); return rc;
}
long sym_param(const char *n, long d) { auto i = par.find(n); return i == par.end() ? d : atol(i->second.c_str()); }
void sym_note(const char *t) { if (getenv("SYM_NOTE")) fprintf(stderr, "NOTE %s\n", t); }
void sym_dump(const char *t, double v) { if (getenv("SYM_NOTE")) fprintf(stderr, "DUMP %s = %.17g\n", t, v); }
int sym_is_symbolic() { return 0; }
int sym_decide(int c) { return c; }
double sym_fresh(const char *) { return 0; }
void sym_stub(const char *) {}
int sym_const_zero(double x) { return x == 0; }
void sym_eig_oracle(int, const double *, const double *) {}
int __rt_word_prec(const char *) { return -1; }
int __vfs_mkdir(const char *p) { return ::mkdir(p, 0777) == 0; }
int __vfs_exists(const char *p) { struct stat st; if (stat(p, &st)) return 0; return S_ISDIR(st.st_mode) ? 2 : 1; }
void __vfs_fault(const char *k, const char *p) { if (!strcmp(k, "unwritable")) { ::remove(p); ::mkdir(p, 0777); } else if (!strcmp(k, "full")) { ::remove(p); if (symlink("/dev/full", p)) {} } }
int __rt_fmt_double(char *d, double v, int prec, int mode, int fl) { char f[32]; snprintf(f, 32, "%%%s%s.*%c", fl & 1 ? "+" : "", fl & 2 ? "#" : "", mode == 0 ? (fl & 4 ? 'G' : 'g') : mode == 1 ? 'f' : mode == 2 ? (fl & 4 ? 'E' : 'e') : 'a'); return sprintf(d, f, prec, v); }
void harness();
}
// usage: prog inputs-file results-file [K=V...]   (run inside a scratch directory)
int main(int argc, char **argv) {
  std::ifstream f(argv[1]); std::string k, v; while (f >> k >> v) in[k] = v;
  res = fopen(argv[2], "w"); for (int i = 3; i < argc; i++) { std::string a = argv[i]; auto p = a.find('='); par[a.substr(0, p)] = a.substr(p + 1); }
  try { harness(); } catch (const std::exception &e) { out("THROW", e.what()); return 1; } catch (...) { out("THROW", "unknown"); return 1; }
  out("END", failed ? "failed" : "passed"); return failed;
}
