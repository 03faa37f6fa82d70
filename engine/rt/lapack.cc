// Stub of the LAPACK symmetric/Hermitian eigensolvers: exact closed forms for orders 1 and 2 (column major).
#include <cmath>
#include <complex>
extern "C" {
void sym_stub(const char *); void sym_assume(int); int sym_decide(int);
// decompositions announced by the harness: matrices built from known eigenpairs are recognised (any order <= 4)
static struct { int n; double w[4], v[16]; } orc[4]; static int norc = 0;
void sym_eig_oracle(int n, const double *w, const double *V) { auto &o = orc[norc++]; o.n = n; for (int i = 0; i < n; i++) o.w[i] = w[i]; for (int i = 0; i < n * n; i++) o.v[i] = V[i]; }
static bool oracle(int n, const double *a, int L, bool lo, double *w, double *v) {
  for (int q = 0; q < norc; q++) { auto &o = orc[q]; if (o.n != n) continue; bool ok = true;
    for (int i = 0; i < n && ok; i++) for (int j = 0; j <= i && ok; j++) { double s = 0; for (int k = 0; k < n; k++) s += o.w[k] * o.v[k * n + i] * o.v[k * n + j]; double x = lo ? a[i + j * L] : a[j + i * L]; ok = sym_decide(x - s < 1e-9 && s - x < 1e-9); }
    if (!ok) continue;
    int p[4]; for (int i = 0; i < n; i++) p[i] = i; for (int i = 1; i < n; i++) for (int j = i; j > 0 && o.w[p[j]] < o.w[p[j - 1]]; j--) { int t = p[j]; p[j] = p[j - 1]; p[j - 1] = t; }
    for (int k = 0; k < n; k++) { w[k] = o.w[p[k]]; for (int i = 0; i < n; i++) v[k * n + i] = o.v[p[k] * n + i]; }
    return true; }
  return false;
}
static void eig2(double a, double b, double c, double *w, double *v) { // [[a,b],[b,c]]
  double t = (a + c) / 2, d = (a - c) / 2;
  if (b == 0) { bool sw = a > c; w[0] = sw ? c : a; w[1] = sw ? a : c; v[0] = sw ? 0 : 1; v[1] = sw ? 1 : 0; v[2] = sw ? 1 : 0; v[3] = sw ? 0 : 1; return; }
  double r = sqrt(d * d + b * b); w[0] = t - r; w[1] = t + r;
  // eigenvector of w1: (b, w1-a) = (b, r-d); of w0: (-(r-d), b)
  double x = b, y = r - d, n = sqrt(x * x + y * y); v[2] = x / n; v[3] = y / n; v[0] = -v[3]; v[1] = v[2];
}
void dsyev_(const char *jobz, const char *uplo, const int *n, double *a, const int *lda, double *w, double *work, const int *lwork, int *info, ...) {
  sym_stub("dsyev: closed form for order <= 2"); *info = 0; if (*lwork == -1) { work[0] = 3 * *n + 5; return; }
  if (*lwork < 3 * *n - 1 || *n < 0 || *lda < *n) { *info = -8; return; }
  if (*n == 1) { w[0] = a[0]; a[0] = 1; return; }
  int L = *lda; bool lo = *uplo == 'L' || *uplo == 'l'; double v[16]; if (*n <= 4 && oracle(*n, a, L, lo, w, v)) { for (int k = 0; k < *n; k++) for (int i = 0; i < *n; i++) a[i + k * L] = *jobz == 'V' || *jobz == 'v' ? v[k * *n + i] : 7; return; }
  sym_assume(*n == 2); eig2(a[0], lo ? a[1] : a[L], a[L + 1], w, v);
  if (*jobz == 'V' || *jobz == 'v') { a[0] = v[0]; a[1] = v[1]; a[L] = v[2]; a[L + 1] = v[3]; } else { a[0] = a[1] = a[L] = a[L + 1] = 7; }
}
void dsyevd_(const char *jobz, const char *uplo, const int *n, double *a, const int *lda, double *w, double *work, const int *lwork, int *iwork, const int *liwork, int *info, ...) {
  sym_stub("dsyevd: closed form for order <= 2"); *info = 0; if (*lwork == -1 || *liwork == -1) { work[0] = 1 + 6 * *n + 2 * *n * *n; iwork[0] = 3 + 5 * *n; return; }
  if (*n > 1 && (*lwork < 1 + 6 * *n + 2 * *n * *n || *liwork < 3 + 5 * *n)) { *info = -8; return; }
  dsyev_(jobz, uplo, n, a, lda, w, work, lwork, info);
}
void dsyevr_(const char *jobz, const char *range, const char *uplo, const int *n, double *a, const int *lda, const double *vl, const double *vu, const int *il, const int *iu, const double *abstol, int *m, double *w, double *z, const int *ldz, int *isuppz, double *work, const int *lwork, int *iwork, const int *liwork, int *info, ...) {
  sym_stub("dsyevr: closed form for order <= 2"); *info = 0; if (*lwork == -1 || *liwork == -1) { work[0] = 26 * *n; iwork[0] = 10 * *n; return; }
  if (*lwork < 26 * *n || *liwork < 10 * *n) { *info = -18; return; }
  double ww[4]; int L = *lda, Z = *ldz; int lw = 100; double wk[100];
  double q[16]; int two = *n, ld = *n; sym_assume(*n <= 4); for (int i = 0; i < ld; i++) for (int j = 0; j < ld; j++) q[i + ld * j] = a[i + L * j];
  dsyev_("V", uplo, &two, q, &ld, ww, wk, &lw, info);
  int k0 = 0, k1 = *n; if (*range == 'I') { k0 = *il - 1; k1 = *iu; } *m = 0;
  for (int k = k0; k < k1; k++) { if (*range == 'V' && !(ww[k] > *vl && ww[k] <= *vu)) continue; w[*m] = ww[k]; if (*jobz == 'V') for (int i = 0; i < *n; i++) z[i + *m * Z] = q[i + ld * k]; ++*m; }
  for (int i = 0; i < *n; i++) for (int j = 0; j < *n; j++) a[i + j * L] = 7; // destroyed
}
typedef std::complex<double> cd;
void zheev_(const char *jobz, const char *uplo, const int *n, cd *a, const int *lda, double *w, cd *work, const int *lwork, double *rwork, int *info, ...) {
  sym_stub("zheev: closed form for order <= 2"); *info = 0; if (*lwork == -1) { work[0] = 2 * *n + 1; return; }
  if (*lwork < 2 * *n - 1) { *info = -8; return; }
  if (*n == 1) { w[0] = a[0].real(); a[0] = 1; return; }
  sym_assume(*n == 2); int L = *lda; bool lo = *uplo == 'L' || *uplo == 'l'; double A = a[0].real(), C = a[L + 1].real(); double br, bi; if (lo) { br = a[1].real(); bi = -a[1].imag(); } else { br = a[L].real(); bi = a[L].imag(); } // H01 = br + i bi
  double v0r, v0i, v1; // eigenvector (v0, v1), v1 real
  if (br == 0 && bi == 0) { double v[4]; eig2(A, 0, C, w, v); a[0] = v[0]; a[1] = v[1]; a[L] = v[2]; a[L + 1] = v[3]; return; }
  double d = (A - C) / 2, t = (A + C) / 2, b2 = br * br + bi * bi, r = sqrt(d * d + b2); w[0] = t - r; w[1] = t + r;
  double y = r - d, nn = sqrt(b2 + y * y); v0r = br / nn; v0i = bi / nn; v1 = y / nn; // (H01, w1-A)/n
  a[L] = cd(v0r, v0i); a[L + 1] = cd(v1, 0); a[0] = cd(-v1, 0); a[1] = cd(v0r, -v0i); (void)rwork; (void)jobz;
}
void zheevr_(const char *jobz, const char *range, const char *uplo, const int *n, cd *a, const int *lda, const double *vl, const double *vu, const int *il, const int *iu, const double *abstol, int *m, double *w, cd *z, const int *ldz, int *isuppz, cd *work, const int *lwork, double *rwork, const int *lrwork, int *iwork, const int *liwork, int *info, ...) {
  sym_stub("zheevr: closed form for order <= 2"); *info = 0; if (*lwork == -1 || *liwork == -1 || *lrwork == -1) { work[0] = 2 * *n; rwork[0] = 24 * *n; iwork[0] = 10 * *n; return; }
  if (*lwork < 2 * *n || *liwork < 10 * *n || *lrwork < 24 * *n) { *info = -18; return; }
  double ww[2], rw[10]; int L = *lda, Z = *ldz; int lw = 100; cd wk[10]; cd q[4]; int two = *n, ld = 2; if (*n == 1) q[0] = a[0]; else { q[0] = a[0]; q[1] = a[1]; q[2] = a[L]; q[3] = a[L + 1]; }
  zheev_("V", uplo, &two, q, &ld, ww, wk, &lw, rw, info);
  int k0 = 0, k1 = *n; if (*range == 'I') { k0 = *il - 1; k1 = *iu; } *m = 0;
  for (int k = k0; k < k1; k++) { if (*range == 'V' && !(ww[k] > *vl && ww[k] <= *vu)) continue; w[*m] = ww[k]; if (*jobz == 'V') for (int i = 0; i < *n; i++) z[i + *m * Z] = q[i + 2 * k]; ++*m; }
  for (int i = 0; i < *n; i++) for (int j = 0; j < *n; j++) a[i + j * L] = 7;
}
}
// BLAS matrix products (column major): C = alpha op(A) op(B) + beta C
extern "C" int sym_const_zero(double);
static inline bool bz(double x) { return sym_const_zero(x); }
static inline bool bz(cd x) { return sym_const_zero(x.real()) && sym_const_zero(x.imag()); }
static inline double bc(double x) { return x; }
static inline cd bc(cd x) { return cd(x.real(), -x.imag()); }
static inline double bm(double a, double b) { return a * b; }
static inline cd bm(cd a, cd b) { return cd(a.real() * b.real() - a.imag() * b.imag(), a.real() * b.imag() + a.imag() * b.real()); }
template <class T> static void gemm(char ta, char tb, int m, int n, int k, T al, const T *a, int lda, const T *b, int ldb, T be, T *c, int ldc) {
  // structural zeros (constants) contribute nothing: only non-zero pairs are multiplied, in the order of the inner index
  T *s = (T *)calloc((size_t)m * n + 1, sizeof(T)); char *has = (char *)calloc((size_t)m * n + 1, 1); int *nb = (int *)malloc(sizeof(int) * (n + 1));
  for (int l = 0; l < k; l++) {
    int q = 0; for (int j = 0; j < n; j++) { const T &y = tb == 'N' ? b[l + (long)j * ldb] : b[j + (long)l * ldb]; if (!bz(y)) nb[q++] = j; }
    if (q) for (int i = 0; i < m; i++) { T x = ta == 'N' ? a[i + (long)l * lda] : a[l + (long)i * lda]; if (bz(x)) continue; if (ta == 'C') x = bc(x);
      for (int p = 0; p < q; p++) { const int j = nb[p]; T y = tb == 'N' ? b[l + (long)j * ldb] : b[j + (long)l * ldb]; if (tb == 'C') y = bc(y); const long e = i + (long)j * m; if (has[e]) s[e] += bm(x, y); else { s[e] = bm(x, y); has[e] = 1; } } }
  }
  const bool one = bz(be - T(1));
  for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) { const long e = i + (long)j * m; if (one && !has[e]) continue; T &q = c[i + (long)j * ldc]; T p = has[e] ? bm(al, s[e]) : T{}; if (bz(be)) q = p; else q = bm(be, q) + p; }
  free(s); free(has); free(nb);
}
static char up(char x) { return x >= 'a' ? x - 32 : x; }
extern "C" {
void dgemm_(const char *ta, const char *tb, const int *m, const int *n, const int *k, const double *al, const double *a, const int *lda, const double *b, const int *ldb, const double *be, double *c, const int *ldc, ...) { gemm<double>(up(*ta) == 'C' ? 'T' : up(*ta), up(*tb) == 'C' ? 'T' : up(*tb), *m, *n, *k, *al, a, *lda, b, *ldb, *be, c, *ldc); }
void zgemm_(const char *ta, const char *tb, const int *m, const int *n, const int *k, const cd *al, const cd *a, const int *lda, const cd *b, const int *ldb, const cd *be, cd *c, const int *ldc, ...) { gemm<cd>(up(*ta), up(*tb), *m, *n, *k, *al, a, *lda, b, *ldb, *be, c, *ldc); }
}
