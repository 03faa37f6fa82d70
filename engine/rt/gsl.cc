// Stub of the GSL routines the tools use: piecewise linear interpolation and a fixed positive quadrature rule.
#include <cstdlib>
#include <cstring>
#include <cmath>
extern "C" {
void sym_stub(const char *); long sym_param(const char *, long);
struct gsl_function { double (*function)(double, void *); void *params; };
struct W { int n; };
void *gsl_integration_workspace_alloc(size_t n) { W *w = (W *)malloc(sizeof(W)); w->n = (int)n; return w; }
void gsl_integration_workspace_free(void *w) { free(w); }
static int quad(const gsl_function *f, double a, double b, double *r, double *e) {
  sym_stub("gsl_integration_qag: replaced by a composite 5-point Gauss-Legendre rule");
  static const double X[5] = {-0.906179845938663992797626878299, -0.538469310105683091036314420700, 0, 0.538469310105683091036314420700, 0.906179845938663992797626878299}, W[5] = {0.236926885056189087514264040720, 0.478628670499366468041291514836, 0.568888888888888888888888888889, 0.478628670499366468041291514836, 0.236926885056189087514264040720};
  int n = (int)sym_param("panels", 2); double h = (b - a) / n, s = 0; for (int i = 0; i < n; i++) for (int k = 0; k < 5; k++) s += W[k] * f->function(a + (i + 0.5 + X[k] / 2) * h, f->params);
  *r = s * h / 2; *e = 0; return 0;
}
int gsl_integration_qag(const gsl_function *f, double a, double b, double, double, size_t, int, void *, double *r, double *e) { return quad(f, a, b, r, e); }
int gsl_integration_qags(const gsl_function *f, double a, double b, double, double, size_t, void *, double *r, double *e) { return quad(f, a, b, r, e); }
void *gsl_set_error_handler_off() { return nullptr; }
const char *gsl_strerror(int) { return "gsl error"; }
int gsl_fcmp(double a, double b, double eps) { // |a-b| <= 2^k eps with 2^k the exponent of the larger: bounded by its value
  double m = fabs(a) > fabs(b) ? fabs(a) : fabs(b); double d = a - b; if (d > m * eps) return 1; if (d < -m * eps) return -1; return 0; }
double gsl_atanh(double x) { return atanh(x); }
int gsl_interp_akima_v, gsl_interp_cspline_v, gsl_interp_linear_v;
const void *gsl_interp_akima = &gsl_interp_akima_v, *gsl_interp_cspline = &gsl_interp_cspline_v, *gsl_interp_linear = &gsl_interp_linear_v;
void *gsl_interp_accel_alloc() { return malloc(8); }
void gsl_interp_accel_free(void *p) { free(p); }
struct Sp { const void *t; size_t n; double *x, *y; };
void *gsl_spline_alloc(const void *t, size_t n) { if (n < (t == gsl_interp_akima ? 5u : t == gsl_interp_cspline ? 3u : 2u)) return nullptr; Sp *s = (Sp *)malloc(sizeof(Sp)); s->t = t; s->n = n; s->x = (double *)malloc(n * 8); s->y = (double *)malloc(n * 8); return s; }
void gsl_spline_free(Sp *s) { if (!s) return; free(s->x); free(s->y); free(s); }
int gsl_spline_init(Sp *s, const double *x, const double *y, size_t n) { sym_stub("gsl_spline: replaced by piecewise linear interpolation"); for (size_t i = 1; i < n; i++) if (!(x[i] > x[i - 1])) return 4; memcpy(s->x, x, n * 8); memcpy(s->y, y, n * 8); return 0; }
static size_t seg(Sp *s, double x) { size_t i = 0; while (i + 2 < s->n && x >= s->x[i + 1]) i++; return i; }
static bool oob(Sp *s, double x) { return x < s->x[0] || x > s->x[s->n - 1]; }
double gsl_spline_eval(Sp *s, double x, void *) { if (oob(s, x)) return NAN; size_t i = seg(s, x); double d = s->x[i + 1] - s->x[i]; return s->y[i] + (s->y[i + 1] - s->y[i]) * (x - s->x[i]) / d; }
double gsl_spline_eval_deriv(Sp *s, double x, void *) { if (oob(s, x)) return NAN; size_t i = seg(s, x); double d = (s->y[i + 1] - s->y[i]) / (s->x[i + 1] - s->x[i]); if (i && x == s->x[i]) d = (d + (s->y[i] - s->y[i - 1]) / (s->x[i] - s->x[i - 1])) / 2; return d; }
double gsl_spline_eval_integ(Sp *s, double a, double b, void *) {
  if (oob(s, a) || oob(s, b) || a > b) return NAN; double r = 0; size_t ia = seg(s, a), ib = seg(s, b);
  for (size_t i = ia; i <= ib; i++) { double l = i == ia ? a : s->x[i], h = i == ib ? b : s->x[i + 1]; r += (gsl_spline_eval(s, l, nullptr) + gsl_spline_eval(s, h, nullptr)) / 2 * (h - l); }
  return r;
}
}
