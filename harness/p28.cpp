// P28: numeric helpers against exact arithmetic (128-bit integers, long double, dyadic sums).
#define RG_EXTRA "matrix.h"
#include "rg.hpp"
#include <gsl/gsl_errno.h>
using namespace std;
typedef unsigned __int128 u128;
long n_cases(int tier) { return tier ? 60000 : 9000; }
static long double lbin(int n, int k) { return lgammal(n + 1.0L) - lgammal(k + 1.0L) - lgammal(n - k + 1.0L); }
// exact binomials (Pascal) up to 128 bits, then long double
static u128 pascal[121][121]; static long double pascald[621][621]; static bool ready = false;
static void init() { if (ready) return; ready = true; for (int n = 0; n <= 120; n++) { pascal[n][0] = pascal[n][n] = 1; for (int k = 1; k < n; k++) pascal[n][k] = pascal[n - 1][k - 1] + pascal[n - 1][k]; } for (int n = 0; n <= 620; n++) { pascald[n][0] = pascald[n][n] = 1; for (int k = 1; k < n; k++) pascald[n][k] = pascald[n - 1][k - 1] + pascald[n - 1][k]; } }
static int arg(Rng &r) { switch (r.in(0, 4)) { case 0: return r.in(0, 5); case 1: return r.in(0, 60); case 2: return r.in(0, 620); case 3: return r.in(0, 120); default: return r.in(400, 620); } }
static void combin(long, Rng &r) {
  init(); string d = "combin"; vf::stage("combin");
  for (int t = 0; t < 40; t++) { int n = arg(r), k = r.p(.1) ? r.in(0, 700) : r.p(.2) ? (r.p(.5) ? 0 : n) : r.in(0, n); d += vf::fmt(" %d,%d", n, k); long double c = Choose(n, k), e = k > n ? 0 : pascald[n][k]; vf::count("oracle.checks");
    if (e < 1e14L) { if (c != e) vf::viol("choose", "Choose(%d,%d) = %.3Lf instead of %.3Lf", n, k, c, e); } else if (e < 1e300L && fabsl(c - e) > 1e-11L * e) vf::viol("choose", "Choose(%d,%d) = %.20Lg instead of %.20Lg", n, k, c, e);
    if (k <= n) { double l = LogChoose(n, k); CHECK(fabs(l - (double)logl(e)) <= 1e-9 * (1 + fabs(l)), "logchoose", "LogChoose(%d,%d) = %.15g instead of %.15Lg", n, k, l, logl(e)); } }
  long int f = 1; for (int n = 0; n <= 20; n++) { if (n) f *= n; long g = fact(n); CHECK(g == f, "fact", "fact(%d) = %ld instead of %ld", n, g, f); }
  vf::input(d, true);
}
static void tables(long, Rng &r) {
  init(); vf::stage("tables"); int S = r.in(1, 4) == 1 ? r.in(1, 4) : r.in(1, 200), mx = 2 * S + 20; string d = vf::fmt("tables size %d:", S);
  double **T = InitializeFastLogChoose(S); double *L = InitializeFastLog(S), *F = InitializeFastLogFact(S), *H = InitializeHarmonicList(S); double x = r.in(1, 3) == 1 ? r.in(1, 40) / 8.0 : r.u() * 5 + 1e-3; double *Gm = InitializeFastLogGamma(S, x);
  for (int t = 0; t < 120; t++) { int n = r.p(.3) ? S - 2 + r.in(0, 4) : r.in(0, mx); if (n < 0) n = 0; int k = r.p(.2) ? n : r.in(0, n); if (t < 10) d += vf::fmt(" %d,%d", n, k);
    double a = FastLogChoose(n, k, T, S), e = (double)lbin(n, k); CHECK(fabs(a - e) <= 1e-9 * (1 + fabs(e)), "fastlogchoose", "FastLogChoose(%d,%d) with a table of %d = %.15g instead of %.15g", n, k, S, a, e); double a2 = FastLogChoose(n, k, T, S); CHECK(a2 == a, "fastlogchoose:cache", "second FastLogChoose(%d,%d) = %.17g, first %.17g", n, k, a2, a); CHECK(fabs(LogChoose(n, k) - a) <= 1e-12 * (1 + fabs(a)), "fastlogchoose:direct", "cached and direct log of binomial(%d,%d) differ", n, k);
    double b = FastLog(n, L, S), be = n ? (double)logl(n) : -INFINITY; CHECK(n ? fabs(b - be) <= 1e-14 * (1 + fabs(be)) : b == be, "fastlog", "FastLog(%d) with a table of %d = %.15g", n, S, b);
    double c = FastLogFact(n, F, S), ce = (double)lgammal(n + 1.0L); CHECK(fabs(c - ce) <= 1e-11 * (1 + fabs(ce)), "fastlogfact", "FastLogFact(%d) with a table of %d = %.15g instead of %.15g", n, S, c, ce);
    double g = FastLogGamma(n, Gm, S, x), ge = (double)lgammal((long double)n + x); CHECK(fabs(g - ge) <= 1e-10 * (1 + fabs(ge)), "fastloggamma", "FastLogGamma(%d) with x=%g and a table of %d = %.15g instead of %.15g", n, x, S, g, ge); }
  long double h = 0; for (int i = 0; i < S; i++) { if (i) h += 1.0L / i; CHECK(fabsl(H[i] - h) <= 1e-12L * (1 + h), "harmonic", "harmonic number %d = %.15g instead of %.15Lg", i, H[i], h); }
  FreeFastLogChoose(T, S); FreeFastLog(L); FreeFastLogFact(F); FreeHarmonicList(H); FreeFastLogGamma(Gm); vf::input(d, S > 1); vf::count("tables.built");
}
static void stats(long k, Rng &r) {
  int n = k % 31 == 0 ? r.in(100, 2000) : r.in(1, 40), mode = r.in(0, 4); vector<double> v(n); for (auto &x : v) x = mode == 0 ? r.in(-9, 9) : mode == 1 ? r.u() : mode == 2 ? -1 - r.u() * 100 : mode == 3 ? 7.25 : (r.u() - .5) * pow(10., r.in(-6, 6)); string d = "stats"; for (int i = 0; i < min(n, 30); i++) d += vf::fmt(" %g", v[i]); vf::input(d, n > 1); vf::stage("stats");
  vector<double> c = v; double *q = (double *)malloc(n * sizeof(double)); memcpy(q, v.data(), n * sizeof(double)); long double m = 0, s = 0, sc = 0; for (double x : v) { m += x; sc = fmaxl(sc, fabsl(x)); } m /= n; for (double x : v) s += (x - m) * (x - m); s = sqrtl(s / n);
  CHECK(fabsl(mean(q, n) - m) <= 1e-13L * n * (sc + 1e-300L), "mean", "mean of %d values = %.15g instead of %.15Lg", n, mean(q, n), m); double sd = stddev(q, n); CHECK(fabsl(sd - s) <= 4e-8L * sc + 1e-9L * s, "stddev", "standard deviation of %d values = %.15g instead of %.15Lg", n, sd, s); CHECK(max(q, n) == *max_element(c.begin(), c.end()), "max", "max = %g", max(q, n)); CHECK(min(q, n) == *min_element(c.begin(), c.end()), "min", "min = %g", min(q, n)); CHECK(!memcmp(q, v.data(), n * sizeof(double)), "stats:modified", "the data vector was modified"); free(q); vf::count("stats.vectors");
}
static void matrices(long k, Rng &r) {
  int R = r.in(1, 25), C = r.in(1, 25); if (k % 200 == 8) { R = r.in(1, 420); C = r.in(1, 420); } vf::input(vf::fmt("matrix %dx%d", R, C), R > 1 && C > 1); vf::stage("matrices"); long l0 = live_bytes();
  int **I = allocate_i_mat(R, C); double **D = allocate_d_mat(R, C); int *iv = allocate_i_vec(R); double *dv = allocate_d_vec(C);
  for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) CHECK(D[i][j] == 0, "dmat:zero", "fresh matrix of doubles holds %g", D[i][j]);
  for (int i = 0; i < R; i++) { iv[i] = -i; for (int j = 0; j < C; j++) { I[i][j] = r.in(-1000, 1000) * 1000 + (i * 25 + j) % 1000; D[i][j] = I[i][j] / 8.; } } for (int j = 0; j < C; j++) dv[j] = j * .5;
  FILE *f = tmpfile(); fprintf_i_mat(f, I, R, C); string s = slurp(f), e; fclose(f); for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) e += to_string(i + 1) + " " + to_string(j + 1) + " " + to_string(I[i][j]) + "\n"; CHECK(s == e, "fprintf_i_mat", "printed matrix differs"); bool ok = true; for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) ok &= D[i][j] == I[i][j] / 8.; CHECK(ok, "mat:alias", "matrix entries overlap");
  free_i_mat(I, R); free_d_mat(D, R); free_i_vec(iv); free_d_vec(dv); string().swap(s); string().swap(e); long kept = live_bytes() - l0; CHECK(kept <= 2048, "mat:leak", "%ld bytes kept", kept);
}
static void lines(long k, Rng &r) {
  int n = r.in(0, 30), len = 0; string t; bool trail = true; for (int i = 0; i < n; i++) { int L = r.p(.15) ? 996 + r.in(0, 8) : r.p(.1) ? r.in(0, 4000) : r.in(0, 40); t += string(L, 'x'); if (i == n - 1 && L && r.p(.4)) trail = false; else t += "\n"; } (void)trail; (void)len; vf::input("lines " + t, n > 1); vf::stage("lines"); string fn = "lines-" + to_string(getpid()); FILE *f = fopen(fn.c_str(), "w"); fwrite(t.data(), 1, t.size(), f); fclose(f); int c = CountLinesInFile((char *)fn.c_str()); unlink(fn.c_str()); CHECK(c == n, "countlines", "%d lines counted instead of %d", c, n);
}
static void geometric(long k, Rng &r) {
  double p = r.p(.1) ? 1 : .05 + .95 * r.u(); int N = 4000; vf::input(vf::fmt("geometric %g", p), p < 1); vf::stage("geometric"); gsl_rng *g = gen(r.next() % 1000000); vector<int> h(6, 0); double s = 0; int neg = 0; for (int i = 0; i < N; i++) { int v = geometric_dist_val(p, g); if (v < 0) neg++; else if (v < 6) h[v]++; s += v; } gsl_rng_free(g); CHECK(!neg, "geometric", "negative values drawn"); double q = 1 - p, mu = q / p, sd = sqrt(q) / p; CHECK(fabs(s / N - mu) <= 6.5 * sd / sqrt(N) + 1e-9, "geometric", "mean of %d draws %.4f instead of %.4f (p=%g)", N, s / N, mu, p); for (int v = 0; v < 6; v++) { double e = p * pow(q, v); CHECK(fabs(h[v] / (double)N - e) <= 6.5 * sqrt(e * (1 - e) / N) + 3. / N, "geometric", "value %d drawn %d times of %d, expected %.1f", v, h[v], N, e * N); }
}
void run_case(long k, Rng &r) { switch (k % 10) { case 0: case 1: case 2: combin(k, r); break; case 3: case 4: case 5: tables(k, r); break; case 6: case 7: stats(k, r); break; case 8: if (k % 20 == 8) matrices(k, r); else lines(k, r); break; default: geometric(k, r); } }
