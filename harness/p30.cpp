// P30: Laplacian: matrices compared entry by entry; eigenvalues by Jacobi rotations written here, and by invariants.
#define RG_EXTRA "matrix.h"
#include "rg.hpp"
using namespace std;
long n_cases(int tier) { return tier ? 30000 : 4000; }
static vector<double> jacobi(vector<vector<double>> a) {
  int n = (int)a.size(); for (int sweep = 0; sweep < 60; sweep++) { double off = 0; for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) off += a[i][j] * a[i][j]; if (off < 1e-24) break; for (int p = 0; p < n; p++) for (int q = p + 1; q < n; q++) { if (fabs(a[p][q]) < 1e-300) continue; double th = (a[q][q] - a[p][p]) / (2 * a[p][q]), t = (th >= 0 ? 1 : -1) / (fabs(th) + sqrt(th * th + 1)), c = 1 / sqrt(t * t + 1), s = t * c; for (int k = 0; k < n; k++) { double x = a[k][p], y = a[k][q]; a[k][p] = c * x - s * y; a[k][q] = s * x + c * y; } for (int k = 0; k < n; k++) { double x = a[p][k], y = a[q][k]; a[p][k] = c * x - s * y; a[q][k] = s * x + c * y; } } }
  vector<double> e(n); for (int i = 0; i < n; i++) e[i] = a[i][i]; sort(e.begin(), e.end()); return e; }
void run_case(long k, Rng &r) {
  G g = random_graph(r, 1, k % 313 == 105 ? 420 : k % 29 == 0 ? 60 : k % 3 ? 14 : 30, r.in(0, 1)); vf::input(g.text(), g.n > 2 && g.links() > 1); NG *net = build(r, g); vf::stage("matrices"); int **A = AdjacencyMat(net), **L = LaplacianMat(net); bool okA = true, okL = true; vector<vector<double>> M(g.n, vector<double>(g.n, 0)); for (int i = 0; i < g.n; i++) for (int j = 0; j < g.n; j++) { int a = g.has(i, j), l = i == j ? g.deg(i) : -a; okA &= A[i][j] == a; okL &= L[i][j] == l; M[i][j] = l; } CHECK(okA, "adjacency", "adjacency matrix differs from the network"); CHECK(okL, "laplacian", "Laplacian matrix differs from degree minus adjacency"); free_i_mat(A, g.n); free_i_mat(L, g.n);
  vf::stage("spectrum"); gsl_vector *s = LaplacianSpectrum(net); vector<double> e; if (g.n <= 200) e = jacobi(M); else { double s2 = 0, w2 = 0; for (int i = 0; i < g.n; i++) { double x = gsl_vector_get(s, i); e.push_back(x); s2 += x * x; for (int j = 0; j < g.n; j++) w2 += M[i][j] * M[i][j]; } CHECK(fabs(s2 - w2) < 1e-8 * w2 + 1e-6, "spectrum", "squared eigenvalues add to %g instead of %g", s2, w2); vf::count("monitor.large_spectra"); } int zeros = 0; double sum = 0; CHECK((int)s->size == g.n, "spectrum:size", "%zu eigenvalues for %d nodes", s->size, g.n); if ((int)s->size == g.n) { for (int i = 0; i < g.n; i++) { double x = gsl_vector_get(s, i); CHECK(fabs(x - e[i]) <= 1e-8 * (1 + g.n), "spectrum", "eigenvalue %d = %.12g instead of %.12g", i, x, e[i]); if (i) CHECK(x >= gsl_vector_get(s, i - 1), "spectrum:order", "eigenvalues not ascending at %d", i); zeros += fabs(x) < 1e-8 * (1 + g.n); sum += x; } auto c = components(g); int nc = (int)set<int>(c.begin(), c.end()).size(); CHECK(zeros == nc, "spectrum:zeros", "%d zero eigenvalues for %d components", zeros, nc); CHECK(fabs(sum - 2. * g.links()) < 1e-8 * (1 + g.n * g.n), "spectrum:trace", "eigenvalues add to %g instead of %d", sum, 2 * g.links()); } gsl_vector_free(s);
  if (g.links() > 0) { vf::stage("synchronizability"); auto c = components(g); int nc = (int)set<int>(c.begin(), c.end()).size(); double y = Synchronizability(net), lN = e.back(), l2 = e[nc]; bool conn = nc == 1; 
    // numerical zeros may exceed the 1e-10 cut only on large networks; the value is then not defined by the statement
    (void)conn; CHECK(fabs(y - lN / l2) <= 1e-6 * (lN / l2), "synchronizability", "%.10g instead of %.10g", y, lN / l2); vf::count("synchronizability.values"); }
  string why; CHECK(same(extract(net, "changed"), g, why), "changed", "%s", why.c_str());
  if (k % 10 == 0) { vf::stage("selfloop"); auto v = nodes(net); int i = r.in(0, g.n - 1); AddAdjacency(v[i], v[i], 1, 0, 1, 1); int **B = LaplacianMat(net); gsl_vector *t = LaplacianSpectrum(net); CHECK(!B && !t, "selfloop", "the Laplacian of a network with a self-loop is not refused"); CHECK(std::isnan(Synchronizability(net)), "selfloop", "synchronizability of a network with a self-loop"); vf::count("monitor.selfloops_refused"); }
  RemoveGraph(net);
  if (k % 200 == 3) { long w[8]; for (int t = 0; t < 8; t++) { Rng q(4); G h; h.init(8); for (int i = 1; i < 8; i++) h.add(i, i / 2); long l0 = live_bytes(); NG *n = build(q, h); Synchronizability(n); free_i_mat(AdjacencyMat(n), 8); RemoveGraph(n); w[t] = live_bytes() - l0; } CHECK(w[7] <= 0, "leak", "%ld bytes kept by a cycle", w[7]); vf::count("monitor.leak_windows"); }
}
