// P31: layout. Energy and forces against sums over pairs; whole runs against an independent Verlet integration that
// draws the same random stream; component arrangement by rigidity and its own objective.
#define RG_EXTRA "layout.h"
#include "rg.hpp"
using namespace std;
long n_cases(int tier) { return tier ? 24000 : 3000; }
typedef array<double, 3> V3;
static vector<V3> pos(NG *net) { vector<V3> p; for (NG *q : nodes(net)) p.push_back({q->coorX, q->coorY, q->coorZ}); return p; }
static void put(NG *net, const vector<V3> &p) { int i = 0; for (NG *q : nodes(net)) { q->coorX = p[i][0]; q->coorY = p[i][1]; q->coorZ = p[i][2]; q->trans = i; i++; } }
static int cell(double x, double lo, double hi, int b) { double d = (hi - lo) * 1e-5, l = lo - d, h = hi + d; h = hi + (hi - l) * 1e-5; int c = h > l ? (int)floor((x - l) / (h - l) * b) : 0; return c < b ? c : b - 1; }
static double margin(double x, double lo, double hi, int b) { double d = (hi - lo) * 1e-5; double t = (x - (lo - d)) / (hi - lo + 2 * d) * b; return fabs(t - floor(t + .5)); }
struct Cells { int dim, b; vector<array<int, 3>> c; };
static Cells cells(const vector<V3> &p, int dim, int b, const double *lo, const double *hi) { Cells z{dim, b, {}}; for (auto &q : p) { array<int, 3> a{0, 0, 0}; for (int d = 0; d < dim; d++) a[d] = cell(q[d], lo[d], hi[d], b); z.c.push_back(a); } return z; }
static void range(const vector<V3> &p, double *lo, double *hi) { for (int d = 0; d < 3; d++) { lo[d] = 1e100; hi[d] = -1e100; for (auto &q : p) lo[d] = min(lo[d], q[d]), hi[d] = max(hi[d], q[d]); } }
static double cutoff(const vector<V3> &p, int dim, int b) { double lo[3], hi[3], s = 0; range(p, lo, hi); for (int d = 0; d < dim; d++) s += hi[d] - lo[d]; return s / dim / b; }
static bool counted(const Cells &z, int i, int j, double dist, double cut) { for (int d = 0; d < z.dim; d++) if (abs(z.c[i][d] - z.c[j][d]) > 1) return false; return dist < cut || z.b <= 2; }
static double dist(const V3 &a, const V3 &b, int dim) { double s = 0; for (int d = 0; d < dim; d++) s += (a[d] - b[d]) * (a[d] - b[d]); return sqrt(s); }
static double energy(const G &g, const vector<V3> &p, const Cells &z) { double E = 0, K = 1. / g.n, eps = sqrt(g.n) / 1e4, cut = cutoff(p, z.dim, z.b); for (int i = 0; i < g.n; i++) for (int j = 0; j < i; j++) { double d = dist(p[i], p[j], z.dim); if (g.has(i, j)) E += g.a[i].at(j) * d * d / 2; if (counted(z, i, j, d, cut)) E += K / sqrt(d * d + eps); } return E; }
static vector<V3> forces(const G &g, const vector<V3> &p, const Cells &z) { vector<V3> F(g.n, V3{0, 0, 0}); double K = 1. / g.n, eps = sqrt(g.n) / 1e4, cut = cutoff(p, z.dim, z.b); for (int i = 0; i < g.n; i++) for (int j = 0; j < i; j++) { double d = dist(p[i], p[j], z.dim), f = 0; if (d == 0) continue; if (g.has(i, j)) f += g.a[i].at(j) * d; if (counted(z, i, j, d, cut)) f -= K / (d * d + eps); for (int c = 0; c < z.dim; c++) { double q = f * (p[j][c] - p[i][c]) / d; F[i][c] += q; F[j][c] -= q; } } return F; }
static vector<struct node_box *> boxes(NG *net, const Cells &z, Rng &r) { int nb = 1; for (int d = 0; d < z.dim; d++) nb *= z.b; vector<struct node_box *> B(nb); for (auto &x : B) x = CreateNodeBox(NULL); auto v = nodes(net); vector<int> o(v.size()); iota(o.begin(), o.end(), 0); r.shuffle(o); for (int i : o) { int k = z.c[i][0] + z.b * z.c[i][1] + z.b * z.b * z.c[i][2]; AddNodeToBox(v[i], B[k]); } return B; }
static bool ambiguous(const vector<V3> &p, int dim, int b, double cut) { for (size_t i = 0; i < p.size(); i++) for (size_t j = 0; j < i; j++) if (fabs(dist(p[i], p[j], dim) - cut) < 1e-7 * (1 + cut)) return b > 2; return false; }
static void energies(long k, Rng &r) {
  G g = random_graph(r, 1, k % 337 == 105 ? 420 : k % 37 == 0 ? 60 : 20, r.in(0, 2)); vf::input("energy " + g.text(), g.n > 2 && g.links() > 1); NG *net = build(r, g); vector<V3> p(g.n); double sc = r.p(.3) ? 5 : 1; for (auto &q : p) for (double &x : q) x = r.u() * sc; if (r.p(.15) && g.n > 1) p[1] = p[0]; if (r.p(.1)) for (auto &q : p) q[1] = .5; put(net, p);
  for (int dim = 2; dim <= 3; dim++) for (int t = 0; t < 2; t++) { int b = t ? r.in(2, 6) : 1; double lo[3], hi[3]; range(p, lo, hi); Cells z = cells(p, dim, b, lo, hi); double cut = cutoff(p, dim, b); if (ambiguous(p, dim, b, cut)) continue; auto B = boxes(net, z, r); vf::stage(dim == 2 ? "energy2" : "energy3"); double E = dim == 2 ? PotentialEnergy(net, B.data(), b) : PotentialEnergy3D(net, B.data(), b), e = energy(g, p, z); CHECK(fabs(E - e) <= 1e-9 * (1 + fabs(e)), dim == 2 ? "energy2" : "energy3", "energy with %d boxes a side = %.12g instead of %.12g", b, E, e);
    vector<double> X(g.n, 7), Y(g.n, 7), Z(g.n, 7); vf::stage(dim == 2 ? "force2" : "force3"); if (dim == 2) CalculateNodeForces(net, X.data(), Y.data(), B.data(), b); else CalculateNodeForces3D(net, X.data(), Y.data(), Z.data(), B.data(), b); auto F = forces(g, p, z); double sx = 0, sy = 0, sz = 0, mag = 1; for (int i = 0; i < g.n; i++) { mag += fabs(X[i]) + fabs(Y[i]); if (dim == 2) Z[i] = F[i][2] = 0; CHECK(fabs(X[i] - F[i][0]) <= 1e-9 * (1 + fabs(F[i][0])) && fabs(Y[i] - F[i][1]) <= 1e-9 * (1 + fabs(F[i][1])) && fabs(Z[i] - F[i][2]) <= 1e-9 * (1 + fabs(F[i][2])), dim == 2 ? "force2" : "force3", "force on node %d with %d boxes: (%g %g %g) instead of (%g %g %g)", i, b, X[i], Y[i], Z[i], F[i][0], F[i][1], F[i][2]); sx += X[i]; sy += Y[i]; sz += Z[i]; } CHECK(fabs(sx) + fabs(sy) + fabs(sz) <= 1e-9 * mag, "force:sum", "forces add to (%g %g %g)", sx, sy, sz); auto q = pos(net); CHECK(q == p, "energy:moved", "computing energy or forces moved nodes");
    // boxes: remove and re-add
    if (r.p(.3)) { auto v = nodes(net); int i = r.in(0, g.n - 1); int kk = z.c[i][0] + z.b * z.c[i][1] + z.b * z.b * z.c[i][2]; vf::stage("box"); RemoveNodeFromBox(v[i], B[kk]); multiset<NG *> in, want; for (struct node_box *x = B[kk]->next; x; x = x->next) in.insert(x->ref); for (int j = 0; j < g.n; j++) if (j != i && z.c[j] == z.c[i]) want.insert(v[j]); CHECK(in == want, "box", "a box lost or kept the wrong nodes"); }
    for (auto x : B) FreeBox(x); vf::count("layout.energies"); }
  // box assignment
  double lo[3], hi[3]; range(p, lo, hi); int b = r.in(1, 7); auto v = nodes(net); for (int i = 0; i < g.n; i++) { int k3 = AssignBox3D(v[i], b, lo[0], hi[0], lo[1], hi[1], lo[2], hi[2]); CHECK(k3 >= 0 && k3 < b * b * b, "assignbox", "node put into box %d of %d", k3, b * b * b); bool amb = false; for (int d = 0; d < 3; d++) amb |= hi[d] > lo[d] && margin(p[i][d], lo[d], hi[d], b) < 1e-4; if (!amb) { int w = 0; for (int d = 2; d >= 0; d--) w = w * b + cell(p[i][d], lo[d], hi[d], b); CHECK(k3 == w, "assignbox", "node put into box %d instead of %d", k3, w); } }
  RemoveGraph(net);
}
static void normalize(vector<V3> &p, int dim) { double lo[3], hi[3]; range(p, lo, hi); for (auto &q : p) for (int d = 0; d < dim; d++) q[d] = hi[d] > lo[d] ? (q[d] - lo[d]) / (hi[d] - lo[d]) : .5; }
struct Keep { vector<double> d; vector<int> i; };
static Keep mark(NG *net) { Keep k; int c = 0; for (NG *p : nodes(net)) { p->inGroup = 3 * c + 1; p->state = c + 2; p->ivar1 = c * 5; p->dvar1 = c / 8.; c++; } return k; }
static void untouched(NG *net, const G &g, const char *key) { string why; CHECK(same(extract(net, key), g, why), key, "%s", why.c_str()); int c = 0; bool ok = true; for (NG *p : nodes(net)) { ok &= p->inGroup == 3 * c + 1 && p->ivar1 == c * 5 && p->dvar1 == c / 8.; c++; } CHECK(ok, key, "memberships or other node attributes changed"); }
static void unit(NG *net, int dim, const char *key) { auto p = pos(net); double lo[3], hi[3]; range(p, lo, hi); bool fin = true; for (auto &q : p) for (int d = 0; d < dim; d++) fin &= isfinite(q[d]) && q[d] >= -1e-12 && q[d] <= 1 + 1e-12; CHECK(fin, key, "coordinates are not finite within the unit square"); if (p.size() > 1) for (int d = 0; d < dim; d++) CHECK((fabs(lo[d]) < 1e-9 && fabs(hi[d] - 1) < 1e-9) || hi[d] == lo[d], key, "coordinates span %g..%g", lo[d], hi[d]); }
static bool connected(const G &g) { auto c = components(g); return set<int>(c.begin(), c.end()).size() <= 1; }
// shape of each component up to a common scale and one translation per component
static bool rigid(const G &g, const vector<V3> &from, const vector<V3> &to, int dim, double tol, bool scale) { auto c = components(g); for (int d = 0; d < dim; d++) { double a = 1; if (scale) { double bf = 0, bt = 0; for (int i = 0; i < g.n; i++) for (int j = 0; j < i; j++) if (c[i] == c[j] && fabs(from[i][d] - from[j][d]) > fabs(bf)) { bf = from[i][d] - from[j][d]; bt = to[i][d] - to[j][d]; } if (bf == 0) continue; a = bt / bf; if (!(a >= 0)) return false; } for (int i = 0; i < g.n; i++) for (int j = 0; j < i; j++) if (c[i] == c[j] && fabs((to[i][d] - to[j][d]) - a * (from[i][d] - from[j][d])) > tol) return false; } return true; }
static void run(long k, Rng &r) {
  int which = k % 3, dim = which == 0 ? 2 : 3; G g = random_graph(r, 1, k % 337 == 105 ? 410 : k % 43 == 0 ? 50 : 14, r.in(0, 1)); double wmax = 1; for (int i = 0; i < g.n; i++) wmax = max(wmax, g.str(i)); double dt = min(.1, .6 / sqrt(2 * wmax)) * (.5 + r.u() / 2), drag = .05 + r.u(); int steps = r.in(0, 4) == 0 ? r.in(100, 400) : r.in(0, 25); int nb = r.p(.5) ? r.in(1, 5) : r.p(.5) ? 0 : -1; unsigned long sd = r.next(); vf::input(vf::fmt("run %d steps %d boxes %d ", which, steps, nb) + g.text(), g.n > 2 && g.links() > 1); NG *net = build(r, g); mark(net); gsl_rng *gg = gen(sd); vf::stage(which == 0 ? "MDGraphLayout" : which == 1 ? "MDGraphLayout3D" : "MDGraphLayout2Dp");
  if (which == 0) MDGraphLayout(net, drag, dt, steps, gg, nb); else if (which == 1) MDGraphLayout3D(net, drag, dt, steps, gg, nb); else MDGraphLayout2Dp(net, drag, dt, steps, gg, nb); auto got = pos(net); untouched(net, g, "layout:changed"); unit(net, which == 1 ? 3 : 2, "layout:unit"); vf::count("layout.runs");
  // reference run
  int b = nb; if (b <= 0) { int L = g.links(); b = L == 0 ? 1 : (int)floor(which == 0 ? sqrt((double)(g.n * g.n) / (10. * L)) : pow((double)(g.n * g.n) / (10. * L), 1. / 3.)); if (b < 1) b = 1; }
  gsl_rng *h = gen(sd); vector<V3> x(g.n, V3{0, 0, 0}), prev; for (auto &q : x) for (int d = 0; d < dim; d++) q[d] = gsl_rng_uniform(h); prev = x; double lo[3] = {0, 0, 0}, hi[3] = {1, 1, 1}; Cells z = cells(x, dim, b, lo, hi); double kz = 0; int ks = 0; bool amb = false; int done = 0;
  for (int s = 0; s < steps; s++) { if (b > 2) { amb |= ambiguous(x, dim, b, cutoff(x, dim, b)); for (auto &q : x) for (int d = 0; d < dim; d++) amb |= hi[d] > lo[d] && margin(q[d], lo[d], hi[d], b) < 1e-6; } auto F = forces(g, x, z); double T = 0; vector<V3> old = x; for (int i = 0; i < g.n; i++) for (int d = 0; d < dim; d++) { double f = F[i][d] - (which == 2 && d == 2 ? kz * (old[i][2] - .5) : 0); x[i][d] = (2 * old[i][d] - prev[i][d] * (1 - drag * dt * .5) + f * dt * dt) / (1 + drag * dt * .5); double v = (x[i][d] - prev[i][d]) / (2 * dt); T += v * v / 2; } prev = old; range(x, lo, hi); z = cells(x, dim, b, lo, hi); if (ks) kz += dt; double t = T / g.n; amb |= fabs(t - 1e-5) < 1e-10 || fabs(t - 1e-3) < 1e-9; if (t < 1e-3 && !ks) ks = 1; done++; if (t < 1e-5) break; }
  gsl_rng_free(h); double L0[3], H0[3]; range(x, L0, H0); bool degenerate = false; for (int d = 0; d < (which == 1 ? 3 : 2); d++) degenerate |= g.n > 1 && H0[d] - L0[d] < 1e-4; normalize(x, which == 1 ? 3 : 2); bool chaotic = done > 60; if (b > 2 && done > 25) amb = true;
  if (!amb && !degenerate && !chaotic) { if (which == 1) { double m = 0; for (int i = 0; i < g.n; i++) for (int d = 0; d < 3; d++) m = max(m, fabs(got[i][d] - x[i][d])); CHECK(m < 1e-5, "layout:trajectory3", "positions after %d steps differ by %g from the integrated equations of motion", done, m); } else if (connected(g)) { double m = 0; for (int i = 0; i < g.n; i++) for (int d = 0; d < 2; d++) m = max(m, fabs(got[i][d] - x[i][d])); CHECK(m < 1e-5, which == 0 ? "layout:trajectory2" : "layout:trajectory2p", "positions after %d steps differ by %g from the integrated equations of motion", done, m); } else CHECK(rigid(g, x, got, 2, 1e-5, true), "layout:components", "arranging the components deformed one of them"); vf::count("layout.trajectories_compared"); }
  gsl_rng_free(gg);
  FILE *f = tmpfile(); PrintNodeCoordinates(f, net); string s = slurp(f), e; fclose(f); for (NG *p : nodes(net)) e += string(p->label) + vf::fmt(" %g %g", p->coorX, p->coorY) + "\n"; CHECK(s == e, "print", "printed coordinates differ"); RemoveGraph(net);
}
static void arrange(long k, Rng &r) {
  int n = r.in(2, 16); G g; if (r.p(.7)) { g.init(n); int i = 0; while (i < n) { int m = min(n - i, r.in(1, 5)); for (int x = 1; x < m; x++) g.add(i + x, i + r.in(0, x - 1)); i += m; } g = permuted(r, g); for (int i = 0; i < n; i++) g.lab[i] = rand_label(r, i, 0); } else g = random_graph(r, 2, 16); vf::input("arrange " + g.text(), g.n > 2); NG *net = build(r, g); mark(net); vector<V3> p(g.n); for (auto &q : p) q = {r.u(), r.u(), 0}; put(net, p); gsl_rng *gg = gen(r.next() % 1000000); vf::stage("ArrangeComponents"); ArrangeComponents(net, gg); gsl_rng_free(gg); auto q = pos(net); untouched(net, g, "arrange:changed"); CHECK(rigid(g, p, q, 2, 1e-9, false), "arrange:rigid", "a component was deformed"); if (connected(g)) CHECK(p == q, "arrange:connected", "a connected network was moved");
  else { auto c = components(g); map<int, int> ix; for (int x : c) if (!ix.count(x)) { int t = (int)ix.size(); ix[x] = t; } int m = (int)ix.size(); vector<vector<int>> mem(m); for (int i = 0; i < g.n; i++) mem[ix[c[i]]].push_back(i); size_t big = 0; for (auto &v : mem) big = max(big, v.size()); auto circ = [&](const vector<V3> &z, vector<V3> &ce, vector<double> &rad) { ce.assign(m, V3{0, 0, 0}); rad.assign(m, 0); for (int a = 0; a < m; a++) { for (int i : mem[a]) for (int d = 0; d < 2; d++) ce[a][d] += z[i][d] / mem[a].size(); for (int i : mem[a]) rad[a] = max(rad[a], 1.02 * dist(z[i], ce[a], 2)); } };
    vector<V3> c0, c1; vector<double> r0, r1; circ(p, c0, r0); circ(q, c1, r1); bool ok = false; auto obj = [&](const vector<V3> &ce, const V3 &o) { double F = 0; for (int a = 0; a < m; a++) { F += dist(ce[a], o, 2); for (int b = 0; b < a; b++) F += 1e5 * max(0., r0[a] + r0[b] - dist(ce[a], ce[b], 2)); } return F; };
    double f0 = 0, f1 = 0; for (int a = 0; a < m; a++) if (mem[a].size() == big) { f0 = obj(c0, c0[a]), f1 = obj(c1, c0[a]); ok |= f1 <= f0 * (1 + 1e-9) + 1e-6; } CHECK(ok, "arrange:objective", "the arrangement is worse after than before (%g, %g)", f1, f0); vf::count("layout.arrangements"); double rad[3] = {.1 + r.u(), .1 + r.u(), .1 + r.u()}, xc[3] = {r.u(), r.u(), r.u()}, yc[3] = {r.u(), r.u(), r.u()}; int t = r.in(0, 2); double e = hypot(xc[t] - .3, yc[t] - .6); for (int i = 0; i < 3; i++) if (i != t) { double ov = rad[t] + rad[i] - hypot(xc[t] - xc[i], yc[t] - yc[i]); if (ov > 0) e += 1e5 * ov; } double d = CircleDistance(t, .3, .6, xc, yc, rad, 3); CHECK(fabs(d - e) <= 1e-9 * (1 + e), "circledistance", "%g instead of %g", d, e); }
  vf::stage("Normalize"); for (int t = 0; t < 2; t++) { vector<V3> z(g.n); for (auto &x : z) x = {r.u() * 9 - 3, r.p(.1) ? 2 : r.u() * .1, -r.u()}; if (r.p(.2)) for (auto &x : z) x[r.in(0, 1)] = 4; put(net, z); if (t) NormalizeCoordinates3D(net); else NormalizeCoordinates(net); auto y = pos(net); normalize(z, t ? 3 : 2); double m = 0; for (int i = 0; i < g.n; i++) for (int d = 0; d < 3; d++) m = max(m, fabs(z[i][d] - y[i][d])); CHECK(m < 1e-12, "normalize", "coordinates differ by %g from min-max scaling", m); double lo[3], hi[3]; range(y, lo, hi); bool fin = true; for (auto &x : y) for (double v : x) fin &= isfinite(v); CHECK(fin, "normalize", "not finite"); }
  RemoveGraph(net);
  if (k % 300 == 6) { long w[6]; for (int t = 0; t < 6; t++) { Rng z(5); G h; h.init(9); for (int i = 1; i < 9; i++) if (i % 3) h.add(i, i - 1); long l0 = live_bytes(); NG *n = build(z, h); gsl_rng *g2 = gen(4); MDGraphLayout(n, .3, .05, 5, g2, 0); MDGraphLayout2Dp(n, .3, .05, 5, g2, 2); MDGraphLayout3D(n, .3, .05, 5, g2, 0); gsl_rng_free(g2); RemoveGraph(n); w[t] = live_bytes() - l0; } CHECK(w[5] <= 0, "leak", "%ld bytes kept by laying out and destroying a network", w[5]); vf::count("monitor.leak_windows"); }
}
// more nodes than the square root of the largest int, boxes chosen by the program
static void large(Rng &r) {
  int n = r.in(46400, 48000), which = r.in(0, 1); NG *net = CreateHeaderGraph(), *l = net; vector<NG *> v; vector<NL *> t; char lab[32]; for (int i = 0; i < n; i++) { snprintf(lab, sizeof lab, "n%d", i); v.push_back(l = CreateNodeGraph(l, lab)); t.push_back(l->neig); }
  auto half = [&](int i, int j) { NL *x = t[i]->next = (NL *)calloc(1, sizeof(NL)); t[i] = x; x->node = v[j]->num; x->nodeLabel = (char *)calloc(MAX_LABEL_LENGTH, 1); strcpy(x->nodeLabel, v[j]->label); x->ref = v[j]; x->weight = 1; }; for (int i = 1; i < n; i++) { half(i, (i - 1) / 2); half((i - 1) / 2, i); }
  vf::input(vf::fmt("tree of %d nodes, layout %d", n, which), true); vf::stage("large"); gsl_rng *gg = gen(r.next() % 1000000); if (which) MDGraphLayout3D(net, .5, .1, 1, gg, -1); else MDGraphLayout(net, .5, .1, 1, gg, -1); gsl_rng_free(gg); unit(net, which ? 3 : 2, "layout:unit"); vf::count("layout.large_runs"); RemoveGraph(net);
}
void run_case(long k, Rng &r) { if (k % 3000 == 1500) { large(r); return; } switch (k % 6) { case 0: case 1: energies(k / 6, r); break; case 2: case 3: case 4: run(k % 6 + (k / 6) * 3, r); break; default: arrange(k / 6, r); } }
