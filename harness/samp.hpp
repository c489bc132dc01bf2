// One-mode block-model samplers: exact posteriors by enumeration of all partitions, and state objects to drive single sweeps.
#pragma once
#include "rg.hpp"
#include <functional>
#include <gsl/gsl_randist.h>
extern "C" {
#define new new_
#include "missing.h"
#include "sparse_missing.h"
#include "multiblock.h"
double LogDegeneracy_OD(int ngroup);
double PartitionHMB_OD(struct group *part, double linC, double *HarmonicList);
void LSMCStepMB_OD(int, double *, double, struct node_gra **, struct group **, struct group *, int, int **, int *, double **, int, double *, int, double *, gsl_rng *);
void GibbsLinkScoreStepMB_OD(double *, double, struct node_gra **, struct group **, struct group *, int, int **, int *, double **, int, double *, int, double *, gsl_rng *);
double **LinkScoreMB_OD(struct node_gra *, double, int, gsl_rng *, char);
double **GibbsLinkScoreMB_OD(struct node_gra *, double, int, gsl_rng *, char);
#undef new
// The samplers allocate (and touch) up to 800 MB for their table of log-binomials at every call; the harness shares one
// lazily grown table between calls. The values are the same (P28 checks the real table).
#ifdef VF_SHARED_TABLE
static double **vf_table; static int vf_table_n; static bool vf_real_table;
double **__real_InitializeFastLogChoose(int);
double **__wrap_InitializeFastLogChoose(int n) {
  if (n < 200 || vf_real_table) return __real_InitializeFastLogChoose(n);   // small tables: the real thing
#ifndef VF_TABLE_ROWS
#define VF_TABLE_ROWS 2000
#endif
  const int R = VF_TABLE_ROWS;                                 // rows that can be asked by the networks used here
  if (!vf_table) { vf_table_n = 10000; vf_table = (double **)calloc(vf_table_n, sizeof(double *));
    for (int r = 0; r < R; r++) { vf_table[r] = (double *)malloc((r + 1) * sizeof(double)); for (int l = 0; l <= r; l++) vf_table[r][l] = LogChoose(r, l); } }
  return vf_table;
}
void __real_FreeFastLogChoose(double **, int);
void __wrap_FreeFastLogChoose(double **t, int n) { if (t != vf_table) __real_FreeFastLogChoose(t, n); }
#endif
}
#include <boost/multiprecision/cpp_int.hpp>
namespace rg {
// log of the number of ways in which layers can be combined, D(n) = sum_k s(n,k) Bell(k)^2 with signed Stirling numbers of the
// first kind; the documented asymptotic form from 70 groups on
inline double log_degeneracy(int n) {
  static std::vector<double> t;
  if (t.empty()) { using boost::multiprecision::cpp_int; const int N = 70; std::vector<cpp_int> bell{1}, row{1}; for (int k = 1; k <= N; k++) { std::vector<cpp_int> nr{row.back()}; for (auto &x : row) nr.push_back(nr.back() + x); row = nr; bell.push_back(row[0]); }
    std::vector<cpp_int> s{1}; for (int m = 0; m < N; m++) { cpp_int d = 0; for (int k = 0; k <= m; k++) d += s[k] * bell[k] * bell[k]; unsigned b = d == 0 ? 0 : msb(d); double sh = b > 60 ? b - 60 : 0; t.push_back(m == 0 ? 0 : std::log(cpp_int(d >> (unsigned)sh).convert_to<double>()) + sh * M_LN2);
      std::vector<cpp_int> u(m + 2); for (int k = 0; k <= m; k++) { u[k] -= s[k] * m; u[k + 1] += s[k]; } s = u; } }
  return n < (int)t.size() ? t[n] : 1.4681 * n * (std::log((double)n) - 1.); }
enum Model { PLAIN, AND, OR, OD, SPARSE };
inline const char *mname[] = {"plain", "and", "or", "deg", "sparse"};
inline long double lch(int r, int l) { return lgammal(r + 1.0L) - lgammal(l + 1.0L) - lgammal(r - l + 1.0L); }
inline long double harm(int n) { static std::vector<long double> h{0}; while ((int)h.size() <= n) h.push_back(h.back() + 1.0L / h.size()); return h[n]; }
inline long double lbeta(long double a, long double b) { return lgammal(a) + lgammal(b) - lgammal(a + b); }
struct Post {              // the documented posterior
  Model m; double linC = 0; long double a = 0, b = 0;
  static Post make(Model m, const G &g, double linC) { Post p; p.m = m; p.linC = linC; if (m == SPARSE) { long double d = 2.0L * g.links() / (g.n * (g.n - 1.0L)); p.b = .5L; p.a = d * p.b / (1 - d); } return p; }
  long double pair(int r, int l) const {   // minus log of the marginal likelihood of one pair of groups
    switch (m) {
      case PLAIN: case OD: return logl(r + 1.0L) + lch(r, l);
      case AND: return logl(r + 1.0L) + lch(r, l) - logl(harm(r + 1) - harm(l));
      case OR: return logl(r + 1.0L) + lch(r, l) - logl(harm(r + 1) - harm(r - l));
      case SPARSE: return lbeta(a, b) - lbeta(l + a, r - l + b); } return 0; }
  long double est(int r, int l) const {    // link probability of a pair of groups
    switch (m) {
      case PLAIN: case OD: return (l + 1.0L) / (r + 2);
      case AND: return (l + 1.0L) / (r + 2) * (harm(r + 2) - harm(l + 1)) / (harm(r + 1) - harm(l));
      case OR: return 1 - (r - l + 1.0L) / (r + 2) * (harm(r + 2) - harm(r - l + 1)) / (harm(r + 1) - harm(r - l));
      case SPARSE: return (l + a) / (r + a + b); } return 0; }
  // energy of an unlabelled partition (c: group of each node)
  long double H(const G &g, const std::vector<int> &c) const {
    std::map<int, std::vector<int>> gr; for (int i = 0; i < g.n; i++) gr[c[i]].push_back(i); long double h = linC * (m == SPARSE ? 0 : 1) * gr.size();
    std::map<std::pair<int, int>, int> L; for (int i = 0; i < g.n; i++) for (auto &e : g.a[i]) if (e.first > i) { int x = c[i], y = c[e.first]; L[{std::min(x, y), std::max(x, y)}]++; }
    for (auto &x : gr) for (auto &y : gr) if (x.first <= y.first) { int s = x.second.size(), t = y.second.size(); int r = x.first == y.first ? s * (s - 1) / 2 : s * t; auto it = L.find({x.first, y.first}); h += pair(r, it == L.end() ? 0 : it->second); }
    if (m == AND || m == OR) h -= log_degeneracy(gr.size()); if (m == OD) h -= log_degeneracy(gr.size());
    return h; }
  // energy of the state with labelled groups, as the samplers track it (up to a constant)
  long double HL(const G &g, const std::vector<int> &c) const { std::set<int> s(c.begin(), c.end()); return H(g, c) - lgammal(g.n - (int)s.size() + 1.0L); }
  double est(const G &g, const std::vector<int> &c, int i, int j) const { int s = 0, t = 0, l = 0; for (int k = 0; k < g.n; k++) { s += c[k] == c[i]; t += c[k] == c[j]; }
    for (int k = 0; k < g.n; k++) for (auto &e : g.a[k]) if (e.first > k) { int x = c[k], y = c[e.first]; l += (x == c[i] && y == c[j]) || (x == c[j] && y == c[i]); }
    return est(c[i] == c[j] ? s * (s - 1) / 2 : s * t, l); }
};
inline void rgs(int n, std::vector<int> &c, int k, int mx, std::vector<std::vector<int>> &out) { if (k == n) { out.push_back(c); return; } for (int v = 0; v <= mx; v++) { c[k] = v; rgs(n, c, k + 1, std::max(mx, v + 1), out); } }
inline const std::vector<std::vector<int>> &partitions(int n) { static std::map<int, std::vector<std::vector<int>>> m; auto &v = m[n]; if (v.empty()) { std::vector<int> c(n); rgs(n, c, 0, 0, v); } return v; }
inline std::vector<int> canonv(const std::vector<int> &m) { std::map<int, int> id; std::vector<int> s; for (int x : m) { auto it = id.find(x); if (it == id.end()) it = id.insert({x, (int)id.size()}).first; s.push_back(it->second); } return s; }
struct Exact { std::vector<double> w; std::vector<std::vector<double>> q, sd; };   // posterior of every partition, exact scores, posterior sd of the estimate
inline Exact exact(const Post &P, const G &g) {
  auto &ps = partitions(g.n); Exact e; std::vector<long double> h; long double mn = 1e300L; for (auto &c : ps) { h.push_back(P.H(g, c)); mn = std::min(mn, h.back()); }
  long double z = 0; for (auto &x : h) { x = expl(mn - x); z += x; } for (auto &x : h) e.w.push_back((double)(x / z));
  e.q.assign(g.n, std::vector<double>(g.n, 0)); e.sd = e.q; for (size_t k = 0; k < ps.size(); k++) for (int i = 0; i < g.n; i++) for (int j = 0; j < g.n; j++) if (i != j) { double x = P.est(g, ps[k], i, j); e.q[i][j] += e.w[k] * x; e.sd[i][j] += e.w[k] * x * x; }
  for (auto &v : e.sd) for (auto &x : v) x = 0; for (size_t k = 0; k < ps.size(); k++) for (int i = 0; i < g.n; i++) for (int j = 0; j < g.n; j++) if (i != j) { double d = P.est(g, ps[k], i, j) - e.q[i][j]; e.sd[i][j] += e.w[k] * d * d; }
  for (auto &v : e.sd) for (auto &x : v) x = std::sqrt(x); return e;
}
// a sampler state built from a partition, as the library's own drivers build it
struct State {
  Model m; int n; NG *net; std::vector<NG *> nl; std::vector<GR *> gl; GR *part; int **G2G; int *n2g; double **LC; int LCS; double *LF; int LFS; double *Hm = nullptr, *LA = nullptr, *LB = nullptr, *LAB = nullptr; int LGS = 0; double a = 0, b = 0, linC, H = 0;
  State(NG *net, const Post &P, int lcs, int lfs) : m(P.m), net(net) {
    nl = nodes(net); n = nl.size(); linC = P.linC; gl.resize(n); GR *last = part = CreateHeaderGroup(); for (int i = 0; i < n; i++) last = gl[i] = CreateGroup(last, i);
    G2G = allocate_i_mat(n, n); n2g = allocate_i_vec(n); LCS = lcs; LFS = lfs; LC = InitializeFastLogChoose(lcs); LF = InitializeFastLogFact(lfs);
    if (m == AND || m == OR || m == OD) Hm = InitializeHarmonicList(1 + n * n);
    if (m == SPARSE) { a = P.a; b = P.b; LGS = lfs; LA = InitializeFastLogGamma(LGS, a); LB = InitializeFastLogGamma(LGS, b); LAB = InitializeFastLogGamma(LGS, a + b); }
    ResetNetGroup(net); first = true; }
  bool first;
  void set(const std::vector<int> &lab) {
    for (int i = 0; i < n; i++) { if (first) AddNodeToGroup(gl[lab[i]], nl[i]); else if (nl[i]->inGroup != lab[i]) MoveNode(nl[i], gl[nl[i]->inGroup], gl[lab[i]]); } first = false;
    for (int i = 0; i < n; i++) { n2g[i] = 0; G2G[i][i] = gl[i]->inlinks; for (int j = i + 1; j < n; j++) G2G[i][j] = G2G[j][i] = NG2GLinks(gl[i], gl[j]); }
    H = 0; }
  std::vector<int> labels() const { std::vector<int> v; for (auto *x : nl) v.push_back(x->inGroup); return v; }
  void step(int gibbs, int factor, gsl_rng *g) {
    NG **nv = nl.data(); GR **gv = gl.data();
    if (m == SPARSE) SparseGibbsLinkScoreStep(&H, nv, gv, part, n, G2G, n2g, LA, LB, LAB, LGS, LF, LFS, a, b, g);
    else if (gibbs) switch (m) { case PLAIN: GibbsLinkScoreStep(&H, linC, nv, gv, part, n, G2G, n2g, LC, LCS, LF, LFS, g); break; case AND: GibbsLinkScoreStepMB(&H, linC, nv, gv, part, n, G2G, n2g, LC, LCS, LF, LFS, Hm, g); break; case OR: ORGibbsLinkScoreStepMB(&H, linC, nv, gv, part, n, G2G, n2g, LC, LCS, LF, LFS, Hm, g); break; default: GibbsLinkScoreStepMB_OD(&H, linC, nv, gv, part, n, G2G, n2g, LC, LCS, LF, LFS, Hm, g); }
    else switch (m) { case PLAIN: LinkScoreMCStep(factor, &H, linC, nv, gv, part, n, G2G, n2g, LC, LCS, LF, LFS, g); break; case AND: LSMCStepMB(factor, &H, linC, nv, gv, part, n, G2G, n2g, LC, LCS, LF, LFS, Hm, g); break; case OR: ORLSMCStepMB(factor, &H, linC, nv, gv, part, n, G2G, n2g, LC, LCS, LF, LFS, Hm, g); break; default: LSMCStepMB_OD(factor, &H, linC, nv, gv, part, n, G2G, n2g, LC, LCS, LF, LFS, Hm, g); } }
  double libH() const { switch (m) { case PLAIN: return PartitionH(part, linC); case AND: return PartitionHMB(part, linC, Hm); case OR: return ORPartitionHMB(part, linC, Hm); case OD: return PartitionHMB_OD(part, linC, Hm); default: return SparsePartitionH(part, a, b); } }
  void free_all() { RemovePartition(part); free_i_mat(G2G, n); free_i_vec(n2g); FreeFastLogChoose(LC, LCS); FreeFastLogFact(LF); if (Hm) FreeHarmonicList(Hm); if (LA) { FreeFastLogGamma(LA); FreeFastLogGamma(LB); FreeFastLogGamma(LAB); } }
};
inline double **run_high(Model m, int gibbs, NG *net, double linC, int it, gsl_rng *g, char verb = 'q') {
  if (m == SPARSE) return SparseGibbsLinkScore(net, it, g, verb);
  switch (m) { case PLAIN: return gibbs ? GibbsLinkScore(net, linC, it, g, verb) : LinkScore(net, linC, it, g, verb); case AND: return gibbs ? GibbsLinkScoreMB(net, linC, it, g, verb) : LinkScoreMB(net, linC, it, g, verb);
    case OR: return gibbs ? ORGibbsLinkScoreMB(net, linC, it, g, verb) : ORLinkScoreMB(net, linC, it, g, verb); default: return gibbs ? GibbsLinkScoreMB_OD(net, linC, it, g, verb) : LinkScoreMB_OD(net, linC, it, g, verb); } }
// Observed against expected indicators of a sequence of conditional choices (a martingale): Bernstein bound, false alarm < 1e-10
struct Tally { double s = 0, v = 0; long n = 0; void add(bool x, double p) { s += x - p; v += p * (1 - p); n++; } bool ok() const { return std::fabs(s) < 8 * std::sqrt(v) + 30; } double bound() const { return 8 * std::sqrt(v) + 30; } };
struct Audit { Tally stay, empty, best, biggest; double worst = 0; std::string what; };   // worst: largest -log probability of a choice made
// w: -log weight of each candidate (labels), e: -log weight of one empty group, me of them (-1 stands for them)
inline void audit_choice(Audit &A, const std::vector<std::pair<int, double>> &w, double e, int me, int old, int chosen, const std::map<int, int> &size, const std::string &who) {
  double mn = me > 0 ? e : 1e300; for (auto &x : w) mn = std::min(mn, x.second); double z = me > 0 ? me * std::exp(mn - e) : 0; for (auto &x : w) z += std::exp(mn - x.second);
  auto lp = [&](int t) -> double { if (t < 0) return me > 0 ? std::log((double)me) + mn - e - std::log(z) : -1e300; for (auto &x : w) if (x.first == t) return mn - x.second - std::log(z); return -1e300; };
  double l = -lp(chosen); if (l > A.worst) A.worst = l, A.what = who; int bt = -1; double bp = lp(-1); int big = -2, bs = 0; for (auto &x : w) { double q = lp(x.first); if (q > bp) bp = q, bt = x.first; auto it = size.find(x.first); if (it != size.end() && it->second > bs) bs = it->second, big = x.first; }
  A.best.add(chosen == bt, std::exp(bp)); A.empty.add(chosen == -1, std::exp(lp(-1))); if (old >= 0) A.stay.add(chosen == old, std::exp(lp(old))); if (big >= 0) A.biggest.add(chosen == big, std::exp(lp(big))); }
// the exact conditional distribution of every choice of a Gibbs sweep that led from a to c, nodes in order
inline void audit_sweep(const Post &P, const G &g, std::vector<int> a, const std::vector<int> &c, Audit &A) {
  int n = g.n; std::map<int, int> size; std::map<int, std::map<int, int>> L; for (int i = 0; i < n; i++) size[a[i]]++; for (int i = 0; i < n; i++) for (auto &e : g.a[i]) if (e.first > i) { L[a[i]][a[e.first]]++; if (a[i] != a[e.first]) L[a[e.first]][a[i]]++; }
  for (int i = 0; i < n; i++) {
    std::map<int, int> k; for (auto &e : g.a[i]) k[a[e.first]]++; int old = a[i];
    auto shift = [&](int t, int d) { size[t] += d; for (auto &x : k) { L[t][x.first] += d * x.second; if (x.first != t) L[x.first][t] += d * x.second; } if (!size[t]) { size.erase(t); } };
    shift(old, -1); int ng = size.size(); auto links = [&](int x, int y) { auto it = L.find(x); if (it == L.end()) return 0; auto jt = it->second.find(y); return jt == it->second.end() ? 0 : jt->second; }; auto to = [&](int x) { auto it = k.find(x); return it == k.end() ? 0 : it->second; };
    auto groupterm = [&](int m) { long double h = -lgammal(n - m + 1.0L); if (P.m != SPARSE) h += P.linC * m; if (P.m == AND || P.m == OR || P.m == OD) h -= log_degeneracy(m); return h; };
    std::vector<std::pair<int, double>> w; for (auto &x : size) { int t = x.first, s = x.second; long double h = P.pair((s + 1) * s / 2, links(t, t) + to(t)) - P.pair(s * (s - 1) / 2, links(t, t)); for (auto &y : size) if (y.first != t) h += P.pair((s + 1) * y.second, links(t, y.first) + to(y.first)) - P.pair(s * y.second, links(t, y.first)); w.push_back({t, (double)(h + groupterm(ng))}); }
    long double h = P.pair(0, 0); for (auto &y : size) h += P.pair(y.second, to(y.first)); double e = (double)(h + groupterm(ng + 1));
    bool isnew = !size.count(c[i]); audit_choice(A, w, e, n - ng, size.count(old) ? old : -2, isnew ? -1 : c[i], size, vf::fmt("node %d from group %d to %s", i, old, isnew ? "an empty group" : "another"));
    a[i] = c[i]; shift(c[i], 1); } }
// networks with hubs, where energies change by more than exp() can take
inline G star_like(Rng &r, int n) { G g; g.init(n); int h = r.in(1, 3); for (int q = 0; q < h; q++) { int c = r.in(0, n / 10); for (int i = 0; i < n; i++) if (i != c && r.p(q ? .5 : .9)) g.add(c, i, 1); } return g; }
inline void judge(const Audit &A, const std::string &who, const std::string &in) {
  vf::count("monitor.audited_choices", A.best.n); CHECK(A.worst < 60, "choice:" + who, "a choice of conditional probability exp(-%.0f) was made (%s) in %s", A.worst, A.what.c_str(), in.c_str());
  auto t = [&](const Tally &T, const char *w) { vf::count("oracle.choice_tests"); CHECK(T.ok(), "conditional:" + who, "%s: %ld choices exceed the expected number by %.1f, bound %.1f, in %s", w, T.n, T.s, T.bound(), in.c_str()); };
  t(A.stay, "stays"); t(A.empty, "new groups"); t(A.best, "most likely destinations"); t(A.biggest, "moves to the largest group"); }
// Joint draws of a partition (prior weight of k groups: exp(logw(k)) for each partition into k groups) for any number of nodes
inline std::vector<int> draw_partition(Rng &r, int n, const std::function<double(int)> &logw) {
  static std::vector<std::vector<long double>> S; while ((int)S.size() <= n) { int m = S.size(); std::vector<long double> v(m + 1, 0); if (!m) v[0] = 1; for (int k = 1; k <= m; k++) v[k] = S[m - 1][k - 1] + (k < m ? k * S[m - 1][k] : 0); S.push_back(v); }
  std::vector<double> w; double mx = -1e300; for (int k = 1; k <= n; k++) { w.push_back((double)logl(S[n][k]) + logw(k)); mx = std::max(mx, w.back()); } for (double &x : w) x = std::exp(x - mx);
  double z = 0; for (double x : w) z += x; double u = r.u() * z; int k = 1; while (k < n && u >= w[k - 1]) u -= w[k - 1], k++;
  std::vector<int> c(n), open(n); for (int i = n; i >= 1; i--) { if (k == i || r.u() < (double)(S[i - 1][k - 1] / S[i][k])) { open[i - 1] = 1; k--; } } int have = 0; for (int i = 0; i < n; i++) c[i] = open[i] ? have++ : r.in(0, have - 1);
  std::vector<int> p(n), o(n); std::iota(p.begin(), p.end(), 0); r.shuffle(p); for (int i = 0; i < n; i++) o[p[i]] = c[i]; return o; }
// paired differences of a statistic before and after sweeps started from the exact posterior: mean zero
struct Paired { std::string name; double s = 0, s2 = 0; long n = 0, moved = 0; void add(double d) { s += d; s2 += d * d; n++; moved += d != 0; } double z() const { double v = s2 - s * s / n; return moved < 200 || v <= 0 ? 0 : std::fabs(s) / std::sqrt(v); } };
inline std::vector<double> part_stats(const std::vector<int> &c) { std::map<int, int> s; for (int x : c) s[x]++; double q = 0, m = 0, one = 0; for (auto &x : s) q += x.second * x.second, m = std::max<double>(m, x.second), one += x.second == 1; int n = c.size(); return {(double)s.size(), m, q, one, (double)(c[0] == c[n - 1]), (double)(c[0] == c[1 % n])}; }
// random labels for the groups of a partition
inline std::vector<int> labelled(Rng &r, const std::vector<int> &c, int n) { std::vector<int> p(n); std::iota(p.begin(), p.end(), 0); r.shuffle(p); std::vector<int> o; for (int x : c) o.push_back(p[x]); return o; }
// chi-square p-value bound: statistic against its mean with Wilson-Hilferty z
inline double chi_z(double x, double df) { if (df < 1) return 0; return (std::pow(x / df, 1. / 3) - (1 - 2 / (9 * df))) / std::sqrt(2 / (9 * df)); }
struct Cdf { std::vector<double> c; Cdf(const std::vector<double> &w) { double s = 0; for (double x : w) c.push_back(s += x); } int draw(Rng &r) const { double u = r.u() * c.back(); return std::min<size_t>(std::lower_bound(c.begin(), c.end(), u) - c.begin(), c.size() - 1); } };
// counts against expected probabilities; returns z of the statistic, merging rare outcomes
inline double chi_test(const std::vector<long> &n, const std::vector<double> &w, long N, int &bins) {
  std::vector<int> o(w.size()); std::iota(o.begin(), o.end(), 0); std::sort(o.begin(), o.end(), [&](int a, int b) { return w[a] < w[b]; }); double x = 0, e = 0; long c = 0; bins = 0;
  for (size_t k = 0; k < o.size(); k++) { e += w[o[k]] * N; c += n[o[k]]; if (e >= 12) { double rest = 0; for (size_t j = k + 1; j < o.size() && rest < 12; j++) rest += w[o[j]] * N; if (rest < 12 && k + 1 < o.size()) continue; x += (c - e) * (c - e) / e; bins++; e = c = 0; } }
  if (e > 0 || c > 0) { if (e < 1e-9) { if (c) return 99; } else { x += (c - e) * (c - e) / e; bins++; } }
  return chi_z(x, bins - 1); }
}
