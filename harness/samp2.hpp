// Samplers over ratings between two sets of nodes (2 or K values), and over K-valued links within one set.
#pragma once
#include "samp.hpp"
#include "bip.hpp"
extern "C" {
#include "recommend.h"
#include "conflict.h"
// memberships at the end of a run, seen when the driver frees its partitions
static std::vector<std::map<std::string, int>> vf_parts;
#ifdef VF_WRAP_PARTITION
void __real_RemovePartition(struct group *);
void __wrap_RemovePartition(struct group *p) {
  std::map<std::string, int> m; for (struct group *g = p->next; g; g = g->next) for (struct node_lis *l = g->nodeList->next; l; l = l->next) m[l->ref->label] = g->label;
  vf_parts.push_back(m); __real_RemovePartition(p); }
#endif
}
namespace rg {
inline long double lnf(int n) { return lgammal(n + 1.0L); }
// minus log of the marginal likelihood of one pair of groups with counts c, up to a constant per pair
inline long double kpair(const std::vector<int> &c) { int n = 0; long double h = 0; for (int x : c) { n += x; h -= lnf(x); } int K = c.size(); return h + lnf(n + K - 1) - lnf(K - 1); }
inline double kest(const std::vector<int> &c, int k) { int n = 0; for (int x : c) n += x; return (c[k] + 1.0) / (n + (int)c.size()); }
// two-mode ratings, values 0..K-1
struct Rat { int K; B b;
  std::string text() const { return vf::fmt("K=%d ", K) + b.text(); }
  // counts of each value for each pair of groups
  std::map<std::pair<int, int>, std::vector<int>> counts(const std::vector<int> &c1, const std::vector<int> &c2) const { std::map<std::pair<int, int>, std::vector<int>> m;
    for (int x : std::set<int>(c1.begin(), c1.end())) for (int y : std::set<int>(c2.begin(), c2.end())) m[{x, y}].assign(K, 0); for (int i = 0; i < b.n1; i++) for (auto &e : b.a[i]) m[{c1[i], c2[e.first]}][(int)e.second]++; return m; }
  long double H(const std::vector<int> &c1, const std::vector<int> &c2) const { long double h = 0; for (auto &e : counts(c1, c2)) h += kpair(e.second); return h; }
  long double HL(const std::vector<int> &c1, const std::vector<int> &c2) const { return H(c1, c2) - lnf(b.n1 - (int)std::set<int>(c1.begin(), c1.end()).size()) - lnf(b.n2 - (int)std::set<int>(c2.begin(), c2.end()).size()); }
  double est(const std::vector<int> &c1, const std::vector<int> &c2, int i, int t, int k) const { std::vector<int> c(K, 0); for (int x = 0; x < b.n1; x++) if (c1[x] == c1[i]) for (auto &e : b.a[x]) if (c2[e.first] == c2[t]) c[(int)e.second]++; return kest(c, k); }
};
inline Rat random_ratings(Rng &r, int K, int max1, int max2) { Rat x; x.K = K; x.b = random_bip(r, max1, max2, 0); int kind = r.in(0, 2); for (int i = 0; i < x.b.n1; i++) for (auto &e : x.b.a[i]) e.second = kind == 0 ? r.in(0, K - 1) : kind == 1 ? (i + e.first) % K : (r.p(.8) ? (i % 2) * (K - 1) : r.in(0, K - 1)); return x; }
// one-mode K-valued links
struct LRat { int K; G g;
  std::string text() const { return vf::fmt("K=%d ", K) + g.text(); }
  std::map<std::pair<int, int>, std::vector<int>> counts(const std::vector<int> &c) const { std::map<std::pair<int, int>, std::vector<int>> m; std::set<int> s(c.begin(), c.end()); for (int x : s) for (int y : s) if (x <= y) m[{x, y}].assign(K, 0);
    for (int i = 0; i < g.n; i++) for (auto &e : g.a[i]) if (e.first > i) m[{std::min(c[i], c[e.first]), std::max(c[i], c[e.first])}][(int)e.second]++; return m; }
  long double H(const std::vector<int> &c) const { long double h = 0; for (auto &e : counts(c)) h += kpair(e.second); return h; }
  long double HL(const std::vector<int> &c) const { return H(c) - lnf(g.n - (int)std::set<int>(c.begin(), c.end()).size()); }
  double est(const std::vector<int> &c, int i, int j, int k) const { return kest(counts(c)[{std::min(c[i], c[j]), std::max(c[i], c[j])}], k); }
};
inline LRat random_lrat(Rng &r, int K, int nmin, int nmax) { LRat x; x.K = K; x.g = random_graph(r, nmin, nmax); int kind = r.in(0, 2); for (int i = 0; i < x.g.n; i++) for (auto &e : x.g.a[i]) if (e.first > i) { double w = kind == 0 ? r.in(0, K - 1) : kind == 1 ? (i + e.first) % K : (r.p(.8) ? (i % 2) * (K - 1) : r.in(0, K - 1)); e.second = w; x.g.a[e.first][i] = w; } return x; }
inline struct binet *build(Rng &r, const Rat &x) { return build(r, x.b); }

enum { TWO, KMC, KGIBBS, LSK };
inline const char *sname[] = {"two", "kmc", "kgibbs", "lsk"};
struct Lists { double *L, *F, **C; int LS, FS, CS; Lists(int ls, int fs, int cs) : LS(ls), FS(fs), CS(cs) { L = InitializeFastLog(ls); F = InitializeFastLogFact(fs); C = InitializeFastLogChoose(cs); } void done() { FreeFastLog(L); FreeFastLogFact(F); FreeFastLogChoose(C, CS); } };
// state of the two-mode samplers
struct BiState {
  int mode, K, n1, n2; struct binet *net; std::vector<NG *> v1, v2; std::vector<GR *> g1, g2; GR *p1, *p2; int ng1, ng2; double H = 0; Lists T; bool first = true;
  std::vector<int **> N1, N2, X1, X2;   // node-to-group and group-to-group, by value
  BiState(struct binet *net, int mode, int K, Lists T) : mode(mode), K(K), net(net), T(T) {
    v1 = nodes(net->net1); v2 = nodes(net->net2); n1 = v1.size(); n2 = v2.size(); GR *l = p1 = CreateHeaderGroup(); for (int i = 0; i < n1; i++) g1.push_back(l = CreateGroup(l, i)); l = p2 = CreateHeaderGroup(); for (int i = 0; i < n2; i++) g2.push_back(l = CreateGroup(l, i));
    ResetNetGroup(net->net1); ResetNetGroup(net->net2);
    for (int k = 0; k < K; k++) { N1.push_back(allocate_i_mat(n1, n2)); N2.push_back(allocate_i_mat(n2, n1)); X1.push_back(allocate_i_mat(n1, n2)); X2.push_back(allocate_i_mat(n2, n1)); } }
  void counts(std::vector<std::vector<std::vector<int>>> &a, std::vector<std::vector<std::vector<int>>> &b, std::vector<std::vector<std::vector<int>>> &x, const std::vector<int> &c1, const std::vector<int> &c2) const {
    auto z = [&](int p, int q) { return std::vector<std::vector<std::vector<int>>>(K, std::vector<std::vector<int>>(p, std::vector<int>(q, 0))); }; a = z(n1, n2); b = z(n2, n1); x = z(n1, n2);
    for (int i = 0; i < n1; i++) for (NL *l = v1[i]->neig->next; l; l = l->next) { int k = (int)l->weight, t = l->ref->num; a[k][i][c2[t]]++; b[k][t][c1[i]]++; x[k][c1[i]][c2[t]]++; } }
  void set(const std::vector<int> &c1, const std::vector<int> &c2) {
    auto put = [&](std::vector<NG *> &v, std::vector<GR *> &g, const std::vector<int> &c) { for (size_t i = 0; i < v.size(); i++) { if (first) AddNodeToGroup(g[c[i]], v[i]); else if (v[i]->inGroup != c[i]) MoveNode(v[i], g[v[i]->inGroup], g[c[i]]); } };
    put(v1, g1, c1); put(v2, g2, c2); first = false; std::vector<std::vector<std::vector<int>>> a, b, x; counts(a, b, x, c1, c2);
    for (int k = 0; k < K; k++) for (int i = 0; i < n1; i++) for (int j = 0; j < n2; j++) { N1[k][i][j] = a[k][i][j]; N2[k][j][i] = b[k][j][i]; X1[k][i][j] = X2[k][j][i] = x[k][i][j]; }
    ng1 = std::set<int>(c1.begin(), c1.end()).size(); ng2 = std::set<int>(c2.begin(), c2.end()).size(); H = 0; }
  std::vector<int> lab1() const { std::vector<int> v; for (auto *x : v1) v.push_back(x->inGroup); return v; }
  std::vector<int> lab2() const { std::vector<int> v; for (auto *x : v2) v.push_back(x->inGroup); return v; }
  void step(int factor, gsl_rng *g) {
    if (mode == TWO) MCStep2State(factor, &H, v1.data(), v2.data(), g1.data(), g2.data(), p1, p2, n1, n2, &ng1, &ng2, N1[0], N2[0], N1[1], N2[1], X1[0], X2[0], X1[1], X2[1], T.L, T.LS, T.C, T.CS, T.F, T.FS, g);
    else if (mode == KMC) MCStepKState(K, factor, &H, v1.data(), v2.data(), g1.data(), g2.data(), p1, p2, n1, n2, &ng1, &ng2, N1.data(), N2.data(), X1.data(), X2.data(), T.L, T.LS, T.F, T.FS, g);
    else GibbsStepKState(K, &H, v1.data(), v2.data(), g1.data(), g2.data(), p1, p2, n1, n2, &ng1, &ng2, N1.data(), N2.data(), X1.data(), X2.data(), T.L, T.LS, T.F, T.FS, g); }
  double libH() const { return mode == TWO ? H2State(p1, p2) : HKState(K, p1, p2); }
  void free_all() { RemovePartition(p1); RemovePartition(p2); for (int k = 0; k < K; k++) { free_i_mat(N1[k], n1); free_i_mat(N2[k], n2); free_i_mat(X1[k], n1); free_i_mat(X2[k], n2); } }
};
// state of the one-mode K-valued sampler
struct LState {
  int K, n; NG *net; std::vector<NG *> v; std::vector<GR *> g; GR *p; int ng; double H = 0; Lists T; bool first = true; int ***N2G, ***G2G;
  LState(NG *net, int K, Lists T) : K(K), net(net), T(T) { v = nodes(net); n = v.size(); GR *l = p = CreateHeaderGroup(); for (int i = 0; i < n; i++) g.push_back(l = CreateGroup(l, i)); ResetNetGroup(net); N2G = (int ***)malloc(K * sizeof(int **)); G2G = (int ***)malloc(K * sizeof(int **)); for (int k = 0; k < K; k++) { N2G[k] = allocate_i_mat(n, n); G2G[k] = allocate_i_mat(n, n); } }
  void counts(std::vector<std::vector<std::vector<int>>> &a, std::vector<std::vector<std::vector<int>>> &x, const std::vector<int> &c) const { a.assign(K, std::vector<std::vector<int>>(n, std::vector<int>(n, 0))); x = a;
    for (int i = 0; i < n; i++) for (NL *l = v[i]->neig->next; l; l = l->next) { int k = (int)l->weight, t = l->ref->num; a[k][i][c[t]]++; if (c[i] != c[t] || i < t) x[k][c[i]][c[t]]++; } }
  void set(const std::vector<int> &c) { for (int i = 0; i < n; i++) { if (first) AddNodeToGroup(g[c[i]], v[i]); else if (v[i]->inGroup != c[i]) MoveNode(v[i], g[v[i]->inGroup], g[c[i]]); } first = false; std::vector<std::vector<std::vector<int>>> a, x; counts(a, x, c);
    for (int k = 0; k < K; k++) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { N2G[k][i][j] = a[k][i][j]; G2G[k][i][j] = x[k][i][j]; } ng = std::set<int>(c.begin(), c.end()).size(); H = 0; }
  std::vector<int> labels() const { std::vector<int> o; for (auto *x : v) o.push_back(x->inGroup); return o; }
  void step(int factor, gsl_rng *r) { LSMCStepKState(K, factor, &H, v.data(), g.data(), p, n, &ng, &N2G, &G2G, T.L, T.LS, T.F, T.FS, r); }
  double libH() const { return LSHKState(K, p); }
  void free_all() { RemovePartition(p); for (int k = 0; k < K; k++) { free_i_mat(N2G[k], n); free_i_mat(G2G[k], n); } free(N2G); free(G2G); }
};
// as audit_sweep, for the Gibbs sampler over ratings: users in order, then items
inline void audit_sweep(const Rat &R, std::vector<int> a1, std::vector<int> a2, const std::vector<int> &c1, const std::vector<int> &c2, Audit &A) {
  const B &b = R.b; std::vector<std::vector<std::pair<int, int>>> back(b.n2); for (int i = 0; i < b.n1; i++) for (auto &e : b.a[i]) back[e.first].push_back({i, (int)e.second});
  for (int side = 0; side < 2; side++) { std::vector<int> &own = side ? a2 : a1, &oth = side ? a1 : a2; const std::vector<int> &end = side ? c2 : c1; int n = own.size();
    std::set<int> others(oth.begin(), oth.end()); std::map<int, int> size; for (int x : own) size[x]++; std::map<int, std::map<int, std::vector<int>>> X; auto cell = [&](int t, int o) -> std::vector<int> & { auto &v = X[t][o]; if (v.empty()) v.assign(R.K, 0); return v; };
    auto rat = [&](int i) { std::vector<std::pair<int, int>> v; if (side) v = back[i]; else for (auto &e : b.a[i]) v.push_back({e.first, (int)e.second}); return v; };
    for (int i = 0; i < n; i++) for (auto &e : rat(i)) cell(own[i], oth[e.first])[e.second]++;
    for (int i = 0; i < n; i++) { auto mine = rat(i); std::map<int, std::vector<int>> k; for (auto &e : mine) { auto &v = k[oth[e.first]]; if (v.empty()) v.assign(R.K, 0); v[e.second]++; } int old = own[i];
      size[old]--; for (auto &x : k) for (int q = 0; q < R.K; q++) cell(old, x.first)[q] -= x.second[q]; if (!size[old]) { size.erase(old); X.erase(old); } int ng = size.size();
      auto add = [&](int t) { long double h = 0; for (auto &x : k) { std::vector<int> z = t < 0 ? std::vector<int>(R.K, 0) : cell(t, x.first), y = z; for (int q = 0; q < R.K; q++) y[q] += x.second[q]; h += kpair(y) - kpair(z); } return h; };   // a pair of groups without ratings adds nothing
      std::vector<std::pair<int, double>> w; for (auto &x : size) w.push_back({x.first, (double)(add(x.first) - lnf(n - ng))}); double e = (double)(add(-1) - lnf(n - ng - 1)); bool isnew = !size.count(end[i]);
      audit_choice(A, w, ng < n ? e : 0, n - ng, size.count(old) ? old : -2, isnew ? -1 : end[i], size, vf::fmt("%s %d from group %d to %s", side ? "item" : "user", i, old, isnew ? "an empty group" : "another"));
      own[i] = end[i]; size[end[i]]++; for (auto &x : k) for (int q = 0; q < R.K; q++) cell(end[i], x.first)[q] += x.second[q]; } } }
}
