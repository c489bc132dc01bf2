// The code under test, plus the reference graph model every oracle is computed from.
#pragma once
#include "vf.hpp"
#include <stdbool.h>
#include <search.h>
#include <gsl/gsl_rng.h>
#include <gsl/gsl_math.h>
#include <gsl/gsl_eigen.h>
#include <gsl/gsl_sort_vector.h>
#include <gsl/gsl_vector.h>
#include <gsl/gsl_multiroots.h>
extern "C" {
#define new new_
#include "tools.h"
#include "graph.h"
#include "modules.h"
#include "bipartite.h"
#include "models.h"
#include "datastruct.h"
#ifdef RG_EXTRA
#include RG_EXTRA
#endif
#undef new
// allocator accounting of the sanitizer runtime (weak: absent in the plain build)
size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));
}
namespace rg {
using vf::Rng;
typedef struct node_gra NG;
typedef struct node_lis NL;
typedef struct group GR;

inline long live_bytes() { return __sanitizer_get_current_allocated_bytes ? (long)__sanitizer_get_current_allocated_bytes() : 0; }

// ------------------------------------------------------------------ reference graph (directed, weighted, labelled)
struct G {
  int n = 0;
  std::vector<std::string> lab;
  std::vector<std::map<int, double>> a;      // a[i][j] = weight of i->j
  void init(int N) { n = N; a.assign(N, {}); lab.resize(N); for (int i = 0; i < N; i++) lab[i] = "n" + std::to_string(i); }
  bool has(int i, int j) const { return a[i].count(j) > 0; }
  void add(int i, int j, double w = 1) { a[i][j] = w; a[j][i] = w; }
  void del(int i, int j) { a[i].erase(j); a[j].erase(i); }
  int deg(int i) const { return (int)a[i].size(); }
  double str(int i) const { double s = 0; for (auto &e : a[i]) s += e.second; return s; }
  int links() const { int c = 0; for (int i = 0; i < n; i++) for (auto &e : a[i]) if (e.first >= i) c++; return c; }   // undirected
  int arcs() const { int c = 0; for (int i = 0; i < n; i++) c += (int)a[i].size(); return c; }
  std::string text() const { std::string s = std::to_string(n) + ":"; char b[64];
    for (int i = 0; i < n; i++) for (auto &e : a[i]) { snprintf(b, sizeof b, " %d>%d*%g", i, e.first, e.second); s += b; } return s; }
};

inline std::string rand_label(Rng &r, int i, int style) {
  char b[80];
  switch (style) {
    case 0: snprintf(b, sizeof b, "n%d", i); return b;
    case 1: snprintf(b, sizeof b, "%d", i * 7 + 3); return b;
    case 2: { std::string s; int L = r.in(1, 12); for (int k = 0; k < L; k++) s += (char)r.in(33, 126); s += "_"; s += std::to_string(i); return s; }
    case 3: snprintf(b, sizeof b, "%c%c%d", 'A' + r.in(0, 25), 'a' + r.in(0, 25), i); return b;
    default: { std::string s(r.in(30, 80), 'a' + r.in(0, 25)); s += std::to_string(i); return s; }
  }
}
// shapes: 0 ER sparse,1 ER dense,2 tree,3 path,4 cycle,5 star,6 clique,7 disjoint cliques,8 two-level modular,9 with isolated nodes,
// 10 bipartite-ish (many equal paths), 11 grid, 12 random components of random kind
inline G shape(Rng &r, int kind, int n) {
  G g; g.init(n);
  auto er = [&](double p) { for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (r.p(p)) g.add(i, j); };
  switch (kind) {
    case 0: er(std::min(1.0, 2.0 / std::max(1, n))); break;
    case 1: er(0.5); break;
    case 2: for (int i = 1; i < n; i++) g.add(i, r.in(0, i - 1)); break;
    case 3: for (int i = 1; i < n; i++) g.add(i, i - 1); break;
    case 4: for (int i = 1; i < n; i++) g.add(i, i - 1); if (n > 2) g.add(0, n - 1); break;
    case 5: for (int i = 1; i < n; i++) g.add(0, i); break;
    case 6: er(1.0); break;
    case 7: { int c = r.in(2, 4); for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (i % c == j % c) g.add(i, j); break; }
    case 8: { int c = r.in(2, 4); for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (r.p(i % c == j % c ? 0.75 : 0.08)) g.add(i, j); break; }
    case 9: for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (i % 3 && j % 3 && r.p(0.4)) g.add(i, j); break;
    case 10: { int h = n / 2; for (int i = 0; i < h; i++) for (int j = h; j < n; j++) if (r.p(0.6)) g.add(i, j); break; }
    case 11: { int w = std::max(1, (int)std::sqrt((double)n)); for (int i = 0; i < n; i++) { if ((i + 1) % w && i + 1 < n) g.add(i, i + 1); if (i + w < n) g.add(i, i + w); } break; }
    default: { int i = 0; while (i < n) { int m = std::min(n - i, r.in(1, 6)); double q = r.u(); for (int x = 1; x < m; x++) { g.add(i + x, i + r.in(0, x - 1)); for (int y = 0; y < x; y++) if (r.p(q)) g.add(i + x, i + y); } i += m; } }
  }
  return g;
}
const int NSHAPES = 13;
// relabels the vertices at random so that index order carries no information
inline G permuted(Rng &r, const G &g) {
  std::vector<int> p(g.n); std::iota(p.begin(), p.end(), 0); r.shuffle(p);
  G h; h.init(g.n); for (int i = 0; i < g.n; i++) for (auto &e : g.a[i]) h.a[p[i]][p[e.first]] = e.second; return h;
}
inline void weights(Rng &r, G &g, int mode) {   // 0 unit, 1 small integers, 2 dyadic reals
  for (int i = 0; i < g.n; i++) for (auto &e : g.a[i]) if (e.first >= i || !g.has(e.first, i)) {
    double w = mode == 0 ? 1 : mode == 1 ? r.in(1, 5) : r.in(1, 64) / 16.0; e.second = w; if (g.has(e.first, i)) g.a[e.first][i] = w; }
}
inline G random_graph(Rng &r, int nmin, int nmax, int wmode = 0) {
  int n = r.in(nmax > 120 ? std::max(nmin, nmax * 3 / 4) : nmin, nmax); static const int sparse[] = {0, 2, 3, 4, 5, 8, 11, 12}; int kind = r.in(0, NSHAPES - 1); if (n > 120) { kind = sparse[kind % 8]; if (kind == 8 && n > 220) kind = 12; }
  G g = permuted(r, shape(r, kind, n)); weights(r, g, wmode);
  int st = r.in(0, 4); for (int i = 0; i < n; i++) g.lab[i] = rand_label(r, i, st); return g;
}
// builds the network through the API, links in random order
inline NG *build(Rng &r, const G &g) {
  NG *root = CreateHeaderGraph(), *last = root; std::vector<NG *> v;
  for (int i = 0; i < g.n; i++) { last = CreateNodeGraph(last, (char *)g.lab[i].c_str()); v.push_back(last); }
  std::vector<std::pair<int, int>> es; for (int i = 0; i < g.n; i++) for (auto &e : g.a[i]) es.push_back({i, e.first});
  r.shuffle(es);
  for (auto &e : es) AddAdjacency(v[e.first], v[e.second], 1, 0, g.a[e.first].at(e.second), 0);
  return root;
}
inline std::vector<NG *> nodes(NG *net) { std::vector<NG *> v; while ((net = net->next)) v.push_back(net); return v; }
inline int idx(const std::vector<NG *> &v, NG *x) { for (size_t i = 0; i < v.size(); i++) if (v[i] == x) return (int)i; return -1; }
// reads the network back into the model, checking structural sanity on the way
inline G extract(NG *net, const char *key, bool check_num = true) {
  G g; std::vector<NG *> v = nodes(net); g.init((int)v.size());
  std::map<NG *, int> ix; for (size_t i = 0; i < v.size(); i++) { ix[v[i]] = (int)i; g.lab[i] = v[i]->label ? v[i]->label : "?"; }
  for (size_t i = 0; i < v.size(); i++) {
    if (check_num) CHECK(v[i]->num == (int)i, key, "node %zu (%s) has number %d", i, v[i]->label, v[i]->num);
    for (NL *l = v[i]->neig->next; l; l = l->next) {
      auto it = ix.find(l->ref);
      if (it == ix.end()) { vf::viol(key, "link of %s refers to a node outside the network", v[i]->label); continue; }
      if (check_num) CHECK(l->node == l->ref->num, key, "link %s-%s stores node number %d, node has %d", v[i]->label, l->ref->label, l->node, l->ref->num);
      CHECK(l->nodeLabel && !strcmp(l->nodeLabel, l->ref->label), key, "link of %s stores label %s, node is %s", v[i]->label, l->nodeLabel ? l->nodeLabel : "(null)", l->ref->label);
      CHECK(!g.has((int)i, it->second), key, "duplicated link %s-%s", v[i]->label, l->ref->label);
      g.a[i][it->second] = l->weight;
    }
  }
  vf::count("monitor.networks_extracted");
  return g;
}
inline bool same(const G &x, const G &y, std::string &why, double tol = 0) {   // same node order, labels, links, weights
  if (x.n != y.n) { why = vf::fmt("%d nodes instead of %d", x.n, y.n); return false; }
  for (int i = 0; i < x.n; i++) {
    if (x.lab[i] != y.lab[i]) { why = "node " + std::to_string(i) + " is " + x.lab[i] + " instead of " + y.lab[i]; return false; }
    if (x.a[i].size() != y.a[i].size()) { why = vf::fmt("node %s has %zu links instead of %zu", x.lab[i].c_str(), x.a[i].size(), y.a[i].size()); return false; }
    for (auto &e : x.a[i]) { auto it = y.a[i].find(e.first);
      if (it == y.a[i].end()) { why = "unexpected link " + x.lab[i] + " " + x.lab[e.first]; return false; }
      if (std::fabs(it->second - e.second) > tol * (1 + std::fabs(e.second))) { why = vf::fmt("link %s %s has weight %.10g instead of %.10g", x.lab[i].c_str(), x.lab[e.first].c_str(), e.second, it->second); return false; } } }
  return true;
}
// same by label, any node order
inline std::map<std::string, std::map<std::string, double>> bylabel(const G &g) {
  std::map<std::string, std::map<std::string, double>> m; for (int i = 0; i < g.n; i++) { m[g.lab[i]]; for (auto &e : g.a[i]) m[g.lab[i]][g.lab[e.first]] = e.second; } return m; }
inline std::vector<int> bfs(const G &g, int s) {
  std::vector<int> d(g.n, -1), q{s}; d[s] = 0; for (size_t h = 0; h < q.size(); h++) for (auto &e : g.a[q[h]]) if (d[e.first] < 0) { d[e.first] = d[q[h]] + 1; q.push_back(e.first); } return d; }
inline std::vector<int> components(const G &g) {   // weak components, by union-find
  std::vector<int> f(g.n); std::iota(f.begin(), f.end(), 0);
  std::function<int(int)> find = [&](int x) { while (f[x] != x) x = f[x] = f[f[x]]; return x; };
  for (int i = 0; i < g.n; i++) for (auto &e : g.a[i]) { int x = find(i), y = find(e.first); if (x != y) f[x] = y; }
  std::vector<int> c(g.n); for (int i = 0; i < g.n; i++) c[i] = find(i); return c; }
// a generator that mixes ordinary draws with the extremes a real one can produce
struct Hostile { uint64_t s; double lo, hi; };
inline void h_set(void *st, unsigned long s) { *(Hostile *)st = {s * 2 + 1, .1, .1}; }
inline unsigned long h_get(void *st) { Hostile *h = (Hostile *)st; Rng r(h->s); double u = r.u(); unsigned long v = r.next() >> 32; h->s = r.s; return u < h->lo ? 0 : u < h->lo + h->hi ? 0xffffffffUL : v; }
inline double h_getd(void *st) { return h_get(st) / 4294967296.0; }
inline const gsl_rng_type *hostile_type() { static const gsl_rng_type t = {"hostile", 0xffffffffUL, 0, sizeof(Hostile), h_set, h_get, h_getd}; return &t; }
inline gsl_rng *hostile(unsigned long s, double lo, double hi) { gsl_rng *g = gsl_rng_alloc(hostile_type()); gsl_rng_set(g, s); ((Hostile *)g->state)->lo = lo; ((Hostile *)g->state)->hi = hi; return g; }
// ordinary generator, or (seeds of any_seed with this bit) a hostile one
const unsigned long HOSTILE = 1UL << 50;
inline gsl_rng *gen(unsigned long s) { if (s & HOSTILE) { s &= ~HOSTILE; vf::count("monitor.hostile_streams"); return hostile(s, (s % 5) * .04, (s / 5 % 5) * .04); } gsl_rng *g = gsl_rng_alloc(gsl_rng_mt19937); gsl_rng_set(g, s); return g; }
inline unsigned long any_seed(Rng &r) { unsigned long s = r.next() % 1000000; return r.p(.1) ? s | HOSTILE : s; }
// temporary file with the given content, rewound
inline FILE *tmpf(const std::string &s) { FILE *f = tmpfile(); if (!f) { perror("tmpfile"); _exit(3); } fwrite(s.data(), 1, s.size(), f); rewind(f); return f; }
inline std::string slurp(FILE *f) { std::string s; rewind(f); char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); return s; }
}  // namespace rg
using namespace rg;
