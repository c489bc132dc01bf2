// array-based partitions: building them through the API, structural monitor, exact modularity
#pragma once
#include "rg.hpp"
extern "C" {
#include "partition.h"
#include "movements.h"
#include "fillpartitions.h"
#include "sannealing.h"
}
namespace rg {
struct PA { Partition *p = nullptr; AdjaArray *a = nullptr; std::vector<double> k; };   // k: expected node strengths
// normalised strengths of a one-mode network
inline std::vector<double> strengths(const G &g, bool norm = true) { double W = 0; std::vector<double> k(g.n); for (int i = 0; i < g.n; i++) { k[i] = g.str(i); W += k[i]; } if (norm) for (auto &x : k) x /= W; return k; }
inline PA load(Rng &r, const G &g, int M, bool norm = true) {
  std::vector<std::array<int, 2>> e; for (int i = 0; i < g.n; i++) for (auto &x : g.a[i]) if (x.first > i) { if (r.p(.5)) e.push_back({i, x.first}); else e.push_back({x.first, i}); } r.shuffle(e);
  std::vector<int> a(e.size() + 1), b(e.size() + 1); std::vector<double> w(e.size() + 1); for (size_t i = 0; i < e.size(); i++) { a[i] = e[i][0]; b[i] = e[i][1]; w[i] = g.a[a[i]].at(b[i]); }
  PA x; x.p = CreatePartition(g.n, M); x.a = CreateAdjaArray(g.n, e.size()); EdgeListToAdjaArray(a.data(), b.data(), w.data(), x.a, x.p, norm); x.k = strengths(g, norm); return x;
}
inline void drop(PA &x) { FreeAdjaArray(x.a); FreePartition(x.p); x.p = nullptr; }
// the adjacency array holds exactly the links of g, scaled
inline void check_adj(const PA &x, const G &g, double scale, const char *key) {
  CHECK(x.a->N == (unsigned)g.n && x.a->E == (unsigned)g.links(), key, "adjacency of %u nodes and %u links instead of %d, %d", x.a->N, x.a->E, g.n, g.links());
  for (int i = 0; i < g.n; i++) { std::map<int, double> got; for (unsigned j = x.a->idx[i]; j < x.a->idx[i + 1]; j++) { CHECK(!got.count(x.a->neighbors[j]), key, "neighbour %u of %d listed twice", x.a->neighbors[j], i); got[x.a->neighbors[j]] = x.a->strength[j]; }
    bool ok = got.size() == g.a[i].size(); for (auto &e : g.a[i]) ok &= got.count(e.first) && vf::close(got[e.first], e.second * scale, 1e-12); CHECK(ok, key, "neighbours of node %d: %zu instead of %zu, or wrong strength", i, got.size(), g.a[i].size());
    CHECK(vf::close(x.p->nodes[i]->strength, x.k[i], 1e-12), key, "strength of node %d is %.12g, expected %.12g", i, x.p->nodes[i]->strength, x.k[i]); }
}
// every structural invariant; returns node->module
inline std::vector<int> wf(Partition *p, const std::vector<double> &k, const char *key, const char *after) {
  int N = (int)p->N, M = (int)p->M; std::vector<int> m(N, -1); unsigned empty = 0; vf::count("monitor.partition_states");
  for (int j = 0; j < M; j++) { Module *g = p->modules[j]; CHECK((int)g->id == j, key, "after %s: module %d has id %u", after, j, g->id); double s = 0, big = 0; unsigned c = 0; Node *prev = nullptr;
    for (Node *n = g->first; n; prev = n, n = n->next) { CHECK(n->prev == prev, key, "after %s: back link of node %u wrong in module %d", after, n->id, j); if (n->id >= (unsigned)N || p->nodes[n->id] != n) { vf::viol(key, "after %s: module %d lists an alien node", after, j); break; } if (m[n->id] != -1) { vf::viol(key, "after %s: node %u is listed in modules %d and %d", after, n->id, m[n->id], j); break; } m[n->id] = j; CHECK((int)n->module == j, key, "after %s: node %u of module %d says it is in %u", after, n->id, j, n->module); s += k[n->id]; big = std::max(big, k[n->id]); c++; }
    CHECK(g->last == prev, key, "after %s: last node of module %d wrong", after, j); CHECK(g->size == c, key, "after %s: module %d has size %u, recount %u", after, j, g->size, c); CHECK(std::fabs(g->strength - s) < 1e-9 * (1 + s), key, "after %s: module %d has strength %.12g, recount %.12g", after, j, g->strength, s); if (!c) empty++; }
  for (int i = 0; i < N; i++) { CHECK(m[i] >= 0, key, "after %s: node %d is in no module", after, i); CHECK((int)p->nodes[i]->id == i, key, "after %s: node %d has id %u", after, i, p->nodes[i]->id); CHECK(vf::close(p->nodes[i]->strength, k[i], 1e-12), key, "after %s: strength of node %d changed", after, i); }
  CHECK(p->nempty == empty, key, "after %s: %u empty modules recorded, recount %u", after, p->nempty, empty); return m;
}
// Q = sum over ordered pairs of distinct nodes in the same module of (A_ij - k_i k_j); diag: also -k_i^2
inline double exactQ(const G &g, double scale, const std::vector<double> &k, const std::vector<int> &m, bool diag) {
  double q = 0; for (int i = 0; i < g.n; i++) for (int j = 0; j < g.n; j++) if (m[i] == m[j] && (i != j || diag)) q += (i != j && g.has(i, j) ? g.a[i].at(j) * scale : 0) - k[i] * k[j]; return q; }
inline double total(const G &g) { double W = 0; for (int i = 0; i < g.n; i++) W += g.str(i); return W; }
inline std::string canon(const std::vector<int> &m) { std::map<int, int> id; std::string s; for (int x : m) { if (!id.count(x)) { int k = (int)id.size(); id[x] = k; } s += std::to_string(id[x]) + ","; } return s; }
}
