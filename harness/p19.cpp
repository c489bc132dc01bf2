// P19: projection of two-mode networks, network level and edge-list level.
#include "bip.hpp"
extern "C" {
#include "partition.h"
#include "fillpartitions.h"
}
using namespace std;
long n_cases(int tier) { return tier ? 200000 : 16000; }
void run_case(long k, Rng &r) {
  int wm = r.in(0, 2), mx = k % 1009 == 505 ? 410 : k % 37 == 0 ? 30 : 10; B b = random_bip(r, mx, mx, wm, r.p(.3)); vf::input(b.text(), b.n1 > 1 && b.links() > 1);
  vector<map<int, double>> cnt(b.n1), ww(b.n1); for (int i = 0; i < b.n1; i++) for (int j = 0; j < b.n1; j++) if (i != j) { int c = 0; double s = 0; for (auto &e : b.a[i]) { auto f = b.a[j].find(e.first); if (f != b.a[j].end()) { c++; s += e.second * f->second; } } if (c) { cnt[i][j] = c; ww[i][j] = s; } }
  struct binet *x = build(r, b); auto v1 = nodes(x->net1); string why;
  for (int t = 0; t < 6; t++) { int i = r.in(0, b.n1 - 1), j = r.in(0, b.n1 - 1); if (i == j) continue; double c = cnt[i].count(j) ? cnt[i][j] : 0, s = ww[i].count(j) ? ww[i][j] : 0; CHECK(NCommonLinksBipart(v1[i], v1[j]) == c, "common", "%d shared neighbours of %d,%d, expected %g", NCommonLinksBipart(v1[i], v1[j]), i, j, c); CHECK_NEAR(SumProductsOfCommonWeightsBipart(v1[i], v1[j]), s, 1e-12, "products", "sum of weight products"); }
  for (int side = 0; side < 2; side++) {
    G want; want.init(b.n1); want.lab = b.l1; want.a = cnt; G wantw = want; wantw.a = ww; vf::stage("project"); NG *p = ProjectBipart(x), *q = ProjectBipartWeighted(x); G y = extract(p, "project:structure"), z = extract(q, "projectw:structure"); if (!same(y, want, why)) vf::viol("project", "%s", why.c_str()); if (!same(z, wantw, why, 1e-12)) vf::viol("projectw", "%s", why.c_str()); vf::count("oracle.checks", 2); RemoveGraph(p); RemoveGraph(q);
    B back = extractB(x, "untouched"); if (!sameB(back, b, why)) vf::viol("untouched", "projection changed the two-mode network: %s", why.c_str()); vf::count("oracle.checks");
    if (side == 0) { InvertBipart(x); b = b.inverted(); cnt.assign(b.n1, {}); ww.assign(b.n1, {}); for (int i = 0; i < b.n1; i++) for (int j = 0; j < b.n1; j++) if (i != j) { int c = 0; double s = 0; for (auto &e : b.a[i]) { auto f = b.a[j].find(e.first); if (f != b.a[j].end()) { c++; s += e.second * f->second; } } if (c) { cnt[i][j] = c; ww[i][j] = s; } } }
  }
  RemoveBipart(x);
  // edge lists: nodes of the projected side must all appear, so drop those without links
  vector<int> id(b.n1, -1); int n = 0; for (int i = 0; i < b.n1; i++) if (!b.a[i].empty()) id[i] = n++; if (!n) return;
  vector<array<double, 3>> es; for (int i = 0; i < b.n1; i++) for (auto &e : b.a[i]) es.push_back({(double)id[i], (double)e.first, e.second}); r.shuffle(es); vector<unsigned> A, T; vector<double> W; for (auto &e : es) { A.push_back(e[0]); T.push_back(e[1]); W.push_back(e[2]); }
  double sm = 0, den = 0; for (int t = 0; t < b.n2; t++) { double s = b.str2(t); int d = b.deg2(t); if (d) { sm += s; den += s * (s - s / d); } }
  vf::stage("edgelist"); Partition *part = nullptr; AdjaArray *adj = nullptr; unsigned E = ProjectBipartEdgeList(A.data(), T.data(), W.data(), (int)A.size(), &part, &adj); unsigned want = 0; for (auto &m : ww) want += m.size(); want /= 2;
  CHECK(E == want && adj->E == want && adj->N == (unsigned)n && part->N == (unsigned)n && part->M == (unsigned)n, "edgelist:size", "%u projected links (array %u, %u nodes) instead of %u (%d nodes)", E, adj->E, adj->N, want, n);
  for (int i = 0; i < b.n1; i++) if (id[i] >= 0) { CHECK_NEAR(part->nodes[id[i]]->strength, b.str1(i) / sm, 1e-11, "edgelist:strength", "node strength"); map<int, double> got; for (unsigned j = adj->idx[id[i]]; j < adj->idx[id[i] + 1]; j++) { CHECK(!got.count(adj->neighbors[j]), "edgelist:repeated", "neighbour %u listed twice", adj->neighbors[j]); got[adj->neighbors[j]] = adj->strength[j]; }
      CHECK(got.size() == ww[i].size(), "edgelist:links", "node %d has %zu projected neighbours instead of %zu", id[i], got.size(), ww[i].size()); for (auto &e : ww[i]) { auto f = got.find(id[e.first]); if (f == got.end()) { vf::viol("edgelist:links", "projected link %d-%d missing", id[i], id[e.first]); continue; } CHECK_NEAR(f->second, e.second / den, 1e-11, "edgelist:weight", "projected link weight"); } }
  FreePartition(part); FreeAdjaArray(adj); vf::count("monitor.projected_links", want);
}
