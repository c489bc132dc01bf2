// P06: local structure measures equal their definition on the adjacency relation.
#include "rg.hpp"
using namespace std;
long n_cases(int tier) { return tier ? 100000 : 16000; }
// networks with hubs: products of degrees leave the range of int
static NG *quick_net(int n, const vector<pair<int, int>> &es, vector<vector<int>> &a) {
  NG *net = CreateHeaderGraph(), *l = net; vector<NG *> v; vector<NL *> t; char lab[32]; for (int i = 0; i < n; i++) { snprintf(lab, sizeof lab, "n%d", i); v.push_back(l = CreateNodeGraph(l, lab)); t.push_back(l->neig); } a.assign(n, {});
  auto half = [&](int i, int j) { NL *x = t[i]->next = (NL *)calloc(1, sizeof(NL)); t[i] = x; x->node = v[j]->num; x->nodeLabel = (char *)calloc(MAX_LABEL_LENGTH, 1); strcpy(x->nodeLabel, v[j]->label); x->ref = v[j]; x->weight = 1; a[i].push_back(j); };
  for (auto &e : es) { half(e.first, e.second); half(e.second, e.first); } return net;
}
static void large(Rng &r, bool huge) {
  int h = huge ? r.in(46400, 50000) : r.in(1400, 1600), n = 1 + h; vector<pair<int, int>> es; for (int i = 1; i <= h; i++) es.push_back({0, i}); for (int i = 1; i < h; i += 2) if (r.p(.3)) es.push_back({i, i + 1}); if (!huge) for (int i = 1; i <= h; i++) { es.push_back({i, n++}); if (i > 1 && r.p(.3)) es.push_back({i - 1, n - 1}); }
  int h2 = 0; if (huge && r.p(.5)) { h2 = n++; es.push_back({0, h2}); for (int i = 1; i <= h; i++) es.push_back({i, h2}); }   // a second hub with the same neighbours
  vector<vector<int>> a; NG *net = quick_net(n, es, a); vf::input(vf::fmt("hub with %d leaves, %d nodes, %zu links", h, n, es.size()), true); vf::stage("hub"); long double M = 0, jk = 0, jp = 0, j2 = 0, k2 = 0, P = 0; for (int i = 0; i < n; i++) { long double d = a[i].size(); k2 += d * d; P += d * (d - 1); for (int j : a[i]) { long double e = a[j].size(); M++; jk += d * e; jp += d + e; j2 += d * d + e * e; } }
  long double mu = jp / (2 * M), want = (jk / M - mu * mu) / (j2 / (2 * M) - mu * mu); double got = Assortativity(net); CHECK(fabs(got - (double)want) < 1e-9, "assortativity:hub", "assortativity %.12g of a network with a hub of degree %d, expected %.12g", got, h, (double)want); got = AverageSquaredDegree(net); CHECK(fabs(got - (double)(k2 / n)) < 1e-9 * got, "degree2:hub", "average squared degree %.12g, expected %.12g", got, (double)(k2 / n)); vf::count("monitor.hubs");
  if (huge) { vf::stage("hub-one"); long c = 0; vector<int> leaf; for (auto &e : es) if (e.first) { c++; leaf.push_back(e.first); } double nh = h + (h2 > 0), w = 2. * c / (nh * (nh - 1)); auto v = nodes(net); got = OneNodeClusteringCoefficient(v[0], net); CHECK(fabs(got - w) <= 1e-9 * w, "one:hub", "clustering %.12g of a hub of degree %d, expected %.12g", got, h, w); if (h2) { long cn = CommonNeighbors(v[0], v[h2]); CHECK(cn == h, "common:hub", "%ld common neighbours of two hubs, expected %d", cn, h); } if (c && !h2) { got = OneNodeClusteringCoefficient(v[leaf[0]], net); CHECK(fabs(got - 1) < 1e-9 || a[leaf[0]].size() > 2, "one:hub", "clustering %g of a leaf in a triangle", got); } }
  if (!huge || (vf::tier_ && r.p(.3))) { vf::stage("hub-clustering"); set<pair<int, int>> E; for (auto &e : es) E.insert(e), E.insert({e.second, e.first}); long tr = 0; for (auto &e : es) { int x = e.first, y = e.second; if (a[x].size() > a[y].size()) swap(x, y); for (int z : a[x]) tr += E.count({z, y}); } got = ClusteringCoefficient2(net); CHECK(fabs(got - (double)(2 * tr / P)) < 1e-12, "clustering2:hub", "transitivity %.12g, expected %.12g", got, (double)(2 * tr / P)); }
  if (!huge) { vf::stage("hub-square"); double C = 0; long c = 0; auto v = nodes(net); vector<int> dist(n), paths(n); for (int i = 0; i < n; i++) { vector<int> two; for (int j : a[i]) dist[j] = 1; dist[i] = 3; for (int j : a[i]) for (int l : a[j]) if (!dist[l]) { if (!paths[l]++) two.push_back(l); } double k1 = a[i].size(), z = 0; for (int l : two) z += (double)paths[l] * (paths[l] - 1), paths[l] = 0; if (!two.empty() && k1 > 1) { C += z / (two.size() * k1 * (k1 - 1)); c++; } for (int j : a[i]) dist[j] = 0; dist[i] = 0; }
    fflush(stdout); int so = dup(1); FILE *cap = tmpfile(); dup2(fileno(cap), 1); got = SquareClustering(net); fflush(stdout); dup2(so, 1); close(so); fclose(cap); CHECK(fabs(got - C / c) < 1e-12, "square:hub", "square clustering %.12g, expected %.12g", got, C / c); }
  RemoveGraph(net);
}
void run_case(long k, Rng &r) {
  if (k % 8000 == 3333) { large(r, k % 16000 == 3333); return; }
  G g = random_graph(r, 1, k % 313 == 105 ? 400 : k % 37 == 0 ? 120 : 14, r.in(0, 2)); int n = g.n; vf::input(g.text(), n >= 3 && g.links() > 1);
  NG *net = build(r, g); auto v = nodes(net);
  vector<vector<char>> A(n, vector<char>(n, 0)); for (int i = 0; i < n; i++) for (auto &e : g.a[i]) A[i][e.first] = 1;
  vector<long> deg(n, 0), tri(n, 0); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) deg[i] += A[i][j];
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (A[i][j]) for (int l = 0; l < n; l++) if (l != j && A[i][l] && A[j][l]) tri[i]++;     // 2 x triangles of i
  double C = 0; long nc = 0, T = 0, P = 0, M = 0; for (int i = 0; i < n; i++) { M += deg[i]; T += tri[i]; P += deg[i] * (deg[i] - 1); if (deg[i] >= 2) { C += (double)tri[i] / (deg[i] * (deg[i] - 1)); nc++; } }
  for (int i = 0; i < n; i++) { vf::stage("one"); CHECK_NEAR(OneNodeClusteringCoefficient(v[i], net), deg[i] < 2 ? -1.0 : (double)tri[i] / (deg[i] * (deg[i] - 1)), 1e-12, "clustering:node", "clustering of " + g.lab[i]); }
  vf::stage("global"); double c1 = ClusteringCoefficient(net), c2 = ClusteringCoefficient2(net);
  if (nc) CHECK_NEAR(c1, C / nc, 1e-10, "clustering:average", "clustering coefficient"); if (P) CHECK_NEAR(c2, (double)T / P, 1e-12, "clustering:triangles", "triangle clustering coefficient");
  { // squares: pairs of neighbours shared by the nodes at distance two
    double S = 0; long ns = 0; vf::stage("square");
    for (int i = 0; i < n; i++) {
      long cv = 0, k2n = 0; for (int z = 0; z < n; z++) if (z != i && !A[i][z]) { long np = 0; for (int l = 0; l < n; l++) np += A[i][l] && A[l][z]; if (np) { k2n++; cv += np * (np - 1); } }
      double expect = deg[i] == 0 ? -1 : k2n == 0 ? -3 : deg[i] == 1 ? -2 : (double)cv / ((double)k2n * deg[i] * (deg[i] - 1));
      if (expect >= 0) { S += expect; ns++; }
      double got = OneNodeSquareClustering(v[i], net);
      if (expect >= 0) CHECK_NEAR(got, expect, 1e-12, "square:node", "square clustering of " + g.lab[i]); else CHECK(got < 0, "square:code", "square clustering of a node without a value is %g", got);
    }
    if (n > 1 && ns) CHECK_NEAR(SquareClustering(net), S / ns, 1e-10, "square:average", "square clustering coefficient"); else SquareClustering(net);
  }
    double sjk = 0, sj = 0, sj2 = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (A[i][j]) { sjk += deg[i] * deg[j]; sj += .5 * (deg[i] + deg[j]); sj2 += .5 * (deg[i] * deg[i] + deg[j] * deg[j]); }
  vf::stage("assortativity"); double as = Assortativity(net); if (M) { double den = sj2 / M - (sj / M) * (sj / M); if (den > 1e-9) { CHECK_NEAR(as, (sjk / M - (sj / M) * (sj / M)) / den, 1e-7, "assortativity", "assortativity"); CHECK(as <= 1 + 1e-9 && as >= -1 - 1e-9, "assortativity:range", "assortativity %g", as); } }
  double k2 = 0; for (int i = 0; i < n; i++) { k2 += deg[i] * deg[i]; if (deg[i]) { double s = 0; for (int j = 0; j < n; j++) if (A[i][j]) s += deg[j]; vf::stage("knn"); CHECK_NEAR(CalculateKnn(v[i]), s / deg[i], 1e-12, "knn", "average neighbour degree of " + g.lab[i]); } }
  vf::stage("moments"); CHECK_NEAR(AverageSquaredDegree(net), k2 / n, 1e-12, "moments", "average squared degree"); CHECK_NEAR(AverageDegree(net, 1), (double)M / n, 1e-12, "moments", "average degree");
  for (int t = 0; t < 30; t++) {
    int i = r.in(0, n - 1), j = r.in(0, n - 1); if (i == j) continue; long com = 0, uni = 0; for (int l = 0; l < n; l++) { com += A[i][l] && A[j][l]; if (l != i && l != j) uni += A[i][l] || A[j][l]; }
    vf::count("pairs.checked"); vf::stage("pairs");
    CHECK(CommonNeighbors(v[i], v[j]) == com, "common", "common neighbours of %d,%d: %d expected %ld", i, j, CommonNeighbors(v[i], v[j]), com);
    double jac = JaccardIndex(v[i], v[j]); CHECK_NEAR(jac, uni ? (double)com / uni : 0.0, 1e-12, "jaccard", vf::fmt("Jaccard index of %d,%d", i, j)); CHECK_NEAR(JaccardIndex(v[j], v[i]), jac, 1e-12, "jaccard:symmetric", "Jaccard index in the other order");
    if (min(deg[i], deg[j]) > 0) { double to = TopologicalOverlap(v[i], v[j]); CHECK_NEAR(to, (double)(com + A[i][j]) / min(deg[i], deg[j]), 1e-12, "overlap", vf::fmt("topological overlap of %d,%d", i, j)); CHECK_NEAR(TopologicalOverlap(v[j], v[i]), to, 1e-12, "overlap:symmetric", "overlap in the other order"); }
  }
  G x = extract(net, "untouched"); string why; if (!same(x, g, why)) vf::viol("untouched", "network changed: %s", why.c_str());
  RemoveGraph(net);
}
