// P05: node betweenness (fractions of shortest paths) and link betweenness (unit flow split equally among predecessors).
#include "rg.hpp"
using namespace std;
long n_cases(int tier) { return tier ? 40000 : 6000; }
// definition: sum over ordered pairs (s,t) of sigma_st(v)/sigma_st, computed from distances and path counts of every pair
static vector<double> node_btw(const G &g) {
  int n = g.n; vector<vector<int>> D(n); vector<vector<double>> S(n, vector<double>(n, 0));
  for (int s = 0; s < n; s++) { D[s] = bfs(g, s); S[s][s] = 1; vector<int> ord; for (int i = 0; i < n; i++) if (D[s][i] >= 0) ord.push_back(i);
    stable_sort(ord.begin(), ord.end(), [&](int a, int b) { return D[s][a] < D[s][b]; }); for (int u : ord) for (auto &e : g.a[u]) if (D[s][e.first] == D[s][u] + 1) S[s][e.first] += S[s][u]; }
  vector<double> b(n, 0); for (int s = 0; s < n; s++) for (int t = 0; t < n; t++) if (s != t && D[s][t] > 0) for (int v = 0; v < n; v++) if (v != s && v != t && D[s][v] >= 0 && D[v][t] >= 0 && D[s][v] + D[v][t] == D[s][t]) b[v] += S[s][v] * S[v][t] / S[s][t];
  return b;
}
static map<pair<int, int>, double> link_btw(const G &g) {
  map<pair<int, int>, double> b; int n = g.n; for (int i = 0; i < n; i++) for (auto &e : g.a[i]) if (i < e.first) b[{i, e.first}] = 0;
  for (int s = 0; s < n; s++) { auto d = bfs(g, s); vector<int> ord; for (int i = 0; i < n; i++) if (d[i] > 0) ord.push_back(i); stable_sort(ord.begin(), ord.end(), [&](int a, int c) { return d[a] > d[c]; });
    vector<double> f(n, 1.0); for (int u : ord) { int np = 0; for (auto &e : g.a[u]) np += d[e.first] == d[u] - 1; for (auto &e : g.a[u]) if (d[e.first] == d[u] - 1) { f[e.first] += f[u] / np; b[{min(u, e.first), max(u, e.first)}] += f[u] / np; } } }
  return b;
}
void run_case(long k, Rng &r) {
  G g = random_graph(r, 1, k % 313 == 105 ? 410 : k % 29 == 0 ? 48 : 13, r.in(0, 2)); bool dir = k % 5 == 4;
  if (k % 7 == 3) g = permuted(r, shape(r, r.p(.5) ? 10 : 11, r.in(4, 30)));
  if (k % 59 == 1) { // ladder with very many shortest paths
    int L = r.p(.3) ? 16 : r.in(3, 9), w = r.in(2, 5); g.init(1 + L * (w + 1)); int at = 0, prev = 0; for (int l = 0; l < L; l++) { int nx = at + w + 1; for (int x = 1; x <= w; x++) { g.add(prev, at + x); g.add(at + x, nx); } prev = nx; at = nx; } g = permuted(r, g); }
  if (dir) { G h = g; double q = r.u() * .7; for (int i = 0; i < g.n; i++) for (auto &e : g.a[i]) if (e.first > i && r.p(q)) { if (r.p(.5)) h.a[i].erase(e.first); else h.a[e.first].erase(i); } g = h; }
  vf::input((dir ? "dir " : "und ") + g.text(), g.n >= 3 && g.arcs() > 2);
  NG *net = build(r, g); auto v = nodes(net); int n = g.n; auto want = node_btw(g); auto sane = [&](const char *key) { G x = extract(net, key); string why; if (!same(x, g, why)) vf::viol(key, "network changed: %s", why.c_str()); };
  for (int rep = 0; rep < 2; rep++) { vf::stage("node"); CalculateNodeBetweenness(net); for (int i = 0; i < n; i++) CHECK_NEAR(v[i]->dvar1, want[i], 1e-8, "node", "betweenness of " + g.lab[i]); }
  vf::stage("stats"); double me, sd, mi, ma; NodeBetweennessStatistics(net, &me, &sd, &mi, &ma);
  double m = 0, s2 = 0, lo = 1e300, hi = -1; for (double x : want) { m += x / n; lo = min(lo, x); hi = max(hi, x); } for (double x : want) s2 += (x - m) * (x - m);
  CHECK_NEAR(me, m, 1e-8, "stats:mean", "mean"); CHECK(fabs(mi - lo) < 1e-8 * (1 + lo), "stats:min", "min %g expected %g", mi, lo); CHECK(fabs(ma - hi) < 1e-8 * (1 + hi), "stats:max", "max %g expected %g", ma, hi);
  CHECK(fabs(sd - sqrt(s2 / n)) < 1e-6 * (1 + hi), "stats:stddev", "stddev %g expected %g", sd, sqrt(s2 / n));
  if (!dir) {
    auto lb = link_btw(g); double big = 0; for (auto &e : lb) big = max(big, e.second);
    auto cmp = [&](const char *key) { for (int i = 0; i < n; i++) for (NL *l = v[i]->neig->next; l; l = l->next) { int j = l->ref->num; CHECK_NEAR(l->btw, lb[make_pair(min(i, j), max(i, j))], 1e-8, key, "betweenness of link " + g.lab[i] + "-" + g.lab[j]); } };
    vf::count("links.checked", lb.size());
    for (int rep = 0; rep < 2; rep++) { vf::stage("link"); CalculateLinkBetweenness(net); cmp("link"); }
    if (lb.size()) { int a = -1, b = -1; vf::stage("biggest"); CalculateBiggestLinkBetweenness(net, &a, &b); cmp("biggest:values"); bool ok = a >= 0 && b >= 0 && a < n && b < n && g.has(a, b); CHECK(ok, "biggest:link", "most-between link %d-%d does not exist", a, b);
      if (ok) CHECK(lb[make_pair(min(a, b), max(a, b))] >= big - 1e-7 * (1 + big), "biggest:max", "link %d-%d has betweenness %g, largest is %g", a, b, lb[make_pair(min(a, b), max(a, b))], big); }
  }
  sane("untouched"); RemoveGraph(net);
}
