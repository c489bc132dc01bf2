// P12: the modularity functions equal the definition of modularity.
#include "part.hpp"
using namespace std;
long n_cases(int tier) { return tier ? 500000 : 20000; }
static double defQ(const G &m, const vector<int> &of, bool weighted) {   // sum over groups of w_in/W - (end share)^2
  map<int, double> in, ends; double W2 = 0; for (int i = 0; i < m.n; i++) for (auto &e : m.a[i]) { double w = weighted ? e.second : 1; W2 += w; ends[of[i]] += w; if (of[i] == of[e.first]) in[of[i]] += w; }
  double q = 0; for (auto &g : ends) q += in[g.first] / W2 - (g.second / W2) * (g.second / W2); return q; }
static void check(const G &m, const vector<int> &of, GR *part, const char *how) {
  double q = Modularity(part), w = ModularityWeight(part); CHECK(fabs(q - defQ(m, of, false)) < 1e-10, "unweighted", "%s: Modularity %.12g, definition %.12g", how, q, defQ(m, of, false)); CHECK(fabs(w - defQ(m, of, true)) < 1e-10, "weighted", "%s: ModularityWeight %.12g, definition %.12g", how, w, defQ(m, of, true)); CHECK(q <= 1 && q >= -.5 - 1e-12 && w <= 1 && w >= -.5 - 1e-12, "range", "%s: modularity %g, %g out of range", how, q, w); vf::count("monitor.modularities", 2); }
// groups with more than 2^15 links and more than sqrt(2^31) link ends
static void large(Rng &r) {
  G m; int n = r.in(310, 340); m.init(n); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if (r.p(.97)) m.add(i, j, r.in(1, 4)); NG *net = build(r, m); auto v = nodes(net); vector<int> of(n); int cut = r.in(20, n / 3); for (int i = 0; i < n; i++) of[i] = i < cut; r.shuffle(of);
  vf::input(vf::fmt("large %d nodes %d links cut %d", n, m.links(), cut), true); vf::stage("large"); ResetNetGroup(net); GR *p = CreateHeaderGroup(), *g[2] = {CreateGroup(p, 0), nullptr}; g[1] = CreateGroup(g[0], 1); for (int i = 0; i < n; i++) AddNodeToGroup(g[of[i]], v[i]); check(m, of, p, "large network"); vf::count("monitor.large_groups");
  gsl_rng *gr = gen(5); PA x = load(r, m, 2, true); AssignNodesToModules(x.p, gr); for (int i = 0; i < n; i++) of[i] = x.p->nodes[i]->module; double want = defQ(m, of, true); CHECK(fabs(PartitionModularity(x.p, x.a, 1) - want) < 1e-10, "array:large", "PartitionModularity %.12g of a large network, definition %.12g", PartitionModularity(x.p, x.a, 1), want); drop(x); gsl_rng_free(gr); RemovePartition(p); RemoveGraph(net);
}
void run_case(long k, Rng &r) {
  if (k % 4000 == 1777) { large(r); return; }
  G m; int big = k % 101 == 0; do m = random_graph(r, 2, k % 313 == 105 ? 600 : big ? 120 : k % 13 == 0 ? 40 : 12, r.in(0, 2)); while (!m.links()); if (r.p(.25)) { double c = pow(2, r.in(-40, 40)); for (auto &x : m.a) for (auto &e : x) e.second *= c; } NG *net = build(r, m); auto v = nodes(net); int ng = r.in(1, min(m.n, 8) + 1), base = r.in(0, 5), step = r.in(1, 4); vector<int> of(m.n); for (int &x : of) x = base + step * r.in(0, ng - 1);
  string d; for (int x : of) d += vf::fmt("%d,", x); vf::input(m.text() + " part " + d, m.links() > 1 && m.n > 2);
  auto build_part = [&](const vector<int> &f, bool fast) { ResetNetGroup(net); GR *p = CreateHeaderGroup(); vector<GR *> g; vector<int> o(ng); iota(o.begin(), o.end(), 0); r.shuffle(o); map<int, GR *> by; for (int j : o) by[base + step * j] = CreateGroup(p, base + step * j); if (r.p(.3)) CreateGroup(p, base + step * ng); vector<int> q(m.n); iota(q.begin(), q.end(), 0); r.shuffle(q); for (int i : q) fast ? AddNodeToGroupFast(by[f[i]], v[i]) : AddNodeToGroup(by[f[i]], v[i]); if (fast) MapPartToNet(p, net); return p; };
  vf::stage("incremental"); GR *p = build_part(of, false); check(m, of, p, "built node by node"); CompressPart(p); check(m, of, p, "compressed"); vf::stage("copy"); GR *c = CopyPartition(p); MapPartToNet(c, net); check(m, of, c, "copied and mapped"); RemovePartition(c); MapPartToNet(p, net); check(m, of, p, "mapped again");
  vf::stage("moves"); vector<int> f = of; for (int t = 0; t < 8; t++) { int i = r.in(0, m.n - 1), l = f[r.in(0, m.n - 1)]; if (l == f[i]) continue; MoveNode(v[i], GetGroup(p, f[i]), GetGroup(p, l)); f[i] = l; check(m, f, p, "after a move"); } RemovePartition(p);
  vf::stage("other"); p = build_part(of, true); check(m, of, p, "added fast and mapped"); RemovePartition(p); for (int i = 0; i < m.n; i++) v[i]->inGroup = of[i]; p = CreatePartitionFromInGroup(net); check(m, of, p, "from memberships"); RemovePartition(p);
  vf::stage("extremes"); p = CreateEquiNPartition(net, m.n); CHECK(fabs(Modularity(p)) < 1e-12 && fabs(ModularityWeight(p)) < 1e-12, "onegroup", "one group has modularity %g, %g", Modularity(p), ModularityWeight(p)); RemovePartition(p); p = CreateEquiNPartition(net, 1); vector<int> s(m.n); iota(s.begin(), s.end(), 0); check(m, s, p, "singletons"); CHECK(Modularity(p) < 0, "singletons", "singletons have modularity %g", Modularity(p)); RemovePartition(p); p = ClustersPartition(net); check(m, components(m), p, "components"); RemovePartition(p); RemoveGraph(net);
  // array-based partition, normalised strengths: with the diagonal it is the same modularity, without it differs by the diagonal terms
  vf::stage("array"); gsl_rng *gr = gen(k + 1); int M = r.in(1, m.n); PA x = load(r, m, M, true); AssignNodesToModules(x.p, gr); vector<int> am(m.n); for (int i = 0; i < m.n; i++) am[i] = x.p->nodes[i]->module; double want = defQ(m, am, true), diag = 0; for (int i = 0; i < m.n; i++) diag += m.str(i) * m.str(i); diag /= total(m) * total(m);
  CHECK(fabs(PartitionModularity(x.p, x.a, 1) - want) < 1e-10, "array:diagonal", "PartitionModularity with diagonal %.12g, definition %.12g", PartitionModularity(x.p, x.a, 1), want); CHECK(fabs(PartitionModularity(x.p, x.a, 0) - want - diag) < 1e-10, "array:nodiagonal", "PartitionModularity without diagonal %.12g, expected %.12g", PartitionModularity(x.p, x.a, 0), want + diag);
  if (M > 1) { CompressPartition(x.p); CHECK(fabs(PartitionModularity(x.p, x.a, 1) - want) < 1e-10, "array:compressed", "modularity %.12g after compressing, %.12g before", PartitionModularity(x.p, x.a, 1), want); } drop(x); gsl_rng_free(gr);
}
