// P03: connectivity, components and giant components are the true ones (union-find / Kosaraju reference).
#include "rg.hpp"
using namespace std;
long n_cases(int tier) { return tier ? 40000 : 6000; }

static vector<int> scc(const G &g) {           // reachability closure: simple and independent
  vector<vector<char>> R(g.n, vector<char>(g.n, 0));
  for (int i = 0; i < g.n; i++) { auto d = bfs(g, i); for (int j = 0; j < g.n; j++) R[i][j] = d[j] >= 0; }
  vector<int> c(g.n, -1); for (int i = 0; i < g.n; i++) if (c[i] < 0) for (int j = i; j < g.n; j++) if (R[i][j] && R[j][i]) c[j] = i;
  return c;
}
static map<int, vector<int>> classes(const vector<int> &c) { map<int, vector<int>> m; for (size_t i = 0; i < c.size(); i++) m[c[i]].push_back(i); return m; }
// is net (extracted) exactly the sub-network of g induced by one of the classes? returns its id or -1
static int induced(const G &got, const G &g, const vector<int> &comp, const char *key) {
  map<string, int> ix; for (int i = 0; i < g.n; i++) ix[g.lab[i]] = i;
  set<int> in; for (auto &l : got.lab) { auto it = ix.find(l); if (it == ix.end()) { vf::viol(key, "node %s is not in the network", l.c_str()); return -1; } if (!in.insert(it->second).second) { vf::viol(key, "node %s appears twice", l.c_str()); return -1; } }
  if (in.empty()) { vf::viol(key, "empty component"); return -1; }
  int id = comp[*in.begin()]; int size = 0; for (int i = 0; i < g.n; i++) size += comp[i] == id;
  for (int i : in) if (comp[i] != id) { vf::viol(key, "nodes %s and %s are not in the same component (n=%d)", g.lab[*in.begin()].c_str(), g.lab[i].c_str(), g.n); return -1; }
  CHECK((int)in.size() == size, key, "component has %zu nodes, expected %d", in.size(), size);
  auto m = bylabel(got); for (int i : in) { map<string, double> want; for (auto &e : g.a[i]) if (in.count(e.first)) want[g.lab[e.first]] = e.second;
    CHECK(m[g.lab[i]] == want, key, "links of %s are not the original ones among the component's nodes (%zu instead of %zu)", g.lab[i].c_str(), m[g.lab[i]].size(), want.size()); }
  return id;
}
void run_case(long k, Rng &r) {
  bool dir = k % 3 == 2; int big = k % 97 == 0; G g = random_graph(r, 1, k % 313 == 105 ? 700 : big ? 60 : 14, r.in(0, 2));
  if (k % 5 == 1) {                        // many components with ties
    int n = r.in(4, 20); g = permuted(r, shape(r, r.p(.5) ? 12 : 7, n)); for (int i = 0; i < n; i++) g.lab[i] = rand_label(r, i, 0); weights(r, g, 1); }
  if (dir) { double q = r.u(); G h = g; for (int i = 0; i < g.n; i++) for (auto &e : g.a[i]) if (e.first > i && r.p(q)) { if (r.p(.5)) h.a[i].erase(e.first); else h.a[e.first].erase(i); } g = h; }
  if (r.p(.15)) { int i = r.in(0, g.n - 1); g.a[i][i] = 1; }
  vf::input((dir ? "dir " : "und ") + g.text(), g.n >= 3);
  NG *net = build(r, g); auto v = nodes(net); vector<int> wc = components(g), sc = dir ? scc(g) : wc; auto W = classes(wc), S = classes(sc);
  auto untouched = [&](const char *key) { G x = extract(net, key); string why; if (!same(x, g, why)) vf::viol(key, "the network itself changed: %s", why.c_str()); };
  size_t maxw = 0, maxs = 0; for (auto &c : W) maxw = max(maxw, c.second.size()); for (auto &c : S) maxs = max(maxs, c.second.size());
  vf::count("components.total", W.size()); vf::count(dir ? "graphs.directed" : "graphs.undirected");
  if (!dir) { vf::stage("connected"); int c = IsGraphConnected(net); CHECK(c == (W.size() == 1), "connected", "IsGraphConnected %d, network has %zu components", c, W.size()); }
  { vf::stage("areconnected"); vector<int> set(g.n); for (int i = 0; i < g.n; i++) set[i] = r.p(.2); int i = r.in(0, g.n - 1); auto d = bfs(g, i); bool want = false; for (int j = 0; j < g.n; j++) want |= j != i && d[j] >= 0 && set[j];
    int got = AreConnectedList(net, v[i], set.data()); CHECK(got == want, "areconnected", "node %s reaches the list: %d, expected %d", g.lab[i].c_str(), got, want); }
  vf::stage("count"); { int c = CountStronglyConnectedSets(net); CHECK(c == (int)S.size(), "count", "%d connected sets, expected %zu", c, S.size()); }
  vf::stage("all"); { vector<NG *> L(g.n + 5, nullptr); int c = GetAllConnectedSets(net, L.data()); CHECK(c == (int)S.size(), "all:count", "%d connected sets, expected %zu", c, S.size());
    set<int> seen; for (int i = 0; i < c && i < (int)L.size(); i++) { if (!L[i]) { vf::viol("all:null", "missing network %d", i); continue; } G x = extract(L[i], "all:structure", false); int id = induced(x, g, sc, "all:members"); if (id >= 0) CHECK(seen.insert(id).second, "all:repeated", "component returned twice"); }
    for (int i = 0; i < c && i < (int)L.size(); i++) if (L[i]) RemoveGraph(L[i]); }
  for (int t = 0; t < 2; t++) {
    int thres = t == 0 ? g.n + r.in(0, 3) : r.in(0, g.n);
    vf::stage("strong"); NG *x = GetLargestStronglyConnectedSet(net, thres); if (!x) vf::viol("strong:null", "no component returned"); else { G y = extract(x, "strong:structure"); int id = induced(y, g, sc, "strong:members");
      if (id >= 0) { size_t z = S[id].size(); CHECK(z == maxs || (int)z > thres, "strong:size", "component of %zu nodes returned, largest has %zu, threshold %d", z, maxs, thres); } RemoveGraph(x); }
    vf::stage("weak"); x = GetLargestWeaklyConnectedSet(net, thres); if (!x) vf::viol("weak:null", "no component returned"); else { G y = extract(x, "weak:structure"); int id = induced(y, g, wc, "weak:members");
      if (id >= 0) { size_t z = W[id].size(); CHECK(z == maxw || (int)z > thres, "weak:size", "component of %zu nodes returned, largest has %zu, threshold %d", z, maxw, thres); } RemoveGraph(x); }
  }
  if (!dir) {
    vf::stage("partition"); GR *part = ClustersPartition(net); set<int> seen; int ng = 0;
    for (GR *gr = part->next; gr; gr = gr->next) { ng++; set<int> mem; for (NL *l = gr->nodeList->next; l; l = l->next) { int i = idx(v, l->ref); if (i < 0) { vf::viol("partition:alien", "group contains a node outside the network"); continue; } mem.insert(i);
        CHECK(v[i]->inGroup == gr->label, "partition:ingroup", "node %s is in group %d, its inGroup is %d", g.lab[i].c_str(), gr->label, v[i]->inGroup); CHECK(seen.insert(i).second, "partition:twice", "node %s in two groups", g.lab[i].c_str()); }
      if (mem.empty()) { vf::viol("partition:empty", "empty group"); continue; }
      auto &c = W[wc[*mem.begin()]]; CHECK(mem == set<int>(c.begin(), c.end()), "partition:members", "group is not a connected component"); CHECK(gr->size == (int)mem.size(), "partition:size", "group size %d, has %zu nodes", gr->size, mem.size()); }
    CHECK(ng == (int)W.size() && (int)seen.size() == g.n, "partition:count", "%d groups for %zu components, %zu of %d nodes", ng, W.size(), seen.size(), g.n);
    RemovePartition(part);
  }
  vf::stage("after"); untouched("untouched");
  // the largest-component functions give back all memory once the result is destroyed
  if (k % 4 == 0) { long d = 0; vf::stage("leak"); for (int t = 0; t < 2; t++) { long b = live_bytes(); NG *x = GetLargestWeaklyConnectedSet(net, 1000); RemoveGraph(x); x = GetLargestStronglyConnectedSet(net, 1000); RemoveGraph(x); CountStronglyConnectedSets(net); d = live_bytes() - b; } CHECK(d == 0, "leak", "%ld bytes lost", d); }
  RemoveGraph(net);
}
