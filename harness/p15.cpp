// P15: the array-based partition stays well-formed under every move; loading, copying and compressing are faithful.
#include "part.hpp"
using namespace std;
long n_cases(int tier) { return tier ? 600000 : 30000; }
static vector<int> induced(const G &g, const vector<int> &m, int mod) {   // component label of every node of the module, -1 outside
  vector<int> c(g.n, -1); int nc = 0; for (int i = 0; i < g.n; i++) if (m[i] == mod && c[i] < 0) { vector<int> q{i}; c[i] = nc; for (size_t h = 0; h < q.size(); h++) for (auto &e : g.a[q[h]]) if (m[e.first] == mod && c[e.first] < 0) { c[e.first] = nc; q.push_back(e.first); } nc++; } return c; }
void run_case(long k, Rng &r) {
  G g = random_graph(r, 1, k % 313 == 105 ? 420 : k % 29 == 0 ? 60 : 16, r.in(0, 2)); bool norm = r.p(.7); if (!g.links()) norm = false; int M = r.p(.5) ? g.n : r.in(1, g.n + (r.p(.1) ? 5 : 0)); string ops; long live0 = live_bytes();
  PA x = load(r, g, M, norm); double scale = norm ? 1 / total(g) : 1; gsl_rng *gr = gen(any_seed(r));
  vf::input(vf::fmt("M%d norm%d ", M, norm) + g.text(), g.n > 2 && g.links() > 1);
  check_adj(x, g, scale, "load"); CHECK(x.p->N == (unsigned)g.n && x.p->M == (unsigned)M && x.p->nempty == (unsigned)M, "create", "new partition has N %u, M %u, %u empty", x.p->N, x.p->M, x.p->nempty);
  vf::stage("assign"); AssignNodesToModules(x.p, gr); vector<int> m = wf(x.p, x.k, "assign", "assigning nodes"); if (M == g.n) for (int i = 0; i < g.n; i++) CHECK(m[i] == i, "assign:singletons", "node %d starts in module %d", i, m[i]);
  int nops = r.in(4, 30); Partition *frozen = nullptr; vector<int> fm;
  for (int o = 0; o < nops; o++) {
    int kind = r.in(0, 9); M = x.p->M; auto empties = [&]() { vector<int> e; vector<int> c(M, 0); for (int q : m) c[q]++; for (int j = 0; j < M; j++) if (!c[j]) e.push_back(j); return e; };
    if (kind <= 3 && M > 1) { int n = r.in(0, g.n - 1), t; do t = r.in(0, M - 1); while (t == m[n]); vf::stage("ChangeModule"); ChangeModule(n, t, x.p); auto w = m; w[n] = t; auto y = wf(x.p, x.k, "change", "ChangeModule"); CHECK(y == w, "change:result", "moving node %d to %d changed something else", n, t); m = y; vf::count("ops.change"); }
    else if (kind <= 5 && M > 1) { int a = r.p(.7) ? m[r.in(0, g.n - 1)] : r.in(0, M - 1), b; do b = r.p(.7) ? m[r.in(0, g.n - 1)] : r.in(0, M - 1); while (a == b && r.p(.99)); if (a == b) continue; vf::stage("MergeModules"); int ca = 0, cb = 0; for (int q : m) { ca += q == a; cb += q == b; } MergeModules(a, b, x.p); auto y = wf(x.p, x.k, "merge", "MergeModules");
      if (!ca || !cb) { CHECK(y == m, "merge:empty", "merging with an empty module changed the partition"); } else { auto w = m; int to = -1; for (int i = 0; i < g.n; i++) if (m[i] == a || m[i] == b) to = y[i]; CHECK(to == a || to == b, "merge:target", "merged nodes ended in module %d, not %d or %d", to, a, b); for (auto &q : w) if (q == a || q == b) q = to; CHECK(y == w, "merge:result", "merging %d and %d changed something else", a, b); } m = y; vf::count("ops.merge"); }
    else if (kind == 6 || kind == 7) { auto e = empties(); if (e.empty()) continue; int tgt = m[r.in(0, g.n - 1)], em = r.pick(e); vector<int> y;
      if (kind == 6) { auto c = induced(g, m, tgt); int nc = 1 + *max_element(c.begin(), c.end()); vf::stage("SplitByComponent"); unsigned got = SplitModuleByComponent(tgt, em, x.p, x.a, gr); y = wf(x.p, x.k, "split", "SplitModuleByComponent"); CHECK((int)got == nc, "split:components", "split reports %u components, the module has %d", got, nc); map<int, int> where; set<int> used;
        for (int i = 0; i < g.n; i++) if (m[i] == tgt) { used.insert(y[i]); CHECK(y[i] == tgt || y[i] == em, "split:target", "node %d went to module %d", i, y[i]); if (!where.count(c[i])) where[c[i]] = y[i]; CHECK(where[c[i]] == y[i], "split:torn", "a connected part of the module was torn apart"); } if (nc > 1) { CHECK(used.size() == 2, "split:none", "module with %d connected components was not split", nc); vf::count("ops.split_multi"); } else CHECK(y == m, "split:connected", "connected module changed"); vf::count("ops.split"); }
      else { vf::stage("SplitSA"); unsigned err = SplitModuleSA(tgt, em, r.u(), 1e-3 * r.u(), .95, r.in(1, 30), x.p, x.a, gr); CHECK(err == 0, "splitsa:error", "error %u", err); y = wf(x.p, x.k, "splitsa", "SplitModuleSA"); for (int i = 0; i < g.n; i++) if (m[i] == tgt) CHECK(y[i] == tgt || y[i] == em, "splitsa:target", "node %d went to module %d", i, y[i]); vf::count("ops.splitsa"); }
      for (int i = 0; i < g.n; i++) if (m[i] != tgt) CHECK(y[i] == m[i], "split:others", "node %d outside the split module moved", i); m = y; }
    else if (kind == 8) { vf::stage("Compress"); set<int> used(m.begin(), m.end()); CompressPartition(x.p); auto y = wf(x.p, x.k, "compress", "CompressPartition"); CHECK(x.p->M == used.size() && x.p->nempty == 0, "compress:count", "%u modules and %u empty after compressing %zu non-empty ones", x.p->M, x.p->nempty, used.size()); CHECK(canon(y) == canon(m), "compress:comembership", "compressing changed which nodes are together"); m = y; vf::count("ops.compress"); }
    else { vf::stage("Copy"); if (frozen) { auto y = wf(frozen, x.k, "copy:later", "later operations on the original"); CHECK(y == fm, "copy:alias", "copy changed with the original"); FreePartition(frozen); frozen = nullptr; } Partition *c = CopyPartitionStruct(x.p); auto y = wf(c, x.k, "copy", "CopyPartitionStruct"); CHECK(y == m && c->M == x.p->M && c->N == x.p->N, "copy:result", "copy differs"); if (r.p(.5)) { frozen = c; fm = y; } else { frozen = x.p; fm = m; x.p = c; } vf::count("ops.copy"); }
  }
  if (frozen) { auto y = wf(frozen, x.k, "copy:later", "later operations on the original"); CHECK(y == fm, "copy:alias", "copy changed with the original"); FreePartition(frozen); }
  vf::stage("free"); drop(x); gsl_rng_free(gr); (void)live0;
  if (k % 40 == 7) {   // random start: every module used with about equal probability; a partition with only empty modules compresses to none
    int N = 600, Mm = r.in(2, 9); PA y; y.p = CreatePartition(N, Mm); y.k.assign(N, 0); gsl_rng *g2 = gen(r.next() % 99999); AssignNodesToModules(y.p, g2); auto z = wf(y.p, y.k, "assign", "random start"); vector<int> c(Mm, 0); for (int q : z) c[q]++; double sd = sqrt(N * (1. / Mm) * (1 - 1. / Mm)); for (int q : c) CHECK(fabs(q - (double)N / Mm) < 6.5 * sd, "assign:uniform", "%d of %d nodes start in one of %d modules", q, N, Mm); FreePartition(y.p); gsl_rng_free(g2);
    Partition *e = CreatePartition(3, 2); CompressPartition(e); CHECK(e->M == 0 && e->nempty == 0, "compress:allempty", "%u modules, %u empty", e->M, e->nempty); FreePartition(e);
    long w[12]; for (int t = 0; t < 12; t++) { Rng q(77); G h; h.init(6); h.add(0, 1); h.add(2, 3); h.add(3, 4); gsl_rng *g3 = gen(4); long b0 = live_bytes(); PA v = load(q, h, 6); AssignNodesToModules(v.p, g3); for (int i = 0; i < 5; i++) { MergeModules(v.p->nodes[0]->module, v.p->nodes[5 - i]->module == v.p->nodes[0]->module ? (v.p->nodes[0]->module + 1) % 6 : v.p->nodes[5 - i]->module, v.p); } for (int j = 0; j < 6; j++) if (!v.p->modules[j]->size) { SplitModuleByComponent(v.p->nodes[0]->module, j, v.p, v.a, g3); break; } for (int j = 0; j < 6; j++) if (!v.p->modules[j]->size) { SplitModuleSA(v.p->nodes[0]->module, j, .1, .001, .9, 5, v.p, v.a, g3); break; } Partition *c = CopyPartitionStruct(v.p); CompressPartition(c); double P[6] = {0}, Z[6]; PartitionRolesMetrics(c, v.a, Z, P); FreePartition(c); drop(v); v.k.clear(); v.k.shrink_to_fit(); w[t] = live_bytes() - b0; gsl_rng_free(g3); }
    CHECK(w[11] <= w[5] && w[10] <= 0 + w[4], "leak", "a load/move/copy/compress/free cycle keeps %ld bytes", w[11]); vf::count("monitor.leak_windows");
  }
}
