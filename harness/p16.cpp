// P16: the predicted modularity change of a move equals the recomputed difference, in every state.
#include "part.hpp"
using namespace std;
long n_cases(int tier) { return tier ? 600000 : 30000; }
void run_case(long k, Rng &r) {
  bool bip = k % 3 == 2; G g; PA x; double scale = 1; gsl_rng *gr = gen(any_seed(r));
  if (!bip) { do g = random_graph(r, 2, k % 313 == 105 ? 420 : k % 37 == 0 ? 50 : 14, r.in(0, 2)); while (!g.links()); bool norm = r.p(.8); x = load(r, g, r.p(.5) ? g.n : r.in(2, g.n), norm); scale = norm ? 1 / total(g) : 1; vf::input(g.text(), g.links() > 1); }
  else {   // projection of a two-mode edge list, its own strengths
    int n1 = r.in(2, 10), n2 = r.in(1, 8); vector<unsigned> a, b; vector<double> w; int wm = r.in(0, 1); double p = .2 + .6 * r.u(); for (int i = 0; i < n1; i++) { bool any = false; for (int t = 0; t < n2; t++) if (r.p(p) || (t == n2 - 1 && !any)) { any = true; a.push_back(i); b.push_back(t); w.push_back(wm ? r.in(1, 4) : 1); } }
    vector<int> o(a.size()); iota(o.begin(), o.end(), 0); r.shuffle(o); vector<unsigned> A, Bv; vector<double> W; for (int i : o) { A.push_back(a[i]); Bv.push_back(b[i]); W.push_back(w[i]); }
    vf::stage("project"); ProjectBipartEdgeList(A.data(), Bv.data(), W.data(), (int)A.size(), &x.p, &x.a); g.init(n1); x.k.resize(n1); for (int i = 0; i < n1; i++) { x.k[i] = x.p->nodes[i]->strength; for (unsigned j = x.a->idx[i]; j < x.a->idx[i + 1]; j++) g.a[i][x.a->neighbors[j]] = x.a->strength[j]; }
    string s = "bip"; for (size_t i = 0; i < A.size(); i++) s += vf::fmt(" %u-%u*%g", A[i], Bv[i], W[i]); vf::input(s, A.size() > 2);
  }
  AssignNodesToModules(x.p, gr); vector<int> m = wf(x.p, x.k, "assign", "assign"); double Q = exactQ(g, scale, x.k, m, false); double mag = 1; for (double q : x.k) mag += q; mag *= mag;
  auto dist = [&](double a, double b) { return fabs(a - b) <= 1e-10 * mag; };
  CHECK(dist(PartitionModularity(x.p, x.a, 0), Q), "modularity", "PartitionModularity %.12g, definition %.12g", PartitionModularity(x.p, x.a, 0), Q);
  for (int o = 0, n = r.in(6, 30); o < n; o++) {
    int M = x.p->M; if (M < 2) break; double want; vector<int> y;
    if (r.p(.6)) { int v = r.in(0, g.n - 1), t; do t = r.in(0, M - 1); while (t == m[v]); vf::stage("dEChange"); double dE = dEChangeModule(v, t, x.p, x.a); CHECK(wf(x.p, x.k, "pure", "dEChangeModule") == m, "pure", "prediction changed the partition"); ChangeModule(v, t, x.p); y = wf(x.p, x.k, "change", "ChangeModule"); want = exactQ(g, scale, x.k, y, false) - Q; CHECK(dist(dE, want), "change", "predicted %.12g, actual %.12g, moving node %d from module %d to %d", dE, want, v, m[v], t); vf::count("ops.change"); }
    else { int a = r.p(.8) ? m[r.in(0, g.n - 1)] : r.in(0, M - 1), b, tries = 0; do b = r.p(.8) ? m[r.in(0, g.n - 1)] : r.in(0, M - 1); while (a == b && ++tries < 50); if (a == b) continue; vf::stage("dEMerge"); double dE = dEMergeModules(a, b, x.p, x.a), dE2 = dEMergeModules(b, a, x.p, x.a); CHECK(wf(x.p, x.k, "pure", "dEMergeModules") == m, "pure", "prediction changed the partition"); MergeModules(a, b, x.p); y = wf(x.p, x.k, "merge", "MergeModules"); want = exactQ(g, scale, x.k, y, false) - Q; CHECK(dist(dE, want), "merge", "predicted %.12g, actual %.12g, merging modules %d and %d", dE, want, a, b); CHECK(dist(dE, dE2), "merge:symmetric", "%.12g one way, %.12g the other", dE, dE2); vf::count("ops.merge"); }
    m = y; Q = exactQ(g, scale, x.k, m, false); CHECK(dist(PartitionModularity(x.p, x.a, 0), Q), "modularity", "PartitionModularity %.12g, definition %.12g", PartitionModularity(x.p, x.a, 0), Q); double Qd = exactQ(g, scale, x.k, m, true); CHECK(dist(PartitionModularity(x.p, x.a, 1), Qd), "modularity:diagonal", "PartitionModularity with diagonal %.12g, definition %.12g", PartitionModularity(x.p, x.a, 1), Qd);
  }
  drop(x); gsl_rng_free(gr);
}
