// P09: network sum and comparison agree with set operations on labels.
#include "rg.hpp"
using namespace std;
long n_cases(int tier) { return tier ? 80000 : 12000; }
void run_case(long k, Rng &r) {
  bool dir = k % 3 == 1; int big = k % 53 == 0; G A, B; int st = r.in(0, 3);
  int U = r.in(2, k % 313 == 105 ? 450 : big ? 60 : 14); vector<string> lab; for (int i = 0; i < U; i++) lab.push_back(rand_label(r, i, st));
  auto mk = [&](G &g, double keep) { vector<int> s; for (int i = 0; i < U; i++) if (r.p(keep)) s.push_back(i); if (s.empty()) s.push_back(r.in(0, U - 1)); r.shuffle(s); g = shape(r, r.in(0, NSHAPES - 1), (int)s.size()); weights(r, g, r.in(0, 2)); for (int i = 0; i < g.n; i++) g.lab[i] = lab[s[i]]; };
  mk(A, r.u()); mk(B, r.p(.3) ? 1.0 : r.u());
  if (r.p(.15)) { B = permuted(r, A); }    // labels reassigned: same node set, other links
  if (r.p(.1)) B = A;
  if (dir) for (G *g : {&A, &B}) { G h = *g; for (int i = 0; i < g->n; i++) for (auto &e : g->a[i]) if (e.first > i && r.p(.3)) h.a[i].erase(e.first); *g = h; if (r.p(.3)) { int i = r.in(0, g->n - 1); g->a[i][i] = 2; } }
  vf::input("A " + A.text() + " B " + B.text(), A.n > 1 && B.n > 1 && A.arcs() && B.arcs());
  NG *na = build(r, A), *nb = build(r, B); auto a = bylabel(A), b = bylabel(B);
  vf::stage("sum"); NG *ns = AddTwoNetworks(na, nb); G S = extract(ns, "sum:structure"); auto s = bylabel(S);
  CHECK(S.n == (int)s.size(), "sum:repeated", "repeated node labels in the sum"); set<string> L; for (auto &e : a) L.insert(e.first); for (auto &e : b) L.insert(e.first);
  set<string> Ls; for (auto &e : s) Ls.insert(e.first); CHECK(L == Ls, "sum:nodes", "sum has %zu nodes, union has %zu", Ls.size(), L.size());
  for (auto &x : L) { map<string, double> want; if (a.count(x)) want = a[x]; if (b.count(x)) for (auto &e : b[x]) if (!want.count(e.first)) want[e.first] = NAN;
    auto &got = s[x]; bool ok = got.size() == want.size(); for (auto &e : want) ok &= got.count(e.first) && (isnan(e.second) || got[e.first] == e.second); CHECK(ok, "sum:links", "links of %s: %zu instead of %zu, or a weight of the first network changed", x.c_str(), got.size(), want.size()); }
  for (auto *p : {&na, &nb}) { G x = extract(*p, "untouched"); string why; if (!same(x, p == &na ? A : B, why)) vf::viol("untouched", "an operand changed: %s", why.c_str()); }
  RemoveGraph(ns); G x = extract(na, "sum:alias"); string why; if (!same(x, A, why)) vf::viol("sum:alias", "operand changed when the sum was destroyed: %s", why.c_str());
  if (!dir) {
    vf::stage("compare"); int c[6] = {-9, -9, -9, -9, -9, -9}; double p[4] = {-9, -9, -9, -9}; CompareTwoNetworks(na, nb, &c[0], &c[1], &c[2], &p[0], &p[1], &c[3], &c[4], &c[5], &p[2], &p[3]);
    int com = 0, la = 0, lb = 0, lc = 0; for (auto &e : a) com += b.count(e.first);
    for (auto &e : a) for (auto &f : e.second) if (b.count(e.first) && b.count(f.first)) { la++; lc += b[e.first].count(f.first); } for (auto &e : b) for (auto &f : e.second) if (a.count(e.first) && a.count(f.first)) lb++;
    la /= 2; lb /= 2; lc /= 2; int w[6] = {A.n, B.n, com, la, lb, lc}; const char *nm[6] = {"nodes of A", "nodes of B", "common nodes", "links of A", "links of B", "common links"};
    for (int i = 0; i < 6; i++) CHECK(c[i] == w[i], "compare:counts", "%s: %d expected %d", nm[i], c[i], w[i]);
    CHECK_NEAR(p[0], (double)com / B.n, 1e-12, "compare:fractions", "p_nAB"); CHECK_NEAR(p[1], (double)com / A.n, 1e-12, "compare:fractions", "p_nBA");
    if (lb) CHECK_NEAR(p[2], (double)lc / lb, 1e-12, "compare:fractions", "p_lAB"); if (la) CHECK_NEAR(p[3], (double)lc / la, 1e-12, "compare:fractions", "p_lBA");
    vf::count("compare.common_links", lc);
  }
  RemoveGraph(na); RemoveGraph(nb);
}
