// Network scores, reconstructions, partition samples, and the editing/reading of ratings.
#define VF_SHARED_TABLE
#include "bip.hpp"
#include "samp.hpp"
extern "C" {
#define new new_
#include "recommend.h"
#undef new
}
using namespace rg; using vf::Rng;
long n_cases(int tier) { return tier ? 8000 : 800; }

static int pairs_links(const G &g, const std::vector<int> &c, int x, int y) { int l = 0; for (int i = 0; i < g.n; i++) for (auto &e : g.a[i]) if (e.first > i) l += (c[i] == x && c[e.first] == y) || (c[i] == y && c[e.first] == x); return l; }
// log of the ratio factor of one partition for a target network
static long double contrib(const G &o, const G &t, const std::vector<int> &c) { int m = *std::max_element(c.begin(), c.end()) + 1; std::vector<int> s(m, 0); for (int x : c) s[x]++; long double h = 0;
  for (int x = 0; x < m; x++) for (int y = x; y < m; y++) { int r = x == y ? s[x] * (s[x] - 1) / 2 : s[x] * s[y], a = pairs_links(o, c, x, y), b = pairs_links(t, c, x, y); h += logl(r + 1.0L) + lch(r, a) - logl(2 * r + 1.0L) - lch(2 * r, a + b); } return h; }

static void net_score(Rng &r) {
  int n = r.in(2, vf::tier_ ? 7 : 6); G o = random_graph(r, n, n), t = r.p(.25) ? o : random_graph(r, n, n); t.lab = o.lab; double linC = r.p(.6) ? 0 : r.in(-8, 8) / 8.; Post P = Post::make(PLAIN, o, linC); Exact E = exact(P, o);
  vf::input(vf::fmt("score linC %g obs ", linC) + o.text() + " tar " + t.text(), n >= 3 && o.links() > 0); vf::stage("netscore");
  auto &ps = partitions(n); std::vector<long double> wo, wt; long double Eo = 0, Et = 0; for (size_t k = 0; k < ps.size(); k++) { wo.push_back(expl(contrib(o, o, ps[k]))); wt.push_back(expl(contrib(o, t, ps[k]))); Eo += E.w[k] * wo[k]; Et += E.w[k] * wt[k]; }
  long double s = Et / Eo, v = 0; for (size_t k = 0; k < ps.size(); k++) { long double d = (wt[k] - s * wo[k]) / Eo; v += E.w[k] * d * d; }
  NG *no = build(r, o), *nt = build(r, t); gsl_rng *g = gen(r.next() & 0xffffffff); int R = 12, it = 400; double sum = 0, s2 = 0; for (int i = 0; i < R; i++) { double x = NetworkScore(nt, no, linC, it, g, 'q'); sum += x; s2 += x * x; }
  double mu = sum / R, se = std::sqrt(std::max(0., s2 / R - mu * mu) / (R - 1)), tol = 6 * se + 6 * std::sqrt((double)v / (R * it)) + .003 * s + 1e-5; vf::count("oracle.averages"); vf::count("monitor.full_runs", R);
  CHECK(std::fabs(mu - (double)s) < tol, "networkscore", "score of %s given %s linC %g is %.5f over %d runs, exact %.5f (tol %.2g)", t.text().c_str(), o.text().c_str(), linC, mu, R, (double)s, tol);
  std::string why; G a = extract(no, "networkscore:net"), b = extract(nt, "networkscore:net"); CHECK(same(a, o, why), "networkscore:net", "observed network changed: %s", why.c_str()); CHECK(same(b, t, why), "networkscore:net", "target network changed: %s", why.c_str());
  RemoveGraph(no); RemoveGraph(nt); gsl_rng_free(g);
}
static void sbm(Rng &r) {
  int n = r.in(2, 6); G o = random_graph(r, n, n); if (r.p(.4)) weights(r, o, 1); Post P = Post::make(PLAIN, o, 0); Exact E = exact(P, o); NG *net = build(r, o); gsl_rng *g = gen(r.next() & 0xffffffff); std::string why;
  vf::input("sbm " + o.text(), n >= 3 && o.links() > 0); vf::stage("sbmerror");
  double e = 0, slack = 0; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) { double d = (o.a[i].count(j) ? 1 : 0) - E.q[i][j]; e += d * d; slack = std::max(slack, E.sd[i][j]); } e = std::sqrt(e / (n * (n - 1) / 2));
  double x = SBMError(net, g); vf::count("oracle.averages"); CHECK(std::fabs(x - e) < .25 * slack + 1e-4, "sbmerror", "error of %s is %.5f, exact %.5f (largest posterior sd %.3g)", o.text().c_str(), x, e, slack);
  vf::stage("netfromsbm"); NG *m = NetFromSBMScores(net, g); G y = extract(m, "netfromsbm"); CHECK(y.n == n && y.lab == o.lab, "netfromsbm:nodes", "the network of reliabilities has %d nodes instead of %d or other labels", y.n, n);
  if (y.n == n) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j && std::fabs(E.q[i][j] - .5) > .25 * E.sd[i][j] + 1e-3) { vf::count("monitor.decided_pairs"); bool l = y.a[i].count(j); CHECK(l == (E.q[i][j] > .5), "netfromsbm", "pair %d-%d with score %.4f is %s for %s", i, j, E.q[i][j], l ? "linked" : "not linked", o.text().c_str()); }
  G a = extract(net, "sbm:net"); CHECK(same(a, o, why), "sbm:net", "the network changed: %s", why.c_str()); RemoveGraph(m); RemoveGraph(net); gsl_rng_free(g);
}
static void reconstruct(Rng &r) {
  int n = r.in(1, r.p(.8) ? 6 : 10); G o = random_graph(r, n, n); if (r.p(.4)) weights(r, o, 1); NG *net = build(r, o); gsl_rng *g = gen(r.next() & 0xffffffff); std::string why; vf::input("reconstruct " + o.text(), n >= 3 && o.links() > 0); vf::stage("reconstruct");
  NG *m = NetReconstruct(net, g); G y = extract(m, "reconstruct"), a = extract(net, "reconstruct:net"); CHECK(same(a, o, why), "reconstruct:net", "the observed network changed: %s", why.c_str());
  CHECK(y.lab == o.lab, "reconstruct:nodes", "nodes differ from the observed ones"); CHECK(y.links() == o.links(), "reconstruct:links", "%d links instead of %d for %s", y.links(), o.links(), o.text().c_str());
  int diff = 0; for (int i = 0; i < std::min(n, y.n); i++) for (auto &e : y.a[i]) { diff += !o.a[i].count(e.first); CHECK(e.first != i, "reconstruct:self", "self link"); auto it = e.first < y.n ? y.a[e.first].find(i) : y.a[i].end(); CHECK(e.first < y.n && it != y.a[e.first].end(), "reconstruct:symmetry", "link %d-%d one way only", i, e.first); }
  vf::count("monitor.links_exchanged", diff / 2); RemoveGraph(m); RemoveGraph(net); gsl_rng_free(g);
}
static void psampling(Rng &r, bool stat) {
  int n = stat ? r.in(3, 6) : r.in(1, 14); G o = random_graph(r, n, n); double linC = r.p(.6) ? 0 : r.in(-8, 8) / 8.; int it = stat ? 250 : r.in(1, 12), burn = r.in(0, 5); double thin = stat ? r.in(1, 2) : r.in(1, 12) / 4.; NG *net = build(r, o); gsl_rng *g = gen(r.next() & 0xffffffff);
  vf::input(vf::fmt("sampling %d it %d burn %d thin %g linC %g ", stat, it, burn, thin, linC) + o.text(), n >= 3 && o.links() > 0); vf::stage("partsampling"); int R = stat ? 12 : 1; std::vector<std::vector<double>> s(n, std::vector<double>(n, 0)), s2 = s; auto nl = nodes(net);
  for (int t = 0; t < R; t++) { GR **L = PartitionSampling(net, linC, it, g, 'q', burn, thin); std::vector<std::vector<double>> f(n, std::vector<double>(n, 0));
    for (int k = 0; k < it; k++) { CHECK(L[k] != nullptr, "partsampling:count", "sample %d of %d missing", k, it); if (!L[k]) continue; std::vector<int> c(n, -1); int gi = 0; bool bad = false;
      for (GR *x = L[k]->next; x; x = x->next, gi++) { int cnt = 0; for (NL *l = x->nodeList->next; l; l = l->next) { cnt++; int i = l->node; if (i < 0 || i >= n || c[i] >= 0 || l->ref != nl[i] || strcmp(l->nodeLabel, o.lab[i].c_str())) bad = true; else c[i] = gi; }
        CHECK(cnt == x->size, "partsampling:size", "group %d says %d nodes and lists %d", gi, x->size, cnt); }
      for (int x : c) bad |= x < 0; CHECK(!bad, "partsampling:cover", "sample %d does not have every node exactly once, for %s", k, o.text().c_str()); if (bad) continue;
      for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) f[i][j] += c[i] == c[j]; }
    for (int k = 0; k < it; k++) if (L[k]) RemovePartition(L[k]); free(L); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double x = f[i][j] / it; s[i][j] += x; s2[i][j] += x * x; } }
  vf::count("monitor.partitions_sampled", (double)R * it);
  if (stat) { Post P = Post::make(PLAIN, o, linC); Exact E = exact(P, o); auto &ps = partitions(n); for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) { double q = 0; for (size_t k = 0; k < ps.size(); k++) if (ps[k][i] == ps[k][j]) q += E.w[k];
      double mu = s[i][j] / R, se = std::sqrt(std::max(0., s2[i][j] / R - mu * mu) / (R - 1)), tol = 7 * se + 6 * std::sqrt(q * (1 - q) / (R * it)) + .002; vf::count("oracle.averages");
      CHECK(std::fabs(mu - q) < tol, "partsampling:posterior", "nodes %d and %d are together in %.4f of the samples, exact %.4f (tol %.3g) for %s linC %g", i, j, mu, q, tol, o.text().c_str(), linC); } }
  std::string why; G a = extract(net, "partsampling:net"); CHECK(same(a, o, why), "partsampling:net", "the network changed: %s", why.c_str()); RemoveGraph(net); gsl_rng_free(g);
}
static void ratings(Rng &r, bool big) {
  B b = big ? (r.p(.5) ? random_bip(r, 420, 14, r.in(0, 1), true) : random_bip(r, 14, 420, r.in(0, 1), true)) : random_bip(r, 14, 14, r.in(0, 1), r.p(.3)); for (auto &m : b.a) for (auto &e : m) if (r.p(.2)) e.second = r.in(-1, 2); if (r.p(.2)) for (auto &m : b.a) for (auto &e : m) e.second = r.in(0, 5) / 2.; std::string why;
  vf::input("ratings " + b.text(), b.links() > 1); struct binet *x = build(r, b); vf::stage("ratings");
  CHECK(CountUnobserved(x) == b.n1 * b.n2 - b.links(), "countunobserved", "%d unobserved pairs instead of %d", CountUnobserved(x), b.n1 * b.n2 - b.links());
  { int nu = CountUnobserved(x); struct query **u = BuildUnobservedSet(x); auto v1 = nodes(x->net1), v2 = nodes(x->net2); std::set<std::pair<int, int>> seen; for (int k = 0; k < nu; k++) { CHECK(u[k] != nullptr, "unobserved", "query %d of %d missing", k, nu); if (!u[k]) continue; int i = idx(v1, u[k]->n1), t = idx(v2, u[k]->n2); CHECK(i >= 0 && t >= 0, "unobserved:nodes", "query %d does not hold nodes of the two sides", k); if (i >= 0 && t >= 0) { CHECK(!b.a[i].count(t), "unobserved", "rated pair %d-%d", i, t); CHECK(seen.insert({i, t}).second, "unobserved", "pair %d-%d twice", i, t); } FreeQuery(u[k]); } CHECK((int)seen.size() == b.n1 * b.n2 - b.links(), "unobserved", "%zu pairs instead of %d", seen.size(), b.n1 * b.n2 - b.links()); free(u); }
  int rounds = r.in(1, 3); B c = b; for (int k = 0; k < rounds; k++) { int v = r.in(-1, 5); vf::stage("removeratings"); RemoveRatings(x, v); for (auto &m : c.a) for (auto it = m.begin(); it != m.end();) if (it->second == v) { it = m.erase(it); vf::count("monitor.ratings_removed"); } else ++it;
    B d = extractB(x, "removeratings"); CHECK(sameB(d, c, why), "removeratings", "removing ratings %d from %s: %s", v, b.text().c_str(), why.c_str()); CHECK(CountUnobserved(x) == c.n1 * c.n2 - c.links(), "countunobserved", "after removing %d: %d", v, CountUnobserved(x)); }
  RemoveBipart(x);
}
static void reading(Rng &r, bool big) {
  B b = big ? random_bip(r, 420, 12, 1, true) : random_bip(r, 12, 12, r.p(.7) ? 1 : 2, r.p(.3)); std::vector<std::array<int, 2>> es; for (int i = 0; i < b.n1; i++) for (auto &e : b.a[i]) es.push_back({i, e.first}); r.shuffle(es); std::string f; char w[64];
  for (auto &e : es) { snprintf(w, sizeof w, "%.10g", b.a[e[0]][e[1]]); f += b.l1[e[0]] + (r.p(.5) ? " " : "\t") + b.l2[e[1]] + " " + w + "\n"; }
  // nodes appear in the order of the file
  B x; std::vector<int> o1, o2; for (auto &e : es) { if (std::find(o1.begin(), o1.end(), e[0]) == o1.end()) o1.push_back(e[0]); if (std::find(o2.begin(), o2.end(), e[1]) == o2.end()) o2.push_back(e[1]); }
  x.init(o1.size(), o2.size()); for (size_t i = 0; i < o1.size(); i++) x.l1[i] = b.l1[o1[i]]; for (size_t i = 0; i < o2.size(); i++) x.l2[i] = b.l2[o2[i]];
  for (size_t i = 0; i < o1.size(); i++) for (size_t t = 0; t < o2.size(); t++) { auto it = b.a[o1[i]].find(o2[t]); if (it != b.a[o1[i]].end()) x.a[i][t] = it->second; }
  vf::input("reading " + b.text(), es.size() > 1); vf::stage("readobservations"); FILE *F = tmpf(f); struct binet *net = ReadRecommenderObservations(F); fclose(F); std::string why;
  auto norm = [](const B &y) { std::map<std::pair<std::string, std::string>, double> m; for (int i = 0; i < y.n1; i++) for (auto &e : y.a[i]) m[{y.l1[i], y.l2[e.first]}] = e.second; return m; };
  B y = extractB(net, "readobservations"); auto sl = [](std::vector<std::string> v) { std::sort(v.begin(), v.end()); return v; }; CHECK(sl(y.l1) == sl(x.l1) && sl(y.l2) == sl(x.l2), "readobservations", "%dx%d nodes instead of %dx%d", y.n1, y.n2, x.n1, x.n2); CHECK(norm(y) == norm(x), "readobservations", "ratings read differ for %s", b.text().c_str());
  // queries
  int nq = big ? r.in(310, 420) : r.in(0, 12); std::vector<std::array<std::string, 2>> q; std::string qf; for (int k = 0; k < nq; k++) { std::string a = r.p(.8) ? b.l1[r.in(0, b.n1 - 1)] : "newA" + std::to_string(r.in(0, 2)), c = r.p(.8) ? b.l2[r.in(0, b.n2 - 1)] : "newB" + std::to_string(r.in(0, 2)); q.push_back({a, c}); qf += a + (r.p(.5) ? " " : "\t") + c + "\n"; }
  F = tmpf(qf); vf::stage("readqueries"); struct query **Q = ReadQueries(F, nq, net); fclose(F); B z = extractB(net, "readqueries:net"); B e = y; auto add = [](std::vector<std::string> &l, const std::string &s) { if (std::find(l.begin(), l.end(), s) == l.end()) l.push_back(s); }; for (auto &k : q) { add(e.l1, k[0]); add(e.l2, k[1]); } e.n1 = e.l1.size(); e.n2 = e.l2.size(); e.a.resize(e.n1);
  CHECK(sameB(z, e, why), "readqueries:net", "after reading the queries: %s", why.c_str()); auto v1 = nodes(net->net1), v2 = nodes(net->net2);
  for (int k = 0; k < nq; k++) { CHECK(Q[k] != nullptr, "readqueries", "query %d missing", k); if (!Q[k]) continue; CHECK(idx(v1, Q[k]->n1) >= 0 && idx(v2, Q[k]->n2) >= 0 && q[k][0] == Q[k]->n1->label && q[k][1] == Q[k]->n2->label, "readqueries", "query %d is not %s %s", k, q[k][0].c_str(), q[k][1].c_str()); vf::count("monitor.queries"); FreeQuery(Q[k]); }
  free(Q); RemoveBipart(net);
}
// a network made of blocks is fitted better than its randomizations
static void structure(Rng &r) {
  int m = r.in(5, 6), n = 2 * m; bool bip = r.p(.5); G o; o.init(n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j && ((i % 2 == j % 2) != bip)) o.a[i][j] = 1; NG *net = build(r, o); gsl_rng *g = gen(r.next() & 0xffffffff); std::string why;
  vf::input("structure " + o.text(), true); vf::stage("sbmstructure"); double x = SBMStructureScore(net, 4, g); CHECK(std::isfinite(x) && x > 0, "sbmstructure", "structure score of %s is %g: its blocks should fit better than randomized networks", bip ? "a complete bipartite network" : "two cliques", x);
  G a = extract(net, "sbmstructure:net"); CHECK(same(a, o, why), "sbmstructure:net", "the network changed: %s", why.c_str()); RemoveGraph(net); gsl_rng_free(g);
}
void run_case(long k, Rng &r) {
  if (k % 100 == 21) { structure(r); return; }
  switch (k % 10) { case 0: net_score(r); break; case 1: sbm(r); break; case 2: reconstruct(r); break; case 3: psampling(r, true); break; case 4: case 5: psampling(r, false); break; case 6: case 7: ratings(r, k % 100 == 16); break; default: reading(r, k % 100 == 28); }
}
