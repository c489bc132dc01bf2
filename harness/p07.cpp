// P07: randomized networks keep every degree and stay simple; different seeds change them; same seed repeats.
#include "bip.hpp"
using namespace std;
long n_cases(int tier) { return tier ? 12000 : 2400; }
static string links(const G &g) { string s; for (int i = 0; i < g.n; i++) for (auto &e : g.a[i]) if (e.first > i) s += to_string(i) + "-" + to_string(e.first) + " "; return s; }
static string linksB(const B &b) { string s; for (int i = 0; i < b.n1; i++) for (auto &e : b.a[i]) s += to_string(i) + "-" + to_string(e.first) + " "; return s; }
static bool swappable(const G &g) { for (int a = 0; a < g.n; a++) for (auto &e : g.a[a]) for (int c = 0; c < g.n; c++) if (c != a && c != e.first) for (auto &f : g.a[c]) if (f.first != a && f.first != e.first && !g.has(a, f.first) && !g.has(c, e.first)) return true; return false; }
static void one(long k, Rng &r) {
  G g = random_graph(r, 2, k % 313 == 105 ? 410 : k % 31 == 0 ? 60 : 14, r.in(0, 2)); double times = r.p(.3) ? 0 : r.u() * 12; unsigned long seed = any_seed(r); vf::input(vf::fmt("x%g ", times) + g.text(), g.links() > 1);
  NG *net = build(r, g); gsl_rng *gr = gen(seed); vf::stage("randomize"); NG *out = RandomizeSymmetricNetwork(net, times, gr); gsl_rng_free(gr);
  if (!out) { vf::viol("result", "no network returned"); return; } G x = extract(out, "structure");
  CHECK(x.n == g.n && x.lab == g.lab, "nodes", "nodes changed: %d instead of %d", x.n, g.n); if (x.n != g.n) return;
  for (int i = 0; i < g.n; i++) { CHECK(x.deg(i) == g.deg(i), "degree", "degree of %s is %d, was %d", g.lab[i].c_str(), x.deg(i), g.deg(i)); CHECK((int)NodeDegree(nodes(out)[i]) == g.deg(i), "degree:query", "NodeDegree of %s is %u, was %d", g.lab[i].c_str(), NodeDegree(nodes(out)[i]), g.deg(i)); CHECK(!x.has(i, i), "selflink", "self-link at %s", g.lab[i].c_str()); for (auto &e : x.a[i]) CHECK(x.has(e.first, i), "asymmetric", "link %s-%s has no reverse", g.lab[i].c_str(), x.lab[e.first].c_str()); }
  CHECK(TotalNLinks(out, 1) == g.links(), "links", "%d links instead of %d", TotalNLinks(out, 1), g.links());
  bool sw = swappable(g); vf::count(sw ? "one_mode.swappable" : "one_mode.rigid"); if (!sw) CHECK(links(x) == links(g), "rigid", "links changed though no swap keeps the degrees");
  Rng r2(5); NG *n2 = build(r2, g), *n3; Rng r3(5); n3 = build(r3, g); gsl_rng *g2 = gen(seed), *g3 = gen(seed); n2 = RandomizeSymmetricNetwork(n2, times, g2); n3 = RandomizeSymmetricNetwork(n3, times, g3); G y = extract(n2, "structure"), z = extract(n3, "structure"); CHECK(links(y) == links(z), "repeat", "same seed, different result"); gsl_rng_free(g2); gsl_rng_free(g3);
  if (out != net) RemoveGraph(net); RemoveGraph(out); RemoveGraph(n2); RemoveGraph(n3);
}
static void two(long k, Rng &r) {
  B b = random_bip(r, k % 313 == 101 ? 410 : k % 31 == 1 ? 25 : 9, k % 313 == 101 ? 410 : k % 31 == 1 ? 25 : 9, 0, r.p(.2)); double times = r.p(.2) ? 0 : r.u() * 12; unsigned long seed = any_seed(r); vf::input(vf::fmt("two x%g ", times) + b.text(), b.links() > 1);
  auto go = [&](uint64_t bs, unsigned long sd) { Rng q(bs); struct binet *n = build(q, b); gsl_rng *gr = gen(sd); n = RandomizeBipart(n, times, gr); gsl_rng_free(gr); return n; };
  vf::stage("randomizeB"); struct binet *n = go(11, seed); B x = extractB(n, "two:structure"); CHECK(x.l1 == b.l1 && x.l2 == b.l2, "two:nodes", "nodes changed");
  if (x.n1 == b.n1 && x.n2 == b.n2) { for (int i = 0; i < b.n1; i++) CHECK(x.a[i].size() == b.a[i].size(), "two:degree", "degree of %s is %zu, was %zu", b.l1[i].c_str(), x.a[i].size(), b.a[i].size()); for (int t = 0; t < b.n2; t++) CHECK(x.deg2(t) == b.deg2(t), "two:degree", "second-side degree of %s is %d, was %d", b.l2[t].c_str(), x.deg2(t), b.deg2(t)); CHECK(NLinksBipart(n) == b.links(), "two:links", "%d links instead of %d", NLinksBipart(n), b.links()); }
  struct binet *m = go(11, seed); B y = extractB(m, "two:structure"); CHECK(linksB(x) == linksB(y), "two:repeat", "same seed, different result"); RemoveBipart(n); RemoveBipart(m);
}
// every network with the given degrees is reached (small cases, enumerated)
static void reach(long k, Rng &r) {
  int n = r.in(4, 5); G g; vector<pair<int, int>> P; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) P.push_back({i, j}); set<string> all; int tries = 0;
  do { g.init(n); for (auto &e : P) if (r.p(.45)) g.add(e.first, e.second); all.clear(); for (int m = 0; m < (1 << P.size()); m++) { G h; h.init(n); for (size_t b = 0; b < P.size(); b++) if (m >> b & 1) h.add(P[b].first, P[b].second); bool ok = true; for (int i = 0; i < n && ok; i++) ok = h.deg(i) == g.deg(i); if (ok) all.insert(links(h)); } } while ((all.size() < 2 || all.size() > 8) && ++tries < 50);
  if (all.size() < 2 || all.size() > 8) return; vf::input("reach " + g.text(), true); map<string, int> seen; gsl_rng *gr = gen(r.next() % 100000); vf::stage("reach");
  for (int t = 0; t < 500; t++) { NG *net = build(r, g); net = RandomizeSymmetricNetwork(net, 6 + .5 / g.links(), gr); G x = extract(net, "structure"); seen[links(x)]++; RemoveGraph(net); }
  for (auto &s : seen) CHECK(all.count(s.first), "reach:alien", "result %s does not have the right degrees", s.first.c_str()); CHECK(seen.size() == all.size(), "reach:missed", "only %zu of the %zu networks with these degrees were ever produced in 500 randomizations of %s", seen.size(), all.size(), links(g).c_str()); vf::count("reach.networks", all.size()); gsl_rng_free(gr);
}
static void differ(long k, Rng &r) {   // 5 seeds never all leave a large sparse network unchanged
  vf::stage("differ"); if (r.p(.5)) { int n = r.in(14, 25); G g; do g = shape(r, 0, n); while (g.links() < 12); vf::input("differ " + g.text(), true); set<string> s; for (int t = 0; t < 5; t++) { Rng q(3); NG *net = build(q, g); gsl_rng *gr = gen(100 + t); net = RandomizeSymmetricNetwork(net, 3 + r.u() * 9, gr); G x = extract(net, "structure"); s.insert(links(x)); gsl_rng_free(gr); RemoveGraph(net); } CHECK(s.size() >= 4 && !s.count(links(g)), "differ", "%zu different results in 5 seeds, original %s", s.size(), s.count(links(g)) ? "returned" : "changed"); }
  else { B b; do { b.init(10, 10); for (int i = 0; i < 10; i++) for (int t = 0; t < 10; t++) if (r.p(.3)) b.a[i][t] = 1; } while (b.links() < 20); vf::input("differ " + b.text(), true); set<string> s; for (int t = 0; t < 5; t++) { Rng q(3); struct binet *n = build(q, b); gsl_rng *gr = gen(100 + t); n = RandomizeBipart(n, 5, gr); B x = extractB(n, "two:structure"); s.insert(linksB(x)); gsl_rng_free(gr); RemoveBipart(n); } CHECK(s.size() >= 4 && !s.count(linksB(b)), "two:differ", "%zu different results in 5 seeds, original %s", s.size(), s.count(linksB(b)) ? "returned" : "changed"); }
}
void run_case(long k, Rng &r) { if (k % 60 == 59) reach(k, r); else if (k % 20 == 9) differ(k, r); else if (k % 2) two(k, r); else one(k, r); }
