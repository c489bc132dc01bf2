// P08: random graph models generate what they promise (exact structure on every draw; frequencies over many draws, 6-sigma bands).
#include "bip.hpp"
using namespace std;
long n_cases(int tier) { return tier ? 8000 : 1600; }
static bool band(double hits, double n, double p) { double sd = sqrt(n * p * (1 - p)); return fabs(hits - n * p) <= 6 * sd + 1e-9 + (p > 0 && p < 1 ? 5 : 0); }
static G simple(NG *net, int S, const char *key) {
  G g = extract(net, key); CHECK(g.n == S, key, "%d nodes instead of %d", g.n, S); set<string> L(g.lab.begin(), g.lab.end()); CHECK((int)L.size() == g.n, key, "repeated labels");
  for (int i = 0; i < g.n; i++) { CHECK(!g.has(i, i), key, "self-link at %d", i); for (auto &e : g.a[i]) CHECK(g.has(e.first, i), key, "link %d-%d has no reverse", i, e.first); } return g;
}
static void pa(Rng &r) {
  int m = r.in(1, 5), S = r.in(m, r.p(.2) ? 90 : 20); gsl_rng *gr = gen(any_seed(r)); vf::input(vf::fmt("PA S=%d m=%d s=%llu", S, m, (unsigned long long)r.s), S > 3); vf::stage("PA"); NG *net = PAGraph(S, m, gr); G g = simple(net, S, "pa:structure");
  if (g.n == S) { for (int i = 0; i < S; i++) { int older = 0; for (auto &e : g.a[i]) older += e.first < i; CHECK(older == min(i, m), "pa:links", "node %d has %d links to earlier nodes, expected %d (m=%d)", i, older, min(i, m), m); } CHECK(g.links() == m * (m - 1) / 2 + (S - m) * m, "pa:total", "%d links", g.links()); }
  RemoveGraph(net); gsl_rng_free(gr);
}
static void er(Rng &r) {
  int S = r.in(1, 12); double p = r.p(.2) ? 0 : r.p(.25) ? 1 : r.u(); gsl_rng *gr = gen(p == 0 || p == 1 ? any_seed(r) : r.next() % 1000000); vf::input(vf::fmt("ER S=%d p=%g s=%llu", S, p, (unsigned long long)r.s), S > 2); vf::stage("ER"); int T = p == 0 || p == 1 ? 2 : 150; map<pair<int, int>, int> c; double tot = 0, adj = 0;
  for (int t = 0; t < T; t++) { NG *net = ERGraph(S, p, gr); G g = simple(net, S, "er:structure"); if (g.n == S) for (int i = 0; i < S; i++) { for (auto &e : g.a[i]) if (e.first > i) { c[{i, e.first}]++; tot++; } for (int j = i + 1; j + 1 < S; j++) adj += g.has(i, j) && g.has(i, j + 1); } RemoveGraph(net); }
  int P = S * (S - 1) / 2; CHECK(band(tot, (double)P * T, p), "er:density", "S=%d p=%g: %g links in %d graphs", S, p, tot, T); for (int i = 0; i < S; i++) for (int j = i + 1; j < S; j++) CHECK(band(c[make_pair(i, j)], T, p), "er:pair", "S=%d p=%g: pair %d-%d linked %d of %d times", S, p, i, j, c[make_pair(i, j)], T); gsl_rng_free(gr);
}
// networks of several hundred nodes or blocks: structure, and how many links there are within each band of node indices
static void large(Rng &r) {
  bool er = r.p(.5); int S = r.in(320, 420), T = 4; gsl_rng *gr = gen(r.next() % 1000000); double p = r.u() * .1, c[3] = {0, 0, 0}, m[3] = {0, 0, 0}; vf::input(vf::fmt("large %s S=%d p=%g s=%llu", er ? "ER" : "blocks", S, p, (unsigned long long)r.s), true); vf::stage(er ? "ERlarge" : "blocklarge"); vector<int> sz(S, 1); double **q = er ? nullptr : allocate_d_mat(S, S); if (q) for (int a = 0; a < S; a++) for (int b = 0; b < S; b++) q[a][b] = p; vf::count("monitor.large_networks");
  for (int t = 0; t < T; t++) { NG *net = er ? ERGraph(S, p, gr) : UndirectedBlockGraph(S, sz.data(), q, 's', gr); G g = simple(net, S, "large:structure"); auto v = nodes(net); if (g.n == S) for (int i = 0; i < S; i++) { if (!er) CHECK(v[i]->inGroup == i, "block:group", "node %d is in group %d", i, v[i]->inGroup); for (int j = i + 1; j < S; j++) { int b = (i >= 256) + (j >= 256); m[b]++; c[b] += g.has(i, j); } } RemoveGraph(net); }
  for (int b = 0; b < 3; b++) CHECK(band(c[b], m[b], p), "large:density", "%g links among %g pairs with %d nodes of index 256 or more, probability %g", c[b], m[b], b, p); if (q) free_d_mat(q, S); gsl_rng_free(gr);
}
static void block(Rng &r) {
  int ng = r.in(1, 4); vector<int> sz(ng); int S = 0; for (auto &x : sz) S += x = r.in(1, 6); double **q = allocate_d_mat(ng, ng); for (int a = 0; a < ng; a++) for (int b = a; b < ng; b++) q[a][b] = q[b][a] = r.p(.2) ? 0 : r.p(.2) ? 1 : r.u(); bool verbose = r.p(.1);
  gsl_rng *gr = gen(r.next() % 1000000); string d = "block"; for (int x : sz) d += " " + to_string(x); vf::input(d + vf::fmt(" s=%llu", (unsigned long long)r.s), S > 2); vf::stage("block"); int T = 100; vector<vector<double>> c(ng, vector<double>(ng, 0)), pairs = c; vector<int> grp; for (int a = 0; a < ng; a++) for (int i = 0; i < sz[a]; i++) grp.push_back(a);
  for (int t = 0; t < T; t++) { NG *net = UndirectedBlockGraph(ng, sz.data(), q, verbose && !t ? 'v' : 's', gr); G g = simple(net, S, "block:structure"); auto v = nodes(net); if (g.n == S) for (int i = 0; i < S; i++) { CHECK(v[i]->inGroup == grp[i], "block:group", "node %d is in group %d, expected %d", i, v[i]->inGroup, grp[i]); for (int j = i + 1; j < S; j++) { pairs[grp[i]][grp[j]]++; c[grp[i]][grp[j]] += g.has(i, j); } } RemoveGraph(net); }
  for (int a = 0; a < ng; a++) for (int b = a; b < ng; b++) CHECK(band(c[a][b], pairs[a][b], q[a][b]), "block:density", "blocks %d-%d: %g of %g pairs linked, probability %g", a, b, c[a][b], pairs[a][b], q[a][b]); free_d_mat(q, ng); gsl_rng_free(gr);
}
static void gn(Rng &r) {
  int ng = r.p(.12) ? (r.p(.3) ? r.in(16, 30) : r.in(5, 15)) : r.in(2, 4), gs = r.in(2, ng > 15 ? 4 : 8); double kin = r.u() * (gs - 1), kout = r.u() * gs * (ng - 1); if (r.p(.15)) kin = gs - 1; if (r.p(.15)) kout = 0; gsl_rng *gr = gen(r.next() % 1000000); vf::input(vf::fmt("GN %d x %d kin=%g kout=%g", ng, gs, kin, kout), true); vf::stage("GN"); double in = 0, out = 0, ni = 0, no = 0, in2 = 0, out2 = 0, ni2 = 0, no2 = 0;
  for (int t = 0; t < (ng > 15 ? 4 : ng > 4 ? 15 : 60); t++) { NG *net = GirvanNewmanGraph(ng, gs, kin, kout, 's', gr); G g = simple(net, ng * gs, "gn:structure"); auto v = nodes(net); if (g.n == ng * gs) for (int i = 0; i < g.n; i++) { CHECK(v[i]->inGroup == i / gs, "gn:group", "node %d in group %d", i, v[i]->inGroup); for (int j = i + 1; j < g.n; j++) if (i / gs == j / gs) { ni++; in += g.has(i, j); if (i / gs > 4) { ni2++; in2 += g.has(i, j); } } else { no++; out += g.has(i, j); if (j / gs > 4) { no2++; out2 += g.has(i, j); } } } RemoveGraph(net); }
  CHECK(band(in, ni, kin / (gs - 1)), "gn:within", "%g of %g within-group pairs linked, expected fraction %g", in, ni, kin / (gs - 1)); CHECK(band(out, no, kout / (gs * (ng - 1))), "gn:between", "%g of %g between-group pairs linked, expected fraction %g", out, no, kout / (gs * (ng - 1))); CHECK(band(in2, ni2, kin / (gs - 1)) && band(out2, no2, kout / (gs * (ng - 1))), "gn:later", "groups after the fifth: %g of %g pairs within and %g of %g between linked", in2, ni2, out2, no2); gsl_rng_free(gr);
}
static void papref(Rng &r) {   // preferential: with m=1 the fourth node joins the centre of a 3-node path with probability 1/2
  gsl_rng *gr = gen(r.next() % 1000000); vf::input(vf::fmt("PA preference s=%llu", (unsigned long long)r.s), true); vf::stage("PApref"); int T = 3000, star = 0, n2 = 0; for (int t = 0; t < T; t++) { NG *net = PAGraph(4, 1, gr); G g = simple(net, 4, "pa:structure"); for (int i = 0; i < g.n; i++) star += g.deg(i) == 3; n2 += g.n == 4 && g.has(2, 1); RemoveGraph(net); }
  CHECK(band(star, T, .5), "pa:preference", "star in %d of %d networks, expected one half", star, T); CHECK(band(n2, T, .5), "pa:preference", "third node joined the second in %d of %d networks, expected one half", n2, T); gsl_rng_free(gr);
}
static void modular(Rng &r) {
  int nmod = r.in(1, 4), npm = r.in(1, 6), S1 = 0, S2 = r.in(0, 10); vector<int> ms(nmod); bool own = r.p(.5); for (auto &x : ms) { x = own ? r.in(1, 7) : npm; S1 += x; } int mmin = r.in(0, S1), mmax = r.in(mmin, S1); double p = r.p(.25) ? 0 : r.p(.3) ? 1 : r.u(); vector<double> cp(nmod, 0); bool prob = r.p(.4); int only = -1; if (prob) { if (r.p(.5)) { only = r.in(0, nmod - 1); cp[only] = 1; } else for (auto &x : cp) x = 1.0 / nmod; cp[nmod - 1] += only >= 0 ? 0 : 1e-9; }
  gsl_rng *gr = gen(any_seed(r)); vf::input(vf::fmt("modular nmod=%d S1=%d S2=%d team %d-%d p=%g own=%d s=%llu", nmod, S1, S2, mmin, mmax, p, own, (unsigned long long)r.s), S1 > 1 && S2 > 1); vf::stage("modular");
  vector<int> msc = ms; struct binet *n = BuildModularBipartiteNetwork(own ? msc.data() : NULL, npm, nmod, prob ? cp.data() : NULL, S2, mmin, mmax, -1, p, gr); CHECK(msc == ms, "modular:args", "module sizes overwritten");
  B b = extractB(n, "modular:structure"); CHECK(b.n1 == S1 && b.n2 == S2, "modular:nodes", "%d x %d nodes instead of %d x %d", b.n1, b.n2, S1, S2); auto v1 = nodes(n->net1), v2 = nodes(n->net2); vector<int> grp; for (int a = 0; a < nmod; a++) for (int i = 0; i < ms[a]; i++) grp.push_back(a);
  if (b.n1 == S1 && b.n2 == S2) { for (int i = 0; i < S1; i++) CHECK(v1[i]->inGroup == grp[i] && v1[i]->ivar1 == 0, "modular:module", "node %d is in module %d, expected %d", i, v1[i]->inGroup, grp[i]);
    for (int t = 0; t < S2; t++) { int d = b.deg2(t), c = v2[t]->inGroup; CHECK(d >= mmin && d <= mmax, "modular:teamsize", "team %d has %d members, allowed %d-%d", t, d, mmin, mmax); CHECK(c >= 0 && c < nmod && v2[t]->ivar1 == 1, "modular:colour", "team %d has colour %d", t, c); if (only >= 0) CHECK(c == only, "modular:colour", "team colour %d has probability 0", c); if (c >= 0 && c < nmod && p == 1) { int w = 0; for (int i = 0; i < S1; i++) w += grp[i] == c && b.a[i].count(t); CHECK(w == min(d, ms[c]), "modular:homogeneous", "homogeneity 1: team %d of %d has %d members of its colour (module size %d)", t, d, w, ms[c]); } } }
  RemoveBipart(n); gsl_rng_free(gr);
}
static void modfreq(Rng &r) {
  int nmod = r.in(2, 4), npm = r.in(2, 5), S1 = nmod * npm, T = 3000; double p = r.u(); vector<double> cp(nmod); double s = 0; for (auto &x : cp) s += x = .1 + r.u(); for (auto &x : cp) x /= s; cp[nmod - 1] += 1e-9; bool prob = r.p(.5); gsl_rng *gr = gen(r.next() % 1000000); vf::input(vf::fmt("modfreq nmod=%d npm=%d p=%g", nmod, npm, p), true); vf::stage("modfreq");
  struct binet *n = BuildModularBipartiteNetwork(NULL, npm, nmod, prob ? cp.data() : NULL, T, 1, 1, -1, p, gr); B b = extractB(n, "modular:structure"); auto v2 = nodes(n->net2); double same = 0; vector<double> col(nmod, 0), mem(S1, 0); if (b.n1 == S1 && b.n2 == T) { for (int i = 0; i < S1; i++) for (auto &e : b.a[i]) { same += v2[e.first]->inGroup == i / npm; mem[i]++; } for (int t = 0; t < T; t++) if (v2[t]->inGroup >= 0 && v2[t]->inGroup < nmod) col[v2[t]->inGroup]++; }
  CHECK(band(same, T, p + (1 - p) / nmod), "modular:homogeneity", "%g of %d single-member teams have their own colour, expected fraction %g", same, T, p + (1 - p) / nmod); for (int c = 0; c < nmod; c++) CHECK(band(col[c], T, prob ? cp[c] : 1.0 / nmod), "modular:colours", "%g of %d teams of colour %d, expected fraction %g", col[c], T, c, prob ? cp[c] : 1.0 / nmod);
  for (int i = 0; i < S1; i++) CHECK(band(mem[i], T, prob ? (p * cp[i / npm] / npm + (1 - p) / S1) : 1.0 / S1), "modular:members", "node %d is in %g of %d teams", i, mem[i], T); RemoveBipart(n);
  // geometric team sizes
  double gp = .3 + .6 * r.u(); T = 2000; n = BuildModularBipartiteNetwork(NULL, 40, 2, NULL, T, -1, -1, gp, p, gr); b = extractB(n, "modular:structure"); vector<double> h(6, 0); for (int t = 0; t < b.n2; t++) { int d = b.deg2(t); if (d < 6) h[d]++; } double q = gp; for (int d = 0; d < 6; d++, q *= 1 - gp) CHECK(band(h[d], T, q), "modular:geometric", "%g of %d teams have %d members, expected fraction %g", h[d], T, d, q); RemoveBipart(n); gsl_rng_free(gr);
}
void run_case(long k, Rng &r) {
  if (k % 100 == 0) papref(r); else if (k % 200 == 77) large(r); else if (k % 100 == 50 || k % 100 == 25) modfreq(r); else switch (k % 7) { case 0: er(r); break; case 1: block(r); break; case 2: gn(r); break; case 3: case 4: pa(r); break; case 5: modular(r); break; default: { if (r.p(.8)) { modular(r); break; } int S = r.in(0, 30); vf::input("empty " + to_string(S), S > 1); NG *n = EmptyGraph(S); G g = simple(n, S, "empty:structure"); CHECK(g.arcs() == 0, "empty:links", "%d links", g.arcs()); RemoveGraph(n); } }
}
