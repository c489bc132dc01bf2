// P35: the legacy annealing returns a partition of exactly the network's nodes, mapped and with right counts; the energy it tracks is the modularity of the state.
#include "rg.hpp"
#include <unistd.h>
using namespace std;
long n_cases(int tier) { return tier ? 60000 : 4000; }
static double modularity(const G &g, const vector<int> &m) { double L = 0; for (int i = 0; i < g.n; i++) L += g.deg(i); if (L == 0) return NAN; map<int, double> in, tot; for (int i = 0; i < g.n; i++) { tot[m[i]] += g.deg(i); for (auto &e : g.a[i]) if (m[e.first] == m[i]) in[m[i]] += 1; } double q = 0; for (auto &x : tot) q += in[x.first] / L - x.second * x.second / (L * L); return q; }
static vector<int> audit(GR *part, NG *net, const G &g, const char *key, bool weights) {
  auto v = nodes(net); vector<int> m(g.n, -1); vf::count("monitor.partitions_checked"); set<int> labels;
  for (GR *p = part->next; p; p = p->next) {
    CHECK(labels.insert(p->label).second, key, "two groups have label %d", p->label); int c = 0; set<int> mem;
    for (NL *l = p->nodeList->next; l; l = l->next) { c++; int i = idx(v, l->ref); if (i < 0) { vf::viol(key, "group %d lists a node outside the network", p->label); continue; } CHECK(m[i] < 0, key, "node %s is in groups %d and %d", v[i]->label, m[i], p->label); m[i] = p->label; mem.insert(i); CHECK(v[i]->inGroup == p->label, key, "node %s of group %d says it is in %d", v[i]->label, p->label, v[i]->inGroup); CHECK(l->nodeLabel && g.lab[i] == l->nodeLabel, key, "entry of node %s says %s", v[i]->label, l->nodeLabel ? l->nodeLabel : "(null)"); }
    CHECK(c > 0, key, "group %d is empty", p->label); CHECK(p->size == c, key, "group %d has size %d, lists %d", p->label, p->size, c);
    int in = 0, tot = 0; double inw = 0, totw = 0; for (int i : mem) for (auto &e : g.a[i]) { if (!mem.count(e.first)) tot++, totw += e.second; else if (i <= e.first) in++, inw += e.second, tot++, totw += e.second; }
    CHECK(p->inlinks == in && p->totlinks == tot && p->outlinks == tot - in, key, "group %d records %d/%d/%d total/internal/external links, recount %d/%d/%d", p->label, p->totlinks, p->inlinks, p->outlinks, tot, in, tot - in);
    if (weights) CHECK(vf::close(p->inlinksW, inw) && vf::close(p->totlinksW, totw) && vf::close(p->outlinksW, totw - inw), key, "group %d records weights %g/%g/%g, recount %g/%g/%g", p->label, p->totlinksW, p->inlinksW, p->outlinksW, totw, inw, totw - inw); }
  for (int i = 0; i < g.n; i++) CHECK(m[i] >= 0, key, "node %s is in no group", v[i]->label);
  return m;
}
// more nodes than the square root of the largest int
static void large(Rng &r) {
  int n = r.in(46400, 48000); NG *net = CreateHeaderGraph(), *l = net; vector<NG *> v; vector<NL *> t; char lab[32]; for (int i = 0; i < n; i++) { snprintf(lab, sizeof lab, "n%d", i); v.push_back(l = CreateNodeGraph(l, lab)); t.push_back(l->neig); } G g; g.init(n); for (int i = 0; i < n; i++) g.lab[i] = v[i]->label;
  auto half = [&](int i, int j) { NL *x = t[i]->next = (NL *)calloc(1, sizeof(NL)); t[i] = x; x->node = v[j]->num; x->nodeLabel = (char *)calloc(MAX_LABEL_LENGTH, 1); strcpy(x->nodeLabel, v[j]->label); x->ref = v[j]; x->weight = 1; g.a[i][j] = 1; }; for (int i = 1; i < n; i++) { half(i, (i - 1) / 2); half((i - 1) / 2, i); }
  vf::input(vf::fmt("tree of %d nodes", n), true); vf::stage("large"); gsl_rng *gr = gen(r.next() % 1000000); GR *p = SACommunityIdent(net, 1e-6, 1e-3, .5, 1e-9, 2000, 'r', 0, 'n', gr); gsl_rng_free(gr); map<NG *, int> ix; for (int i = 0; i < n; i++) ix[v[i]] = i; vector<int> m(n, -1); int c = 0;
  for (GR *q = p->next; q; q = q->next) for (NL *x = q->nodeList->next; x; x = x->next) { auto it = ix.find(x->ref); if (it == ix.end() || m[it->second] >= 0) { vf::viol("partition", "a node is listed twice or is unknown"); continue; } m[it->second] = q->label; c++; } CHECK(c == n, "partition", "%d of %d nodes are in the partition", c, n); if (c == n) CHECK(fabs(Modularity(p) - modularity(g, m)) < 1e-9, "modularity", "Modularity %.12g of a large partition, recount %.12g", Modularity(p), modularity(g, m)); vf::count("monitor.large_runs"); RemovePartition(p); RemoveGraph(net);
}
void run_case(long k, Rng &r) {
  if (k % 4000 == 2222) { large(r); return; }
  G g = k % 50 == 11 ? random_graph(r, 0, 2, 0) : random_graph(r, 1, k % 31 == 0 ? 40 : 13, r.in(0, 2)); NG *net = build(r, g);
  // leftovers of an earlier partition of the same network must not matter
  for (NG *p : nodes(net)) p->inGroup = r.in(-1, 50);
  int ng = r.p(.4) ? 0 : r.in(1, g.n + 4); char init = r.p(.5) ? 'o' : 'r'; int coll = r.p(.7); double Ti = r.p(.3) ? 2. / max(1, g.n) : pow(10, -4 + 4 * r.u()), Tf = r.p(.6) ? 0 : Ti * r.u(), Ts = r.p(.5) ? .6 : .5 + .45 * r.u(), fac = r.p(.5) ? .05 : r.u() * .6; char out = "nnvvmmbsd"[r.in(0, 8)];
  if (g.n > 20) fac = .05, Ts = .7;
  // (a stream with many zeros accepts changes for ever: only with a final temperature)
  unsigned long seed = Tf > 0 ? any_seed(r) : r.next() % 1000000; gsl_rng *gr = gen(seed);
  vf::input(vf::fmt("ng%d %c coll%d Ti%g Tf%g Ts%g fac%g %c s%lu ", ng, init, coll, Ti, Tf, Ts, fac, out, seed) + g.text(), g.n > 3 && g.links() > 2);
  vf::stage("SACommunityIdent"); FILE *t = tmpfile(); fflush(stderr); int save = dup(2); dup2(fileno(t), 2);
  GR *p = SACommunityIdent(net, Ti, Tf, Ts, fac, ng, init, coll, out, gr);
  fflush(stderr); dup2(save, 2); close(save); string log = slurp(t); fclose(t);
  vf::stage("audit"); string why; CHECK(same(g, extract(net, "network"), why), "network", "the network changed: %s", why.c_str());
  vector<int> m = audit(p, net, g, "partition", true); vf::count("monitor.modules_seen", NNonEmptyGroups(p));
  if (init == 'r' && ng >= 1) CHECK(NGroups(p) <= ng, "limit", "%d groups, the limit is %d", NGroups(p), ng); else CHECK(NGroups(p) <= max(g.n, 0), "limit", "%d groups for %d nodes", NGroups(p), g.n);
  double q = modularity(g, m); if (g.links()) CHECK(vf::close(Modularity(p), q, 1e-9), "modularity", "Modularity gives %.10g, recount %.10g", Modularity(p), q);
  // the energy it goes by equals the modularity of its state at every temperature
  double e, mo, x, y, best = -1e9; int nl = 0; size_t pos = 0; double lastT = 1e300;
  while (pos < log.size()) { size_t z = log.find('\n', pos); if (z == string::npos) z = log.size(); string ln = log.substr(pos, z - pos); pos = z + 1; if (ln[0] == '#') { vf::count("monitor.resets"); continue; }
    if (out == 'v' && sscanf(ln.c_str(), "%lf %lf %lf %lf", &x, &e, &mo, &y) == 4) { nl++; best = max(best, e); CHECK(fabs(e - mo) < 3e-6, "energy", "tracks energy %f, the partition has modularity %f (temperature %g)", e, mo, y); CHECK(y < lastT, "schedule", "temperature does not decrease: %g after %g", y, lastT); lastT = y; }
    else if (out == 'm' && sscanf(ln.c_str(), "%lf %lf %lf", &x, &e, &y) == 3) { nl++; best = max(best, e); CHECK(e <= 1 + 1e-6 && e >= -.5 - 1e-6, "energy", "tracks energy %f, outside the possible range", e); } }
  vf::count("monitor.temperatures", nl);
  // stopping for lack of change ends with the best partition seen
  if (Tf == 0 && nl) CHECK(q > best - 3e-6, "best", "ends with modularity %f, a partition of %f was visited", q, best);
  // exhaustive comparison on tiny networks when annealing slowly
  if (g.n >= 2 && g.n <= 6 && g.links() && k % 4 == 0) { vf::stage("optimum"); gsl_rng *g3 = gen((seed & ~HOSTILE) + 1); double bq = -9; vector<int> c(g.n, 0); function<void(int, int)> rec = [&](int i, int mx) { if (i == g.n) { bq = max(bq, modularity(g, c)); return; } for (int z = 0; z <= mx; z++) { c[i] = z; rec(i + 1, max(mx, z + 1)); } }; rec(0, 0); double got = -9;
    for (int rep = 0; rep < 3 && got < bq - 1e-9; rep++) { GR *o = SACommunityIdent(net, .3, 0, .9, 1, 0, 'o', 1, 'n', g3); got = max(got, modularity(g, audit(o, net, g, "partition", true))); RemovePartition(o); } CHECK(got > bq - 1e-9, "optimum", "the best of three slow runs has modularity %f, the optimum is %f", got, bq); CHECK(got < bq + 1e-9, "optimum", "modularity %f above the optimum %f", got, bq); vf::count("monitor.optima"); gsl_rng_free(g3); MapPartToNet(p, net); }
  // roles derived from it partition the same nodes
  if (g.links()) { vf::stage("roles"); GR *ro = CatalogRoleIdent(net, p); set<string> names; int c = 0; for (GR *z = ro->next; z; z = z->next) for (NL *l = z->nodeList->next; l; l = l->next) { names.insert(l->nodeLabel); c++; } CHECK(c == g.n && names.size() == (size_t)g.n, "roles", "%d nodes (%zu distinct) have a role, the network has %d", c, names.size(), g.n); RemovePartition(ro); MapPartToNet(p, net); CHECK(audit(p, net, g, "roles:partition", true) == m, "roles:partition", "finding roles changed the partition"); }
  // same seed, same answer
  if (r.p(.3)) { vf::stage("again"); gsl_rng *g2 = gen(seed); for (NG *z : nodes(net)) z->inGroup = 7; GR *p2 = SACommunityIdent(net, Ti, Tf, Ts, fac, ng, init, coll, 'n', g2); auto m2 = audit(p2, net, g, "partition", true); CHECK(m2 == m, "repeat", "the same seed gave another partition"); CHECK(gsl_rng_get(g2) == gsl_rng_get(gr), "repeat", "the same seed used another number of random numbers"); RemovePartition(p2); gsl_rng_free(g2); vf::count("monitor.repeats"); }
  RemovePartition(p); RemoveGraph(net); gsl_rng_free(gr);
  if (k % 200 == 3) { long w[8]; for (int t = 0; t < 8; t++) { Rng q(5); G h = shape(q, 8, 9); gsl_rng *g3 = gen(3); long b0 = live_bytes(); NG *n = build(q, h); GR *o = SACommunityIdent(n, .2, 0, .7, .2, 0, 'o', 1, 'n', g3); RemovePartition(o); RemoveGraph(n); gsl_rng_free(g3); w[t] = live_bytes() - b0; } long rng = 0; { long b0 = live_bytes(); gsl_rng *z = gen(1); rng = live_bytes() - b0; gsl_rng_free(z); } CHECK(w[7] <= w[4] && w[7] <= 0 - rng + 16, "leak", "finding modules and freeing them keeps %ld bytes (generator %ld)", w[7] + rng, rng); vf::count("monitor.leak_windows"); }
}
