// P14: node roles follow from within-module z-score and participation, group-based, array-based and in the tabular output.
#include "part.hpp"
#include "bip.hpp"
using namespace std;
long n_cases(int tier) { return tier ? 300000 : 14000; }
static double partic(const G &m, const vector<int> &of, int i, bool w) { map<int, double> s; double t = 0; for (auto &e : m.a[i]) { double x = w ? e.second : 1; s[of[e.first]] += x; t += x; } if (m.a[i].empty()) return 0; double q = 0; for (auto &x : s) q += (x.second / t) * (x.second / t); return 1 - q; }
static double inside(const G &m, const vector<int> &of, int i, bool w) { double s = 0; for (auto &e : m.a[i]) if (of[e.first] == of[i]) s += w ? e.second : 1; return s; }
struct Z { double z; bool firm; };   // firm: spread is either clearly zero or clearly not
static Z zscore(const G &m, const vector<int> &of, int i, bool w) { double mu = 0, var = 0, mx = 0; int c = 0; for (int j = 0; j < m.n; j++) if (of[j] == of[i]) mu += inside(m, of, j, w), c++; mu /= c; for (int j = 0; j < m.n; j++) if (of[j] == of[i]) { double d = inside(m, of, j, w) - mu; var += d * d; mx = max(mx, fabs(d)); } var /= c; if (mx <= 1e-11 * mu || mx == 0) return {0, mx <= 1e-14 * mu || mx == 0}; return {(inside(m, of, i, w) - mu) / sqrt(var), mx > 1e-6 * mu}; }
static bool near(double x, initializer_list<double> b, double t) { for (double y : b) if (fabs(x - y) < t) return true; return false; }
static int role(double P, double z) { if (z < 2.5) return P < .05 ? 0 : P < .62 ? 1 : P < .8 ? 2 : 3; return P < .3 ? 4 : P < .75 ? 5 : 6; }
static bool roleok(int got, double P, double z, double t) {   // any role reachable within t of (P,z): boundaries of P belong to either side
  for (double dp : {-t, 0., t}) for (double dz : {-t, 0., t}) if (role(P + dp, z + (t > 0 && fabs(z - 2.5) < 1e-12 && t < 1e-12 ? 0 : dz)) == got) return true; return false; }
static void table(Rng &r) {
  double Ps[] = {0, .05, .3, .62, .75, .8, 1}; for (int t = 0; t < 40; t++) { double P = r.p(.4) ? Ps[r.in(0, 6)] + (r.in(-1, 1)) * pow(10, -r.in(2, 12)) : r.u(), z = r.p(.4) ? 2.5 + r.in(-1, 1) * pow(10, -r.in(2, 12)) : r.p(.5) ? r.u() * 8 - 3 : (r.u() - .5) * 200; int got = GetRole(P, z); bool edge = false; for (double b : Ps) edge |= P == b; bool ok = edge ? (role(nextafter(P, -1), z) == got || role(nextafter(P, 2), z) == got) : role(P, z) == got; CHECK(ok, "role:table", "role of P=%.15g z=%.15g is %d, expected %d", P, z, got, role(P, z)); vf::count("monitor.role_table"); } }
void run_case(long k, Rng &r) {
  table(r); G m; int kind = r.in(0, 9);
  if (kind == 0) { m.init(r.in(12, 40)); int h = r.in(1, 2); for (int i = h; i < m.n; i++) { for (int j = 0; j < h; j++) m.add(j, i); if (r.p(.15) && i > h) m.add(i, i - 1); } m = permuted(r, m); weights(r, m, r.in(0, 2)); }   // hubs
  else if (kind == 1) { m.init(r.in(3, 20)); double w = r.u() * 3; for (int i = 0; i < m.n; i++) for (int j = 0; j < i; j++) m.add(i, j, w); }               // all alike, non-dyadic weight
  else if (kind == 2) { int c = r.in(2, 5), s = r.in(3, 6); m.init(c * s); double w = .1 * r.in(1, 9); for (int i = 0; i < m.n; i++) for (int j = 0; j < i; j++) if (i / s == j / s) m.add(i, j, w); else if (r.p(.1)) m.add(i, j, .1 * r.in(1, 9)); }
  else m = random_graph(r, 1, k % 313 == 105 ? 450 : k % 41 == 0 ? 60 : 16, r.in(0, 2));
  if (r.p(.35)) { double c = pow(2, r.in(-40, 40)); for (auto &x : m.a) for (auto &e : x) e.second *= c; vf::count("monitor.rescaled_weights"); }   // roles do not depend on the unit of the weights
  NG *net = build(r, m); auto v = nodes(net); int ng = r.in(1, kind <= 2 ? 4 : max(1, min(m.n, 6))); vector<int> of(m.n); for (int &x : of) x = 2 * r.in(0, ng - 1) + 1; if (kind == 0 && r.p(.6)) for (int &x : of) x = 3; if (kind == 2 && r.p(.6)) { int s = r.in(1, 7); for (int i = 0; i < m.n; i++) of[i] = i / s; }
  string d; for (int x : of) d += vf::fmt("%d,", x); vf::input(m.text() + " part " + d, m.n > 2 && m.links() > 1);
  ResetNetGroup(net); GR *p = CreateHeaderGroup(); map<int, GR *> by; for (int x : of) if (!by.count(x)) by[x] = CreateGroup(p, x); if (r.p(.3)) CreateGroup(p, 99); for (int i = 0; i < m.n; i++) AddNodeToGroup(by[of[i]], v[i]);
  vector<double> P(m.n), PW(m.n), z(m.n), zw(m.n);
  for (int i = 0; i < m.n; i++) { vf::stage("participation"); P[i] = ParticipationCoefficient(v[i]); PW[i] = WeightedParticipationCoefficient(v[i], p); CHECK(fabs(P[i] - partic(m, of, i, false)) < 1e-9, "participation", "participation %.12g of %s, definition %.12g", P[i], m.lab[i].c_str(), partic(m, of, i, false)); CHECK(fabs(PW[i] - partic(m, of, i, true)) < 1e-9, "participation:weighted", "weighted participation %.12g of %s, definition %.12g", PW[i], m.lab[i].c_str(), partic(m, of, i, true));
    vf::stage("zscore"); for (int h = 0; h < 2; h++) { GR *arg = h ? p : by[of[i]]; z[i] = WithinModuleRelativeDegree(v[i], arg); zw[i] = WithinModuleRelativeStrength(v[i], arg); Z a = zscore(m, of, i, false), b = zscore(m, of, i, true); if (a.firm) CHECK(fabs(z[i] - a.z) < 1e-7 * (1 + fabs(a.z)), "zscore", "z-score %.12g of %s, definition %.12g", z[i], m.lab[i].c_str(), a.z); if (b.firm || kind == 1) CHECK(fabs(zw[i] - b.z) < 1e-7 * (1 + fabs(b.z)), "zscore:strength", "strength z-score %.12g of %s, definition %.12g", zw[i], m.lab[i].c_str(), b.z); } vf::count("monitor.node_metrics"); }
  for (int w = 0; w < 2; w++) { vf::stage(w ? "catalog-strength" : "catalog"); GR *ro = w ? CatalogRoleIdentStrength(net, p) : CatalogRoleIdent(net, p); vector<int> got(m.n, -1); int cnt = 0, gi = 0; for (GR *g = ro->next; g; g = g->next, gi++) { CHECK(g->label == gi, "catalog:label", "role group %d has label %d", gi, g->label); for (NL *l = g->nodeList->next; l; l = l->next) { int i = idx(v, l->ref); if (i < 0) { vf::viol("catalog:alien", "role lists a node outside the network"); continue; } CHECK(got[i] < 0, "catalog:twice", "node %s has two roles", m.lab[i].c_str()); got[i] = g->label; cnt++; CHECK(l->ref->inGroup == g->label, "catalog:mapped", "network not mapped onto the roles"); } } CHECK(gi == 7 && cnt == m.n, "catalog:complete", "%d role groups hold %d of %d nodes", gi, cnt, m.n);
    for (int i = 0; i < m.n; i++) { Z a = zscore(m, of, i, w); double pp = partic(m, of, i, w); if (a.firm || kind == 1) CHECK(roleok(got[i], pp, a.z, 1e-8), "catalog:role", "node %s with P=%.10g z=%.10g has role %d, expected %d", m.lab[i].c_str(), pp, a.z, got[i], role(pp, a.z)); if (got[i] >= 4) vf::count("monitor.hubs"); } RemovePartition(ro); MapPartToNet(p, net); }
  RemovePartition(p); RemoveGraph(net);
  // array-based
  if (m.n) { vf::stage("array"); gsl_rng *gr = gen(k + 5); bool norm = m.links() > 0 && r.p(.7); PA x = load(r, m, m.n, norm); AssignNodesToModules(x.p, gr); map<int, int> first; for (int i = 0; i < m.n; i++) { if (!first.count(of[i])) { int z = (int)first.size(); first[of[i]] = z; } if (first[of[i]] != (int)x.p->nodes[i]->module) ChangeModule(i, first[of[i]], x.p); } if (r.p(.7)) CompressPartition(x.p); vector<double> c(m.n, 7), q(m.n, 7); PartitionRolesMetrics(x.p, x.a, c.data(), q.data());
    for (int i = 0; i < m.n; i++) { Z b = zscore(m, of, i, true); CHECK(fabs(q[i] - partic(m, of, i, true)) < 1e-9, "array:participation", "participation %.12g of node %d, definition %.12g", q[i], i, partic(m, of, i, true)); if (b.firm || kind == 1) CHECK(fabs(c[i] - b.z) < 1e-7 * (1 + fabs(b.z)), "array:zscore", "z-score %.12g of node %d, definition %.12g", c[i], i, b.z); vf::count("monitor.array_metrics"); } drop(x); gsl_rng_free(gr); }
  // tabular output of a two-mode network: roles on the projection
  if (k % 3 == 0) { B b = random_bip(r, r.in(2, 12), r.in(1, 10), r.in(0, 2)); struct binet *bn = build(r, b); auto w = nodes(bn->net1); int n = (int)w.size(); G pr[2]; for (int t = 0; t < 2; t++) { NG *pn = t ? ProjectBipartWeighted(bn) : ProjectBipart(bn); pr[t] = extract(pn, "table:projection"); RemoveGraph(pn); } int g2 = r.in(1, 4); vector<int> f(n); for (int &x : f) x = r.in(0, g2 - 1); ResetNetGroup(bn->net1); GR *q = CreateHeaderGroup(); vector<GR *> gg; for (int j = 0; j < g2; j++) gg.push_back(CreateGroup(q, j)); for (int i = 0; i < n; i++) AddNodeToGroup(gg[f[i]], w[i]); CompressPart(q);
    for (int deg = 0; deg < 2; deg++) for (int wt = 0; wt < 2; wt++) { FILE *o = tmpfile(); vf::stage("table"); FPrintTabNodesBipart(o, bn, q, deg, wt); string txt = slurp(o); fclose(o); const G &g = pr[wt && !deg]; bool st = !deg; size_t at = 0; set<string> seen; int grp = 0; const char *c = txt.c_str(); for (GR *h = q->next; h; h = h->next) { grp++; for (NL *l = h->nodeList->next; l; l = l->next) { char lab[200]; int gn, ro, adv; double P, z; if (sscanf(c, "%199s %d R%d %lf %lf%n", lab, &gn, &ro, &P, &z, &adv) != 5) { vf::viol("table:format", "line missing: %s", string(c).substr(0, 100).c_str()); goto done; } c += adv; int i = -1; for (int y = 0; y < g.n; y++) if (g.lab[y] == l->nodeLabel) i = y; CHECK(!strcmp(lab, l->nodeLabel) && gn == grp, "table:node", "line for %s group %d, expected %s group %d", lab, gn, l->nodeLabel, grp); if (i < 0) continue; Z a = zscore(g, f, i, st); double pp = partic(g, f, i, st); CHECK(fabs(P - pp) < 2e-6, "table:participation", "P=%g of %s, definition %g", P, lab, pp); if (a.firm) { CHECK(fabs(z - a.z) < 2e-6 * (1 + fabs(a.z)), "table:zscore", "z=%g of %s, definition %g", z, lab, a.z); CHECK(roleok(ro - 1, pp, a.z, 1e-8), "table:role", "role R%d of %s with P=%g z=%g", ro, lab, pp, a.z); } vf::count("monitor.table_rows"); } } CHECK(!*c || (*c == '\n' && !c[1]), "table:extra", "extra output"); done:; (void)at; }
    RemovePartition(q); RemoveBipart(bn); }
}
