// P13: partition similarity measures behave as information measures.
#include "rg.hpp"
using namespace std;
long n_cases(int tier) { return tier ? 400000 : 15000; }
static GR *make(Rng &r, NG *net, const vector<NG *> &v, const vector<int> &of, int maxlab, bool soft, bool empties, vector<int> *labs = nullptr) {   // groups in random order, nodes in random order
  map<int, vector<int>> by; for (size_t i = 0; i < of.size(); i++) by[of[i]].push_back((int)i); vector<int> ids; for (auto &g : by) ids.push_back(g.first); r.shuffle(ids); vector<int> lab; for (int i = 0; i < maxlab; i++) lab.push_back(i); r.shuffle(lab); GR *p = CreateHeaderGroup(); size_t at = 0;
  for (int id : ids) { if (empties && r.p(.3) && at + ids.size() + 1 < lab.size()) CreateGroup(p, lab[lab.size() - 1]), lab.pop_back(); GR *g = CreateGroup(p, lab[at]); if (labs) labs->push_back(lab[at]); at++; auto mem = by[id]; r.shuffle(mem); for (int i : mem) soft ? AddNodeToGroupSoft(g, v[i]->label) : AddNodeToGroupFast(g, v[i]); } return p; }
static double nmi(const vector<int> &a, const vector<int> &b) { double n = a.size(); map<int, double> ca, cb; map<pair<int, int>, double> j; for (size_t i = 0; i < a.size(); i++) { ca[a[i]]++; cb[b[i]]++; j[{a[i], b[i]}]++; } double ha = 0, hb = 0, hj = 0; for (auto &x : ca) ha -= x.second / n * log(x.second / n); for (auto &x : cb) hb -= x.second / n * log(x.second / n); for (auto &x : j) hj -= x.second / n * log(x.second / n); if (ha + hb < 1e-300) return 1; return 2 * (ha + hb - hj) / (ha + hb); }
static vector<int> randp(Rng &r, int n) { vector<int> a(n); int how = r.in(0, 5), g = r.in(1, n); if (how == 0) fill(a.begin(), a.end(), 0); else if (how == 1) iota(a.begin(), a.end(), 0); else for (int &x : a) x = r.in(0, (how == 2 ? min(n, 3) : g) - 1); return a; }
// all values the definition allows: every tie between best-matching reference groups may be broken either way
static void cc_values(const vector<int> &ref, const vector<int> &act, set<long> &out) {
  map<int, map<int, int>> ov; for (size_t i = 0; i < ref.size(); i++) ov[act[i]][ref[i]]++; vector<vector<pair<int, int>>> best; double combos = 1; for (auto &g : ov) { int mx = 0; for (auto &x : g.second) mx = max(mx, x.second); vector<pair<int, int>> b; for (auto &x : g.second) if (x.second == mx) b.push_back({x.first, mx}); combos *= b.size(); best.push_back(b); } if (combos > 3000) return;
  vector<size_t> c(best.size(), 0); while (1) { map<int, int> top; for (size_t i = 0; i < c.size(); i++) { auto &x = best[i][c[i]]; top[x.first] = max(top[x.first], x.second); } long s = 0; for (auto &t : top) s += t.second; out.insert(s); size_t i = 0; while (i < c.size() && ++c[i] == best[i].size()) c[i++] = 0; if (i == c.size()) break; } }
void run_case(long k, Rng &r) {
  int n = k % 400 == 9 ? r.in(300, 700) : k % 17 == 0 ? r.in(20, 60) : r.in(1, 12); G m; m.init(n); int st = r.in(0, 4); for (int i = 0; i < n; i++) m.lab[i] = rand_label(r, i, st); NG *net = build(r, m); auto v = nodes(net); vector<int> a = randp(r, n), b = r.p(.2) ? a : randp(r, n); if (r.p(.2)) { b = a; for (int &x : b) if (r.p(.1)) x = a[r.in(0, n - 1)]; }
  string d = "ref "; for (int x : a) d += vf::fmt("%d,", x); d += " act "; for (int x : b) d += vf::fmt("%d,", x); vf::input(d, n > 2); double want = nmi(a, b);
  int variants = n > 100 ? 2 : 4; for (int t = 0; t < variants; t++) { bool soft = t & 1; vf::stage(soft ? "mi-label" : "mi-number"); GR *p = make(r, net, v, a, n + 3, soft, true), *q = make(r, net, v, b, n + 3, soft, true); for (int sw = soft ? 1 : 0; sw < 2; sw++) { double x = MutualInformation(p, q, sw), y = MutualInformation(q, p, sw); CHECK(fabs(x - want) < 1e-9, "mi:value", "mutual information %.12g, definition %.12g (matching by %s)", x, want, sw ? "label" : "number"); CHECK(fabs(x - y) < 1e-12, "mi:symmetric", "%.12g one way, %.12g the other", x, y); CHECK(x > -1e-9 && x < 1 + 1e-9, "mi:range", "mutual information %g", x); CHECK(fabs(MutualInformation(p, p, sw) - 1) < 1e-9, "mi:self", "mutual information with itself %g", MutualInformation(p, p, sw)); vf::count("monitor.mi"); } RemovePartition(p); RemovePartition(q); }
  { vf::stage("mi-renamed"); GR *p = make(r, net, v, a, 2 * n + 5, false, false), *q = make(r, net, v, a, 2 * n + 5, true, true); CHECK(fabs(MutualInformation(p, q, 1) - 1) < 1e-9, "mi:identical", "identical up to renaming, but %g", MutualInformation(p, q, 1)); RemovePartition(p); RemovePartition(q); }
  { set<long> ok; cc_values(a, b, ok); if (!ok.empty()) for (int t = 0; t < 3; t++) { vf::stage("classified"); GR *p = make(r, net, v, a, n, false, true), *q = make(r, net, v, b, n, false, true); double x = CorrectlyClassified(p, q); bool hit = false; for (long s : ok) hit |= fabs(x - (double)s / n) < 1e-12; CHECK(hit, "classified", "fraction correctly classified %.10g, expected %ld/%d%s", x, *ok.begin(), n, ok.size() > 1 ? " or another way of breaking ties" : ""); if (ok.size() == 1) vf::count("monitor.classified_exact"); else vf::count("monitor.classified_ties"); CHECK(CorrectlyClassified(p, p) == 1, "classified:self", "a partition classifies %g of itself", CorrectlyClassified(p, p)); RemovePartition(p); RemovePartition(q); } }
  RemoveGraph(net);
  if (k == 11) { int N = 46500, n0 = 46300; vf::stage("mi-large"); GR *p = CreateHeaderGroup(), *q = CreateHeaderGroup(); G big; big.init(1); NG *bn = build(r, big); (void)bn; for (GR *h : {p, q}) { GR *g = CreateGroup(h, 0), *g2 = CreateGroup(h, 1); for (int j = 0; j < 2; j++) { NL *last = (j ? g2 : g)->nodeList; for (int i = 0; i < (j ? N - n0 : n0); i++) { NL *z = (NL *)calloc(1, sizeof(NL)); z->node = i + j * n0; z->nodeLabel = (char *)calloc(100, 1); snprintf(z->nodeLabel, 100, "%d", z->node); last->next = z; last = z; } (j ? g2 : g)->size = j ? N - n0 : n0; } } vf::arm(60); double x = MutualInformation(p, q, 0); CHECK(fabs(x - 1) < 1e-6, "mi:large", "two identical partitions of %d nodes have mutual information %g", N, x); RemovePartition(p); RemovePartition(q); RemoveGraph(bn); }
}
