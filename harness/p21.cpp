// P21: two-mode modularity and participation.
#include "bip.hpp"
using namespace std;
long n_cases(int tier) { return tier ? 200000 : 16000; }
// a team with more members than the square root of the largest int: products of degrees must not be formed in int
static void chain(NG *a, NG *b, NL *&tail) { tail->next = (NL *)calloc(1, sizeof(NL)); tail = tail->next; tail->node = b->num; tail->nodeLabel = (char *)calloc(MAX_LABEL_LENGTH, 1); strcpy(tail->nodeLabel, b->label); tail->ref = b; tail->weight = 1; (void)a; }
static void large(Rng &r) {
  int n = r.in(66000, 80000), n2 = 3; vf::input(vf::fmt("team of %d actors", n), true); vf::stage("large"); struct binet *x = CreateBipart(); x->net1 = CreateHeaderGraph(); x->net2 = CreateHeaderGraph(); vector<NG *> v1, v2; NG *l = x->net1; char lab[32];
  for (int i = 0; i < n; i++) { snprintf(lab, sizeof lab, "a%d", i); v1.push_back(l = CreateNodeGraph(l, lab)); } l = x->net2; for (int t = 0; t < n2; t++) { snprintf(lab, sizeof lab, "t%d", t); v2.push_back(l = CreateNodeGraph(l, lab)); }
  vector<NL *> t1, t2; for (auto *q : v1) t1.push_back(q->neig); for (auto *q : v2) t2.push_back(q->neig); vector<vector<char>> in(n, vector<char>(n2)); vector<double> d(n2);
  for (int i = 0; i < n; i++) for (int t = 0; t < n2; t++) if (t == 0 || (i < 40 && r.p(.5))) { in[i][t] = 1; d[t]++; chain(v1[i], v2[t], t1[i]); chain(v2[t], v1[i], t2[t]); }
  double s1 = 0, s2 = 0; for (double z : d) s1 += z, s2 += z * z; struct group *part = CreateHeaderGroup(), *g = part; double q = 0; vector<int> of(60); vector<struct group *> gs; for (int j = 0; j < 3; j++) gs.push_back(g = CreateGroup(g, j)); for (int i = 0; i < 60; i++) { of[i] = r.in(0, 2); AddNodeToGroup(gs[of[i]], v1[i]); }
  for (int i = 0; i < 60; i++) for (int j = 0; j < 60; j++) if (i != j && of[i] == of[j]) { int c = 0, di = 0, dj = 0; for (int t = 0; t < n2; t++) c += in[i][t] && in[j][t], di += in[i][t], dj += in[j][t]; q += c / (s2 - s1) - (double)di * dj / (s1 * s1); }
  double got = ModularityBipart(x, part); CHECK(fabs(got - q) <= 1e-9 * fabs(q), "modularity:large", "two-mode modularity with a team of %d actors is %.12g, expected %.12g", n, got, q); vf::count("monitor.large_teams"); RemovePartition(part); RemoveBipart(x);
}
void run_case(long k, Rng &r) {
  if (k % 16000 == 7777) { large(r); return; }
  int wm = r.in(0, 2); B b = random_bip(r, k % 313 == 105 ? 410 : k % 37 == 0 ? 30 : 10, k % 313 == 105 ? 410 : k % 37 == 0 ? 30 : 10, wm); int M = r.in(1, b.n1); vector<int> m(b.n1); int style = r.in(0, 3); for (int i = 0; i < b.n1; i++) m[i] = style == 0 ? 0 : style == 1 ? i : r.in(0, M - 1);
  string in = b.text() + " part"; for (int q : m) in += " " + to_string(q); struct binet *x = build(r, b); auto v = nodes(x->net1); int ng = style == 1 ? b.n1 : style == 0 ? 1 : M; struct group *part = CreateHeaderGroup(), *g = part; vector<struct group *> gs; for (int i = 0; i < ng; i++) gs.push_back(g = CreateGroup(g, i)); vector<int> o(b.n1); iota(o.begin(), o.end(), 0); r.shuffle(o); for (int i : o) AddNodeToGroup(gs[m[i]], v[i]);
  double s1 = 0, s2 = 0, w1 = 0, w2 = 0; for (int t = 0; t < b.n2; t++) { double d = b.deg2(t), s = b.str2(t); s1 += d; s2 += d * d; w1 += s; w2 += s * s; } vf::input(in, b.n1 > 1 && b.links() > 1);
  double q = 0, qw = 0, qf = 0; vector<vector<double>> mat(b.n1, vector<double>(b.n1)); vector<double *> rows; for (auto &z : mat) { for (auto &c : z) c = 0; rows.push_back(z.data()); } for (int i = 0; i < b.n1; i++) for (int j = 0; j < i; j++) mat[i][j] = mat[j][i] = r.u() - .5;
  for (int i = 0; i < b.n1; i++) for (int j = 0; j < b.n1; j++) if (i != j && m[i] == m[j]) { int c = 0; double s = 0; for (auto &e : b.a[i]) { auto f = b.a[j].find(e.first); if (f != b.a[j].end()) { c++; s += e.second * f->second; } } q += c / (s2 - s1) - (double)b.a[i].size() * b.a[j].size() / (s1 * s1); qw += s / (w2 - w1) - b.str1(i) * b.str1(j) / (w1 * w1); if (i < j) qf += mat[i][j]; }
  vf::stage("modularity"); if (s1 > 0 && s2 > s1) { CHECK_NEAR(ModularityBipart(x, part), q, 1e-10, "modularity", "two-mode modularity"); vf::count("monitor.modularity"); }
  if (w1 > 0 && fabs(w2 - w1) > 1e-9) CHECK_NEAR(ModularityBipartWeighted(x, part), qw, 1e-10, "modularity:weighted", "weighted two-mode modularity");
  CHECK_NEAR(ModularityBipartWeightedFast(x, part, rows.data()), qf, 1e-10, "modularity:fast", "matrix-based modularity");
  vf::stage("participation"); vector<double> P(b.n1); for (int i = 0; i < b.n1; i++) { map<int, double> c; double n = 0; for (auto &e : b.a[i]) for (int j = 0; j < b.n1; j++) if (j != i && b.a[j].count(e.first)) { c[m[j]]++; n++; } double p = 0; if (n) { p = 1; for (auto &z : c) p -= z.second * z.second / n / n; } P[i] = p; }
  // group numbers must stay below the number of nodes after the node in question: use the first node's view (whole list)
  for (int i = 0; i < b.n1; i++) CHECK_NEAR(ParticipationCoefficientBipart(v[i]), P[i], 1e-10, "participation", "participation of " + b.l1[i]);
  double me = 0, sd = 0, lo = P[0], hi = P[0]; for (double p : P) { me += p / b.n1; lo = min(lo, p); hi = max(hi, p); } for (double p : P) sd += (p - me) * (p - me) / b.n1; sd = sqrt(sd); double a = -9, c = -9, d = -9, e = -9; StatisticsParticipationCoefficientBipart(x->net1, &a, &c, &d, &e); CHECK_NEAR(a, me, 1e-9, "stats", "mean participation"); CHECK(fabs(c - sd) < 1e-6, "stats", "participation deviation %g, expected %g", c, sd); CHECK_NEAR(d, lo, 1e-9, "stats", "lowest participation"); CHECK_NEAR(e, hi, 1e-9, "stats", "highest participation");
  RemovePartition(part); RemoveBipart(x);
}
