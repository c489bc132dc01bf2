// P32: every seeded operation repeated in one process, after unrelated work and with other contents of fresh memory and stack.
#define VF_SHARED_TABLE
#ifdef MEMCHECK
#define VF_TABLE_ROWS 300
#endif
#include "samp2.hpp"
#include "part.hpp"
#include <malloc.h>
extern "C" {
#define new new_
#include "layout.h"
#undef new
}
long n_cases(int tier) { return tier ? 104000 : 6500; }
struct Acc { std::string s; void d(double x) { char b[40]; snprintf(b, sizeof b, "%a ", x == 0 ? 0. : x); s += b; } void i(long x) { s += std::to_string(x) + " "; } void g(gsl_rng *r) { i(gsl_rng_get(r)); }
  void net(NG *n) { for (NG *p = n->next; p; p = p->next) { s += p->label; i(p->num); for (NL *l = p->neig->next; l; l = l->next) { i(l->node); d(l->weight); } s += ";"; } }
  void bip(struct binet *n) { net(n->net1); net(n->net2); }
  void part(GR *p) { for (GR *q = p->next; q; q = q->next) { i(q->label); i(q->size); i(q->inlinks); i(q->outlinks); for (NL *l = q->nodeList->next; l; l = l->next) s += std::string(l->nodeLabel) + ","; s += ";"; } }
  void mat(double **m, int n) { for (int x = 0; x < n; x++) for (int y = 0; y < n; y++) if (x != y) d(m[x][y]); } };
static void hash_stack(unsigned char c) { volatile unsigned char b[40000]; for (size_t i = 0; i < sizeof b; i++) b[i] = c + (unsigned char)(i * 31 >> 3); asm volatile("" : : "r"(b) : "memory"); }
static FILE *hush(int &save) { fflush(stderr); save = dup(2); FILE *t = tmpfile(); dup2(fileno(t), 2); return t; }
static std::string unhush(FILE *t, int save) { fflush(stderr); dup2(save, 2); close(save); std::string s = slurp(t); fclose(t); return s; }
static const char *names[] = {"sampler", "kstate-two-mode", "kstate-one-mode", "GeneralSA", "SACommunityIdent", "randomize", "randomize-bipart", "modular-bipart", "layout", "models", "networkscore", "reconstruct", "measures"};
static const int NOPS = sizeof names / sizeof *names;
// one run of operation op, everything decided by the seed
static std::string op(int kind, uint64_t seed, int size) {
  Rng r(seed); r.next(); gsl_rng *g = gen(r.next() & 0xffffffff); Acc a; int s = size;
  switch (kind) {
    case 0: { Model m = (Model)r.in(0, 4); G x; do x = random_graph(r, 3, s); while (m == SPARSE && (!x.links() || x.links() == x.n * (x.n - 1) / 2)); NG *n = build(r, x); double **q = run_high(m, r.in(0, 1), n, r.p(.5) ? 0 : .5, r.in(1, 30), g); a.mat(q, x.n); free_d_mat(q, x.n); RemoveGraph(n); break; }
    case 1: { int d = r.in(0, 3), K = d == 0 || d == 3 ? 2 : r.in(1, 4); Rat R = random_ratings(r, K, s, s); struct binet *n = build(r, R); auto v1 = nodes(n->net1), v2 = nodes(n->net2); std::vector<struct query *> q; for (int t = r.in(1, 5); t > 0; t--) q.push_back(CreateQuery(v1[r.in(0, R.b.n1 - 1)], v2[r.in(0, R.b.n2 - 1)])); int it = r.in(1, 30), dec = r.p(.7) ? -1 : 2, m = q.size();
      if (d == 0) { double *x = MultiLinkScore2State(n, q.data(), m, it, g, 'q', dec); for (int i = 0; i < m; i++) a.d(x[i]); free_d_vec(x); }
      else if (d == 3) { struct query **x = AllLinkScore2State(n, it, g, 'q', dec); for (int i = 0; i < R.b.n1 * R.b.n2; i++) { a.s += std::string(x[i]->n1->label) + " " + x[i]->n2->label + " "; a.d(x[i]->score); FreeQuery(x[i]); } free(x); }
      else { double **x = d == 1 ? MultiLinkScoreKState(K, n, q.data(), m, it, g, 'q', dec) : GibbsMultiLinkScoreKState(K, n, q.data(), m, it, g, 'q'); for (int k = 0; k < K; k++) for (int i = 0; i < m; i++) a.d(x[k][i]); free_d_mat(x, K); }
      for (auto *x : q) FreeQuery(x); a.bip(n); RemoveBipart(n); break; }
    case 2: { LRat R = random_lrat(r, r.in(1, 4), 2, s); NG *n = build(r, R.g); struct query **q; int m; double **x = LSMultiLinkScoreKState(R.K, n, r.in(1, 30), g, 'q', r.p(.7) ? -1 : 2, &q, &m); for (int i = 0; i < m; i++) { a.s += std::string(q[i]->n1->label) + " " + q[i]->n2->label + " "; for (int k = 0; k < R.K; k++) a.d(x[k][i]); FreeQuery(q[i]); } free(q); free_d_mat(x, R.K); RemoveGraph(n); break; }
    case 3: { G x; do x = random_graph(r, 2, 2 * s, r.in(0, 2)); while (!x.links()); PA p = load(r, x, r.p(.6) ? x.n : r.in(2, x.n)); AssignNodesToModules(p.p, g); int sv; FILE *t = hush(sv); GeneralSA(&p.p, p.a, .5, 1. / x.n, r.p(.5) ? 1e-9 : 1e-4, .9, r.p(.3) ? 0 : .5, r.in(1, 20), g); a.s += unhush(t, sv); for (int i = 0; i < x.n; i++) a.i(p.p->nodes[i]->module); a.d(PartitionModularity(p.p, p.a, 0)); std::vector<double> c(x.n), z(x.n); PartitionRolesMetrics(p.p, p.a, c.data(), z.data()); for (int i = 0; i < x.n; i++) a.d(c[i]), a.d(z[i]); CompressPartition(p.p); for (int i = 0; i < x.n; i++) a.i(p.p->nodes[i]->module); drop(p); break; }
    case 4: { G x; do x = random_graph(r, 2, s + 4, 0); while (!x.links()); NG *n = build(r, x); char in = r.p(.5) ? 'o' : 'r'; int sv; FILE *t = hush(sv); GR *p = SACommunityIdent(n, .3, r.p(.5) ? 0 : .01, .8, .3, in == 'r' ? 2 : 0, in, r.in(0, 2), 'n', g); a.s += unhush(t, sv); a.part(p); a.d(Modularity(p)); RemovePartition(p); RemoveGraph(n); break; }
    case 5: { G x = random_graph(r, 2, 3 * s, 0); NG *n = build(r, x); if (r.p(.5)) { RemoveRandomLinks(n, x.links() / 2, 1, g); a.net(n); AddRandomLinks(n, x.links() / 2, 1, g); a.net(n); } NG *m = RandomizeSymmetricNetwork(n, r.in(1, 5), g); a.net(m); if (m != n) RemoveGraph(m); else RemoveGraph(n); break; }
    case 6: { B b = random_bip(r, 2 * s, 2 * s, 0); struct binet *n = build(r, b), *m = RandomizeBipart(n, r.in(1, 5), g); a.bip(m); RemoveBipart(m); break; }
    case 7: { int nm = r.in(1, 4), np = r.in(1, 6); struct binet *n = BuildModularBipartiteNetwork(NULL, np, nm, NULL, r.in(1, 12), r.in(0, 1), r.in(1, nm * np), -1, r.u(), g); a.bip(n); RemoveBipart(n); break; }
    case 8: { G x; do x = random_graph(r, 2, 2 * s, 0); while (!x.links()); NG *n = build(r, x); int k = r.in(0, 2); if (k == 0) MDGraphLayout(n, .05, .1, r.in(1, 40), g, r.in(1, 3)); else if (k == 1) MDGraphLayout2Dp(n, .05, .1, r.in(1, 40), g, r.in(1, 3)); else MDGraphLayout3D(n, .05, .1, r.in(1, 40), g, r.in(1, 3)); for (NG *p : nodes(n)) a.d(p->coorX), a.d(p->coorY), a.d(k == 2 ? p->coorZ : 0); RemoveGraph(n); break; }
    case 9: { int k = r.in(0, 2), S = r.in(3, 3 * s); NG *n; if (k == 0) n = ERGraph(S, r.u(), g); else if (k == 1) n = PAGraph(S, r.in(1, 2), g); else n = GirvanNewmanGraph(r.in(1, 4), r.in(1, 8), r.in(0, 3), r.in(0, 2), 'q', g); a.net(n); RemoveGraph(n); break; }
    case 10: { G x = random_graph(r, 2, s), y = random_graph(r, x.n, x.n); y.lab = x.lab; NG *n = build(r, x), *m = build(r, y); int w = r.in(0, 1); if (w) a.d(NetworkScore(m, n, r.p(.5) ? 0 : .5, r.in(1, 30), g, 'q')); else { int it = r.in(1, 5); GR **L = PartitionSampling(n, 0, it, g, 'q', r.in(0, 1) * 3, r.in(1, 2)); for (int i = 0; i < it; i++) { a.part(L[i]); RemovePartition(L[i]); } free(L); } RemoveGraph(n); RemoveGraph(m); break; }
    case 11: { G x = random_graph(r, 2, std::min(s, 5)); NG *n = build(r, x); if (r.p(.1)) a.d(SBMError(n, g)); else { NG *m = NetReconstruct(n, g); a.net(m); RemoveGraph(m); } RemoveGraph(n); break; }
    case 12: { G x = random_graph(r, 2, 3 * s, r.in(0, 2)); NG *n = build(r, x); auto v = nodes(n); GR *p = ClustersPartition(n); a.part(p); a.d(ClusteringCoefficient(n)); a.d(Assortativity(n)); CalculateNodeBetweenness(n); for (NG *q : v) a.d(q->dvar1); NG *gi = GetLargestWeaklyConnectedSet(n, 100000); a.net(gi); RemoveGraph(gi); RemovePartition(p); for (NG *q : v) a.i(NodeDegree(q)), a.d(NodeStrength(q)); RemoveGraph(n); break; }
  }
  a.g(g); gsl_rng_free(g); return a.s;
}
static void disturb(Rng &r) {   // other contents for memory to be allocated
  std::vector<std::pair<char *, size_t>> b; for (int i = 0; i < 300; i++) { size_t n = r.p(.8) ? r.in(1, 400) : r.in(400, 20000); char *p = (char *)malloc(n); memset(p, r.in(0, 255), n); b.push_back({p, n}); }
  r.shuffle(b); for (size_t i = 0; i < b.size(); i++) if (i % 7) free(b[i].first); static std::vector<char *> kept; for (size_t i = 0; i < b.size(); i += 7) kept.push_back(b[i].first); if (kept.size() > 3000) { for (char *p : kept) free(p); kept.clear(); } }
void run_case(long k, Rng &r) {
  int kind = k % NOPS, size = (k / NOPS) % 3 == 0 ? 4 : vf::tier_ ? 12 : 8; uint64_t seed = r.next(); vf::input(vf::fmt("%s %d %llu", names[kind], size, (unsigned long long)seed), true); vf::stage(names[kind]);
#ifdef MEMCHECK
  op(kind, seed, size); vf::count("monitor.operations"); vf::count("oracle.checks");
#else
  mallopt(M_PERTURB, 0); hash_stack(0); std::string a = op(kind, seed, size);
  for (int t = 0; t < 2; t++) {
    mallopt(M_PERTURB, r.in(1, 255)); disturb(r); if (t) op(r.in(0, NOPS - 1) == 11 ? 5 : r.in(0, 9), r.next(), 4); hash_stack(r.in(1, 255));
    std::string b = op(kind, seed, size); vf::count("monitor.repetitions");
    size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++; CHECK(a == b, std::string("repeat:") + names[kind], "the same seed gave another result: at %zu of %zu: %s / %s", i, a.size(), a.substr(i, 60).c_str(), b.substr(i, 60).c_str()); }
  mallopt(M_PERTURB, 0);
#endif
}
