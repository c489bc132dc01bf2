// Incremental energies and counts against a recount, from arbitrary partitions, with small lookup tables and extreme random numbers.
#define VF_SHARED_TABLE
#include "samp2.hpp"
static std::vector<int> random_labels(Rng &r, int n) { std::vector<int> c(n); int m = n > 300 && n < 1000 && r.p(.7) ? 1 : r.in(0, 4), k = m == 0 ? 1 : m == 1 ? n : r.in(1, n); std::vector<int> p(n); std::iota(p.begin(), p.end(), 0); r.shuffle(p); for (int i = 0; i < n; i++) c[i] = m == 1 ? p[i] : p[r.in(0, k - 1)]; return c; }
static void groups(const std::vector<NG *> &v, const std::vector<GR *> &g, const std::string &who, bool inl) {
  std::vector<int> c; for (auto *x : v) c.push_back(x->inGroup); bool ok = true; for (int x : c) ok &= x >= 0 && x < (int)g.size(); CHECK(ok, "cover:" + who, "a node is in no group"); if (!ok) return;
  int tot = 0; for (size_t k = 0; k < g.size(); k++) { int s = 0, m = 0; for (NL *l = g[k]->nodeList->next; l; l = l->next) { s++; CHECK(l->ref->inGroup == (int)k, "cover:" + who, "node %s is listed in group %zu but belongs to %d", l->ref->label, k, l->ref->inGroup); }
    CHECK(s == g[k]->size, "size:" + who, "group %zu lists %d nodes, records %d", k, s, g[k]->size); tot += s; if (inl) { for (size_t i = 0; i < v.size(); i++) if (c[i] == (int)k) for (NL *l = v[i]->neig->next; l; l = l->next) m += l->ref->inGroup == (int)k; CHECK(m / 2 == g[k]->inlinks, "inlinks:" + who, "group %zu records %d links inside, recount %d", k, g[k]->inlinks, m / 2); } }
  CHECK(tot == (int)v.size(), "cover:" + who, "groups list %d nodes of %zu", tot, v.size()); }
static gsl_rng *any_gen(Rng &r) { return r.p(.5) ? gen(r.next() & 0xffffffff) : hostile(r.next() & 0xffffff, r.u() * .4, r.u() * .4); }
static Lists small_lists(Rng &r) { static const int sz[] = {1, 2, 3, 5, 10, 150}; auto f = [&] { return sz[r.in(0, 5)]; }; int a = f(), b = f(), c = f(); return Lists(a, b, c); }
long n_cases(int tier) { return tier ? 600000 : 19500; }
// more users than the square root of the largest int: the share of moves in each set
static void large(Rng &r) {
  int mode = r.p(.5) ? TWO : KMC, K = mode == TWO ? 2 : r.in(2, 3); Rat R; R.K = K; R.b.init(r.in(46400, 47000), 3); for (int i = 0; i < 2000; i++) R.b.a[r.in(0, R.b.n1 - 1)][r.in(0, 2)] = r.in(0, K - 1); vf::input(vf::fmt("%s with %d users", sname[mode], R.b.n1), true); vf::stage("large"); struct binet *net = build(r, R); gsl_rng *gg = gen(r.next() % 1000000); Lists T(100, 100, 20);
  BiState S(net, mode, K, T); S.set(random_labels(r, S.n1), random_labels(r, S.n2)); auto c1 = S.lab1(), c2 = S.lab2(); long double h0 = R.HL(c1, c2); S.step(1, gg); auto d1 = S.lab1(), d2 = S.lab2(); long double h1 = R.HL(d1, d2); CHECK(std::fabs(S.H - (double)(h1 - h0)) < 1e-9 * std::fabs((double)h0) + 1e-6, "drift:large", "the tracked energy moved by %.9g, recomputed %.9g", S.H, (double)(h1 - h0));
  int moved = 0; for (int i = 0; i < S.n1; i++) moved += c1[i] != d1[i]; CHECK(moved > 0, "moves:large", "no move among %d users in a whole step", S.n1); vf::count("monitor.large_steps"); S.free_all(); T.done(); RemoveBipart(net); gsl_rng_free(gg);
}
static std::vector<struct query *> random_queries(Rng &r, const Rat &R, struct binet *net, int n) { auto v1 = nodes(net->net1), v2 = nodes(net->net2); std::vector<struct query *> q; for (int i = 0; i < n; i++) q.push_back(CreateQuery(v1[r.in(0, R.b.n1 - 1)], v2[r.in(0, R.b.n2 - 1)])); return q; }
// Whole runs in debug mode print the energy they track beside the recomputed one: every line of that trace is checked.
struct Trace { std::string text; std::vector<long> iters; long lines = 0; double worst = 0; std::string what; bool restarted = false; };
template <class F> static Trace traced(F f) {
  FILE *old = stderr; char *buf = nullptr; size_t len = 0; FILE *m = open_memstream(&buf, &len); stderr = m; f(); stderr = old; fclose(m); Trace t; t.text.assign(buf, len); free(buf); t.restarted = t.text.find("starting over") != std::string::npos;
  std::istringstream in(t.text); std::string l; while (std::getline(in, l)) {
    if (l.empty() || l[0] == '#') continue; std::istringstream w(l); std::vector<std::string> f; std::string x; while (w >> x) f.push_back(x); size_t i = 0; bool burn = f.size() > 0 && f[0] == "burn"; if (burn) i++; auto real = [](const std::string &s) { return s.find_first_not_of("-0123456789.naif") == std::string::npos && s.size() > 2; }; auto whole = [](const std::string &s) { return !s.empty() && s.find_first_not_of("0123456789") == std::string::npos; };
    bool it = i < f.size() && whole(f[i]); long n = it ? atol(f[i].c_str()) : -1; if (it) i++; if (f.size() < i + 2 || !real(f[i]) || !real(f[i + 1]) || f[i].find('.') == std::string::npos) continue;
    double h = atof(f[i].c_str()), e = atof(f[i + 1].c_str()), d = std::fabs(h - e) / (1 + std::fabs(h) + std::fabs(e)); if (!(d < 1e300)) d = 1e300; t.lines++; if (it && !burn) t.iters.push_back(n); if (d > t.worst) t.worst = d, t.what = l; }
  return t; }
static void trace(Rng &r) {
  static const std::pair<Model, int> ms[] = {{PLAIN, 0}, {PLAIN, 1}, {AND, 0}, {AND, 1}, {OR, 0}, {OR, 1}, {OD, 0}, {OD, 1}, {SPARSE, 1}};
  int kind = r.in(0, 15), it = r.in(1, 8); unsigned long seed = r.next() & 0xffffffff; std::string who; std::vector<double> res[3]; Trace T[3]; static const char vs[] = "qvd";
  auto relabel = [](G &g) { for (int i = 0; i < g.n; i++) g.lab[i] = vf::fmt("n%d", i); };
  if (kind < 9 || kind > 13) {
    Model m = kind < 9 ? ms[kind].first : PLAIN; int gibbs = kind < 9 ? ms[kind].second : 0; who = kind == 14 ? "trace:netscore" : kind == 15 ? "trace:sampling" : std::string("trace:") + mname[m] + (gibbs ? ":gibbs" : ":mc"); G g; do g = random_graph(r, 3, r.p(.5) ? 8 : 16); while (g.links() == 0 || g.links() == g.n * (g.n - 1) / 2); relabel(g); double linC = m == SPARSE || r.p(.5) ? 0 : r.in(-8, 8) / 8.;
    int burn = r.in(0, 5), thin = r.in(1, 3); G tar = random_graph(r, g.n, g.n); relabel(tar); vf::input(who + vf::fmt(" linC %g iterations %d ", linC, it) + g.text(), true); vf::stage(who.c_str());
    for (int v = 0; v < 3; v++) { NG *net = build(r, g), *nt = build(r, tar); gsl_rng *gg = gen(seed);
      T[v] = traced([&] { if (kind == 14) res[v].push_back(NetworkScore(nt, net, linC, it, gg, vs[v]));
        else if (kind == 15) { GR **L = PartitionSampling(net, linC, it, gg, vs[v], burn, thin); for (int q = 0; q < it; q++) { MapPartToNet(L[q], net); for (auto *x : nodes(net)) res[v].push_back(x->inGroup); RemovePartition(L[q]); } free(L); }
        else { double **A = run_high(m, gibbs, net, linC, it, gg, vs[v]); for (int i = 0; i < g.n; i++) for (int j = 0; j < g.n; j++) if (i != j) res[v].push_back(A[i][j]); free_d_mat(A, g.n); } });
      RemoveGraph(net); RemoveGraph(nt); gsl_rng_free(gg); }
  } else if (kind < 13) {
    int mode = kind - 9, K = mode == 0 || mode == 3 ? 2 : r.in(1, 4), dec = r.p(.5) ? -1 : r.in(1, 2); static const char *nm[] = {"two", "kmc", "kgibbs", "all"}; who = std::string("trace:") + nm[mode]; Rat R = random_ratings(r, K, 8, 8); for (int i = 0; i < R.b.n1; i++) R.b.l1[i] = vf::fmt("p%d", i); for (int i = 0; i < R.b.n2; i++) R.b.l2[i] = vf::fmt("m%d", i); vf::input(who + vf::fmt(" iterations %d ", it) + R.text(), R.b.n1 > 1); vf::stage(who.c_str()); uint64_t qseed = r.next();
    for (int v = 0; v < 3; v++) { Rng q(qseed); struct binet *net = build(q, R); auto qs = random_queries(q, R, net, mode == 3 ? 0 : q.in(1, 5)); gsl_rng *gg = gen(seed); size_t n = qs.size();
      T[v] = traced([&] { if (mode == 0) { double *x = MultiLinkScore2State(net, qs.data(), n, it, gg, vs[v], dec); for (size_t i = 0; i < n; i++) res[v].push_back(x[i]); free_d_vec(x); }
        else if (mode == 3) { struct query **y = AllLinkScore2State(net, it, gg, vs[v], dec); for (int i = 0; i < R.b.n1 * R.b.n2; i++) { res[v].push_back(y[i]->score); FreeQuery(y[i]); } free(y); }
        else { double **x = mode == 1 ? MultiLinkScoreKState(K, net, qs.data(), n, it, gg, vs[v], dec) : GibbsMultiLinkScoreKState(K, net, qs.data(), n, it, gg, vs[v]); for (int k = 0; k < K; k++) for (size_t i = 0; i < n; i++) res[v].push_back(x[k][i]); free_d_mat(x, K); } });
      for (auto *x : qs) FreeQuery(x); RemoveBipart(net); gsl_rng_free(gg); }
  } else {
    int K = r.in(1, 4), dec = r.p(.5) ? -1 : r.in(1, 2); who = "trace:lsk"; LRat R = random_lrat(r, K, 2, 12); relabel(R.g); vf::input(who + vf::fmt(" iterations %d ", it) + R.text(), R.g.n > 2); vf::stage(who.c_str());
    for (int v = 0; v < 3; v++) { NG *net = build(r, R.g); gsl_rng *gg = gen(seed); T[v] = traced([&] { struct query **q; int m; double **x = LSMultiLinkScoreKState(K, net, it, gg, vs[v], dec, &q, &m); for (int i = 0; i < m; i++) { for (int z = 0; z < K; z++) res[v].push_back(x[z][i]); FreeQuery(q[i]); } free(q); free_d_mat(x, K); }); RemoveGraph(net); gsl_rng_free(gg); }
  }
  vf::count("monitor.traced_runs", 3); vf::count("monitor.trace_lines", T[2].lines); if (getenv("VF_DUMP")) printf("%s\n%s\n", who.c_str(), T[2].text.c_str());
  if (T[2].restarted || T[1].restarted) return;
  CHECK(T[2].worst < 2e-6, "drift:" + who, "the trace of a run has tracked and recomputed energy in the line '%s'", T[2].what.c_str());
  bool seq = T[2].iters.size() >= (size_t)it; for (int i = 0; seq && i < it; i++) seq = T[2].iters[T[2].iters.size() - it + i] == i; vf::count(seq ? "monitor.complete_traces" : "monitor.other_traces");
  for (int v = 1; v < 3; v++) { bool same = res[0].size() == res[v].size(); for (size_t i = 0; same && i < res[0].size(); i++) same = std::fabs(res[0][i] - res[v][i]) < 1e-9; CHECK(same, "verbosity:" + who, "the result with output level %c differs from the quiet one", vs[v]); }
}
void run_case(long k, Rng &r) {
  if (k % 26 == 1) { trace(r); return; }
  if (k % 13000 == 6666) { large(r); return; }
  int kind = k % 13; bool big = (k / 13) % 375 == 187; if (big) vf::count("monitor.big_partitions");   // 0-8 one-mode (model x sampler), 9-11 two-mode, 12 one-mode K-valued
  if (kind < 9) {
    static const std::pair<Model, int> ms[] = {{PLAIN, 0}, {PLAIN, 1}, {AND, 0}, {AND, 1}, {OR, 0}, {OR, 1}, {OD, 0}, {OD, 1}, {SPARSE, 1}}; Model m = ms[kind].first; int gibbs = ms[kind].second; std::string who = std::string(mname[m]) + (gibbs ? ":gibbs" : ":mc");
    G g; do g = big ? random_graph(r, 310, 340) : random_graph(r, m == SPARSE ? 3 : 1, r.p(.3) ? 6 : 32); while (m == SPARSE && (g.links() == 0 || g.links() == g.n * (g.n - 1) / 2)); int n = g.n; if (r.p(.4)) weights(r, g, 1);
    double linC = m == SPARSE || r.p(.5) ? 0 : r.in(-16, 16) / 8.; Post P = Post::make(m, g, linC); NG *net = build(r, g); gsl_rng *gg = any_gen(r); static const int sz[] = {1, 2, 4, 10, 40, 150, 500}; int lcs = sz[r.in(0, 5)], lfs = sz[r.in(0, 6)]; if (m == SPARSE) lfs = std::max(lfs, 2);
    int steps = big ? 1 : r.in(1, 4), factor = big ? 1 : r.in(1, 2); vf::input(who + vf::fmt(" linC %g tables %d,%d steps %d ", linC, lcs, lfs, steps) + g.text(), n >= 3 && g.links() > 0); vf::stage(("step:" + who).c_str());
    State S(net, P, lcs, lfs); S.set(random_labels(r, n)); std::vector<int> a = S.labels(); double lib0 = S.libH(); long double off = m == SPARSE ? -n * (n + 1) / 2 * lbeta(P.a, P.b) : 0;   // constant per pair of (possibly empty) groups
    CHECK_NEAR(lib0, (double)(P.HL(g, a) + off), 1e-8, "energy:" + who, "energy of a partition of " + g.text());
    long double h0 = P.HL(g, a);
    for (int t = 0; t < steps; t++) {
      S.step(gibbs, factor, gg); std::vector<int> c = S.labels(); groups(S.nl, S.gl, who, true); if (*std::min_element(c.begin(), c.end()) < 0 || *std::max_element(c.begin(), c.end()) >= n) break;
      long double h1 = P.HL(g, c); vf::count("monitor.steps"); if (c != a) vf::count("monitor.steps_that_moved");
      CHECK(std::fabs(S.H - (double)(h1 - h0)) < 1e-7 * (1 + std::fabs((double)h0) + std::fabs((double)h1)), "drift:" + who, "after %d steps the tracked energy moved by %.9g, recomputed %.9g; tables %d,%d linC %g from %s", t + 1, S.H, (double)(h1 - h0), lcs, lfs, linC, g.text().c_str());
      CHECK_NEAR(S.libH(), (double)(h1 + off), 1e-8, "energy:" + who, "energy after a step");
      std::map<std::pair<int, int>, int> L; for (int i = 0; i < n; i++) for (auto &e : g.a[i]) L[{c[i], c[e.first]}]++; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j) { auto it = L.find({i, j}); int e = it == L.end() ? 0 : it->second; CHECK(S.G2G[i][j] == e, "g2g:" + who, "links between groups %d and %d: tracked %d, recount %d after %d steps", i, j, S.G2G[i][j], e, t + 1); }
      if (r.p(.2)) { S.set(random_labels(r, n)); h0 = P.HL(g, a = S.labels()); } else a = c; }
    S.free_all(); RemoveGraph(net); gsl_rng_free(gg);
  } else if (kind < 12) {
    int mode = kind - 9, K = mode == TWO ? 2 : r.in(1, 5); std::string who = sname[mode]; Rat R = random_ratings(r, K, r.p(.3) ? 5 : 18, r.p(.3) ? 5 : 18); if (big) { B &z = R.b; bool w = r.p(.5); int A = w ? r.in(305, 330) : r.in(2, 6), C = w ? r.in(2, 6) : r.in(305, 330); z.init(A, C); for (int i = 0; i < A; i++) for (int j = 0; j < C; j++) if (r.p(.6)) z.a[i][j] = r.in(0, K - 1); } struct binet *net = build(r, R); gsl_rng *gg = any_gen(r); Lists T = small_lists(r);
    int steps = big ? 1 : r.in(1, 4), factor = big ? 1 : r.in(1, 2); vf::input(who + vf::fmt(" tables %d,%d,%d steps %d ", T.LS, T.FS, T.CS, steps) + R.text(), R.b.n1 + R.b.n2 >= 4 && R.b.links() > 1); vf::stage(("step:" + who).c_str());
    BiState S(net, mode, K, T); S.set(random_labels(r, S.n1), random_labels(r, S.n2)); long double h0 = R.HL(S.lab1(), S.lab2()), off = mode == TWO ? 0 : S.n1 * S.n2 * lnf(K - 1);
    CHECK_NEAR(S.libH(), (double)(h0 + off), 1e-8, "energy:" + who, "energy of a pair of partitions of " + R.text());
    for (int t = 0; t < steps; t++) {
      S.step(factor, gg); groups(S.v1, S.g1, who, false); groups(S.v2, S.g2, who, false); auto c1 = S.lab1(), c2 = S.lab2(); bool ok = true; for (int x : c1) ok &= x >= 0 && x < S.n1; for (int x : c2) ok &= x >= 0 && x < S.n2; if (!ok) break; vf::count("monitor.steps");
      long double h1 = R.HL(c1, c2); CHECK(std::fabs(S.H - (double)(h1 - h0)) < 1e-7 * (1 + std::fabs((double)h0) + std::fabs((double)h1)), "drift:" + who, "after %d steps the tracked energy moved by %.9g, recomputed %.9g; %s", t + 1, S.H, (double)(h1 - h0), R.text().c_str());
      CHECK_NEAR(S.libH(), (double)(h1 + off), 1e-8, "energy:" + who, "energy after a step");
      int e1 = std::set<int>(c1.begin(), c1.end()).size(), e2 = std::set<int>(c2.begin(), c2.end()).size(); CHECK(S.ng1 == e1 && S.ng2 == e2, "ngroups:" + who, "tracked %d and %d groups, recount %d and %d", S.ng1, S.ng2, e1, e2);
      std::vector<std::vector<std::vector<int>>> a, b, x; S.counts(a, b, x, c1, c2);
      for (int q = 0; q < K; q++) for (int i = 0; i < S.n1; i++) for (int j = 0; j < S.n2; j++) { CHECK(S.N1[q][i][j] == a[q][i][j] && S.N2[q][j][i] == b[q][j][i], "n2g:" + who, "ratings %d between nodes and groups %d,%d: tracked %d and %d, recount %d and %d", q, i, j, S.N1[q][i][j], S.N2[q][j][i], a[q][i][j], b[q][j][i]); CHECK(S.X1[q][i][j] == x[q][i][j] && S.X2[q][j][i] == x[q][i][j], "g2g:" + who, "ratings %d between groups %d and %d: tracked %d and %d, recount %d", q, i, j, S.X1[q][i][j], S.X2[q][j][i], x[q][i][j]); }
      if (r.p(.2)) { S.set(random_labels(r, S.n1), random_labels(r, S.n2)); h0 = R.HL(S.lab1(), S.lab2()); } }
    S.free_all(); T.done(); RemoveBipart(net); gsl_rng_free(gg);
  } else {
    int K = r.in(1, 5); std::string who = sname[LSK]; LRat R = random_lrat(r, K, 1, r.p(.3) ? 5 : 20); if (big) { int N = r.in(305, 330); R.g.init(N); for (int i = 0; i < N; i++) for (int q = r.in(0, 4); q--;) { int j = r.in(0, N - 1); if (j != i) R.g.a[i][j] = R.g.a[j][i] = r.in(0, K - 1); } } int n = R.g.n; NG *net = build(r, R.g); gsl_rng *gg = any_gen(r); Lists T = small_lists(r); int steps = big ? 1 : r.in(1, 4), factor = big ? 1 : r.in(1, 2);
    vf::input(who + vf::fmt(" tables %d,%d,%d steps %d ", T.LS, T.FS, T.CS, steps) + R.text(), n >= 3 && R.g.links() > 0); vf::stage(("step:" + who).c_str());
    LState S(net, K, T); S.set(random_labels(r, n)); long double h0 = R.HL(S.labels()), off = n * (n + 1) / 2 * lnf(K - 1); CHECK_NEAR(S.libH(), (double)(h0 + off), 1e-8, "energy:" + who, "energy of a partition of " + R.text());
    for (int t = 0; t < steps; t++) {
      S.step(factor, gg); groups(S.v, S.g, who, true); auto c = S.labels(); bool ok = true; for (int x : c) ok &= x >= 0 && x < n; if (!ok) break; vf::count("monitor.steps");
      long double h1 = R.HL(c); CHECK(std::fabs(S.H - (double)(h1 - h0)) < 1e-7 * (1 + std::fabs((double)h0) + std::fabs((double)h1)), "drift:" + who, "after %d steps the tracked energy moved by %.9g, recomputed %.9g; %s", t + 1, S.H, (double)(h1 - h0), R.text().c_str());
      CHECK_NEAR(S.libH(), (double)(h1 + off), 1e-8, "energy:" + who, "energy after a step"); int e1 = std::set<int>(c.begin(), c.end()).size(); CHECK(S.ng == e1, "ngroups:" + who, "tracked %d groups, recount %d", S.ng, e1);
      std::vector<std::vector<std::vector<int>>> a, x; S.counts(a, x, c);
      for (int q = 0; q < K; q++) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { CHECK(S.N2G[q][i][j] == a[q][i][j], "n2g:" + who, "links %d of node %d to group %d: tracked %d, recount %d", q, i, j, S.N2G[q][i][j], a[q][i][j]); CHECK(S.G2G[q][i][j] == x[q][i][j], "g2g:" + who, "links %d between groups %d and %d: tracked %d, recount %d", q, i, j, S.G2G[q][i][j], x[q][i][j]); }
      if (r.p(.2)) { S.set(random_labels(r, n)); h0 = R.HL(S.labels()); } }
    S.free_all(); T.done(); RemoveGraph(net); gsl_rng_free(gg);
  }
}
