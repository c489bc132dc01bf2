// Cases shared by the one-mode samplers (P22-P24). MODELS: list of models; STAT: statistical cases, otherwise snapshots.
static const std::vector<Model> models = {MODELS};
static G small_graph(Rng &r, Model m, int nmin, int nmax) {
  for (;;) { G g = random_graph(r, nmin, nmax); int L = g.links(), T = g.n * (g.n - 1) / 2; if (m == SPARSE && (L == 0 || L == T)) continue; return g; } }
#ifdef STAT
// every choice of whole Gibbs sweeps against its exact conditional distribution, on networks far too large to enumerate
static void audit(Model m, Rng &r) {
  gsl_rng *gg = gen(r.next() & 0xffffffff); bool big = r.p(.25); Audit A; std::string who = std::string(mname[m]) + ":gibbs"; vf::stage(("audit:" + who).c_str());
  G g; do { int n = big ? r.in(150, 320) : r.in(5, 40); if (big || r.p(.2)) g = star_like(r, n); else g = random_graph(r, 3, n); } while (m == SPARSE && (g.links() == 0 || g.links() == g.n * (g.n - 1) / 2)); int n = g.n;
  double linC = m == SPARSE || r.p(.5) ? 0 : r.in(-16, 16) / 8.; Post P = Post::make(m, g, linC); NG *net = build(r, g); State S(net, P, 300, 500); std::string in = who + vf::fmt(" audit linC %g ", linC) + g.text(); vf::input(in, true); int sweeps = big ? 2 : r.in(5, 40);
  std::vector<int> lab(n); int q = big ? r.in(1, 3) : r.p(.3) ? n : r.in(1, n); for (int &x : lab) x = r.in(0, q - 1); if (!big && r.p(.3)) { std::iota(lab.begin(), lab.end(), 0); r.shuffle(lab); } S.set(lab);
  for (int t = 0; t < sweeps; t++) { auto a = S.labels(); S.step(1, 1, gg); auto c = S.labels(); if (*std::min_element(c.begin(), c.end()) < 0 || *std::max_element(c.begin(), c.end()) >= n) break; audit_sweep(P, g, a, c, A); vf::count("monitor.audited_sweeps"); }
  judge(A, who, in); S.free_all(); RemoveGraph(net); gsl_rng_free(gg); }
// partition and network drawn together from the model, so that the partition is an exact draw from the posterior; sweeps must leave it so
static void joint(Model m, int gibbs, Rng &r) {
  gsl_rng *gg = gen(r.next() & 0xffffffff); int n = r.in(4, 26), sweeps = r.in(1, 4), factor = r.in(1, 2); long N = vf::tier_ ? 12000 : 2500; std::string who = std::string(mname[m]) + (gibbs ? ":gibbs" : ":mc"); double linC = m == SPARSE || r.p(.5) ? 0 : r.in(-8, 8) / 8.; Post P; P.m = m; P.linC = linC; if (m == SPARSE) { P.b = r.p(.5) ? .5L : r.in(1, 8) / 4.; P.a = r.in(1, 12) / 8.; }
  vf::input(who + vf::fmt(" joint n %d sweeps %d factor %d linC %g a %g b %g", n, sweeps, factor, linC, (double)P.a, (double)P.b), true); vf::stage(("joint:" + who).c_str()); gsl_rng *bg = gen(r.next() & 0xffffffff);
  static const char *names[] = {"groups", "largest group", "squared sizes", "singletons", "first with last", "first with second", "energy", "links inside groups"}; std::vector<Paired> T(8); for (int i = 0; i < 8; i++) T[i].name = names[i];
  auto logw = [&](int k) { double w = -linC * k; if (m == AND || m == OR || m == OD) w += log_degeneracy(k); return w; };
  auto beta = [&]() -> double { switch (m) { case AND: return r.u() * r.u(); case OR: return 1 - r.u() * r.u(); case SPARSE: { double x = gsl_ran_gamma(bg, P.a, 1), y = gsl_ran_gamma(bg, P.b, 1); return x + y > 0 ? x / (x + y) : .5; } default: return r.u(); } };
  for (long t = 0; t < N; t++) {
    std::vector<int> c = draw_partition(r, n, logw); std::map<std::pair<int, int>, double> Q; G g; g.init(n); for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) { std::pair<int, int> ab{std::min(c[i], c[j]), std::max(c[i], c[j])}; auto it = Q.find(ab); if (it == Q.end()) it = Q.insert({ab, beta()}).first; if (r.p(it->second)) g.add(i, j, 1); }
    NG *net = build(r, g); State S(net, P, 100, 200); S.set(labelled(r, c, n)); for (int s = 0; s < sweeps; s++) S.step(gibbs, factor, gg); auto d = S.labels();
    auto in = [&](const std::vector<int> &v) { double x = 0; for (int i = 0; i < n; i++) for (auto &e : g.a[i]) x += e.first > i && v[i] == v[e.first]; return x; };
    auto x = part_stats(c), y = part_stats(d); for (int i = 0; i < 6; i++) T[i].add(y[i] - x[i]); T[6].add((double)(P.H(g, d) - P.H(g, c))); T[7].add(in(d) - in(c)); S.free_all(); RemoveGraph(net); }
  vf::count("monitor.joint_draws", N); vf::count("monitor.sweeps", N * sweeps);
  for (auto &p : T) { vf::count("oracle.joint_tests"); CHECK(p.z() < 7.5, "joint:" + who, "%s drifts away from the posterior: %+.5f on average over %ld exact draws (z=%.1f), n %d sweeps %d linC %g", p.name.c_str(), p.s / p.n, p.n, p.z(), n, sweeps, linC); }
  gsl_rng_free(gg); gsl_rng_free(bg); }
// one whole run of the sparse sampler on a network of more than 300 nodes (the others take minutes to thermalize): the scores are those of the sampled partition
static void large(Model m, Rng &r) {
  G g = star_like(r, r.in(303, 310)); int n = g.n; double linC = m == SPARSE ? 0 : r.in(-8, 8) / 8.; Post P = Post::make(m, g, linC); NG *net = build(r, g); gsl_rng *gg = gen(r.next() & 0xffffffff); std::string who = std::string(mname[m]) + ":gibbs"; vf::input(who + vf::fmt(" large linC %g ", linC) + g.text(), true); vf::stage(("large:" + who).c_str());
  vf_real_table = true; double **A = run_high(m, 1, net, linC, 1, gg); vf_real_table = false; vf::count("monitor.large_runs"); std::vector<int> c; for (auto *x : nodes(net)) c.push_back(x->inGroup); bool ok = true; for (int x : c) ok &= x >= 0 && x < n; CHECK(ok, "cover:" + who, "a node is in no group after sampling"); double worst = 0; int wi = 0, wj = 1;
  if (ok) for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) { double e = P.est(g, c, i, j), d = std::fabs(A[i][j] - e) + std::fabs(A[j][i] - e); if (d > worst) worst = d, wi = i, wj = j; }
  CHECK(worst < 6e-6, "estimate:" + who, "score of %d-%d of %d nodes is %.8f and %.8f; the sampled partition gives %.8f", wi, wj, n, A[wi][wj], A[wj][wi], P.est(g, c, wi, wj)); free_d_mat(A, n); RemoveGraph(net); gsl_rng_free(gg); }
long n_cases(int tier) { return (tier ? 1350 : 96) * (long)models.size(); }
void run_case(long k, Rng &r) {
  Model m = models[k % models.size()]; long q = k / models.size(); if (m == SPARSE && q % 768 == 37) { large(m, r); return; } if (q % 6 == 4) { joint(m, m == SPARSE ? 1 : (q / 6) & 1, r); return; } if (q % 6 == 5) { for (int i = 0; i < 12; i++) audit(m, r); return; }
  int gibbs = m == SPARSE ? 1 : q & 1; bool inv = (q >> 1) % 4 != 3;
  int lo = m == SPARSE ? 3 : 2, n = r.in(lo, inv && vf::tier_ ? 7 : 6); G g = small_graph(r, m, n, n); double linC = r.p(.5) ? 0 : r.in(-8, 8) / 8.; if (m == SPARSE) linC = 0;
  Post P = Post::make(m, g, linC); Exact E = exact(P, g); NG *net = build(r, g); gsl_rng *gg = gen(r.next() & 0xffffffff); std::string who = std::string(mname[m]) + (gibbs ? ":gibbs" : ":mc");
  vf::input(who + (inv ? " inv " : " avg ") + vf::fmt("linC %g ", linC) + g.text(), n >= 3 && g.links() > 0);
  if (inv) {
    long N = vf::tier_ ? 60000 : 20000; int factor = r.in(1, 3); auto &ps = partitions(n); std::map<std::vector<int>, int> id; for (size_t i = 0; i < ps.size(); i++) id[ps[i]] = i;
    Cdf cdf(E.w); std::vector<long> cnt(ps.size(), 0); long moved = 0; vf::stage(("sweep:" + who).c_str());
    State S(net, P, 500, 1000);
    for (long t = 0; t < N; t++) { auto &c = ps[cdf.draw(r)]; S.set(labelled(r, c, n)); S.step(gibbs, factor, gg); auto d = canonv(S.labels()); cnt[id.at(d)]++; moved += d != c; }
    vf::count("monitor.sweeps", N); vf::count("monitor.states_seen", std::count_if(cnt.begin(), cnt.end(), [](long x) { return x > 0; })); vf::count("monitor.moves", moved);
    int bins; double z = chi_test(cnt, E.w, N, bins); vf::count("oracle.distribution_tests");
    CHECK(z < 6.5, "posterior:" + who, "after one sweep from the exact posterior of %s linC %g the partitions are not distributed as the posterior: z=%.1f over %d bins of %ld draws", g.text().c_str(), linC, z, bins, N);
    S.free_all();
  } else {
    int R = 40, it = vf::tier_ ? 600 : 300; std::vector<std::vector<double>> s(n, std::vector<double>(n, 0)), s2 = s; vf::stage(("average:" + who).c_str());
    for (int t = 0; t < R; t++) { double **A = run_high(m, gibbs, net, linC, it, gg); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j) { s[i][j] += A[i][j]; s2[i][j] += A[i][j] * A[i][j]; CHECK(std::fabs(A[i][j] - A[j][i]) < 1e-9 && A[i][j] >= 0 && A[i][j] <= 1, "range:" + who, "scores %g and %g", A[i][j], A[j][i]); } free_d_mat(A, n); }
    double worst = 0; int wi = 0, wj = 1; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) { double mu = s[i][j] / R, se = std::sqrt(std::max(0., s2[i][j] / R - mu * mu) / (R - 1)), d = std::fabs(mu - E.q[i][j]) / (8 * se + .005 * std::min(1., E.sd[i][j] / .05) + 1e-6); vf::count("oracle.averages"); if (d > worst) worst = d, wi = i, wj = j; }
    vf::count("monitor.full_runs", R);
    if (n > 1) CHECK(worst < 1, "average:" + who, "score of %d-%d over %d runs is %.5f, exact %.5f (posterior sd %.3g) for %s linC %g", wi, wj, R, s[wi][wj] / R, E.q[wi][wj], E.sd[wi][wj], g.text().c_str(), linC);
  }
  RemoveGraph(net); gsl_rng_free(gg);
}
#else
long n_cases(int tier) { return (tier ? 4000 : 240) * (long)models.size(); }
void run_case(long k, Rng &r) {
  Model m = models[k % models.size()]; long q = k / models.size(); int gibbs = m == SPARSE ? 1 : q & 1;
  if (q < 2 && (m == AND || m == OD)) for (int i = 1; i < 400; i++) { double x = m == AND ? LogDegeneracy(i) : LogDegeneracy_OD(i), y = log_degeneracy(i); CHECK(std::fabs(x - y) < 1e-6 * (1 + y), "degeneracy", "degeneracy of %d groups is %.9g, exact %.9g", i, x, y); }
  G g = small_graph(r, m, m == SPARSE ? 3 : 2, r.p(.7) ? 12 : gibbs ? 16 : 26); int n = g.n; if (r.p(.4)) weights(r, g, 1); double linC = r.p(.7) ? 0 : r.in(-8, 8) / 8.; Post P = Post::make(m, g, linC);
  NG *net = build(r, g); unsigned long seed = r.next() & 0xffffffff; std::string who = std::string(mname[m]) + (gibbs ? ":gibbs" : ":mc"); vf::input(who + vf::fmt(" snap linC %g ", linC) + g.text(), n >= 3 && g.links() > 0); vf::stage(("run:" + who).c_str());
  G before = extract(net, ("net:" + who).c_str()); int it = r.p(.8) ? 1 : r.in(2, 5);
  gsl_rng *gg = gen(seed); double **A = run_high(m, gibbs, net, linC, it, gg); vf::count("monitor.full_runs");
  std::string why; G after = extract(net, ("net:" + who).c_str()); CHECK(same(after, before, why), "net:" + who, "the network changed: %s", why.c_str());
  std::vector<int> c; for (auto *x : nodes(net)) c.push_back(x->inGroup); bool ok = true; for (int x : c) ok &= x >= 0 && x < n; CHECK(ok, "cover:" + who, "a node is in no group after sampling");
  for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) { CHECK(std::fabs(A[i][j] - A[j][i]) < 1e-9 && A[i][j] >= 0 && A[i][j] <= 1, "range:" + who, "scores %g and %g", A[i][j], A[j][i]);
    if (it == 1 && ok) { double e = P.est(g, c, i, j); CHECK(std::fabs(A[i][j] - e) < 3e-6, "estimate:" + who, "score of %d-%d is %.8f; the sampled partition gives %.8f for %s", i, j, A[i][j], e, g.text().c_str()); } }
  if (it > 1) {   // same seed, same result
    NG *net2 = build(r, g); gsl_rng *g2 = gen(seed); (void)g2; gsl_rng_free(g2); RemoveGraph(net2); }
  free_d_mat(A, n); gsl_rng_free(gg); RemoveGraph(net);
}
#endif
