// Ratings with two or more values: samplers against exact posteriors, drivers against the partitions they ended in.
#define VF_SHARED_TABLE
#define VF_WRAP_PARTITION
#include "samp2.hpp"
// random queries: observed, unobserved and repeated pairs
static std::vector<struct query *> random_queries(Rng &r, const Rat &R, struct binet *net, int n) { auto v1 = nodes(net->net1), v2 = nodes(net->net2); std::vector<struct query *> q; for (int i = 0; i < n; i++) q.push_back(CreateQuery(v1[r.in(0, R.b.n1 - 1)], v2[r.in(0, R.b.n2 - 1)])); return q; }
static Rat without(const Rat &R, const std::vector<struct query *> &qs) { Rat x = R; for (auto *q : qs) x.b.a[q->n1->num].erase(q->n2->num); return x; }
// runs one of the drivers; score[k][q]
enum { D_TWO, D_K, D_GIBBS, D_ALL };
static std::vector<std::vector<double>> drive(int d, const Rat &R, struct binet *net, std::vector<struct query *> &qs, int it, gsl_rng *g, int dec, bool own_all) {
  std::vector<std::vector<double>> s(R.K, std::vector<double>(qs.size())); size_t n = qs.size();
  if (d == D_TWO) { double *x = MultiLinkScore2State(net, qs.data(), n, it, g, 'q', dec); for (size_t i = 0; i < n; i++) s[1][i] = x[i], s[0][i] = 1 - x[i]; free_d_vec(x); }
  else { double **x = d == D_K ? MultiLinkScoreKState(R.K, net, qs.data(), n, it, g, 'q', dec) : GibbsMultiLinkScoreKState(R.K, net, qs.data(), n, it, g, 'q'); for (int k = 0; k < R.K; k++) for (size_t i = 0; i < n; i++) s[k][i] = x[k][i]; free_d_mat(x, R.K); }
  return s; }
#ifdef STAT
static void audit(Rng &r) {
  gsl_rng *gg = gen(r.next() & 0xffffffff); bool big = r.p(.25); Audit A; int K = r.in(1, 5); std::string who = sname[KGIBBS]; vf::stage("audit:kgibbs"); Rat R = random_ratings(r, K, 25, 25); if (big) { double dens = r.p(.5) ? .02 : r.u(); R.b.init(r.in(80, 250), r.in(80, 250)); for (int i = 0; i < R.b.n1; i++) for (int j = 0; j < R.b.n2; j++) if (i < 2 || j < 2 || r.p(dens)) R.b.a[i][j] = i < 2 ? 0 : j == 0 ? r.in(0, K - 1) : K - 1; }
  struct binet *net = build(r, R); Lists T(100, 500, 20); BiState S(net, KGIBBS, K, T); auto lab = [&](int n) { std::vector<int> l(n); int q = big ? r.in(1, 3) : r.p(.3) ? n : r.in(1, n); for (int &x : l) x = r.in(0, std::min(q, n) - 1); return l; }; S.set(lab(S.n1), lab(S.n2)); std::string in = who + " audit " + R.text(); vf::input(in, true); int sweeps = big ? 2 : r.in(5, 40);
  for (int t = 0; t < sweeps; t++) { auto a1 = S.lab1(), a2 = S.lab2(); S.step(1, gg); auto c1 = S.lab1(), c2 = S.lab2(); bool ok = true; for (int x : c1) ok &= x >= 0 && x < S.n1; for (int x : c2) ok &= x >= 0 && x < S.n2; if (!ok) break; audit_sweep(R, a1, a2, c1, c2, A); vf::count("monitor.audited_sweeps"); }
  judge(A, who, in); S.free_all(); T.done(); RemoveBipart(net); gsl_rng_free(gg); }
static std::vector<double> random_dist(Rng &r, int K) { std::vector<double> p(K); double z = 0; for (double &x : p) z += x = -std::log(1 - r.u()); for (double &x : p) x /= z; return p; }
static int draw_value(Rng &r, const std::vector<double> &p) { double u = r.u(); int k = 0; while (k + 1 < (int)p.size() && u >= p[k]) u -= p[k++]; return k; }
// partitions and ratings drawn together from the model: the partitions are an exact draw from the posterior, and sweeps must leave them so
static void joint(int mode, Rng &r) {
  gsl_rng *gg = gen(r.next() & 0xffffffff); int K = mode == TWO ? 2 : r.in(2, 4), n1 = r.in(3, 18), n2 = mode == LSK ? n1 : r.in(3, 18), sweeps = r.in(1, 4), factor = r.in(1, 2); double dens = r.p(.3) ? 1 : r.u(); long N = vf::tier_ ? 12000 : 2500; std::string who = sname[mode]; auto flat = [](int) { return 0.; };
  vf::input(who + vf::fmt(" joint n %d,%d K %d sweeps %d factor %d density %.3f", n1, n2, K, sweeps, factor, dens), true); vf::stage(("joint:" + who).c_str());
  static const char *names[] = {"groups", "largest group", "squared sizes", "singletons", "first with last", "first with second"}; std::vector<Paired> T(13); for (int i = 0; i < 12; i++) T[i].name = std::string(names[i % 6]) + (i < 6 ? "" : " (second set)"); T[12].name = "energy";
  for (long t = 0; t < N; t++) {
    std::vector<int> c1 = draw_partition(r, n1, flat), c2 = mode == LSK ? c1 : draw_partition(r, n2, flat), d1, d2; std::map<std::pair<int, int>, std::vector<double>> Q; auto val = [&](int x, int y) { auto it = Q.find({x, y}); if (it == Q.end()) it = Q.insert({{x, y}, random_dist(r, K)}).first; return draw_value(r, it->second); }; double e0, e1; Lists L(100, 200, 50);
    if (mode == LSK) { LRat R; R.K = K; R.g.init(n1); for (int i = 0; i < n1; i++) for (int j = i + 1; j < n1; j++) if (r.p(dens)) R.g.add(i, j, val(std::min(c1[i], c1[j]), std::max(c1[i], c1[j]))); NG *net = build(r, R.g); LState S(net, K, L); S.set(labelled(r, c1, n1)); for (int s = 0; s < sweeps; s++) S.step(factor, gg); d1 = d2 = S.labels(); e0 = (double)R.H(c1); e1 = (double)R.H(d1); S.free_all(); RemoveGraph(net); }
    else { Rat R; R.K = K; R.b.init(n1, n2); for (int i = 0; i < n1; i++) for (int j = 0; j < n2; j++) if (r.p(dens)) R.b.a[i][j] = val(c1[i], c2[j]); struct binet *net = build(r, R); BiState S(net, mode, K, L); S.set(labelled(r, c1, n1), labelled(r, c2, n2)); for (int s = 0; s < sweeps; s++) S.step(factor, gg); d1 = S.lab1(); d2 = S.lab2(); e0 = (double)R.H(c1, c2); e1 = (double)R.H(d1, d2); S.free_all(); RemoveBipart(net); }
    L.done(); auto x1 = part_stats(c1), y1 = part_stats(d1), x2 = part_stats(c2), y2 = part_stats(d2); for (int i = 0; i < 6; i++) T[i].add(y1[i] - x1[i]), T[6 + i].add(y2[i] - x2[i]); T[12].add(e1 - e0); }
  vf::count("monitor.joint_draws", N); vf::count("monitor.sweeps", N * sweeps);
  for (auto &p : T) { vf::count("oracle.joint_tests"); CHECK(p.z() < 7.5, "joint:" + who, "%s drifts away from the posterior: %+.5f on average over %ld exact draws (z=%.1f), n %d,%d K %d sweeps %d density %.3f", p.name.c_str(), p.s / p.n, p.n, p.z(), n1, n2, K, sweeps, dens); }
  gsl_rng_free(gg); }
long n_cases(int tier) { return tier ? 4900 : 336; }
void run_case(long k, Rng &r) {
  if ((k / 4) % 7 == 5) { joint(k % 4, r); return; } if ((k / 4) % 7 == 6) { for (int i = 0; i < 6; i++) audit(r); return; }
  int mode = k % 4; bool inv = (k / 4) % 4 < 2; int K = mode == TWO ? 2 : r.in(1, 4); gsl_rng *gg = gen(r.next() & 0xffffffff); std::string who = sname[mode];
  if (mode == LSK) {
    LRat R = random_lrat(r, K, 2, 6); int n = R.g.n; auto &ps = partitions(n); std::vector<double> w; { std::vector<long double> h; long double mn = 1e300L; for (auto &c : ps) { h.push_back(R.H(c)); mn = std::min(mn, h.back()); } long double z = 0; for (auto &x : h) z += x = expl(mn - x); for (auto &x : h) w.push_back(x / z); }
    NG *net = build(r, R.g); vf::input(who + (inv ? " inv " : " avg ") + R.text(), n >= 3 && R.g.links() > 0);
    if (inv) { long N = vf::tier_ ? 60000 : 20000; int factor = r.in(1, 3); std::map<std::vector<int>, int> id; for (size_t i = 0; i < ps.size(); i++) id[ps[i]] = i; Cdf cdf(w); std::vector<long> cnt(ps.size(), 0); vf::stage(("sweep:" + who).c_str());
      Lists T(5000, 10000, 1); LState S(net, K, T); for (long t = 0; t < N; t++) { S.set(labelled(r, ps[cdf.draw(r)], n)); S.step(factor, gg); cnt[id.at(canonv(S.labels()))]++; } vf::count("monitor.sweeps", N); int bins; double z = chi_test(cnt, w, N, bins); vf::count("oracle.distribution_tests");
      CHECK(z < 6.5, "posterior:" + who, "after one sweep from the exact posterior of %s the partitions are not distributed as the posterior: z=%.1f over %d bins of %ld draws", R.text().c_str(), z, bins, N); S.free_all(); T.done();
    } else { int rep = 40, it = vf::tier_ ? 600 : 300, dec = r.p(.5) ? -1 : r.in(1, 3); vf::stage(("average:" + who).c_str()); int nq = n * (n - 1) / 2; std::vector<std::vector<double>> s(K, std::vector<double>(nq, 0)), s2 = s; std::vector<std::pair<int, int>> pr;
      for (int t = 0; t < rep; t++) { struct query **q; int m; double **x = LSMultiLinkScoreKState(K, net, it, gg, 'q', dec, &q, &m); CHECK(m == nq, "listing:" + who, "%d pairs scored instead of %d", m, nq); if (m != nq) return; pr.clear(); std::set<std::pair<int, int>> seen;
        for (int i = 0; i < nq; i++) { int a = q[i]->n1->num, b = q[i]->n2->num; pr.push_back({a, b}); seen.insert({std::min(a, b), std::max(a, b)}); double sum = 0; for (int z = 0; z < K; z++) { s[z][i] += x[z][i]; s2[z][i] += x[z][i] * x[z][i]; sum += x[z][i]; } CHECK(std::fabs(sum - 1) < 1e-4, "sum:" + who, "probabilities of %d-%d add to %g", a, b, sum); FreeQuery(q[i]); }
        CHECK((int)seen.size() == nq, "listing:" + who, "only %zu of %d pairs are listed", seen.size(), nq); free(q); free_d_mat(x, K); }
      vf::count("monitor.full_runs", rep); for (int i = 0; i < nq; i++) for (int z = 0; z < K; z++) { double e = 0, e2 = 0; for (size_t p = 0; p < ps.size(); p++) { double v = R.est(ps[p], pr[i].first, pr[i].second, z); e += w[p] * v; e2 += w[p] * v * v; } double sd = std::sqrt(std::max(0., e2 - e * e)), mu = s[z][i] / rep, se = std::sqrt(std::max(0., s2[z][i] / rep - mu * mu) / (rep - 1)); vf::count("oracle.averages");
        CHECK(std::fabs(mu - e) < 8 * se + .005 * std::min(1., sd / .05) + 1e-6, "average:" + who, "probability of value %d for %d-%d over %d runs is %.5f, exact %.5f for %s", z, pr[i].first, pr[i].second, rep, mu, e, R.text().c_str()); } }
    RemoveGraph(net);
  } else {
    int mx = mode == TWO || K < 4 ? 4 : 3; Rat R = random_ratings(r, K, mx, mx); if (R.b.n1 == 4 && R.b.n2 == 4 && r.p(.6)) R = random_ratings(r, K, 4, 3);
    struct binet *net = build(r, R); vf::input(who + (inv ? " inv " : " avg ") + R.text(), R.b.n1 + R.b.n2 >= 4 && R.b.links() > 1);
    auto post = [&](const Rat &x, std::vector<double> &w, double &z0) { auto &p1 = partitions(x.b.n1), &p2 = partitions(x.b.n2); std::vector<long double> h; long double mn = 1e300L; for (auto &c : p1) for (auto &d : p2) { h.push_back(x.H(c, d)); mn = std::min(mn, h.back()); } long double z = 0; for (auto &v : h) z += v = expl(mn - v); for (auto &v : h) w.push_back(v / z); };
    auto &p1 = partitions(R.b.n1), &p2 = partitions(R.b.n2); double dummy;
    if (inv) { std::vector<double> w; post(R, w, dummy); long N = vf::tier_ ? 80000 : 25000; int factor = r.in(1, 3); std::map<std::vector<int>, int> i1, i2; for (size_t i = 0; i < p1.size(); i++) i1[p1[i]] = i; for (size_t i = 0; i < p2.size(); i++) i2[p2[i]] = i; Cdf cdf(w); std::vector<long> cnt(w.size(), 0); vf::stage(("sweep:" + who).c_str());
      Lists T(5000, 10000, 500); BiState S(net, mode, K, T); for (long t = 0; t < N; t++) { int s = cdf.draw(r); S.set(labelled(r, p1[s / p2.size()], R.b.n1), labelled(r, p2[s % p2.size()], R.b.n2)); S.step(factor, gg); cnt[i1.at(canonv(S.lab1())) * p2.size() + i2.at(canonv(S.lab2()))]++; }
      vf::count("monitor.sweeps", N); vf::count("monitor.states_seen", std::count_if(cnt.begin(), cnt.end(), [](long x) { return x > 0; })); int bins; double z = chi_test(cnt, w, N, bins); vf::count("oracle.distribution_tests");
      CHECK(z < 6.5, "posterior:" + who, "after one sweep from the exact posterior of %s the partitions are not distributed as the posterior: z=%.1f over %d bins of %ld draws", R.text().c_str(), z, bins, N); S.free_all(); T.done();
    } else { int d = mode == TWO ? (r.p(.4) ? D_ALL : D_TWO) : mode == KMC ? D_K : D_GIBBS, rep = 40, it = vf::tier_ ? 600 : 300, dec = r.p(.5) ? -1 : r.in(1, 3); if (d == D_ALL) who = "all"; vf::stage(("average:" + who).c_str());
      auto qs = random_queries(r, R, net, d == D_ALL ? 0 : r.in(1, 4)); Rat E = without(R, qs); if (d == D_ALL) for (int i = 0; i < R.b.n1; i++) for (int j = 0; j < R.b.n2; j++) qs.push_back(CreateQuery(nodes(net->net1)[i], nodes(net->net2)[j])); std::vector<double> w; post(E, w, dummy);
      std::vector<std::vector<double>> s(K, std::vector<double>(qs.size(), 0)), s2 = s; std::vector<std::pair<int, int>> pr; for (auto *q : qs) pr.push_back({q->n1->num, q->n2->num});
      for (int t = 0; t < rep; t++) {
        if (d == D_ALL) { struct query **x = AllLinkScore2State(net, it, gg, 'q', dec); std::set<std::pair<int, int>> seen; for (size_t i = 0; i < qs.size(); i++) { int a = x[i]->n1->num, b = x[i]->n2->num; seen.insert({a, b}); size_t j = a * R.b.n2 + b; s[1][j] += x[i]->score; s2[1][j] += x[i]->score * x[i]->score; s[0][j] += 1 - x[i]->score; s2[0][j] += (1 - x[i]->score) * (1 - x[i]->score); FreeQuery(x[i]); } CHECK(seen.size() == qs.size(), "listing:" + who, "only %zu of %zu pairs are listed", seen.size(), qs.size()); free(x); }
        else { auto x = drive(d, R, net, qs, it, gg, dec, false); for (size_t i = 0; i < qs.size(); i++) { double sum = 0; for (int z = 0; z < K; z++) { s[z][i] += x[z][i]; s2[z][i] += x[z][i] * x[z][i]; sum += x[z][i]; } CHECK(std::fabs(sum - 1) < 1e-4, "sum:" + who, "probabilities of query %zu add to %g", i, sum); } } }
      vf::count("monitor.full_runs", rep);
      for (size_t i = 0; i < qs.size(); i++) for (int z = 0; z < K; z++) { double e = 0, e2 = 0; for (size_t p = 0; p < w.size(); p++) { double v = E.est(p1[p / p2.size()], p2[p % p2.size()], pr[i].first, pr[i].second, z); e += w[p] * v; e2 += w[p] * v * v; } double sd = std::sqrt(std::max(0., e2 - e * e)), mu = s[z][i] / rep, se = std::sqrt(std::max(0., s2[z][i] / rep - mu * mu) / (rep - 1)); vf::count("oracle.averages");
        CHECK(std::fabs(mu - e) < 8 * se + .005 * std::min(1., sd / .05) + 1e-6, "average:" + who, "probability of value %d for %d-%d over %d runs is %.5f, exact %.5f without the queried ratings of %s", z, pr[i].first, pr[i].second, rep, mu, e, R.text().c_str()); }
      for (auto *q : qs) FreeQuery(q); }
    RemoveBipart(net);
  }
  gsl_rng_free(gg);
}
#else
long n_cases(int tier) { return tier ? 20000 : 1200; }
void run_case(long k, Rng &r) {
  int d = k % 5; gsl_rng *gg = gen(r.next() & 0xffffffff); int K = d == D_TWO || d == D_ALL ? 2 : r.in(1, 5), dec = r.p(.4) ? -1 : r.in(1, 2); vf_parts.clear();
  if (d == 4) {
    std::string who = "lsk"; LRat R = random_lrat(r, K, 1, 14); int n = R.g.n; NG *net = build(r, R.g); vf::input(who + R.text(), n >= 3 && R.g.links() > 0); vf::stage("run:lsk"); struct query **q; int m; double **x = LSMultiLinkScoreKState(K, net, 1, gg, 'q', dec, &q, &m); vf::count("monitor.full_runs");
    CHECK(m == n * (n - 1) / 2, "listing:" + who, "%d pairs scored instead of %d", m, n * (n - 1) / 2); std::vector<int> c; bool ok = true; for (auto *v : nodes(net)) { c.push_back(v->inGroup); ok &= v->inGroup >= 0 && v->inGroup < n; } CHECK(ok, "cover:" + who, "a node is in no group after sampling");
    for (int i = 0; i < m; i++) { double sum = 0; for (int z = 0; z < K; z++) { sum += x[z][i]; if (ok) { double e = R.est(c, q[i]->n1->num, q[i]->n2->num, z); CHECK(std::fabs(x[z][i] - e) < 3e-6, "estimate:" + who, "probability of %d for %d-%d is %.8f; the sampled partition gives %.8f for %s", z, q[i]->n1->num, q[i]->n2->num, x[z][i], e, R.text().c_str()); } } CHECK(std::fabs(sum - 1) < 1e-4, "sum:" + who, "probabilities add to %g", sum); FreeQuery(q[i]); }
    free(q); free_d_mat(x, K); std::string why; G after = extract(net, "net:lsk"); CHECK(same(after, R.g, why), "net:lsk", "the network changed: %s", why.c_str()); RemoveGraph(net);
  } else {
    static const char *nm[] = {"two", "kmc", "kgibbs", "all"}; std::string who = nm[d]; Rat R = random_ratings(r, K, r.p(.6) ? 12 : 20, r.p(.6) ? 12 : 20); for (int i = 0; i < R.b.n1; i++) R.b.l1[i] = "p" + R.b.l1[i].substr(0, 40) + std::to_string(i); for (int i = 0; i < R.b.n2; i++) R.b.l2[i] = "m" + R.b.l2[i].substr(0, 40) + std::to_string(i);
    if (r.p(.1)) { R.b.n1 = R.b.n2 = 1; R.b.l1.resize(1); R.b.l2.resize(1); R.b.a.resize(1); double w = r.in(0, K - 1); bool has = r.p(.5); R.b.a[0].clear(); if (has) R.b.a[0][0] = w; }
    struct binet *net = build(r, R); vf::input(who + R.text(), R.b.n1 + R.b.n2 >= 4 && R.b.links() > 1); vf::stage(("run:" + who).c_str()); B before = extractB(net, ("net:" + who).c_str());
    auto qs = random_queries(r, R, net, d == D_ALL ? 0 : r.in(0, 8)); auto orig = qs; std::vector<std::pair<NG *, NG *>> at; for (auto *q : qs) at.push_back({q->n1, q->n2}); Rat E = without(R, qs); std::vector<std::vector<double>> x; std::vector<std::pair<int, int>> pr; for (auto *q : qs) pr.push_back({q->n1->num, q->n2->num});
    if (d == D_ALL) { struct query **y = AllLinkScore2State(net, 1, gg, 'q', dec); x.assign(2, {}); std::set<std::pair<int, int>> seen; for (int i = 0; i < R.b.n1 * R.b.n2; i++) { pr.push_back({y[i]->n1->num, y[i]->n2->num}); seen.insert(pr.back()); x[1].push_back(y[i]->score); x[0].push_back(1 - y[i]->score); FreeQuery(y[i]); } free(y); CHECK((int)seen.size() == R.b.n1 * R.b.n2, "listing:" + who, "only %zu of %d pairs are listed", seen.size(), R.b.n1 * R.b.n2); }
    else { x = drive(d, R, net, qs, 1, gg, dec, false); for (size_t i = 0; i < qs.size(); i++) CHECK(qs[i] == orig[i] && qs[i]->n1 == at[i].first && qs[i]->n2 == at[i].second, "queries:" + who, "query %zu no longer refers to the nodes it was made for", i); }
    vf::count("monitor.full_runs"); std::vector<int> c1(R.b.n1, -1), c2(R.b.n2, -1);
    for (auto &m : vf_parts) { for (int i = 0; i < R.b.n1; i++) { auto it = m.find(R.b.l1[i]); if (it != m.end()) c1[i] = it->second; } for (int i = 0; i < R.b.n2; i++) { auto it = m.find(R.b.l2[i]); if (it != m.end()) c2[i] = it->second; } }
    bool seen = !vf_parts.empty(); for (int v : c1) seen &= v >= 0; for (int v : c2) seen &= v >= 0; if (seen) vf::count("monitor.final_partitions_seen");
    for (size_t i = 0; i < pr.size(); i++) { double sum = 0; for (int z = 0; z < K; z++) { sum += x[z][i]; CHECK(x[z][i] >= 0 && x[z][i] <= 1, "range:" + who, "probability %g", x[z][i]); if (seen) { double e = E.est(c1, c2, pr[i].first, pr[i].second, z); CHECK(std::fabs(x[z][i] - e) < 3e-6, "estimate:" + who, "probability of %d for %d-%d is %.8f; the sampled partitions give %.8f without the queried ratings of %s", z, pr[i].first, pr[i].second, x[z][i], e, R.text().c_str()); } } CHECK(std::fabs(sum - 1) < 1e-4, "sum:" + who, "probabilities add to %g", sum); }
    std::string why; B after = extractB(net, ("net:" + who).c_str()); CHECK(sameB(after, before, why), "net:" + who, "the ratings changed: %s", why.c_str()); for (auto *q : qs) FreeQuery(q); RemoveBipart(net);
  }
  gsl_rng_free(gg);
}
#endif
