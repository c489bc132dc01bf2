// P17: annealing terminates, returns a valid partition, never worse than its start or than any energy it reported, optimal where clear.
#include "part.hpp"
using namespace std;
long n_cases(int tier) { return tier ? 60000 : 5400; }
struct Res { vector<int> m; double Q; vector<double> trace; };
static Res anneal(const G &g, uint64_t bs, int M, unsigned long seed, double fac, double Ti, double Tf, double Ts, double pc, unsigned lim, const char *key, double *Q0out, const vector<int> *start = nullptr) {
  Rng q(bs); PA x = load(q, g, M, g.links() > 0); gsl_rng *gr = gen(seed); AssignNodesToModules(x.p, gr); if (start) for (int i = 0; i < g.n; i++) if ((*start)[i] != (int)x.p->nodes[i]->module) ChangeModule(i, (*start)[i], x.p);
  vector<int> m0 = wf(x.p, x.k, "start", "start"); double sc = g.links() ? 1 / total(g) : 1, Q0 = exactQ(g, sc, x.k, m0, false); if (Q0out) *Q0out = Q0;
  int save = dup(2); FILE *t = tmpfile(); dup2(fileno(t), 2); vf::stage("GeneralSA"); unsigned rc = GeneralSA(&x.p, x.a, fac, Ti, Tf, Ts, pc, lim, gr); dup2(save, 2); close(save); string log = slurp(t); fclose(t);
  Res s; CHECK(rc == 0, key, "GeneralSA returned %u", rc); if (!x.p) { vf::viol("null", "GeneralSA returned no partition"); return s; }
  CHECK(x.p->N == (unsigned)g.n, key, "%u nodes instead of %d", x.p->N, g.n); s.m = wf(x.p, x.k, "result", "GeneralSA"); s.Q = exactQ(g, sc, x.k, s.m, false);
  CHECK(s.Q >= Q0 - 2e-6, "worse:start", "modularity went down from %.8g to %.8g", Q0, s.Q);
  size_t p = 0; double T, E; int st; while (p < log.size()) { size_t e = log.find('\n', p); if (e == string::npos) e = log.size(); if (sscanf(log.substr(p, e - p).c_str(), "%lf\t%lf\t%d", &T, &E, &st) == 3) s.trace.push_back(E); p = e + 1; }
  if (!s.trace.empty()) { double mx = *max_element(s.trace.begin(), s.trace.end()); CHECK(s.Q - Q0 >= mx - 1e-5 * (1 + fabs(mx)), "worse:trace", "returned gain %.8g, but a gain of %.8g had been reached", s.Q - Q0, mx); vf::count("monitor.trace_points", s.trace.size()); vf::count("monitor.traces"); }
  CompressPartition(x.p); auto y = wf(x.p, x.k, "compress", "CompressPartition"); CHECK(canon(y) == canon(s.m), "compress", "compressing changed the partition"); drop(x); gsl_rng_free(gr); return s;
}
static double best(const G &g) {   // exhaustive search over all partitions
  vector<int> m(g.n, 0); auto k = strengths(g); double sc = 1 / total(g), b = -9; function<void(int, int)> rec = [&](int i, int c) { if (i == g.n) { b = max(b, exactQ(g, sc, k, m, false)); return; } for (int x = 0; x <= c; x++) { m[i] = x; rec(i + 1, max(c, x + 1)); } }; rec(0, 0); return b; }
void run_case(long k, Rng &r) {
  uint64_t bs = r.next(); unsigned long seed = any_seed(r);
  if (k % 9 == 4) {   // cliques joined by single links: the cliques are the unique optimum
    int c = r.in(2, 5), s = r.in(4, 6); G g; g.init(c * s); for (int i = 0; i < g.n; i++) for (int j = 0; j < i; j++) if (i / s == j / s) g.add(i, j); for (int i = 0; i < c && (c > 2 || i < 1); i++) g.add(i * s + r.in(0, s - 1), ((i + 1) % c) * s + r.in(0, s - 1)); vector<int> pl(g.n); for (int i = 0; i < g.n; i++) pl[i] = i / s; vf::input("cliques " + g.text(), true);
    double Qp = exactQ(g, 1 / total(g), strengths(g), pl, false), Q = -9; for (int t = 0; t < 3 && Q < Qp - 1e-9; t++) Q = max(Q, anneal(g, bs, g.n, seed + t, 1, 1. / g.n, 1e-200, .97, .5, 25, "cliques", nullptr).Q); CHECK(Q >= Qp - 1e-9, "optimum:cliques", "best of three runs has modularity %.8g, the %d cliques of %d have %.8g", Q, c, s, Qp); vf::count("optimum.cliques"); return; }
  if (k % 9 == 7) {   // exhaustive
    G g; do g = random_graph(r, 3, 7, r.in(0, 1)); while (!g.links()); vf::input("exhaustive " + g.text(), g.links() > 1); double b = best(g), Q = -9; for (int t = 0; t < 4 && Q < b - 1e-9; t++) Q = max(Q, anneal(g, bs, g.n, seed + t, 1, 1. / g.n, 1e-200, .97, r.p(.5) ? .5 : 0, 25, "small", nullptr).Q); CHECK(Q >= b - 1e-9, "optimum:small", "best of four runs has modularity %.8g, exhaustive search finds %.8g", Q, b); CHECK(Q <= b + 1e-9, "optimum:impossible", "above the maximum"); vf::count("optimum.exhaustive"); return; }
  if (k % 45 == 1) {   // nothing to optimise
    G g; g.init(r.in(1, 4)); if (g.n > 1) g.add(0, 1); vf::input("trivial " + g.text(), false); anneal(g, bs, g.n == 1 ? 1 : r.in(1, g.n), seed, 1, .5, 1e-3, .9, .5, r.in(1, 25), "trivial", nullptr); return; }
  G g; do g = random_graph(r, 2, k % 1008 == 505 ? 121 : k % 31 == 0 ? 40 : 14, r.in(0, 2)); while (!g.links()); vf::input(g.text(), g.links() > 1);
  int M = r.p(.6) ? g.n : r.in(2, g.n); double fac = r.p(.5) ? 1 : r.u() * 1.5, Ti = r.p(.5) ? 1. / g.n : pow(10, -4 * r.u()), Ts = .8 + .19 * r.u(), Tf = r.p(.5) ? 1e-200 : Ti * pow(10, -3 * r.u()), pc = r.p(.3) ? 0 : r.p(.4) ? 1 : r.u(); unsigned lim = r.in(1, 30); vector<int> st; bool own = r.p(.4); if (own) { int c = r.in(1, M); for (int i = 0; i < g.n; i++) st.push_back(r.in(0, c - 1)); }
  double Q0; Res a = anneal(g, bs, M, seed, fac, Ti, Tf, Ts, pc, lim, "run", &Q0, own ? &st : nullptr), b = anneal(g, bs, M, seed, fac, Ti, Tf, Ts, pc, lim, "run", &Q0, own ? &st : nullptr); CHECK(a.m == b.m, "seed", "same seed, different partition");
}
