// P04: shortest-path statistics equal their definition (independent BFS / Floyd reference).
#include "rg.hpp"
using namespace std;
#ifdef HUGE_PATH     // products of distances and numbers of nodes that no int holds (thorough only: minutes)
long n_cases(int) { return 1; }
#else
long n_cases(int tier) { return tier ? 60000 : 8000; }
#endif
static string hist(const map<int, double> &h) { string s; char b[64]; for (auto &e : h) { snprintf(b, sizeof b, "%d:%g ", e.first, e.second); s += b; } return s; }
static void longpath(Rng &r) {           // very long distances: linear time from one end
  int n = 10050; G g = shape(r, 3, n); vf::input("path of 10050 nodes", true); NG *net = build(r, g); vf::stage("fromnode-long");
  FILE *f = tmpf(""); FPrintDistanceHistogramFromNode(f, net, 0); string s = slurp(f); fclose(f); double av = -1; sscanf(s.c_str(), "#Average distance = %lf", &av);
  CHECK_NEAR(av, n / 2.0, 1e-5, "fromnode:average", "average distance from the end of a path of 10050 nodes"); RemoveGraph(net);
}
static void hugepath() {
  int n = 46400; vf::input("path of 46400 nodes", true); NG *net = CreateHeaderGraph(), *l = net, *p = nullptr; for (int i = 0; i < n; i++) { l = CreateNodeGraph(l, (char *)to_string(i).c_str()); if (p) AddAdjacency(p, l, 0, 0, 0, 0), AddAdjacency(l, p, 0, 0, 0, 0); p = l; }
  vf::stage("inverse-huge"); double e = 0; for (int d = 1; d < n; d++) e += 2.0 * (n - d) / d; CHECK_NEAR(AverageInverseDistance(net), e / n / (n - 1), 1e-9, "inverse:huge", "average inverse distance of a path of 46400 nodes"); RemoveGraph(net);
}
void run_case(long k, Rng &r) {
#ifdef HUGE_PATH
  hugepath(); return;
#endif
  if (k == 7) { longpath(r); return; }
  bool dir = k % 4 == 3; G g = random_graph(r, 2, k % 313 == 105 ? 400 : k % 41 == 0 ? 90 : 13, r.in(0, 2));
  if (k % 11 == 5) g = shape(r, r.in(2, 4), r.in(2, 70));
  if (k % 13 == 6) { int n = r.in(2, 12); g = shape(r, 1, n); for (int i = 1; i < n; i++) g.add(i - 1, i); }
  if (dir) { double q = r.u() * r.u(); G h = g; for (int i = 0; i < g.n; i++) for (auto &e : g.a[i]) if (e.first > i && r.p(q)) { if (r.p(.5)) h.a[i].erase(e.first); else h.a[e.first].erase(i); } g = h; }
  if (dir && r.p(.3)) for (int i = 0; i < g.n; i++) if (!g.has(i, (i + 1) % g.n) && g.n > 2) g.a[i][(i + 1) % g.n] = 1;
  if (r.p(.2)) { int i = r.in(0, g.n - 1); g.a[i][i] = 1; }
  vf::input((dir ? "dir " : "und ") + g.text(), g.n >= 3 && g.arcs() > 1);
  NG *net = build(r, g); int n = g.n; map<int, double> H; double sum = 0, inv = 0; long reach = 0; vector<vector<int>> D;
  for (int i = 0; i < n; i++) { D.push_back(bfs(g, i)); for (int j = 0; j < n; j++) if (i != j && D[i][j] > 0) { H[D[i][j]] += 1.0 / n; sum += D[i][j]; inv += 1.0 / D[i][j]; reach++; } }
  double np = (double)n * (n - 1); vf::count("pairs.total", np); vf::count("pairs.reachable", reach);
  for (int rep = 0; rep < 2; rep++) {
    vf::stage("pathlength"); double a = AveragePathLength(net); CHECK_NEAR(a, reach == (long)np ? sum / np : -1.0, 1e-9, "pathlength", "average path length (repetition " + to_string(rep) + ")");
    vf::stage("inverse"); a = AverageInverseDistance(net); CHECK_NEAR(a, inv / np, 1e-9, "inverse", "average inverse distance");
    vf::stage("histogram"); FILE *f = tmpf(""); FPrintDistanceHistogram(f, net); string s = slurp(f); fclose(f);
    map<int, double> got; double av = -1, nm = -1, z = -1; size_t p = 0; while (p < s.size()) { size_t e = s.find('\n', p); if (e == string::npos) e = s.size(); string ln = s.substr(p, e - p); p = e + 1; int d; double x;
      if (ln[0] == '#') { sscanf(ln.c_str(), "#Average distance = %lf", &av); sscanf(ln.c_str(), "#Normalization = %lf", &nm); sscanf(ln.c_str(), "#z = %lf", &z); }
      else if (sscanf(ln.c_str(), "%d %lf", &d, &x) == 2) { CHECK(!got.count(d), "histogram:repeated", "distance %d listed twice", d); got[d] = x; } else vf::viol("histogram:line", "unexpected line %s", ln.c_str()); }
    bool ok = got.size() == H.size(); for (auto &e : H) ok &= got.count(e.first) && fabs(got[e.first] - e.second / (n - 1)) < 2e-6; CHECK(ok, "histogram", "got %s expected (x n-1) %s", hist(got).c_str(), hist(H).c_str());
    CHECK(fabs(av - sum / np) < 2e-6 * (1 + fabs(av)), "histogram:average", "average %g, expected %g", av, sum / np); CHECK(fabs(nm - reach / np) < 2e-6, "histogram:norm", "normalization %g, expected %g", nm, reach / np);
    CHECK(fabs(z - (H.count(1) ? H[1] : 0)) < 2e-6 * (1 + z), "histogram:z", "z %g, expected %g", z, H[1]);
    int o = r.in(0, n - 1); vf::stage("fromnode"); f = tmpf(""); FPrintDistanceHistogramFromNode(f, net, o); s = slurp(f); fclose(f); av = z = -1; sscanf(s.c_str(), "#Average distance = %lf #z = %lf", &av, &z);
    double so = 0, z1 = 0; for (int j = 0; j < n; j++) if (j != o && D[o][j] > 0) { so += D[o][j]; z1 += D[o][j] == 1; }
    CHECK(fabs(av - so / (n - 1)) < 2e-6 * (1 + av), "fromnode:average", "from node %d: average %g expected %g", o, av, so / (n - 1)); CHECK(fabs(z - z1) < 1e-5, "fromnode:z", "from node %d: z %g expected %g", o, z, z1);
  }
  G x = extract(net, "untouched"); string why; if (!same(x, g, why)) vf::viol("untouched", "the network changed: %s", why.c_str());
  RemoveGraph(net);
}
