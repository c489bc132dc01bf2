// P02: any history of graph edits agrees with an abstract labelled-graph model.
#include "rg.hpp"
using namespace std;
long n_cases(int tier) { return tier ? 12000 : 1600; }

struct St { NG *net; G m; bool sym; int next = 0; };
static void add_node(St &s, Rng &r, int st) {
  string l = rand_label(r, s.next++, st); s.m.n++; s.m.lab.push_back(l); s.m.a.push_back({});
  NG *p = CreateNodeGraph(s.net, (char *)l.c_str());
  CHECK(p && p->num == s.m.n - 1, "edit:newnode", "new node has number %d, expected %d", p->num, s.m.n - 1);
}
static bool selfloops(const G &g) { for (int i = 0; i < g.n; i++) if (g.has(i, i)) return true; return false; }
static void queries(St &s, Rng &r) {
  G &m = s.m; auto v = nodes(s.net);
  CHECK((int)v.size() == m.n, "query:nodes", "%zu nodes, expected %d", v.size(), m.n);
  if ((int)v.size() != m.n) return;
  CHECK(CountNodes(s.net) == m.n, "query:nodes", "CountNodes %d, expected %d", CountNodes(s.net), m.n);
  if (!m.n) return;
  for (int t = 0; t < 6; t++) {
    int i = r.in(0, m.n - 1), j = r.in(0, m.n - 1);
    CHECK((int)NodeDegree(v[i]) == m.deg(i), "query:degree", "degree of %s is %u, expected %d", m.lab[i].c_str(), NodeDegree(v[i]), m.deg(i));
    CHECK_NEAR(NodeStrength(v[i]), m.str(i), 1e-9, "query:strength", "strength of " + m.lab[i]);
    CHECK((IsThereLink(v[i], v[j]) != 0) == m.has(i, j), "query:link", "presence of link %s-%s", m.lab[i].c_str(), m.lab[j].c_str());
    CHECK((IsThereLinkSoft(v[i], j) != 0) == m.has(i, j), "query:link", "presence of link %s-%d by number", m.lab[i].c_str(), j);
    if (m.has(i, j)) { NL *l = GetLink(v[i], j); CHECK(l && l->ref == v[j], "query:getlink", "link %s-%s refers to another node", m.lab[i].c_str(), m.lab[j].c_str());
      CHECK_NEAR(l->weight, m.a[i].at(j), 1e-9, "query:weight", "weight"); }
    CHECK(GetNode(i, s.net) == v[i], "query:getnode", "node number %d not found", i);
    string copy = m.lab[j]; CHECK(IsThereNode((char *)copy.c_str(), s.net) == 1, "query:isthere", "existing label %s reported absent", copy.c_str());
    copy += "~"; bool there = false; for (auto &x : m.lab) there |= x == copy; CHECK((IsThereNode((char *)copy.c_str(), s.net) != 0) == there, "query:isthere", "absent label %s reported present", copy.c_str());
  }
  int arcs = m.arcs(); long k2 = 0; for (int i = 0; i < m.n; i++) k2 += (long)m.deg(i) * m.deg(i);
  CHECK(TotalNLinks(s.net, 0) == arcs, "query:links", "%d directed links, expected %d", TotalNLinks(s.net, 0), arcs);
  CHECK_NEAR(AverageDegree(s.net, 0), (double)arcs / m.n, 1e-12, "query:avdegree", "average out-degree");
  CHECK_NEAR(AverageSquaredDegree(s.net), (double)k2 / m.n, 1e-12, "query:avdegree2", "average squared degree");
  if (s.sym && !selfloops(m)) {
    CHECK(TotalNLinks(s.net, 1) == m.links(), "query:links", "%d links, expected %d", TotalNLinks(s.net, 1), m.links());
    CHECK_NEAR(AverageDegree(s.net, 1), 2.0 * m.links() / m.n, 1e-12, "query:avdegree", "average degree");
  }
}
static void full(St &s, const char *key) { G g = extract(s.net, key); string why; if (!same(g, s.m, why, 1e-9)) vf::viol(key, "%s", why.c_str()); vf::count("oracle.checks"); }

static void history(long k, Rng &r) {
  St s; s.net = CreateHeaderGraph(); s.m.init(0); s.sym = r.p(.7); int st = r.in(0, 4); bool allowself = r.p(.4); bool integer = r.p(.4);
  vector<pair<NG *, G>> kept; string desc = s.sym ? "sym:" : "dir:"; gsl_rng *gr = gen(r.next() % 1000000);
  int nops = r.in(5, 60), n0 = k % 151 == 77 ? r.in(320, 420) : r.in(1, 9); for (int i = 0; i < n0; i++) add_node(s, r, st);
  if (n0 > 9) {   // large: a hub linked to nearly all nodes, and some other links
    auto v = nodes(s.net); auto arc = [&](int a, int b, double w) { if (s.m.has(a, b)) return; AddAdjacency(v[a], v[b], 0, 0, w, 0); s.m.a[a][b] = w; };
    int h = r.in(0, n0 - 1); for (int i = 0; i < n0; i++) if (i != h && r.p(.99)) { double w = r.in(1, 9) / 2.; arc(h, i, w); if (s.sym) arc(i, h, w); }
    for (int t = 0; t < n0; t++) { int i = r.in(0, n0 - 1), j = r.in(0, n0 - 1); double w = r.in(1, 9) / 2.; if (i != j) { arc(i, j, w); if (s.sym) arc(j, i, w); } } vf::count("monitor.large_histories"); }
  int links = 0;
  for (int o = 0; o < nops; o++) {
    auto v = nodes(s.net); int op = r.in(0, 19), n = s.m.n; if ((int)v.size() != n || n == 0) { if (n == 0) { add_node(s, r, st); continue; } break; }
    int i = r.in(0, n - 1), j = r.in(0, n - 1);
    desc += vf::fmt(" %d(%d,%d)", op, i, j); vf::count(("op." + to_string(op)).c_str());
    if (op <= 1) add_node(s, r, st);
    else if (op <= 9) {                       // add a link
      vf::stage("addlink");
      int au = allowself && r.p(.5), ad = r.p(.4); double w = integer ? r.in(1, 4) : r.in(1, 40) / 8.0;
      if (r.p(.1)) j = i;
      if (r.p(.3) && s.m.deg(i)) { auto it = s.m.a[i].begin(); advance(it, r.in(0, s.m.deg(i) - 1)); j = it->first; }
      auto arc = [&](int a, int b) { int want; if (a == b && !au) want = 0; else if (!s.m.has(a, b)) { s.m.a[a][b] = w; want = 1; } else if (ad) { s.m.a[a][b] += w; want = 1; } else want = 0;
        int got = AddAdjacency(v[a], v[b], au, ad, w, 0); CHECK(got == want, "edit:addlink", "adding %s-%s returned %d, expected %d", s.m.lab[a].c_str(), s.m.lab[b].c_str(), got, want); };
      arc(i, j); if (s.sym && i != j) arc(j, i); links++;
    } else if (op <= 12) {                    // remove a link
      if (!s.m.deg(i)) continue;
      auto it = s.m.a[i].begin(); advance(it, r.in(0, s.m.deg(i) - 1)); j = it->first;
      vf::stage("removelink"); RemoveLink(v[i], v[j], s.sym); s.m.a[i].erase(j); if (s.sym) s.m.a[j].erase(i);
    } else if (op == 13) {                    // copy, keep one, go on with the other
      vf::stage("copy"); NG *c = CopyNetwork(s.net); G g = extract(c, "copy:structure"); string why; if (!same(g, s.m, why, 0)) vf::viol("copy:content", "%s", why.c_str());
      auto cv = nodes(c); for (size_t x = 0; x < cv.size() && x < v.size(); x++) CHECK(cv[x] != v[x] && cv[x]->label != v[x]->label, "copy:alias", "copy shares memory with its original");
      if (kept.size() < 3) { if (r.p(.5)) kept.push_back({c, s.m}); else { kept.push_back({s.net, s.m}); s.net = c; } } else RemoveGraph(c);
    } else if (op == 14 && s.sym) {           // drop isolated nodes
      G g; vector<int> mp(n, -1); for (int x = 0; x < n; x++) if (s.m.deg(x)) { mp[x] = g.n++; g.lab.push_back(s.m.lab[x]); g.a.push_back({}); }
      for (int x = 0; x < n; x++) for (auto &e : s.m.a[x]) g.a[mp[x]][mp[e.first]] = e.second;
      vf::stage("isolated"); int rem = RemoveIsolatedNodes(s.net); CHECK(rem == n - g.n, "edit:isolated", "%d isolated nodes removed, expected %d", rem, n - g.n); s.m = g; full(s, "edit:isolated");
    } else if (op == 15) {                    // node subset with dangling adjacencies, cleaned
      vector<char> in(n); for (int x = 0; x < n; x++) in[x] = r.p(.6);
      vf::stage("clean"); NG *sub = CreateHeaderGraph(), *last = sub; G g; vector<int> mp(n, -1);
      for (int x = 0; x < n; x++) if (in[x]) { last = CreateNodeGraph(last, v[x]->label); CopyAdjacencyList(v[x], last); mp[x] = g.n++; g.lab.push_back(s.m.lab[x]); g.a.push_back({}); }
      for (int x = 0; x < n; x++) if (in[x]) for (auto &e : s.m.a[x]) if (in[e.first]) g.a[mp[x]][mp[e.first]] = e.second;
      CleanAdjacencies(sub); RewireAdjacencyByLabel(sub); RenumberNodes(sub);
      G got = extract(sub, "clean:structure"); string why; if (!same(got, g, why, 0)) vf::viol("clean:content", "%s", why.c_str());
      RemoveGraph(sub);
    } else if (op == 16) {                    // soft links by label, then rewire
      int a = r.in(0, n - 1), b = r.in(0, n - 1); if (a == b && !allowself) continue; int ad = r.p(.5); double w = r.in(1, 8) / 4.0;
      vf::stage("soft");
      auto arc = [&](int a, int b) { int want = 1; if (!s.m.has(a, b)) s.m.a[a][b] = w; else if (ad) s.m.a[a][b] += w; else want = 0;
        int got = AddAdjacencySoft(v[a], (char *)s.m.lab[b].c_str(), 1, ad, w, 0); CHECK(got == want, "soft:return", "soft link returned %d, expected %d", got, want); };
      arc(a, b); if (s.sym && a != b) arc(b, a);
      RewireAdjacencyByLabel(s.net);
    } else if (op == 17 && !selfloops(s.m)) { // random additions
      int freep = s.sym ? n * (n - 1) / 2 - s.m.links() : n * (n - 1) - s.m.arcs(); if (freep < 1) continue; int q = r.in(1, min(freep, 4));
      vf::stage("randomadd"); G old = s.m; AddRandomLinks(s.net, q, s.sym, gr); G g = extract(s.net, "randomadd:structure");
      int extra = 0; bool ok = g.n == old.n; if (ok) for (int x = 0; x < n; x++) { for (auto &e : g.a[x]) { if (!old.has(x, e.first)) { extra++; ok &= e.first != x; if (s.sym) ok &= g.has(e.first, x); } else ok &= old.a[x].at(e.first) == e.second; } for (auto &e : old.a[x]) ok &= g.has(x, e.first); }
      CHECK(ok, "randomadd:content", "existing links changed or asymmetric after adding random links"); CHECK(extra == (s.sym ? 2 * q : q), "randomadd:count", "asked for %d random links, got %d new directed entries (symmetric=%d)", q, extra, s.sym); s.m = g;
    } else if (op == 18 && !selfloops(s.m)) { // random removals
      int tot = s.sym ? s.m.links() : s.m.arcs(); if (tot < 1) continue; int q = r.in(1, min(tot, 4));
      vf::stage("randomremove"); G old = s.m; RemoveRandomLinks(s.net, q, s.sym, gr); G g = extract(s.net, "randomremove:structure");
      int gone = 0; bool ok = g.n == old.n; if (ok) for (int x = 0; x < n; x++) { for (auto &e : old.a[x]) { if (!g.has(x, e.first)) gone++; else ok &= g.a[x].at(e.first) == e.second; } for (auto &e : g.a[x]) { ok &= old.has(x, e.first); if (s.sym) ok &= g.has(e.first, x); } }
      CHECK(ok, "randomremove:content", "other links changed after removing random links"); CHECK(gone == (s.sym ? 2 * q : q), "randomremove:count", "asked to remove %d links, %d entries gone", q, gone); s.m = g;
    } else if (op == 19) { vf::stage("rewire"); if (r.p(.5)) RewireAdjacencyByLabel(s.net); else RewireAdjacencyByNum(s.net); ResetNodesState(s.net); RenumberNodes(s.net); }
    vf::stage("query"); if (r.p(.5)) queries(s, r);
    if (r.p(.15)) full(s, "edit:content");
  }
  vf::input(desc, nops >= 8 && links >= 3);
  vf::stage("final"); queries(s, r); full(s, "edit:content");
  for (auto &kp : kept) { G g = extract(kp.first, "copy:structure"); string why; if (!same(g, kp.second, why, 1e-9)) vf::viol("copy:notindependent", "kept copy changed: %s", why.c_str()); RemoveGraph(kp.first); }
  RemoveGraph(s.net); gsl_rng_free(gr);
}
// builds, edits and destroys twice; the second round must give back every byte
static void leaks(long k, Rng &r) {
  G g = random_graph(r, 2, 20, 2); uint64_t s0 = r.s; int which = k % 7; long d = 0; vf::input(vf::fmt("leak %d ", which) + g.text(), g.arcs() > 1);
  vector<pair<int, int>> es; for (int i = 0; i < g.n; i++) for (auto &e : g.a[i]) es.push_back({i, e.first}); vector<NG *> v(g.n);
  gsl_rng *gr = gen(7); vf::stage(("leak" + to_string(which)).c_str());
  for (int round = 0; round < 2; round++) {
    long b = live_bytes(); NG *net = CreateHeaderGraph(), *l = net; for (int i = 0; i < g.n; i++) v[i] = l = CreateNodeGraph(l, (char *)g.lab[i].c_str()); for (auto &e : es) AddAdjacency(v[e.first], v[e.second], 1, 0, 1, 0);
    switch (which) {
      case 0: { NG *c = CopyNetwork(net); RemoveGraph(c); break; }
      case 1: RemoveIsolatedNodes(net); break;
      case 2: { if (es.size()) RemoveLink(v[es[0].first], v[es[0].second], 1); break; }
      case 3: { NG *c = CreateHeaderGraph(); NG *x = CreateNodeGraph(c, v[0]->label); CopyAdjacencyList(v[0], x); CleanAdjacencies(c); RewireAdjacencyByLabel(c); RemoveGraph(c); break; }
      case 4: { void *dd = MakeLabelDict(net); GetNodeDict(v[0]->label, dd); FreeLabelDict(dd); break; }
      case 5: { if (g.links() > 2) RemoveRandomLinks(net, 2, 1, gr); AddRandomLinks(net, g.links() < g.n * (g.n - 1) / 2 ? 1 : 0, 1, gr); break; }
      default: { RewireAdjacencyByNum(net); RenumberNodes(net); NodeStrength(v[0]); TotalNLinks(net, 1); }
    }
    RemoveGraph(net); d = live_bytes() - b;
  }
  gsl_rng_free(gr); vf::count("monitor.leak_windows"); (void)s0;
  CHECK(d == 0, "leak:" + to_string(which), "%ld bytes not released (scenario %d)", d, which);
}
void run_case(long k, Rng &r) { if (k % 6 == 5) leaks(k / 6, r); else history(k, r); }
