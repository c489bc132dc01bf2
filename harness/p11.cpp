// P11: partitions survive writing, reading, mapping; sub-networks, link stripping, size statistics and block model equal a direct count.
#include "rg.hpp"
using namespace std;
extern "C" struct group *FReadPartition(FILE *) __attribute__((weak));
long n_cases(int tier) { return tier ? 300000 : 9000; }
static vector<GR *> groups(GR *part) { vector<GR *> v; while ((part = part->next)) v.push_back(part); return v; }
typedef vector<vector<string>> PL;
static PL lists(GR *part, bool skipempty) { PL o; for (GR *g : groups(part)) { vector<string> m; int c = 0; for (NL *l = g->nodeList->next; l; l = l->next) m.push_back(l->nodeLabel), c++; CHECK(g->size == c, "size", "group %d has size %d and %d nodes", g->label, g->size, c); if (!skipempty || c) o.push_back(m); } return o; }
static string show(const PL &p) { string s; for (auto &g : p) { s += "["; for (auto &x : g) s += x + " "; s += "]"; } return s; }
static void parsecheck(const PL &got, const PL &want, const char *key) { CHECK(got == want, key, "partition read as %s instead of %s", show(got).substr(0, 300).c_str(), show(want).substr(0, 300).c_str()); }
static void subnet(const G &m, const vector<NG *> &v, NG *sub, const vector<int> &want, bool ordered, const char *key, const vector<double> &tag) {
  G g = extract(sub, key); map<string, int> ix; for (int i = 0; i < m.n; i++) ix[m.lab[i]] = i; set<int> w(want.begin(), want.end()), got; auto sv = nodes(sub);
  CHECK(g.n == (int)want.size(), key, "sub-network has %d nodes, expected %zu", g.n, want.size());
  for (int i = 0; i < g.n; i++) { if (!ix.count(g.lab[i])) { vf::viol(key, "alien node %s", g.lab[i].c_str()); continue; } int o = ix[g.lab[i]]; got.insert(o); CHECK(w.count(o), key, "node %s does not belong in the sub-network", g.lab[i].c_str()); if (ordered && i < (int)want.size()) CHECK(want[i] == o, key, "node order differs"); CHECK(sv[i] != v[o] && sv[i]->label != v[o]->label, key, "sub-network shares nodes with the network"); CHECK(vf::close(sv[i]->coorX, tag[o]), key, "coordinates of %s not copied", g.lab[i].c_str());
    map<int, double> exp; for (auto &e : m.a[o]) if (w.count(e.first)) exp[e.first] = e.second; CHECK(exp.size() == g.a[i].size(), key, "node %s has %zu links in the sub-network, expected %zu", g.lab[i].c_str(), g.a[i].size(), exp.size()); for (auto &e : g.a[i]) { int t = ix.count(g.lab[e.first]) ? ix[g.lab[e.first]] : -1; CHECK(exp.count(t) && vf::close(exp[t], e.second), key, "link %s-%s unexpected or with another weight", g.lab[i].c_str(), g.lab[e.first].c_str()); } }
  CHECK(got.size() == want.size(), key, "%zu distinct nodes, expected %zu", got.size(), want.size()); vf::count("monitor.subnetworks");
}
static void fuzz(long k, Rng &r) {   // malformed or odd partition files: no overflow, no endless loop, exact reading where defined
  string s; int toks = r.in(0, 14); PL want; vector<string> cur; bool open = false, toolong = false; string sep[] = {"\n", " ", "\t", "\n\n", "\r\n", " \n "};
  for (int i = 0; i < toks; i++) { string t; if (r.p(.3)) t = "///"; else { int L = r.p(.06) ? r.in(98, 102) : r.p(.03) ? r.in(103, 5000) : r.in(1, 8); t = string(L, 'a' + r.in(0, 25)); if (r.p(.1)) t = "//"; }
    s += t; s += sep[r.in(0, 5)]; if (t.size() >= 100) toolong = true; if (t == "///") { want.push_back(cur); cur.clear(); open = false; } else { cur.push_back(t); open = true; } }
  if (open) want.push_back(cur); if (r.p(.2) && !s.empty()) { while (!s.empty() && isspace((unsigned char)s.back())) s.pop_back(); }
  vf::input("fuzz " + s.substr(0, 400), toks > 3); FILE *f = tmpf(s); vf::stage("read-odd"); GR *p = FCreatePartition(f); fclose(f);
  if (toolong) CHECK(!p, "read:long", "over-long label accepted"); else { CHECK(p, "read:odd", "file rejected"); if (p) parsecheck(lists(p, false), want, "read:odd"); } if (p) RemovePartition(p);
  if (FReadPartition) { string z; PL w2; bool tl = false; int rows = r.in(0, 6); for (int i = 0; i < rows; i++) { int n = r.in(0, 5); vector<string> g; for (int j = 0; j < n; j++) { int L = r.p(.05) ? r.in(98, 130) : r.in(1, 9); string t(L, 'a' + r.in(0, 25)); if (r.p(.2) && L < 90) t += " x"; if (t.size() >= 100) tl = true; g.push_back(t); z += t; if (j + 1 < n) z += r.p(.1) ? "\t\t" : "\t"; } if (r.p(.2)) z += "\t"; if (i + 1 < rows || r.p(.8)) z += "\n"; if (n) w2.push_back(g); }
    f = tmpf(z); vf::stage("FReadPartition"); GR *q = FReadPartition(f); fclose(f); if (tl) CHECK(!q, "read:long", "over-long label accepted"); else { CHECK(q, "read:tabs", "file rejected"); if (q) parsecheck(lists(q, true), w2, "read:tabs"); } if (q) RemovePartition(q); }
  for (int b = 0; b < 2; b++) { string z; int L = r.in(0, 300); for (int i = 0; i < L; i++) z += r.p(.2) ? '/' : r.p(.2) ? '\n' : (char)r.in(1, 255); f = tmpf(z); vf::stage("read-bytes"); GR *q = b && FReadPartition ? FReadPartition(f) : FCreatePartition(f); fclose(f); if (q) { lists(q, false); RemovePartition(q); } vf::count("monitor.byte_files"); }
}
// block values of a network large enough for products of link counts to leave the range of int
static void large(Rng &r) {
  int n = r.in(320, 360); G m; m.init(n); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if (r.p(.8)) m.add(i, j, 1); vector<int> of(n); int cut = r.in(20, n - 20); for (int i = 0; i < n; i++) of[i] = i >= cut; NG *net = build(r, m); auto v = nodes(net); vf::input(vf::fmt("large %d nodes %d links cut %d", n, m.links(), cut), true); vf::stage("large");
  GR *p = CreateHeaderGroup(), *g[2] = {CreateGroup(p, 0), nullptr}; g[1] = CreateGroup(g[0], 1); for (int i = 0; i < n; i++) AddNodeToGroup(g[of[i]], v[i]);
  double L = m.links(), N = n, pr = 2 * L / (N * (N - 1)), c[2][2] = {}, ea[2] = {}; for (int i = 0; i < n; i++) for (auto &e : m.a[i]) { ea[of[i]]++; if (of[i] != of[e.first] || i < e.first) c[of[i]][of[e.first]]++; }
  for (char ty : string("nfpez")) { fflush(stdout); int so = dup(1); FILE *cap = tmpfile(); dup2(fileno(cap), 1); BlockModel(p, ty, 0); fflush(stdout); dup2(so, 1); close(so); string txt = slurp(cap); fclose(cap); const char *q = txt.c_str(); for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) { double x = 0, y = 0, z = NAN; int used = 0; if (sscanf(q, "%lf %lf %lf%n", &x, &y, &z, &used) < 3) { vf::viol("block:rows", "missing row"); break; } q += used; double sa = a ? n - cut : cut, sb = b ? n - cut : cut, pairs = a == b ? sa * (sa - 1) / 2 : sa * sb, w = ty == 'n' ? c[a][b] : ty == 'f' ? c[a][b] / L : ty == 'p' ? c[a][b] / pairs : ty == 'z' ? (c[a][b] - pr * pairs) / sqrt(pairs * pr * (1 - pr)) : a == b ? c[a][b] / L - ea[a] * ea[b] / (4 * L * L) : NAN; if (!isnan(w)) CHECK(fabs(z - w) < 2e-6 * (1 + fabs(w)), "block:large", "type %c groups %d %d of a large network: %g, expected %g", ty, a, b, z, w); } }
  vf::count("monitor.large_networks"); RemovePartition(p); RemoveGraph(net);
}
void run_case(long k, Rng &r) {
  if (k % 3000 == 1333) { large(r); return; }
  if (k % 5 == 4) { fuzz(k, r); return; }
  G m = random_graph(r, 1, k % 313 == 106 ? 420 : k % 31 == 0 ? 45 : 13, r.in(0, 2)); NG *net = build(r, m); auto v = nodes(net); vector<double> tag; for (auto *x : v) { x->coorX = r.in(0, 99); x->coorY = r.u(); tag.push_back(x->coorX); }
  int ng = r.p(.15) ? 1 : r.in(1, m.n + 2); vector<int> of(m.n); for (int &x : of) x = r.in(0, ng - 1); if (r.p(.1)) iota(of.begin(), of.end(), 0), ng = max(ng, m.n);
  string d; for (int x : of) d += vf::fmt("%d,", x); vf::input(m.text() + " part " + d, m.n > 2 && m.links() > 1);
  ResetNetGroup(net); GR *part = CreateHeaderGroup(); vector<GR *> g; for (int j = 0; j < ng; j++) g.push_back(CreateGroup(part, j)); vector<int> order(m.n); iota(order.begin(), order.end(), 0); r.shuffle(order); for (int i : order) AddNodeToGroup(g[of[i]], v[i]);
  PL all = lists(part, true);
  // write as a list and read back
  vf::stage("write-list"); FILE *f = tmpfile(); FPrintPartition(f, part, 1); string txt = slurp(f), want; for (auto &x : all) { for (auto &l : x) want += l + "\n"; want += "///\n"; } CHECK(txt == want, "print:list", "list output is not one label per line with groups ended by ///"); rewind(f);
  vf::stage("read-list"); GR *back = FCreatePartition(f); fclose(f); bool sepname = false; for (auto &l : m.lab) sepname |= l == "///"; if (!sepname) { CHECK(back, "read", "own output rejected"); parsecheck(lists(back, false), all, "read"); }
  // map the partition that was read onto the network
  if (back && !sepname) { vf::stage("map"); int lab = 0; vector<int> exp(m.n); for (size_t j = 0; j < all.size(); j++) for (auto &l : all[j]) for (int i = 0; i < m.n; i++) if (m.lab[i] == l) exp[i] = (int)j; (void)lab; vector<GR *> bg = groups(back);
    for (int variant = 0; variant < 3; variant++) { ResetNetGroup(net); if (variant == 0) MapPartToNetSoft(back, net); else if (variant == 1) MapPartToNetFast(back, net); else MapPartToNet(back, net); for (int i = 0; i < m.n; i++) CHECK(v[i]->inGroup == bg[exp[i]]->label, "map:ingroup", "variant %d: node %s is in %d, expected %d", variant, m.lab[i].c_str(), v[i]->inGroup, bg[exp[i]]->label);
      if (variant) for (GR *q : bg) for (NL *l = q->nodeList->next; l; l = l->next) CHECK(l->ref && m.lab[idx(v, l->ref)] == l->nodeLabel && l->node == l->ref->num, "map:pointers", "group entry %s points elsewhere", l->nodeLabel); }
    for (GR *q : bg) { int in = 0, ends = 0; double inw = 0, endw = 0; for (int i = 0; i < m.n; i++) if (v[i]->inGroup == q->label) for (auto &e : m.a[i]) { ends++; endw += e.second; if (v[e.first]->inGroup == q->label && i < e.first) in++, inw += e.second; } CHECK(q->inlinks == in && q->totlinks == ends - in && q->outlinks == ends - 2 * in, "map:links", "mapped group %d has %d/%d/%d links, expected %d/%d/%d", q->label, q->totlinks, q->inlinks, q->outlinks, ends - in, in, ends - 2 * in); CHECK(vf::close(q->inlinksW, inw) && vf::close(q->totlinksW, endw - inw) && vf::close(q->outlinksW, endw - 2 * inw), "map:weights", "mapped group %d has wrong weights", q->label); }
    // soft mapping on a subset of the network leaves the partition alone
    vector<char> in(m.n); NG *sub = CreateHeaderGraph(), *last = sub; for (int i = 0; i < m.n; i++) if ((in[i] = r.p(.6))) last = CreateNodeGraph(last, v[i]->label); vf::stage("map-subset"); vector<array<int, 3>> before; for (GR *q : bg) before.push_back({q->totlinks, q->inlinks, q->outlinks}); MapPartToNetSoft(back, sub); NG *x = sub; for (int i = 0; i < m.n; i++) if (in[i]) { x = x->next; CHECK(x->inGroup == bg[exp[i]]->label, "map:subset", "node %s of the subset is in %d", m.lab[i].c_str(), x->inGroup); }
    for (size_t j = 0; j < bg.size(); j++) { CHECK((before[j] == array<int, 3>{bg[j]->totlinks, bg[j]->inlinks, bg[j]->outlinks}), "map:subset", "soft mapping changed the partition"); for (NL *l = bg[j]->nodeList->next; l; l = l->next) CHECK(idx(v, l->ref) >= 0, "map:subset", "soft mapping moved pointers of the partition"); } RemoveGraph(sub); RemovePartition(back); vf::count("monitor.mappings"); }
  // table output
  vf::stage("write-table"); MapPartToNet(part, net); f = tmpfile(); FPrintPartition(f, part, 0); txt = slurp(f); fclose(f); want.clear(); for (GR *q : groups(part)) if (q->size) { want += vf::fmt("%d %d %d %d %d %f %f %f ---", q->label + 1, q->size, q->totlinks, q->inlinks, q->outlinks, q->totlinksW, q->inlinksW, q->outlinksW); for (NL *l = q->nodeList->next; l; l = l->next) want += string(" ") + l->nodeLabel; want += "\n"; } CHECK(txt == want, "print:table", "table output differs: %s", txt.substr(0, 200).c_str());
  vf::stage("pajek"); { char fn[] = "./p11-XXXXXX"; int fd = mkstemp(fn); if (fd >= 0) close(fd); FPrintPajekPartitionFile(fn, net); f = fopen(fn, "r"); txt = slurp(f); fclose(f); unlink(fn); want = "*Vertices " + to_string(m.n) + "\n"; for (int i = 0; i < m.n; i++) want += "   " + to_string(of[i] + 1) + "\n"; CHECK(txt == want, "print:pajek", "Pajek partition differs: %s instead of %s", txt.c_str(), want.c_str()); }
  // size statistics
  { double a, s, lo, hi, sum = 0, sq = 0, mn = 1e9, mx = 0; vf::stage("stats"); GroupSizeStatistics(part, &a, &s, &lo, &hi); for (auto &x : all) { sum += x.size(); mn = min(mn, (double)x.size()); mx = max(mx, (double)x.size()); } double mu = sum / all.size(); for (auto &x : all) sq += (x.size() - mu) * (x.size() - mu); CHECK(vf::close(a, mu) && lo == mn && hi == mx, "stats", "mean %g min %g max %g, expected %g %g %g", a, lo, hi, mu, mn, mx); CHECK(fabs(s - sqrt(sq / all.size())) < 1e-6 * (1 + s), "stats:stddev", "stddev %g, expected %g", s, sqrt(sq / all.size())); }
  // sub-networks
  int pick = of[r.in(0, m.n - 1)]; { vector<int> mem, nb; for (NL *l = g[pick]->nodeList->next; l; l = l->next) mem.push_back(idx(v, l->ref)); vf::stage("BuildNetFromGroup"); NG *sub = BuildNetFromGroup(g[pick]); subnet(m, v, sub, mem, true, "subnet", tag); RemoveGraph(sub);
    set<int> s(mem.begin(), mem.end()); for (int i : mem) for (auto &e : m.a[i]) s.insert(e.first); nb.assign(s.begin(), s.end()); vf::stage("BuildNetFromGroupNeig"); sub = BuildNetFromGroupNeig(g[pick]); subnet(m, v, sub, nb, false, "subnet:neighbours", tag); RemoveGraph(sub); }
  // block model (goes to stdout)
  if (m.links() > 0) { string types = "nfpez"; char ty = types[r.in(0, 4)]; fflush(stdout); int so = dup(1); FILE *cap = tmpfile(); dup2(fileno(cap), 1); vf::stage("BlockModel"); BlockModel(part, ty, 0); fflush(stdout); dup2(so, 1); close(so); txt = slurp(cap); fclose(cap); vector<array<double, 3>> rows; { const char *p = txt.c_str(); double a, b, c; int n; while (sscanf(p, "%lf %lf %lf%n", &a, &b, &c, &n) == 3) { rows.push_back({a, b, c}); p += n; } }
    vector<int> ne; for (int j = 0; j < ng; j++) if (g[j]->size) ne.push_back(j); size_t at = 0; double L = m.links(), N = m.n, pr = 2 * L / (N * (N - 1)); CHECK(rows.size() == ne.size() * ne.size(), "block:rows", "%zu rows for %zu non-empty groups", rows.size(), ne.size());
    for (int a : ne) for (int b : ne) { if (at >= rows.size()) break; auto w = rows[at++]; double c = 0, ea = 0; for (int i = 0; i < m.n; i++) if (of[i] == a) for (auto &e : m.a[i]) { ea++; if (of[e.first] == b && (a != b || i < e.first)) c++; } double sa = g[a]->size, sb = g[b]->size, pairs = a == b ? sa * (sa - 1) / 2 : sa * sb, x = NAN; if (ty == 'n') x = c; else if (ty == 'f') x = c / L; else if (ty == 'p' && pairs > 0) x = c / pairs; else if (ty == 'z' && pairs > 0 && pr < 1) x = (c - pr * pairs) / sqrt(pairs * pr * (1 - pr)); else if (ty == 'e' && a == b) x = c / L - ea * ea / (4 * L * L);
      CHECK(w[0] == a + 1 && w[1] == b + 1, "block:pair", "row for groups %g %g, expected %d %d", w[0], w[1], a + 1, b + 1); if (!isnan(x)) CHECK(fabs(w[2] - x) < 2e-6 * (1 + fabs(x)), "block:value", "type %c groups %d %d: %g, expected %g", ty, a, b, w[2], x); vf::count("monitor.block_values"); } }
  // stripping links: one of three, the network is consumed
  int how = r.in(0, 3); G w = m; if (how == 0) { vf::stage("strip-within"); RemoveWithinGroupLinks(g[pick], 1); for (int i = 0; i < m.n; i++) if (of[i] == pick) while (!w.a[i].empty()) w.del(i, w.a[i].begin()->first); }
  else if (how == 1) { vf::stage("strip-within-directed"); RemoveWithinGroupLinks(g[pick], 0); for (int i = 0; i < m.n; i++) if (of[i] == pick) w.a[i].clear(); }
  else { for (int i = 0; i < m.n; i++) for (auto &e : m.a[i]) if (of[i] != of[e.first]) w.a[i].erase(e.first); if (how == 2) { vf::stage("strip-between"); RemoveBetweenGroupLinks(part, r.in(0, 1)); } else { vf::stage("strip-inter"); RemoveInterGroupLinks(net); } }
  { G got = extract(net, "strip:structure"); string why; if (!same(got, w, why, 0)) vf::viol("strip:result", "how %d: %s", how, why.c_str()); vf::count("oracle.checks"); for (int i = 0; i < m.n; i++) CHECK((int)NodeDegree(v[i]) == w.deg(i), "strip:degree", "degree of %s stale after stripping", m.lab[i].c_str()); }
  RemovePartition(part); RemoveGraph(net);
}
