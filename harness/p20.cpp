// P20: two-mode networks: reading, copying, inverting, editing, printing.
#include "bip.hpp"
using namespace std;
long n_cases(int tier) { return tier ? 200000 : 16000; }
static map<pair<string, string>, double> rel(const B &b) { map<pair<string, string>, double> m; for (int i = 0; i < b.n1; i++) for (auto &e : b.a[i]) m[{b.l1[i], b.l2[e.first]}] = e.second; return m; }
static void compare(struct binet *x, const B &want, const char *key, const char *what) { string why; B y = extractB(x, key); vf::count("oracle.checks"); if (!sameB(y, want, why)) vf::viol(key, "%s: %s", what, why.c_str()); CHECK(NLinksBipart(x) == want.links(), key, "%s: %d links counted instead of %d", what, NLinksBipart(x), want.links()); }
static void reading(long k, Rng &r) {
  int wsw = r.in(0, 1), add = r.in(0, 1), lines = r.in(0, k % 50 == 0 ? 300 : 25), al = r.in(1, 9), st = r.in(0, 4), bad = r.p(.15) ? r.in(1, 6) : 0; string txt; B b; map<string, int> i1, i2; vector<string> A, T; for (int i = 0; i < al; i++) { A.push_back(rand_label(r, i, st)); T.push_back(r.p(.4) ? A[i] : rand_label(r, i + al, st)); }
  int badat = bad ? r.in(0, lines) : -1; bool rejected = false; long before = 0;
  for (int l = 0; l < lines; l++) { if (l == badat) { string big(r.in(100, 400), 'z'); switch (bad) { case 1: txt += A[0] + "\n"; break; case 2: txt += "\n"; break; case 3: txt += big + " " + T[0] + " 1\n"; break; case 4: txt += A[0] + " " + big + " 1\n"; break; case 5: txt += wsw ? A[0] + " " + T[0] + "\n" : "onlyone\n"; break; default: txt += string("   \n"); } rejected = true; break; }
    string a = r.pick(A), t = r.pick(T); double w = wsw ? r.in(1, 80) / 8.0 : 1; const char *sep[] = {" ", "\t", "  ", " \t "}; txt += (r.p(.1) ? "  " : "") + a + sep[r.in(0, 3)] + t; if (wsw) txt += sep[r.in(0, 3)] + vf::fmt("%g", w); else if (r.p(.1)) txt += " extra"; if (l == lines - 1 && r.p(.2)) ; else txt += "\n";
    if (!i1.count(a)) { int z = (int)i1.size(); i1[a] = z; b.l1.push_back(a); b.a.push_back({}); } if (!i2.count(t)) { int z = (int)i2.size(); i2[t] = z; b.l2.push_back(t); } auto &m = b.a[i1[a]]; if (!m.count(i2[t])) m[i2[t]] = w; else if (add) m[i2[t]] += w; }
  b.n1 = (int)b.l1.size(); b.n2 = (int)b.l2.size(); vf::input(vf::fmt("w%d a%d ", wsw, add) + txt, lines > 2 && b.n1 > 1);
  FILE *f = tmpf(txt); vf::stage("read"); struct binet *x = FBuildNetworkBipart(f, wsw, add); fclose(f); (void)before;
  if (rejected) { CHECK(x == NULL, "read:accepted", "a malformed line was accepted"); if (x) RemoveBipart(x); vf::count("read.rejected"); return; }
  if (!x) { vf::viol("read:refused", "a well-formed file was rejected"); return; } compare(x, b, "read", "reading"); vf::count("read.files");
  // print and read again
  FILE *o = tmpfile(); FPrintBipart(o, x, wsw); string s = slurp(o); fclose(o); FILE *f2 = tmpf(s); struct binet *y = FBuildNetworkBipart(f2, wsw, 0); fclose(f2); if (!y) { vf::viol("print", "printed network cannot be read back"); } else { B z = extractB(y, "print"); auto A1 = rel(z), A2 = rel(b); bool ok = A1.size() == A2.size(); for (auto &e : A2) ok &= A1.count(e.first) && fabs(A1[e.first] - (wsw ? e.second : 1)) <= 1e-5 * fabs(e.second); CHECK(ok, "print", "network changed by printing and reading it back"); int nl = 0; for (char c : s) nl += c == '\n'; CHECK(nl == b.links(), "print:lines", "%d lines printed for %d links", nl, b.links()); RemoveBipart(y); }
  RemoveBipart(x);
}
static void pajek(struct binet *x, const B &b, int coor, int w) {
  char fn[] = "/tmp/vfpajXXXXXX"; const char *td = getenv("TMPDIR"); string path = (td ? string(td) : string("/tmp")) + "/vfpaj-" + to_string(getpid()); (void)fn; vf::stage("pajek"); FPrintPajekFileBipart((char *)path.c_str(), x, coor, w); FILE *f = fopen(path.c_str(), "r"); if (!f) { vf::viol("pajek", "no file written"); return; } string s = slurp(f); fclose(f); unlink(path.c_str());
  vector<string> L; size_t p = 0; while (p < s.size()) { size_t e = s.find('\n', p); if (e == string::npos) e = s.size(); L.push_back(s.substr(p, e - p)); p = e + 1; }
  int n, n1; if (L.empty() || sscanf(L[0].c_str(), "*Vertices %d %d", &n, &n1) != 2) { vf::viol("pajek", "bad header"); return; } CHECK(n == b.n1 + b.n2 && n1 == b.n1, "pajek:header", "header says %d %d", n, n1); CHECK((int)L.size() == 2 + b.n1 + b.n2 + b.links(), "pajek:lines", "%zu lines for %d nodes and %d links", L.size(), b.n1 + b.n2, b.links()); if ((int)L.size() != 2 + b.n1 + b.n2 + b.links()) return;
  auto v1 = nodes(x->net1), v2 = nodes(x->net2); for (int i = 0; i < b.n1 + b.n2; i++) { string lab = i < b.n1 ? b.l1[i] : b.l2[i - b.n1]; string pre = vf::fmt("%d \"%s\"", i + 1, lab.c_str()); CHECK(L[1 + i].compare(0, pre.size(), pre) == 0, "pajek:node", "line %s", L[1 + i].c_str()); if (coor) { double a = -9, c = -9, d = -9; NG *q = i < b.n1 ? v1[i] : v2[i - b.n1]; sscanf(L[1 + i].c_str() + pre.size(), "%lf %lf %lf", &a, &c, &d); CHECK(fabs(a - q->coorX) < 1e-5 && fabs(c - q->coorY) < 1e-5 && fabs(d - q->coorZ) < 1e-5, "pajek:coordinates", "line %s", L[1 + i].c_str()); } }
  CHECK(L[1 + b.n1 + b.n2] == "*Edges", "pajek:edges", "no *Edges line"); map<pair<int, int>, double> got, want; for (size_t i = 2 + b.n1 + b.n2; i < L.size(); i++) { int u, v; double q = 1; int c = sscanf(L[i].c_str(), "%d %d %lf", &u, &v, &q); CHECK(c == (w ? 3 : 2), "pajek:fields", "link line %s", L[i].c_str()); got[{u, v}] = w ? q : 1; } for (int i = 0; i < b.n1; i++) for (auto &e : b.a[i]) want[{i + 1, e.first + b.n1 + 1}] = w ? e.second : 1; CHECK(got == want, "pajek:links", "links printed differ"); vf::count("pajek.files");
}
static void editing(long k, Rng &r) {
  B b = random_bip(r, k % 313 == 105 ? 410 : k % 41 == 0 ? 25 : 8, k % 313 == 105 ? 410 : k % 41 == 0 ? 25 : 8, r.in(0, 2), r.p(.4)); vf::input("edit " + b.text(), b.n1 > 1 && b.links() > 1); struct binet *x = build(r, b); vector<pair<struct binet *, B>> kept;
  auto mark = [&](struct binet *q) { int c = 0; for (NG *h : {q->net1, q->net2}) for (NG *p : nodes(h)) { p->coorX = c + .5; p->coorY = -c; p->coorZ = c * .25; p->state = c + 3; p->inGroup = 2 * c; p->ivar1 = c + 7; p->dvar1 = c / 4.; c++; } };
  mark(x);
  for (int o = 0, n = r.in(3, 14); o < n; o++) switch (r.in(0, 6)) {
    case 0: { vf::stage("copy"); struct binet *c = CopyBipart(x); compare(c, b, "copy", "copy"); for (int s = 0; s < 2; s++) { auto u = nodes(s ? x->net2 : x->net1), v = nodes(s ? c->net2 : c->net1); for (size_t i = 0; i < u.size() && i < v.size(); i++) { CHECK(u[i] != v[i], "copy:shared", "copy shares a node"); CHECK(u[i]->coorX == v[i]->coorX && u[i]->coorY == v[i]->coorY && u[i]->coorZ == v[i]->coorZ && u[i]->state == v[i]->state && u[i]->inGroup == v[i]->inGroup && u[i]->ivar1 == v[i]->ivar1 && u[i]->dvar1 == v[i]->dvar1, "copy:attributes", "attributes of %s differ in the copy", u[i]->label); } } kept.push_back({c, b}); if (r.p(.5)) swap(x, kept.back().first); vf::count("ops.copy"); break; }
    case 1: case 2: { vf::stage("invert"); x = InvertBipart(x); b = b.inverted(); compare(x, b, "invert", "inverting"); vf::count("ops.invert"); break; }
    case 3: case 4: { int set = r.in(1, 2); if ((set == 1 ? b.n1 : b.n2) < 2) break; if (set == 2) b = b.inverted(); int t = r.in(0, b.n1 - 1); string lab = b.l1[t]; vf::stage("removenode"); RemoveNodeBipart(x, (char *)lab.c_str(), set); b.l1.erase(b.l1.begin() + t); b.a.erase(b.a.begin() + t); b.n1--; if (set == 2) b = b.inverted(); compare(x, b, "removenode", "removing a node"); vf::count("ops.removenode"); break; }
    case 5: { if (!b.links()) break; int i; do i = r.in(0, b.n1 - 1); while (b.a[i].empty()); auto it = next(b.a[i].begin(), r.in(0, (int)b.a[i].size() - 1)); auto u = nodes(x->net1), v = nodes(x->net2); RemoveLink(u[i], v[it->first], 1); b.a[i].erase(it); compare(x, b, "removelink", "removing a link"); break; }
    default: pajek(x, b, r.in(0, 1), r.in(0, 1));
  }
  for (auto &c : kept) compare(c.first, c.second, "copy:alias", "a copy after later edits of the other"); vf::stage("remove"); RemoveBipart(x); for (auto &c : kept) RemoveBipart(c.first);
  if (k % 60 == 4) { long w[12]; for (int t = 0; t < 12; t++) { Rng q(9); B c = b; c.init(5, 4); for (int i = 0; i < 5; i++) for (int s = 0; s < 4; s++) if ((i + s) % 3) c.a[i][s] = 1 + i; long l0 = live_bytes(); struct binet *y = build(q, c), *z = CopyBipart(y); RemoveNodeBipart(y, (char *)"A1", 1); RemoveNodeBipart(z, (char *)"B2", 2); NG *p = ProjectBipart(y), *p2 = ProjectBipartWeighted(z); RemoveGraph(p); RemoveGraph(p2); RemoveBipart(y); RemoveBipart(z); FILE *f = tmpf("a b\nc d\nbad\n"); struct binet *bad = FBuildNetworkBipart(f, 0, 0); fclose(f); if (bad) RemoveBipart(bad); f = tmpf("a b 2\nc d 1\na b 2\n"); bad = FBuildNetworkBipart(f, 1, 1); fclose(f); if (bad) RemoveBipart(bad); w[t] = live_bytes() - l0; } CHECK(w[11] <= 0 || w[11] < 0 + 1, "leak", "a build/copy/edit/read/remove cycle keeps %ld bytes", w[11]); vf::count("monitor.leak_windows"); }
}
void run_case(long k, Rng &r) { if (k % 3 == 0) reading(k, r); else editing(k, r); }
