// P01: what is read from a link file is exactly the network in the file; printing and re-reading is lossless.
#include "rg.hpp"
using namespace std;
long n_cases(int tier) { return tier ? 12000 : 1600; }

struct Line { string a, b, w; double x; };
static string join(Rng &r, const Line &l, bool weighted, int style) {
  auto sp = [&]() { if (style == 0) return string(" "); if (style == 1) return string("\t"); string s; int n = r.in(1, 4); for (int i = 0; i < n; i++) s += r.p(.5) ? ' ' : '\t'; return s; };
  string s; if (style == 2 && r.p(.3)) s += sp();
  s += l.a + sp() + l.b; if (weighted || r.p(.15)) s += sp() + l.w;
  if (style == 2 && r.p(.3)) s += sp();
  if (style == 3) s += "\r";
  return s + "\n";
}
static G model(const vector<Line> &ls, int w, int au, int ad, int sy) {
  G g; map<string, int> ix;
  auto id = [&](const string &s) { auto it = ix.find(s); if (it != ix.end()) return it->second; int k = g.n++; ix[s] = k; g.lab.push_back(s); g.a.push_back({}); return k; };
  auto arc = [&](int i, int j, double x) { if (i == j && !au) return; auto it = g.a[i].find(j); if (it == g.a[i].end()) g.a[i][j] = x; else if (ad) it->second += x; };
  for (auto &l : ls) { int i = id(l.a), j = id(l.b); double x = w ? l.x : 1; arc(i, j, x); if (sy && i != j) arc(j, i, x); }
  return g;
}
// reading and destroying must give back every byte (second of two identical rounds, so one-off buffers do not count)
static void leakcheck(const string &text, int w, int au, int ad, int sy, const char *key) {
  if (!live_bytes()) return;
  FILE *f = tmpf(text); fgetc(f); long d = 0;
  for (int i = 0; i < 2; i++) { rewind(f); long b = live_bytes(); NG *n = FBuildNetwork(f, w, au, ad, sy); if (n) RemoveGraph(n); d = live_bytes() - b; }
  fclose(f); vf::count("monitor.leak_windows");
  CHECK(d == 0, key, "%ld bytes not released after reading and destroying", d);
}
static void valid_file(long k, Rng &r) {
  int w = r.in(0, 1), au = r.in(0, 1), ad = r.in(0, 1), sy = r.in(0, 1);
  int nl = k % 40 == 7 ? r.in(800, 2500) : r.in(1, 40), nlab = k % 40 == 7 ? r.in(200, 1500) : r.in(1, 14), ls = r.in(0, 4);
  vector<string> labs; set<string> seen;
  while ((int)labs.size() < nlab) { string s = rand_label(r, r.in(0, 5 * nlab), ls); if (r.p(.1) && !labs.empty()) s = r.pick(labs) + "x"; if (s.size() < 95 && seen.insert(s).second) labs.push_back(s); }
  if (k % 5 == 0) sort(labs.begin(), labs.end()); else if (k % 5 == 1) sort(labs.rbegin(), labs.rend());
  vector<Line> v; string text; int style = r.in(0, 3);
  for (int i = 0; i < nl; i++) {
    Line l; l.a = k % 5 < 2 ? labs[min<int>(nlab - 1, i * nlab / nl)] : r.pick(labs); l.b = r.pick(labs);
    if (r.p(.08)) l.b = l.a;
    if (!v.empty() && r.p(.25)) { l = r.pick(v); if (r.p(.5)) swap(l.a, l.b); }
    char b[32]; double x = r.in(1, 32) / 16.0; snprintf(b, sizeof b, r.p(.8) ? "%g" : "%.4e", x); l.w = b; l.x = strtod(b, 0);
    v.push_back(l); text += join(r, l, w, style);
  }
  if (r.p(.2) && text.back() == '\n') text.pop_back();
  string desc = vf::fmt("options w%d self%d add%d sym%d file: ", w, au, ad, sy) + text;
  vf::input(desc, v.size() >= 3 && nlab >= 2);
  FILE *f = tmpf(text);
  vf::stage("read");
  NG *net = FBuildNetwork(f, w, au, ad, sy); fclose(f);
  if (!net) { vf::viol("read:null", "well-formed file rejected: %s", desc.c_str()); return; }
  G want = model(v, w, au, ad, sy), got = extract(net, "read:structure");
  string why; if (!same(got, want, why, 1e-12)) vf::viol("read:content", "%s ; %s", why.c_str(), desc.c_str());
  CHECK(CountNodes(net) == want.n, "read:content", "CountNodes %d != %d", CountNodes(net), want.n);
  vf::count("lines_read", v.size());
  // dictionary
  vf::stage("dict");
  void *d = MakeLabelDict(net); auto nv = nodes(net);
  for (size_t i = 0; i < nv.size(); i++) CHECK(GetNodeDict((char *)want.lab[i].c_str(), d) == nv[i], "dict:lookup", "label %s not found at its node", want.lab[i].c_str());
  for (int i = 0; i < 10; i++) { string s = rand_label(r, r.in(0, 9 * nlab), ls); bool there = false; for (auto &x : want.lab) there |= x == s;
    CHECK((GetNodeDict((char *)s.c_str(), d) != nullptr) == there, "dict:absent", "label %s presence wrong", s.c_str()); }
  FreeLabelDict(d);
  // print and re-read
  vf::stage("print");
  int pw = r.in(0, 1);
  {
    FILE *o = tmpfile(); FPrintNetAdjacencyList(o, net, pw, sy); string out = slurp(o);
    // expected lines: every arc once, or for symmetric networks every link once
    multiset<string> exp, act; char b[400];
    for (int i = 0; i < want.n; i++) for (auto &e : want.a[i]) { if (sy && want.lab[i] > want.lab[e.first]) continue;
      if (pw) snprintf(b, sizeof b, "%s %s %g", want.lab[i].c_str(), want.lab[e.first].c_str(), e.second); else snprintf(b, sizeof b, "%s %s", want.lab[i].c_str(), want.lab[e.first].c_str()); exp.insert(b); }
    size_t p = 0; while (p < out.size()) { size_t q = out.find('\n', p); act.insert(out.substr(p, q - p)); p = q + 1; }
    CHECK(exp == act, "print:lines", "printed adjacency list is not the network (%zu lines, expected %zu); %s", act.size(), exp.size(), desc.c_str());
    rewind(o); vf::stage("reread");
    NG *n2 = FBuildNetwork(o, pw, 1, 0, sy);
    if (!n2) vf::viol("reread:null", "printed network cannot be read");
    else { G g2 = extract(n2, "reread:structure"); auto A = bylabel(g2); auto B = bylabel(want);
      set<string> touched; for (int i = 0; i < want.n; i++) for (auto &e : want.a[i]) { touched.insert(want.lab[i]); touched.insert(want.lab[e.first]); }
      for (auto it = B.begin(); it != B.end();) { if (!touched.count(it->first)) it = B.erase(it); else { if (!pw) for (auto &x : it->second) x.second = 1; ++it; } }
      CHECK(A == B, "reread:content", "re-read network differs; %s", desc.c_str()); RemoveGraph(n2); }
    fclose(o);
  }
  vf::stage("pajek");
  {
    int cs = r.in(0, 1); string fn = vf::fmt("pajek-%d.net", (int)getpid()); FPrintPajekFile((char *)fn.c_str(), net, cs, pw, sy);
    FILE *o = fopen(fn.c_str(), "r"); string out = slurp(o); fclose(o); unlink(fn.c_str());
    string exp = vf::fmt("*Vertices %d", want.n) + "\n"; char b[600];
    for (int i = 0; i < want.n; i++) { if (cs) snprintf(b, sizeof b, "%d \"%s\"           %lf %lf %lf\n", i + 1, want.lab[i].c_str(), -1., -1., -1.); else snprintf(b, sizeof b, "%d \"%s\"\n", i + 1, want.lab[i].c_str()); exp += b; }
    exp += sy ? "*Edges\n" : "*Arcs\n";
    CHECK(out.compare(0, exp.size(), exp) == 0, "pajek:vertices", "vertex section wrong; %s", desc.c_str());
    multiset<string> ea, aa; for (int i = 0; i < want.n; i++) for (auto &e : want.a[i]) { if (sy && i > e.first) continue;
      if (pw) snprintf(b, sizeof b, "%d   %d   %g", i + 1, e.first + 1, e.second); else snprintf(b, sizeof b, "%d   %d", i + 1, e.first + 1); ea.insert(b); }
    size_t p = min(exp.size(), out.size()); while (p < out.size()) { size_t q = out.find('\n', p); if (q == string::npos) break; aa.insert(out.substr(p, q - p)); p = q + 1; }
    CHECK(ea == aa, "pajek:links", "link section wrong (%zu vs %zu); %s", aa.size(), ea.size(), desc.c_str());
    FILE *fd = tmpfile(); FPrintDegrees(fd, net); string ds = slurp(fd); fclose(fd); string ed;
    for (int i = 0; i < want.n; i++) ed += want.lab[i] + " " + to_string(want.deg(i)) + "\n";
    CHECK(ds == ed, "print:degrees", "printed degrees wrong; %s", desc.c_str());
  }
  G again = extract(net, "print:structure"); if (!same(again, want, why, 1e-12)) vf::viol("print:mutates", "%s", why.c_str());
  vf::stage("free");
  RemoveGraph(net);
  leakcheck(text, w, au, ad, sy, "leak:read");
}
static void malformed(long k, Rng &r) {
  string t; int kind = r.in(0, 6);
  int w = r.in(0, 1), au = r.in(0, 1), ad = r.in(0, 1), sy = r.in(0, 1);
  auto tok = [&](int L) { string s; for (int i = 0; i < L; i++) s += (char)r.in(33, 126); return s; };
  switch (kind) {
    case 0: break;                                                              // empty file
    case 1: { int n = r.in(1, 300); for (int i = 0; i < n; i++) t += (char)r.in(0, 255); break; }
    case 2: { int n = r.in(1, 8); for (int i = 0; i < n; i++) { int m = r.in(0, 4); for (int j = 0; j < m; j++) t += tok(r.in(1, 6)) + " "; t += "\n"; } break; }
    case 3: { int n = r.in(1, 5); for (int i = 0; i < n; i++) t += tok(r.in(80, 400)) + " " + tok(r.in(1, 300)) + " 1\n"; break; }   // over-long labels
    case 4: { t = "a b 1\nb c 2\n\nc d 3\n"; if (r.p(.5)) t += "\n"; break; }
    case 5: { int L = r.in(95, 105); t = string(L, 'q') + " " + string(r.in(95, 105), 'z') + " 1.0\n" + string(L, 'q') + " b 2\n"; break; }
    default: { t = "a b x\nb c 1e400\na b nan\n c d\n"; r.p(.5) ? t += "a" : t; }
  }
  vf::input("malformed: " + vf::fmt("%d%d%d%d kind %d ", w, au, ad, sy, kind) + t, t.size() > 3);
  FILE *f = tmpf(t);
  vf::stage("malformed");
  NG *net = FBuildNetwork(f, w, au, ad, sy);
  fclose(f);
  vf::count(net ? "malformed.accepted" : "malformed.rejected"); vf::count("oracle.checks");
  if (net) { for (NG *p = net->next; p; p = p->next) CHECK(strlen(p->label) < MAX_LABEL_LENGTH, "malformed:label", "label of %zu characters stored", strlen(p->label)); extract(net, "malformed:structure"); RemoveGraph(net); }
  leakcheck(t, w, au, ad, sy, "leak:malformed");
}
void run_case(long k, Rng &r) { if (k % 5 == 4) malformed(k, r); else valid_file(k, r); }
