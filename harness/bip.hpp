// reference two-mode network
#pragma once
#include "rg.hpp"
namespace rg {
struct B {
  int n1 = 0, n2 = 0; std::vector<std::string> l1, l2; std::vector<std::map<int, double>> a;   // a[i][t] weight
  void init(int x, int y) { n1 = x; n2 = y; a.assign(x, {}); l1.resize(x); l2.resize(y); for (int i = 0; i < x; i++) l1[i] = "A" + std::to_string(i); for (int i = 0; i < y; i++) l2[i] = "B" + std::to_string(i); }
  int links() const { int c = 0; for (auto &m : a) c += (int)m.size(); return c; }
  int deg2(int t) const { int c = 0; for (auto &m : a) c += (int)m.count(t); return c; }
  double str1(int i) const { double s = 0; for (auto &e : a[i]) s += e.second; return s; }
  double str2(int t) const { double s = 0; for (auto &m : a) { auto it = m.find(t); if (it != m.end()) s += it->second; } return s; }
  B inverted() const { B b; b.init(n2, n1); b.l1 = l2; b.l2 = l1; for (int i = 0; i < n1; i++) for (auto &e : a[i]) b.a[e.first][i] = e.second; return b; }
  std::string text() const { std::string s = std::to_string(n1) + "x" + std::to_string(n2) + ":"; char b[64]; for (int i = 0; i < n1; i++) for (auto &e : a[i]) { snprintf(b, sizeof b, " %d-%d*%g", i, e.first, e.second); s += b; } return s; }
};
inline B random_bip(Rng &r, int max1, int max2, int wmode, bool shared_labels = false) {
  B b; bool big = max1 > 100 || max2 > 100; b.init(r.in(max1 > 100 ? max1 * 3 / 4 : 1, max1), r.in(max2 > 100 ? max2 * 3 / 4 : 1, max2)); int kind = r.in(0, 5); double p = kind == 0 ? .15 : kind == 1 ? .5 : kind == 2 ? .9 : .3, thin = big ? .1 : 1;
  for (int i = 0; i < b.n1; i++) for (int t = 0; t < b.n2; t++) { double q = p; if (kind == 4) q = (i % 2 == t % 2) ? .8 : .1; if (kind == 5) q = t == 0 || (big && i == 0) ? (big ? .99 / thin : .9) : .15; if (r.p(q * thin)) b.a[i][t] = wmode == 0 ? 1 : wmode == 1 ? r.in(1, 5) : r.in(1, 64) / 16.0; }
  int st = r.in(0, 4); for (int i = 0; i < b.n1; i++) b.l1[i] = rand_label(r, i, st); for (int t = 0; t < b.n2; t++) b.l2[t] = shared_labels && t < b.n1 && r.p(.6) ? b.l1[t] : rand_label(r, t + (shared_labels ? b.n1 : 0), st) ;
  return b;
}
inline struct binet *build(Rng &r, const B &b) {
  struct binet *x = CreateBipart(); x->net1 = CreateHeaderGraph(); x->net2 = CreateHeaderGraph(); std::vector<NG *> v1, v2; NG *l = x->net1;
  for (auto &s : b.l1) v1.push_back(l = CreateNodeGraph(l, (char *)s.c_str())); l = x->net2; for (auto &s : b.l2) v2.push_back(l = CreateNodeGraph(l, (char *)s.c_str()));
  std::vector<std::pair<int, int>> es; for (int i = 0; i < b.n1; i++) for (auto &e : b.a[i]) es.push_back({i, e.first}); r.shuffle(es);
  for (auto &e : es) { double w = b.a[e.first].at(e.second); AddAdjacency(v1[e.first], v2[e.second], 0, 0, w, 0); AddAdjacency(v2[e.second], v1[e.first], 0, 0, w, 0); }
  return x;
}
// reads a two-mode network back, checking that the two sides mirror each other
inline B extractB(struct binet *x, const char *key) {
  auto v1 = nodes(x->net1), v2 = nodes(x->net2); B b; b.init((int)v1.size(), (int)v2.size()); std::map<NG *, int> i1, i2;
  for (size_t i = 0; i < v1.size(); i++) { i1[v1[i]] = (int)i; b.l1[i] = v1[i]->label; CHECK(v1[i]->num == (int)i, key, "node %s has number %d instead of %zu", v1[i]->label, v1[i]->num, i); }
  for (size_t i = 0; i < v2.size(); i++) { i2[v2[i]] = (int)i; b.l2[i] = v2[i]->label; CHECK(v2[i]->num == (int)i, key, "second-side node %s has number %d instead of %zu", v2[i]->label, v2[i]->num, i); }
  auto side = [&](std::vector<NG *> &v, std::map<NG *, int> &other, bool first) { for (size_t i = 0; i < v.size(); i++) { std::set<int> seen; for (NL *l = v[i]->neig->next; l; l = l->next) {
      auto it = other.find(l->ref); if (it == other.end()) { vf::viol(key, "link of %s does not lead to the other side", v[i]->label); continue; }
      CHECK(seen.insert(it->second).second, key, "repeated link %s-%s", v[i]->label, l->ref->label); CHECK(l->node == l->ref->num, key, "link of %s stores number %d, node has %d", v[i]->label, l->node, l->ref->num); CHECK(!strcmp(l->nodeLabel, l->ref->label), key, "link of %s stores label %s instead of %s", v[i]->label, l->nodeLabel, l->ref->label);
      if (first) b.a[i][it->second] = l->weight; else { auto &m = b.a[it->second]; auto f = m.find((int)i); CHECK(f != m.end() && f->second == l->weight, key, "link %s-%s is not mirrored", v[i]->label, l->ref->label); } }
      if (!first) { int c = 0; for (auto &m : b.a) c += (int)m.count((int)i); CHECK(c == (int)seen.size(), key, "links of second-side node %s are not mirrored (%zu of %d)", v[i]->label, seen.size(), c); } } };
  side(v1, i2, true); side(v2, i1, false); vf::count("monitor.networks_extracted"); return b;
}
inline bool sameB(const B &x, const B &y, std::string &why, double tol = 0) {
  if (x.l1 != y.l1 || x.l2 != y.l2) { why = vf::fmt("node lists differ (%dx%d, expected %dx%d)", x.n1, x.n2, y.n1, y.n2); return false; }
  for (int i = 0; i < x.n1; i++) { if (x.a[i].size() != y.a[i].size()) { why = vf::fmt("node %s has %zu links instead of %zu", x.l1[i].c_str(), x.a[i].size(), y.a[i].size()); return false; }
    for (auto &e : x.a[i]) { auto it = y.a[i].find(e.first); if (it == y.a[i].end()) { why = "unexpected link " + x.l1[i] + " " + x.l2[e.first]; return false; } if (std::fabs(it->second - e.second) > tol * (1 + std::fabs(e.second))) { why = vf::fmt("link %s-%s has weight %.10g instead of %.10g", x.l1[i].c_str(), x.l2[e.first].c_str(), e.second, it->second); return false; } } }
  return true;
}
}
