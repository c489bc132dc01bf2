// P10: group bookkeeping always equals a recount, and node-group / group-group counts equal a direct count.
#include "rg.hpp"
using namespace std;
long n_cases(int tier) { return tier ? 400000 : 12000; }
struct GS { vector<GR *> g; };            // groups in list order
static vector<GR *> groups(GR *part) { vector<GR *> v; while ((part = part->next)) v.push_back(part); return v; }
struct St { G m; NG *net; vector<NG *> v; GR *part; vector<int> of; bool fast = false; };   // of[i] = label of the group of node i, -1 none
static void audit(St &s, const char *after) {
  auto gs = groups(s.part); vector<int> seen(s.m.n, -1); int total = 0, nonempty = 0; vf::count("monitor.group_states", gs.size());
  for (GR *g : gs) { set<int> mem; int c = 0;
    for (NL *l = g->nodeList->next; l; l = l->next) { c++; int i = idx(s.v, l->ref); if (i < 0) { vf::viol("member:alien", "after %s: group %d lists a node outside the network", after, g->label); continue; } CHECK(seen[i] < 0, "member:twice", "after %s: node %s is listed in groups %d and %d", after, s.m.lab[i].c_str(), seen[i], g->label); seen[i] = g->label; mem.insert(i);
      CHECK(l->node == s.v[i]->num && l->nodeLabel && s.m.lab[i] == l->nodeLabel, "member:entry", "after %s: entry of node %s says %d/%s", after, s.m.lab[i].c_str(), l->node, l->nodeLabel); CHECK(s.v[i]->inGroup == g->label, "member:ingroup", "after %s: node %s in group %d says it is in %d", after, s.m.lab[i].c_str(), g->label, s.v[i]->inGroup); }
    CHECK(g->size == c, "size", "after %s: group %d has size %d, lists %d", after, g->label, g->size, c); total += c; if (c) nonempty++;
    if (!s.fast) { int in = 0, tot = 0; double inw = 0, totw = 0; for (int i : mem) for (auto &e : s.m.a[i]) { bool inside = mem.count(e.first) > 0; if (inside) { if (i < e.first) in++, inw += e.second, tot++, totw += e.second; } else tot++, totw += e.second; }
      CHECK(g->inlinks == in && g->totlinks == tot && g->outlinks == tot - in, "links", "after %s: group %d records %d/%d/%d total/internal/external links, recount %d/%d/%d", after, g->label, g->totlinks, g->inlinks, g->outlinks, tot, in, tot - in);
      CHECK(vf::close(g->inlinksW, inw) && vf::close(g->totlinksW, totw) && vf::close(g->outlinksW, totw - inw), "weights", "after %s: group %d records weights %.10g/%.10g/%.10g, recount %.10g/%.10g/%.10g", after, g->label, g->totlinksW, g->inlinksW, g->outlinksW, totw, inw, totw - inw); } }
  for (int i = 0; i < s.m.n; i++) CHECK(seen[i] == s.of[i], "member:which", "after %s: node %s is in group %d, expected %d", after, s.m.lab[i].c_str(), seen[i], s.of[i]);
  CHECK(NGroups(s.part) == (int)gs.size(), "ngroups", "%d groups, expected %zu", NGroups(s.part), gs.size()); CHECK(NNonEmptyGroups(s.part) == nonempty, "nnonempty", "%d non-empty groups, expected %d", NNonEmptyGroups(s.part), nonempty); CHECK(PartitionSize(s.part) == total, "psize", "partition size %d, expected %d", PartitionSize(s.part), total);
  GR *fe = nullptr; for (GR *g : gs) if (!g->nodeList->next) { fe = g; break; } CHECK(GetEmptyGroup(s.part) == fe, "getempty", "wrong empty group");
}
static void counts(St &s, Rng &r) {
  auto gs = groups(s.part); if (gs.empty()) return; int i = r.in(0, s.m.n - 1); GR *a = r.pick(gs), *b = r.pick(gs); auto in = [&](int x, GR *g) { return s.of[x] == g->label; };
  CHECK(GetGroup(s.part, a->label) == a, "getgroup", "group %d not found", a->label);
  int c = 0, cw = 0; double w = 0, probe = s.m.deg(i) ? s.m.a[i].begin()->second : 1; for (auto &e : s.m.a[i]) if (in(e.first, a)) { c++; w += e.second; if (e.second == probe) cw++; }
  CHECK(NLinksToGroup(s.v[i], a) == c && NLinksToGroupByNum(s.v[i], a->label) == c, "nodelinks", "%d links from %s to group %d, expected %d", NLinksToGroup(s.v[i], a), s.m.lab[i].c_str(), a->label, c);
  CHECK(NWeightLinksToGroup(s.v[i], a, probe) == cw, "nodelinksw", "%d links of weight %g to group %d, expected %d", NWeightLinksToGroup(s.v[i], a, probe), probe, a->label, cw);
  CHECK(vf::close(StrengthToGroup(s.v[i], a), w) && vf::close(StrengthToGroupByNum(s.v[i], a->label), w), "nodestrength", "strength %g, expected %g", StrengthToGroup(s.v[i], a), w);
  int g2 = 0, g2w = 0; double gw = 0; for (int x = 0; x < s.m.n; x++) for (auto &e : s.m.a[x]) if (a == b ? (x < e.first && in(x, a) && in(e.first, a)) : (in(x, a) && in(e.first, b))) { g2++; gw += e.second; if (e.second == probe) g2w++; }
  CHECK(NG2GLinks(a, b) == g2, "g2g", "%d links between groups %d and %d, expected %d", NG2GLinks(a, b), a->label, b->label, g2); CHECK(NWeightG2GLinks(a, b, probe) == g2w, "g2gw", "%d links of weight %g between groups, expected %d", NWeightG2GLinks(a, b, probe), probe, g2w); CHECK(vf::close(NG2GLinksWeight(a, b), gw), "g2gweight", "weight %g between groups, expected %g", NG2GLinksWeight(a, b), gw); vf::count("monitor.counts");
}
void run_case(long k, Rng &r) {
  St s; s.m = random_graph(r, 1, k % 313 == 105 ? 420 : k % 23 == 0 ? 50 : 14, r.in(0, 2)); s.net = build(r, s.m); s.v = nodes(s.net); s.of.assign(s.m.n, -1); s.fast = r.p(.15);
  string d = s.m.text() + " ops:"; ResetNetGroup(s.net); s.part = CreateHeaderGroup(); int ng = r.in(1, 6), nextlab = 0; for (int j = 0; j < ng; j++) { nextlab += r.in(0, 2) + (j > 0); GR *g = CreateGroup(s.part, nextlab); CHECK(g->label == nextlab && g->size == 0 && !g->next, "create", "new group wrong"); }
  vf::stage("assign"); for (int i = 0; i < s.m.n; i++) if (r.p(.9)) { auto gs = groups(s.part); GR *g = r.pick(gs); NL *l = s.fast ? AddNodeToGroupFast(g, s.v[i]) : AddNodeToGroup(g, s.v[i]); CHECK(l && l->ref == s.v[i] && !l->next, "add", "wrong entry returned"); s.of[i] = g->label; }
  audit(s, "adding nodes"); vector<pair<GR *, vector<int>>> olds; int nops = r.in(3, 25);
  for (int o = 0; o < nops; o++) {
    auto gs = groups(s.part); if (gs.empty()) { CreateGroup(s.part, ++nextlab); continue; } int op = r.in(0, 11), i = r.in(0, s.m.n - 1); GR *a = r.pick(gs), *b = r.pick(gs); d += vf::fmt(" %d,%d,%d,%d", op, i, a->label, b->label);
    if (op <= 3) { if (s.of[i] < 0) { vf::stage("add"); s.fast ? AddNodeToGroupFast(a, s.v[i]) : AddNodeToGroup(a, s.v[i]); s.of[i] = a->label; audit(s, "adding a node"); }
      else { GR *old = GetGroup(s.part, s.of[i]); if (a == old) continue; vf::stage("move"); int rc = s.fast ? MoveNodeFast(s.v[i], old, a) : MoveNode(s.v[i], old, a); CHECK(rc == 1, "move:return", "moving a member returned %d", rc); s.of[i] = a->label; audit(s, "moving a node"); vf::count("ops.move"); } }
    else if (op == 4) { if (s.of[i] == a->label || a == b) continue; vf::stage("movefail"); int rc = s.fast ? MoveNodeFast(s.v[i], a, b) : MoveNode(s.v[i], a, b); CHECK(rc == 0, "move:return", "moving a non-member returned %d", rc); audit(s, "a refused move"); }
    else if (op == 5 || op == 6) { bool mem = s.of[i] == a->label; vf::stage("remove"); int rc = s.fast ? RemoveNodeFromGroupFast(a, s.v[i]) : RemoveNodeFromGroup(a, s.v[i]); CHECK(rc == mem, "remove:return", "removing returned %d, expected %d", rc, mem); if (mem) s.of[i] = -1, vf::count("ops.remove"); audit(s, "removing a node"); }
    else if (op == 7) { if (a == b) continue; vf::stage("merge"); s.fast ? MergeGroupsFast(a, b) : MergeGroups(a, b); for (int &x : s.of) if (x == a->label) x = b->label; audit(s, "merging groups"); vf::count("ops.merge"); }
    else if (op == 8) { vf::stage("compress"); int want = NNonEmptyGroups(s.part); vector<int> labs; for (GR *g : gs) if (g->size) labs.push_back(g->label); GR *c = CompressPart(s.part); CHECK(c == s.part && NGroups(c) == want, "compress", "%d groups after compressing, expected %d", NGroups(c), want); vector<int> now; for (GR *g : groups(c)) now.push_back(g->label); CHECK(now == labs, "compress:labels", "compressing changed labels or their order"); audit(s, "compressing"); vf::count("ops.compress"); }
    else if (op == 9) { vf::stage("copy"); GR *c = CopyPartition(s.part); bool all = count(s.of.begin(), s.of.end(), -1) == 0; (void)all;
      { auto o = groups(s.part), cc = groups(c); CHECK(o.size() == cc.size(), "copy:groups", "copy has %zu groups instead of %zu", cc.size(), o.size()); for (size_t x = 0; x < o.size() && x < cc.size(); x++) { CHECK(o[x] != cc[x] && o[x]->label == cc[x]->label && o[x]->size == cc[x]->size, "copy:group", "group %d copied as %d", o[x]->label, cc[x]->label); NL *p = o[x]->nodeList->next, *q = cc[x]->nodeList->next; for (; p && q; p = p->next, q = q->next) CHECK(p != q && p->ref == q->ref && !strcmp(p->nodeLabel, q->nodeLabel), "copy:nodes", "copied group lists other nodes"); CHECK(!p && !q, "copy:nodes", "copied group has another length"); } }
      audit(s, "copying (original)");
      if (r.p(.6)) { s.fast ? MapPartToNetFast(c, s.net) : MapPartToNet(c, s.net); olds.push_back({s.part, s.of}); s.part = c; audit(s, "mapping the copy"); } else RemovePartition(c); vf::count("ops.copy"); }
    else if (op == 10 && !olds.empty()) { vf::stage("restore"); auto &x = olds.back(); s.fast ? MapPartToNetFast(x.first, s.net) : MapPartToNet(x.first, s.net); RemovePartition(s.part); s.part = x.first; s.of = x.second; olds.pop_back(); audit(s, "going back to the original"); vf::count("ops.restore"); }
    else if (op == 11) { int l = nextlab += r.in(1, 3); bool dup = GetGroup(s.part, l); if (!dup) { CreateGroup(s.part, l); audit(s, "creating a group"); } CHECK(GetGroup(s.part, l + 1000) == nullptr, "getgroup", "absent group found"); }
    counts(s, r);
  }
  vf::input(d, s.m.n > 2 && s.m.links() > 1); vf::stage("free"); for (auto &x : olds) RemovePartition(x.first); RemovePartition(s.part);
  // partitions made in one go
  vf::stage("equi"); int gsz = r.in(1, s.m.n + 2); s.fast = false; s.part = CreateEquiNPartition(s.net, gsz); for (int i = 0; i < s.m.n; i++) s.of[i] = i / gsz; audit(s, "CreateEquiNPartition"); RemovePartition(s.part);
  vf::stage("ingroup"); int span = r.in(1, 8); for (int i = 0; i < s.m.n; i++) { s.of[i] = r.p(.05) ? -1 : r.in(0, span); s.v[i]->inGroup = s.of[i]; } s.part = CreatePartitionFromInGroup(s.net); audit(s, "CreatePartitionFromInGroup"); for (GR *g : groups(s.part)) CHECK(g->size > 0, "ingroup:empty", "empty group created"); counts(s, r); RemovePartition(s.part);
  vf::stage("soft"); int a = r.p(.1) ? r.in(6, 60) : r.in(0, 5), b = r.p(.1) ? r.in(6, 60) : r.in(0, 5); GR *e = CreateEquiNPartitionSoft(a, b); CHECK(NGroups(e) == a && PartitionSize(e) == a * b, "soft:size", "%d groups of %d: %d, %d", a, b, NGroups(e), PartitionSize(e)); int x = 0; for (GR *g : groups(e)) for (NL *l = g->nodeList->next; l; l = l->next) CHECK(atoi(l->nodeLabel) == ++x, "soft:labels", "label %s, expected %d", l->nodeLabel, x); RemovePartition(e);
  // clusters
  vf::stage("clusters"); s.part = ClustersPartition(s.net); auto c = components(s.m); map<int, int> id; for (int i = 0; i < s.m.n; i++) { if (!id.count(c[i])) { int z = (int)id.size(); id[c[i]] = z; } s.of[i] = id[c[i]]; } audit(s, "ClustersPartition"); RemovePartition(s.part);
  RemoveGraph(s.net);
  if (k % 200 == 3) { long w[8]; for (int t = 0; t < 8; t++) { Rng q(5); G h = shape(q, 8, 9); long b0 = live_bytes(); NG *n = build(q, h); GR *p = CreateEquiNPartition(n, 2); MergeGroups(p->next, p->next->next); RemoveNodeFromGroup(p->next->next->next, nodes(n)[4]); p = CompressPart(p); GR *cp = CopyPartition(p); MapPartToNet(p, n); MapPartToNetFast(cp, n); MapPartToNetSoft(cp, n); RemovePartition(cp); RemovePartition(p); p = ClustersPartition(n); RemovePartition(p); RemoveGraph(n); w[t] = live_bytes() - b0; } CHECK(w[7] <= w[4] && w[6] <= 0 + w[3] && w[7] <= 0, "leak", "a create/edit/copy/map/free cycle keeps %ld bytes", w[7]); vf::count("monitor.leak_windows"); }
}
