// P29: balanced tree behind the label dictionary, stack and queue, against std containers.
#include "rg.hpp"
using namespace std;
long n_cases(int tier) { return tier ? 40000 : 5000; }
static int cmps(const void *a, const void *b) { vf::counters_["monitor.comparisons"]++; return strcmp((const char *)a, (const char *)b); }
static vector<pair<string, int>> walked; static vector<VISIT> kinds; static int bad_level; static int depth_open;
static void walk_act(const void *node, VISIT w, int level) { const char *s = *(const char *const *)node; if (w == leaf || w == postorder) walked.push_back({s, level}); if (w == preorder) { if (level != depth_open) bad_level++; depth_open++; } else if (w == endorder) { depth_open--; if (level != depth_open) bad_level++; } else if (w == leaf) { if (level != depth_open) bad_level++; } else if (level != depth_open - 1) bad_level++; }
static void verify(void *root, const set<string> &ref, const char *key) {
  walked.clear(); bad_level = depth_open = 0; twalk(root, walk_act); vf::count("oracle.checks"); bool ok = walked.size() == ref.size(); size_t i = 0; int mx = 0; if (ok) for (auto &s : ref) { ok &= walked[i].first == s; mx = max(mx, walked[i].second); i++; } else for (auto &w : walked) mx = max(mx, w.second);
  if (!ok) vf::viol(key, "traversal visits %zu elements, not the %zu stored ones in sorted order", walked.size(), ref.size()); CHECK(!bad_level, key, "levels reported by the traversal are inconsistent"); if (!ref.empty()) { double lim = 2 * log2(ref.size() + 1.0); CHECK(mx + 1 <= lim + 1e-9, "tree:balance", "depth %d with %zu elements", mx + 1, ref.size()); } vf::count("monitor.traversals");
}
static void tree(long k, Rng &r) {
  int n = k % 23 == 0 ? r.in(200, 1500) : r.in(1, 60), order = r.in(0, 4), st = r.in(0, 4); vector<char *> keys; set<string> seen; for (int i = 0; i < n; i++) { string s = order == 1 || order == 2 ? vf::fmt("k%06d", i) : rand_label(r, r.in(0, n), st); if (seen.insert(s).second) keys.push_back(strdup(s.c_str())); } if (order == 2) reverse(keys.begin(), keys.end()); if (order == 3) sort(keys.begin(), keys.end(), [](char *a, char *b) { return strcmp(a, b) < 0; });
  string d = vf::fmt("tree %zu order %d", keys.size(), order); for (size_t i = 0; i < keys.size() && i < 20; i++) d += string(" ") + keys[i]; vf::input(d, keys.size() > 2); vf::stage("tree"); long l0 = live_bytes(); void *root = NULL; set<string> ref; map<string, char *> held; int step = max<int>(1, keys.size() / 8);
  auto find = [&](char *s) { void *p = tfind(s, &root, cmps); auto it = held.find(s); CHECK((p != NULL) == (it != held.end()), "tree:find", "%s %sfound", s, p ? "" : "not "); if (p && it != held.end()) CHECK(*(char **)p == it->second, "tree:find", "found another element than the one stored for %s", s); };
  size_t nxt = 0; long ops = 0; string probe; while (nxt < keys.size()) { char *s = keys[nxt++]; double c0 = vf::counters_["monitor.comparisons"]; void *p = tsearch(s, &root, cmps); double used = vf::counters_["monitor.comparisons"] - c0; CHECK(p && *(char **)p == s, "tree:insert", "inserting %s returned %s", s, p ? *(char **)p : "(null)"); ref.insert(s); held[s] = s; CHECK(used <= 2 * log2(ref.size() + 1.0) + 1, "tree:balance", "%g comparisons to insert into %zu", used, ref.size());
    if (r.p(.2)) { char *dup = strdup(r.pick(keys)); if (held.count(dup)) { void *q = tsearch(dup, &root, cmps); CHECK(q && *(char **)q == held[dup], "tree:insert", "inserting a present key replaced it"); } else find(dup); free(dup); }
    if (order != 1 && r.p(.25) && !held.empty()) { auto it = next(held.begin(), r.in(0, min<int>(held.size(), 40) - 1)); string z = it->first; void *q = tdelete(z.c_str(), &root, cmps); CHECK(q != NULL, "tree:delete", "deleting a present key returned NULL"); ref.erase(z); held.erase(z); find((char *)z.c_str()); vf::count("ops.delete"); }
    if (r.p(.05)) { string no = "absent\x01key"; CHECK(tdelete(no.c_str(), &root, cmps) == NULL, "tree:delete", "deleting an absent key succeeded"); }
    if (++ops % step == 0) { verify(root, ref, "tree:order"); for (int t = 0; t < 5; t++) find(r.pick(keys)); } }
  verify(root, ref, "tree:order"); for (char *s : keys) find(s); vector<string> left(ref.begin(), ref.end()); int dm = r.in(0, 2); if (dm == 0) r.shuffle(left); else if (dm == 1) reverse(left.begin(), left.end());
  for (size_t i = 0; i < left.size(); i++) { void *q = tdelete(left[i].c_str(), &root, cmps); CHECK(q != NULL, "tree:delete", "deleting a present key returned NULL"); ref.erase(left[i]); held.erase(left[i]); if (i % step == 0) { verify(root, ref, "tree:delete-order"); for (int t = 0; t < 4; t++) find(r.pick(keys)); } } CHECK(root == NULL, "tree:empty", "the tree is not empty after deleting everything"); (void)l0; for (char *s : keys) free(s); vf::count("trees");
}
static void dict(long k, Rng &r) {
  G g = random_graph(r, 1, k % 17 == 0 ? 400 : 40); vf::input("dict " + g.text(), g.n > 2); NG *net = build(r, g); vf::stage("dict"); auto v = nodes(net); vf::count("oracle.checks"); vf::count("monitor.comparisons"); vector<int> o(g.n); long l0 = live_bytes(); void *d = MakeLabelDict(net); iota(o.begin(), o.end(), 0); r.shuffle(o); for (int t = 0; t < 5; t++) { string no = t ? g.lab[r.in(0, g.n - 1)] + "x" : string("\x7f"); if (find(g.lab.begin(), g.lab.end(), no) == g.lab.end() && no.size() < 99) { NG *p = GetNodeDict((char *)no.c_str(), d); CHECK(p == NULL, "dict:absent", "absent label %s gives node %s", no.c_str(), p ? p->label : ""); } } for (int i : o) { NG *p = GetNodeDict((char *)g.lab[i].c_str(), d); CHECK(p == v[i], "dict:find", "label %s gives node %s", g.lab[i].c_str(), p ? p->label : "(null)"); NG *q = GetNode(i, net); CHECK(q == v[i], "dict:getnode", "GetNode(%d) gives %s", i, q ? q->label : "(null)"); } FreeLabelDict(d); long kept = live_bytes() - l0; CHECK(kept <= 0, "dict:leak", "a dictionary of %d labels keeps %ld bytes", g.n, kept); vf::count("dicts"); RemoveGraph(net);
}
static void stackq(long k, Rng &r) {
  int n = r.in(1, k % 19 == 0 ? 2000 : 80); vf::input(vf::fmt("stack/queue %d %ld", n, k), n > 3); vf::stage("stack"); vector<int> pool(n + 1); long l0 = live_bytes(); struct stack *s = stack_create(); struct queue *q = queue_create(); vector<void *> S; vector<void *> Q; size_t qh = 0; bool grow = true; 
  for (int i = 0; i < n; i++) { pool[i] = i * 3 + 1; if (r.p(.05)) grow = !grow; int w = r.in(0, 19); if (w == 0) { stack_clear(s); S.clear(); } else if (w == 1) { queue_clear(q); Q.clear(); qh = 0; } else if (r.p(grow ? .7 : .3)) { stack_push(s, &pool[i]); S.push_back(&pool[i]); queue_enqueue(q, &pool[i]); Q.push_back(&pool[i]); } else { void *p = stack_pop(s), *e = NULL; if (!S.empty()) { e = S.back(); S.pop_back(); } CHECK(p == e, "stack:pop", "pop returned another element"); p = queue_dequeue(q); e = NULL; if (qh < Q.size()) e = Q[qh++]; CHECK(p == e, "queue:dequeue", "dequeue returned another element"); }
    CHECK(stack_top(s) == (S.empty() ? NULL : S.back()), "stack:top", "top is another element"); CHECK(queue_first(q) == (qh < Q.size() ? Q[qh] : NULL), "queue:first", "first is another element"); CHECK(stack_empty(s) == S.empty(), "stack:empty", "emptiness wrong"); CHECK(queue_empty(q) == (qh >= Q.size()), "queue:empty", "emptiness wrong"); CHECK(s->length == (int)S.size(), "stack:length", "length %d instead of %zu", s->length, S.size()); CHECK(q->length == (int)(Q.size() - qh), "queue:length", "length %d instead of %zu", q->length, Q.size() - qh); vf::count("ops.stack_queue"); }
  bool ok = true; for (int i = 0; i < n; i++) ok &= pool[i] == i * 3 + 1; CHECK(ok, "elements:touched", "an element was modified"); stack_free(s); queue_free(q); (void)l0;
}
static void leak(Rng &r) { vf::stage("leak"); vf::input("leak", false); long w[10]; vector<string> labs; for (int i = 0; i < 120; i++) labs.push_back("lab" + to_string(i)); static int pool[200]; for (int t = 0; t < 10; t++) { long l0 = live_bytes(); void *root = NULL; for (auto &s : labs) tsearch(s.c_str(), &root, cmps); for (auto &s : labs) tdelete(s.c_str(), &root, cmps); struct stack *s = stack_create(); struct queue *q = queue_create(); for (int i = 0; i < 200; i++) { stack_push(s, pool + i); queue_enqueue(q, pool + i); if (i % 3 == 0) { stack_pop(s); queue_dequeue(q); } } if (t % 2) { stack_clear(s); queue_clear(q); CHECK(stack_empty(s) && queue_empty(q), "clear", "not empty after clearing"); } stack_free(s); queue_free(q); w[t] = live_bytes() - l0; } for (int t = 5; t < 10; t++) CHECK(w[t] <= 0, "leak", "%ld bytes kept by a cycle", w[t]); vf::count("monitor.leak_windows"); }
void run_case(long k, Rng &r) { if (k % 100 == 7) leak(r); else if (k % 4 < 2) tree(k, r); else if (k % 4 == 2) dict(k, r); else stackq(k, r); }
