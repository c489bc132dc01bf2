/* Stand-ins for the samplers (linked with --wrap): scores that follow from the labels, at once, so that what the programs
   do with the scores of large networks can be observed. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <search.h>
#include <gsl/gsl_rng.h>
#include "tools.h"
#include "graph.h"
#include "bipartite.h"
#include "recommend.h"
static double score(const char *a, const char *b, int k, int sorted) {
  unsigned h = 2166136261u; const char *x = a, *y = b; if (sorted && strcmp(a, b) > 0) x = b, y = a;
  for (; *x; x++) h = (h ^ (unsigned char)*x) * 16777619u;
  h = (h ^ 1) * 16777619u; for (; *y; y++) h = (h ^ (unsigned char)*y) * 16777619u;
  h = (h ^ (unsigned)(k + 2)) * 16777619u; return (h % 9973 + 1) / 10000.; }
static double **all(struct node_gra *net) {
  int n = CountNodes(net), i, j; double **m = allocate_d_mat(n, n); struct node_gra *p, *q;
  for (i = 0; i < n; i++) for (j = 0; j < n; j++) m[i][j] = 0;
  for (p = net->next; p; p = p->next) for (q = net->next; q; q = q->next) m[p->num][q->num] = p == q ? 0 : score(p->label, q->label, 0, 1);
  return m; }
#define ONE(f) double **__wrap_##f(struct node_gra *net) { return all(net); }
ONE(LinkScore) ONE(GibbsLinkScore) ONE(SparseGibbsLinkScore) ONE(LinkScoreMB) ONE(ORLinkScoreMB) ONE(GibbsLinkScoreMB) ONE(ORGibbsLinkScoreMB) ONE(LinkScoreMB_OD) ONE(GibbsLinkScoreMB_OD)
static double **byquery(int K, struct query **q, int n, int sorted) {
  double **s = allocate_d_mat(K, n + 1); int i, k; for (k = 0; k < K; k++) for (i = 0; i < n; i++) s[k][i] = score(q[i]->n1->label, q[i]->n2->label, k, sorted); return s; }
double **__wrap_LSMultiLinkScoreKState(int K, struct node_gra *net, int it, gsl_rng *g, char v, int d, struct query ***qs, int *nq) {
  int n = CountNodes(net), c = 0; struct query **q = calloc((size_t)n * n + 1, sizeof *q); struct node_gra *a, *b;
  for (a = net->next; a; a = a->next) for (b = a->next; b; b = b->next) q[c++] = CreateQuery(a, b);
  *qs = q; *nq = c; return byquery(K, q, c, 1); }
double **__wrap_MultiLinkScoreKState(int K, struct binet *r, struct query **q, int n) { return byquery(K, q, n, 0); }
double **__wrap_GibbsMultiLinkScoreKState(int K, struct binet *r, struct query **q, int n) { return byquery(K, q, n, 0); }
double *__wrap_MultiLinkScore2State(struct binet *r, struct query **q, int n) { double *s = allocate_d_vec(n + 1); int i; for (i = 0; i < n; i++) s[i] = score(q[i]->n1->label, q[i]->n2->label, 0, 0); return s; }
struct query **__wrap_AllLinkScore2State(struct binet *r) {
  int n = CountNodes(r->net1) * CountNodes(r->net2), c = 0; struct query **q = calloc(n + 1, sizeof *q); struct node_gra *a, *b;
  for (a = r->net1->next; a; a = a->next) for (b = r->net2->next; b; b = b->next) { q[c] = CreateQuery(a, b); q[c]->score = score(a->label, b->label, 0, 0); c++; }
  return q; }
