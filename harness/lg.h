/* larger structured test networks (families), plain adjacency matrix */
#ifndef LG_H
#define LG_H
#include "mc.h"
#include "graph.h"
#define LMAX 400
typedef struct { int n; unsigned char a[LMAX][LMAX]; } LG;
static inline void lg_e(LG *g, int i, int j) { g->a[i][j] = g->a[j][i] = 1; }
#define LG_NFAM 9
static const char *lg_name[LG_NFAM] = {"path","ring","star","ladder","binary-tree","complete-bipartite","barbell","grid","clique"};
/* family f with size parameter n (number of nodes) */
static inline void lg_family(LG *g, int f, int n) {
  memset(g, 0, sizeof *g); g->n = n; int i, j;
  switch (f) {
  case 0: for (i = 0; i + 1 < n; i++) lg_e(g, i, i + 1); break;
  case 1: for (i = 0; i < n; i++) if (n > 1) lg_e(g, i, (i + 1) % n); break;
  case 2: for (i = 1; i < n; i++) lg_e(g, 0, i); break;
  case 3: for (i = 0; i < n; i++) { if (i + 2 < n) lg_e(g, i, i + 2); if (!(i & 1) && i + 1 < n) lg_e(g, i, i + 1); } break;
  case 4: for (i = 1; i < n; i++) lg_e(g, i, (i - 1) / 2); break;
  case 5: for (i = 0; i < n / 2; i++) for (j = n / 2; j < n; j++) lg_e(g, i, j); break;
  case 6: { int k = n / 3; for (i = 0; i < k; i++) for (j = 0; j < i; j++) { lg_e(g, i, j); lg_e(g, n - 1 - i, n - 1 - j); } for (i = k ? k - 1 : 0; i + 1 <= n - (k ? k : 1); i++) lg_e(g, i, i + 1); break; }
  case 7: { int w = (int)sqrt(n); if (w < 1) w = 1; for (i = 0; i < n; i++) { if (i + w < n) lg_e(g, i, i + w); if ((i + 1) % w && i + 1 < n) lg_e(g, i, i + 1); } break; }
  case 8: for (i = 0; i < n; i++) for (j = 0; j < i; j++) lg_e(g, i, j); break;
  }
  for (i = 0; i < n; i++) g->a[i][i] = 0;
}
static inline struct node_gra *lg_build(const LG *g, struct node_gra **nl) {
  static struct node_gra *tmp[LMAX]; if (!nl) nl = tmp; char b[16];
  struct node_gra *net = CreateHeaderGraph();
  struct node_gra *last = net; (void)last;
  for (int i = 0; i < g->n; i++) { sprintf(b, "n%d", i); nl[i] = CreateNodeGraph(net, b); }
  for (int i = 0; i < g->n; i++) for (int j = 0; j < g->n; j++) if (g->a[i][j]) AddAdjacency(nl[i], nl[j], 0, 0, 1, 0);
  return net;
}
/* all-pairs distances (-1 unreachable) */
static inline void lg_dist(const LG *g, int s, int *d) {
  int q[LMAX], h = 0, t = 0; for (int i = 0; i < g->n; i++) d[i] = -1;
  d[s] = 0; q[t++] = s; while (h < t) { int u = q[h++]; for (int v = 0; v < g->n; v++) if (g->a[u][v] && d[v] < 0) { d[v] = d[u] + 1; q[t++] = v; } }
}
#endif
