/* reference bipartite network */
#ifndef HB_H
#define HB_H
#include "mc.h"
#include "graph.h"
#include "modules.h"
#include "bipartite.h"
#ifndef BM
#define BM 16
#endif
typedef struct { int n1, n2; int has[BM][BM]; double w[BM][BM]; char l1[BM][12], l2[BM][12]; } BG;
static inline void bg_init(BG *b, int n1, int n2) { memset(b, 0, sizeof *b); b->n1 = n1; b->n2 = n2; for (int i = 0; i < n1; i++) sprintf(b->l1[i], "A%d", i + 1); for (int i = 0; i < n2; i++) sprintf(b->l2[i], "B%d", i + 1); }
static inline void bg_mask(BG *b, int n1, int n2, unsigned long m) { bg_init(b, n1, n2); for (int i = 0; i < n1; i++) for (int j = 0; j < n2; j++) if (m >> (i * n2 + j) & 1) { b->has[i][j] = 1; b->w[i][j] = 1; } }
static inline int bg_links(const BG *b) { int c = 0; for (int i = 0; i < b->n1; i++) for (int j = 0; j < b->n2; j++) c += b->has[i][j]; return c; }
static inline const char *bg_text(const BG *b) { static char t[3][1500]; static int r; char *s = t[r++ % 3]; int l = snprintf(s, 1500, "%d+%d nodes:", b->n1, b->n2); for (int i = 0; i < b->n1; i++) for (int j = 0; j < b->n2; j++) if (b->has[i][j] && l < 1450) { l += snprintf(s + l, 1500 - l, " %s-%s", b->l1[i], b->l2[j]); if (b->w[i][j] != 1) l += snprintf(s + l, 1500 - l, "(%g)", b->w[i][j]); } return s; }
static inline struct binet *bg_build(const BG *b, struct node_gra **x, struct node_gra **y) { static struct node_gra *tx[BM], *ty[BM]; if (!x) x = tx; if (!y) y = ty; struct binet *B = CreateBipart(); B->net1 = CreateHeaderGraph(); B->net2 = CreateHeaderGraph();
  for (int i = 0; i < b->n1; i++) x[i] = CreateNodeGraph(B->net1, (char *)b->l1[i]); for (int i = 0; i < b->n2; i++) y[i] = CreateNodeGraph(B->net2, (char *)b->l2[i]);
  for (int i = 0; i < b->n1; i++) for (int j = 0; j < b->n2; j++) if (b->has[i][j]) { AddAdjacency(x[i], y[j], 0, 0, b->w[i][j], 0); AddAdjacency(y[j], x[i], 0, 0, b->w[i][j], 0); } return B; }
/* read and validate both sides */
static inline const char *bg_read(struct binet *B, BG *b) { static char m[300]; memset(b, 0, sizeof *b); struct node_gra *x[BM], *y[BM], *p;
  if (!B || !B->net1 || !B->net2) return "no network"; p = B->net1; while ((p = p->next)) { if (b->n1 == BM) return "too many nodes"; if (p->num != b->n1) { snprintf(m, 300, "node %d of set 1 has number %d", b->n1, p->num); return m; } snprintf(b->l1[b->n1], 12, "%s", p->label); x[b->n1++] = p; }
  p = B->net2; while ((p = p->next)) { if (b->n2 == BM) return "too many nodes"; if (p->num != b->n2) { snprintf(m, 300, "node %d of set 2 has number %d", b->n2, p->num); return m; } snprintf(b->l2[b->n2], 12, "%s", p->label); y[b->n2++] = p; }
  static int seen[BM][BM]; for (int i = 0; i < b->n1; i++) memset(seen[i], 0, sizeof seen[i]);
  for (int i = 0; i < b->n1; i++) { struct node_lis *l = x[i]->neig; unsigned c = 0; double st = 0; while ((l = l->next)) { if (++c > 999) return "list too long"; int j; for (j = 0; j < b->n2; j++) if (y[j] == l->ref) break; if (j == b->n2) { snprintf(m, 300, "link of %s does not lead to set 2", b->l1[i]); return m; } if (l->node != j) { snprintf(m, 300, "link %s-%s carries number %d", b->l1[i], b->l2[j], l->node); return m; } if (strcmp(l->nodeLabel, y[j]->label)) return "link label"; if (b->has[i][j]) { snprintf(m, 300, "repeated link %s-%s", b->l1[i], b->l2[j]); return m; } b->has[i][j] = 1; b->w[i][j] = l->weight; st += l->weight; } if (NodeDegree(x[i]) != c) { snprintf(m, 300, "degree of %s reported as %d, has %d links", b->l1[i], NodeDegree(x[i]), c); return m; } if (!mc_close(NodeStrength(x[i]), st)) { snprintf(m, 300, "strength of %s", b->l1[i]); return m; } }
  for (int j = 0; j < b->n2; j++) { struct node_lis *l = y[j]->neig; unsigned c = 0; double st = 0; while ((l = l->next)) { if (++c > 999) return "list too long"; int i; for (i = 0; i < b->n1; i++) if (x[i] == l->ref) break; if (i == b->n1) { snprintf(m, 300, "link of %s does not lead to set 1", b->l2[j]); return m; } if (l->node != i) { snprintf(m, 300, "link %s-%s carries number %d", b->l2[j], b->l1[i], l->node); return m; } if (seen[i][j]) { snprintf(m, 300, "repeated link %s-%s", b->l2[j], b->l1[i]); return m; } seen[i][j] = 1; if (!b->has[i][j]) { snprintf(m, 300, "link %s-%s only seen from set 2", b->l1[i], b->l2[j]); return m; } if (!mc_close(b->w[i][j], l->weight)) { snprintf(m, 300, "link %s-%s has weights %g and %g", b->l1[i], b->l2[j], b->w[i][j], l->weight); return m; } st += l->weight; } if (NodeDegree(y[j]) != c) { snprintf(m, 300, "degree of %s reported as %d, has %d links", b->l2[j], NodeDegree(y[j]), c); return m; } if (!mc_close(NodeStrength(y[j]), st)) { snprintf(m, 300, "strength of %s", b->l2[j]); return m; } }
  for (int i = 0; i < b->n1; i++) for (int j = 0; j < b->n2; j++) if (b->has[i][j] && !seen[i][j]) { snprintf(m, 300, "link %s-%s only seen from set 1", b->l1[i], b->l2[j]); return m; }
  return NULL; }
static inline int bg_i1(const BG *b, const char *l) { for (int i = 0; i < b->n1; i++) if (!strcmp(b->l1[i], l)) return i; return -1; }
static inline int bg_i2(const BG *b, const char *l) { for (int i = 0; i < b->n2; i++) if (!strcmp(b->l2[i], l)) return i; return -1; }
static inline const char *bg_diff(const BG *a, const BG *b, int order) { static char m[300]; if (a->n1 != b->n1 || a->n2 != b->n2) { snprintf(m, 300, "%d+%d nodes instead of %d+%d", a->n1, a->n2, b->n1, b->n2); return m; }
  int p[BM], q[BM]; for (int i = 0; i < a->n1; i++) { p[i] = bg_i1(b, a->l1[i]); if (p[i] < 0 || (order && p[i] != i)) { snprintf(m, 300, "node %s unexpected or out of place in set 1", a->l1[i]); return m; } } for (int i = 0; i < a->n2; i++) { q[i] = bg_i2(b, a->l2[i]); if (q[i] < 0 || (order && q[i] != i)) { snprintf(m, 300, "node %s unexpected or out of place in set 2", a->l2[i]); return m; } }
  for (int i = 0; i < a->n1; i++) for (int j = 0; j < a->n2; j++) { int x = a->has[i][j], y = b->has[p[i]][q[j]]; if (x != y) { snprintf(m, 300, "link %s-%s %s", a->l1[i], a->l2[j], x ? "present but should not be" : "missing"); return m; } if (x && !mc_closet(a->w[i][j], b->w[p[i]][q[j]], 1e-5)) { snprintf(m, 300, "link %s-%s has weight %g instead of %g", a->l1[i], a->l2[j], a->w[i][j], b->w[p[i]][q[j]]); return m; } } return NULL; }
#endif
