/* networks of tens of thousands of nodes: links kept as lists, references computed from the degrees in long double */
#ifndef HUGE_H
#define HUGE_H
#include "hg.h"
typedef struct { int n; long m, cap; int (*e)[2]; int *k; long *off; int *nb; struct node_gra *net, **nl; struct node_lis **last; } HUGE;
static inline void hu_init(HUGE *h, int n) { memset(h, 0, sizeof *h); h->n = n; }
static inline void hu_link(HUGE *h, int i, int j) { if (h->m == h->cap) { h->cap = h->cap ? 2 * h->cap : 1024; h->e = realloc(h->e, h->cap * sizeof *h->e); } h->e[h->m][0] = i; h->e[h->m][1] = j; h->m++; }
/* the library's network with these links, and sorted neighbour arrays */
static inline void hu_append(HUGE *h, int i, int j, double w) { struct node_lis *l = calloc(1, sizeof *l); l->node = j; l->nodeLabel = h->nl[j]->label; l->ref = h->nl[j]; l->weight = w; h->last[i]->next = l; h->last[i] = l; }
static inline int hu_cmp(const void *a, const void *b) { return *(const int *)a - *(const int *)b; }
static inline void hu_build(HUGE *h) { h->net = CreateHeaderGraph(); h->nl = calloc(h->n, sizeof *h->nl); h->last = calloc(h->n, sizeof *h->last); struct node_gra *p = h->net; for (int i = 0; i < h->n; i++) { char t[20]; sprintf(t, "%d", i); p = h->nl[i] = CreateNodeGraph(p, t); h->last[i] = p->neig; }
  h->k = calloc(h->n, sizeof(int)); h->off = calloc(h->n + 1, sizeof(long)); h->nb = calloc(2 * h->m + 1, sizeof(int)); for (long x = 0; x < h->m; x++) { h->k[h->e[x][0]]++; h->k[h->e[x][1]]++; hu_append(h, h->e[x][0], h->e[x][1], 1); hu_append(h, h->e[x][1], h->e[x][0], 1); }
  for (int i = 0; i < h->n; i++) h->off[i + 1] = h->off[i] + h->k[i]; long *at = calloc(h->n, sizeof(long)); for (long x = 0; x < h->m; x++) for (int s = 0; s < 2; s++) { int i = h->e[x][s]; h->nb[h->off[i] + at[i]++] = h->e[x][!s]; } for (int i = 0; i < h->n; i++) qsort(h->nb + h->off[i], h->k[i], sizeof(int), hu_cmp); free(at); }
static inline int hu_has(const HUGE *h, int i, int j) { long a = h->off[i], b = h->off[i + 1]; while (a < b) { long c = (a + b) / 2; if (h->nb[c] == j) return 1; if (h->nb[c] < j) a = c + 1; else b = c; } return 0; }
static inline void hu_free(HUGE *h) { for (int i = 0; i < h->n; i++) { struct node_lis *l = h->nl[i]->neig->next; while (l) { struct node_lis *x = l->next; free(l); l = x; } h->nl[i]->neig->next = NULL; } RemoveGraph(h->net); free(h->e); free(h->k); free(h->off); free(h->nb); free(h->nl); free(h->last); }
/* families: f 0 star; 1 two stars joined at their centres; 2 two centres sharing all leaves; 3 star whose first a leaves are all linked; 4 star with a ring of leaves; 5 complete; 6 complete bipartite k by a; 7 star of a stars; 8 centre, k neighbours, every two of them share an outer node */
static const char *hu_name[] = {"star", "double star", "two centres", "star with clique", "wheel", "complete", "complete bipartite", "star of stars", "pairs"};
static inline void hu_fam(HUGE *h, int f, int k, int a) {
  switch (f) {
  case 0: hu_init(h, k + 1); for (int i = 1; i <= k; i++) hu_link(h, 0, i); break;
  case 1: hu_init(h, k + a + 2); hu_link(h, 0, 1); for (int i = 0; i < k + a; i++) hu_link(h, i >= k, i + 2); break;
  case 2: hu_init(h, k + 2 + a); for (int i = 0; i < k; i++) { hu_link(h, 0, i + 2); hu_link(h, i + 2, 1); } for (int i = 0; i < a; i++) hu_link(h, i % 2 ? 0 : 2, k + 2 + i); break;
  case 3: hu_init(h, k + 1); for (int i = 1; i <= k; i++) hu_link(h, 0, i); for (int i = 1; i <= a; i++) for (int j = i + 1; j <= a; j++) hu_link(h, j, i); break;
  case 4: hu_init(h, k + 1); for (int i = 1; i <= k; i++) { hu_link(h, 0, i); hu_link(h, i, i % k + 1); } break;
  case 5: hu_init(h, k); for (int i = 0; i < k; i++) for (int j = i + 1; j < k; j++) hu_link(h, i, j); break;
  case 6: hu_init(h, k + a); for (int i = 0; i < k; i++) for (int j = 0; j < a; j++) hu_link(h, i, k + j); break;
  case 7: hu_init(h, 1 + a + a * k); for (int i = 0; i < a; i++) { hu_link(h, 0, 1 + i); for (int j = 0; j < k; j++) hu_link(h, 1 + i, 1 + a + i * k + j); } break;
  case 8: hu_init(h, 1 + k + k / 2); for (int i = 0; i < k; i++) { hu_link(h, 0, 1 + i); if (i / 2 < k / 2) hu_link(h, 1 + k + i / 2, 1 + i); } break;
  }
  hu_build(h); }
#endif
