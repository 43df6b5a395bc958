/* C19 on up to 70000 nodes: products of group sizes exceed 2^31 */
#include "huge.h"
#include "modules.h"
/* partition of n nodes from groups a[], built by appending at the end of the lists */
static struct group *mk(HUGE *h, const int *a, int K) { struct group *p = CreateHeaderGroup(), *g = p, **G = calloc(K, sizeof *G); struct node_lis **t = calloc(K, sizeof *t); for (int k = 0; k < K; k++) { G[k] = g = CreateGroup(g, k); t[k] = g->nodeList; } for (int i = 0; i < h->n; i++) { int k = a[i]; struct node_lis *l = t[k]->next = calloc(1, sizeof *l); l->node = i; l->nodeLabel = strdup(h->nl[i]->label); l->ref = h->nl[i]; t[k] = l; G[k]->size++; h->nl[i]->inGroup = k; } free(G); free(t); return p; }
static long double ent(const long *c, long K, long n) { long double s = 0; for (long k = 0; k < K; k++) if (c[k]) s -= (long double)c[k] / n * logl((long double)c[k] / n); return s; }
static void fill(int *a, int n, int kind, int *K) { for (int i = 0; i < n; i++) a[i] = kind == 0 ? i >= n - n / 20 : kind == 1 ? i >= n - n / 20 - 7 : kind == 2 ? i * 3L / n : kind == 3 ? i % 2 : i < n / 2 ? 0 : i % 3; *K = 1; for (int i = 0; i < n; i++) if (a[i] >= *K) *K = a[i] + 1; }
static void pair(long arg) { mc_hang(150); int n = arg >> 8, x = arg & 15, y = arg >> 4 & 15, K1, K2; HUGE h; hu_init(&h, n); hu_build(&h); int *a = malloc(n * sizeof *a), *b = malloc(n * sizeof *b); fill(a, n, x, &K1); fill(b, n, y, &K2); mc_case("%d nodes, partitions of kinds %d and %d", n, x, y); mc_states(1); long *c1 = calloc(K1, sizeof *c1), *c2 = calloc(K2, sizeof *c2), *c12 = calloc((long)K1 * K2, sizeof *c12); for (int i = 0; i < n; i++) { c1[a[i]]++; c2[b[i]]++; c12[a[i] * K2 + b[i]]++; }
  long double h1 = ent(c1, K1, n), h2 = ent(c2, K2, n), w = 2 * (h1 + h2 - ent(c12, (long)K1 * K2, n)) / (h1 + h2); struct group *p = mk(&h, a, K1), *q = mk(&h, b, K2); mc_tick(); double m = MutualInformation(p, q, 0); mc_trans(1); if (!mc_closet(m, (double)w, 1e-8)) mc_fail("mutual-information", "%.12g instead of %.12Lg", m, w); mc_outcome(mc_hash(&m, 8));
  mc_tick(); double cc = CorrectlyClassified(p, q); mc_trans(1); /* each group of q picks the reference group of largest overlap */ long *best = calloc(K1, sizeof *best), s = 0; int tie = 0; for (int k = 0; k < K2; k++) { int z = 0; for (int j = 1; j < K1; j++) if (c12[j * K2 + k] > c12[z * K2 + k]) z = j; for (int j = 0; j < K1; j++) if (j != z && c12[j * K2 + k] == c12[z * K2 + k]) tie = 1; if (c12[z * K2 + k] > best[z]) best[z] = c12[z * K2 + k]; } for (int j = 0; j < K1; j++) s += best[j]; if (!tie && !mc_close(cc, (double)s / n)) mc_fail("classified", "%.12g instead of %.12g", cc, (double)s / n);
  RemovePartition(p); RemovePartition(q); hu_free(&h); free(a); free(b); free(c1); free(c2); free(c12); free(best); mc_traces(1); }
void huge_register(void) { static const int P[][2] = {{0, 0}, {1, 0}, {2, 3}, {4, 2}}; static const int N[] = {3000, 49000}; char nm[50]; for (int i = 1; i >= 0; i--) for (int k = 0; k < 4; k++) { sprintf(nm, "huge-%d-%d", N[i], k); mc_section(strdup(nm), pair, (long)N[i] << 8 | P[k][0] | P[k][1] << 4); } }
