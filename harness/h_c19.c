/* C19: mutual information and classification of all pairs of partitions of small node sets against their definitions. */
#include "hg.h"
#include "modules.h"
static int th;
static struct group *mk(struct node_gra **nl, int n, const int *a, int var) { int K = 0; for (int i = 0; i < n; i++) { if (a[i] >= K) K = a[i] + 1; nl[i]->inGroup = -1; } struct group *p = CreateHeaderGroup(), *g[HMAX]; 
  for (int k = 0; k < K; k++) { int kk = var & 1 ? K - 1 - k : k; g[kk] = CreateGroup(p, var & 1 ? n - 1 - kk : kk); } if (var & 2) for (int k = K; k < n; k++) CreateGroup(p, var & 1 ? n - 1 - k : k); 
  for (int x = 0; x < n; x++) { int i = var & 1 ? n - 1 - x : x; if (var & 4) AddNodeToGroupSoft(g[a[i]], nl[i]->label); else AddNodeToGroup(g[a[i]], nl[i]); } return p; }
static double ent(const int *c, int K, int n) { double h = 0; for (int k = 0; k < K; k++) if (c[k]) h -= (double)c[k] / n * log((double)c[k] / n); return h; }
/* the set of values CorrectlyClassified may return: ties are open */
static void cc(const int *r, const int *a, int n, double *lo, double *hi) { int ov[HMAX][HMAX] = {{0}}, sz = n; for (int i = 0; i < n; i++) ov[a[i]][r[i]]++; /* every actual group picks a reference group of largest overlap; each reference group keeps the largest overlap of those that picked it */
  int opt[HMAX][HMAX], no[HMAX], K = 0; for (int k = 0; k < sz; k++) { int m = 0; for (int q = 0; q < sz; q++) if (ov[k][q] > m) m = ov[k][q]; no[k] = 0; if (!m) continue; K = k + 1; for (int q = 0; q < sz; q++) if (ov[k][q] == m) opt[k][no[k]++] = q; }
  int ch[HMAX] = {0}; *lo = 1e9; *hi = -1; for (;;) { int best[HMAX] = {0}, s = 0; for (int k = 0; k < K; k++) if (no[k]) { int q = opt[k][ch[k]]; if (ov[k][q] > best[q]) best[q] = ov[k][q]; } for (int q = 0; q < sz; q++) s += best[q]; if ((double)s / n < *lo) *lo = (double)s / n; if ((double)s / n > *hi) *hi = (double)s / n; int k = 0; while (k < K && (!no[k] || ++ch[k] >= no[k])) ch[k++] = 0; if (k >= K) break; } }
static void pairs(long arg) { int n = arg & 15, c = arg >> 4 & 15, C = arg >> 8; RG r; rg_mask(&r, n, 0x5a5a5a5a5ul & ((1ul << (n * (n - 1) / 2)) - 1)); for (int i = 0; i < n; i++) sprintf(r.lab[i], "n%d", (i * 7 + 3) % 11); struct node_gra *nl[HMAX], *net = rg_build(&r, nl); int A[1000][8], N = 0; { int a[HMAX] = {0}; do { memcpy(A[N++], a, n * sizeof(int)); } while (mc_next_rgs(a, n)); }
  int nv = n < 6 ? 4 : 2; double *mi = NULL; (void)mi;
  for (int x = c; x < N; x += C) { mc_states(1); for (int y = 0; y < N; y++) { if (mc_timeup()) { mc_capped("time"); return; } mc_case("partitions"); for (int i = 0; i < n; i++) mc_step("%s%d", i ? "" : " ", A[x][i]); mc_step(" and "); for (int i = 0; i < n; i++) mc_step("%d", A[y][i]);
      int c1[8] = {0}, c2[8] = {0}, c12[64] = {0}; for (int i = 0; i < n; i++) { c1[A[x][i]]++; c2[A[y][i]]++; c12[A[x][i] * 8 + A[y][i]]++; } double h1 = ent(c1, 8, n), h2 = ent(c2, 8, n), h = ent(c12, 64, n), want = 2 * (h1 + h2 - h) / (h1 + h2), lo, hi; cc(A[x], A[y], n, &lo, &hi); int triv = !c1[1] && !c2[1];
      for (int v = 0; v < nv; v++) { struct group *p = mk(nl, n, A[x], v & 1), *q = mk(nl, n, A[y], v >> 1 | (v & 2)); for (int sw = 0; sw < 2; sw++) { double m = MutualInformation(p, q, sw), m2 = MutualInformation(q, p, sw); mc_trans(2); if (!triv && (!mc_closet(m, want, 1e-9) || !mc_closet(m2, want, 1e-9))) mc_fail("mutual-information", "mutual information is %.9g and %.9g (exchanged) instead of %.9g (by label: %d)", m, m2, want, sw); if (triv && !isnan(m) && fabs(m) > 1e-9 && fabs(m - 1) > 1e-9) mc_fail("mutual-information", "%.9g for one-group partitions", m); }
        double k = CorrectlyClassified(p, q); mc_trans(1); if (!(k >= lo - 1e-9 && k <= hi + 1e-9)) mc_fail("classified", "%.9g of the nodes correctly classified instead of %.9g to %.9g", k, lo, hi); if (x == y && !mc_close(k, 1)) mc_fail("classified", "%.9g for identical partitions", k); mc_outcome(mc_hash(&k, 8) * 31 + mc_hash(&want, 8));
        RemovePartition(p); RemovePartition(q); }
      /* partitions that only carry labels */
      { struct group *p = mk(nl, n, A[x], 4), *q = mk(nl, n, A[y], 7); double m = MutualInformation(p, q, 1); mc_trans(1); if (!triv && !mc_closet(m, want, 1e-9)) mc_fail("mutual-information", "by label %.9g instead of %.9g", m, want); RemovePartition(p); RemovePartition(q); } mc_traces(1); } } RemoveGraph(net); }
/* larger: blocks against blocks, where independence and refinement are known */
static void large(long arg) { int n = arg; struct node_gra *net = CreateHeaderGraph(), *nl[80]; for (int i = 0; i < n; i++) { char t[20]; sprintf(t, "%d", i); nl[i] = CreateNodeGraph(net, t); } for (int k1 = 1; k1 <= n; k1++) for (int k2 = 1; k2 <= n; k2++) for (int v = 0; v < 2; v++) { mc_case("%d nodes, i mod %d against %s %d", n, k1, v ? "blocks" : "i mod", k2); int *c12 = calloc(80 * 80, sizeof(int)), c1[80] = {0}, c2[80] = {0}; struct group *p = CreateHeaderGroup(), *q = CreateHeaderGroup(), *g1[80], *g2[80]; for (int k = 0; k < k1; k++) g1[k] = CreateGroup(p, k); for (int k = 0; k < k2; k++) g2[k] = CreateGroup(q, k); for (int i = 0; i < n; i++) { int x = i % k1, y = v ? i * k2 / n : i % k2; c1[x]++; c2[y]++; c12[x * 80 + y]++; nl[i]->inGroup = -1; AddNodeToGroup(g1[x], nl[i]); nl[i]->inGroup = -1; AddNodeToGroup(g2[y], nl[i]); } double h1 = ent(c1, 80, n), h2 = ent(c2, 80, n), h = ent(c12, 6400, n), want = 2 * (h1 + h2 - h) / (h1 + h2), m = MutualInformation(p, q, 0), k = CorrectlyClassified(p, q); mc_trans(2); mc_states(1); mc_traces(1); if (k1 + k2 > 2 && !mc_closet(m, want, 1e-9)) mc_fail("mutual-information", "%.9g instead of %.9g", m, want); if (!(k > 0 && k <= 1 + 1e-12)) mc_fail("classified", "%g", k); if (k1 == k2 && !v && !mc_close(k, 1)) mc_fail("classified", "%g for identical partitions", k); RemovePartition(p); RemovePartition(q); free(c12); } RemoveGraph(net); }
void huge_register(void);
int main(int c, char **v) { huge_register(); char nm[40]; const char *e = getenv("VERIF_TIER"); th = e && !strcmp(e, "thorough"); for (int n = 1; n < 5; n++) { sprintf(nm, "pairs-%d", n); mc_section(nm, pairs, n | 1 << 8); } for (int n = 5; n <= (th ? 7 : 6); n++) for (int k = 0; k < 8; k++) { sprintf(nm, "pairs-%d-%d", n, k); mc_section(nm, pairs, n | k << 4 | 8 << 8); } for (int n = 8; n <= (th ? 30 : 16); n += 1) { sprintf(nm, "large-%d", n); mc_section(nm, large, n); } return mc_main(c, v); }
