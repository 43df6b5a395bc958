/* C06: clustering and neighbourhood similarity on every small undirected graph. */
#ifndef HMAX
#define HMAX 40
#endif
#include "hg.h"
static void cmp(const char *sig, double got, double want, int u, int v) { mc_trans(1); if (!mc_close(got, want)) mc_fail(sig, "%s(%d,%d) is %.10g, should be %.10g", sig, u, v, got, want); }
static void visit(const RG *r, struct node_gra *net, struct node_gra **nl) {
  int n = r->n, k[HMAX], t[HMAX]; double C = 0, S = 0; int nc = 0, ns = 0; long tt = 0, kk = 0;
  double sq[HMAX]; int sqk[HMAX];
  for (int i = 0; i < n; i++) k[i] = rg_deg(r, i);
  for (int i = 0; i < n; i++) { t[i] = 0; for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) if (a != b && r->has[i][a] && r->has[i][b] && r->has[a][b]) t[i]++;
    if (k[i] > 1) { C += (double)t[i] / (k[i] * (k[i] - 1)); nc++; tt += t[i]; kk += k[i] * (k[i] - 1); }
    int k2 = 0, s = 0; for (int u = 0; u < n; u++) if (u != i && !r->has[i][u]) { int c = 0; for (int a = 0; a < n; a++) c += r->has[i][a] && r->has[a][u]; if (c) { k2++; s += c * (c - 1); } }
    sqk[i] = k2; if (k2 && k[i] > 1) { sq[i] = (double)s / (k2 * k[i] * (k[i] - 1)); S += sq[i]; ns++; } else sq[i] = -9; }
  for (int rep = 0; rep < 2; rep++) { /* repeated: results must not depend on left-over node states */
    if (nc) cmp("ClusteringCoefficient", ClusteringCoefficient(net), C / nc, 0, 0); else ClusteringCoefficient(net);
    if (kk) cmp("ClusteringCoefficient2", ClusteringCoefficient2(net), (double)tt / kk, 0, 0); else ClusteringCoefficient2(net);
    if (ns) cmp("SquareClustering", SquareClustering(net), S / ns, 0, 0); else SquareClustering(net);
    for (int i = 0; i < n; i++) { cmp("OneNodeClusteringCoefficient", OneNodeClusteringCoefficient(nl[i], net), k[i] > 1 ? (double)t[i] / (k[i] * (k[i] - 1)) : -1, i, i);
      double q = OneNodeSquareClustering(nl[i], net); if (sqk[i] && k[i] > 1) cmp("OneNodeSquareClustering", q, sq[i], i, i); else if (q >= 0) mc_fail("OneNodeSquareClustering", "value %g for node %d, for which it is not defined", q, i); }
  }
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { if (i == j) continue; int c = 0; for (int a = 0; a < n; a++) c += r->has[i][a] && r->has[j][a];
    int A = r->has[i][j]; cmp("CommonNeighbors", CommonNeighbors(nl[i], nl[j]), c, i, j);
    cmp("JaccardIndex", JaccardIndex(nl[i], nl[j]), c ? (double)c / (k[i] + k[j] - 2 * A - c) : 0, i, j);
    if (k[i] && k[j]) cmp("TopologicalOverlap", TopologicalOverlap(nl[i], nl[j]), (double)(c + A) / (k[i] < k[j] ? k[i] : k[j]), i, j); }
  double o[3] = {C, S, (double)tt}; mc_outcome(mc_hash(o, sizeof o));
}
#include "en.h"
#ifdef EN_LARGE
void large_register(void) { en_register_large(); }
#else
void large_register(void); void huge_register(void);
int main(int c, char **v) { huge_register(); large_register(); int t = en_thorough(); en_register(t ? 7 : 6, 0, t ? 8 : 7, 11); return mc_main(c, v); }
#endif
