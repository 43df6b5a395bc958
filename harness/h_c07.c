/* C07: degree averages and correlations on every small graph and digraph. */
#ifndef HMAX
#define HMAX 40
#endif
#include "hg.h"
static void cmp(const char *sig, double got, double want, int u) { mc_trans(1); if (!mc_close(got, want)) mc_fail(sig, "%s(%d) is %.10g, should be %.10g", sig, u, got, want); }
static void visit(const RG *r, struct node_gra *net, struct node_gra **nl) {
  int n = r->n, k[HMAX], sym = 1, loop = 0; for (int i = 0; i < n; i++) loop |= r->has[i][i]; double sk = 0, s2 = 0;
  for (int i = 0; i < n; i++) { k[i] = rg_deg(r, i); sk += k[i]; s2 += k[i] * k[i]; for (int j = 0; j < n; j++) if (r->has[i][j] != r->has[j][i]) sym = 0; }
  for (int rep = 0; rep < 2; rep++) {
    cmp("AverageDegree-directed", AverageDegree(net, 0), sk / n, 0);
    if (sym && !loop) cmp("AverageDegree-symmetric", AverageDegree(net, 1), sk / n, 0);
    cmp("AverageSquaredDegree", AverageSquaredDegree(net), s2 / n, 0);
    for (int i = 0; i < n; i++) if (k[i]) { double t = 0; for (int j = 0; j < n; j++) if (r->has[i][j]) t += k[j]; cmp("CalculateKnn", CalculateKnn(nl[i]), t / k[i], i); }
    { /* Pearson correlation over both orientations of every link */
      double M = 0, mx = 0, q = 0, x = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (r->has[i][j]) { M += 2; mx += k[i] + k[j]; }
      if (M) { mx /= M; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (r->has[i][j]) { x += 2 * (k[i] - mx) * (k[j] - mx); q += (k[i] - mx) * (k[i] - mx) + (k[j] - mx) * (k[j] - mx); }
        double a = Assortativity(net); mc_trans(1); if (q > 1e-9 && !mc_close(a, x / q)) mc_fail("Assortativity", "assortativity %.10g, should be %.10g", a, x / q); if (q > 1e-9) { uint64_t h = mc_hash(&a, sizeof a); mc_outcome(h); } } } }
}
#include "en.h"
#ifdef EN_LARGE
void large_register(void) { en_register_large(); }
#else
/* networks with self-links: undirected links and loops by mask, and all digraphs with loops */
static void loops(long a) { int n = a & 7, dir = a >> 3 & 1; RG r; unsigned long P = n * (n - 1) / (dir ? 1 : 2); for (unsigned long m = 0; m < 1ul << P; m++) for (int l = 1; l < 1 << n; l++) { if (dir) rg_dmask(&r, n, m); else rg_mask(&r, n, m); for (int i = 0; i < n; i++) if (l >> i & 1) r.has[i][i] = r.w[i][i] = 1; en_one(&r, 0, " (with self-links)"); if (n < 4) en_one(&r, 1, " (with self-links)"); } }
void large_register(void); void huge_register(void);
int main(int c, char **v) { huge_register(); large_register(); int t = en_thorough(); en_register(t ? 7 : 6, t ? 5 : 4, t ? 8 : 7, 11); for (int d = 0; d < 2; d++) for (int n = 2; n <= (d ? 3 + t : 4 + t); n++) { char b[40]; sprintf(b, "self-links-%d-%d", d, n); mc_section(b, loops, n | d << 3); } return mc_main(c, v); }
#endif
