/* C08: node and link betweenness on every small graph. */
#ifndef HMAX
#define HMAX 40
#endif
#include "hg.h"
static void visit(const RG *r, struct node_gra *net, struct node_gra **nl) {
  int n = r->n, sym = 1; int D[HMAX][HMAX]; double sg[HMAX][HMAX], nb[HMAX] = {0}, tot = 0; static double lb[HMAX][HMAX]; memset(lb, 0, sizeof lb);
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { if (r->has[i][j] != r->has[j][i]) sym = 0; D[i][j] = i == j ? 0 : r->has[i][j] ? 1 : 9999; }
  for (int k = 0; k < n; k++) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (D[i][k] + D[k][j] < D[i][j]) D[i][j] = D[i][k] + D[k][j];
  for (int s = 0; s < n; s++) for (int d = 0; d < n; d++) for (int t = 0; t < n; t++) { if (D[s][t] != d) continue; if (d == 0) { sg[s][t] = 1; continue; } sg[s][t] = 0; for (int v = 0; v < n; v++) if (r->has[v][t] && D[s][v] == d - 1) sg[s][t] += sg[s][v]; }
  for (int s = 0; s < n; s++) for (int t = 0; t < n; t++) if (s != t && D[s][t] < 9999) { tot += D[s][t]; for (int v = 0; v < n; v++) if (v != s && v != t && D[s][v] + D[v][t] == D[s][t]) nb[v] += sg[s][v] * sg[v][t] / sg[s][t]; }
  double m = 0, sd = 0, mn = nb[0], mx = nb[0]; for (int i = 0; i < n; i++) { m += nb[i] / n; if (nb[i] < mn) mn = nb[i]; if (nb[i] > mx) mx = nb[i]; } for (int i = 0; i < n; i++) sd += (nb[i] - m) * (nb[i] - m); sd = sqrt(sd / n);
  for (int rep = 0; rep < 2; rep++) { CalculateNodeBetweenness(net); mc_trans(1); for (int i = 0; i < n; i++) if (!mc_close(nl[i]->dvar1, nb[i])) mc_fail("node", "betweenness of node %d is %.10g, should be %.10g", i, nl[i]->dvar1, nb[i]); }
  /* statistics must come from the network as it is, not from what was stored in the nodes before */
  for (int i = 0; i < n; i++) nl[i]->dvar1 = -5 - i; double a, b, c, d; NodeBetweennessStatistics(net, &a, &b, &c, &d); mc_trans(1);
  if (!mc_close(a, m) || !mc_closet(b, sd, 1e-7) || !mc_close(c, mn) || !mc_close(d, mx)) mc_fail("stats", "statistics mean %g sd %g min %g max %g, should be %g %g %g %g", a, b, c, d, m, sd, mn, mx);
  mc_outcome(mc_hash(nb, sizeof nb));
  if (!sym) return;
  /* link betweenness: from every source one unit for every other reachable node flows back to the source, divided equally among the predecessors at every step */
  for (int s = 0; s < n; s++) { double f[HMAX]; for (int i = 0; i < n; i++) f[i] = 1; for (int dd = n; dd >= 1; dd--) for (int t = 0; t < n; t++) if (D[s][t] == dd) { int np = 0; for (int v = 0; v < n; v++) np += r->has[v][t] && D[s][v] == dd - 1; for (int v = 0; v < n; v++) if (r->has[v][t] && D[s][v] == dd - 1) { lb[v][t] += f[t] / np; lb[t][v] += f[t] / np; f[v] += f[t] / np; } } }
  for (int rep = 0; rep < 3; rep++) { int n1 = -7, n2 = -7; if (rep == 1) CalculateBiggestLinkBetweenness(net, &n1, &n2); else CalculateLinkBetweenness(net); mc_trans(1);
    double sum = 0, big = 0; int any = 0; for (int i = 0; i < n; i++) { struct node_lis *l = nl[i]->neig; while ((l = l->next)) { any = 1; struct node_lis *o = GetLink(l->ref, i); if (l->btw < 0) mc_fail("link-neg", "negative betweenness of link %d-%d", i, l->node); if (!mc_close(l->btw, o->btw)) mc_fail("link-sym", "betweenness %g of link %d-%d differs from %g in the other direction", l->btw, i, l->node, o->btw); if (!mc_close(l->btw, lb[i][l->node])) mc_fail("link", "betweenness of link %d-%d is %g, should be %g", i, l->node, l->btw, lb[i][l->node]); sum += l->btw / 2; if (l->btw > big) big = l->btw; } }
    if (!mc_closet(sum, tot, 1e-7)) mc_fail("link-sum", "link betweenness adds up to %g instead of the total distance %g", sum, tot);
    if (rep == 1 && any) { if (n1 < 0 || n1 >= n || n2 < 0 || n2 >= n || !r->has[n1][n2]) mc_fail("biggest", "most between link reported as %d-%d, which is not a link", n1, n2); else if (!mc_closet(lb[n1][n2], big, 1e-7)) mc_fail("biggest", "link %d-%d (betweenness %g) reported as most between, maximum is %g", n1, n2, lb[n1][n2], big); } }
}
#include "en.h"
#if defined(OWN_REGISTER)
#elif defined(EN_LARGE)
void large_register(void) { en_register_large(); }
#else
void large_register(void);
int main(int c, char **v) { large_register(); int t = en_thorough(); en_register(t ? 7 : 6, t ? 5 : 4, t ? 8 : 7, 11); return mc_main(c, v); }
#endif
