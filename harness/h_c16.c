/* C16: participation coefficients, within-module z-scores and roles, on all small networks x all partitions, hub families that
   reach every role, and a grid around every threshold. */
#ifndef LARGE
#define HMAX 34
#endif
#include "hg.h"
#include "modules.h"
#include "hb.h"
#undef MAX_LABEL_LENGTH
#include "aa.h"
static const double TH0[] = {0.05, 0.62, 0.80}, TH1[] = {0.30, 0.75};
static int role(double P, double z) { if (z < 2.5) { int r = 0; while (r < 3 && P >= TH0[r]) r++; return r; } int r = 0; while (r < 2 && P >= TH1[r]) r++; return 4 + r; }
/* is role r compatible with (P,z) up to rounding at the thresholds? */
static int rok(int r, double P, double z) { static const double d[3] = {-1e-9, 0, 1e-9}; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) if (role(P + d[i], z + d[j]) == r) return 1; return 0; }
static struct group *mkp(struct node_gra **nl, int n, const int *a, int var) { for (int i = 0; i < n; i++) nl[i]->inGroup = -1; struct group *p = CreateHeaderGroup(), *g[HMAX]; int K = 0; for (int i = 0; i < n; i++) if (a[i] >= K) K = a[i] + 1; for (int k = 0; k < K; k++) { int kk = var ? K - 1 - k : k; g[kk] = CreateGroup(p, var ? 3 * kk + 2 : kk); } for (int x = 0; x < n; x++) { int i = var ? n - 1 - x : x; AddNodeToGroup(g[a[i]], nl[i]); } return p; }
static void zs(const double *s, const int *a, int n, double *z) { for (int i = 0; i < n; i++) { double m = 0, v = 0, q = 0; int c = 0; for (int j = 0; j < n; j++) if (a[j] == a[i]) { m += s[j]; c++; } m /= c; for (int j = 0; j < n; j++) if (a[j] == a[i]) { v += (s[j] - m) * (s[j] - m); q += s[j] * s[j]; } v /= c; z[i] = v <= 1e-20 * (1 + q) ? 0 : (s[i] - m) / sqrt(v); } }
static void catalog(struct group *ro, struct node_gra **nl, const RG *r, const double *P, const double *z, const char *what) { int n = r->n, seen[HMAX] = {0}, k = 0; struct group *g = ro; while ((g = g->next)) { if (g->label != k) mc_fail("catalog", "%s: group %d has label %d", what, k, g->label); int c = 0; struct node_lis *p = g->nodeList; while ((p = p->next)) { int i = rg_idx(r, p->nodeLabel); if (i < 0 || seen[i]++) { mc_fail("catalog", "%s: node %s unknown or listed twice", what, p->nodeLabel); continue; } if (!rok(k, P[i], z[i])) mc_fail("role", "%s: node %s with P %.9g and z %.9g has role %d instead of %d", what, r->lab[i], P[i], z[i], k + 1, role(P[i], z[i]) + 1); if (p->ref != nl[i] || nl[i]->inGroup != k) mc_fail("catalog", "%s: node %s not mapped onto its role", what, r->lab[i]); c++; } if (c != g->size) mc_fail("catalog", "%s: role %d has size %d, lists %d", what, k, g->size, c); k++; } if (k != 7) mc_fail("catalog", "%s: %d roles", what, k); for (int i = 0; i < n; i++) if (!seen[i]) mc_fail("catalog", "%s: node %s has no role", what, r->lab[i]); }
static void one(const RG *r, const int *a, int weighted, int vars) { int n = r->n, K = 0; struct node_gra *nl[HMAX], *net = rg_build(r, nl); for (int i = 0; i < n; i++) if (a[i] >= K) K = a[i] + 1; double P[HMAX], PW[HMAX], z[HMAX], zw[HMAX], in[HMAX], inw[HMAX], Z = 0; mc_case("network %s, modules", rg_text(r)); for (int i = 0; i < n; i++) mc_step(" %d", a[i]);
  for (int i = 0; i < n; i++) { double km[HMAX] = {0}, sm[HMAX] = {0}, k = 0, s = 0; for (int j = 0; j < n; j++) if (r->has[i][j]) { km[a[j]]++; sm[a[j]] += r->w[i][j]; k++; s += r->w[i][j]; Z += r->w[i][j]; } P[i] = PW[i] = 0; if (k) { P[i] = PW[i] = 1; for (int m = 0; m < K; m++) { P[i] -= km[m] * km[m] / (k * k); PW[i] -= sm[m] * sm[m] / (s * s); } } in[i] = km[a[i]]; inw[i] = sm[a[i]]; } zs(in, a, n, z); zs(inw, a, n, zw);
  for (int v = 0; v < vars; v++) { struct group *p = mkp(nl, n, a, v); for (int i = 0; i < n; i++) { double x = ParticipationCoefficient(nl[i]), y = WeightedParticipationCoefficient(nl[i], p), q = WithinModuleRelativeDegree(nl[i], p), s = WithinModuleRelativeStrength(nl[i], p); mc_trans(4); if (!mc_close(x, P[i])) mc_fail("participation", "P of %s is %.9g instead of %.9g", r->lab[i], x, P[i]); if (!mc_close(y, PW[i])) mc_fail("participation-weighted", "weighted P of %s is %.9g instead of %.9g", r->lab[i], y, PW[i]); if (!mc_close(q, z[i])) mc_fail("z-degree", "z of %s is %.9g instead of %.9g", r->lab[i], q, z[i]); if (!mc_closet(s, zw[i], 1e-6)) mc_fail("z-strength", "weighted z of %s is %.9g instead of %.9g", r->lab[i], s, zw[i]);
      struct group *g = p; while ((g = g->next)) if (g->label == nl[i]->inGroup) { s = WithinModuleRelativeStrength(nl[i], g); q = WithinModuleRelativeDegree(nl[i], g); if (!mc_closet(s, zw[i], 1e-6) || !mc_close(q, z[i])) mc_fail("z-own-group", "z of %s from its own group", r->lab[i]); } }
    struct group *ro = CatalogRoleIdent(net, p); catalog(ro, nl, r, P, z, "roles"); RemovePartition(ro); ro = CatalogRoleIdentStrength(net, p); catalog(ro, nl, r, PW, zw, "weighted roles"); RemovePartition(ro); mc_trans(2); RemovePartition(p); }
  static EL e; el_from(&e, r, 0); if (e.E) for (int v = 0; v < 2; v++) { Partition *p = CreatePartition(n, v ? n : K); AdjaArray *adj = CreateAdjaArray(n, e.E); EdgeListToAdjaArray((int *)e.a, (int *)e.b, e.w, adj, p, 1); for (int i = 0; i < n; i++) put(p, v ? (a[i] + n - 1) % n : a[i], i); double *c = calloc(n, sizeof *c), *q = calloc(n, sizeof *q); PartitionRolesMetrics(p, adj, c, q); mc_trans(1); for (int i = 0; i < n; i++) { if (!mc_close(q[i], PW[i])) mc_fail("array-participation", "participation of node %d is %.9g instead of %.9g", i, q[i], PW[i]); if (!mc_closet(c[i], zw[i], 1e-6)) mc_fail("array-connectivity", "connectivity of node %d is %.9g instead of %.9g", i, c[i], zw[i]); } free(c); free(q); FreePartition(p); FreeAdjaArray(adj); }
  (void)weighted; (void)Z; mc_traces(1); mc_outcome(mc_hash(P, n * sizeof(double)) ^ mc_hash(z, n * sizeof(double))); RemoveGraph(net); }
static const double WT[][10] = {{1, 2, 0.5, 3, 1, 0.25, 2, 5, 1, 4}, {0.1, 0.1, 0.1, 0.1, 0.1, 0.1, 0.1, 0.1, 0.1, 0.1}, {0.3, 0.1, 0.2, 0.7, 0.1, 0.3, 0.2, 0.7, 0.3, 0.9}};
static void small(long arg) { int n = arg & 15, c = arg >> 4, C = n < 5 ? 1 : 8; for (unsigned long m = c; m < 1ul << (n * (n - 1) / 2); m += C) for (int w = 0; w < 4; w++) { if (mc_timeup()) { mc_capped("time"); return; } RG r; rg_mask(&r, n, m); int k = 0; if (w) for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++, k++) if (r.has[i][j]) r.w[i][j] = r.w[j][i] = WT[w - 1][(k * 7 + m) % 10]; mc_states(1); int a[HMAX] = {0}; do one(&r, a, w, n < 5 ? 2 : 1); while (mc_next_rgs(a, n)); } }
/* a hub with k leaves in its module and o[m] links into the m-th further module, a ring inside the module of w links */
static void hubs(long k) { int o[5] = {0}; for (;;) { int tot = 0; for (int m = 0; m < 5; m++) tot += o[m]; int dec = 1; for (int m = 1; m < 5; m++) if (o[m] > o[m - 1]) dec = 0; if (dec && k + 1 + tot <= 26) for (int ring = 0; ring < 3; ring++) for (int w = 0; w < 3; w++) { if (mc_timeup()) { mc_capped("time"); return; } RG r; int a[HMAX]; rg_init(&r, k + 1 + tot); for (int i = 26; i < r.n; i++) sprintf(r.lab[i], "n%d", i); a[0] = 0; for (int i = 1; i <= k; i++) { rg_link(&r, 0, i, w == 2 ? 0.1 : 1); a[i] = 0; } if (ring) for (int i = 1; i < k; i += ring) rg_link(&r, i, i + 1, w ? 0.3 : 1); int x = k + 1; for (int m = 0; m < 5; m++) for (int i = 0; i < o[m]; i++, x++) { rg_link(&r, 0, x, w == 1 ? 0.5 : w == 2 ? 0.1 : 1); if (i) rg_link(&r, x, x - 1, 1); a[x] = m + 1; } int K = 0; for (int i = 0; i < r.n; i++) if (a[i] > K) K = a[i]; one(&r, a, w, 1); mc_states(1); }
    int q = 0; while (q < 5 && ++o[q] > (q < 2 ? 5 : 3)) o[q++] = 0; if (q == 5) break; } }
static void grid(long x) { (void)x; static const double t[] = {0, 0.05, 0.30, 0.62, 0.75, 0.80, 1}, zt[] = {-3, 0, 2.5, 5}; double ps[60], z[40]; int np = 0, nz = 0; for (int i = 0; i < 7; i++) { ps[np++] = t[i]; ps[np++] = nextafter(t[i], -9); ps[np++] = nextafter(t[i], 9); ps[np++] = t[i] + 0.004; ps[np++] = t[i] - 0.004; ps[np++] = t[i] + 0.03; } for (int i = 0; i < 4; i++) { z[nz++] = zt[i]; z[nz++] = nextafter(zt[i], -9); z[nz++] = nextafter(zt[i], 9); z[nz++] = zt[i] + 0.04; z[nz++] = zt[i] - 0.04; } for (int i = 0; i < np; i++) for (int j = 0; j < nz; j++) { mc_case("GetRole(%.17g,%.17g)", ps[i], z[j]); int r = GetRole(ps[i], z[j]); mc_states(1); mc_trans(1); mc_traces(1); mc_outcome(r + 1); if (r != role(ps[i], z[j])) mc_fail("getrole", "role %d instead of %d", r, role(ps[i], z[j])); } }
/* roles from the projected arrays of a bipartite network */
static void biparr(const BG *b, const int *a) { static const double wt[][8] = {{1, 1, 1, 1, 1, 1, 1, 1}, {1, 2, 0.5, 3, 1, 0.25, 2, 5}, {0.1, 0.3, 0.2, 0.7, 0.1, 0.9, 0.3, 0.6}}; for (int v = 0; v < 3; v++) { double W[BM][BM]; unsigned ea[BM * BM], eb[BM * BM]; double ew[BM * BM]; int E = 0, n = 0, K = 0; for (int i = 0; i < b->n1; i++) for (int j = 0; j < b->n2; j++) { W[i][j] = b->has[i][j] ? wt[v][(i * 3 + j * 5) % 8] : 0; if (b->has[i][j]) { ea[E] = i; eb[E] = j; ew[E] = W[i][j]; E++; if (i >= n) n = i + 1; } } if (!E) return; for (int i = 0; i < n; i++) if (a[i] >= K) K = a[i] + 1;
    double P[BM], in[BM], z[BM]; for (int i = 0; i < n; i++) { double sm[BM] = {0}, s = 0; for (int j = 0; j < n; j++) if (j != i) for (int t = 0; t < b->n2; t++) { sm[a[j]] += W[i][t] * W[j][t]; s += W[i][t] * W[j][t]; } P[i] = 0; if (s) { P[i] = 1; for (int m = 0; m < K; m++) P[i] -= sm[m] * sm[m] / (s * s); } in[i] = sm[a[i]]; } zs(in, a, n, z);
    Partition *p; AdjaArray *adj; ProjectBipartEdgeList(ea, eb, ew, E, &p, &adj); for (int i = 0; i < n; i++) put(p, a[i], i); double *c = calloc(n, sizeof *c), *q = calloc(n, sizeof *q); PartitionRolesMetrics(p, adj, c, q); mc_trans(1); for (int i = 0; i < n; i++) { if (!mc_close(q[i], P[i])) mc_fail("array-participation", "projected, weights %d: participation of node %d is %.9g instead of %.9g", v, i, q[i], P[i]); if (!mc_closet(c[i], z[i], 1e-6)) mc_fail("array-connectivity", "projected, weights %d: connectivity of node %d is %.9g instead of %.9g", v, i, c[i], z[i]); } free(c); free(q); FreePartition(p); FreeAdjaArray(adj); } }
static void bip(long arg) { int n1 = arg & 15, n2 = arg >> 4 & 15, c = arg >> 8; unsigned long M = 1ul << (n1 * n2); for (unsigned long m = c; m < M; m += 8) { if (mc_timeup()) { mc_capped("time"); return; } BG b; bg_mask(&b, n1, n2, m); struct node_gra *x[BM], *y[BM]; struct binet *B = bg_build(&b, x, y); mc_states(1); int a[BM] = {0}; do { mc_case("bipartite %s, modules", bg_text(&b)); int all = 1; double P[BM]; for (int i = 0; i < n1; i++) { mc_step(" %d", a[i]); x[i]->inGroup = a[i]; } for (int i = 0; i < n1; i++) { int cnt[BM] = {0}, norm = 0; for (int t = 0; t < n2; t++) if (b.has[i][t]) for (int j = 0; j < n1; j++) if (j != i && b.has[j][t]) { cnt[a[j]]++; norm++; } if (!norm) { all = 0; continue; } P[i] = 1; for (int g = 0; g < n1; g++) P[i] -= (double)cnt[g] * cnt[g] / ((double)norm * norm); double v = ParticipationCoefficientBipart(x[i]); mc_trans(1); if (!mc_close(v, P[i])) mc_fail("participation-bipart", "P of node %d is %.9g instead of %.9g", i, v, P[i]); }
      biparr(&b, a);
      if (all) { double me, sd, mi, ma, rm = 0, rv = 0, lo = 9, hi = -9; StatisticsParticipationCoefficientBipart(B->net1, &me, &sd, &mi, &ma); mc_trans(1); for (int i = 0; i < n1; i++) { rm += P[i] / n1; lo = fmin(lo, P[i]); hi = fmax(hi, P[i]); } for (int i = 0; i < n1; i++) rv += (P[i] - rm) * (P[i] - rm) / n1; if (!mc_close(me, rm) || !mc_close(mi, lo) || !mc_close(ma, hi) || !(sd < 1e-7 && rv < 1e-14 || isnan(sd) && rv < 1e-14 || mc_closet(sd, sqrt(rv), 1e-6))) mc_fail("statistics-bipart", "mean %.9g sd %.9g min %.9g max %.9g instead of %.9g %.9g %.9g %.9g", me, sd, mi, ma, rm, sqrt(rv), lo, hi); }
      mc_traces(1); } while (mc_next_rgs(a, n1)); RemoveBipart(B); } }
#ifndef LARGE
void large_register(void);
void huge_register(void);
int main(int c, char **v) { huge_register(); large_register(); char nm[40]; const char *e = getenv("VERIF_TIER"); int th = e && !strcmp(e, "thorough"); for (int k = 10; k >= 6; k--) { sprintf(nm, "hubs-%d", k); mc_section(strdup(nm), hubs, k); } for (int n = 2; n <= (th ? 6 : 5); n++) for (int k = 0; k < (n < 5 ? 1 : 8); k++) { sprintf(nm, "small-%d-%d", n, k); mc_section(strdup(nm), small, n | k << 4); } mc_section("thresholds", grid, 0);
  static const int sz[][2] = {{2, 1}, {2, 2}, {3, 2}, {2, 3}, {3, 3}, {4, 2}, {4, 3}, {3, 4}, {5, 2}, {5, 3}, {4, 4}}; for (int s = 0; s < (th ? 11 : 9); s++) for (int k = 0; k < 8; k++) { if (k >= 1 << (sz[s][0] * sz[s][1])) continue; sprintf(nm, "bip-%d-%d-%d", sz[s][0], sz[s][1], k); mc_section(strdup(nm), bip, sz[s][0] | sz[s][1] << 4 | k << 8); } return mc_main(c, v); }

#endif
