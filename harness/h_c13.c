/* C13: every modularity function against the defining double sum, on all small networks x all partitions. */
#ifndef LARGE
#define HMAX 8
#endif
#include "hg.h"
#include "modules.h"
#include "hb.h"
#undef MAX_LABEL_LENGTH
#include "aa.h"
#ifdef LARGE
static int next_part(int *a, int n) { static int k; k++; if (k == 8) { k = 0; return 0; } for (int i = 0; i < n; i++) a[i] = k == 1 ? i % 3 : k == 2 ? (int)((long)i * 7 / n) : k == 3 ? i : k == 4 ? i >= n / 2 : k == 5 ? (i < 10 ? i : i % 10) : k == 6 ? i == n - 1 : i % (n / 2); return 1; }
#else
#define next_part mc_next_rgs
#endif
static const double WT[10] = {1, 2, 0.5, 3, 1, 0.25, 2, 5, 1, 4};
static struct group *mkpart(struct node_gra **nl, int n, const int *a, int var) { for (int i = 0; i < n; i++) nl[i]->inGroup = -1; struct group *p = CreateHeaderGroup(), *g[HMAX > BM ? HMAX : BM]; int K = 0; for (int i = 0; i < n; i++) if (a[i] >= K) K = a[i] + 1;
  int lab = 0; if (var == 1) CreateGroup(p, 100); for (int k = 0; k < K; k++) { int kk = var ? K - 1 - k : k; g[kk] = CreateGroup(p, var == 1 ? 7 * kk + 3 : lab++); if (var == 1) CreateGroup(p, 200 + k); } for (int x = 0; x < n; x++) { int i = var ? n - 1 - x : x; AddNodeToGroup(g[a[i]], nl[i]); } return p; }
static Partition *mkopt(const EL *e, int n, int M, const int *a, int shift, int norm, AdjaArray **adj) { Partition *p = CreatePartition(n, M); *adj = CreateAdjaArray(n, e->E); EdgeListToAdjaArray((int *)e->a, (int *)e->b, (double *)e->w, *adj, p, norm); for (int x = 0; x < n; x++) { int i = shift ? n - 1 - x : x; put(p, (a[i] + shift) % M, i); } return p; }
static double part_of(const int *a, int n) { int K = 0; for (int i = 0; i < n; i++) if (a[i] >= K) K = a[i] + 1; return K; }
static void one(const RG *r, int weighted) { int n = r->n; struct node_gra *nl[HMAX], *net = rg_build(r, nl); double W = 0, k[HMAX]; int L2 = 0, d[HMAX]; for (int i = 0; i < n; i++) { k[i] = rg_str(r, i); d[i] = rg_deg(r, i); W += k[i]; L2 += d[i]; } if (!L2) { RemoveGraph(net); return; }
  static EL e[4]; for (int v = 0; v < 4; v++) el_from(&e[v], r, v); int a[HMAX] = {0}; double best = -9, worst = 9;
  do { mc_case("network %s, modules", rg_text(r)); for (int i = 0; i < n; i++) mc_step(" %d", a[i]); double q = 0, qw = 0, pm = 0, pd = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (a[i] == a[j]) { double t = r->has[i][j] / (double)L2 - (double)d[i] * d[j] / ((double)L2 * L2), tw = (r->has[i][j] ? r->w[i][j] : 0) / W - k[i] * k[j] / (W * W); q += t; qw += tw; pd += i == j ? -k[i] * k[i] / (W * W) : tw; if (i != j) pm += tw; }
    for (int v = 0; v < 3; v++) { struct group *p = mkpart(nl, n, a, v); double x = Modularity(p), y = ModularityWeight(p); mc_trans(2); if (!mc_close(x, q)) mc_fail("modularity", "Modularity is %.9g instead of %.9g (group arrangement %d)", x, q, v); if (!mc_close(y, qw)) mc_fail("modularity-weight", "ModularityWeight is %.9g instead of %.9g (group arrangement %d)", y, qw, v); MapPartToNet(p, net); x = Modularity(p); y = ModularityWeight(p); if (!mc_close(x, q) || !mc_close(y, qw)) mc_fail("modularity-mapped", "after mapping: %.9g, %.9g instead of %.9g, %.9g", x, y, q, qw); RemovePartition(p); }
    int K = part_of(a, n); for (int v = 0; v < 4; v++) { AdjaArray *adj; Partition *p = mkopt(&e[v], n, (v & 1) ? K : n, a, v, 1, &adj); const char *er = pt_check(p, NULL); if (er) mc_fail("harness", "%s", er); double x = PartitionModularity(p, adj, 0), y = PartitionModularity(p, adj, 1); mc_trans(2); if (!mc_close(x, pm)) mc_fail("partition-modularity", "PartitionModularity without diagonal is %.9g instead of %.9g (edge order %d)", x, pm, v); if (!mc_close(y, pd)) mc_fail("partition-modularity", "PartitionModularity with diagonal is %.9g instead of %.9g (edge order %d)", y, pd, v);
      if (v == 0) { /* the arrays themselves */ for (int i = 0; i < n; i++) { if (!mc_close(p->nodes[i]->strength, k[i] / W)) mc_fail("arrays", "strength of node %d is %g instead of %g", i, p->nodes[i]->strength, k[i] / W); char seen[HMAX] = {0}; int ns = 0; for (unsigned z = adj->idx[i]; z < adj->idx[i + 1]; z++) { int j = adj->neighbors[z]; if (j >= n || !r->has[i][j] || seen[j]) mc_fail("arrays", "neighbour %d of node %d", j, i); else if (!mc_close(adj->strength[z], r->w[i][j] / W)) mc_fail("arrays", "strength of link %d-%d is %g instead of %g", i, j, adj->strength[z], r->w[i][j] / W); if (j < n) seen[j] = 1; ns++; } if (ns != d[i]) mc_fail("arrays", "node %d has %d neighbours", i, ns); } }
      FreePartition(p); FreeAdjaArray(adj);
      if (v == 3) { p = mkopt(&e[v], n, n, a, 0, 0, &adj); double z = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j && a[i] == a[j]) z += (r->has[i][j] ? r->w[i][j] : 0) - k[i] * k[j]; x = PartitionModularity(p, adj, 0); if (!mc_close(x, z)) mc_fail("partition-modularity", "not normalized: %.9g instead of %.9g", x, z); mc_trans(1); FreePartition(p); FreeAdjaArray(adj); } }
    if (q > best) best = q; if (q < worst) worst = q; mc_traces(1); uint64_t h; memcpy(&h, &qw, 8); mc_outcome(h * 31 + 7); } while (next_part(a, n));
  (void)weighted; mc_states(1); if (L2 > 6) mc_sample("%s: modularity between %.4f and %.4f over its partitions", rg_text(r), worst, best); RemoveGraph(net); }
static void uni(long arg) { int n = arg & 15, c = arg >> 4, C = 8; if (n < 5) C = 1; unsigned long M = 1ul << (n * (n - 1) / 2); for (unsigned long m = c; m < M; m += C) { if (mc_timeup()) { mc_capped("time"); return; } RG r; rg_mask(&r, n, m); one(&r, 0); int k = 0; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++, k++) if (r.has[i][j]) r.w[i][j] = r.w[j][i] = WT[(k * 7 + m) % 10]; one(&r, 1); } }
#define b (*bb)
static void bone(BG *bb, int wt) { int n1 = b.n1, n2 = b.n2;
    struct node_gra *x[BM], *y[BM]; struct binet *B = bg_build(&b, x, y); double S = 0, SW = 0, S2 = 0, SW2 = 0, S3 = 0; int d1[BM] = {0}; double s1[BM] = {0}; for (int j = 0; j < n2; j++) { double s = 0; int d = 0; for (int i = 0; i < n1; i++) if (b.has[i][j]) { d++; s += b.w[i][j]; d1[i]++; s1[i] += b.w[i][j]; } S += d; S2 += d * d; SW += s; SW2 += s * s; if (d) S3 += s * (s - s / d); }
    mc_states(1); static unsigned ea[BM * BM], eb[BM * BM]; static double ew[BM * BM]; int a[BM] = {0};
    do { mc_case("bipartite network %s, modules", bg_text(&b)); for (int i = 0; i < n1; i++) mc_step(" %d", a[i]); double q = 0, qw = 0, qp = 0; static double mat[BM][BM]; double *mp[BM], qf = 0; for (int i = 0; i < n1; i++) mp[i] = mat[i]; for (int i = 0; i < n1; i++) for (int j = 0; j < n1; j++) mat[i][j] = (i + 1) * (j + 1) * 0.37 - 1.1 * (i + j);
      int shared = 0; for (int i = 0; i < n1; i++) for (int j = 0; j < n1; j++) if (i != j && a[i] == a[j]) { int c12 = 0; double p12 = 0; for (int t = 0; t < n2; t++) if (b.has[i][t] && b.has[j][t]) { c12++; p12 += b.w[i][t] * b.w[j][t]; } if (c12) shared = 1; q += c12 / (S2 - S) - (double)d1[i] * d1[j] / (S * S); qw += p12 / (SW2 - SW) - s1[i] * s1[j] / (SW * SW); qp += (c12 ? p12 / S3 : 0) - s1[i] * s1[j] / (SW * SW); if (i < j) qf += mat[i][j]; }
      for (int v = 0; v < 3; v++) { struct group *p = mkpart(x, n1, a, v); double u = S2 > S ? ModularityBipart(B, p) : 0, w = fabs(SW2 - SW) > 1e-9 ? ModularityBipartWeighted(B, p) : 0, f = ModularityBipartWeightedFast(B, p, mp); mc_trans(3); if (S2 > S && !mc_close(u, q)) mc_fail("modularity-bipart", "ModularityBipart is %.9g instead of %.9g (group arrangement %d)", u, q, v); if (fabs(SW2 - SW) > 1e-9 && !mc_close(w, qw)) mc_fail("modularity-bipart-weighted", "ModularityBipartWeighted is %.9g instead of %.9g (group arrangement %d)", w, qw, v); if (!mc_close(f, qf)) mc_fail("modularity-bipart-fast", "sum of matrix entries is %.9g instead of %.9g", f, qf); RemovePartition(p); }
      for (int v = 0; v < 2; v++) { int E = 0; for (int z = 0; z < n1 * n2; z++) { int zz = v ? n1 * n2 - 1 - z : z, i = zz / n2, j = zz % n2; if (b.has[i][j]) { ea[E] = i; eb[E] = j; ew[E] = b.w[i][j]; E++; } } int n = 0; for (int z = 0; z < E; z++) if ((int)ea[z] + 1 > n) n = ea[z] + 1; Partition *p; AdjaArray *adj; unsigned np = ProjectBipartEdgeList(ea, eb, ew, E, &p, &adj); unsigned np0 = 0; for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) for (int t = 0; t < n2; t++) if (b.has[i][t] && b.has[j][t]) { np0++; break; } mc_trans(1); if (np != np0 || adj->E != np0 || (int)adj->N != n || (int)p->N != n) mc_fail("projection", "projection has %u nodes and %u links instead of %d and %u", adj->N, np, n, np0);
        for (int i = 0; i < n; i++) put(p, a[i], i); double m0 = PartitionModularity(p, adj, 0), ref = 0, dg = 0; for (int i = 0; i < n; i++) { dg += s1[i] * s1[i] / (SW * SW); for (int j = 0; j < n; j++) if (i != j && a[i] == a[j]) { double p12 = 0; for (int t = 0; t < n2; t++) if (b.has[i][t] && b.has[j][t]) p12 += b.w[i][t] * b.w[j][t]; ref += (p12 ? p12 / S3 : 0) - s1[i] * s1[j] / (SW * SW); } } if (!mc_close(m0, ref)) mc_fail("projected-modularity", "modularity on the projected arrays is %.9g instead of %.9g (edge order %d)", m0, ref, v); m0 = PartitionModularity(p, adj, 1); if (!mc_close(m0, ref - dg)) mc_fail("projected-modularity", "with diagonal %.9g instead of %.9g", m0, ref - dg); if (!wt && S2 > S && !mc_close(m0 + dg, q)) mc_fail("projected-modularity", "%.9g differs from the bipartite modularity %.9g", m0 + dg, q); FreePartition(p); FreeAdjaArray(adj); }
      mc_traces(1); uint64_t h; memcpy(&h, &qp, 8); mc_outcome(h * 31 + 7); } while (next_part(a, n1)); RemoveBipart(B); }
#undef b
static void bip(long arg) { int n1 = arg & 15, n2 = arg >> 4 & 15, c = arg >> 8; unsigned long M = 1ul << (n1 * n2); for (unsigned long m = c; m < M; m += 8) for (int wt = 0; wt < 2; wt++) { if (mc_timeup()) { mc_capped("time"); return; } BG b; bg_mask(&b, n1, n2, m); int L = bg_links(&b); if (!L) continue; if (wt) for (int i = 0; i < n1; i++) for (int j = 0; j < n2; j++) if (b.has[i][j]) b.w[i][j] = WT[(i * n2 + j * 3 + m) % 10]; bone(&b, wt); } }

#ifndef LARGE
void large_register(void);
void huge_register(void);
int main(int c, char **v) { huge_register(); large_register(); char nm[40]; const char *e = getenv("VERIF_TIER"); int th = e && !strcmp(e, "thorough"); for (int n = 2; n <= (th ? 6 : 5); n++) for (int k = 0; k < (n < 5 ? 1 : 8); k++) { sprintf(nm, "uni-%d-%d", n, k); mc_section(strdup(nm), uni, n | k << 4); }
  static const int sz[][2] = {{2, 1}, {2, 2}, {3, 2}, {2, 3}, {3, 3}, {4, 2}, {4, 3}, {3, 4}, {5, 2}, {5, 3}, {4, 4}}; for (int s = 0; s < (th ? 11 : 9); s++) for (int k = 0; k < 8; k++) { if (k >= 1 << (sz[s][0] * sz[s][1])) continue; sprintf(nm, "bip-%d-%d-%d", sz[s][0], sz[s][1], k); mc_section(strdup(nm), bip, sz[s][0] | sz[s][1] << 4 | k << 8); } return mc_main(c, v); }

#endif
