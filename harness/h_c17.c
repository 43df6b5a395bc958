/* C17: reading, printing, editing and projecting bipartite networks against a plain reference. */
#ifndef HMAX
#define HMAX 16
#endif
#include "hb.h"
#include "hg.h"
#undef MAX_LABEL_LENGTH
#include "aa.h"
static int th;
static const double WT[10] = {1, 2, 0.5, 3, 1, 0.25, 2, 5, 1, 4};
static char *text; static size_t tl;
static const char *cmp(struct binet *B, const BG *w, int order) { static BG g; const char *e = bg_read(B, &g); return e ? e : bg_diff(&g, w, order); }
/* ---- files ---- */
static void check_net(struct binet *B, const BG *w, const char *what) { const char *e = cmp(B, w, 1); if (e) { mc_fail("network", "%s: %s", what, e); return; } if (NLinksBipart(B) != bg_links(w)) mc_fail("nlinks", "%s: %d links instead of %d", what, NLinksBipart(B), bg_links(w)); }
static void printed(struct binet *B, const BG *w) { static BG g, v; for (int sw = 0; sw < 2; sw++) { FILE *f = open_memstream(&text, &tl); FPrintBipart(f, B, sw); fclose(f); f = mc_memfile(text); struct binet *C = FBuildNetworkBipart(f, sw, 0); fclose(f); const char *e = bg_read(C, &g); if (e) mc_fail("print", "%s", e); else { v = *w; if (!sw) for (int i = 0; i < v.n1; i++) for (int j = 0; j < v.n2; j++) v.w[i][j] = v.has[i][j]; int iso = 0; for (int i = 0; i < v.n1; i++) { int d = 0; for (int j = 0; j < v.n2; j++) d += v.has[i][j]; if (!d) iso = 1; } for (int j = 0; j < v.n2; j++) { int d = 0; for (int i = 0; i < v.n1; i++) d += v.has[i][j]; if (!d) iso = 1; } if (!iso) { e = bg_diff(&g, &v, 0); if (e) mc_fail("print", "printed and read back (weights %d): %s", sw, e); } else if (bg_links(&g) != bg_links(w)) mc_fail("print", "%d links printed", bg_links(&g)); } RemoveBipart(C); free(text); mc_trans(1);
    for (int co = 0; co < 2; co++) { char fn[600]; snprintf(fn, 600, "%s/pj.net", mc_tmpdir()); FPrintPajekFileBipart(fn, B, co, sw); mc_trans(1); f = fopen(fn, "r"); char l[400]; int N, S1, bad = 0, nl = 0; if (!f || !fgets(l, 400, f) || sscanf(l, "*Vertices %d %d", &N, &S1) != 2 || N != w->n1 + w->n2 || S1 != w->n1) bad = 1; for (int i = 0; !bad && i < N; i++) { int k; char lb[100]; double x, y, z; if (!fgets(l, 400, f) || sscanf(l, "%d \"%[^\"]\" %lf %lf %lf", &k, lb, &x, &y, &z) != (co ? 5 : 2) || k != i + 1 || strcmp(lb, i < S1 ? w->l1[i] : w->l2[i - S1])) bad = 2; } if (!bad && (!fgets(l, 400, f) || strncmp(l, "*Edges", 6))) bad = 3; static int seen[BM][BM]; for (int i = 0; i < w->n1; i++) memset(seen[i], 0, sizeof seen[i]); while (!bad && fgets(l, 400, f)) { int a, b; double x = 1; int k = sscanf(l, "%d %d %lf", &a, &b, &x); if (k != (sw ? 3 : 2) || a < 1 || a > S1 || b <= S1 || b > N || !w->has[a - 1][b - 1 - S1] || seen[a - 1][b - 1 - S1]++ || (sw && !mc_closet(x, w->w[a - 1][b - 1 - S1], 1e-5))) bad = 4; nl++; } if (!bad && nl != bg_links(w)) bad = 5; if (bad) mc_fail("pajek", "Pajek file (coordinates %d, weights %d) is wrong (%d)", co, sw, bad); if (f) fclose(f); } } }
static void files(long arg) { int L = arg & 15, k1 = arg >> 4 & 15, c = arg >> 8 & 255, C = arg >> 16; static const char *A[] = {"a", "b", "c"}, *Bl[] = {"a", "x", "ybc"}; static const double W[] = {1, 2.5, 0.25}; int per = k1 * k1 * 3; long tot = 1; for (int i = 0; i < L; i++) tot *= per; for (long x = c; x < tot; x += C) { if (mc_timeup()) { mc_capped("time"); return; } char t[400]; for (int wsw = 0; wsw < 2; wsw++) { int l = 0, e[8][3]; long y = x, bad = 0; for (int i = 0; i < L; i++) { int q = y % per; y /= per; e[i][0] = q % k1; e[i][1] = q / k1 % k1; e[i][2] = q / k1 / k1; if (!wsw && e[i][2]) bad = 1; l += wsw ? sprintf(t + l, "%s%s%s %g\n", A[e[i][0]], i & 1 ? "\t" : " ", Bl[e[i][1]], W[e[i][2]]) : sprintf(t + l, "%s%s%s\n", A[e[i][0]], i & 1 ? "\t" : " ", Bl[e[i][1]]); } if (bad) continue;
      mc_states(1); for (int add = 0; add < 2; add++) { BG w; memset(&w, 0, sizeof w); for (int i = 0; i < L; i++) { int p = bg_i1(&w, A[e[i][0]]), q = bg_i2(&w, Bl[e[i][1]]); if (p < 0) { p = w.n1++; strcpy(w.l1[p], A[e[i][0]]); } if (q < 0) { q = w.n2++; strcpy(w.l2[q], Bl[e[i][1]]); } double v = wsw ? W[e[i][2]] : 1; if (!w.has[p][q]) { w.has[p][q] = 1; w.w[p][q] = v; } else if (add) w.w[p][q] += v; } mc_case("file \"%s\" weights %d accumulate %d", t, wsw, add); FILE *f = mc_memfile(t); struct binet *B = FBuildNetworkBipart(f, wsw, add); fclose(f); mc_trans(1); mc_traces(1); if (!B) { mc_fail("read", "not read"); continue; } check_net(B, &w, "read"); if (L < 4) printed(B, &w); RemoveBipart(B); } } } }
/* ---- edit histories ---- */
static void removed(BG *g, int set, int k) { if (set == 1) { for (int i = k; i + 1 < g->n1; i++) { memcpy(g->has[i], g->has[i + 1], sizeof g->has[0]); memcpy(g->w[i], g->w[i + 1], sizeof g->w[0]); strcpy(g->l1[i], g->l1[i + 1]); } g->n1--; } else { for (int j = k; j + 1 < g->n2; j++) { for (int i = 0; i < g->n1; i++) { g->has[i][j] = g->has[i][j + 1]; g->w[i][j] = g->w[i][j + 1]; } strcpy(g->l2[j], g->l2[j + 1]); } g->n2--; } BG t; memset(&t, 0, sizeof t); t.n1 = g->n1; t.n2 = g->n2; for (int i = 0; i < t.n1; i++) { strcpy(t.l1[i], g->l1[i]); for (int j = 0; j < t.n2; j++) { t.has[i][j] = g->has[i][j]; t.w[i][j] = g->w[i][j]; } } for (int j = 0; j < t.n2; j++) strcpy(t.l2[j], g->l2[j]); *g = t; }
static void swapped(BG *g) { BG t; memset(&t, 0, sizeof t); t.n1 = g->n2; t.n2 = g->n1; for (int i = 0; i < t.n1; i++) { strcpy(t.l1[i], g->l2[i]); for (int j = 0; j < t.n2; j++) { t.has[i][j] = g->has[j][i]; t.w[i][j] = g->w[j][i]; } } for (int j = 0; j < t.n2; j++) strcpy(t.l2[j], g->l1[j]); *g = t; }
static void projection(struct binet *B, const BG *g);
static BG G0; static int H[8], hn;
static void rec(int depth) { /* replay the history on a fresh network */
  BG g = G0; struct binet *B = bg_build(&g, NULL, NULL); mc_case("%s; history:", bg_text(&G0)); const char *e; for (int k = 0; k < hn; k++) { int o = H[k]; if (o == 0) { mc_step(" copy"); struct binet *C = CopyBipart(B); check_net(B, &g, "original after copying"); RemoveBipart(B); B = C; } else if (o == 1) { mc_step(" invert"); struct binet *C = InvertBipart(B); if (C != B) mc_fail("invert", "another network returned"); swapped(&g); } else { int set = o < 20 ? 1 : 2, q = o % 10; char *l = strdup(set == 1 ? g.l1[q] : g.l2[q]); mc_step(" remove %s from set %d", l, set); RemoveNodeBipart(B, l, set); free(l); removed(&g, set, q); } mc_trans(1); if (k == hn - 1) check_net(B, &g, "after the last operation"); }
  if (!hn) check_net(B, &g, "start"); if (hn) { printed(B, &g); if (g.n1 > 1) projection(B, &g); } RemoveBipart(B); mc_traces(1); mc_outcome(mc_hash(&g, sizeof g)); (void)e; if (hn >= depth) return; for (int o = 0; o < 30; o++) { if (o > 1 && (o < 10 || o % 10 >= (o < 20 ? g.n1 : g.n2))) continue; H[hn++] = o; rec(depth); hn--; } }
static void hist(long arg) { int n1 = arg & 15, n2 = arg >> 4 & 15, d = arg >> 8 & 15, c = arg >> 12; for (unsigned m = c; m < 1u << (n1 * n2); m += 4) for (int w = 0; w < 2; w++) { if (mc_timeup()) { mc_capped("time"); return; } bg_mask(&G0, n1, n2, m); if (w) { strcpy(G0.l2[0], "A1"); for (int i = 0; i < n1; i++) for (int j = 0; j < n2; j++) if (G0.has[i][j]) G0.w[i][j] = WT[(i * n2 + j) % 10]; } mc_states(1); hn = 0; rec(d); } }
/* ---- projections ---- */
static void projection(struct binet *B, const BG *g) { int n = g->n1; static RG r[2], o; for (int v = 0; v < 2; v++) { rg_init(&r[v], n); for (int i = 0; i < n; i++) snprintf(r[v].lab[i], 16, "%s", g->l1[i]); } struct node_gra *x[BM], *p = B->net1; for (int i = 0; i < n; i++) x[i] = p = p->next; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { int c = 0; double s = 0; for (int t = 0; t < g->n2; t++) if (g->has[i][t] && g->has[j][t]) { c++; s += g->w[i][t] * g->w[j][t]; } int k = NCommonLinksBipart(x[i], x[j]); double q = SumProductsOfCommonWeightsBipart(x[i], x[j]); mc_trans(2); if (k != c) mc_fail("common", "nodes %d and %d have %d common neighbours instead of %d", i, j, k, c); if (!mc_close(q, s)) mc_fail("products", "nodes %d and %d: %g instead of %g", i, j, q, s); if (i < j && c) { rg_link(&r[0], i, j, c); rg_link(&r[1], i, j, s); } }
  for (int v = 0; v < 2; v++) { struct node_gra *q = v ? ProjectBipartWeighted(B) : ProjectBipart(B); mc_trans(1); const char *e = rg_read(q, &o); if (!e) e = rg_diff(&o, &r[v], 1); if (e) mc_fail(v ? "project-weighted" : "project", "%s", e); RemoveGraph(q); }
  const char *e = cmp(B, g, 1); if (e) mc_fail("project-changes", "the bipartite network changed: %s", e); }
static double part2(const double *k, int K, double s) { double p = 1; for (int m = 0; m < K; m++) p -= k[m] * k[m] / (s * s); return s ? p : 0; }
static int role(double P, double z) { if (z < 2.5) return P < 0.05 ? 1 : P < 0.62 ? 2 : P < 0.80 ? 3 : 4; return P < 0.30 ? 5 : P < 0.75 ? 6 : 7; }
/* the table of nodes, modules and roles */
static void table(struct binet *B, const BG *g, struct node_gra **x, const int *a) { int n = g->n1, K = 0; for (int i = 0; i < n; i++) if (a[i] >= K) K = a[i] + 1; for (int i = 0; i < n; i++) x[i]->inGroup = -1; struct group *pt = CreateHeaderGroup(), *gr[BM]; for (int k = 0; k < K; k++) gr[k] = CreateGroup(pt, k); for (int i = 0; i < n; i++) AddNodeToGroup(gr[a[i]], x[i]); for (int deg = 0; deg < 2; deg++) for (int wt = 0; wt < 2; wt++) { static double M[BM][BM]; for (int i = 0; i < n; i++) memset(M[i], 0, n * sizeof(double)); double P[BM], in[BM], z[BM]; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j) for (int t = 0; t < g->n2; t++) if (g->has[i][t] && g->has[j][t]) M[i][j] += deg || !wt ? 1 : g->w[i][t] * g->w[j][t]; if (deg) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) M[i][j] = M[i][j] > 0; for (int i = 0; i < n; i++) { double k[BM] = {0}, s = 0; for (int j = 0; j < n; j++) { k[a[j]] += M[i][j]; s += M[i][j]; } P[i] = part2(k, K, s); in[i] = k[a[i]]; } for (int i = 0; i < n; i++) { double m = 0, v = 0; int c = 0; for (int j = 0; j < n; j++) if (a[j] == a[i]) { m += in[j]; c++; } m /= c; for (int j = 0; j < n; j++) if (a[j] == a[i]) v += (in[j] - m) * (in[j] - m) / c; z[i] = v < 1e-18 ? 0 : (in[i] - m) / sqrt(v); }
    FILE *f = open_memstream(&text, &tl); FPrintTabNodesBipart(f, B, pt, deg, wt); fclose(f); mc_trans(1); char *sv = NULL, *l = strtok_r(text, "\n", &sv); int seen[BM] = {0}, c = 0; for (; l; l = strtok_r(NULL, "\n", &sv)) { char lb[60]; int k, ro; double pp, zz; if (sscanf(l, "%s %d R%d %lf %lf", lb, &k, &ro, &pp, &zz) != 5) { mc_fail("table", "line \"%s\"", l); break; } int i = bg_i1(g, lb); if (i < 0 || seen[i]++) { mc_fail("table", "node %s", lb); break; } c++; if (k != a[i] + 1) mc_fail("table", "node %s in module %d instead of %d", lb, k, a[i] + 1); if (fabs(pp - P[i]) > 2e-6 || fabs(zz - z[i]) > 2e-6) mc_fail("table", "node %s has P %g z %g instead of %g %g (degrees %d, weighted %d)", lb, pp, zz, P[i], z[i], deg, wt); int r0 = role(P[i] - 1e-9, z[i]), r1 = role(P[i] + 1e-9, z[i]); if (ro != r0 && ro != r1) mc_fail("table", "node %s has role %d instead of %d", lb, ro, r0); } if (c != n) mc_fail("table", "%d of %d nodes listed", c, n); free(text); for (int i = 0; i < n; i++) if (x[i]->inGroup != a[i]) mc_fail("table", "the modules are no longer mapped onto the network"); } RemovePartition(pt); }
/* the array form of the projection, from edge lists in four orders */
static void edgelist(const BG *b) { int n1 = b->n1, n2 = b->n2; double S3 = 0, SW = 0, s1[BM] = {0}; for (int j = 0; j < n2; j++) { double s = 0; int d = 0; for (int i = 0; i < n1; i++) if (b->has[i][j]) { d++; s += b->w[i][j]; s1[i] += b->w[i][j]; } SW += s; if (d) S3 += s * (s - s / d); }
    static unsigned ea[BM * BM], eb[BM * BM]; static double ew[BM * BM]; for (int v = 0; v < 4; v++) { int E = 0; for (int z = 0; z < n1 * n2; z++) { int zz = v & 1 ? n1 * n2 - 1 - z : z, i = v & 2 ? zz % n1 : zz / n2, j = v & 2 ? zz / n1 : zz % n2; if (b->has[i][j]) { ea[E] = i; eb[E] = j; ew[E] = b->w[i][j]; E++; } } int n = 0; for (int z = 0; z < E; z++) if ((int)ea[z] + 1 > n) n = ea[z] + 1; Partition *p; AdjaArray *adj; ProjectBipartEdgeList(ea, eb, ew, E, &p, &adj); mc_trans(1); for (int i = 0; i < n; i++) { if (!mc_close(p->nodes[i]->strength, s1[i] / SW)) mc_fail("array-strength", "strength of node %d is %g instead of %g", i, p->nodes[i]->strength, s1[i] / SW); char seen[BM] = {0}; for (unsigned z = adj->idx[i]; z < adj->idx[i + 1]; z++) { int j = adj->neighbors[z]; double w = 0; for (int t = 0; j < n && t < n2; t++) if (b->has[i][t] && b->has[j][t]) w += b->w[i][t] * b->w[j][t]; if (j >= n || j == i || !w || seen[j]) mc_fail("array-links", "neighbour %d of node %d", j, i); else if (!mc_close(adj->strength[z], w / S3)) mc_fail("array-links", "link %d-%d has strength %g instead of %g", i, j, adj->strength[z], w / S3); seen[j] = 1; } for (int j = 0; j < n; j++) if (j != i && !(seen[j])) for (int t = 0; t < n2; t++) if (b->has[i][t] && b->has[j][t]) { mc_fail("array-links", "link %d-%d missing", i, j); break; } } FreePartition(p); FreeAdjaArray(adj); } }
static void proj(long arg) { int n1 = arg & 15, n2 = arg >> 4 & 15, c = arg >> 8; unsigned long M = 1ul << (n1 * n2); for (unsigned long m = c; m < M; m += 8) for (int wt = 0; wt < 2; wt++) { if (mc_timeup()) { mc_capped("time"); return; } BG b; bg_mask(&b, n1, n2, m); if (wt) for (int i = 0; i < n1; i++) for (int j = 0; j < n2; j++) if (b.has[i][j]) b.w[i][j] = WT[(i * n2 + j * 3 + m) % 10]; mc_case("%s", bg_text(&b)); mc_states(1); mc_traces(1); struct node_gra *x[BM], *y[BM]; struct binet *B = bg_build(&b, x, y); projection(B, &b);
    if (n1 <= 4 && n1 * n2 <= 9) { int a[BM] = {0}; do table(B, &b, x, a); while (mc_next_rgs(a, n1)); }
    RemoveBipart(B); if (bg_links(&b)) edgelist(&b); } }
static void attributes(struct binet *B) { for (int s = 0; s < 2; s++) { int k = 0; for (struct node_gra *p = (s ? B->net2 : B->net1)->next; p; p = p->next, k++) { p->coorX = k + 0.5 + s; p->coorY = -k - 3 * s; p->coorZ = 0.25 * k; p->state = (k + s) % 3; p->inGroup = (k * 5 + s) % 4 - 1; p->ivar1 = 7 - k + s; p->dvar1 = 1.5 * k - s; } }
  struct binet *C = CopyBipart(B); mc_trans(1); for (int s = 0; s < 2; s++) { struct node_gra *p = (s ? B->net2 : B->net1)->next, *q = (s ? C->net2 : C->net1)->next; for (; p && q; p = p->next, q = q->next) if (strcmp(p->label, q->label) || p->num != q->num || p->coorX != q->coorX || p->coorY != q->coorY || p->coorZ != q->coorZ || p->state != q->state || p->inGroup != q->inGroup || p->ivar1 != q->ivar1 || p->dvar1 != q->dvar1) { mc_fail("copy-attributes", "node %s of set %d differs in the copy", p->label, s + 1); break; } if (!p != !q) mc_fail("copy-attributes", "set %d of the copy has another number of nodes", s + 1); } RemoveBipart(C); }
/* a copy carries everything that is stored in the nodes */
static void copies(long arg) { int n1 = arg & 15, n2 = arg >> 4 & 15; for (unsigned m = 0; m < 1u << (n1 * n2); m++) { BG b; struct node_gra *x[BM], *y[BM]; bg_mask(&b, n1, n2, m); struct binet *B = bg_build(&b, x, y); mc_case("copy of %s with attributes", bg_text(&b)); mc_states(1); mc_traces(1); attributes(B); RemoveBipart(B); } }
#ifndef LARGE
void large_register(void);
int main(int c, char **v) { char nm[60]; const char *e = getenv("VERIF_TIER"); th = e && !strcmp(e, "thorough"); large_register(); mc_section("copies-2-2", copies, 2 | 2 << 4); mc_section("copies-3-3", copies, 3 | 3 << 4); for (int k = 0; k < 8; k++) { sprintf(nm, "files-3-%d", k); mc_section(nm, files, 3 | 3 << 4 | k << 8 | 8 << 16); } for (int L = 1; L < 3; L++) { sprintf(nm, "files-%d", L); mc_section(nm, files, L | 3 << 4 | 1 << 16); } for (int k = 0; k < 8; k++) { sprintf(nm, "files-4-%d", k); mc_section(nm, files, 4 | (th ? 3 : 2) << 4 | k << 8 | 8 << 16); }
  static const int hs[][3] = {{1, 2, 4}, {2, 1, 4}, {2, 2, 4}, {3, 2, 3}, {2, 3, 3}, {3, 3, 2}}; for (int s = 0; s < 6; s++) for (int k = 0; k < 4; k++) { sprintf(nm, "history-%d-%d-%d", hs[s][0], hs[s][1], k); mc_section(nm, hist, hs[s][0] | hs[s][1] << 4 | (hs[s][2] + th) << 8 | k << 12); }
  static const int sz[][2] = {{2, 1}, {2, 2}, {3, 2}, {2, 3}, {3, 3}, {4, 2}, {4, 3}, {3, 4}, {5, 2}, {2, 5}, {5, 3}, {4, 4}}; for (int s = 0; s < (th ? 12 : 10); s++) for (int k = 0; k < 8; k++) { if (k >= 1 << (sz[s][0] * sz[s][1])) continue; sprintf(nm, "project-%d-%d-%d", sz[s][0], sz[s][1], k); mc_section(nm, proj, sz[s][0] | sz[s][1] << 4 | k << 8); } return mc_main(c, v); }
#endif
