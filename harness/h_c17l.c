/* C17 on larger networks: families of up to 130+100 nodes */
#define BM 160
#define HMAX 160
#define LARGE
#include "h_c17.c"
#include "famb.h"
static void wfam(BG *b, int f, int n1, int n2, int w) { fam(b, f, n1, n2); if (w) for (int i = 0; i < n1; i++) for (int j = 0; j < n2; j++) if (b->has[i][j]) b->w[i][j] = WT[(i * 3 + j * 7) % 10]; }
static void part_of(int *a, int n, int v) { for (int i = 0; i < n; i++) a[i] = v == 0 ? i % 5 : v == 1 ? i * 7 / n : v == 2 ? 0 : i; }
static int S[][2] = {{18, 20}, {40, 30}, {20, 66}, {66, 20}, {101, 12}, {12, 130}, {130, 101}};
static void big(long arg) { int n1 = S[arg >> 1][0], n2 = S[arg >> 1][1], w = arg & 1; static BG b; static struct node_gra *x[BM], *y[BM]; for (int f = 0; f < NF; f++) { if (mc_timeup()) { mc_capped("time"); return; } wfam(&b, f, n1, n2, w); if (n1 > 100 && bg_links(&b) > 1500) continue; mc_case("%s, %d+%d nodes, %sweighted", fam_name[f], n1, n2, w ? "" : "un"); mc_states(1); mc_traces(1); struct binet *B = bg_build(&b, x, y); check_net(B, &b, "built"); printed(B, &b); projection(B, &b); for (int v = 0; v < 4; v++) { int a[BM]; part_of(a, n1, v); if (v < 3 || n1 < 50) table(B, &b, x, a); } attributes(B); if (bg_links(&b)) edgelist(&b);
    /* a history: removals at both ends and in the middle of both sets, copies, exchanges of the sets */
    for (int k = 0; k < 8; k++) { int set = 1 + k / 2 % 2, n = set == 1 ? b.n1 : b.n2, q = k % 4 == 0 ? 0 : k % 4 == 1 ? n - 1 : k % 4 == 2 ? n / 2 : n / 3; char l[20]; strcpy(l, set == 1 ? b.l1[q] : b.l2[q]); mc_step(" remove %s of set %d", l, set); RemoveNodeBipart(B, l, set); removed(&b, set, q); mc_trans(1); check_net(B, &b, "after the removal"); if (k == 3) { mc_step(" copy"); struct binet *C = CopyBipart(B); RemoveBipart(B); B = C; check_net(B, &b, "copy"); } if (k == 5) { mc_step(" invert"); B = InvertBipart(B); swapped(&b); check_net(B, &b, "inverted"); } } projection(B, &b); RemoveBipart(B);
    /* the same network from a file, its lines in another order, some repeated, in both modes */
    for (int add = 0; add < 2; add++) { static BG g, h; wfam(&g, f, n1, n2, w); bg_init(&h, 0, 0); char *t = NULL; size_t tl; FILE *o = open_memstream(&t, &tl); int L = n1 * n2; for (int z = 0; z < L; z++) { int q = (int)((long)z * 7919 % L), i = q / n2, j = q % n2; if (L % 7919 == 0 || !g.has[i][j]) continue; int rep = 1 + (q % 5 == 0); for (int k = 0; k < rep; k++) { fprintf(o, "%s %s %g\n", g.l1[i], g.l2[j], g.w[i][j]); int p = bg_i1(&h, g.l1[i]), s = bg_i2(&h, g.l2[j]); if (p < 0) strcpy(h.l1[p = h.n1++], g.l1[i]); if (s < 0) strcpy(h.l2[s = h.n2++], g.l2[j]); if (!h.has[p][s]) { h.has[p][s] = 1; h.w[p][s] = g.w[i][j]; } else if (add) h.w[p][s] += g.w[i][j]; } } fclose(o); mc_step(" file, accumulate %d", add); o = mc_memfile(t); struct binet *C = FBuildNetworkBipart(o, 1, add); fclose(o); mc_trans(1); if (!C) mc_fail("read", "not read"); else { check_net(C, &h, "read"); RemoveBipart(C); } free(t); } } }
void large_register(void) { char nm[40]; for (int s = 6; s >= 0; s--) for (int w = 0; w < 2; w++) { sprintf(nm, "large-%d-%d-%d", S[s][0], S[s][1], w); mc_section(nm, big, s << 1 | w); } }
