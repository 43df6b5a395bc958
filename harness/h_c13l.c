/* C13 on larger networks: families of up to 257 nodes, bipartite families of up to 130+101 nodes, eight partitions each */
#define HMAX 260
#define BM 160
#define LARGE
#include "h_c13.c"
#include "famb.h"
static void visit(const RG *r, struct node_gra *net, struct node_gra **nl) { (void)r; (void)net; (void)nl; }
#include "en.h"
static int NS[] = {9, 16, 17, 33, 65, 100, 129, 200, 257};
static void lu(long arg) { static RG r; int n = NS[arg >> 1], w = arg & 1; for (int f = 0; f < 20; f++) { if (mc_timeup()) { mc_capped("time"); return; } en_fam(&r, f, n); long E = 0; for (int i = 0; i < n; i++) E += rg_deg(&r, i); if (n > 130 && E > 12 * n) continue; if (w) { int k = 0; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (r.has[i][j]) { r.w[i][j] = r.w[j][i] = WT[(k * 7 + f) % 10]; k++; } } one(&r, w); } }
static int S[][2] = {{6, 18}, {18, 6}, {17, 33}, {40, 30}, {20, 66}, {66, 20}, {101, 12}, {12, 130}, {130, 101}};
static void lb(long arg) { static BG b; int n1 = S[arg >> 1][0], n2 = S[arg >> 1][1], w = arg & 1; for (int f = 0; f < NF; f++) { if (mc_timeup()) { mc_capped("time"); return; } fam(&b, f, n1, n2); if (w) for (int i = 0; i < n1; i++) for (int j = 0; j < n2; j++) if (b.has[i][j]) b.w[i][j] = WT[(i * 3 + j * 7) % 10]; int L = bg_links(&b); if (!L || L > 3000) continue; /* the array projection has the nodes up to the last one with a link */ int last = 0; for (int j = 0; j < n2; j++) last |= b.has[n1 - 1][j]; if (!last) { b.has[n1 - 1][0] = 1; b.w[n1 - 1][0] = 1; } bone(&b, w); } }
void large_register(void) { char nm[40]; for (int s = 8; s >= 0; s--) for (int w = 0; w < 2; w++) { sprintf(nm, "families-%d-%d", NS[s], w); mc_section(strdup(nm), lu, s << 1 | w); sprintf(nm, "bip-families-%d-%d-%d", S[s][0], S[s][1], w); mc_section(strdup(nm), lb, s << 1 | w); } }
