/* C16 on larger networks: families of up to 257 nodes with several partitions, hubs with up to 200 leaves */
#define HMAX 260
#define BM 16
#define LARGE
#include "h_c16.c"
static void visit(const RG *r, struct node_gra *net, struct node_gra **nl) { (void)r; (void)net; (void)nl; }
#include "en.h"
static int NS[] = {9, 16, 33, 65, 100, 129, 200, 257};
static void fams(long arg) { static RG r; int n = NS[arg >> 1], w = arg & 1; for (int f = 0; f < 20; f++) { if (mc_timeup()) { mc_capped("time"); return; } en_fam(&r, f, n); long E = 0; for (int i = 0; i < n; i++) E += rg_deg(&r, i); if (n > 130 && E > 12 * n) continue; if (w) { int k = 0; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (r.has[i][j]) { r.w[i][j] = r.w[j][i] = WT[f % 3][(k * 7 + f) % 10]; k++; } } mc_states(1);
    for (int v = 0; v < 7; v++) { int a[HMAX]; for (int i = 0; i < n; i++) a[i] = v == 0 ? 0 : v == 1 ? i % 3 : v == 2 ? (int)((long)i * 7 / n) : v == 3 ? i : v == 4 ? i >= n / 2 : v == 5 ? i % (n / 3) : i == n - 1; one(&r, a, w, v == 3 || v == 5 ? 1 : 2); } } }
/* a hub in a module of k leaves with links into m further modules of s nodes each */
static void hub(long k) { static RG r; for (int m = 0; m <= 40; m = m < 6 ? m + 1 : m * 3 / 2) for (int s = 1; s <= 8; s += s < 3 ? 1 : 5) { if (mc_timeup()) { mc_capped("time"); return; } int n = 1 + k + m * s; if (n > HMAX - 2) continue; for (int w = 0; w < 2; w++) { rg_init(&r, n); int a[HMAX]; a[0] = 0; for (int i = 1; i <= k; i++) { rg_link(&r, 0, i, 1); a[i] = 0; if (i > 1 && i % 3 == 0) rg_link(&r, i, i - 1, 1); } int x = k + 1; for (int g = 0; g < m; g++) for (int i = 0; i < s; i++, x++) { a[x] = g + 1; if (i <= g % 3) rg_link(&r, 0, x, w ? 0.1 * (g % 4 + 1) : 1); if (i) rg_link(&r, x, x - 1, 1); } one(&r, a, w, 1); mc_states(1); } } }
void large_register(void) { char nm[40]; for (int s = 7; s >= 0; s--) for (int w = 0; w < 2; w++) { sprintf(nm, "families-%d-%d", NS[s], w); mc_section(strdup(nm), fams, s << 1 | w); } static const int K[] = {20, 64, 101, 130, 200}; for (int i = 0; i < 5; i++) { sprintf(nm, "hub-%d", K[i]); mc_section(strdup(nm), hub, K[i]); } }
