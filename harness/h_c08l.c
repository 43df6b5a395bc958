/* the same visit on larger networks, and networks with more than 2^31 shortest paths between two nodes */
#define HMAX 260
#define EN_LARGE
#define OWN_REGISTER
#include "h_c08.c"
/* f 0: chain of s diamonds of m branches; 1: m by s grid; 2: s layers of m nodes, consecutive layers completely linked */
static void paths(long arg) { int f = arg & 3, m = arg >> 2 & 63, s = arg >> 8; static RG r; int n = f == 0 ? 1 + s * (m + 1) : m * s; if (n > HMAX - 2) return; mc_case("%s %d by %d", f == 0 ? "chain of diamonds" : f == 1 ? "grid" : "layers", m, s); mc_states(1); rg_init(&r, n);
  if (f == 0) for (int i = 0; i < s; i++) for (int b = 1; b <= m; b++) { rg_link(&r, i * (m + 1), i * (m + 1) + b, 1); rg_link(&r, i * (m + 1) + b, (i + 1) * (m + 1), 1); } else for (int i = 0; i < s; i++) for (int j = 0; j < m; j++) { if (f == 1) { if (j + 1 < m) rg_link(&r, i * m + j, i * m + j + 1, 1); if (i + 1 < s) rg_link(&r, i * m + j, i * m + m + j, 1); } else if (i + 1 < s) for (int k = 0; k < m; k++) rg_link(&r, i * m + j, i * m + m + k, 1); }
  struct node_gra *nl[HMAX], *net = rg_build(&r, nl); visit(&r, net, nl); RemoveGraph(net); mc_traces(1); }
void large_register(void) { static const int P[][3] = {{0, 2, 10}, {0, 2, 20}, {0, 2, 31}, {0, 2, 32}, {0, 2, 33}, {0, 2, 50}, {0, 2, 80}, {0, 3, 21}, {0, 5, 20}, {0, 7, 30}, {1, 5, 10}, {1, 12, 20}, {1, 16, 16}, {2, 2, 40}, {2, 4, 18}, {2, 5, 40}, {2, 10, 12}, {2, 3, 80}}; char nm[40]; for (int i = 0; i < (int)(sizeof P / sizeof *P); i++) { sprintf(nm, "many-paths-%d-%d-%d", P[i][0], P[i][1], P[i][2]); mc_section(strdup(nm), paths, P[i][0] | P[i][1] << 2 | (long)P[i][2] << 8); } en_register_large(); }
