/* C26 on larger networks: matrices up to 129 nodes, spectra up to 65, sums and comparisons of families of up to 129 nodes whose
   label sets overlap in part */
#define HMAX 260
#define EN_LARGE
#define EN_SIZES 65
#include "h_c26.c"
static void mats(long n) { static RG r; for (int f = 0; f < 20; f++) { if (mc_timeup()) { mc_capped("time"); return; } en_fam(&r, f, n); mc_case("family %d of %ld nodes", f, n); struct node_gra *net = rg_build(&r, NULL); int **A = AdjacencyMat(net), **L = LaplacianMat(net); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { if (A[i][j] != r.has[i][j]) { mc_fail("AdjacencyMat", "entry %d,%d is %d", i, j, A[i][j]); i = j = n; break; } int w = i == j ? rg_deg(&r, i) : -r.has[i][j]; if (L[i][j] != w) { mc_fail("LaplacianMat", "entry %d,%d is %d instead of %d", i, j, L[i][j], w); i = j = n; break; } } free_i_mat(A, n); free_i_mat(L, n); RemoveGraph(net); mc_states(1); mc_traces(1); mc_trans(2); } }
static void relab(RG *g, int off, int step) { for (int i = 0; i < g->n; i++) sprintf(g->lab[i], "%d", (off + i * step) % 997); }
static void sums(long n) { static RG a, b; for (int f = 0; f < 20; f++) for (int v = 0; v < 4; v++) { if (mc_timeup()) { mc_capped("time"); return; } en_fam(&a, f, n); en_fam(&b, (f * 3 + v) % 20, n - 7 * v); relab(&a, 0, 1); relab(&b, v == 0 ? 0 : v == 1 ? n / 2 : v == 2 ? 500 : 3, v == 3 ? 2 : 1); pair(&a, &b, 1); } }
void large_register(void) { char b[40]; en_register_large(); static const int S[] = {65, 101, 129, 257}; for (int i = 0; i < 4; i++) { sprintf(b, "matrices-%d", S[i]); mc_section(b, mats, S[i]); if (i < 3) { sprintf(b, "large-pairs-%d", S[i]); mc_section(b, sums, S[i]); } } }
