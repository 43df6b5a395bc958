/* C14 on larger networks: histories on families of up to 129 nodes */
#define HMAX 130
#define NX 130
#define LARGE
#include "h_c14.c"
static void visit(const RG *r, struct node_gra *net, struct node_gra **nl) { (void)r; (void)net; (void)nl; }
#include "en.h"
static int NS[] = {9, 12, 17, 33, 65, 100, 129};
static Partition *P; static int nstep;
static void step(OP o) { mc_step(" %s(%d,%d,%d)", onm[o.k], o.a, o.b, o.c); apply(&P, o, 1); nstep++; }
static int where(int i) { return P->nodes[i]->module; }
static int find(int size, int from) { for (unsigned k = 0; k < P->M; k++) { int m = (k + from) % P->M; if (size ? P->modules[m]->size > 0 : P->modules[m]->size == 0) return m; } return -1; }
static void large(long arg) { int n = NS[arg >> 2], Mv = arg & 3; for (int f = 0; f < 20; f++) for (int pat = 0; pat < (n > 70 ? 2 : 6); pat++) { if (mc_timeup()) { mc_capped("time"); return; } en_fam(&R, f, n); if (f % 2) { int k = 0; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (R.has[i][j]) { R.w[i][j] = R.w[j][i] = WT[(k * 3 + f) % 10]; k++; } } int any = 0; for (int i = 0; i < n; i++) any += rg_deg(&R, i); if (!any) continue; setup();
    int M = Mv == 0 ? n : Mv == 1 ? 2 : Mv == 2 ? n / 3 : n - 1; mc_case("family %d on %d nodes, %d modules, pattern %d:", f, n, M, pat); P = start(M); const char *e = pt_check(P, NULL); if (e) mc_fail("start", "%s", e); mc_states(1); nstep = 0; int len = n > 70 ? 40 : 90, x = 17 * f + 5 * pat + 1;
    for (int t = 0; t < len; t++) { x = (x * 73 + 41) % 10007; int M = P->M; if (M < 2) break; switch ((x + t * (pat + 1)) % 9) {
      case 0: case 1: { int u = x % n, m = (x / 7) % M; if (m == where(u)) m = (m + 1) % M; step((OP){MOVE, u, m, 0}); break; }
      case 2: { int m = find(1, x % M); Node *q = t % 2 ? P->modules[m]->first : P->modules[m]->last; int to = (m + 1 + x % (M - 1)) % M; step((OP){MOVE, q->id, to, 0}); break; }                              /* an end of a list */
      case 3: { int m = find(1, x % M), u = P->modules[m]->first->id, h = find(0, x % M); if (h >= 0) step((OP){MOVE, u, h, 0}); break; }                                                                /* into an empty module */
      case 4: case 5: { int p = find(1, x % M), q = find(1, (p + 1) % M); if (p != q) step((OP){MERGE, t % 2 ? p : q, t % 2 ? q : p, 0}); break; }
      case 6: { int h = find(0, x % M), q = 0; for (int k = 0; k < M; k++) if (P->modules[k]->size > P->modules[q]->size) q = k; if (h >= 0) step((OP){SPLIT, q, h, x}); break; }
      case 7: step((OP){COPY}); break; case 8: if (t > len / 2 && pat % 2) step((OP){COMPRESS}); break; } }
    step((OP){COMPRESS}); step((OP){COPY}); if (P->M > 1) step((OP){MOVE, 0, where(0) ? 0 : 1, 0}); mc_traces(1); mc_outcome(f * 7 + pat + P->M * 31); FreePartition(P); FreeAdjaArray(adj); } }
/* splitting a module with many components, in one and in the other order of draws */
static void splits(long n) { for (int f = 0; f < 20; f++) for (int cut = 0; cut < 4; cut++) { if (mc_timeup()) { mc_capped("time"); return; } en_fam(&R, f, n); int any = 0; for (int i = 0; i < n; i++) any += rg_deg(&R, i); if (!any) continue; setup(); for (int b = 0; b < 6; b++) { mc_case("family %d on %ld nodes, cut %d, draws %d", f, n, cut, b); P = CreatePartition(n, n); adj = CreateAdjaArray(n, E.E); EdgeListToAdjaArray((int *)E.a, (int *)E.b, E.w, adj, P, 1); for (int i = 0; i < n; i++) put(P, cut == 0 ? 0 : cut == 1 ? i % 2 : cut == 2 ? i >= n / 2 : i % 7 == 3, i); step((OP){SPLIT, 0, (int)n - 1, b == 0 ? 0 : b == 1 ? 0x3fffffff : b == 2 ? 1 : b == 3 ? 0x2aaaaaaa : b == 4 ? 0x15555555 : 0x0ff00ff0}); step((OP){MERGE, 0, (int)n - 1, 0}); mc_states(1); mc_traces(1); FreePartition(P); FreeAdjaArray(adj); } } }
void large_register(void) { char nm[40]; for (int s = 6; s >= 0; s--) for (int m = 0; m < 4; m++) { sprintf(nm, "families-%d-%d", NS[s], m); mc_section(strdup(nm), large, s << 2 | m); } for (int s = 0; s < 7; s++) { sprintf(nm, "splits-%d", NS[s]); mc_section(strdup(nm), splits, NS[s]); } }
