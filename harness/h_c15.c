/* C15: module identification under every explored sequence of random draws. The optimizer's structure is inspected after
   every move it makes (link-time wrappers around the public operations). */
#define HMAX 42
#include "aa.h"
#include "sannealing.h"
/* modules.h has no clashing names with partition.h except the typedefs it does not use */
#include "modules.h"
struct group *SACommunityIdent(struct node_gra *net, double Ti, double Tf, double Ts, double fac, int ngroup, char initial_sw, int collective_sw, char output_sw, gsl_rng *gen);
struct group *SAGroupSplit(struct group *targ, double Ti, double Tf, double Ts, int cluster_sw, gsl_rng *gen);
static RG R; static EL E; static double NW[HMAX][HMAX], K[HMAX]; static int projected; static unsigned pea[400], peb[400]; static double pew[400]; static int pE;
/* ---- observation of the annealing ---- */
static int watch, cur_freed; static Partition *cur; static double lastM; static const char *bad; static long moves;
static double modp(Partition *p) { double q = 0; for (unsigned i = 0; i < p->N; i++) for (unsigned j = 0; j < p->N; j++) if (i != j && p->nodes[i]->module == p->nodes[j]->module) q += NW[i][j] - K[i] * K[j]; return q; }
static void seen(Partition *p) { cur = p; cur_freed = 0; moves++; const char *e = pt_check(p, NULL); if (e && !bad) bad = e; lastM = modp(p); }
void __real_ChangeModule(unsigned n, unsigned m, Partition *p); void __wrap_ChangeModule(unsigned n, unsigned m, Partition *p) { if (watch && (n >= p->N || m >= p->M)) { if (!bad) bad = "move outside the tables"; return; } __real_ChangeModule(n, m, p); if (watch) seen(p); }
void __real_MergeModules(unsigned a, unsigned b, Partition *p); void __wrap_MergeModules(unsigned a, unsigned b, Partition *p) { __real_MergeModules(a, b, p); if (watch) seen(p); }
unsigned __real_SplitModuleByComponent(unsigned a, unsigned b, Partition *p, AdjaArray *j, gsl_rng *g); unsigned __wrap_SplitModuleByComponent(unsigned a, unsigned b, Partition *p, AdjaArray *j, gsl_rng *g) { unsigned r = __real_SplitModuleByComponent(a, b, p, j, g); if (watch) seen(p); return r; }
Partition *__real_CopyPartitionStruct(Partition *p); Partition *__wrap_CopyPartitionStruct(Partition *p) { Partition *c = __real_CopyPartitionStruct(p); if (watch && cur_freed) seen(c); return c; }
void __real_FreePartition(Partition *p); void __wrap_FreePartition(Partition *p) { if (watch && p == cur) { cur_freed = 1; lastM = modp(p); } __real_FreePartition(p); }
/* ---- the adjacency-array optimizer ---- */
typedef struct { const char *nm; double Ti, Tf, Ts, fac, pc; unsigned lim; int cold; } CF;
static const CF cf[] = {{"hot short", 1, 0.3, 0.5, 0.3, 0.5, 3, 0}, {"components", 0.5, 0.2, 0.6, 0, 1, 2, 0}, {"nested", 0.5, 0.2, 0.6, 0.1, 0, 2, 0}, {"cold", 1e-9, 1e-11, 0.2, 0.4, 0.5, 2, 1}, {"freezing", 0.2, 1e-9, 0.01, 0.3, 0.5, 1, 0}, {"no iterations", 0.1, 0.1, 0.5, 1, 0.5, 2, 1}, {"netcarto", 0, 1e-200, 0.97, 1, 0.5, 25, 0}, {"one temperature", 0.3, 0.1, 0, 0.3, 0.5, 25, 0}, {"netcarto to 1e-6", 0, 1e-6, 0.97, 1, 0.5, 25, 0}};
static const CF *C; static int M0; static int lastA[HMAX];
static void body(void *x) { int n, M; Partition *p; AdjaArray *adj; (void)x;
  if (projected) { ProjectBipartEdgeList(pea, peb, pew, pE, &p, &adj); n = p->N; M = n; } else { n = R.n; M = M0; p = CreatePartition(n, M); adj = CreateAdjaArray(n, E.E); EdgeListToAdjaArray((int *)E.a, (int *)E.b, E.w, adj, p, 1); }
  for (int i = 0; i < n; i++) { K[i] = p->nodes[i]->strength; for (int j = 0; j < n; j++) NW[i][j] = 0; for (unsigned z = adj->idx[i]; z < adj->idx[i + 1]; z++) NW[i][adj->neighbors[z]] = adj->strength[z]; }
  AssignNodesToModules(p, mc_rng()); const char *e = pt_check(p, NULL); if (e) mc_fail("assign", "%s", e); double m0 = modp(p); bad = NULL; moves = 0; cur = p; cur_freed = 0; lastM = m0; watch = 1; unsigned rc = GeneralSA(&p, adj, C->fac, C->Ti ? C->Ti : 1.0 / n, C->Tf, C->Ts, C->pc, C->lim, mc_rng()); watch = 0; mc_trans(moves);
  if (bad) mc_fail("structure-during", "during the annealing: %s", bad); if (rc) mc_fail("return", "returned %u", rc); if (!p) { mc_fail("no-partition", "no partition returned after %ld moves", moves); FreeAdjaArray(adj); return; }
  e = pt_check(p, NULL); if (e) mc_fail("structure", "returned partition: %s", e); if (p->N != (unsigned)n || p->M != (unsigned)M) mc_fail("structure", "returned partition has %u nodes, %u modules", p->N, p->M); double m1 = modp(p); if (m1 < lastM - 1e-9) mc_fail("worse-than-final", "the returned partition has modularity %.9g, the annealing ended in %.9g", m1, lastM); if (C->cold && m1 < m0 - 1e-9) mc_fail("cold-decrease", "modularity decreased from %.9g to %.9g without temperature", m0, m1);
  int a[HMAX]; for (int i = 0; i < n; i++) a[i] = p->nodes[i]->module; CompressPartition(p); e = pt_check(p, NULL); if (e || p->nempty) mc_fail("compress", "after compression: %s", e ? e : "empty modules"); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if ((a[i] == a[j]) != (p->nodes[i]->module == p->nodes[j]->module)) mc_fail("compress", "compression changed the partition"); mc_outcome(mc_hash(a, n * sizeof(int))); memcpy(lastA, a, sizeof lastA); FreePartition(p); FreeAdjaArray(adj); }
static const double AL[] = {1e-9, 0.26, 0.49, 0.51, 0.76, 0.999};
static const double WT[10] = {1, 2, 0.5, 3, 1, 0.25, 2, 5, 1, 4};
static const struct { int n; unsigned m; int w; } NT[] = {{2, 1, 0}, {3, 3, 0}, {3, 7, 1}, {4, 33, 0}, {4, 13, 0}, {4, 63, 0}, {4, 30, 1}, {5, 0x211, 0}, {5, 0x289, 1}, {6, 0x440b, 0}, {1, 0, 0}, {4, 3, 0}};
static void setnet(int k) { projected = 0; if (NT[k].n == 6) { rg_init(&R, 6); for (int i = 0; i < 3; i++) for (int j = 0; j < i; j++) { rg_link(&R, i, j, 1); rg_link(&R, i + 3, j + 3, 1); } rg_link(&R, 2, 3, 1); } else rg_mask(&R, NT[k].n, NT[k].m); int q = 0; if (NT[k].w) for (int i = 0; i < R.n; i++) for (int j = i + 1; j < R.n; j++, q++) if (R.has[i][j]) R.w[i][j] = R.w[j][i] = WT[(q * 3 + 1) % 10]; el_from(&E, &R, 0); M0 = R.n; }
static void run(int depth, int dev, int horizon, int seeds) { for (int s = 1; s <= seeds; s++) { if (mc_timeup()) { mc_capped("time"); return; } mc_rc = (mc_rngcfg){depth, dev, horizon, 6, AL, R.n > 6 || C == &cf[8] ? 4000000 : 400000, (unsigned)s}; mc_case("%s, %d modules, %s (Ti %g Tf %g cooling %g factor %g components %g limit %u), stream %d", projected ? "bipartite projection" : rg_text(&R), projected ? 0 : M0, C->nm, C->Ti, C->Tf, C->Ts, C->fac, C->pc, C->lim, s); mc_states(1); mc_dfs(body, NULL);
    if (s == 1) { int a[HMAX], b[HMAX]; memset(lastA, 0, sizeof lastA); mc_rc.free_depth = mc_rc.max_dev = 0; mc_dfs(body, NULL); memcpy(a, lastA, sizeof a); mc_dfs(body, NULL); memcpy(b, lastA, sizeof b); if (memcmp(a, b, sizeof a)) mc_fail("not-reproducible", "the same random stream gives different partitions"); } } }
static int th;
static void arr(long arg) { int k = arg & 31, c = arg >> 5 & 31; setnet(k); C = &cf[c]; int full = c == 6; run(th ? 2 : 1, full ? 0 : 1, th ? 400 : 150, full ? th ? 10 : 3 : th ? 20 : 2); if (!full) { int big = th ? 2 : R.n <= 4; if (big == 2 || (big && c < 3)) run(0, 2, th ? 60 : 12, 1); } else run(0, 1, th ? 60 : 20, th ? 2 : 1); if (R.n > 3) { M0 = 3; run(th ? 2 : 1, full ? 0 : 1, th ? 200 : 80, th ? 2 : 1); } if (R.n > 1) { M0 = 1; run(1, 0, 0, 1); } }
static void arrp(long arg) { int c = arg & 31, w = arg >> 5; projected = 1; static const unsigned a[] = {0, 1, 0, 2, 1, 3, 2, 3, 4, 4}, b[] = {0, 0, 1, 1, 2, 2, 3, 3, 3, 0}; pE = 10; for (int i = 0; i < pE; i++) { pea[i] = a[i]; peb[i] = b[i]; pew[i] = w ? WT[i] : 1; } C = &cf[c]; int full = c == 6; run(th ? 2 : 1, full ? 0 : 1, th ? 300 : 120, th ? full ? 6 : 4 : 1); }
/* ---- the legacy optimizer ---- */
typedef struct { double Ti, Tf, Ts, fac; int ng; char ini; int coll; char out; int cold; } LC;
static const LC lc[] = {{1, 0.4, 0.6, 0, 0, 'o', 1, 'n', 0}, {0.3, 0.1, 0.5, 0.2, 3, 'r', 1, 'n', 0}, {1e-9, 1e-11, 0.2, 0.3, 0, 'o', 1, 'n', 1}, {1e-9, 1e-10, 0.2, 0.3, 0, 'r', 1, 'm', 1}, {0.5, 0.2, 0.6, 0.2, 2, 'r', 0, 'n', 0}, {0.5, 0.5, 0.6, 0.2, 2, 'r', 1, 'n', 1}, {0.4, 0.2, 0.7, 0, 0, 'o', 1, 'v', 0}, {0.4, 0.2, 0.7, 0, 0, 'o', 1, 's', 0}, {0.4, 0.2, 0.7, 0, 0, 'r', 1, 'b', 0}, {0.5, 1e-3, 0.3, 0, 0, 'o', 1, 'n', 0}, {0.5, 0.2, 0.7, 0, 1, 'r', 1, 'n', 0}};
static const LC *L;
static void grp(struct group *part, struct node_gra **nl, int *a) { int n = R.n; for (int i = 0; i < n; i++) a[i] = -1; struct group *g = part; int tot = 0; while ((g = g->next)) { int c = 0; struct node_lis *p = g->nodeList; if (!g->size) mc_fail("legacy-partition", "empty group returned"); while ((p = p->next)) { int i = rg_idx(&R, p->nodeLabel); if (i < 0 || a[i] >= 0) { mc_fail("legacy-partition", "node %s listed twice or unknown", p->nodeLabel); return; } a[i] = g->label; if (p->ref != nl[i] || p->node != i) mc_fail("legacy-partition", "node reference of %s", p->nodeLabel); if (nl[i]->inGroup != g->label) mc_fail("legacy-partition", "node %s is in group %d but marked %d", p->nodeLabel, g->label, nl[i]->inGroup); c++; tot++; } if (c != g->size) mc_fail("legacy-partition", "group %d has size %d, lists %d", g->label, g->size, c); } if (tot != n) mc_fail("legacy-partition", "%d of %d nodes in the partition", tot, n);
  g = part; while ((g = g->next)) { int in = 0, out = 0; for (int i = 0; i < n; i++) if (a[i] == g->label) for (int j = 0; j < n; j++) if (R.has[i][j]) { if (a[j] == g->label) in++; else out++; } if (g->inlinks != in / 2 || g->outlinks != out || g->totlinks != in / 2 + out) mc_fail("legacy-counts", "group %d has in/out/tot %d/%d/%d instead of %d/%d/%d", g->label, g->inlinks, g->outlinks, g->totlinks, in / 2, out, in / 2 + out); } }
static double modu(const int *a) { double q = 0, L2 = 0; int d[HMAX]; for (int i = 0; i < R.n; i++) { d[i] = rg_deg(&R, i); L2 += d[i]; } for (int i = 0; i < R.n; i++) for (int j = 0; j < R.n; j++) if (a[i] == a[j]) q += R.has[i][j] / L2 - d[i] * d[j] / (L2 * L2); return q; }
static void lbody(void *x) { (void)x; struct node_gra *nl[HMAX], *net = rg_build(&R, nl); int ng = L->ng; int tot0 = mc_ndraws(); struct group *p = SACommunityIdent(net, L->Ti, L->Tf, L->Ts, L->fac, ng, L->ini, L->coll, L->out, mc_rng()); mc_trans(mc_ndraws() - tot0); int a[HMAX]; grp(p, nl, a); if (ng && L->ini == 'r' && NGroups(p) > ng) mc_fail("legacy-partition", "%d groups, at most %d were allowed", NGroups(p), ng);
  if (L->cold && L->ini == 'o') { int o[HMAX]; for (int i = 0; i < R.n; i++) o[i] = i; double q0 = modu(o), q1 = modu(a); if (q1 < q0 - 1e-9) mc_fail("cold-decrease", "modularity decreased from %.9g to %.9g without temperature", q0, q1); }
  RG got; const char *e = rg_read(net, &got); if (!e) e = rg_diff(&R, &got, 1); if (e) mc_fail("legacy-network", "network changed: %s", e); mc_outcome(mc_hash(a, R.n * sizeof(int))); memcpy(lastA, a, sizeof lastA); RemovePartition(p); RemoveGraph(net); unlink("part.tmp"); }
static void legacy(long arg) { int k = arg & 31, c = arg >> 5; setnet(k); if (!E.E && R.n > 1) return; L = &lc[c]; if (!E.E && L->ini == 'r' && L->ng > 1) return; mc_rc.alpha = AL; for (int s = 1; s <= (th ? 10 : 1); s++) { if (mc_timeup()) { mc_capped("time"); return; } mc_rc = (mc_rngcfg){th ? 2 : 1, 1, th ? 300 : 70, 6, AL, 400000, (unsigned)s}; mc_case("legacy: %s, Ti %g Tf %g cooling %g factor %g, %d groups, start %c, collective %d, stream %d", rg_text(&R), L->Ti, L->Tf, L->Ts, L->fac, L->ng, L->ini, L->coll, s); mc_states(1); mc_dfs(lbody, NULL); if (s == 1) { int a[HMAX]; mc_rc.free_depth = mc_rc.max_dev = 0; mc_dfs(lbody, NULL); memcpy(a, lastA, sizeof a); mc_dfs(lbody, NULL); if (memcmp(a, lastA, sizeof a)) mc_fail("not-reproducible", "the same random stream gives different partitions"); } } }
/* splitting one group */
static int smask, sclus; static double sT;
static void sbody(void *x) { (void)x; struct node_gra *nl[HMAX], *net = rg_build(&R, nl); struct group *part = CreateHeaderGroup(), *g = CreateGroup(part, 0), *h = CreateGroup(part, 1); for (int i = 0; i < R.n; i++) AddNodeToGroup((smask >> i & 1) ? g : h, nl[i]); struct group *s = SAGroupSplit(g, 0.5, sT, 0.95, sclus, mc_rng()), *q = s; mc_trans(1); int k = 0, a[HMAX]; for (int i = 0; i < R.n; i++) a[i] = -1; while ((q = q->next)) { struct node_lis *p = q->nodeList; int c = 0; while ((p = p->next)) { int i = rg_idx(&R, p->nodeLabel); if (i < 0 || !(smask >> i & 1) || a[i] >= 0) mc_fail("split", "node %s unexpected", p->nodeLabel); else a[i] = k; c++; } if (c != q->size) mc_fail("split", "size"); k++; } if (k < 1 || k > 2) mc_fail("split", "split into %d groups", k); for (int i = 0; i < R.n; i++) if ((smask >> i & 1) && a[i] < 0) mc_fail("split", "node %s lost", R.lab[i]); for (int i = 0; i < R.n; i++) { int w = (smask >> i & 1) ? 0 : 1; if (nl[i]->inGroup != w) mc_fail("split", "the network's own groups changed"); } if (g->size != __builtin_popcount(smask)) mc_fail("split", "group changed"); mc_outcome(mc_hash(a, R.n * sizeof(int))); RemovePartition(s); RemovePartition(part); RemoveGraph(net); }
static void lsplit(long arg) { int n = arg & 15, part = arg >> 4; for (unsigned m = 0; m < 1u << (n * (n - 1) / 2); m++) { if ((m & 3) != part) continue; rg_mask(&R, n, m); for (smask = 1; smask < 1 << n; smask++) { if (n > 3 && smask != (1 << n) - 1 && __builtin_popcount(smask) != n - 1) continue; for (sclus = 0; sclus < 2; sclus++) for (int t = 0; t < 2; t++) { if (mc_timeup()) { mc_capped("time"); return; } sT = t ? 0.44 : 0.5; mc_case("split of nodes %x of %s, clusters %d", smask, rg_text(&R), sclus); mc_rc = (mc_rngcfg){n > 3 ? th ? 3 : 2 : th ? 4 : 3, 1, th ? 60 : 15, 6, AL, 10000, 1}; mc_states(1); mc_dfs(sbody, NULL); } } } }
static void visit(const RG *r, struct node_gra *net, struct node_gra **nl) { (void)r; (void)net; (void)nl; }
#include "en.h"
/* larger networks: complete runs of both optimizers with a few streams */
static int fset(int f, int n, int w) { projected = 0; en_fam(&R, f, n); int q = 0; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (R.has[i][j]) q++; if (!q || q > 390) return 0; q = 0; if (w) for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (R.has[i][j]) R.w[i][j] = R.w[j][i] = WT[q++ * 3 % 10]; el_from(&E, &R, 0); M0 = n; return 1; }
static void famarr(long arg) { int n = arg & 63, c = arg >> 6; C = &cf[c == 6 ? 8 : c]; if (c == 6 && n > 20 && !th) return; for (int f = 0; f < 20; f++) { if (!fset(f, n, f % 2)) continue; run(0, 0, 0, th ? 5 : 2); if (f % 3 == 0) { M0 = f % 2 ? n - 1 : n / 4; run(0, 0, 0, 1); } } }
static void famleg(long arg) { int n = arg & 63, c = arg >> 6; L = &lc[c]; for (int f = 0; f < 20; f++) { if (!fset(f, n, f % 2)) continue; for (int s = 1; s <= (th ? 3 : 1); s++) { if (mc_timeup()) { mc_capped("time"); return; } mc_rc = (mc_rngcfg){0, 0, 0, 6, AL, 4000000, (unsigned)s}; mc_case("legacy: family %d on %d nodes, Ti %g Tf %g cooling %g factor %g, %d groups, start %c, collective %d, stream %d", f, n, L->Ti, L->Tf, L->Ts, L->fac, L->ng, L->ini, L->coll, s); mc_states(1); mc_dfs(lbody, NULL); mc_traces(1); } } }
/* the projection of a bipartite network with two hubs */
static void famproj(long arg) { int c = arg & 31, n = arg >> 5; projected = 1; pE = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (j == i || (j == i + 1) || (j == 3 && i % 4 == 0)) { pea[pE] = i; peb[pE] = j; pew[pE] = WT[(i + j) % 10]; pE++; } C = &cf[c == 6 ? 8 : c]; if (c == 6 && n > 20 && !th) return; run(0, 0, 0, 2); }
int main(int c, char **v) { char nm[60]; const char *e = getenv("VERIF_TIER"); th = e && !strcmp(e, "thorough"); static const int NS[] = {30, 17, 9}; for (int i = 0; i < 3; i++) for (int q = 0; q < 11; q++) { int n = th && i == 0 ? 41 : NS[i]; if (q < 8) { sprintf(nm, "array-families-%d-cfg%d", n, q); mc_section(strdup(nm), famarr, n | q << 6); sprintf(nm, "projected-family-%d-cfg%d", n, q); mc_section(strdup(nm), famproj, q | n << 5); } sprintf(nm, "legacy-families-%d-cfg%d", n, q); mc_section(strdup(nm), famleg, n | q << 6); } for (int k = 0; k < 8; k++) { sprintf(nm, "group-split-%d-%d", k & 1 ? 3 : 4, k / 2); mc_section(strdup(nm), lsplit, (k & 1 ? 3 : 4) | (k / 2) << 4); } for (int q = 0; q < 8; q++) for (int k = 0; k < 12; k++) { sprintf(nm, "array-net%d-cfg%d", k, q); if (NT[k].n > 1 || q < 8) mc_section(strdup(nm), arr, k | q << 5); } for (int q = 0; q < 8; q++) for (int w = 0; w < 2; w++) { sprintf(nm, "projected-%d-%d", q, w); mc_section(strdup(nm), arrp, q | w << 5); }
  for (int q = 0; q < 11; q++) for (int k = 0; k < 12; k++) { sprintf(nm, "legacy-net%d-cfg%d", k, q); mc_section(strdup(nm), legacy, k | q << 5); } return mc_main(c, v); }
