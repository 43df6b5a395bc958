/* C14: the optimizer's partition structure. Explicit-state search over all reachable arrangements under all operations;
   predicted energy changes against modularity recomputed from the definition. */
#ifndef LARGE
#define HMAX 8
#define NX 8
#endif
#include "aa.h"
typedef struct { int n, M, len[NX], l[NX][NX]; } ST;   /* concrete member lists, in list order */
typedef struct { int k, a, b, c; } OP;
enum { MOVE, MERGE, SPLIT, COMPRESS, COPY };
static const char *onm[] = {"move", "merge", "split-components", "compress", "copy"};
static RG R; static EL E; static AdjaArray *adj; static int bylist = 1;
static double NW[NX][NX], K[NX];
static const char *rd(Partition *p, ST *s) { const char *e = pt_check(p, NULL); if (e) return e; memset(s, 0, sizeof *s); s->n = p->N; s->M = p->M; for (unsigned k = 0; k < p->M; k++) for (Node *q = p->modules[k]->first; q; q = q->next) s->l[k][s->len[k]++] = q->id; return NULL; }
static void asg(const ST *s, int *a) { for (int k = 0; k < s->M; k++) for (int i = 0; i < s->len[k]; i++) a[s->l[k][i]] = k; }
static uint64_t key(const ST *s) { if (bylist) return mc_hash(s, sizeof *s); int a[NX + 1]; asg(s, a); a[s->n] = s->M; return mc_hash(a, (s->n + 1) * sizeof(int)); }
static const char *stext(const ST *s) { static char b[2][NX * NX + 99]; static int r; char *t = b[r++ & 1]; int k = 0; for (int g = 0; g < s->M; g++) { t[k++] = '|'; for (int i = 0; i < s->len[g]; i++) t[k++] = 'a' + s->l[g][i]; } t[k] = 0; return t; }
static double mod(const int *a, int n) { double q = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j && a[i] == a[j]) q += NW[i][j] - K[i] * K[j]; return q; }
/* components of the nodes in module t */
static int comps(const int *a, int n, int t, int *c) { int k = 0; for (int i = 0; i < n; i++) c[i] = -1; for (int i = 0; i < n; i++) if (a[i] == t && c[i] < 0) { c[i] = k; for (int ch = 1; ch; ) { ch = 0; for (int x = 0; x < n; x++) if (c[x] == k) for (int y = 0; y < n; y++) if (a[y] == t && R.has[x][y] && c[y] != k) { c[y] = k; ch = 1; } } k++; } return k; }
static void apply(Partition **pp, OP o, int check) { Partition *p = *pp; ST s, t; int a[NX], b[NX], n = R.n; if (check) { const char *e = rd(p, &s); if (e) { mc_fail("structure", "before %s: %s", onm[o.k], e); return; } asg(&s, a); }
  double pred = 0; int has = 0; unsigned ncomp = 0; mc_trans(1);
  switch (o.k) {
    case MOVE: if (check) { pred = dEChangeModule(o.a, o.b, p, adj); has = 1; } ChangeModule(o.a, o.b, p); break;
    case MERGE: if (check) { pred = dEMergeModules(o.a, o.b, p, adj); has = 1; } MergeModules(o.a, o.b, p); break;
    case SPLIT: { double v[NX]; for (int i = 0; i < NX; i++) v[i] = (o.c >> (i % 30) & 1) ? 0.9 : 0.1; mc_script(v, NX); ncomp = SplitModuleByComponent(o.a, o.b, p, adj, mc_rng()); mc_script(NULL, 0); break; }
    case COMPRESS: CompressPartition(p); break;
    case COPY: { Partition *c = CopyPartitionStruct(p); if (check) { ST u; const char *e = rd(c, &u); if (e) mc_fail("copy", "%s", e); else if (memcmp(&u, &s, sizeof s)) mc_fail("copy", "copy is %s, original %s", stext(&u), stext(&s)); for (int i = 0; i < n; i++) if (c->nodes[i] == p->nodes[i]) mc_fail("copy", "node shared"); /* independence */ if (c->M > 1 && !e) { ChangeModule(0, (a[0] + 1) % c->M, c); e = rd(p, &u); if (e || memcmp(&u, &s, sizeof s)) mc_fail("copy", "changing the copy changed the original"); FreePartition(c); c = CopyPartitionStruct(p); } } FreePartition(p); *pp = p = c; break; } }
  if (!check) return; const char *e = rd(p, &t); if (e) { mc_fail("structure", "after %s: %s", onm[o.k], e); return; } asg(&t, b);
  if (has) { double q0 = mod(a, n), q1 = mod(b, n); if (!mc_close(pred, q1 - q0)) mc_fail("predicted-change", "%s predicted a change of %.9g, it is %.9g", onm[o.k], pred, q1 - q0); double m1 = PartitionModularity(p, adj, 0); if (!mc_close(m1, q1)) mc_fail("modularity", "PartitionModularity %.9g instead of %.9g", m1, q1); }
  switch (o.k) {
    case MOVE: for (int i = 0; i < n; i++) if (b[i] != (i == o.a ? o.b : a[i])) mc_fail("move", "after moving node %d to module %d, node %d is in module %d", o.a, o.b, i, b[i]); break;
    case MERGE: { int ea = !s.len[o.a], eb = !s.len[o.b]; int into = -1; for (int i = 0; i < n; i++) if (a[i] == o.a || a[i] == o.b) { if (ea || eb) { if (b[i] != a[i]) mc_fail("merge", "merging with an empty module moved node %d", i); } else { if (b[i] != o.a && b[i] != o.b) mc_fail("merge", "node %d ended in module %d", i, b[i]); if (into >= 0 && b[i] != into) mc_fail("merge", "modules %d and %d were not merged", o.a, o.b); into = b[i]; } } else if (b[i] != a[i]) mc_fail("merge", "node %d of another module moved", i); break; }
    case SPLIT: { int c[NX], nc = comps(a, n, o.a, c); if ((int)ncomp != nc) mc_fail("split", "module has %d connected components, %u reported", nc, ncomp); int moved = 0, to[NX]; for (int k = 0; k < nc; k++) to[k] = -1; for (int i = 0; i < n; i++) { if (a[i] != o.a) { if (b[i] != a[i]) mc_fail("split", "node %d of another module moved", i); continue; } if (b[i] != o.a && b[i] != o.b) mc_fail("split", "node %d ended in module %d", i, b[i]); else { int w = b[i] == o.b; if (to[c[i]] >= 0 && to[c[i]] != w) mc_fail("split", "a connected component was torn apart"); to[c[i]] = w; } } int st = 0; for (int k = 0; k < nc; k++) if (to[k] == 1) moved++; else st++; if (nc >= 2 && (!moved || !st)) mc_fail("split", "%d of %d components moved", moved, nc); if (nc < 2 && moved) mc_fail("split", "connected module was split"); break; }
    case COMPRESS: { int ne = 0; for (int k = 0; k < s.M; k++) ne += s.len[k] > 0; if (t.M != ne) mc_fail("compress", "%d modules left, %d were not empty", t.M, ne); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if ((a[i] == a[j]) != (b[i] == b[j])) mc_fail("compress", "nodes %d and %d", i, j); break; } } }
static Partition *start(int M) { Partition *p = CreatePartition(R.n, M); adj = CreateAdjaArray(R.n, E.E); EdgeListToAdjaArray((int *)E.a, (int *)E.b, E.w, adj, p, 1); if (M == R.n) AssignNodesToModules(p, NULL); else for (int i = 0; i < R.n; i++) put(p, i % M, i); return p; }
typedef struct { ST s; int par; OP op; } ND;
static ND *nd; static int nnd; enum { CAP = 60000 };
static int hist(int i, OP *h) { OP t[300]; int c = 0; while (nd[i].par >= 0) { t[c++] = nd[i].op; i = nd[i].par; } for (int k = 0; k < c; k++) h[k] = t[c - 1 - k]; return c; }
static void setup(void) { el_from(&E, &R, 0); double W = 0; for (int i = 0; i < R.n; i++) W += rg_str(&R, i); for (int i = 0; i < R.n; i++) { K[i] = rg_str(&R, i) / W; for (int j = 0; j < R.n; j++) NW[i][j] = R.has[i][j] ? R.w[i][j] / W : 0; } }
static void explore(int M) { setup(); if (!E.E) return; mc_set seen = {0}; if (!nd) nd = malloc(CAP * sizeof *nd); Partition *p = start(M); memset(&nd[0], 0, sizeof nd[0]); const char *e = rd(p, &nd[0].s); mc_case("network %s, %d modules, start", rg_text(&R), M); if (e) mc_fail("start", "%s", e); else for (int i = 0; i < R.n; i++) if (M == R.n && (int)p->nodes[i]->module != i) mc_fail("start", "node %d in module %d", i, p->nodes[i]->module); nd[0].par = -1; nnd = 1; mc_set_add(&seen, key(&nd[0].s)); FreePartition(p); FreeAdjaArray(adj);
  for (int i = 0; i < nnd; i++) { if (mc_timeup()) { mc_capped("time"); break; } ST s = nd[i].s; int a[NX], n = R.n; asg(&s, a); OP h[300], ops[300]; int nh = hist(i, h), no = 0; mc_states(1); mc_traces(1); mc_outcome(key(&s));
    for (int u = 0; u < n; u++) for (int m = 0; m < s.M; m++) if (m != a[u]) ops[no++] = (OP){MOVE, u, m, 0};
    for (int x = 0; x < s.M; x++) for (int y = 0; y < s.M; y++) if (x != y) { ops[no++] = (OP){MERGE, x, y, 0}; if (s.len[x] && !s.len[y]) { int c[NX], nc = comps(a, n, x, c); for (int b = 0; b < (nc > 2 ? 1 << (nc - 2) : 1); b++) ops[no++] = (OP){SPLIT, x, y, b}; } }
    ops[no++] = (OP){COMPRESS}; ops[no++] = (OP){COPY};
    for (int o = 0; o < no; o++) { mc_case("network %s, %d modules, history:", rg_text(&R), M); for (int k = 0; k < nh; k++) mc_step(" %s(%d,%d,%d)", onm[h[k].k], h[k].a, h[k].b, h[k].c); mc_step(" [%s] then %s(%d,%d,%d)", stext(&s), onm[ops[o].k], ops[o].a, ops[o].b, ops[o].c); p = start(M); for (int k = 0; k < nh; k++) apply(&p, h[k], 0); apply(&p, ops[o], 1); ST t; if (!rd(p, &t) && mc_set_add(&seen, key(&t))) { if (nnd == CAP) mc_capped("states"); else { nd[nnd].s = t; nd[nnd].par = i; nd[nnd].op = ops[o]; nnd++; } } FreePartition(p); FreeAdjaArray(adj); } }
  mc_sample("%s, %d modules: %d arrangements", rg_text(&R), M, nnd); mc_set_free(&seen); }
static const double WT[10] = {1, 2, 0.5, 3, 1, 0.25, 2, 5, 1, 4};
static void net(int n, unsigned long m, int w) { rg_mask(&R, n, m); int k = 0; if (w) for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++, k++) if (R.has[i][j]) R.w[i][j] = R.w[j][i] = WT[(k * 3 + w) % 10]; }
static void sec3(long a) { (void)a; for (int m = 1; m < 8; m++) for (int w = 0; w < 4; w++) { net(3, m, w); explore(3); explore(2); } for (int w = 0; w < 2; w++) { net(2, 1, w); explore(2); } }
static void sec4(long a) { net(4, a & 63, (a & 63) % 3); explore(4); explore(3); explore(2); }
static void sec5(long a) { bylist = (a >> 16); net(5, a & 1023, a % 4); explore(5); explore(3); }
/* components with more pieces: all graphs on 5 (6) nodes, whole network in one module and in two */
static void split(long arg) { int n = arg & 15, c = arg >> 4; unsigned long MM = 1ul << (n * (n - 1) / 2); for (unsigned long m = c; m < MM; m += 4) { net(n, m, 0); setup(); if (!E.E) continue; if (mc_timeup()) { mc_capped("time"); return; } mc_states(1); for (int cut = 0; cut < 1 << (n - 1); cut++) { if (n > 5 && cut && __builtin_popcount(cut) != 1) continue; int a[NX], cc[NX]; for (int i = 0; i < n; i++) a[i] = cut >> i & 1; int nc = comps(a, n, 0, cc); mc_set outs = {0}; for (int b = 0; b < (nc > 2 ? 1 << (nc - 2) : 1); b++) { mc_case("network %s, nodes outside the module: mask %x, draws %x", rg_text(&R), cut, b); Partition *p = CreatePartition(n, n); adj = CreateAdjaArray(n, E.E); EdgeListToAdjaArray((int *)E.a, (int *)E.b, E.w, adj, p, 1); for (int i = 0; i < n; i++) put(p, a[i], i); apply(&p, (OP){SPLIT, 0, 2, b}, 1); uint64_t o = 0; for (int i = 0; i < n; i++) o = o * 3 + p->nodes[i]->module; mc_set_add(&outs, o + 1); FreePartition(p); FreeAdjaArray(adj); mc_traces(1); } if (nc > 2 && (int)outs.n != 1 << (nc - 2)) mc_fail("split-choice", "%d different outcomes for %d components, all draws", (int)outs.n, nc); mc_set_free(&outs); } } }
/* random initial assignment: every outcome of the draws */
static int aN, aM; static mc_set aout;
static void abody(void *x) { (void)x; Partition *p = CreatePartition(aN, aM); for (int i = 0; i < aN; i++) p->nodes[i]->strength = 0.1 * (i + 1); AssignNodesToModules(p, mc_rng()); const char *e = pt_check(p, NULL); mc_trans(1); if (e) mc_fail("assign", "%s", e); uint64_t o = 0; for (int i = 0; i < aN; i++) o = o * 7 + p->nodes[i]->module; mc_set_add(&aout, o + 1); mc_outcome(o); FreePartition(p); }
static void assign(long a) { (void)a; for (aN = 1; aN <= 5; aN++) for (aM = 1; aM < aN; aM++) { mc_case("%d nodes, %d modules at random", aN, aM); double al[NX]; for (int i = 0; i < aM; i++) al[i] = (i + 0.5) / aM; mc_rc = (mc_rngcfg){aN, 0, 0, aM, al, 50, 1}; memset(&aout, 0, sizeof aout); mc_states(1); mc_dfs(abody, NULL); long tot = 1; for (int i = 0; i < aN; i++) tot *= aM; if ((long)aout.n != tot) mc_fail("assign", "%ld different assignments for all draws, there are %ld", (long)aout.n, tot); mc_set_free(&aout); } }
#ifndef LARGE
void large_register(void);
int main(int c, char **v) { large_register(); char nm[40]; const char *e = getenv("VERIF_TIER"); int th = e && !strcmp(e, "thorough"); mc_section("n3", sec3, 0); mc_section("assign", assign, 0); for (int m = 1; m < 64; m++) { sprintf(nm, "n4-%d", m); mc_section(strdup(nm), sec4, m); }
  for (int k = 0; k < 4; k++) { sprintf(nm, "split-5-%d", k); mc_section(strdup(nm), split, 5 | k << 4); sprintf(nm, "split-6-%d", k); mc_section(strdup(nm), split, 6 | k << 4); }
  static const int g5[] = {1, 3, 7, 15, 19, 23, 67, 98, 131, 259, 517, 1023, 1022, 870, 693, 455, 341, 204, 150, 771}; for (int i = 0; i < (th ? 20 : 8); i++) { sprintf(nm, "n5-%d", g5[i]); mc_section(strdup(nm), sec5, g5[i] | (th && i < 6 ? 1 << 16 : 0)); }
  return mc_main(c, v); }

#endif
