/* C09: connectivity and components on every small graph and digraph, against the transitive closure. */
#ifndef HMAX
#define HMAX 40
#endif
#include "hg.h"
#include "modules.h"
static void closure(const RG *r, int R[HMAX][HMAX], int weak) { int n = r->n; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) R[i][j] = i == j || r->has[i][j] || (weak && r->has[j][i]); for (int k = 0; k < n; k++) for (int i = 0; i < n; i++) if (R[i][k]) for (int j = 0; j < n; j++) if (R[k][j]) R[i][j] = 1; }
/* the returned sub-network: nodes found by label; all fields checked; numbers may be fresh or the original ones.
   in[i]: node i is in the set; *cnt: its size */
static const char *sub(struct node_gra *net, const RG *r, int renum, char *in, int *cnt) { static char m[300]; static int at[HMAX]; struct node_gra *p = net; int id[HMAX], c = 0, n = r->n; memset(in, 0, n); struct node_gra *q[HMAX]; *cnt = 0;
  while ((p = p->next)) { if (c >= n) return "too many nodes"; int i = rg_idx(r, p->label); if (i < 0) return "unknown node"; if (in[i]) return "node twice"; in[i] = 1; q[c] = p; at[i] = c; id[c++] = i; }
  for (int x = 0; x < c; x++) { if (renum ? q[x]->num != x : q[x]->num != x && q[x]->num != id[x]) { snprintf(m, 300, "node %s has number %d", q[x]->label, q[x]->num); return m; } char seen[HMAX]; memset(seen, 0, n); int k = 0; struct node_lis *l = q[x]->neig; while ((l = l->next)) { k++; int y; for (y = 0; y < c; y++) if (q[y] == l->ref) break; if (y == c) { snprintf(m, 300, "link of %s does not point into the set", q[x]->label); return m; } if (l->node != q[y]->num) { snprintf(m, 300, "link %s-%s carries number %d", q[x]->label, q[y]->label, l->node); return m; } if (!r->has[id[x]][id[y]]) { snprintf(m, 300, "extra link %s-%s", q[x]->label, q[y]->label); return m; } if (seen[id[y]]) return "repeated link"; seen[id[y]] = 1; if (!mc_close(l->weight, r->w[id[x]][id[y]])) { snprintf(m, 300, "weight of link %s-%s", q[x]->label, q[y]->label); return m; } }
    for (int y = 0; y < c; y++) if (r->has[id[x]][id[y]] && !seen[id[y]]) { snprintf(m, 300, "link %s-%s missing", q[x]->label, q[y]->label); return m; } if (NodeDegree(q[x]) != (unsigned)k) return "node degree"; }
  *cnt = c; return NULL; }
/* is the set one whole component (comp: component number of every node, size: sizes of the components)? */
static int whole(const RG *r, const char *in, int cnt, const int *comp, const int *size) { int f = -1; for (int i = 0; i < r->n; i++) if (in[i]) { if (f < 0) f = comp[i]; else if (comp[i] != f) return 0; } return f >= 0 && size[f] == cnt; }
static void visit(const RG *r, struct node_gra *net, struct node_gra **nl) {
  static int R[HMAX][HMAX], W[HMAX][HMAX]; int n = r->n, sym = 1; closure(r, R, 0); closure(r, W, 1); int sc[HMAX], wc[HMAX], ssz[HMAX], wsz[HMAX], nscc = 0, maxs = 0, maxw = 0, ncc = 0;
  for (int i = 0; i < n; i++) { sc[i] = wc[i] = -1; for (int j = 0; j < n; j++) { if (j < i && sc[i] < 0 && R[i][j] && R[j][i]) sc[i] = sc[j]; if (j < i && wc[i] < 0 && W[i][j]) wc[i] = wc[j]; if (r->has[i][j] != r->has[j][i]) sym = 0; } if (sc[i] < 0) { sc[i] = nscc; ssz[nscc++] = 0; } if (wc[i] < 0) { wc[i] = ncc; wsz[ncc++] = 0; } if (++ssz[sc[i]] > maxs) maxs = ssz[sc[i]]; if (++wsz[wc[i]] > maxw) maxw = wsz[wc[i]]; }
  const char *e; static RG chk; char in[HMAX]; int cnt;
  for (int rep = 0; rep < 2; rep++) {
    if (sym) { int c = IsGraphConnected(net); mc_trans(1); if (!!c != (ncc == 1)) mc_fail("connected", "IsGraphConnected says %d with %d components", c, ncc); }
    int c = CountStronglyConnectedSets(net); mc_trans(1); if (c != nscc) mc_fail("count-scc", "%d strongly connected sets counted, there are %d", c, nscc);
    if (sym) { struct group *part = ClustersPartition(net); mc_trans(1); struct group *g = part; char all[HMAX]; memset(all, 0, n); int ng = 0, tn = 0; while ((g = g->next)) { struct node_lis *l = g->nodeList; int sz = 0; memset(in, 0, n); while ((l = l->next)) { if (l->node < 0 || l->node >= n || all[l->node]++) { mc_fail("clusters", "node %d unknown or in two clusters", l->node); break; } in[l->node] = 1; sz++; if (l->ref->inGroup != g->label) mc_fail("clusters", "node %d not marked with its cluster", l->node); } ng++; tn += sz; if (sz != g->size || !whole(r, in, sz, wc, wsz)) mc_fail("clusters", "cluster of %d nodes, size %d, is not a whole component", sz, g->size);
        int tot = 0; for (int i = 0; i < n; i++) if (in[i]) tot += rg_deg(r, i); if (g->inlinks != tot / 2 || g->outlinks != 0 || g->totlinks != tot / 2) mc_fail("clusters", "cluster link counts in=%d out=%d tot=%d, should be %d 0 %d", g->inlinks, g->outlinks, g->totlinks, tot / 2, tot / 2); } if (ng != ncc || tn != n) mc_fail("clusters", "%d clusters covering %d nodes, should be %d", ng, tn, ncc); RemovePartition(part);
      struct node_gra *list[HMAX + 1]; int k = GetAllConnectedSets(net, list); mc_trans(1); memset(all, 0, n); tn = 0; if (k != ncc) mc_fail("all-sets", "%d connected sets, should be %d", k, ncc); for (int i = 0; i < k; i++) { e = sub(list[i], r, 0, in, &cnt); if (e) mc_fail("all-sets", "connected set %d: %s", i, e); else if (!whole(r, in, cnt, wc, wsz)) mc_fail("all-sets", "set of %d nodes is not a whole component", cnt); for (int x = 0; x < n; x++) if (in[x] && all[x]++) mc_fail("all-sets", "node %d in two sets", x); tn += cnt; RemoveGraph(list[i]); } if (tn != n) mc_fail("all-sets", "sets cover %d nodes", tn); }
    for (int th = 0; th <= n; th += (n > 4 ? n : 1)) { if (th == 0 && rep) continue; int thr = th == n ? 100000 : th;
      struct node_gra *g = GetLargestStronglyConnectedSet(net, thr); mc_trans(1); if (!g) mc_fail("giant-strong", "no network returned"); else { e = sub(g, r, 1, in, &cnt); if (e) mc_fail("giant-strong", "largest strongly connected set (threshold %d): %s", thr, e); else { if (!whole(r, in, cnt, sc, ssz)) mc_fail("giant-strong", "set of %d nodes is not a strongly connected component", cnt); if (cnt < maxs && cnt <= thr) mc_fail("giant-strong", "set of %d nodes returned, largest has %d", cnt, maxs); } RemoveGraph(g); }
      g = GetLargestWeaklyConnectedSet(net, thr); mc_trans(1); if (!g) mc_fail("giant-weak", "no network returned"); else { e = sub(g, r, 1, in, &cnt); if (e) mc_fail("giant-weak", "largest weakly connected set (threshold %d): %s", thr, e); else { if (!whole(r, in, cnt, wc, wsz)) mc_fail("giant-weak", "set of %d nodes is not a weakly connected component", cnt); if (cnt < maxw && cnt <= thr) mc_fail("giant-weak", "set of %d nodes returned, largest has %d", cnt, maxw); } RemoveGraph(g); } }
    e = rg_read(net, &chk); if (!e) e = rg_diff(&chk, r, 1); if (e) mc_fail("input-changed", "the network itself was changed: %s", e); }
  (void)nl; unsigned o[2] = {(unsigned)nscc * 1000 + ncc, (unsigned)maxs * 1000 + maxw}; mc_outcome(mc_hash(o, sizeof o) ^ mc_hash(sc, n * sizeof *sc));
}
#ifdef EN_LARGE
#define EN_DENSE 60
#endif
#include "en.h"
#ifdef EN_LARGE
/* one-way links: of every family, keep j->i only for some */
static void oneway(long n) { static RG r; for (int f = 0; f < 20; f++) for (int m = 2; m < 8; m++) { if (mc_timeup()) { mc_capped("time"); return; } en_fam(&r, f, n); long E = 0; for (int i = 0; i < n; i++) E += rg_deg(&r, i); if (E > 12 * n) continue; for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if ((i + j) % m == 0) r.has[i][j] = 0; else if ((i + j) % m == 1) r.has[j][i] = 0; en_one(&r, m & 1, " (structured family, some links one-way)"); } }
void large_register(void) { char b[40]; en_register_large(); static const int S[] = {13, 26, 40, 65, 101, 129}; for (int i = 0; i < 6; i++) { sprintf(b, "one-way-families-%d", S[i]); mc_section(b, oneway, S[i]); } }
#else
void large_register(void);
int main(int c, char **v) { int t = en_thorough(); large_register(); en_register(t ? 7 : 6, t ? 5 : 4, t ? 8 : 7, 11); return mc_main(c, v); }
#endif
