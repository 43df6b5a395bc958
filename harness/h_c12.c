/* C12: group partitions. Explicit-state search over the reachable partitions (ordered member lists, empty groups,
   nodes outside any group) of small weighted networks under every group operation; each state is rebuilt on the real
   library by replaying a shortest history, every operation is applied to it, and all fields are recomputed. */
#ifndef LARGE
#define HMAX 6
#define KM 5
#endif
#include "hg.h"
#include "modules.h"
typedef struct { int n, K; int alive[KM]; int len[KM]; int l[KM][HMAX]; } ST;      /* model: ordered member lists */
typedef struct { int k, a, b, c; } OP;
enum { MOVE, REMOVE, ADD, MERGE, COMPRESS, COPY, FMOVE, FREMOVE, FADD, FMERGE, BADMOVE, BADREMOVE, NOP };
static const char *onm[] = {"move", "remove", "add", "merge", "compress", "copy", "move-fast", "remove-fast", "add-fast", "merge-fast", "move-from-wrong-group", "remove-from-wrong-group"};
static RG R; static struct node_gra *net, *nl[HMAX]; static struct group *part;
static int where(const ST *s, int u) { for (int g = 0; g < s->K; g++) for (int i = 0; i < s->len[g]; i++) if (s->l[g][i] == u) return g; return -1; }
static void del(ST *s, int g, int u) { int j = 0; for (int i = 0; i < s->len[g]; i++) if (s->l[g][i] != u) s->l[g][j++] = s->l[g][i]; s->len[g] = j; }
static void app(ST *s, int g, int u) { s->l[g][s->len[g]++] = u; }
static void mapply(ST *s, OP o) { switch (o.k) { case MOVE: case FMOVE: del(s, o.b, o.a); app(s, o.c, o.a); break; case REMOVE: case FREMOVE: del(s, o.b, o.a); break; case ADD: case FADD: app(s, o.c, o.a); break;
  case MERGE: case FMERGE: for (int i = 0; i < s->len[o.a]; i++) app(s, o.b, s->l[o.a][i]); s->len[o.a] = 0; break; case COMPRESS: for (int g = 0; g < s->K; g++) if (!s->len[g]) s->alive[g] = 0; break; } }
static uint64_t key(const ST *s) { char b[KM + HMAX + 90]; int k = 0; for (int g = 0; g < s->K; g++) { b[k++] = s->alive[g] ? '|' : '.'; for (int i = 0; i < s->len[g]; i++) b[k++] = 'a' + s->l[g][i]; } return mc_hash(b, k); }
static const char *stext(const ST *s) { static char b[KM + HMAX + 90]; int k = 0; for (int g = 0; g < s->K; g++) { b[k++] = s->alive[g] ? '|' : '.'; for (int i = 0; i < s->len[g]; i++) b[k++] = 'a' + s->l[g][i]; } b[k] = 0; return b; }
static const char *otext(OP o) { static char b[80]; snprintf(b, 80, "%s(%d,%d,%d)", onm[o.k], o.a, o.b, o.c); return b; }
static struct group *G(int l) { struct group *g = part; while ((g = g->next)) if (g->label == l) return g; return NULL; }
/* membership, sizes, order, inGroup */
static void members(const ST *s, const char *when) { struct group *g = part; int k = 0;
  while (k < s->K && !s->alive[k]) k++;
  while ((g = g->next)) { if (k >= s->K || g->label != k) { mc_fail("groups", "%s: group with label %d where %d was expected", when, g->label, k); return; } if (g->size != s->len[k]) mc_fail("size", "%s: group %d has size %d instead of %d", when, k, g->size, s->len[k]);
    struct node_lis *p = g->nodeList; int i = 0; while ((p = p->next)) { if (i >= s->len[k] || p->ref != nl[s->l[k][i]] || p->node != s->l[k][i] || strcmp(p->nodeLabel, R.lab[s->l[k][i]])) { mc_fail("members", "%s: member list of group %d differs at position %d", when, k, i); return; } i++; } if (i != s->len[k]) mc_fail("members", "%s: group %d lists %d nodes instead of %d", when, k, i, s->len[k]);
    do k++; while (k < s->K && !s->alive[k]); }
  if (k < s->K) mc_fail("groups", "%s: group %d is missing", when, k);
  for (int u = 0; u < s->n; u++) if (nl[u]->inGroup != where(s, u)) mc_fail("inGroup", "%s: node %d has inGroup %d instead of %d", when, u, nl[u]->inGroup, where(s, u)); }
static void counts(const ST *s, const char *when) { int w[HMAX]; for (int u = 0; u < s->n; u++) w[u] = where(s, u); struct group *g = part; while ((g = g->next)) { int in = 0, out = 0; double inw = 0, outw = 0; for (int i = 0; i < s->n; i++) if (w[i] == g->label) for (int j = 0; j < s->n; j++) if (R.has[i][j]) { if (w[j] == g->label) { in++; inw += R.w[i][j]; } else { out++; outw += R.w[i][j]; } } in /= 2; inw /= 2;
  if (g->inlinks != in || g->outlinks != out || g->totlinks != in + out) mc_fail("counts", "%s: group %d has in/out/tot links %d/%d/%d instead of %d/%d/%d", when, g->label, g->inlinks, g->outlinks, g->totlinks, in, out, in + out);
  if (!mc_close(g->inlinksW, inw) || !mc_close(g->outlinksW, outw) || !mc_close(g->totlinksW, inw + outw)) mc_fail("weights", "%s: group %d has in/out/tot weights %g/%g/%g instead of %g/%g/%g", when, g->label, g->inlinksW, g->outlinksW, g->totlinksW, inw, outw, inw + outw); } }
static void rapply(const ST *s, OP o, int check) { int r = 1; ST t = *s; mapply(&t, o); switch (o.k) {
  case MOVE: r = MoveNode(nl[o.a], G(o.b), G(o.c)); break; case REMOVE: r = RemoveNodeFromGroup(G(o.b), nl[o.a]); break;
  case ADD: { struct node_lis *l = AddNodeToGroup(G(o.c), nl[o.a]); if (!l || l->ref != nl[o.a]) r = 0; break; }
  case MERGE: MergeGroups(G(o.a), G(o.b)); break; case COMPRESS: if (CompressPart(part) != part) r = 0; break;
  case COPY: { struct group *c = CopyPartition(part); MapPartToNet(c, net); struct group *a = part; part = c; if (check) { members(&t, "copy"); counts(&t, "copy, mapped"); } RemovePartition(a); break; }
  case FMOVE: r = MoveNodeFast(nl[o.a], G(o.b), G(o.c)); break; case FREMOVE: r = RemoveNodeFromGroupFast(G(o.b), nl[o.a]); break; case FADD: { struct node_lis *l = AddNodeToGroupFast(G(o.c), nl[o.a]); if (!l || l->ref != nl[o.a]) r = 0; break; } case FMERGE: MergeGroupsFast(G(o.a), G(o.b)); break;
  case BADMOVE: r = !MoveNode(nl[o.a], G(o.b), G(o.c)); if (check) { if (MoveNodeFast(nl[o.a], G(o.b), G(o.c))) r = 0; } break; case BADREMOVE: r = !RemoveNodeFromGroup(G(o.b), nl[o.a]); if (check && RemoveNodeFromGroupFast(G(o.b), nl[o.a])) r = 0; break; }
  if (check) { if (!r) mc_fail("return", "%s returned the wrong value", onm[o.k]); members(&t, onm[o.k]); }
  if (o.k >= FMOVE && o.k <= FMERGE) { if (check) { MapPartToNetFast(part, net); members(&t, "map-fast"); } MapPartToNet(part, net); if (check) members(&t, "map"); }
  if (check) counts(&t, onm[o.k]); mc_trans(1); }
static void start(int gs) { net = rg_build(&R, nl); part = CreateEquiNPartition(net, gs); }
static void fin(void) { RemovePartition(part); RemoveGraph(net); }
/* everything that only reads */
static void queries(const ST *s) { int w[HMAX], K = s->K, n = s->n; for (int u = 0; u < n; u++) w[u] = where(s, u); int na = 0, ne = 0, sz = 0, fe = -1; double S = 0, S2 = 0, mn = 1e9, mx = 0;
  for (int k = 0; k < K; k++) { if (s->alive[k]) { na++; if (s->len[k]) { ne++; S += s->len[k]; S2 += s->len[k] * s->len[k]; if (s->len[k] < mn) mn = s->len[k]; if (s->len[k] > mx) mx = s->len[k]; } else if (fe < 0) fe = k; sz += s->len[k]; } struct group *g = GetGroup(part, k); if (g != G(k)) mc_fail("GetGroup", "GetGroup(%d)", k); }
  if (NGroups(part) != na || NNonEmptyGroups(part) != ne || PartitionSize(part) != sz) mc_fail("group-counts", "NGroups %d (%d), NNonEmptyGroups %d (%d), PartitionSize %d (%d)", NGroups(part), na, NNonEmptyGroups(part), ne, PartitionSize(part), sz);
  struct group *e = GetEmptyGroup(part); if (e ? e->label != fe : fe >= 0) mc_fail("GetEmptyGroup", "got %d, first empty group is %d", e ? e->label : -1, fe);
  if (ne) { double m, sd, a, b; GroupSizeStatistics(part, &m, &sd, &a, &b); double em = S / ne, ev = S2 / ne - em * em; if (ev < 0) ev = 0; if (!mc_close(m, em) || !mc_closet(sd, sqrt(ev), 1e-6) || a != mn || b != mx) mc_fail("size-statistics", "mean %g sd %g min %g max %g instead of %g %g %g %g", m, sd, a, b, em, sqrt(ev), mn, mx); }
  for (int k = 0; k < K; k++) if (s->alive[k]) { struct group *g = G(k);
    for (int u = 0; u < n; u++) { int c = 0, c1 = 0, c2 = 0; double st = 0; for (int v = 0; v < n; v++) if (R.has[u][v] && w[v] == k) { c++; st += R.w[u][v]; if (R.w[u][v] == 1) c1++; if (R.w[u][v] == 2) c2++; }
      if (NLinksToGroup(nl[u], g) != c || NLinksToGroupByNum(nl[u], k) != c) mc_fail("links-to-group", "node %d group %d: %d / %d instead of %d", u, k, NLinksToGroup(nl[u], g), NLinksToGroupByNum(nl[u], k), c); if (!mc_close(StrengthToGroup(nl[u], g), st) || !mc_close(StrengthToGroupByNum(nl[u], k), st)) mc_fail("strength-to-group", "node %d group %d", u, k); if (NWeightLinksToGroup(nl[u], g, 1) != c1 || NWeightLinksToGroup(nl[u], g, 2) != c2) mc_fail("weight-links-to-group", "node %d group %d", u, k); }
    for (int h = 0; h < K; h++) if (s->alive[h]) { int c = 0, c2 = 0; double st = 0; for (int u = 0; u < n; u++) for (int v = 0; v < n; v++) if (w[u] == k && w[v] == h && R.has[u][v]) { c++; st += R.w[u][v]; if (R.w[u][v] == 2) c2++; } if (h == k) { c /= 2; c2 /= 2; st /= 2; } int x = NG2GLinks(g, G(h)), y = NWeightG2GLinks(g, G(h), 2); double z = NG2GLinksWeight(g, G(h)); if (x != c || y != c2 || !mc_close(z, st)) mc_fail("group-to-group", "groups %d and %d: %d links (%d of weight 2, total weight %g) instead of %d (%d, %g)", k, h, x, y, z, c, c2, st); }
    /* sub-networks */
    for (int nb = 0; nb < 2; nb++) { struct node_gra *q = nb ? BuildNetFromGroupNeig(g) : BuildNetFromGroup(g); RG got, ex; const char *er = rg_read(q, &got); if (er) { mc_fail(nb ? "group-neighbour-network" : "group-network", "group %d: %s", k, er); RemoveGraph(q); continue; } rg_clear(&ex, n); ex.n = 0; int in[HMAX] = {0}; for (int u = 0; u < n; u++) { in[u] = w[u] == k; if (nb) for (int v = 0; v < n; v++) if (w[v] == k && R.has[v][u] && w[u] != k) in[u] = 1; } int id[HMAX]; for (int u = 0; u < n; u++) if (in[u]) { id[u] = ex.n; strcpy(ex.lab[ex.n++], R.lab[u]); } for (int u = 0; u < n; u++) for (int v = 0; v < n; v++) if (in[u] && in[v] && R.has[u][v]) { ex.has[id[u]][id[v]] = 1; ex.w[id[u]][id[v]] = R.w[u][v]; }
      er = rg_diff(&ex, &got, 0); if (er) mc_fail(nb ? "group-neighbour-network" : "group-network", "group %d: %s", k, er); struct node_gra *p = q; while ((p = p->next)) { int u = rg_idx(&R, p->label), d = 0; double st = 0; for (int v = 0; v < n; v++) if (in[v] && R.has[u][v]) { d++; st += R.w[u][v]; } if (NodeDegree(p) != (unsigned)d || !mc_close(NodeStrength(p), st)) mc_fail(nb ? "group-neighbour-network" : "group-network", "group %d: degree or strength of node %s", k, p->label); if (p->coorX != nl[u]->coorX || p->state != nl[u]->state) mc_fail("group-network", "node data of %s not copied", p->label); } RemoveGraph(q); mc_trans(1); } }
  members(s, "queries"); counts(s, "queries"); RG got; const char *er = rg_read(net, &got); if (!er) er = rg_diff(&R, &got, 1); if (er) mc_fail("network-changed", "%s", er); }
static void destructive(const ST *s, const OP *h, int nh, const ST *path) { int n = s->n, w[HMAX]; for (int u = 0; u < n; u++) w[u] = where(s, u);
  for (int what = 0; what < 2 * s->K + 3; what++) { int k = what / 2, sym = what % 2; if (what < 2 * s->K && !s->alive[k]) continue; start(1); for (int i = 0; i < nh; i++) rapply(&path[i], h[i], 0);
    if (what % 3 == 0) for (int u = 0; u < n; u++) { NodeDegree(nl[u]); NodeStrength(nl[u]); }
    RG ex = R; const char *nm;
    if (what < 2 * s->K) { nm = "remove-within"; RemoveWithinGroupLinks(G(k), sym); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (w[i] == k) { ex.has[i][j] = 0; if (sym) ex.has[j][i] = 0; } }
    else if (what < 2 * s->K + 2) { nm = "remove-between"; RemoveBetweenGroupLinks(part, sym); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (w[i] >= 0 && w[i] != w[j]) { ex.has[i][j] = 0; if (sym) ex.has[j][i] = 0; } }
    else { nm = "remove-inter"; RemoveInterGroupLinks(net); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (w[i] != w[j]) ex.has[i][j] = 0; }
    RG got; const char *er = rg_read(net, &got); if (!er) er = rg_diff(&ex, &got, 1); if (er) mc_fail(nm, "%s (group %d, symmetric %d): %s", nm, k, sym, er);
    for (int u = 0; u < n; u++) { int d = 0; double st = 0; for (int v = 0; v < n; v++) if (ex.has[u][v]) { d++; st += ex.w[u][v]; } if (NodeDegree(nl[u]) != (unsigned)d || !mc_close(NodeStrength(nl[u]), st)) mc_fail(nm, "%s (group %d, symmetric %d): degree of node %d is %d instead of %d", nm, k, sym, u, NodeDegree(nl[u]), d); }
    fin(); mc_trans(1); } }
typedef struct { ST s; int par; OP op; } ND;
static ND *nd; static int nnd, cap;
static int hist(int i, OP *h, ST *path) { OP t[200]; int c = 0; ST p[200]; while (nd[i].par >= 0) { t[c] = nd[i].op; p[c] = nd[nd[i].par].s; c++; i = nd[i].par; } for (int k = 0; k < c; k++) { h[k] = t[c - 1 - k]; path[k] = p[c - 1 - k]; } return c; }
static void explore(int n, int maxdepth, int maxout) { mc_set seen = {0}; nnd = 0; ST s0; memset(&s0, 0, sizeof s0); s0.n = n; s0.K = n; for (int i = 0; i < n; i++) { s0.alive[i] = 1; app(&s0, i, i); }
  if (!nd) { cap = 200000; nd = malloc(cap * sizeof *nd); } nd[0].s = s0; nd[0].par = -1; nnd = 1; mc_set_add(&seen, key(&s0)); static int dep[200000]; dep[0] = 0;
  for (int i = 0; i < nnd; i++) { ST s = nd[i].s; OP h[200]; static ST path[200]; int nh = hist(i, h, path);
    mc_case("network %s, start: singletons, history:", rg_text(&R)); for (int k = 0; k < nh; k++) mc_step(" %s", otext(h[k])); mc_states(1); mc_outcome(key(&s));
    start(1); if (i == 0) { members(&s, "start"); counts(&s, "start"); } for (int k = 0; k < nh; k++) rapply(&path[k], h[k], 0); queries(&s); fin(); destructive(&s, h, nh, path); mc_traces(1);
    if (mc_timeup()) { mc_capped("time budget"); break; }
    OP ops[400]; int no = 0; int nout = 0; for (int u = 0; u < n; u++) if (where(&s, u) < 0) nout++;
    for (int u = 0; u < n; u++) { int g = where(&s, u); if (g >= 0) { for (int c = 0; c < s.K; c++) if (s.alive[c]) { ops[no++] = (OP){MOVE, u, g, c}; ops[no++] = (OP){FMOVE, u, g, c}; } if (nout < maxout) { ops[no++] = (OP){REMOVE, u, g, 0}; ops[no++] = (OP){FREMOVE, u, g, 0}; } } else for (int c = 0; c < s.K; c++) if (s.alive[c]) { ops[no++] = (OP){ADD, u, 0, c}; ops[no++] = (OP){FADD, u, 0, c}; }
      for (int b = 0; b < s.K; b++) if (s.alive[b] && b != g) { ops[no++] = (OP){BADREMOVE, u, b, 0}; ops[no++] = (OP){BADMOVE, u, b, (g >= 0 ? g : b)}; break; } }
    for (int a = 0; a < s.K; a++) for (int b = 0; b < s.K; b++) if (a != b && s.alive[a] && s.alive[b]) { ops[no++] = (OP){MERGE, a, b, 0}; ops[no++] = (OP){FMERGE, a, b, 0}; }
    ops[no++] = (OP){COMPRESS, 0, 0, 0}; ops[no++] = (OP){COPY, 0, 0, 0};
    for (int o = 0; o < no; o++) { mc_case("network %s, start: singletons, history:", rg_text(&R)); for (int k = 0; k < nh; k++) mc_step(" %s", otext(h[k])); mc_step(" then %s", otext(ops[o])); start(1); for (int k = 0; k < nh; k++) rapply(&path[k], h[k], 0); rapply(&s, ops[o], 1); fin();
      ST t = s; mapply(&t, ops[o]); if (dep[i] < maxdepth && ops[o].k != BADMOVE && ops[o].k != BADREMOVE && mc_set_add(&seen, key(&t))) { if (nnd >= cap) { mc_capped("states"); continue; } nd[nnd].s = t; nd[nnd].par = i; nd[nnd].op = ops[o]; dep[nnd] = dep[i] + 1; nnd++; } } }
  mc_sample("%s: %d partitions reached, e.g. %s", rg_text(&R), nnd, stext(&nd[nnd - 1].s)); mc_set_free(&seen); }
static const double WT[6] = {1, 2, 1, 0.5, 2, 4};
static void sec3(long a) { int m = a; rg_init(&R, 3); int k = 0, x = m; for (int i = 0; i < 3; i++) for (int j = i + 1; j < 3; j++, k++) { int d = x % 3; x /= 3; if (d) rg_link(&R, i, j, d); } explore(3, 99, 3); }
static void wmask(int n, unsigned long m) { rg_mask(&R, n, m); int k = 0; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++, k++) if (R.has[i][j]) R.w[i][j] = R.w[j][i] = WT[k % 6]; }
static void sec4(long a) { wmask(4, a & 63); explore(4, a >> 8, 1); }
/* partitions built in one go: equal-sized groups and from the inGroup fields, on all graphs */
static void secb(long n) { unsigned long M = 1ul << (n * (n - 1) / 2); for (unsigned long m = 0; m < M; m++) { wmask(n, m); mc_states(1);
    for (int gs = 1; gs <= n + 1; gs++) { mc_case("network %s, groups of %d", rg_text(&R), gs); start(gs); ST s; memset(&s, 0, sizeof s); s.n = n; s.K = (n + gs - 1) / gs; for (int i = 0; i < n; i++) app(&s, i / gs, i); for (int k = 0; k < s.K; k++) s.alive[k] = 1; members(&s, "equal groups"); counts(&s, "equal groups"); mc_trans(1); fin(); }
    int a[HMAX] = {0}; do { net = rg_build(&R, nl); int lab[HMAX]; for (int v = 0; v < 2; v++) { mc_case("network %s, inGroup", rg_text(&R)); int K = 0; for (int i = 0; i < n; i++) { lab[i] = v ? 2 * (n - a[i]) : a[i]; mc_step(" %d", lab[i]); nl[i]->inGroup = lab[i]; if (lab[i] >= K) K = lab[i] + 1; }
        part = CreatePartitionFromInGroup(net); mc_trans(1); struct group *g = part; int tot = 0; while ((g = g->next)) { int in = 0, out = 0, sz = 0; double inw = 0, outw = 0; for (int i = 0; i < n; i++) if (lab[i] == g->label) { sz++; for (int j = 0; j < n; j++) if (R.has[i][j]) { if (lab[j] == g->label) { in++; inw += R.w[i][j]; } else { out++; outw += R.w[i][j]; } } } if (g->size != sz || !sz || g->inlinks != in / 2 || g->outlinks != out || g->totlinks != in / 2 + out || !mc_close(g->inlinksW, inw / 2) || !mc_close(g->totlinksW, inw / 2 + outw) || !mc_close(g->outlinksW, outw)) mc_fail("from-ingroup", "group %d: size %d in %d out %d tot %d", g->label, g->size, g->inlinks, g->outlinks, g->totlinks); tot += sz; struct node_lis *p = g->nodeList; int c = 0; while ((p = p->next)) { c++; if (lab[p->node] != g->label || p->ref != nl[p->node]) mc_fail("from-ingroup", "node %d in group %d", p->node, g->label); } if (c != sz) mc_fail("from-ingroup", "group %d lists %d nodes instead of %d", g->label, c, sz); } if (tot != n) mc_fail("from-ingroup", "%d nodes in the partition", tot);
        for (int i = 0; i < n; i++) if (nl[i]->inGroup != lab[i]) mc_fail("from-ingroup", "inGroup of node %d changed", i); RemovePartition(part); } RemoveGraph(net); mc_traces(1); } while (mc_next_rgs(a, n)); }
  for (int ng = 0; ng < 5; ng++) for (int gs = 1; gs < 5; gs++) { mc_case("soft partition of %d groups of %d", ng, gs); part = CreateEquiNPartitionSoft(ng, gs); struct group *g = part; int c = 0, k = 0; while ((g = g->next)) { if (g->label != k++ || g->size != gs) mc_fail("soft", "group %d size %d", g->label, g->size); struct node_lis *p = g->nodeList; while ((p = p->next)) if (atoi(p->nodeLabel) != ++c) mc_fail("soft", "label %s instead of %d", p->nodeLabel, c); } if (k != ng || c != ng * gs) mc_fail("soft", "%d groups %d nodes", k, c); RemovePartition(part); mc_trans(1); } }
#ifndef LARGE
void large_register(void);
void huge_register(void);
int main(int c, char **v) { huge_register(); large_register(); char nm[60]; const char *e = getenv("VERIF_TIER"); int th = e && !strcmp(e, "thorough");
  static const int iso[] = {0, 1, 3, 12 + 0, 7, 11, 30, 13 + 1, 15, 31, 63, 33, 45, 51, 60, 54};
  if (th) for (int m = 63; m >= 0; m--) { sprintf(nm, "n4-%d", m); mc_section(strdup(nm), sec4, m | 99 << 8); }
  else for (int i = 0; i < 16; i++) { sprintf(nm, "n4-%d", iso[i]); mc_section(strdup(nm), sec4, iso[i] | 3 << 8); }
  for (int m = 0; m < 27; m++) { sprintf(nm, "n3-%d", m); mc_section(strdup(nm), sec3, m); }
  mc_section("built-4", secb, 4); mc_section("built-5", secb, 5); mc_section("built-3", secb, 3); mc_section("built-2", secb, 2); return mc_main(c, v); }

#endif
