/* C11: network generators under every outcome of their random draws. */
#include "hb.h"
#define HMAX 64
#include "hg.h"
#include "models.h"
#include "tools.h"
static const double TOP = 0.9999999;
static const char *simple(struct node_gra *net, RG *r, int S) { const char *e = rg_read(net, r); if (e) return e; if (r->n != S) return "wrong number of nodes"; static char m[99]; for (int i = 0; i < S; i++) { char b[12]; sprintf(b, "%d", i + 1); if (strcmp(b, r->lab[i])) { snprintf(m, 99, "node %d is called %s", i, r->lab[i]); return m; } if (r->has[i][i]) return "self-link"; for (int j = 0; j < S; j++) if (r->has[i][j] != r->has[j][i]) { snprintf(m, 99, "link %d-%d is not symmetric", i, j); return m; } } return NULL; }
static RG O;
static void empty(long x) { (void)x; for (int S = 0; S <= 40; S++) { mc_case("EmptyGraph(%d)", S); struct node_gra *n = EmptyGraph(S); const char *e = simple(n, &O, S); mc_trans(1); mc_states(1); mc_traces(1); if (!e && TotalNLinks(n, 1)) e = "links"; if (e) mc_fail("empty", "%s", e); RemoveGraph(n); } }
/* ---- models in which every pair has its own draw ---- */
typedef struct { int kind, S, ng, gs[6]; double p, q[6][6], kin, kout; int grp[HMAX]; } M;
static struct node_gra *gen(const M *m) { if (m->kind == 0) return ERGraph(m->S, m->p, mc_rng()); if (m->kind == 2) return GirvanNewmanGraph(m->ng, m->gs[0], m->kin, m->kout, 'q', mc_rng()); double row[6][6], *q[6]; int gs[6]; for (int i = 0; i < m->ng; i++) { gs[i] = m->gs[i]; q[i] = row[i]; for (int j = 0; j < m->ng; j++) row[i][j] = m->q[i][j]; } return UndirectedBlockGraph(m->ng, gs, q, 'q', mc_rng()); }
static double prob(const M *m, int i, int j) { if (m->kind == 0) return m->p; if (m->kind == 2) return m->grp[i] == m->grp[j] ? m->kin / (m->gs[0] - 1) : m->kout / (m->gs[0] * (m->ng - 1)); return m->q[m->grp[i]][m->grp[j]]; }
static struct node_gra *run(const M *m, const double *v, int nv, const char *what) { mc_script(v, nv); mc_script_abort = 0; mc_rc.seed = 1; struct node_gra *n = gen(m); int used = mc_ndraws(); mc_script(NULL, 0); mc_trans(1); mc_traces(1); const char *e = simple(n, &O, m->S); if (e) mc_fail("pairs-simple", "%s: %s", what, e); if (used != nv) mc_fail("pairs-draws", "%d random draws for %d pairs", used, nv); if (m->kind) { struct node_gra *p = n; int i = 0; while ((p = p->next)) { if (p->inGroup != m->grp[i]) mc_fail("pairs-group", "node %d is in group %d, should be %d", i, p->inGroup, m->grp[i]); i++; } } mc_outcome(mc_hash(O.has, sizeof O.has)); RemoveGraph(n); return NULL; }
static void pairs(M *m) { int S = m->S, T = S * (S - 1) / 2; static double v[HMAX * HMAX]; static int di[HMAX * HMAX], dj[HMAX * HMAX]; static int seen[HMAX][HMAX]; memset(seen, 0, sizeof seen); mc_states(1);
  char d[400]; int l = snprintf(d, 400, "%s S=%d", m->kind == 0 ? "ERGraph" : m->kind == 1 ? "UndirectedBlockGraph" : "GirvanNewmanGraph", S); if (m->kind == 0) l += snprintf(d + l, 400 - l, " p=%g", m->p); else { for (int i = 0; i < m->ng; i++) { l += snprintf(d + l, 400 - l, " g%d", m->gs[i]); for (int j = i; j < m->ng && l < 350; j++) if (m->kind == 1) l += snprintf(d + l, 400 - l, ",%g", m->q[i][j]); } if (m->kind == 2) l += snprintf(d + l, 400 - l, " kin=%g kout=%g", m->kin, m->kout); }
  mc_case("%s", d);
  /* all draws highest: only pairs with probability above it are linked */
  for (int i = 0; i < T; i++) v[i] = TOP; run(m, v, T, d); for (int i = 0; i < S; i++) for (int j = 0; j < S; j++) if (i != j && O.has[i][j] != (TOP < prob(m, i, j))) mc_fail("pairs-one", "pair %d-%d with probability %g: link=%d for the highest draws", i, j, prob(m, i, j), O.has[i][j]);
  for (int i = 0; i < T; i++) v[i] = 0; run(m, v, T, d); for (int i = 0; i < S; i++) for (int j = 0; j < S; j++) if (i != j && O.has[i][j] != (0 < prob(m, i, j))) mc_fail("pairs-zero", "pair %d-%d with probability %g: link=%d for draws of zero", i, j, prob(m, i, j), O.has[i][j]);
  /* which pair does draw t decide? */
  int some = 0; for (int t = 0; t < T; t++) { di[t] = dj[t] = -1; for (int i = 0; i < T; i++) v[i] = i == t ? 0 : TOP; mc_case("%s, only draw %d is 0", d, t); run(m, v, T, d); int c = 0; for (int i = 0; i < S; i++) for (int j = i + 1; j < S; j++) { double p = prob(m, i, j); if (p <= TOP && O.has[i][j]) { c++; di[t] = i; dj[t] = j; } } if (c > 1) mc_fail("pairs-one-draw", "draw %d decides %d links", t, c); if (c == 1) { some++; if (seen[di[t]][dj[t]]++) mc_fail("pairs-one-draw", "pair %d-%d decided by two draws", di[t], dj[t]); } }
  int exp = 0; for (int i = 0; i < S; i++) for (int j = i + 1; j < S; j++) { double p = prob(m, i, j); exp += p > 0 && p <= TOP; } if (some != exp) mc_fail("pairs-one-draw", "%d pairs react to their draw, should be %d", some, exp);
  /* thresholds: every pattern of {just below, at, above} for few pairs, one at a time otherwise */
  long pat = 1; int full = T <= 6; if (full) for (int t = 0; t < T; t++) pat *= 3; else pat = T * 3; for (long x = 0; x < pat; x++) { if (mc_timeup()) { mc_capped("time"); return; } long y = x; int k[HMAX * HMAX]; for (int t = 0; t < T; t++) { k[t] = full ? y % 3 : (t == x / 3 ? x % 3 : (t * 7 + x) % 3); y /= 3; double p = di[t] >= 0 ? prob(m, di[t], dj[t]) : 0.5; v[t] = k[t] == 0 ? p - 1e-9 : k[t] == 1 ? p : p + 1e-9; if (v[t] >= 1) v[t] = TOP; if (v[t] < 0) v[t] = 0; } mc_case("%s, thresholds #%ld", d, x); run(m, v, T, d); for (int t = 0; t < T; t++) if (di[t] >= 0 && O.has[di[t]][dj[t]] != (v[t] < prob(m, di[t], dj[t]))) mc_fail("pairs-threshold", "pair %d-%d with probability %.10g and draw %.10g: link=%d", di[t], dj[t], prob(m, di[t], dj[t]), v[t], O.has[di[t]][dj[t]]); }
  mc_sample("%s", d); }
static void er(long S) { double ps[] = {0, 0.1, 0.25, 0.5, 0.9, 1}; for (int i = 0; i < 6; i++) { M m = {0}; m.S = S; m.p = ps[i]; pairs(&m); } }
static void block(long ng) { int szmax = ng <= 2 ? 3 : 2; int tot = 1; for (int i = 0; i < ng; i++) tot *= szmax; double qv[3][6] = {{0, 1, 0.3, 0.7, 0.05, 0.6}, {0.5, 0.2, 0.9, 0, 0.4, 1}, {0.11, 0.22, 0.33, 0.44, 0.55, 0.66}};
  for (int x = 0; x < tot; x++) for (int z = 0; z < 3; z++) { M m = {0}; m.kind = 1; m.ng = ng; int y = x; for (int i = 0; i < ng; i++) { m.gs[i] = 1 + y % szmax; y /= szmax; for (int k = 0; k < m.gs[i]; k++) m.grp[m.S++] = i; } int c = 0; for (int i = 0; i < ng; i++) for (int j = i; j < ng; j++) m.q[i][j] = m.q[j][i] = qv[z][c++ % 6]; pairs(&m); } }
static void gn(long ng) { for (int gs = 2; gs <= 4; gs++) for (int a = 0; a <= 2; a++) for (int b = 0; b < 3; b++) { M m = {0}; m.kind = 2; m.ng = ng; for (int i = 0; i < ng; i++) { m.gs[i] = gs; for (int k = 0; k < gs; k++) m.grp[m.S++] = i; } m.kin = a * 0.45 * (gs - 1); m.kout = b == 0 ? 0 : b == 1 ? 0.7 : 0.3 * gs * (ng > 1 ? ng - 1 : 1); pairs(&m); } }
/* ---- preferential attachment ---- */
static struct { int S, m; } PA;
static void pa_body(void *x) { (void)x; int S = PA.S, m = PA.m; mc_case("PAGraph(%d,%d)", S, m); struct node_gra *n = PAGraph(S, m, mc_rng()); mc_trans(1); const char *e = simple(n, &O, S); if (e) mc_fail("pa-simple", "%s", e); else for (int i = 0; i < S; i++) { int c = 0; for (int j = 0; j < i; j++) c += O.has[i][j]; int w = i < m ? i : m; if (c != w) { mc_fail("pa-links", "node %d has %d links to earlier nodes, should be %d", i, c, w); break; } } mc_outcome(mc_hash(O.has, sizeof O.has)); RemoveGraph(n); }
static double A8[8];
static void pa(long a) { PA.S = a & 255; PA.m = a >> 8; mc_rc.free_depth = mc_thorough ? 5 : 4; mc_rc.max_dev = 1; mc_rc.dev_horizon = 10; mc_rc.nalpha = 8; mc_rc.alpha = A8; mc_rc.hard_horizon = 5000; for (int i = 0; i < 8; i++) A8[i] = i == 7 ? TOP : i / 8.0 + (i ? 0.01 : 0); mc_states(1); mc_dfs(pa_body, NULL); }
/* one link per node: the partner of node k is drawn with probability proportional to degree */
static void pa1(long S) { int den[HMAX]; long tot = 1; for (int k = 1; k < S; k++) { den[k] = k == 1 ? 1 : 2 * (k - 1); tot *= den[k]; } static long cnt[64]; 
  for (long x = 0; x < tot; x++) { double v[HMAX]; long y = x; for (int k = S - 1; k >= 1; k--) { v[k - 1] = (y % den[k] + 0.5) / den[k]; y /= den[k]; } mc_case("PAGraph(%ld,1) draw cells #%ld", S, x); mc_script(v, S - 1); mc_script_abort = 0; struct node_gra *n = PAGraph(S, 1, mc_rng()); mc_script(NULL, 0); mc_trans(1); mc_traces(1); const char *e = simple(n, &O, S); if (e) mc_fail("pa-simple", "%s", e); mc_states(1); RemoveGraph(n); int k = S - 1, j, deg[HMAX] = {0}; for (int i = 0; i < k; i++) for (int q = 0; q < k; q++) deg[i] += O.has[i][q]; for (j = 0; j < k; j++) if (O.has[k][j]) break; if (x % den[k] == 0) memset(cnt, 0, sizeof cnt); cnt[j]++; if (x % den[k] == den[k] - 1 && k > 1) for (int i = 0; i < k; i++) if (cnt[i] != deg[i]) { mc_fail("pa-preferential", "node %d of degree %d is chosen by %ld of %d equally likely draws", i, deg[i], cnt[i], den[k]); break; } } }
/* ---- modular bipartite ---- */
static struct { int nmod, *sz, node, S2, mmin, mmax; double *col, geom, p; int same; } BP;
static void bp_body(void *x) { (void)x; int S1 = 0, start[8]; for (int i = 0; i < BP.nmod; i++) { start[i] = S1; S1 += BP.sz ? BP.sz[i] : BP.node; }
  mc_case("BuildModularBipartiteNetwork nmod=%d S1=%d S2=%d teams %d..%d p=%g %s%s", BP.nmod, S1, BP.S2, BP.mmin, BP.mmax, BP.p, BP.col ? "color probabilities" : "", BP.sz ? " sizes" : "");
  struct binet *B = BuildModularBipartiteNetwork(BP.sz, BP.node, BP.nmod, BP.col, BP.S2, BP.mmin, BP.mmax, BP.geom, BP.p, mc_rng()); mc_trans(1); BG b; const char *e = bg_read(B, &b); char m[200];
  if (!e && (b.n1 != S1 || b.n2 != BP.S2)) { snprintf(m, 200, "%d+%d nodes instead of %d+%d", b.n1, b.n2, S1, BP.S2); e = m; }
  if (!e) { struct node_gra *p = B->net1; int i = 0, mod = 0; while ((p = p->next)) { while (mod + 1 < BP.nmod && i >= start[mod + 1]) mod++; if (p->inGroup != mod) { snprintf(m, 200, "node %d of set 1 is labelled module %d, should be %d", i, p->inGroup, mod); e = m; } char l[12]; sprintf(l, "A%d", i + 1); if (strcmp(l, p->label)) e = "label in set 1"; i++; }
    p = B->net2; i = 0; while ((p = p->next)) { int c = p->inGroup, t = NodeDegree(p); if (c < 0 || c >= BP.nmod) { snprintf(m, 200, "team %d has color %d", i, c); e = m; } else if (BP.col && BP.col[c] <= 0) { snprintf(m, 200, "team %d has color %d of probability 0", i, c); e = m; } else { int cap = BP.sz ? BP.sz[c] : BP.node, own = 0; for (int q = 0; q < S1; q++) if (b.has[q][i] && q >= start[c] && q < start[c] + cap) own++; if (BP.p >= 1 && own != (t < cap ? t : cap)) { snprintf(m, 200, "team %d of color %d and size %d has %d members of its color", i, c, t, own); e = m; } } if (BP.mmin >= 0 && (t < BP.mmin || t > BP.mmax)) { snprintf(m, 200, "team %d has %d members, should be %d..%d", i, t, BP.mmin, BP.mmax); e = m; } char l[12]; sprintf(l, "B%d", i + 1); if (strcmp(l, p->label)) e = "label in set 2"; i++; } }
  if (e) mc_fail("bipart-modular", "%s", e); mc_outcome(mc_hash(b.has, sizeof b.has)); RemoveBipart(B); }
static double A5[6] = {0, 0.24, 0.4, 0.51, 0.76, 0.9999999};
static void bp(long a) { static int s1[3] = {1, 3, 2}, s2[2] = {2, 2}; static double c3[3] = {0.25, 0.25, 0.5}, c0[3] = {0, 0.5, 0.5}, c2[2] = {0.3, 0.7}; double ps[4] = {0, 0.5, 0.9, 1};
  mc_rc.free_depth = mc_thorough ? 5 : 4; mc_rc.max_dev = 1; mc_rc.dev_horizon = 8; mc_rc.nalpha = 6; mc_rc.alpha = A5; mc_rc.hard_horizon = 20000; mc_rc.seed = a;
  for (int pi = 0; pi < 4; pi++) for (int mm = 0; mm < 3; mm++) { memset(&BP, 0, sizeof BP); BP.p = ps[pi]; BP.mmin = mm == 0 ? 2 : mm == 1 ? 1 : 0; BP.mmax = mm == 0 ? 2 : mm == 1 ? 3 : 4; switch (a) { case 0: BP.nmod = 2; BP.node = 2; BP.S2 = 2; break; case 1: BP.nmod = 3; BP.sz = s1; BP.col = c3; BP.S2 = 2; break; case 2: BP.nmod = 3; BP.sz = s1; BP.col = c0; BP.S2 = 1; break; case 3: BP.nmod = 2; BP.sz = s2; BP.col = c2; BP.S2 = 3; break; case 4: BP.nmod = 1; BP.node = 4; BP.S2 = 2; break; } if (mc_timeup()) { mc_capped("time"); return; } mc_states(1); mc_dfs(bp_body, NULL); } }
/* team size and color for every cell of the first two draws; geometric sizes */
static void bpcell(long x) { (void)x; int cnt[8]; static double col[4] = {0.125, 0.375, 0, 0.5}; for (int mmin = 0; mmin <= 2; mmin++) for (int mmax = mmin + 1; mmax <= 4; mmax++) { memset(cnt, 0, sizeof cnt); int N = (mmax + 1 - mmin) * 8, cc[4] = {0}; for (int i = 0; i < 8; i++) for (int j = 0; j < N; j++) { double v[2] = {(i + 0.5) / 8, (j + 0.5) / N}; mc_case("team size cell %d/%d color cell %d/8", j, N, i); mc_script(v, 2); mc_script_abort = 0; mc_rc.seed = j; struct binet *B = BuildModularBipartiteNetwork(NULL, 2, 4, col, 1, mmin, mmax, 0, 0.5, mc_rng()); mc_script(NULL, 0); mc_trans(1); mc_traces(1); int k = NodeDegree(B->net2->next); if (k < 0 || k > 7) mc_fail("bipart-size", "team of size %d", k); else cnt[k]++; int c = B->net2->next->inGroup; if (c < 0 || c > 3) mc_fail("bipart-color", "color %d", c); else cc[c]++; RemoveBipart(B); } for (int k = 0; k < 8; k++) if (cnt[k] != (k >= mmin && k <= mmax ? 64 : 0)) mc_fail("bipart-size", "size %d drawn by %d of %d cells (%d..%d)", k, cnt[k], 8 * N, mmin, mmax); for (int c = 0; c < 4; c++) if (cc[c] != (int)(col[c] * 8 * N + 0.5)) mc_fail("bipart-color", "color %d of probability %g drawn by %d of %d cells", c, col[c], cc[c], 8 * N); mc_states(1); }
  for (int k = 0; k <= 6; k++) { double v[8]; for (int i = 0; i <= k; i++) v[i] = i < k ? 0.6 : 0.5; mc_case("geometric draws: %d above", k); mc_script(v, k + 1); mc_script_abort = 0; int g = geometric_dist_val(0.5, mc_rng()); int u = mc_ndraws(); mc_script(NULL, 0); mc_trans(1); mc_traces(1); mc_states(1); if (g != k || u != k + 1) mc_fail("geometric", "value %d after %d draws, should be %d after %d", g, u, k, k + 1); } }
/* m >= 2: after every history of choices, the share of the unit interval of draws that selects each eligible node must be proportional to its degree */
#define GRID 840
static int pam_choice(int S, int m, const double *v, int n, int who, int which, RG *o) { mc_script(v, n); mc_script_abort = 0; mc_rc.seed = 5; struct node_gra *g = PAGraph(S, m, mc_rng()), *p = g; mc_script(NULL, 0); mc_trans(1); mc_traces(1); const char *e = simple(g, o, S); if (e) { mc_fail("pa-simple", "%s", e); RemoveGraph(g); return -1; } for (int i = 0; i <= who; i++) p = p->next; struct node_lis *l = p->neig->next; for (int i = 0; l && i < which; i++) l = l->next; int r = l && l->ref->num < who ? l->ref->num : -1; RemoveGraph(g); return r; }
static void pam_rec(int S, int m, double *v, int t, int (*ch)[2]) { int who = m + t / m, which = t % m; if (who >= S || mc_timeup()) return; int deg[HMAX] = {0}, lk[HMAX] = {0}; for (int i = 0; i < m; i++) deg[i] = m - 1; for (int k = 0; k < t; k++) { deg[ch[k][0]]++; deg[ch[k][1]]++; if (ch[k][0] == who) lk[ch[k][1]] = 1; } int tot = 0, ne = 0; for (int j = 0; j < who; j++) if (!lk[j] && deg[j]) { tot += deg[j]; ne++; } double rep[HMAX]; int has[HMAX] = {0}; long cnt[HMAX] = {0}, acc = 0; mc_states(1); mc_case("PAGraph(%d,%d), link %d of node %d after draws", S, m, which, who); for (int i = 0; i < t; i++) mc_step(" %.4f", v[i]);
  for (int c = 0; c < GRID; c++) { v[t] = (c + 0.5) / GRID; int r0 = -2, same = 1; for (int f = 0; f < 15 && same; f++) { for (int q = 1; q < 200; q++) v[t + q] = q % 2 ? (f + 0.5) / 15 : ((f + q * 7) % 15 + 0.5) / 15; int r = pam_choice(S, m, v, t + 200, who, which, &O); if (r < 0) return; if (r0 == -2) r0 = r; else if (r != r0) same = 0; if (ne < 2) break; } if (same) { cnt[r0]++; acc++; if (!has[r0]) { has[r0] = 1; rep[r0] = v[t]; } } }
  for (int j = 0; j < who; j++) { double want = lk[j] || !deg[j] ? 0 : (double)deg[j] / tot; if (lk[j] && cnt[j]) mc_fail("pa-repeat", "node %d is chosen twice", j); else if (ne > 1 && fabs((double)cnt[j] / acc - want) > 0.006) { mc_fail("pa-preferential", "node %d of degree %d (of %d) is chosen by a fraction %.4f of the effective draws, should be %.4f", j, deg[j], tot, (double)cnt[j] / acc, want); return; } }
  for (int j = 0; j < who; j++) if (has[j]) { v[t] = rep[j]; ch[t][0] = who; ch[t][1] = j; pam_rec(S, m, v, t + 1, ch); } }
static void pam(long a) { double v[400]; int ch[40][2]; pam_rec(a & 255, a >> 8, v, 0, ch); }
int main(int c, char **v) { int t = getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough"); char b[40]; mc_section("empty", empty, 0);
  for (int S = 0; S <= (t ? 12 : 9); S++) { sprintf(b, "er-%d", S); mc_section(b, er, S); } mc_section("er-30", er, 30);
  for (int g = 1; g <= (t ? 4 : 3); g++) { sprintf(b, "block-%d", g); mc_section(b, block, g); sprintf(b, "gn-%d", g); mc_section(b, gn, g); }
  for (int m = 1; m <= 4; m++) for (int S = m; S <= m + 4; S++) { sprintf(b, "pa-%d-%d", S, m); mc_section(b, pa, S | m << 8); } for (int S = 2; S <= (t ? 7 : 6); S++) { sprintf(b, "pa1-%d", S); mc_section(b, pa1, S); } for (int m = 2; m <= (t ? 4 : 3); m++) for (int S = m + 1; S <= m + (t && m == 2 ? 3 : m == 2 ? 2 : 1); S++) { sprintf(b, "pa-preferential-%d-%d", S, m); mc_section(b, pam, S | m << 8); }
  for (int i = 0; i < 5; i++) { sprintf(b, "bipart-%d", i); mc_section(b, bp, i); } mc_section("bipart-cells", bpcell, 0);
  return mc_main(c, v); }
