/* C10: randomization, removal and addition of random links, for every choice the random numbers make. */
#include "hb.h"
#include "hg.h"
static uint64_t shape(const RG *r) { uint64_t m = 0; for (int i = 0; i < r->n; i++) for (int j = 0; j < r->n; j++) m = m * 2 + r->has[i][j]; return m; }
/* ---- networks: one or several switches ---- */
static const char *legal(const RG *a, const RG *b) { /* b is a randomized version of a */ static char m[200]; if (a->n != b->n) return "number of nodes changed"; for (int i = 0; i < a->n; i++) { if (strcmp(a->lab[i], b->lab[i])) return "nodes changed"; if (b->has[i][i]) return "self-link created"; int k = 0, q = 0; for (int j = 0; j < a->n; j++) { k += a->has[i][j]; q += b->has[i][j]; if (b->has[i][j] != b->has[j][i]) { snprintf(m, 200, "link %s-%s is not symmetric", a->lab[i], a->lab[j]); return m; } } if (k != q) { snprintf(m, 200, "degree of %s changed from %d to %d", a->lab[i], k, q); return m; } } return NULL; }
static int closure1(const RG *r, mc_set *s) { /* all networks one switch away */ int c = 0, n = r->n; for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) if (r->has[a][b]) for (int x = 0; x < n; x++) for (int y = 0; y < n; y++) if (r->has[x][y] && x != a && x != b && y != a && y != b && !r->has[a][y] && !r->has[x][b]) { RG t = *r; t.has[a][b] = t.has[b][a] = t.has[x][y] = t.has[y][x] = 0; t.has[a][y] = t.has[y][a] = t.has[x][b] = t.has[b][x] = 1; if (s) c += mc_set_add(s, shape(&t)); else c++; } return c; }
static int randomize(const RG *r, double times, double *v, int nv, RG *out, int rev) { struct node_gra *nl[HMAX]; struct node_gra *net = rev ? rg_build_rev(r, nl) : rg_build(r, nl); if (rev) for (int i = 0; i < r->n; i++) { NodeDegree(nl[i]); NodeStrength(nl[i]); }
  mc_script(v, nv); mc_script_abort = 0; struct node_gra *res = RandomizeSymmetricNetwork(net, times, mc_rng()); mc_script(NULL, 0); mc_trans(1);
  const char *e = rg_read(res, out); if (!e) e = legal(r, out); if (e) mc_fail("randomize", "randomized network: %s", e);
  struct node_gra *p = res; int i = 0; while ((p = p->next) && i < r->n) { if ((int)NodeDegree(p) != rg_deg(r, i)) mc_fail("randomize-degree", "NodeDegree(%s) is %d, should be %d", r->lab[i], NodeDegree(p), rg_deg(r, i)); i++; }
  if (TotalNLinks(res, 1) * 2 != TotalNLinks(res, 0)) mc_fail("randomize", "TotalNLinks"); RemoveGraph(res); return 0; }
static void rnd1(long a) { int n = a & 255, part = a >> 8 & 255, parts = a >> 16; unsigned long M = 1ul << (n * (n - 1) / 2); RG r, o;
  for (unsigned long m = part; m < M; m += parts) { rg_mask(&r, n, m); if (mc_timeup()) { mc_capped("time"); return; } if (!closure1(&r, NULL)) continue; mc_states(1); int L = __builtin_popcountl(m);
    mc_set want = {0}, got = {0}; int nw = closure1(&r, &want), ng = 0;
    for (int rev = 0; rev < 2; rev++) for (int t1 = 0; t1 < L; t1++) for (int t2 = 0; t2 < L; t2++) for (int c = 0; c < 2; c++) { double v[4] = {0.5, (t1 + 0.5) / L, (t2 + 0.5) / L, c ? 0.75 : 0.25}; mc_case("%s: one switch, draws %.3f %.3f %.2f%s", rg_text(&r), v[1], v[2], v[3], rev ? " (reversed lists)" : ""); mc_rc.seed = 1 + t1 + 7 * t2; randomize(&r, 0, v, 4, &o, rev); mc_traces(1); uint64_t s = shape(&o); mc_set w2 = want; (void)w2; mc_outcome(s + m * 977); if (mc_set_add(&got, s)) ng++; if (mc_set_add(&want, s)) mc_fail("randomize-1", "result is not one switch away from the original"); }
    if (ng != nw) mc_fail("randomize-reach", "only %d of the %d networks one switch away can be produced", ng, nw); mc_set_free(&want); mc_set_free(&got); if (m % 37 == 1) mc_sample("%s", rg_text(&r)); } }
static void rnd2(long n) { unsigned long M = 1ul << (n * (n - 1) / 2); RG r, o; static double nh[2] = {0.25, 0.75};
  for (unsigned long m = 0; m < M; m++) { int L = __builtin_popcountl(m); if (L > (mc_thorough ? 7 : 5)) continue; rg_mask(&r, n, m); if (!closure1(&r, NULL)) continue; mc_states(1); int b = 2 * L * L;
    for (int x = 0; x < b * b; x++) { if (mc_timeup()) { mc_capped("time"); return; } double v[7] = {0.5}; int y = x; for (int k = 0; k < 2; k++) { v[3 * k + 1] = (y % L + 0.5) / L; y /= L; v[3 * k + 2] = (y % L + 0.5) / L; y /= L; v[3 * k + 3] = nh[y % 2]; y /= 2; } mc_case("%s: two switches, draws #%d", rg_text(&r), x); mc_rc.seed = x; randomize(&r, 1.0 / L, v, 7, &o, 0); mc_traces(1); } } }
static void rndmany(long n) { unsigned long M = 1ul << (n * (n - 1) / 2); RG r, o; for (unsigned long m = 0; m < M; m += n > 5 ? 7 : 1) { rg_mask(&r, n, m); if (!closure1(&r, NULL)) continue; if (mc_timeup()) { mc_capped("time"); return; } mc_states(1); for (int s = 0; s < 3; s++) { mc_case("%s: 5 switches per link, stream %d", rg_text(&r), s); mc_rc.seed = s; randomize(&r, 5, NULL, 0, &o, s & 1); mc_traces(1); } } }
/* ---- bipartite ---- */
static int bgood(const BG *b) { int L = bg_links(b); int any = 0; for (int i = 0; i < b->n1; i++) for (int j = 0; j < b->n2; j++) { int k1 = 0, k2 = 0; for (int y = 0; y < b->n2; y++) k1 += b->has[i][y]; for (int x = 0; x < b->n1; x++) k2 += b->has[x][j]; if (k1 && k2 && k1 + k2 >= L) return 0; if (b->has[i][j]) for (int x = 0; x < b->n1; x++) for (int y = 0; y < b->n2; y++) if (b->has[x][y] && x != i && y != j && !b->has[i][y] && !b->has[x][j]) any = 1; } return any; }
static void brnd(long a) { int n1 = a & 15, n2 = a >> 4 & 15, two = a >> 8; BG b, o; unsigned long M = 1ul << (n1 * n2); for (unsigned long m = 0; m < M; m++) { bg_mask(&b, n1, n2, m); if (!bgood(&b)) continue; int L = bg_links(&b); if (two && L > 6) continue; mc_states(1); int tot = two ? L * L * L * L : L * L; mc_set got = {0}; 
    for (int x = 0; x < tot; x++) { if (mc_timeup()) { mc_capped("time"); return; } double v[4]; int y = x; for (int k = 0; k < 4; k++) { v[k] = (y % L + 0.5) / L; y /= L; } mc_case("%s: %d switches, draws #%d", bg_text(&b), 1 + two, x); struct node_gra *xx[BM], *yy[BM]; struct binet *B = bg_build(&b, xx, yy); if (x & 1) for (int i = 0; i < n1; i++) NodeDegree(xx[i]);
      mc_script(v, two ? 4 : 2); mc_script_abort = 0; mc_rc.seed = x; struct binet *R = RandomizeBipart(B, (1 + two) / (double)L - 1e-9, mc_rng()); mc_script(NULL, 0); mc_trans(1); mc_traces(1);
      const char *e = bg_read(R, &o); if (!e) { if (o.n1 != n1 || o.n2 != n2) e = "number of nodes changed"; for (int i = 0; i < n1 && !e; i++) { int k = 0, q = 0; for (int j = 0; j < n2; j++) { k += b.has[i][j]; q += o.has[i][j]; } if (k != q) e = "degree in set 1 changed"; } for (int j = 0; j < n2 && !e; j++) { int k = 0, q = 0; for (int i = 0; i < n1; i++) { k += b.has[i][j]; q += o.has[i][j]; } if (k != q) e = "degree in set 2 changed"; } } if (e) mc_fail("randomize-bipart", "randomized bipartite network: %s", e); if (NLinksBipart(R) != L) mc_fail("randomize-bipart", "number of links changed"); uint64_t h = mc_hash(o.has, sizeof o.has); mc_set_add(&got, h); mc_outcome(h); RemoveBipart(R); }
    if (!two) { int want = 0; mc_set w = {0}; for (int i = 0; i < n1; i++) for (int j = 0; j < n2; j++) for (int x = 0; x < n1; x++) for (int y = 0; y < n2; y++) if (b.has[i][j] && b.has[x][y] && x != i && y != j && !b.has[i][y] && !b.has[x][j]) { BG t = b; t.has[i][j] = t.has[x][y] = 0; t.has[i][y] = t.has[x][j] = 1; want += mc_set_add(&w, mc_hash(t.has, sizeof t.has)); } if ((int)got.n != want) mc_fail("bipart-reach", "%d different results of one switch, should be %d", (int)got.n, want); mc_set_free(&w); } mc_set_free(&got); if (m % 101 == 3) mc_sample("%s", bg_text(&b)); } }
/* ---- removal / addition ---- */
static double ui(int i, int N) { return (i + 0.5) / N; }
static void remadd1(const RG *r, int sym, int k, int add, int rev) { int n = r->n, T = 0; for (int i = 0; i < n; i++) for (int j = sym ? i : 0; j < n; j++) T += r->has[i][j]; int cap = 0; for (int i = 0; i < n; i++) for (int j = sym ? i + 1 : 0; j < n; j++) cap += i != j && !r->has[i][j]; if (add ? k > cap : k > T) return;
  int base = add ? n * n : T, tot = 1; for (int i = 0; i < k; i++) tot *= base; mc_set got = {0}; double expect = 1; for (int i = 0; i < k; i++) expect = expect * ((add ? cap : T) - i) / (i + 1);
  for (int x = 0; x < tot; x++) { double v[12]; int nv = 0, y = x; for (int i = 0; i < k; i++) { int c = y % base; y /= base; if (add) { v[nv++] = ui(c / n, n); v[nv++] = ui(c % n, n); } else v[nv++] = ui(c, T); }
    mc_case("%s %d random links (%s), %s, draws #%d", add ? "add" : "remove", k, sym ? "symmetric" : "directed", rg_text(r), x); struct node_gra *nl[HMAX]; struct node_gra *net = rev ? rg_build_rev(r, nl) : rg_build(r, nl); if (x & 1) for (int i = 0; i < n; i++) { NodeDegree(nl[i]); NodeStrength(nl[i]); }
    mc_script(v, nv); mc_script_abort = 0; mc_rc.seed = x; if (add) AddRandomLinks(net, k, sym, mc_rng()); else RemoveRandomLinks(net, k, sym, mc_rng()); mc_script(NULL, 0); mc_trans(1); mc_traces(1);
    RG o; const char *e = rg_read(net, &o); char b[99]; if (!e && o.n != n) e = "number of nodes changed"; int gone = 0, came = 0; if (!e) for (int i = 0; i < n; i++) for (int j = sym ? i : 0; j < n; j++) { if (sym && o.has[i][j] != o.has[j][i]) e = "a link is no longer symmetric"; gone += r->has[i][j] && !o.has[i][j]; came += !r->has[i][j] && o.has[i][j]; if (i == j && !r->has[i][i] && o.has[i][i]) e = "self-link created"; if (r->has[i][j] && o.has[i][j] && r->w[i][j] != o.w[i][j]) e = "weight of another link changed"; } if (!e && (gone != (add ? 0 : k) || came != (add ? k : 0))) { snprintf(b, 99, "%d links disappeared and %d appeared", gone, came); e = b; } if (!e) for (int i = 0; i < n; i++) if ((int)NodeDegree(nl[i]) != rg_deg(&o, i) || !mc_close(NodeStrength(nl[i]), rg_str(&o, i))) e = "degree or strength not updated"; if (!e && TotalNLinks(net, sym) != T + (add ? k : -k)) e = "TotalNLinks"; if (e) mc_fail(add ? "add-links" : "remove-links", "%s", e); mc_set_add(&got, shape(&o)); mc_outcome(shape(&o)); RemoveGraph(net); }
  if (k <= 2 && (double)got.n != expect) mc_fail(add ? "add-reach" : "remove-reach", "%s %d links of %s: %d different results, should be %g", add ? "adding" : "removing", k, rg_text(r), (int)got.n, expect); mc_set_free(&got); }
static void remadd(const RG *r, int sym, int k, int add) { remadd1(r, sym, k, add, 0); if (k <= 2) remadd1(r, sym, k, add, 1); }
static void links_u(long a) { int n = a & 255, part = a >> 8 & 255, parts = a >> 16; RG r; unsigned long M = 1ul << (n * (n - 1) / 2); for (unsigned long m = part; m < M; m += parts) { if (mc_timeup()) { mc_capped("time"); return; } rg_mask(&r, n, m); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (r.has[i][j]) r.w[i][j] = 1 + i * j; mc_states(1); int mk = n <= 4 ? 3 : 2; for (int k = 0; k <= mk; k++) for (int add = 0; add < 2; add++) { if (add && k == 3 && n > 3 && !mc_thorough) continue; if (add && k == 2 && n > 4 && !mc_thorough && m % 16) continue; remadd(&r, 1, k, add); } /* removal of all links */ if (m % 61 == 5) mc_sample("%s", rg_text(&r)); } }
static void links_d(long n) { RG r; unsigned long M = 1ul << (n * (n - 1)); for (unsigned long m = 0; m < M; m++) { if (mc_timeup()) { mc_capped("time"); return; } rg_dmask(&r, n, m); mc_states(1); for (int k = 0; k <= (n < 4 ? 3 : 1); k++) for (int add = 0; add < 2; add++) remadd(&r, 0, k, add); } }
#ifndef LARGE
void large_register(void);
int main(int c, char **v) { int t = getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough"); char b[40]; large_register();
  for (int n = 4; n <= 5; n++) { sprintf(b, "switch1-%d", n); mc_section(b, rnd1, n | 1 << 16); }
  for (int p = 0; p < 16; p++) if (t) { sprintf(b, "switch1-6-%d", p); mc_section(b, rnd1, 6 | p << 8 | 16 << 16); }
  mc_section("switch2-4", rnd2, 4); mc_section("switch2-5", rnd2, 5); mc_section("switch-many-5", rndmany, 5); mc_section("switch-many-6", rndmany, 6);
  mc_section("bipart-3x3", brnd, 3 | 3 << 4); mc_section("bipart-2x4", brnd, 2 | 4 << 4); mc_section("bipart-3x4", brnd, 3 | 4 << 4); mc_section("bipart-4x3", brnd, 4 | 3 << 4); mc_section("bipart2-3x3", brnd, 3 | 3 << 4 | 1 << 8); if (t) mc_section("bipart2-3x4", brnd, 3 | 4 << 4 | 1 << 8);
  for (int n = 2; n <= 4; n++) { sprintf(b, "links-%d", n); mc_section(b, links_u, n | 1 << 16); } for (int p = 0; p < 8; p++) { sprintf(b, "links-5-%d", p); mc_section(b, links_u, 5 | p << 8 | 8 << 16); }
  mc_section("dlinks-2", links_d, 2); mc_section("dlinks-3", links_d, 3); mc_section("dlinks-4", links_d, 4);
  return mc_main(c, v); }
#endif
