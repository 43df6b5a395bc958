/* C05: every distance function against an independent all-pairs computation, on every small graph and
   digraph, every labelled tree up to 7 nodes and long structured families. */
#include "hg.h"
#include "lg.h"

static void run(struct node_gra *net, const LG *g) {
  int n = g->n; static long cnt[LMAX + 1]; static int d[LMAX]; static long from[LMAX][3];
  memset(cnt, 0, sizeof cnt); long pairs = 0; double inv = 0, sum = 0; int z = 0;
  for (int s = 0; s < n; s++) { lg_dist(g, s, d); from[s][0] = from[s][1] = from[s][2] = 0;
    for (int t = 0; t < n; t++) if (t != s && d[t] > 0) { cnt[d[t]]++; pairs++; inv += 1.0 / d[t]; sum += d[t]; from[s][0] += d[t]; from[s][1] += d[t] == 1; } z += from[s][1]; }
  double np = (double)n * (n - 1);
  double r = AveragePathLength(net); mc_trans(1);
  double e = pairs == (long)np ? sum / np : -1;
  if (!mc_close(r, e)) mc_fail("apl", "average path length %.10g, should be %.10g", r, e);
  r = AverageInverseDistance(net); mc_trans(1);
  if (!mc_close(r, inv / np)) mc_fail("aid", "average inverse distance %.10g, should be %.10g", r, inv / np);
  /* histogram */
  char *buf = NULL; size_t sz = 0; FILE *f = open_memstream(&buf, &sz);
  FPrintDistanceHistogram(f, net); fclose(f); mc_trans(1);
  static double seen[LMAX + 1]; for (int i = 0; i <= n; i++) seen[i] = 0; double av = -1, nm = -1, zz = -1;
  for (char *l = strtok(buf, "\n"); l; l = strtok(NULL, "\n")) { int dd; double v;
    if (sscanf(l, "#Average distance = %lf", &v) == 1) av = v; else if (sscanf(l, "#Normalization = %lf", &v) == 1) nm = v; else if (sscanf(l, "#z = %lf", &v) == 1) zz = v;
    else if (sscanf(l, "%d %lf", &dd, &v) == 2) { if (dd < 1 || dd >= n) mc_fail("hist", "histogram reports distance %d in a network of %d nodes", dd, n); else seen[dd] += v; }
    else mc_fail("hist", "unexpected histogram line: %s", l); }
  for (int i = 1; i < n; i++) if (!mc_closet(seen[i], cnt[i] / np, 1e-6)) mc_fail("hist", "fraction at distance %d printed as %g, should be %g", i, seen[i], cnt[i] / np);
  if (!mc_closet(av, sum / np, 1e-6)) mc_fail("hist-av", "histogram average distance %g, should be %g", av, sum / np);
  if (!mc_closet(nm, pairs / np, 1e-6)) mc_fail("hist-norm", "histogram normalization %g, should be %g", nm, pairs / np);
  if (!mc_closet(zz, z / (double)n, 1e-6)) mc_fail("hist-z", "histogram z %g, should be %g", zz, z / (double)n);
  free(buf);
  int step = n > 20 ? n / 7 : 1;
  for (int s = 0; s < n; s += step) { buf = NULL; f = open_memstream(&buf, &sz); FPrintDistanceHistogramFromNode(f, net, s); fclose(f); mc_trans(1);
    av = zz = -1; for (char *l = strtok(buf, "\n"); l; l = strtok(NULL, "\n")) { double v; if (sscanf(l, "#Average distance = %lf", &v) == 1) av = v; else if (sscanf(l, "#z = %lf", &v) == 1) zz = v; }
    if (!mc_closet(av, from[s][0] / (double)(n - 1), 1e-6)) mc_fail("from-av", "average distance from node %d printed as %g, should be %g", s, av, from[s][0] / (double)(n - 1));
    if (!mc_closet(zz, from[s][1], 1e-6)) mc_fail("from-z", "number of neighbours of node %d printed as %g, should be %ld", s, zz, from[s][1]);
    free(buf); }
  mc_states(1); mc_traces(1); { double o[2] = {sum, inv}; mc_outcome(mc_hash(o, sizeof o)); }
}
static void toLG(const RG *r, LG *g) { g->n = r->n; for (int i = 0; i < r->n; i++) for (int j = 0; j < r->n; j++) g->a[i][j] = r->has[i][j] && i != j; }
static LG G;
static void one(const RG *r, int rev) {
  mc_case("%s%s", rg_text(r), rev ? " (links inserted in reverse)" : "");
  struct node_gra *net = rev ? rg_build_rev(r, NULL) : rg_build(r, NULL); toLG(r, &G); run(net, &G); RemoveGraph(net);
}
static int lo(long a) { return a & 255; }
/* arg: n + 256*part + 65536*parts */
static void undirected(long a) { int n = lo(a), part = a >> 8 & 255, parts = a >> 16; unsigned long M = 1ul << (n * (n - 1) / 2); RG r;
  for (unsigned long m = part; m < M; m += parts) { if (mc_timeup()) { mc_capped("time"); return; } rg_mask(&r, n, m); one(&r, 0); if (n <= 5) { one(&r, 1);
      /* self-loops and weights must not matter */
      for (int i = 0; i < n; i++) { if ((m >> i) & 1) { r.has[i][i] = 1; r.w[i][i] = 2; } for (int j = 0; j < n; j++) if (r.has[i][j]) r.w[i][j] = 0.5 + i + j; } one(&r, 0); } if (m == M / 3) mc_sample("%s", rg_text(&r)); } }
static void directed(long a) { int n = lo(a), part = a >> 8 & 255, parts = a >> 16; unsigned long M = 1ul << (n * (n - 1)); RG r;
  for (unsigned long m = part; m < M; m += parts) { if (mc_timeup()) { mc_capped("time"); return; } rg_dmask(&r, n, m); one(&r, 0); if (n <= 3) one(&r, 1); if (m == M / 3) mc_sample("%s", rg_text(&r)); } }
static void trees(long n) { int c[HMAX] = {0}; RG r; /* Pruefer sequences */
  for (;;) { if (mc_timeup()) { mc_capped("time"); return; } rg_init(&r, n); int deg[HMAX]; for (int i = 0; i < n; i++) deg[i] = 1; for (int i = 0; i < n - 2; i++) deg[c[i]]++;
    for (int i = 0; i < n - 2; i++) for (int j = 0; j < n; j++) if (deg[j] == 1) { rg_link(&r, j, c[i], 1); deg[j]--; deg[c[i]]--; break; }
    int u = -1; for (int j = 0; j < n; j++) if (deg[j] == 1) { if (u < 0) u = j; else { rg_link(&r, u, j, 1); break; } }
    one(&r, 0); int k = 0; while (k < n - 2 && ++c[k] == n) c[k++] = 0; if (k >= n - 2) break; } }
static void families(long f) { int sizes[] = {2,3,4,5,6,7,8,9,10,11,12,13,16,17,25,31,32,33,48,64,65,100,101,127,128,129,150,200,257,300};
  for (unsigned i = 0; i < sizeof sizes / sizeof *sizes; i++) { int n = sizes[i]; if ((f == 5 || f == 8) && n > 65) break; if (n > 101 && f > 1 && !mc_thorough) break; if (mc_timeup()) { mc_capped("time"); return; }
    lg_family(&G, f, n); mc_case("%s of %d nodes", lg_name[f], n); struct node_gra *net = lg_build(&G, NULL); run(net, &G); RemoveGraph(net);
    if (n >= 4) { /* two components */ for (int k = 0; k < n; k++) { G.a[n / 2][k] = G.a[k][n / 2] = 0; } mc_case("%s of %d nodes without the links of node %d", lg_name[f], n, n / 2); net = lg_build(&G, NULL); run(net, &G); RemoveGraph(net); }
    if (n <= 65) { /* one-way links i->j for i<j */ lg_family(&G, f, n); for (int x = 0; x < n; x++) for (int y = 0; y < x; y++) if ((x + y) % 3) G.a[x][y] = 0; mc_case("one-way %s of %d nodes", lg_name[f], n); net = lg_build(&G, NULL); run(net, &G); RemoveGraph(net); } } }
int main(int c, char **v) { int t = getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough"); char b[40];
  for (int n = 2; n <= 5; n++) { sprintf(b, "undirected-%d", n); mc_section(b, undirected, n | 1 << 16); }
  for (int n = 2; n <= 3; n++) { sprintf(b, "directed-%d", n); mc_section(b, directed, n | 1 << 16); }
  for (int p = 0; p < 8; p++) { sprintf(b, "directed-4-%d", p); mc_section(b, directed, 4 | p << 8 | 8 << 16); sprintf(b, "undirected-6-%d", p); mc_section(b, undirected, 6 | p << 8 | 8 << 16); }
  for (int n = 4; n <= (t ? 8 : 7); n++) { sprintf(b, "trees-%d", n); mc_section(b, trees, n); }
  if (t) for (int p = 0; p < 16; p++) { sprintf(b, "directed-5-%d", p); mc_section(b, directed, 5 | p << 8 | 16 << 16); sprintf(b, "undirected-7-%d", p); mc_section(b, undirected, 7 | p << 8 | 16 << 16); }
  for (int f = 0; f < LG_NFAM; f++) { sprintf(b, "family-%s", lg_name[f]); mc_section(b, families, f); }
  return mc_main(c, v); }
