/* C30: what is built on the link scores: the model's error on a network, its structure score, the network estimated from the scores, and the reconstruction of a
   network by up-hill search.  The scores themselves (C23) are replaced by scripted ones, so every combination of scores and network can be enumerated; for the search
   every sequence of improving, equal and worse outcomes is. */
#define HMAX 12
#include "hg.h"
#include "missing.h"
#include "tools.h"
/* lookup tables (C25) replaced by direct evaluation: the real ones take up to 800 MB per call */
double **InitializeFastLogChoose(int n){ (void)n; return calloc(1,sizeof(double*)); } void FreeFastLogChoose(double **p,int n){ (void)n; free(p); } double FastLogChoose(int r,int l,double **p,int n){ (void)p;(void)n; return LogChoose(r,l); }
double *InitializeFastLogFact(int n){ (void)n; return calloc(1,sizeof(double)); } void FreeFastLogFact(double *p){ free(p); } double FastLogFact(int r,double *p,int n){ (void)p;(void)n; return lgamma(r+1.); }

static int real;                                  /* 1: nothing replaced */
static struct node_gra *inNet; static RG in;      /* the network the function was called with */
static double S[HMAX][HMAX];                      /* scripted scores */
static int nls; static void (*onLinkScore)(struct node_gra *);
double **real_LinkScore(struct node_gra *, double, int, gsl_rng *, char);
double **LinkScore(struct node_gra *net, double lc, int it, gsl_rng *g, char v) {
  nls++;
  if (lc != 0) mc_fail("model", "link scores with linear term %g", lc);
  if (it < 100) mc_fail("samples", "link scores from %d samples", it);
  if (real) return real_LinkScore(net, lc, it < 60 ? it : 60, g, 'q');
  if (onLinkScore) onLinkScore(net);
  int n = in.n; double **m = allocate_d_mat(n, n);
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) m[i][j] = i == j ? 0 : S[i][j];
  return m;
}
static const char *same(struct node_gra *net, const RG *w) {   /* same nodes, same links (weights apart) */
  RG r; const char *e = rg_read(net, &r); if (e) return e;
  static char m[200];
  if (r.n != w->n) { snprintf(m, 200, "%d nodes instead of %d", r.n, w->n); return m; }
  for (int i = 0; i < r.n; i++) if (strcmp(r.lab[i], w->lab[i])) { snprintf(m, 200, "node %d is %s instead of %s", i, r.lab[i], w->lab[i]); return m; }
  for (int i = 0; i < r.n; i++) for (int j = 0; j < r.n; j++) if (!r.has[i][j] != !w->has[i][j]) { snprintf(m, 200, "%s-%s is %slinked", r.lab[i], r.lab[j], r.has[i][j] ? "" : "not "); return m; }
  return NULL;
}
static char *smat(void) { static char b[600]; int l = 0; b[0] = 0; for (int i = 0; i < in.n; i++) for (int j = i + 1; j < in.n && l < 540; j++) l += sprintf(b + l, " %g", S[i][j]); return b; }
static void setS(const double *v) { int k = 0; for (int i = 0; i < in.n; i++) for (int j = i + 1; j < in.n; j++, k++) S[i][j] = S[j][i] = v[k]; }

/* ---- error and network from scores ---- */
static double wantErr(const RG *g) { double s = 0; int c = 0; for (int i = 0; i < g->n; i++) for (int j = i + 1; j < g->n; j++, c++) s += pow((g->has[i][j] ? 1 : 0) - S[i][j], 2); return sqrt(s / c); }
static void one(const RG *g, const double *v, int what) {
  in = *g; setS(v); real = 0; onLinkScore = NULL; nls = 0;
  struct node_gra *N = mc_choose(2) ? rg_build_rev(g, NULL) : rg_build(g, NULL); inNet = N;
  gsl_rng *rg = mc_rng(); const char *e;
  mc_step("scores%s", smat()); mc_trans(1);
  if (what == 0) {
    double x = SBMError(N, rg), w = wantErr(g);
    if (!mc_closet(x, w, 1e-9)) mc_fail("error", "error %.12g instead of %.12g", x, w);
    mc_outcome(mc_hash(&w, 8));
  } else {
    struct node_gra *E = NetFromSBMScores(N, rg); RG w = *g;
    for (int i = 0; i < g->n; i++) for (int j = 0; j < g->n; j++) w.has[i][j] = i != j && S[i][j] > 0.5;
    if ((e = same(E, &w))) mc_fail("estimate", "network from scores: %s", e);
    if (E == N) mc_fail("estimate", "the network itself was returned"); else RemoveGraph(E);
    mc_outcome(rg_hash(&w));
  }
  if ((e = same(N, g))) mc_fail("untouched", "the network changed: %s", e);
  if (!nls) mc_fail("scores", "no link scores asked for");
  RemoveGraph(N);
}
static struct { RG g; double v[80]; int what; } A;
static void oneBody(void *x) { (void)x; one(&A.g, A.v, A.what); }
static void scores(long arg) {
  int what = arg & 1, n = arg >> 1 & 7; static const double val[] = {0, 1, 0.5, 0.25, 0.75, 0.5000001, 0.4999999};
  int np = n * (n - 1) / 2, nv = n <= 3 ? 7 : n == 4 ? 3 + mc_thorough * 2 : 2; const double *vv = n <= 3 ? val : what ? (n == 4 ? val + 2 : (double[]){0.5, 0.9}) : n == 4 ? val + 1 : (double[]){0.1, 0.7};
  if (n == 4 && mc_thorough) vv = val;
  long tot = 1; for (int i = 0; i < np; i++) tot *= nv;
  for (long m = 0; m < 1L << np; m += n == 5 ? (mc_thorough ? 3 : 29) : 1) {
    rg_mask(&A.g, n, m); A.what = what; if (m % 3 == 1) for (int i = 0; i < n; i++) snprintf(A.g.lab[i], 16, "x%d", (i * 7 + 3) % 10);
    mc_states(1); mc_case("%s on %s", what ? "NetFromSBMScores" : "SBMError", rg_text(&A.g));
    for (long q = 0; q < tot; q++) { long x = q; for (int i = 0; i < np; i++) { A.v[i] = vv[x % nv]; x /= nv; } mc_case("%s on %s", what ? "NetFromSBMScores" : "SBMError", rg_text(&A.g)); mc_dfs(oneBody, NULL); }
    if (mc_timeup()) { mc_capped("time"); return; }
  }
}
static void fam(RG *g, int w, int n) {
  rg_init(g, n);
  for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) {
    int l = w == 0 ? (i * 3 + j * 5) % 4 == 0 : w == 1 ? 1 : w == 2 ? 0 : w == 3 ? i == 0 : j == i + 1;
    if (l) rg_link(g, i, j, 1);
  }
}
static void scoresBig(long what) {
  for (int n = 6; n <= 12; n++) for (int w = 0; w < 5; w++) for (int k = 0; k < 9; k++) {
    fam(&A.g, w, n); A.what = what; int p = 0;
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++, p++) A.v[p] = k == 8 ? 0.5 : ((p * (2 * k + 1) + k) % 11) / 10.;
    mc_case("%s on %s", what ? "NetFromSBMScores" : "SBMError", rg_text(&A.g)); mc_states(1); mc_dfs(oneBody, NULL);
  }
}

/* ---- structure score ---- */
static int scriptErr; static double errs[10]; static int nerr, moved; static RG degs;
double real_SBMError(struct node_gra *, gsl_rng *);
double SBMError(struct node_gra *net, gsl_rng *g) {
  if (!scriptErr) return real_SBMError(net, g);
  const char *e; RG r;
  if (nerr == 0) { if ((e = same(net, &degs))) mc_fail("original", "first error is not that of the network: %s", e); }
  else if ((e = rg_read(net, &r))) mc_fail("randomized", "%s", e);
  else {
    int d = 0; if (r.n != degs.n) mc_fail("randomized", "%d nodes", r.n);
    else for (int i = 0; i < r.n; i++) { if (rg_deg(&r, i) != rg_deg(&degs, i) || strcmp(r.lab[i], degs.lab[i])) mc_fail("randomized", "node %s has degree %d instead of %d", r.lab[i], rg_deg(&r, i), rg_deg(&degs, i)); if (r.has[i][i]) mc_fail("randomized", "self-link"); for (int j = 0; j < r.n; j++) { if (r.has[i][j] != r.has[j][i]) mc_fail("randomized", "one-way link"); d |= r.has[i][j] != degs.has[i][j]; } }
    moved += d;
  }
  return nerr < 10 ? errs[nerr++] : 0;
}
static int switchable(const RG *g) { int n = g->n; for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) for (int c = 0; c < n; c++) for (int d = 0; d < n; d++) if (a != b && c != d && a != c && a != d && b != c && b != d && g->has[a][b] && g->has[c][d] && !g->has[a][d] && !g->has[b][c]) return 1; return 0; }
static void structure(long n) {
  int tot = 0; moved = 0; int ex = 0;
  for (long m = 0; m < 1L << (n * (n - 1) / 2); m += n == 6 ? (mc_thorough ? 31 : 331) : n == 5 ? (mc_thorough ? 1 : 3) : 1) {
    RG g; rg_mask(&g, n, m); if (!switchable(&g)) continue; mc_states(1);
    for (int nrep = 2; nrep <= 4; nrep++) for (int q = 0; q < 3; q++) {
      mc_case("SBMStructureScore of %s, %d randomizations, errors %d", rg_text(&g), nrep, q); mc_trans(1);
      static const double ev[3][5] = {{0.2, 0.3, 0.5, 0.45, 0.1}, {0.6, 0.3, 0.2, 0.25, 0.8}, {0.4, 0.4, 0.3, 0.5, 0.4}};
      memcpy(errs, ev[q], sizeof ev[q]); degs = g; nerr = 0; scriptErr = 1; real = 0;
      struct node_gra *N = rg_build(&g, NULL); gsl_rng *r = gsl_rng_alloc(gsl_rng_mt19937); gsl_rng_set(r, m + nrep + q);
      double x = SBMStructureScore(N, nrep, r), mu = 0, v = 0; scriptErr = 0;
      for (int i = 1; i <= nrep; i++) mu += errs[i] / nrep; for (int i = 1; i <= nrep; i++) v += pow(errs[i] - mu, 2) / nrep;
      if (nerr != nrep + 1) mc_fail("count", "%d errors computed for %d randomizations", nerr, nrep);
      else if (!mc_closet(x, (mu - errs[0]) / sqrt(v), 1e-8)) mc_fail("structure", "score %.10g instead of %.10g", x, (mu - errs[0]) / sqrt(v));
      const char *e = same(N, &g); if (e) mc_fail("untouched", "the network changed: %s", e);
      mc_outcome(mc_hash(&x, 8)); mc_traces(1); tot += nrep; RemoveGraph(N); gsl_rng_free(r); ex++;
    }
    if (mc_timeup()) { mc_capped("time"); return; }
  }
  mc_case("SBMStructureScore, all networks of %ld nodes", n);
  if (ex && moved * 10 < tot) mc_fail("randomized", "only %d of %d randomized networks differ from the original", moved, tot);
}

/* ---- reconstruction ---- */
static struct { RG g, cur, prop; int rejected, changed, accepts, maxacc, rounds, mode, pending, ncalls, ended; double best, sc; } T;
static void settle(void) { if (T.pending) { T.pending = 0; if (T.sc > T.best) { T.cur = T.prop; T.best = T.sc; T.rejected = 0; T.changed = 1; T.accepts++; } else T.rejected++; } }
static void perm(int q) {   /* scripted scores for one round */
  int n = T.g.n, np = n * (n - 1) / 2; double v[80];
  if (np == 3) { static const int P[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}; for (int i = 0; i < 3; i++) v[i] = 0.2 + 0.3 * P[q][i]; }
  else for (int i = 0; i < np; i++) v[i] = q == 0 ? 0.1 + i * .8 / np : q == 1 ? 0.9 - i * .8 / np : q == 2 ? 0.5 : q == 3 ? 0.1 + ((i * 5 + 2) % (np + 1)) * .8 / (np + 1) : 0.3 + i % 2 * .3;
  setS(v);
}
static int possible(const RG *g) { int l = 0, u = 0; for (int i = 0; i < g->n; i++) for (int j = i + 1; j < g->n; j++) if (g->has[i][j]) l = 1; else u = 1; return l && u; }
static void roundBegins(struct node_gra *net) {
  settle(); const char *e;
  if (T.rounds && T.rejected < 5 && possible(&T.g)) mc_fail("patience", "new round after %d consecutive rejections", T.rejected);
  if (T.rounds && !T.changed) mc_fail("stop", "new round although the last one changed nothing");
  if ((e = same(net, &T.cur))) mc_fail("state", "link scores for another network than the one reached: %s", e);
  T.rounds++; T.rejected = 0; T.changed = 0;
  mc_step("; round %d:", T.rounds); perm(mc_choose(T.g.n == 3 ? 6 : mc_thorough ? 5 : 4)); mc_step("%s;", smat());
}
double real_NetworkScore(struct node_gra *, struct node_gra *, double, int, gsl_rng *, char);
double NetworkScore(struct node_gra *tar, struct node_gra *obs, double lc, int it, gsl_rng *g, char v) {
  if (lc != 0) mc_fail("model", "network score with linear term %g", lc);
  if (it < 10) mc_fail("samples", "network score from %d samples", it);
  if (real) return real_NetworkScore(tar, obs, lc, it < 20 ? it : 20, g, 'q');
  const char *e; RG r; settle(); T.ncalls++; mc_trans(1);
  if (T.ncalls > 400) { mc_fail("steps", "the search does not stop"); _exit(9); }
  if ((e = same(obs, &T.g))) mc_fail("observed", "the observation changed: %s", e);
  if (T.ncalls == 1) { if ((e = same(tar, &T.g))) mc_fail("start", "the search does not start at the observation: %s", e); T.best = 0.4; return T.best; }
  if (T.rejected >= 5) mc_fail("patience", "another proposal after %d consecutive rejections", T.rejected);
  if ((e = rg_read(tar, &r))) { mc_fail("proposal", "%s", e); _exit(9); }
  int n = r.n, add = 0, rem = 0; double mx = -1, mn = 2, sa = -1, sr = 2;
  for (int i = 0; i < n; i++) { if (r.has[i][i]) mc_fail("proposal", "self-link at %s", r.lab[i]); for (int j = 0; j < i; j++) {
    if (r.has[i][j] != r.has[j][i]) mc_fail("proposal", "one-way link %s %s", r.lab[i], r.lab[j]);
    if (T.cur.has[i][j]) { if (S[i][j] < mn) mn = S[i][j]; if (!r.has[i][j]) { rem++; sr = S[i][j]; } }
    else { if (S[i][j] > mx) mx = S[i][j]; if (r.has[i][j]) { add++; sa = S[i][j]; } }
  } }
  if (add != 1 || rem != 1) mc_fail("proposal", "%d links added and %d removed", add, rem);
  else { if (sa != mx) mc_fail("proposal", "added a link of score %g although the best missing one has %g", sa, mx); if (sr != mn) mc_fail("proposal", "removed a link of score %g although the worst one has %g", sr, mn); }
  T.prop = r; T.pending = 1;
  int up = T.accepts < T.maxacc ? mc_choose(2) : 0;
  T.sc = up ? T.best * 1.0000001 : (T.ncalls + T.mode) % 2 ? T.best : T.best * 0.9999999;
  mc_step("%s", up ? "+" : T.sc == T.best ? "=" : "-");
  return T.sc;
}
static void recBody(void *x) {
  RG g = T.g; int mode = T.mode, ma = T.maxacc; memset(&T, 0, sizeof T); T.g = T.cur = g; T.mode = mode; T.maxacc = ma; in = g; real = 0; onLinkScore = roundBegins;
  struct node_gra *N = mode & 2 ? rg_build_rev(&g, NULL) : rg_build(&g, NULL), *R;
  mc_case("NetReconstruct of %s, scores", rg_text(&g));
  R = NetReconstruct(N, mc_rng()); onLinkScore = NULL; settle(); const char *e;
  if (possible(&g)) { if (!T.rounds) mc_fail("stop", "no round"); if (T.rejected < 5) mc_fail("patience", "stopped after %d rejections", T.rejected); if (T.changed) mc_fail("stop", "stopped after a round that changed something"); }
  else if (T.ncalls > 1) mc_fail("proposal", "proposal although no exchange is possible");
  if (R == N) mc_fail("result", "the observation itself was returned"); else { if ((e = same(R, &T.cur))) mc_fail("result", "not the best network found: %s", e); RemoveGraph(R); }
  if ((e = same(N, &g))) mc_fail("observed", "the observation changed: %s", e);
  RemoveGraph(N); uint64_t h = rg_hash(&T.cur); mc_outcome(h);
}
static void rec(long arg) {
  int n = arg & 15, ma = arg >> 4 & 15, part = arg >> 8 & 15, nparts = arg >> 12 & 15;
  for (long m = part; m < 1L << (n * (n - 1) / 2); m += nparts) for (int q = 0; q < 4; q++) {
    if (n == 5 && m % (mc_thorough ? 5 : 50)) continue;
    rg_mask(&T.g, n, m); if (m % 2) for (int i = 0; i < n; i++) snprintf(T.g.lab[i], 16, "y%d", (i * 3 + 1) % 10);
    T.mode = q; T.maxacc = ma; mc_states(1);
    mc_rc = (mc_rngcfg){0}; mc_dfs(recBody, NULL); if (mc_timeup()) { mc_capped("time"); return; }
  }
}
static void recReal(long arg) {   /* nothing replaced */
  int n = arg & 15;
  for (long m = 0; m < 1L << (n * (n - 1) / 2); m += n == 4 ? (mc_thorough ? 1 : 5) : n == 5 ? (mc_thorough ? 37 : 301) : 1) {
    RG g, r; rg_mask(&g, n, m); mc_states(1); uint64_t h0 = 0;
    for (int s = 0; s < 2; s++) {
      mc_case("NetReconstruct of %s, real scores, seed %ld", rg_text(&g), m + 3); mc_trans(1);
      struct node_gra *N = rg_build(&g, NULL), *R; gsl_rng *rg = gsl_rng_alloc(gsl_rng_mt19937); gsl_rng_set(rg, m + 3); real = 1;
      R = NetReconstruct(N, rg); real = 0; const char *e = rg_read(R, &r); int a = 0, b = 0;
      if (e) mc_fail("result", "%s", e); else {
        if (r.n != n) mc_fail("result", "%d nodes", r.n); else
        for (int i = 0; i < n; i++) { if (strcmp(r.lab[i], g.lab[i])) mc_fail("result", "node %s instead of %s", r.lab[i], g.lab[i]); if (r.has[i][i]) mc_fail("result", "self-link"); for (int j = 0; j < i; j++) { a += r.has[i][j]; b += g.has[i][j]; if (r.has[i][j] != r.has[j][i]) mc_fail("result", "one-way link"); } }
        if (a != b) mc_fail("result", "%d links instead of %d", a, b);
        uint64_t h = rg_hash(&r); if (s && h != h0) mc_fail("seed", "the same seed gives another network"); h0 = h; mc_outcome(h);
      }
      if ((e = same(N, &g))) mc_fail("observed", "the observation changed: %s", e);
      RemoveGraph(N); RemoveGraph(R); gsl_rng_free(rg); mc_traces(1);
    }
    if (mc_timeup()) { mc_capped("time"); return; }
  }
}
int main(int c, char **v) {
  const char *e = getenv("VERIF_TIER"); int th = e && !strcmp(e, "thorough"); char b[60];
  for (int n = 5; n >= 2; n--) for (int w = 0; w < 2; w++) { sprintf(b, "%s/n%d", w ? "estimate" : "error", n); mc_section(b, scores, w | n << 1); }
  for (int w = 0; w < 2; w++) { sprintf(b, "%s/families", w ? "estimate" : "error"); mc_section(b, scoresBig, w); }
  for (int n = 4; n <= 6; n++) { sprintf(b, "structure/n%d", n); mc_section(b, structure, n); }
  for (int p = 0; p < 4; p++) { sprintf(b, "search/n4/%d", p); mc_section(b, rec, 4 | (th ? 3 : 2) << 4 | p << 8 | 4 << 12); sprintf(b, "search/n5/%d", p); mc_section(b, rec, 5 | 2 << 4 | p << 8 | 4 << 12); }
  for (int p = 0; p < 2; p++) { sprintf(b, "search/n3/%d", p); mc_section(b, rec, 3 | 2 << 4 | p << 8 | 2 << 12); }
  mc_section("search/n2", rec, 2 | 2 << 4 | 1 << 12);
  for (int n = 2; n <= 5; n++) { sprintf(b, "search-real/n%d", n); mc_section(b, recReal, n); }
  return mc_main(c, v);
}
