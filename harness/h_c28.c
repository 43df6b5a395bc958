/* C28: the command-line utilities, end to end: what each prints for every small network file against the definitions computed from the file. */
#define HMAX 64
#include "hg.h"
#include "prog.h"
int countlinks_main(int, char **), getgiant_main(int, char **), lapspec_main(int, char **), nodeprop_main(int, char **), netprop_main(int, char **), netcompare_main(int, char **), netrandomize_main(int, char **), mutualinfo_main(int, char **), bipmod_main(int, char **), bipmodw_main(int, char **), modularbipart_main(int, char **);
static int th;
/* ---- reference quantities ---- */
typedef struct { int k[HMAX], D[HMAX][HMAX], comp[HMAX], nc, size[HMAX], big, L; double bet[HMAX], eff, C, as, k1, k2, ev[HMAX], sync; int hasC, hasA; } Q;
static void jacobi(double a[HMAX][HMAX], int n, double *ev) { for (int sw = 0; sw < 60; sw++) { double off = 0; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) off += a[i][j] * a[i][j]; if (off < 1e-24) break;
    for (int p = 0; p < n; p++) for (int q = p + 1; q < n; q++) if (fabs(a[p][q]) > 1e-300) { double t, h = (a[q][q] - a[p][p]) / (2 * a[p][q]); t = (h >= 0 ? 1 : -1) / (fabs(h) + sqrt(h * h + 1)); double c = 1 / sqrt(t * t + 1), s = t * c; for (int k = 0; k < n; k++) { double x = a[k][p], y = a[k][q]; a[k][p] = c * x - s * y; a[k][q] = s * x + c * y; } for (int k = 0; k < n; k++) { double x = a[p][k], y = a[q][k]; a[p][k] = c * x - s * y; a[q][k] = s * x + c * y; } } }
  for (int i = 0; i < n; i++) ev[i] = a[i][i]; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (ev[j] < ev[i]) { double t = ev[i]; ev[i] = ev[j]; ev[j] = t; } }
static void ref(const RG *r, Q *q) { int n = r->n; memset(q, 0, sizeof *q); static double sg[HMAX][HMAX]; double cs = 0; int cn = 0;
  for (int i = 0; i < n; i++) { q->k[i] = rg_deg(r, i); q->L += q->k[i]; q->k1 += (double)q->k[i] / n; q->k2 += (double)q->k[i] * q->k[i] / n; for (int j = 0; j < n; j++) q->D[i][j] = i == j ? 0 : r->has[i][j] ? 1 : 999; } q->L /= 2;
  for (int k = 0; k < n; k++) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (q->D[i][k] + q->D[k][j] < q->D[i][j]) q->D[i][j] = q->D[i][k] + q->D[k][j];
  for (int i = 0; i < n; i++) { q->comp[i] = -1; for (int j = 0; j < i; j++) if (q->D[i][j] < 999) { q->comp[i] = q->comp[j]; break; } if (q->comp[i] < 0) q->comp[i] = q->nc++; if (++q->size[q->comp[i]] > q->big) q->big = q->size[q->comp[i]]; }
  for (int s = 0; s < n; s++) for (int d = 0; d < n; d++) for (int t = 0; t < n; t++) { if (q->D[s][t] != d) continue; if (!d) { sg[s][t] = 1; continue; } sg[s][t] = 0; for (int v = 0; v < n; v++) if (r->has[v][t] && q->D[s][v] == d - 1) sg[s][t] += sg[s][v]; }
  for (int s = 0; s < n; s++) for (int t = 0; t < n; t++) if (s != t && q->D[s][t] < 999) { q->eff += 1.0 / q->D[s][t] / n / (n - 1); for (int v = 0; v < n; v++) if (v != s && v != t && q->D[s][v] + q->D[v][t] == q->D[s][t]) q->bet[v] += sg[s][v] * sg[v][t] / sg[s][t]; }
  for (int i = 0; i < n; i++) if (q->k[i] > 1) { int t = 0; for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) t += r->has[i][a] && r->has[i][b] && r->has[a][b]; cs += (double)t / q->k[i] / (q->k[i] - 1); cn++; } if (cn) { q->hasC = 1; q->C = cs / cn; }
  double M = 0, mx = 0, v = 0, x = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (r->has[i][j]) { M++; mx += q->k[i]; } if (M) { mx /= M; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (r->has[i][j]) { x += (q->k[i] - mx) * (q->k[j] - mx); v += (q->k[i] - mx) * (q->k[i] - mx); } if (v > 1e-9) { q->hasA = 1; q->as = x / v; } }
  static double a[HMAX][HMAX]; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a[i][j] = i == j ? q->k[i] : -(r->has[i][j] != 0); jacobi(a, n, q->ev); for (int i = n - 1; i >= 0; i--) if (q->ev[i] > 1e-6) q->sync = q->ev[n - 1] / q->ev[i]; }
#include "nf.h"
static int num(const char *a, double w, int prec6) { char *e; double x = strtod(a, &e); if (e == a || isnan(x)) return 0; return prec6 ? fabs(x - w) <= 2e-6 + 1e-9 * fabs(w) : fabs(x - w) <= 1e-5 * fabs(w) + 1e-9; }
/* edge list printed by a program -> network over the same labels; 0 if malformed */
static int edges(char *t, const RG *r, const int *id, RG *g) { rg_init(g, r->n); while (*t) { char a[200], b[200]; int c = 0; if (sscanf(t, "%199s %199s%n", a, b, &c) != 2 || t[c] != '\n') { mc_fail("edge-list", "line \"%.60s\"", t); return 0; } int x = lidx(r, id, a), y = lidx(r, id, b); if (x < 0 || y < 0) { mc_fail("edge-list", "unknown node in \"%.60s\"", t); return 0; } if (g->has[x][y]) { mc_fail("edge-list", "link %s-%s printed twice", a, b); return 0; } rg_link(g, x, y, 1); t += c + 1; } return 1; }
static double field(char *t, const char *name, int *ok) { int L = strlen(name); for (char *p = t; p && *p; p = strchr(p, '\n'), p = p ? p + 1 : p) if (!strncmp(p, name, L) && p[L] == ' ') { *ok = 1; char *e; double x = strtod(p + L, &e); if (e == p + L) *ok = 0; return x; } *ok = 0; return 0; }
static void want(char *t, const char *name, double w, int p6) { int ok; double x = field(t, name, &ok); char b[60]; snprintf(b, 60, "%.17g", x); if (!ok || !num(b, w, p6)) mc_fail(name, "%s is %g instead of %g%s", name, x, w, ok ? "" : " (not printed)"); }
static void one(const RG *g, int var) { RG r, o; static Q q; int id[HMAX]; char *out; netfile("net", g, var, &r, id); if (r.n < 2) return; ref(&r, &q); if (!q.L) return; int n = r.n; mc_states(1); char *v[] = {"program", path("net"), NULL}; v[1] = strdup(v[1]);
  if (prog(countlinks_main, NULL, &out, v)) mc_fail("exit", "countlinks failed"); { int N, L; char k[60] = ""; if (sscanf(out, "Nodes: %d Links: %d <k> = %59s", &N, &L, k) != 3 || N != n || L != q.L || !num(k, 2.0 * q.L / n, 0)) mc_fail("countlinks", "\"%.80s\" for %d nodes and %d links", out, n, q.L); }
  if (prog(getgiant_main, NULL, &out, v)) mc_fail("exit", "getgiant failed"); if (edges(out, &r, id, &o)) { int c = -1, L = 0; for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if (o.has[i][j]) { if (!r.has[i][j]) mc_fail("getgiant", "printed %s-%s, which is not a link", LB[id[i]], LB[id[j]]); if (c < 0) c = q.comp[i]; else if (c != q.comp[i]) mc_fail("getgiant", "nodes of different components"); L++; } int w = 0; if (c >= 0) for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) w += r.has[i][j] && q.comp[i] == c; if (c < 0 || q.size[c] != q.big || L != w) mc_fail("getgiant", "printed %d links of a component with %d nodes and %d links; the largest has %d nodes", L, c < 0 ? 0 : q.size[c], w, q.big); }
  if (prog(lapspec_main, NULL, &out, v)) mc_fail("exit", "lapspec failed"); { char *t = out; for (int i = 0; i < n; i++) { int k, c = 0; char a[80]; if (sscanf(t, "%d %79s%n", &k, a, &c) != 2 || k != i + 1 || !num(a, q.ev[i], 1)) { mc_fail("lapspec", "line %d is \"%.40s\" instead of %f", i + 1, t, q.ev[i]); break; } t += c + 1; if (i == n - 1 && *t) mc_fail("lapspec", "more than %d lines", n); } }
  if (prog(nodeprop_main, NULL, &out, v)) mc_fail("exit", "nodeprop failed"); { char *t = out; int seen[HMAX] = {0}, rows = 0; while (*t) { char a[200], b[80]; int k, c = 0; if (sscanf(t, "%199s %d %79s%n", a, &k, b, &c) != 3) { mc_fail("nodeprop", "line \"%.60s\"", t); break; } int i = lidx(&r, id, a); if (i < 0 || seen[i]++) { mc_fail("nodeprop", "unknown or repeated node in \"%.60s\"", t); break; } if (k != q.k[i] || !num(b, q.bet[i], 0)) { mc_fail("nodeprop", "\"%.60s\" for a node of degree %d and betweenness %g", t, q.k[i], q.bet[i]); break; } rows++; t += c + 1; } if (rows != n) mc_fail("nodeprop", "%d rows for %d nodes", rows, n); }
  if (prog(netprop_main, NULL, &out, v)) mc_fail("exit", "netprop failed"); { double m = 0, sd = 0, mn = 1e300, mx = 0; for (int i = 0; i < n; i++) { m += q.bet[i] / n; if (q.bet[i] < mn) mn = q.bet[i]; if (q.bet[i] > mx) mx = q.bet[i]; } for (int i = 0; i < n; i++) sd += (q.bet[i] - m) * (q.bet[i] - m) / n; sd = sqrt(sd);
    want(out, "Num_components", q.nc, 0); want(out, "Size_GC", q.big, 0); want(out, "Av_size_other", q.nc > 1 ? (n - q.big) / (q.nc - 1.0) : 0, 0); want(out, "Nodes", n, 0); want(out, "Links", q.L, 0); want(out, "Av_degree", q.k1, 0); want(out, "Inverse_path_length", q.eff, 1); if (q.hasC) want(out, "Clustering", q.C, 1); if (q.hasA) want(out, "Assortativity", q.as, 1); want(out, "Betweenness_mean", m, 1); { int ok; double x = field(out, "Betweenness_std", &ok); if (!ok || fabs(x - sd) > 2e-6 * (1 + mx)) mc_fail("Betweenness_std", "%g instead of %g", x, sd); } want(out, "Betweenness_min", mn, 1); want(out, "Betweenness_max", mx, 1); want(out, "Synchronizability", q.sync, 1); { int ok; double x = field(out, "K_K2", &ok); if (!ok || fabs(x - q.k1 / q.k2) > 1e-9) mc_fail("K_K2", "%g instead of %g", x, q.k1 / q.k2); } }
  mc_traces(5); mc_outcome(mc_hash(&q.eff, 8) ^ mc_hash(q.ev, n * 8)); free(v[1]); }
static void files(long arg) { prog_dir(); int n = arg & 15, c = arg >> 4 & 63, C = arg >> 10; RG g; unsigned cnt = 0; for (unsigned long m = c; m < 1ul << (n * (n - 1) / 2); m += C) { if (mc_timeup()) { mc_capped("time"); return; } rg_mask(&g, n, m); for (int v = 0; v < (n < 5 ? 16 : n == 5 ? 2 : 1); v++) { labels((m + v) % 4); int var = n < 5 ? v : v ? 15 - (m % 7) : 4 + cnt % 11; cnt++; one(&g, var); } } }
#undef HARD
static void fam(RG *r, int f, int n) { rg_init(r, n); for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) { int l = 0, h = n / 2; switch (f) { case 0: l = j == i + 1; break; case 1: l = j == i + 1 || (i == 0 && j == n - 1); break; case 2: l = i == 0; break; case 3: l = i / 3 == j / 3; break; case 4: l = (i < h) == (j < h) || (i == h - 1 && j == h); break; case 5: l = j < h || (j == i + 1 && i >= h - 1); break; case 6: l = (j == i + 1 && j % 5) || j == i + 5; break; case 7: l = i == (j - 1) / 2; break; case 8: { int a = 0, s = 1; while (a + s <= i) { a += s; s++; } l = j < a + s; break; } case 9: { int a = n, s = 1; while (a - s > j) { a -= s; s++; } l = i >= a - s; break; } case 10: l = (i * 7 + j * 11 + i * j) % 5 == 0; break; case 11: l = j == i + 1 && i % 7 != 6; break; case 12: l = j - i <= 3; break; case 13: l = i < n / 3 && j >= n / 3; break; case 14: l = i == 0 && j == 1; break; } if (l) rg_link(r, i, j, 1); } }
static void large(long f) { prog_dir(); RG g; static const int N[] = {9, 13, 20, 31, 40}; for (int x = 0; x < 5; x++) for (int v = 0; v < 3; v++) { if (mc_timeup()) { mc_capped("time"); return; } labels((f + v) % 2 ? 1 : v); fam(&g, f, N[x]); one(&g, v == 0 ? 4 : v == 1 ? 15 : 9); } }
/* networks with very many components (isolated nodes given by self-links) */
static void many(long k) { prog_dir(); int K = k; char *t = malloc(K * 30 + 100); int l = 0; char *out; for (int i = 0; i < K; i++) l += sprintf(t + l, "x%d x%d\n", i, i); l += sprintf(t + l, "a b\nb c\n"); wr("net", t); free(t); mc_case("%d isolated nodes and a path of three", K); mc_states(1); char *v[] = {"program", strdup(path("net")), NULL}; prog(netprop_main, NULL, &out, v); want(out, "Num_components", K + 1, 0); want(out, "Size_GC", 3, 0); want(out, "Av_size_other", 1, 0); want(out, "Nodes", K + 3, 0); want(out, "Links", 2, 0); mc_traces(1); mc_outcome(K); prog(getgiant_main, NULL, &out, v); if (strcmp(out, "a b\nb c\n")) { int x = strstr(out, "a b") != NULL && strstr(out, "b c") != NULL && strlen(out) == 8; if (!x) mc_fail("getgiant", "printed \"%.60s\"", out); } }
/* pairs of networks */
static void compare(long arg) { prog_dir(); int c = arg; labels(c & 1); char *out; for (int n1 = 2; n1 <= 3; n1++) for (int n2 = 2; n2 <= 4; n2++) for (unsigned m1 = 1; m1 < 1u << (n1 * (n1 - 1) / 2); m1++) for (unsigned m2 = 1; m2 < 1u << (n2 * (n2 - 1) / 2); m2++) for (int sh = 0; sh < 3; sh++) { if ((m1 * 7 + m2 * 5 + sh) % 4 != (unsigned)c) continue; if (mc_timeup()) { mc_capped("time"); return; } RG a, b, ga, gb; int ia[HMAX], ib[HMAX]; rg_mask(&ga, n1, m1); rg_init(&gb, n2 + sh); int k = 0; for (int i = 0; i < n2; i++) for (int j = i + 1; j < n2; j++, k++) if (m2 >> k & 1) rg_link(&gb, i + sh, j + sh, 1); for (int sw = 0; sw < 2; sw++) { int var = (m1 + m2 + sw) & 15; netfile("A", sw ? &gb : &ga, var, &a, ia); netfile("B", sw ? &ga : &gb, var ^ 9, &b, ib); if (a.n < 1 || b.n < 1) continue; mc_states(1); int pa = 0, la = 0, lb = 0, lc = 0, mp[HMAX], mq[HMAX]; for (int i = 0; i < a.n; i++) { mp[i] = -1; for (int j = 0; j < b.n; j++) if (ia[i] == ib[j]) mp[i] = j; pa += mp[i] >= 0; } for (int j = 0; j < b.n; j++) { mq[j] = -1; for (int i = 0; i < a.n; i++) if (mp[i] == j) mq[j] = i; } for (int i = 0; i < a.n; i++) for (int j = 0; j < i; j++) if (a.has[i][j] && mp[i] >= 0 && mp[j] >= 0) { la++; lc += b.has[mp[i]][mp[j]]; } for (int i = 0; i < b.n; i++) for (int j = 0; j < i; j++) lb += b.has[i][j] && mq[i] >= 0 && mq[j] >= 0;
      char *v[] = {"netcompare", strdup(path("A")), strdup(path("B")), NULL}; prog(netcompare_main, NULL, &out, v); static const char *nm[] = {"S_A =", "S_B =", "S_(A&B) =", "L_A =", "L_B =", "L_(A&B) =", "p_n(A|B) =", "p_n(B|A) =", "p_l(A|B) =", "p_l(B|A) ="}; double w[10] = {a.n, b.n, pa, la, lb, lc, (double)pa / b.n, (double)pa / a.n, lb ? (double)lc / lb : 0, la ? (double)lc / la : 0}; for (int i = 0; i < 10; i++) if (i < 8 || (i == 8 && lb) || (i == 9 && la)) { mc_step("; %s %g", nm[i], w[i]); want(out, nm[i], w[i], 1); } free(v[1]); free(v[2]); mc_traces(1); mc_outcome(mc_hash(w, sizeof w)); } } }
/* degree-preserving randomization */
static void randomize(long arg) { prog_dir(); int nrich = 0, nsame = 0, nseed = 0; int c = arg & 15; char *out; RG g, r, o; int id[HMAX]; static const int N[] = {4, 5, 6, 9, 12, 20}; for (int x = 0; x < 6; x++) { int n = N[x]; for (unsigned m = 0; m < (n < 6 ? 1u << (n * (n - 1) / 2) : 15u); m++) { if (m % 8 != (unsigned)c) continue; if (mc_timeup()) { mc_capped("time"); return; } if (n < 6) rg_mask(&g, n, m); else fam(&g, m, n); labels(m % 4);
      netfile("net", &g, m & 15, &r, id); int sw = 0; for (int a = 0; a < r.n; a++) for (int b = 0; b < r.n; b++) for (int d = 0; d < r.n; d++) for (int e = 0; e < r.n; e++) if (a != b && a != d && a != e && b != d && b != e && d != e && r.has[a][b] && r.has[d][e] && !r.has[a][e] && !r.has[d][b]) sw++; if (!sw) continue; mc_states(1); char first[3][20000]; for (int s = 0; s < 3; s++) { char sd[20]; sprintf(sd, "%d", s == 2 ? 1 : s * 7 + 1); mc_step("; seed %s", sd); char *v[] = {"netrandomize", strdup(path("net")), sd, NULL}; prog(netrandomize_main, NULL, &out, v); free(v[1]); snprintf(first[s], 20000, "%s", out); if (edges(out, &r, id, &o)) for (int i = 0; i < r.n; i++) { if (o.has[i][i]) mc_fail("randomize", "self-link at %s", LB[id[i]]); if (rg_deg(&o, i) != rg_deg(&r, i)) mc_fail("randomize", "degree of %s is %d instead of %d", LB[id[i]], rg_deg(&o, i), rg_deg(&r, i)); } mc_traces(1); mc_outcome(mc_hash(out, strlen(out))); } if (strcmp(first[0], first[2])) mc_fail("randomize", "the same seed gives different networks"); if (sw >= 400 && n >= 9) { nrich++; int d = 0; if (edges(first[0], &r, id, &o)) for (int i = 0; i < r.n; i++) for (int j = 0; j < r.n; j++) d += !o.has[i][j] != !r.has[i][j]; nsame += d == 0; nseed += !strcmp(first[0], first[1]); } } }
  if (nrich >= 3 && nsame == nrich) mc_fail("randomize", "%d networks with very many possible switches all came out unchanged", nrich); if (nrich >= 3 && nseed == nrich) mc_fail("randomize", "the seed has no effect on any of %d networks", nrich); }
/* partitions: mutual information */
static void pfile(const char *f, const int *a, int n, int var) { static char t[20000]; int l = 0, K = 0; for (int i = 0; i < n; i++) if (a[i] >= K) K = a[i] + 1; for (int k = 0; k < K; k++) { int kk = var & 1 ? K - 1 - k : k; for (int x = 0; x < n; x++) { int i = var & 2 ? n - 1 - x : x; if (a[i] == kk) l += sprintf(t + l, "%s\n", LB[i]); } if (k < K - 1 || (var & 4)) l += sprintf(t + l, "///\n"); } t[l] = 0; wr(f, t); }
static double ent(const int *c, int K, int n) { double h = 0; for (int k = 0; k < K; k++) if (c[k]) h -= (double)c[k] / n * log((double)c[k] / n); return h; }
static void mutual(long arg) { prog_dir(); int c = arg; char *out; for (int n = 2; n <= 4; n++) { static int A[60][8]; int N = 0, a[8] = {0}; do memcpy(A[N++], a, sizeof a); while (mc_next_rgs(a, n)); for (int x = 0; x < N; x++) for (int y = c; y < N; y += 4) { if (mc_timeup()) { mc_capped("time"); return; } int var = (x * 5 + y) & 7; labels((x + y) % 4); mc_case("partitions of %d nodes:", n); for (int i = 0; i < n; i++) mc_step(" %d/%d", A[x][i], A[y][i]); pfile("P", A[x], n, var); pfile("R", A[y], n, var ^ 5); int c1[8] = {0}, c2[8] = {0}, c12[64] = {0}; for (int i = 0; i < n; i++) { c1[A[x][i]]++; c2[A[y][i]]++; c12[A[x][i] * 8 + A[y][i]]++; } double h1 = ent(c1, 8, n), h2 = ent(c2, 8, n); mc_states(1); if (h1 + h2 < 1e-9) continue; char *v[] = {"mutualinfo", strdup(path("P")), strdup(path("R")), NULL}; prog(mutualinfo_main, NULL, &out, v); double w = 2 * (h1 + h2 - ent(c12, 64, n)) / (h1 + h2); char *t = strstr(out, "MI = "); if (!t || !num(t + 5, w, 1)) mc_fail("mutualinfo", "\"%.60s\" instead of %f", t ? t : out, w); free(v[1]); free(v[2]); mc_traces(1); mc_outcome(mc_hash(&w, 8)); } } }
/* bipartite modularity of a partition file */
static const double WT[10] = {1, 2, 0.5, 3, 1, 0.25, 2, 5, 1, 4};
static void bipmod(long arg) { prog_dir(); int n1 = arg & 15, n2 = arg >> 4 & 15, c = arg >> 8; char *out; unsigned cnt = 0; for (unsigned m = 1 + c; m < 1u << (n1 * n2); m += 4) for (int inv = 0; inv < 2; inv++) { if (mc_timeup()) { mc_capped("time"); return; } labels(m % 4); char l2[8][20]; for (int j = 0; j < n2; j++) sprintf(l2[j], "t%d", (j * 3 + m) % 8); int id[8], jd[8], s1[8], s2[8], k1 = 0, k2 = 0; memset(s1, -1, sizeof s1); memset(s2, -1, sizeof s2); static char t[4000], tw[4000]; int l = 0, lw = 0; double B[8][8] = {{0}}; int H[8][8] = {{0}}; for (int x = 0; x < n1 * n2; x++) { int z = m & 8 ? n1 * n2 - 1 - x : x, i = z / n2, j = z % n2; if (!(m >> z & 1)) continue; if (s1[i] < 0) { s1[i] = k1; id[k1++] = i; } if (s2[j] < 0) { s2[j] = k2; jd[k2++] = j; } B[s1[i]][s2[j]] = WT[(z * 3 + m) % 10]; H[s1[i]][s2[j]] = 1; l += sprintf(t + l, "%s %s\n", LB[i], l2[j]); lw += sprintf(tw + lw, "%s %s %g\n", LB[i], l2[j], WT[(z * 3 + m) % 10]); }
    wr("net", t); wr("netw", tw); int n = inv ? k2 : k1, N2 = inv ? k1 : k2; int a[8] = {0}; do { for (int w = 0; w < 2; w++) { double S = 0, S2 = 0, s[8] = {0}, q = 0; for (int j = 0; j < N2; j++) { double d = 0; for (int i = 0; i < n; i++) { double x = inv ? (w ? B[j][i] : H[j][i]) : (w ? B[i][j] : H[i][j]); d += x; s[i] += x; } S += d; S2 += d * d; } if (fabs(S2 - S) < 1e-9) continue; for (int i = 0; i < n; i++) for (int k = 0; k < n; k++) if (i != k && a[i] == a[k]) { double p = 0; for (int j = 0; j < N2; j++) p += inv ? (w ? B[j][i] * B[j][k] : H[j][i] * H[j][k]) : (w ? B[i][j] * B[k][j] : H[i][j] * H[k][j]); q += p / (S2 - S) - s[i] * s[k] / (S * S); }
        mc_case("bipartite file %.300s, %sinverted, %sweighted, modules", w ? tw : t, inv ? "" : "not ", w ? "" : "not "); for (int i = 0; i < n; i++) mc_step(" %d", a[i]); char f[3000]; int lf = 0, var = cnt++ & 7, K = 0; for (int i = 0; i < n; i++) if (a[i] >= K) K = a[i] + 1; for (int k = 0; k < K; k++) { int kk = var & 1 ? K - 1 - k : k; for (int x = 0; x < n; x++) { int i = var & 2 ? n - 1 - x : x; if (a[i] == kk) lf += sprintf(f + lf, "%s\n", inv ? l2[jd[i]] : LB[id[i]]); } if (k < K - 1 || (var & 4)) lf += sprintf(f + lf, "///\n"); } wr("part", f); char *v[] = {"bipartitemodularity", strdup(path(w ? "netw" : "net")), strdup(path("part")), inv ? "1" : "0", NULL}; prog(w ? bipmodw_main : bipmod_main, NULL, &out, v); char *o = strstr(out, "M = "); if (!o || !num(o + 4, q, 1)) mc_fail("bipartitemodularity", "\"%.60s\" instead of %f", o ? o : out, q); free(v[1]); free(v[2]); mc_traces(1); mc_outcome(mc_hash(&q, 8)); } } while (mc_next_rgs(a, n)); mc_states(1); } }
/* modular bipartite networks */
static void modbip(long c) { prog_dir(); for (int nm = 1; nm <= 3; nm++) for (int ms = 1; ms <= 4; ms++) for (int nt = 1; nt <= 6; nt++) for (int ts = 1; ts <= ms * nm && ts <= 6; ts++) for (int h = 0; h < 3; h++) { if ((nm + ms + nt + ts + h) % 4 != c) continue; if (h == 2 && ts > ms) continue; if (mc_timeup()) { mc_capped("time"); return; } char a[5][20]; sprintf(a[0], "%d", nm); sprintf(a[1], "%d", ms); sprintf(a[2], "%d", nt); sprintf(a[3], "%d", ts); sprintf(a[4], "%s", h == 0 ? "0" : h == 1 ? "0.5" : "1"); char *keep = NULL; for (int s = 0; s < 3; s++) { char sd[10]; sprintf(sd, "%d", s == 2 ? 3 : s + 3); char *v[] = {"modularbipart", a[0], a[1], a[2], a[3], a[4], sd, NULL}; mc_case("modularbipart %s %s %s %s %s %s", a[0], a[1], a[2], a[3], a[4], sd); mc_states(1); unlink(path("binet.net")); if (prog(modularbipart_main, NULL, NULL, v)) mc_fail("exit", "failed"); char *t = rd("binet.net"); int S = 0, S1 = 0, c0 = 0; if (!t || sscanf(t, "*Vertices %d %d%n", &S, &S1, &c0) != 2 || S1 != nm * ms || S != S1 + nt) { mc_fail("modularbipart", "\"%.40s\" for %d nodes and %d teams", t ? t : "(no file)", nm * ms, nt); continue; } t += c0 + 1; for (int i = 0; i < S; i++) { char lb[30], w[30]; int k; sprintf(w, i < S1 ? "\"A%d\"" : "\"B%d\"", i < S1 ? i + 1 : i - S1 + 1); if (sscanf(t, "%d %29s", &k, lb) != 2 || k != i + 1 || strcmp(lb, w)) { mc_fail("modularbipart", "vertex line \"%.30s\"", t); break; } t = strchr(t, '\n') + 1; } if (strncmp(t, "*Edges\n", 7)) { mc_fail("modularbipart", "no edges: \"%.30s\"", t); continue; } t += 7; int d[64] = {0}, has[64][64] = {{0}}; while (*t) { int x, y, cc = 0; if (sscanf(t, "%d %d%n", &x, &y, &cc) != 2 || x < 1 || x > S1 || y <= S1 || y > S || has[x][y]++) { mc_fail("modularbipart", "edge line \"%.30s\"", t); break; } d[y - 1]++; t += cc + 1; } for (int j = S1; j < S; j++) { if (d[j] != ts) { mc_fail("modularbipart-size", "team %d has %d members instead of %d", j - S1 + 1, d[j], ts); break; } int mods = 0; for (int k = 0; k < nm; k++) { int any = 0; for (int i = 0; i < ms; i++) any |= has[k * ms + i + 1][j + 1]; mods += any; } if (h == 2 && mods != 1) mc_fail("modularbipart-homogeneous", "team %d has members of %d modules", j - S1 + 1, mods); } mc_traces(1); char *w = rd("binet.net"); mc_outcome(mc_hash(w, strlen(w))); if (s == 0) keep = strdup(w); if (s == 2) { if (keep && strcmp(keep, w)) mc_fail("modularbipart", "the same seed gives different networks"); } } free(keep); } }
static void usage(long x) { (void)x; prog_usage = 1; prog_dir(); wr("net", "a b\nb c\n"); struct { int (*m)(int, char **); const char *name; int need; } P[] = {{countlinks_main, "countlinks", 1}, {getgiant_main, "getgiant", 1}, {lapspec_main, "lapspec", 1}, {nodeprop_main, "nodeprop", 1}, {netprop_main, "netprop", 1}, {netcompare_main, "netcompare", 2}, {netrandomize_main, "netrandomize", 2}}; for (int i = 0; i < 7; i++) for (int k = 0; k < P[i].need; k++) { char *v[5] = {(char *)P[i].name, k ? strdup(path("net")) : NULL, NULL}, *out; mc_case("%s with %d arguments", P[i].name, k); mc_states(1); if (!prog(P[i].m, NULL, &out, v) || !strstr(out, "Use")) mc_fail("usage", "%s does not explain its arguments", P[i].name); mc_traces(1); mc_outcome(i * 3 + k); } }
int main(int c, char **v) { const char *e = getenv("VERIF_TIER"); th = e && !strcmp(e, "thorough"); char nm[60];
  for (int n = 2; n <= (th ? 6 : 5); n++) { int C = n < 4 ? 1 : n == 4 ? 2 : n == 5 ? 8 : 32; for (int k = 0; k < C; k++) { sprintf(nm, "files-%d-%d", n, k); mc_section(nm, files, n | k << 4 | C << 10); } }
  for (int f = 0; f < 15; f++) { sprintf(nm, "large-%d", f); mc_section(nm, large, f); } static const int MK[] = {20, 200, 1300}; for (int k = 0; k < 3; k++) { sprintf(nm, "components-%d", MK[k]); mc_section(nm, many, MK[k]); }
  for (int k = 0; k < 4; k++) { sprintf(nm, "compare-%d", k); mc_section(nm, compare, k); sprintf(nm, "mutual-%d", k); mc_section(nm, mutual, k); sprintf(nm, "modularbipart-%d", k); mc_section(nm, modbip, k); } for (int k = 0; k < 8; k++) { sprintf(nm, "randomize-%d", k); mc_section(nm, randomize, k); }
  static const int sz[][2] = {{2, 2}, {3, 2}, {2, 3}, {3, 3}, {4, 3}}; for (int s = 0; s < (th ? 5 : 4); s++) for (int k = 0; k < 4; k++) { sprintf(nm, "bipartite-%d-%d-%d", sz[s][0], sz[s][1], k); mc_section(nm, bipmod, sz[s][0] | sz[s][1] << 4 | k << 8); } mc_section("usage", usage, 0); return mc_main(c, v); }
