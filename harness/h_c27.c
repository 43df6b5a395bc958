/* C27: the module-identification programs, end to end: what netcarto and netcarto-legacy write for every small network file,
   switch setting and partition file, against the definitions computed from the file; and the edge-list reader behind netcarto. */
#include "mc.h"
#include <unistd.h>
#include <fcntl.h>
#include <getopt.h>
#include "partition.h"
#include "io.h"
int netcarto_main(int, char **), legacy_main(int, char **);
#define NM 64
#define EM 1300
typedef struct { int E; int a[EM], b[EM]; double w[EM]; } EL;   /* lines of the file: numbers of the two labels */
static char LA[NM][100], LB[NM][100];                            /* label texts of the (first, second) column */
static void labels(int fam) { for (int i = 0; i < NM; i++) { if (fam == 0) { sprintf(LA[i], "n%d", i); sprintf(LB[i], "n%d", i); } else if (fam == 1) { memset(LA[i], 'x', i % 50 + 1); sprintf(LA[i] + i % 50 + 1, "%s", i < 50 ? "" : "y"); sprintf(LB[i], "%d", i * 7 % 64); } else { int L = 99 - i % 3; memset(LA[i], 'q', L); LA[i][L] = 0; LA[i][0] = 'a' + i % 26; LA[i][1] = 'a' + i / 26; strcpy(LB[i], LA[i]); } } }
/* the network in the file as the program should see it */
typedef struct { int n; double W[NM][NM], s[NM]; const char *lab[NM]; } PN;
static void uni_net(PN *p, const EL *e, int weighted) { memset(p, 0, sizeof *p); int id[NM]; memset(id, -1, sizeof id); double T = 0; for (int k = 0; k < e->E; k++) { int v[2] = {e->a[k], e->b[k]}; for (int q = 0; q < 2; q++) if (id[v[q]] < 0) { id[v[q]] = p->n; p->lab[p->n++] = LA[v[q]]; } double w = weighted ? e->w[k] : 1; int x = id[v[0]], y = id[v[1]]; p->W[x][y] += w; p->W[y][x] += w; T += 2 * w; } for (int i = 0; i < p->n; i++) for (int j = 0; j < p->n; j++) { p->W[i][j] /= T; p->s[i] += p->W[i][j]; } }
static void bip_net(PN *p, const EL *e, int weighted, int inv) { memset(p, 0, sizeof *p); int id[NM]; memset(id, -1, sizeof id); static double B[NM][NM]; memset(B, 0, sizeof B); double T = 0, S3 = 0; for (int k = 0; k < e->E; k++) { int x = inv ? e->b[k] : e->a[k], y = inv ? e->a[k] : e->b[k]; if (id[x] < 0) { id[x] = p->n; p->lab[p->n++] = inv ? LB[x] : LA[x]; } double w = weighted ? e->w[k] : 1; B[id[x]][y] = w; T += w; p->s[id[x]] += w; }
  for (int y = 0; y < NM; y++) { double s = 0; int d = 0; for (int i = 0; i < p->n; i++) if (B[i][y]) { d++; s += B[i][y]; } if (d) S3 += s * (s - s / d); } for (int i = 0; i < p->n; i++) { p->s[i] /= T; for (int j = 0; j < p->n; j++) if (i != j) { double c = 0; for (int y = 0; y < NM; y++) c += B[i][y] * B[j][y]; p->W[i][j] = c ? c / S3 : 0; } } }
static const double TH0[] = {0.05, 0.62, 0.80}, TH1[] = {0.30, 0.75};
static int role(double P, double z) { if (z < 2.5) { int r = 0; while (r < 3 && P >= TH0[r]) r++; return r + 1; } int r = 0; while (r < 2 && P >= TH1[r]) r++; return 5 + r; }
static int rok(int r, double P, double z) { static const double d[3] = {-1e-9, 0, 1e-9}; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) if (role(P + d[i], z + d[j]) == r) return 1; return 0; }
static void mods(const PN *p, const int *a, double *m0, double *m1) { *m0 = *m1 = 0; for (int i = 0; i < p->n; i++) { *m1 -= p->s[i] * p->s[i]; for (int j = 0; j < p->n; j++) if (i != j && a[i] == a[j]) *m0 += p->W[i][j] - p->s[i] * p->s[j]; } *m1 += *m0; }
static void rmet(const PN *p, const int *a, double *P, double *z) { int n = p->n; double in[NM]; for (int i = 0; i < n; i++) { double t = 0, q = 0, sm[NM] = {0}; for (int j = 0; j < n; j++) { t += p->W[i][j]; sm[a[j]] += p->W[i][j]; } for (int m = 0; m < NM; m++) q += sm[m] * sm[m]; P[i] = t > 0 ? 1 - q / (t * t) : 0; in[i] = sm[a[i]]; }
  for (int i = 0; i < n; i++) { double m = 0, v = 0; int c = 0; for (int j = 0; j < n; j++) if (a[j] == a[i]) { m += in[j]; c++; } m /= c; for (int j = 0; j < n; j++) if (a[j] == a[i]) v += (in[j] - m) * (in[j] - m); v /= c; z[i] = sqrt(v) > 1e-9 * m ? (in[i] - m) / sqrt(v) : 0; } }
/* files and program runs */
static char D[500]; static char *path(const char *f) { static char b[8][700]; static int r; char *s = b[r++ & 7]; snprintf(s, 700, "%s/%s", D, f); return s; }
static void wr(const char *f, const char *t) { FILE *o = fopen(path(f), "w"); fputs(t, o); fclose(o); }
static char *rd(const char *f) { FILE *o = fopen(path(f), "r"); if (!o) return NULL; static char *b[8]; static int r; int k = r++ & 7; if (!b[k]) b[k] = malloc(200001); size_t n = fread(b[k], 1, 200000, o); b[k][n] = 0; fclose(o); return b[k]; }
static int run(int (*m)(int, char **), const char *in, char **out, char **argv) { int c = 0; while (argv[c]) c++; char *cp[40]; for (int i = 0; i < c; i++) cp[i] = strdup(argv[i]); cp[c] = NULL; fflush(NULL); int o = dup(1), e = dup(2), i0 = dup(0), f = open(path("stdout"), O_CREAT | O_TRUNC | O_WRONLY, 0600), g = open(getenv("MC_STDERR") ? getenv("MC_STDERR") : "/dev/null", O_RDWR), h = open(in ? path(in) : "/dev/null", O_RDONLY); dup2(f, 1); dup2(g, 2); dup2(h, 0); clearerr(stdin); rewind(stdin); optind = 0; mc_tick(); int r = m(c, cp); fflush(NULL); dup2(o, 1); dup2(e, 2); dup2(i0, 0); close(o); close(e); close(i0); close(f); close(g); close(h); for (int i = 0; i < c; i++) free(cp[i]); if (out) *out = rd("stdout"); mc_trans(1); return r; }
static char *file_text(const EL *e, int cols, int fmt, int bip) { static char t[200000]; int l = 0; for (int k = 0; k < e->E; k++) { const char *sp = fmt & 1 ? "\t" : " "; l += sprintf(t + l, "%s%s%s%s", fmt == 2 ? "  " : "", LA[e->a[k]], sp, bip ? LB[e->b[k]] : LA[e->b[k]]); if (cols == 3) l += sprintf(t + l, "%s%g", sp, e->w[k]); if (k < e->E - 1 || fmt != 3) l += sprintf(t + l, fmt == 2 ? " \n" : "\n"); } t[l] = 0; return t; }
static int lidx(const PN *p, const char *s, int L) { for (int i = 0; i < p->n; i++) if ((int)strlen(p->lab[i]) == L && !strncmp(p->lab[i], s, L)) return i; return -1; }
static int same(const int *a, const int *b, int n) { for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if ((a[i] == a[j]) != (b[i] == b[j])) return 0; return 1; }
/* parse and check what the program wrote; a: expected modules or NULL; b receives the modules written */
static int report(const PN *p, char *t, int roles, const int *a, int *b) { int n = p->n, off = 0, sn[NM] = {0}; double m0, m1, r0, r1; for (int i = 0; i < n; i++) b[i] = -1;
  if (!t || sscanf(t, "# Modularity: %lf # Modularity (with diagonal): %lf%n", &m0, &m1, &off) != 2 || !off || t[off] != '\n') { mc_fail("header", "output starts \"%.80s\"", t ? t : "(none)"); return 0; } t += off + 1;
  double P[NM], z[NM], wp[NM], wz[NM]; int rr[NM], row = 0;
  if (roles) { char *e = strchr(t, '\n'); if (!e || strncmp(t, "Label", 5)) { mc_fail("table", "no heading: \"%.60s\"", t); return 0; } t = e + 1; while (*t) { char *tab = strchr(t, '\t'); e = strchr(t, '\n'); if (!e || !tab || tab > e) { mc_fail("table", "row \"%.80s\"", t); return 0; } int L = tab - t; while (L && t[L - 1] == ' ') L--; int i = lidx(p, t, L), md; if (i < 0 || sn[i]++) { mc_fail("table", "row %d is not a node of the file or repeated: \"%.80s\"", row, t); return 0; } if (sscanf(tab, "%d\t%lf\t%lf\tR%d", &md, &wz[i], &wp[i], &rr[i]) != 4) { mc_fail("table", "row \"%.120s\"", t); return 0; } b[i] = md; row++; t = e + 1; } if (row != n) { mc_fail("table", "%d rows for %d nodes", row, n); return 0; } }
  else { int md = 0; while (*t) { char *e = strchr(t, '\n'); if (!e) { mc_fail("listing", "line not ended \"%.60s\"", t); return 0; } int cnt = 0; while (t < e) { int L = strcspn(t, "\t\n"); if (!L) { t++; continue; } int i = lidx(p, t, L); if (i < 0 || sn[i]++) { mc_fail("listing", "unknown or repeated node \"%.60s\"", t); return 0; } b[i] = md; cnt++; t += L; } if (!cnt) mc_fail("listing", "empty line for module %d", md); md++; t = e + 1; } for (int i = 0; i < n; i++) if (b[i] < 0) { mc_fail("listing", "node %s is in no module", p->lab[i]); return 0; } }
  if (a && !same(a, b, n)) { mc_fail("modules", "modules written differ from the ones in the partition file"); return 0; }
  int c[NM]; for (int i = 0; i < n; i++) { c[i] = i; for (int j = 0; j < i; j++) if (b[j] == b[i]) { c[i] = c[j]; break; } } mods(p, c, &r0, &r1); int K = 0; for (int i = 0; i < n; i++) { if (b[i] >= K) K = b[i] + 1; if (b[i] < 0) mc_fail("modules", "node %s has module %d", p->lab[i], b[i]); }
  if (fabs(m0 - r0) > 1.1e-6) mc_fail("modularity", "modularity %f, should be %f", m0, r0); if (fabs(m1 - r1) > 1.1e-6) mc_fail("modularity-diagonal", "modularity with diagonal %f, should be %f", m1, r1);
  if (roles) { rmet(p, c, P, z); for (int i = 0; i < n; i++) { if (fabs(wp[i] - P[i]) > 1.1e-6) mc_fail("participation", "participation of %s is %f, should be %f", p->lab[i], wp[i], P[i]); if (!(fabs(wz[i] - z[i]) < 2e-6)) mc_fail("connectivity", "connectivity of %s is %f, should be %f", p->lab[i], wz[i], z[i]); if (!rok(rr[i], P[i], z[i])) mc_fail("role", "role of %s (P %f z %f) is R%d", p->lab[i], P[i], z[i], rr[i]); } }
  mc_outcome(mc_hash(&r0, 8) ^ mc_hash(b, n * sizeof(int))); return 1; }
static void describe(const EL *e, int bip, const char *opt) { mc_case("file:"); for (int k = 0; k < e->E && k < 30; k++) mc_step(" %.12s-%.12s(%g)", LA[e->a[k]], bip ? LB[e->b[k]] : LA[e->b[k]], e->w[k]); mc_step("; options %s", opt); }
/* partition file: modules (and their members) in an order given by var */
static void part_file(const PN *p, const int *a, int var) { static char t[100000]; int l = 0, n = p->n, dn[NM] = {0}; if (var & 1) l += sprintf(t, "# Modularity: 0.5\n# Modularity (with diagonal): 0.3\n"); for (int x = 0; x < n; x++) { int i = var & 2 ? n - 1 - x : x; if (dn[a[i]]++) continue; int first = 1; for (int y = 0; y < n; y++) { int j = var & 4 ? n - 1 - y : y; if (a[j] != a[i]) continue; l += sprintf(t + l, "%s%s", first ? "" : "\t", p->lab[j]); first = 0; } if (var & 8) l += sprintf(t + l, "\t"); l += sprintf(t + l, "\n"); } wr("part", t); }
static void with_part(const EL *e, const PN *p, const int *a, int w, int bip, int inv, int roles, int var, int via) { int b[NM]; char opt[80], *out; sprintf(opt, "-%s%s%s%s -p, layout %d, output %d, modules", w ? "w" : "", bip ? "b" : "", inv ? "t" : "", roles ? "r" : "", var, via); describe(e, bip, opt); for (int i = 0; i < p->n && i < 20; i++) mc_step(" %d", a[i]); part_file(p, a, var);
  char *v[20]; int c = 0; v[c++] = "netcarto"; if (via != 2) { v[c++] = "-f"; v[c++] = path("net"); } v[c++] = "-p"; v[c++] = path("part"); if (w) v[c++] = "-w"; if (bip) v[c++] = "-b"; if (inv) v[c++] = "-t"; if (roles) v[c++] = "-r"; if (via == 0) { v[c++] = "-o"; v[c++] = path("out"); unlink(path("out")); } v[c] = NULL; int r = run(netcarto_main, via == 2 ? "net" : NULL, &out, v); if (r) { mc_fail("exit", "netcarto returned %d: %.100s", r, out); return; } if (via) { out = strstr(out, "# Modularity"); } else out = rd("out"); report(p, out, roles, a, b); mc_traces(1); }
static const double WT[10] = {1, 2, 0.5, 3, 1, 0.25, 2, 5, 1, 4};
static void uni(long arg) { snprintf(D, 500, "%s", mc_tmpdir()); int n = arg & 15, c = arg >> 4 & 255, C = arg >> 12; unsigned cnt = 0; for (unsigned long m = c; m < 1ul << (n * (n - 1) / 2); m += C) { if (!m) continue; if (mc_timeup()) { mc_capped("time"); return; } for (int ord = 0; ord < (n < 5 ? 2 : 1); ord++) { EL e = {0}; int k = 0; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++, k++) if (m >> k & 1) { int x = e.E++; int sw = ord ? (x & 1) : (m >> 1 ^ x) & 1; e.a[x] = sw ? j : i; e.b[x] = sw ? i : j; e.w[x] = WT[(k * 7 + m) % 10]; } if (ord) for (int x = 0; x < e.E / 2; x++) { int y = e.E - 1 - x, t = e.a[x]; e.a[x] = e.a[y]; e.a[y] = t; t = e.b[x]; e.b[x] = e.b[y]; e.b[y] = t; double d = e.w[x]; e.w[x] = e.w[y]; e.w[y] = d; }
    mc_states(1); for (int w = 0; w < 2; w++) { labels((m + w) % 3); PN p; uni_net(&p, &e, w); int fmt = (m + ord + w) % 4; wr("net", file_text(&e, w || m % 3 == 0 ? 3 : 2, fmt, 0)); int a[NM] = {0}; do { for (int r = 0; r < (n < 5 ? 2 : 1); r++) { with_part(&e, &p, a, w, 0, 0, n < 5 ? r : cnt & 1, (cnt * 5) & 15, cnt % 7 == 3 ? 1 : cnt % 7 == 5 ? 2 : 0); cnt++; } } while (mc_next_rgs(a, p.n)); } } } }
static void bipf(long arg) { snprintf(D, 500, "%s", mc_tmpdir()); int n1 = arg & 15, n2 = arg >> 4 & 15, c = arg >> 8 & 15; unsigned cnt = 0; for (unsigned long m = c; m < 1ul << (n1 * n2); m += 8) { if (!m) continue; if (mc_timeup()) { mc_capped("time"); return; } EL e = {0}; for (int z = 0; z < n1 * n2; z++) { int zz = m & 8 ? n1 * n2 - 1 - z : z; if (m >> zz & 1) { int x = e.E++; e.a[x] = zz / n2; e.b[x] = zz % n2; e.w[x] = WT[(zz * 3 + m) % 10]; } } mc_states(1);
    for (int w = 0; w < 2; w++) for (int inv = 0; inv < 2; inv++) { labels((m + w) % 3); PN p; bip_net(&p, &e, w, inv); wr("net", file_text(&e, w ? 3 : 2, m % 4, 1)); int a[NM] = {0}; do { with_part(&e, &p, a, w, 1, inv, cnt & 1, (cnt * 5) & 15, cnt % 9 == 3); cnt++; } while (mc_next_rgs(a, p.n)); } } }
/* larger networks: sizes around the growth of the reader's tables */
static void bigf(long k) { snprintf(D, 500, "%s", mc_tmpdir()); for (int n = 8 + k; n <= 44; n += 4) for (int f = 0; f < 6; f++) { if (mc_timeup()) { mc_capped("time"); return; } static EL e; e.E = 0; labels(f % 3); for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) { int l = 0; switch (f) { case 0: l = j == i + 1; break; case 1: l = 1; break; case 2: l = i == 0; break; case 3: l = (i < n / 2) == (j < n / 2) || (i == 0 && j == n - 1); break; case 4: l = (i * 7 + j * 11 + i * j) % 5 == 0 || j == i + 1; break; case 5: l = i / 3 == j / 3 || i + 3 == j; break; } if (l && e.E < EM) { e.a[e.E] = i; e.b[e.E] = j; e.w[e.E] = WT[(i + j) % 10]; e.E++; } }
    mc_states(1); for (int w = 0; w < 2; w++) { static PN p; uni_net(&p, &e, w); wr("net", file_text(&e, w ? 3 : 2, (n + f) % 4, 0)); for (int s = 0; s < 4; s++) { int a[NM]; for (int i = 0; i < n; i++) a[i] = s == 0 ? 0 : s == 1 ? i : s == 2 ? i / 4 : i % 3; with_part(&e, &p, a, w, 0, 0, s & 1 ? !w : w, s * 5, 0); }
      for (int inv = 0; inv < 2; inv++) { EL g = e; bip_net(&p, &g, w, inv); wr("net", file_text(&g, w ? 3 : 2, 0, 1)); for (int s = 0; s < 2; s++) { int a[NM]; for (int i = 0; i < p.n; i++) a[i] = s ? i / 5 : i % 4; with_part(&g, &p, a, w, 1, inv, s, s * 7, 0); } } } } }
/* the program's own search */
static void search(long arg) { snprintf(D, 500, "%s", mc_tmpdir()); int n = arg & 15, c = arg >> 4 & 15, bip = arg >> 8 & 1; labels(0); static const char *cool[] = {"0.5", "0.8", "0.97"}; unsigned long M = bip ? 1ul << (n * 3) : 1ul << (n * (n - 1) / 2), step = bip ? 8 * 3 : n == 5 ? 8 * 5 : 8; for (unsigned long m = c; m < M; m += step) { if (!m) continue; if (mc_timeup()) { mc_capped("time"); return; } EL e = {0}; int k = 0; if (bip) { for (int z = 0; z < n * 3; z++) if (m >> z & 1) { int x = e.E++; e.a[x] = z / 3; e.b[x] = z % 3; e.w[x] = WT[(z * 3 + m) % 10]; } } else for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++, k++) if (m >> k & 1) { int x = e.E++; e.a[x] = i; e.b[x] = j; e.w[x] = WT[(k * 7 + m) % 10]; }
    mc_states(1); for (int w = 0; w < 2; w++) for (int inv = 0; inv <= bip; inv++) { static PN p; if (bip) bip_net(&p, &e, w, inv); else uni_net(&p, &e, w); wr("net", file_text(&e, w ? 3 : 2, 0, bip)); for (int s = 0; s < 3; s++) { int roles = (s + w) & 1, b[NM], b2[NM]; char opt[60], sd[12]; sprintf(sd, "%d", s + 1); sprintf(opt, "-%s%s%s%s, seed %d", w ? "w" : "", bip ? "b" : "", inv ? "t" : "", roles ? "r" : "", s + 1); describe(&e, bip, opt); char *v[24], *o1, *o2; int q = 0; v[q++] = "netcarto"; v[q++] = "-f"; v[q++] = path("net"); v[q++] = "-s"; v[q++] = sd; v[q++] = "-c"; v[q++] = (char *)cool[(s + m) % 2 + (m % 16 == 0)]; v[q++] = "-o"; v[q++] = path("out"); if (w) v[q++] = "-w"; if (bip) v[q++] = "-b"; if (inv) v[q++] = "-t"; if (roles) v[q++] = "-r"; v[q] = NULL;
        unlink(path("out")); int r = run(netcarto_main, NULL, NULL, v); o1 = rd("out"); if (r || !report(&p, o1, roles, NULL, b)) { if (r) mc_fail("exit", "netcarto returned %d", r); continue; } mc_traces(1);
        if (s == 0) { unlink(path("out")); run(netcarto_main, NULL, NULL, v); o2 = rd("out"); if (!o2 || strcmp(o1, o2)) mc_fail("seed", "same seed, different output:\n%.200s\n%.200s", o1, o2 ? o2 : ""); mc_traces(1); }
        /* the listing read back as the partition */
        if (!roles) { char *u[20]; q = 0; u[q++] = "netcarto"; u[q++] = "-f"; u[q++] = path("net"); u[q++] = "-p"; u[q++] = path("out"); u[q++] = "-o"; u[q++] = path("out2"); if (w) u[q++] = "-w"; if (bip) u[q++] = "-b"; if (inv) u[q++] = "-t"; u[q] = NULL; unlink(path("out2")); r = run(netcarto_main, NULL, NULL, u); o2 = rd("out2"); double x = 9, y = 8; if (r || !report(&p, o2, 0, b, b2)) { mc_fail("reread", "the written modules could not be read back"); continue; } sscanf(o1, "# Modularity: %lf", &x); sscanf(o2, "# Modularity: %lf", &y); if (fabs(x - y) > 1e-9) mc_fail("reread", "modularity %f before, %f after reading the modules back", x, y); mc_traces(1); } } } } }
/* the edge-list reader */
static void reader(long arg) { int L = arg & 15, wt = arg >> 4 & 1, bip = arg >> 5 & 3, nl = arg >> 7 & 15; char t[400]; static const char *lab[] = {"a", "b", "ab", "-1"}; static const char *ws[] = {"1", "0.5", "-2"}; int P = wt ? nl * nl * 3 : nl * nl; long tot = 1; for (int i = 0; i < L; i++) tot *= P;
  for (long x = 0; x < tot; x++) for (int bad = -1; bad < (L < 3 ? L : 0); bad++) { int l = 0; long y = x; int A[8], B[8]; double W[8]; for (int i = 0; i < L; i++) { int q = y % P; y /= P; A[i] = q % nl; B[i] = q / nl % nl; int wi = q / nl / nl; W[i] = wt ? atof(ws[wi]) : 1; if (bad == i) l += wt ? sprintf(t + l, "%s %s", lab[A[i]], lab[B[i]]) : sprintf(t + l, "%s", lab[A[i]]); else { l += sprintf(t + l, "%s%s%s", lab[A[i]], x & 1 ? "\t" : " ", lab[B[i]]); if (wt) l += sprintf(t + l, " %s", ws[wi]); } if (i < L - 1 || x % 3) l += sprintf(t + l, "\n"); }
    mc_case("edge list \"%s\" weighted %d bipartite %d", t, wt, bip); mc_states(1); FILE *f = mc_memfile(t); unsigned *n1 = NULL, *n2 = NULL, E = 77, N = 77; double *w = NULL; char **lb = NULL; fflush(stdout); int o = dup(1), g = open("/dev/null", O_WRONLY); dup2(g, 1); int r = EdgeListFileInput(f, wt, bip, &n1, &n2, &w, &lb, &E, &N); fflush(stdout); dup2(o, 1); close(o); close(g); fclose(f); mc_trans(1); if (bad >= 0) { if (!r) mc_fail("malformed", "line %d has too few fields but was accepted", bad + 1); continue; } if (r) { mc_fail("reader", "returned %d", r); continue; }
    int ia[8], ib[8], na = 0, nb = 0, ka[8], kb[8]; for (int i = 0; i < 8; i++) ia[i] = ib[i] = -1; for (int i = 0; i < L; i++) { int u = bip == 2 ? B[i] : A[i], v = bip == 2 ? A[i] : B[i]; if (ia[u] < 0) { ka[na] = u; ia[u] = na++; } if (bip) { if (ib[v] < 0) ib[v] = nb++; } else if (ia[v] < 0) { ka[na] = v; ia[v] = na++; } } (void)kb;
    if (E != L || N != na) mc_fail("reader", "%u links and %u nodes instead of %d and %d", E, N, L, na); else { for (int i = 0; i < L; i++) { int u = bip == 2 ? B[i] : A[i], v = bip == 2 ? A[i] : B[i]; if (n1[i] != ia[u] || n2[i] != (bip ? ib[v] : ia[v])) mc_fail("reader", "link %d is %u-%u instead of %d-%d", i, n1[i], n2[i], ia[u], bip ? ib[v] : ia[v]); if (w[i] != W[i]) mc_fail("reader", "weight of link %d is %g instead of %g", i, w[i], W[i]); } for (int i = 0; i < na; i++) if (strcmp(lb[i], lab[ka[i]])) mc_fail("reader", "label of node %d is %s instead of %s", i, lb[i], lab[ka[i]]); }
    mc_outcome(mc_hash(n1, E * 4) ^ mc_hash(n2, E * 4) * 3); mc_traces(1); for (int i = 0; i < N; i++) free(lb[i]); free(lb); free(n1); free(n2); free(w); } }
/* the legacy program */
static int legfam(int f, int n, int m, int i, int j) { switch (f) { case 1: return i / 3 == j / 3 || (j == i + 3 && (i + m) % 4 == 0); case 2: return j == i + 1 || (i * 5 + j * 3 + m) % 7 == 0; case 3: return (i < n / 2) == (j < n / 2) ? (i + j + m) % 5 != 0 : (i * j + m) % 11 == 0; default: return i / 4 == j / 4 || j == i + 4; } }
static void legacy(long arg) { int n = arg & 15, c = arg >> 4 & 15, fam = arg >> 8; snprintf(D, 500, "%s", mc_tmpdir()); if (chdir(D)) return; labels(0); for (unsigned long m = fam ? 1 : c; m < (fam ? 17 : 1ul << (n * (n - 1) / 2)); m += fam ? 1 : n == 5 ? 56 : 8) { if (!m) continue; if (mc_timeup()) { mc_capped("time"); return; } static EL e; e.E = 0; int k = 0; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++, k++) if (fam ? legfam(fam, n, m, i, j) : m >> k & 1) { int x = e.E++; e.a[x] = m & 2 ? j : i; e.b[x] = m & 2 ? i : j; e.w[x] = 1; } PN p; uni_net(&p, &e, 0); mc_states(1); wr("net", file_text(&e, 2, 0, 0));
    /* does the network admit a switch? (needed by the randomization) */
    int sw = 0; for (int x = 0; x < e.E; x++) for (int y = 0; y < e.E; y++) for (int h = 0; h < 2; h++) { int u1 = e.a[x], v1 = e.b[x], u2 = h ? e.b[y] : e.a[y], v2 = h ? e.a[y] : e.b[y]; if (u1 == u2 || u1 == v2 || v1 == u2 || v1 == v2) continue; int bad = 0; for (int z = 0; z < e.E; z++) { int s = e.a[z], t = e.b[z]; if ((s == u1 && t == v2) || (t == u1 && s == v2) || (s == u2 && t == v1) || (t == u2 && s == v1)) bad = 1; } if (!bad) sw = 1; }
    for (int s = 0; s < 2; s++) { int rep = s && sw ? 1 + (m & 1) : 0; char sd[12], rp[12], *o; sprintf(sd, "%d", s + 3); sprintf(rp, "%d", rep); char opt[60]; sprintf(opt, "(legacy) seed %d, %d randomizations", s + 3, rep); describe(&e, 0, opt); char np[600]; snprintf(np, sizeof np, "%s", path("net")); char *v[] = {"netcarto-legacy", "-f", np, "-s", sd, "-i", "0.1", "-c", m % 16 ? "0.4" : "0.8", "-r", rp, NULL}; static const char *fs[] = {"modules.dat", "network.net", "modules.clu", "node_prop.dat", "roles.dat", "roles.clu", "randomized_mod.dat"}; for (int i = 0; i < 7; i++) unlink(path(fs[i])); int r = run(legacy_main, NULL, &o, v); if (r) { mc_fail("exit", "netcarto-legacy returned %d", r); continue; } char *f[7]; for (int i = 0; i < 7; i++) { f[i] = rd(fs[i]); if (!f[i]) { mc_fail("files", "%s not written", fs[i]); f[i] = ""; } }
      int b[NM], nn = p.n, g = 0, sn[NM] = {0}, gid[NM]; for (int i = 0; i < nn; i++) b[i] = -1; char *t = f[0]; double q = 9; while (*t && *t != '#') { char *en = strchr(t, '\n'), *l = strstr(t, "---"); if (!en || !l || l > en) { mc_fail("modules-dat", "line \"%.60s\"", t); break; } gid[g] = atoi(t); int sz = 0, cnt = 0; sscanf(t, "%*d %d", &sz); l += 3; while (l < en) { while (*l == ' ') l++; int L = strcspn(l, " \n"); if (!L) break; int i = lidx(&p, l, L); if (i < 0 || sn[i]++) { mc_fail("modules-dat", "unknown or repeated node \"%.20s\"", l); break; } b[i] = g; cnt++; l += L; } if (cnt != sz) mc_fail("modules-dat", "group of size %d lists %d", sz, cnt); g++; t = en + 1; } int okp = 1; for (int i = 0; i < nn; i++) if (b[i] < 0) { okp = 0; mc_fail("modules-dat", "node %s is in no module", p.lab[i]); } if (!okp) continue;
      double m0, m1, P[NM], z[NM], Q = 0; for (int i = 0; i < nn; i++) for (int j = 0; j < nn; j++) if (b[i] == b[j]) Q += p.W[i][j] - p.s[i] * p.s[j]; (void)m0; (void)m1; rmet(&p, b, P, z); if (sscanf(t, "# Modularity = %lf", &q) != 1 || fabs(q - Q) > 1e-5 * (1 + fabs(Q))) mc_fail("legacy-modularity", "modularity %g, should be %g", q, Q);
      t = f[3]; int sp[NM] = {0}, rows = 0; while (*t) { char lb[100]; int dg; double x, y; if (sscanf(t, "%99s %d %lf %lf", lb, &dg, &x, &y) != 4) { mc_fail("node-prop", "line \"%.40s\"", t); break; } int i = lidx(&p, lb, strlen(lb)); if (i < 0 || sp[i]++) { mc_fail("node-prop", "node %s unknown or repeated", lb); break; } int dd = 0; for (int j = 0; j < nn; j++) dd += p.W[i][j] > 0; if (dg != dd || fabs(x - P[i]) > 1.1e-6 || fabs(y - z[i]) > 2e-6) mc_fail("node-prop", "%s: degree %d P %f z %f, should be %d %f %f", lb, dg, x, y, dd, P[i], z[i]); rows++; t = strchr(t, '\n') + 1; } if (rows != nn) mc_fail("node-prop", "%d lines for %d nodes", rows, nn);
      int ro[NM]; memset(ro, -1, sizeof ro); t = f[4]; while (*t) { char *en = strchr(t, '\n'), *l = strstr(t, "---"); if (!en || !l || l > en) { mc_fail("roles-dat", "line \"%.60s\"", t); break; } int rl = atoi(t); l += 3; while (l < en) { while (*l == ' ') l++; int L = strcspn(l, " \n"); if (!L) break; int i = lidx(&p, l, L); if (i < 0 || ro[i] >= 0) { mc_fail("roles-dat", "unknown or repeated node \"%.20s\"", l); break; } ro[i] = rl; l += L; } t = en + 1; } for (int i = 0; i < nn; i++) if (!rok(ro[i], P[i], z[i])) mc_fail("roles-dat", "%s with P %f and z %f has role %d", p.lab[i], P[i], z[i], ro[i]);
      int N = -1; t = f[2]; if (sscanf(t, "*Vertices %d", &N) != 1 || N != nn) mc_fail("modules-clu", "heading"); else for (int i = 0; i < nn; i++) { t = strchr(t, '\n') + 1; if (atoi(t) != gid[b[i]]) { mc_fail("modules-clu", "node %d in module %d instead of %d", i, atoi(t), gid[b[i]]); break; } } t = f[5]; N = -1; if (sscanf(t, "*Vertices %d", &N) != 1 || N != nn) mc_fail("roles-clu", "heading"); else for (int i = 0; i < nn; i++) { t = strchr(t, '\n') + 1; if (atoi(t) != ro[i]) { mc_fail("roles-clu", "node %d has role %d instead of %d", i, atoi(t), ro[i]); break; } }
      t = strchr(f[6], '\n'); double R, av, sd2; char a1[40], a2[40]; if (!t || sscanf(t + 1, "%lf %39s %39s", &R, a1, a2) != 3 || fabs(R - Q) > 1.1e-6) mc_fail("randomized", "first field \"%.40s\" should be %f", t ? t : "", Q); else if (rep) { av = atof(a1); sd2 = atof(a2); if (!(av > -0.51 && av < 1) || !(sd2 >= 0 && sd2 < 1) || (rep == 1 && sd2 != 0)) mc_fail("randomized", "average %s deviation %s of %d", a1, a2, rep); }
      char *keep[7]; for (int i = 0; i < 7; i++) keep[i] = strdup(f[i]); if (m % 4 == 1) { run(legacy_main, NULL, &o, v); for (int i = 0; i < 7; i++) { char *z2 = rd(fs[i]); if (!z2 || strcmp(z2, keep[i])) mc_fail("legacy-seed", "same seed, different %s: %.200s / %.200s", fs[i], keep[i], z2 ? z2 : "-"); } mc_traces(1); }
      int ne = 0; t = strstr(keep[1], "*Edges"); if (!t) t = strstr(keep[1], "*Arcs"); if (!t) mc_fail("pajek", "no links in network.net"); else { t = strchr(t, '\n'); while (t && t[1] && t[1] != '*') { int x, y; if (sscanf(t + 1, "%d %d", &x, &y) != 2 || x < 1 || y < 1 || x > nn || y > nn || !(p.W[x - 1][y - 1] > 0)) { mc_fail("pajek", "link \"%.20s\"", t + 1); break; } ne++; t = strchr(t + 1, '\n'); } if (ne != e.E && ne != 2 * e.E) mc_fail("pajek", "%d links instead of %d", ne, e.E); } for (int i = 0; i < 7; i++) free(keep[i]);
      mc_outcome(mc_hash(b, nn * sizeof(int)) ^ m); mc_traces(1); } } }
static void faults(long x) { (void)x; snprintf(D, 500, "%s", mc_tmpdir()); labels(0); char *o; EL e = {3, {0, 0, 1}, {1, 2, 2}, {1, 1, 1}}; wr("net", file_text(&e, 2, 0, 0)); char *v1[] = {"netcarto", "-f", path("nothere"), NULL}, *v2[] = {"netcarto", "-f", path("net"), "-p", path("nothere"), NULL}, *v3[] = {"netcarto", "-f", path("net"), "-o", path("no/such/dir"), "-c", "0.5", NULL}, *v4[] = {"netcarto", "-h", NULL}, *v5[] = {"netcarto", NULL}; char **vs[] = {v1, v2, v3, v4, v5}; for (int i = 0; i < 5; i++) { mc_case("invalid invocation %d", i); mc_states(1); if (!run(netcarto_main, NULL, &o, vs[i])) mc_fail("faults", "netcarto reported success"); mc_traces(1); mc_outcome(i + 1); } }
int main(int c, char **v) { const char *e = getenv("VERIF_TIER"); int th = e && !strcmp(e, "thorough"); char nm[60];
  for (int k = 0; k < 8; k++) { sprintf(nm, "partition-5-%d", k); mc_section(nm, uni, 5 | k << 4 | 8 << 12); } if (th) for (int k = 0; k < 32; k++) { sprintf(nm, "partition-6-%d", k); mc_section(nm, uni, 6 | k << 4 | 32 << 12); }
  for (int n = 2; n <= 4; n++) { sprintf(nm, "partition-%d", n); mc_section(nm, uni, n | 1 << 12); }
  static const int sz[][2] = {{2, 2}, {3, 2}, {2, 3}, {3, 3}, {4, 3}, {3, 4}}; for (int s = 0; s < (th ? 6 : 4); s++) for (int k = 0; k < 8; k++) { sprintf(nm, "bipartite-%d-%d-%d", sz[s][0], sz[s][1], k); mc_section(nm, bipf, sz[s][0] | sz[s][1] << 4 | k << 8); }
  for (int k = 0; k < 4; k++) { sprintf(nm, "large-%d", k); mc_section(nm, bigf, k); }
  for (int n = 2; n <= (th ? 5 : 4); n++) for (int k = 0; k < 8; k++) { sprintf(nm, "search-%d-%d", n, k); mc_section(nm, search, n | k << 4); } for (int n = 2; n <= 3; n++) for (int k = 0; k < 8; k++) { sprintf(nm, "search-bipartite-%d-%d", n, k); mc_section(nm, search, n | k << 4 | 1 << 8); }
  for (int L = 0; L <= 4; L++) for (int w = 0; w < 2; w++) for (int b = 0; b < 3; b++) { if (L == 4 && w) continue; int nl = L == 4 ? 3 : L == 3 && w ? 2 : 4; if (th && L >= 3) nl = w ? 3 : 4; sprintf(nm, "reader-%d-%d-%d", L, w, b); mc_section(nm, reader, L | w << 4 | b << 5 | nl << 7); }
  for (int n = 2; n <= (th ? 5 : 4); n++) for (int k = 0; k < 8; k++) { sprintf(nm, "legacy-%d-%d", n, k); mc_section(nm, legacy, n | k << 4); } for (int f = 1; f <= 4; f++) for (int n = 8; n <= 14; n += 3) { sprintf(nm, "legacy-family-%d-%d", f, n); mc_section(nm, legacy, n | f << 8); } mc_section("invocations", faults, 0);
  return mc_main(c, v); }
