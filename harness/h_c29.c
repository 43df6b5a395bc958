/* C29: the inference programs, end to end: each reads the network (or ratings) in its file, asks the model it is named after for the scores, and reports them for
   exactly the pairs it should.  The score functions themselves (C20-C24) run with fewer samples here and what they return is recorded. */
#define HMAX 8
#include "hg.h"
#include "prog.h"
#include "nf.h"
#include "bipartite.h"
#include "recommend.h"
enum { LS, GLS, SGLS, MB, OMB, GMB, OGMB, OD, GOD, NNET, KS = NNET, REC, M2, MK, GMK, ALL };
static const char *FN[] = {"LinkScore", "GibbsLinkScore", "SparseGibbsLinkScore", "LinkScoreMB", "ORLinkScoreMB", "GibbsLinkScoreMB", "ORGibbsLinkScoreMB", "LinkScoreMB_OD", "GibbsLinkScoreMB_OD", "LSMultiLinkScoreKState", "NetReconstruct", "MultiLinkScore2State", "MultiLinkScoreKState", "GibbsMultiLinkScoreKState", "AllLinkScore2State"};
#define P(x) int x##_main(int, char **);
P(links) P(links_gibbs) P(links_sparse) P(links_k) P(reconstruct) P(mb) P(mb_or) P(mb_gibbs) P(mb_gibbs_or) P(od) P(od_gibbs) P(rec2) P(reck) P(reck_gibbs) P(conflict)
/* ---- what the program handed to the library and what it got back ---- */
typedef struct { int n; char lab[20][100]; double w[20][20]; int has[20][20], split; } NET;
static struct { int calls, kind, K, nq; NET net; double S[24][24]; double sc[6][40]; char qa[40][100], qb[40][100]; } R;
#define IT 12
static void cap(int kind, struct node_gra *net, struct node_gra *net2) { R.calls++; R.kind = kind; memset(&R.net, 0, sizeof R.net); struct node_gra *nl[40], *p = net; int n = 0; while ((p = p->next)) if (n < 20) nl[n++] = p; R.net.split = n; if (net2) { p = net2; while ((p = p->next)) if (n < 20) nl[n++] = p; } R.net.n = n; for (int i = 0; i < n; i++) { strcpy(R.net.lab[i], nl[i]->label); struct node_lis *l = nl[i]->neig; while ((l = l->next)) for (int j = 0; j < n; j++) if (nl[j] == l->ref) { R.net.has[i][j]++; R.net.w[i][j] = l->weight; } } }
static double **keep(double **m) { for (int i = 0; i < R.net.n; i++) for (int j = 0; j < R.net.n; j++) R.S[i][j] = i == j ? 0 : m[i][j]; return m; }
#define WRAP(k, f) double **__real_##f(struct node_gra *, double, int, gsl_rng *, char); double **__wrap_##f(struct node_gra *n, double c, int it, gsl_rng *g, char v) { cap(k, n, NULL); if (it < 1) mc_fail("iterations", "%d samples", it); return keep(__real_##f(n, c, it < IT ? it : IT, g, 'q')); }
WRAP(LS, LinkScore) WRAP(GLS, GibbsLinkScore) WRAP(MB, LinkScoreMB) WRAP(OMB, ORLinkScoreMB) WRAP(GMB, GibbsLinkScoreMB) WRAP(OGMB, ORGibbsLinkScoreMB) WRAP(OD, LinkScoreMB_OD) WRAP(GOD, GibbsLinkScoreMB_OD)
double **__real_SparseGibbsLinkScore(struct node_gra *, int, gsl_rng *, char); double **__wrap_SparseGibbsLinkScore(struct node_gra *n, int it, gsl_rng *g, char v) { cap(SGLS, n, NULL); if (it < 1) mc_fail("iterations", "%d samples", it); return keep(__real_SparseGibbsLinkScore(n, it < IT ? it : IT, g, 'q')); }
double **__real_LSMultiLinkScoreKState(int, struct node_gra *, int, gsl_rng *, char, int, struct query ***, int *); double **__wrap_LSMultiLinkScoreKState(int K, struct node_gra *n, int it, gsl_rng *g, char v, int d, struct query ***q, int *nq) { cap(KS, n, NULL); R.K = K; double **s = __real_LSMultiLinkScoreKState(K, n, it < IT ? it : IT, g, 'q', d, q, nq); R.nq = *nq; for (int i = 0; i < *nq && i < 40; i++) { strcpy(R.qa[i], (*q)[i]->n1->label); strcpy(R.qb[i], (*q)[i]->n2->label); for (int k = 0; k < K; k++) R.sc[k][i] = s[k][i]; } return s; }
struct node_gra *__real_NetReconstruct(struct node_gra *, gsl_rng *); static int rec_mask; struct node_gra *__wrap_NetReconstruct(struct node_gra *n, gsl_rng *g) { cap(REC, n, NULL); struct node_gra *m = CreateHeaderGraph(), *nl[20]; for (int i = 0; i < R.net.n; i++) nl[i] = CreateNodeGraph(m, R.net.lab[i]); int k = 0; for (int i = 0; i < R.net.n; i++) for (int j = 0; j < i; j++, k++) if (rec_mask >> k & 1) { AddAdjacency(nl[i], nl[j], 0, 0, 1, 0); AddAdjacency(nl[j], nl[i], 0, 0, 1, 0); } return m; }
static void capq(struct query **q, int nq, int K, double **s, double *s1) { R.nq = nq; R.K = K; for (int i = 0; i < nq && i < 40; i++) { strcpy(R.qa[i], q[i]->n1->label); strcpy(R.qb[i], q[i]->n2->label); for (int k = 0; k < K; k++) R.sc[k][i] = s ? s[k][i] : s1 ? s1[i] : q[i]->score; } }
double *__real_MultiLinkScore2State(struct binet *, struct query **, int, int, gsl_rng *, char, int); double *__wrap_MultiLinkScore2State(struct binet *b, struct query **q, int nq, int it, gsl_rng *g, char v, int d) { cap(M2, b->net1, b->net2); double *s = __real_MultiLinkScore2State(b, q, nq, it < IT ? it : IT, g, 'q', d); capq(q, nq, 1, NULL, s); return s; }
double **__real_MultiLinkScoreKState(int, struct binet *, struct query **, int, int, gsl_rng *, char, int); double **__wrap_MultiLinkScoreKState(int K, struct binet *b, struct query **q, int nq, int it, gsl_rng *g, char v, int d) { cap(MK, b->net1, b->net2); double **s = __real_MultiLinkScoreKState(K, b, q, nq, it < IT ? it : IT, g, 'q', d); capq(q, nq, K, s, NULL); return s; }
double **__real_GibbsMultiLinkScoreKState(int, struct binet *, struct query **, int, int, gsl_rng *, char); double **__wrap_GibbsMultiLinkScoreKState(int K, struct binet *b, struct query **q, int nq, int it, gsl_rng *g, char v) { cap(GMK, b->net1, b->net2); double **s = __real_GibbsMultiLinkScoreKState(K, b, q, nq, it < IT ? it : IT, g, 'q'); capq(q, nq, K, s, NULL); return s; }
struct query **__real_AllLinkScore2State(struct binet *, int, gsl_rng *, char, int); struct query **__wrap_AllLinkScore2State(struct binet *b, int it, gsl_rng *g, char v, int d) { cap(ALL, b->net1, b->net2); struct query **q = __real_AllLinkScore2State(b, it < IT ? it : IT, g, 'q', d); capq(q, CountNodes(b->net1) * CountNodes(b->net2), 1, NULL, NULL); return q; }
/* lookup tables (C25) replaced by direct evaluation: the real ones take up to 800 MB per call */
double **InitializeFastLogChoose(int n){ (void)n; return calloc(1,sizeof(double*)); } void FreeFastLogChoose(double **p,int n){ (void)n; free(p); } double FastLogChoose(int r,int l,double **p,int n){ (void)p;(void)n; return LogChoose(r,l); }
double *InitializeFastLogFact(int n){ (void)n; return calloc(1,sizeof(double)); } void FreeFastLogFact(double *p){ free(p); } double FastLogFact(int r,double *p,int n){ (void)p;(void)n; return lgamma(r+1.); }
double *InitializeFastLogGamma(int n,double x){ (void)n;(void)x; return calloc(1,sizeof(double)); } void FreeFastLogGamma(double *p){ free(p); } double FastLogGamma(int r,double *p,int n,double x){ (void)p;(void)n; return lgamma(r+x); }
double *InitializeFastLog(int n){ (void)n; return calloc(1,sizeof(double)); } void FreeFastLog(double *p){ free(p); } double FastLog(int r,double *p,int n){ (void)p;(void)n; return log(r); }
/* ---- programs on networks ---- */
static struct { int (*m)(int, char **); const char *name; int kind, style; const char *f1, *f2; } PR[] = {   /* style 0: two files by link status, 1: standard output, 2: file next to the input */
  {links_main, "reliability_links", LS, 0, "missing.dat", "spurious.dat"}, {links_gibbs_main, "reliability_links_gibbs", GLS, 1}, {links_sparse_main, "reliability_links_gibbs_sparse", SGLS, 1}, {mb_main, "reliability_links_mb", MB, 2, ".AND_scores"}, {mb_or_main, "reliability_links_mb_OR", OMB, 2, ".OR_scores"}, {mb_gibbs_main, "reliability_links_mb_gibbs", GMB, 2, ".AND_scores"}, {mb_gibbs_or_main, "reliability_links_mb_gibbs_OR", OGMB, 2, ".OR_scores"}, {od_main, "only_degeneration_mb", OD, 2, ".scores"}, {od_gibbs_main, "only_degeneration_mb_gibbs", GOD, 2, ".scores"}};
static int netok(const RG *r, const int *id, int weights) { if (R.calls != 1) { mc_fail("calls", "the model's score function was called %d times", R.calls); return 0; } if (R.net.n != r->n) { mc_fail("network", "scores computed for %d nodes instead of %d", R.net.n, r->n); return 0; } int mp[20]; for (int i = 0; i < r->n; i++) { mp[i] = -1; for (int j = 0; j < r->n; j++) if (!strcmp(R.net.lab[j], LB[id[i]])) mp[i] = j; if (mp[i] < 0) { mc_fail("network", "node %s is missing", LB[id[i]]); return 0; } } for (int i = 0; i < r->n; i++) for (int j = 0; j < r->n; j++) if (R.net.has[mp[i]][mp[j]] != r->has[i][j] || (weights && r->has[i][j] && R.net.w[mp[i]][mp[j]] != r->w[i][j])) { mc_fail("network", "link %s-%s differs from the file", LB[id[i]], LB[id[j]]); return 0; } return 1; }
static int lab2(const char *s) { for (int i = 0; i < R.net.n; i++) if (!strcmp(R.net.lab[i], s)) return i; return -1; }
static int close6(const char *a, double w) { char *e; double x = strtod(a, &e); return e != a && !*e && !isnan(x) && fabs(x - w) <= 1e-5 * fabs(w) + 1.1e-6; }
/* lines "score label label"; want: which pairs belong to this file (-1 all, 0 unlinked, 1 linked) */
static void lines(char *t, const char *what, int want, int seen[20][20]) { if (!t) { mc_fail("output", "%s was not written", what); return; } while (*t) { char s[60], a[200], b[200]; int c = 0; if (sscanf(t, "%59s %199s %199s%n", s, a, b, &c) != 3 || t[c] != '\n') { mc_fail("output", "%s: line \"%.60s\"", what, t); return; } int i = lab2(a), j = lab2(b); if (i < 0 || j < 0 || i == j) { mc_fail("output", "%s: line \"%.60s\" names unknown nodes", what, t); return; } if (seen[i][j]) { mc_fail("output", "%s: pair %s %s reported twice", what, a, b); return; } seen[i][j] = seen[j][i] = 1; if (want >= 0 && R.net.has[i][j] != want) mc_fail("status", "%s: pair %s %s is %s", what, a, b, want ? "not linked" : "linked"); if (!close6(s, R.S[i][j])) { mc_fail("score", "%s: score %s of %s %s instead of %g", what, s, a, b, R.S[i][j]); return; } t += c + 1; } }
static void network(long arg) { prog_dir(); int x = arg & 15, n = arg >> 4 & 15, c = arg >> 8; RG g, r; int id[HMAX]; unsigned cnt = 0; for (unsigned m = c; m < 1u << (n * (n - 1) / 2); m += 4) for (int form = 0; form < (n < 4 ? 16 : 3); form++) { if (!m) continue; if (mc_timeup()) { mc_capped("time"); return; } labels((m + form) % 4); rg_mask(&g, n, m); netfile("net", &g, n < 4 ? form : (m + form * 5) & 15, &r, id); int L = 0; for (int i = 0; i < r.n; i++) L += rg_deg(&r, i); if (r.n < 2) continue; if (PR[x].kind == SGLS && L == r.n * (r.n - 1)) continue; mc_step("; program %s", PR[x].name); mc_states(1); char *txt[3] = {0}; for (int s = 0; s < 3; s++) { char sd[10], *out; sprintf(sd, "%d", s == 2 ? 5 : s + 5 + (int)(cnt++ % 3 ? 0 : 0)); memset(&R, 0, sizeof R); unlink("missing.dat"); unlink("spurious.dat"); char *fn = NULL; char *v[] = {(char *)PR[x].name, "net", sd, NULL}; if (PR[x].style == 2) { fn = malloc(300); sprintf(fn, "net%s", PR[x].f1); unlink(fn); } prog(PR[x].m, NULL, &out, v); if (R.kind != PR[x].kind) { mc_fail("model", "scores of %s instead of %s", R.calls ? FN[R.kind] : "(no model)", FN[PR[x].kind]); free(fn); break; } if (!netok(&r, id, 0)) break; int seen[20][20] = {{0}}; char *t = NULL; if (PR[x].style == 0) { char *a = rd("missing.dat"), *b = rd("spurious.dat"); lines(a, "missing.dat", 0, seen); lines(b, "spurious.dat", 1, seen); t = malloc((a ? strlen(a) : 0) + (b ? strlen(b) : 0) + 3); sprintf(t, "%s|%s", a ? a : "", b ? b : ""); } else { char *a = PR[x].style == 1 ? out : rd(fn); lines(a, PR[x].style == 1 ? "standard output" : fn, -1, seen); t = strdup(a ? a : ""); } for (int i = 0; i < r.n; i++) for (int j = 0; j < i; j++) if (!seen[i][j]) { mc_fail("output", "no score for %s %s", R.net.lab[i], R.net.lab[j]); i = r.n; break; } txt[s] = t; mc_traces(1); mc_outcome(mc_hash(t, strlen(t))); free(fn); } if (txt[0] && txt[2] && strcmp(txt[0], txt[2])) mc_fail("seed", "the same seed gives different results"); for (int s = 0; s < 3; s++) free(txt[s]); } }
/* the seed matters: over several networks and seeds the reported scores are not all the same */
static void seeds(long x) { prog_dir(); labels(0); RG g, r; int id[HMAX], differ = 0; for (unsigned m = 1; m < 63 && !differ; m += 6) { rg_mask(&g, 4, m); netfile("net", &g, 4, &r, id); char *first = NULL; for (int s = 1; s <= 6; s++) { char sd[10], *out, fn[300]; sprintf(sd, "%d", s); char *v[] = {(char *)PR[x].name, "net", sd, NULL}; sprintf(fn, "net%s", PR[x].style == 2 ? PR[x].f1 : ""); prog(PR[x].m, NULL, &out, v); char *a = PR[x].style == 1 ? out : rd(PR[x].style ? fn : "missing.dat"); if (!a) continue; mc_states(1); mc_traces(1); if (!first) first = strdup(a); else if (strcmp(first, a)) differ = 1; } free(first); } mc_outcome(x); if (!differ) mc_fail("seed", "six seeds give the same scores for every network"); }
/* long file names */
static void longname(long x) { prog_dir(); labels(0); char nm[260]; memset(nm, 'f', 230); nm[230] = 0; mc_case("%s with a file name of 230 characters", PR[x].name); wr(nm, "a b\nb c\n"); mc_states(1); char *v[] = {(char *)PR[x].name, nm, "1", NULL}, *out, fn[300]; memset(&R, 0, sizeof R); prog(PR[x].m, NULL, &out, v); int seen[20][20] = {{0}}; sprintf(fn, "%s%s", nm, PR[x].f1); lines(rd(fn), "scores", -1, seen); mc_traces(1); mc_outcome(x); }
/* K-state link networks */
static void kstate(long arg) { prog_dir(); int n = arg & 15, K = arg >> 4 & 15, c = arg >> 8; long T = 1; int P2 = n * (n - 1) / 2; for (int i = 0; i < P2; i++) T *= K + 1; for (long m = 1 + c; m < T; m += (n == 4 ? 29 * 4 : 4)) { if (mc_timeup()) { mc_capped("time"); return; } labels(m % 4); char t[3000]; int l = 0; long z = m; RG r; rg_init(&r, HMAX); r.n = 0; int id[HMAX], map[HMAX]; memset(map, -1, sizeof map); mc_case("weighted file:"); for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) { int s = z % (K + 1); z /= K + 1; if (!s) continue; int f = (m + i) & 1, v[2] = {f ? i : j, f ? j : i}; l += sprintf(t + l, "%s %s %d\n", LB[v[0]], LB[v[1]], s - 1); mc_step(" %.8s-%.8s(%d)", LB[v[0]], LB[v[1]], s - 1); for (int q = 0; q < 2; q++) if (map[v[q]] < 0) { map[v[q]] = r.n; id[r.n++] = v[q]; } rg_link(&r, map[i], map[j], s - 1); } wr("net", t); mc_states(1); char *keepv = NULL; for (int s = 0; s < 2; s++) { char ks[10], *v[] = {"reliability_links_k", ks, "net", "7", NULL}, *out; sprintf(ks, "%d", K); memset(&R, 0, sizeof R); unlink("observed_k.dat"); unlink("unobserved_k.dat"); prog(links_k_main, NULL, &out, v); if (!R.calls || R.kind != KS || R.K != K) { mc_fail("model", "scores of %s with %d states", R.calls ? FN[R.kind] : "(no model)", R.K); break; } if (!netok(&r, id, 1)) break; int seen[20][20] = {{0}}; for (int ob = 0; ob < 2; ob++) { char *u = rd(ob ? "observed_k.dat" : "unobserved_k.dat"); if (!u) { mc_fail("output", "file not written"); break; } if (ob && s) { if (keepv && strcmp(keepv, u)) mc_fail("seed", "the same seed gives different results"); } else if (ob) keepv = strdup(u); while (*u) { char a[200], b[200]; int cc = 0; if (sscanf(u, "%199s %199s%n", a, b, &cc) != 2) { mc_fail("output", "line \"%.60s\"", u); break; } u += cc; int i = lab2(a), j = lab2(b); if (i < 0 || j < 0 || i == j || seen[i][j]) { mc_fail("output", "pair %s %s unknown or repeated", a, b); break; } seen[i][j] = seen[j][i] = 1; if (R.net.has[i][j] != ob) mc_fail("status", "pair %s %s is reported as %sobserved", a, b, ob ? "" : "un"); int q; for (q = 0; q < R.nq; q++) if ((!strcmp(R.qa[q], a) && !strcmp(R.qb[q], b)) || (!strcmp(R.qa[q], b) && !strcmp(R.qb[q], a))) break; for (int k = 0; k < K; k++) { char sc[60]; if (sscanf(u, " %59s%n", sc, &cc) != 1 || !close6(sc, R.sc[k][q])) { mc_fail("score", "value %d of pair %s %s is %s instead of %f", k, a, b, sc, R.sc[k][q]); break; } u += cc; } if (*u != '\n') { mc_fail("output", "line of pair %s %s ends \"%.20s\"", a, b, u); break; } u++; } } for (int i = 0; i < r.n; i++) for (int j = 0; j < i; j++) if (!seen[i][j]) mc_fail("output", "no scores for %s %s", R.net.lab[i], R.net.lab[j]); mc_traces(1); mc_outcome(mc_hash(R.sc, sizeof R.sc)); } free(keepv); } }
/* reconstruction: the network returned is the network printed */
static void reconstruct(long n) { prog_dir(); RG g, r; int id[HMAX]; for (unsigned m = 1; m < 1u << (n * (n - 1) / 2); m++) for (int v2 = 0; v2 < (n < 4 ? 8 : 2); v2++) { if (mc_timeup()) { mc_capped("time"); return; } labels((m + v2) % 4); rg_mask(&g, n, m); netfile("net", &g, (m + v2 * 3) & 15, &r, id); if (r.n < 2) continue; mc_states(1); rec_mask = (m * 37 + v2 * 11) & ((1 << (r.n * (r.n - 1) / 2)) - 1); char *v[] = {"reconstruct", "net", "3", NULL}, *out; memset(&R, 0, sizeof R); unlink("net_reconstructed.dat"); prog(reconstruct_main, NULL, &out, v); if (!R.calls || R.kind != REC) { mc_fail("model", "no reconstruction"); continue; } if (!netok(&r, id, 0)) continue; char *t = rd("net_reconstructed.dat"); int seen[20][20] = {{0}}; if (!t) { mc_fail("output", "not written"); continue; } while (*t) { char a[200], b[200]; int c = 0; if (sscanf(t, "%199s %199s%n", a, b, &c) != 2 || t[c] != '\n') { mc_fail("output", "line \"%.60s\"", t); break; } int i = lab2(a), j = lab2(b); if (i < 0 || j < 0 || seen[i][j]) { mc_fail("output", "link %s %s unknown or repeated", a, b); break; } seen[i][j] = seen[j][i] = 1; t += c + 1; } int k = 0; for (int i = 0; i < r.n; i++) for (int j = 0; j < i; j++, k++) if (seen[i][j] != (rec_mask >> k & 1)) mc_fail("output", "link %s %s is %s", R.net.lab[i], R.net.lab[j], seen[i][j] ? "printed but not in the reconstruction" : "missing"); mc_traces(1); mc_outcome(m * 8 + rec_mask); } }
/* ---- programs on ratings ---- */
static void ratings(long arg) { prog_dir(); int x = arg & 7, n1 = arg >> 3 & 7, n2 = arg >> 6 & 7, K = arg >> 9 & 7, c = arg >> 12; int (*pm[])(int, char **) = {rec2_main, reck_main, reck_gibbs_main, conflict_main}; static const int kd[] = {M2, MK, GMK, ALL}; static const char *nm[] = {"multi_recommend_2", "multi_recommend_k", "multi_recommend_k_gibbs", "conflict"}; long T = 1; for (int i = 0; i < n1 * n2; i++) T *= K + 1; long step = T > 2000 ? 4 * 31 : 4;
  for (long m = 1 + c; m < T; m += step) { if (mc_timeup()) { mc_capped("time"); return; } labels(m % 4); char lc[8][100]; for (int j = 0; j < 8; j++) if (m % 5 == 2) strcpy(lc[j], LB[(j + 1) % 8]); else sprintf(lc[j], "i%d", (j * 3 + (int)m) % 8); /* sometimes both sets share labels */
    char t[4000]; int l = 0, a1[8], a2[8], k1 = 0, k2 = 0, s1[8], s2[8]; memset(s1, -1, sizeof s1); memset(s2, -1, sizeof s2); double W[8][8] = {{0}}; int H[8][8] = {{0}}; long z = m; mc_case("ratings:"); for (int i = 0; i < n1; i++) for (int j = 0; j < n2; j++) { int s = z % (K + 1); z /= K + 1; if (!s) continue; l += sprintf(t + l, "%s %s %d\n", LB[i], lc[j], s - 1); mc_step(" %.8s-%.8s:%d", LB[i], lc[j], s - 1); if (s1[i] < 0) { s1[i] = k1; a1[k1++] = i; } if (s2[j] < 0) { s2[j] = k2; a2[k2++] = j; } H[i][j] = 1; W[i][j] = s - 1; } wr("obs", t);
    /* queries: a few pairs, one of them twice, sometimes with nodes that were never rated */
    int nq = 1 + m % 4, qi[8], qj[8]; l = 0; mc_step("; queries"); for (int q = 0; q < nq; q++) { qi[q] = (m / 3 + q * (1 + m % 2)) % (n1 + (m % 3 == 0)); qj[q] = (m / 2 + q) % (n2 + (m % 4 == 0)); if (q == 3) { qi[q] = qi[0]; qj[q] = qj[0]; } l += sprintf(t + l, "%s %s%s", LB[qi[q]], lc[qj[q]], q == nq - 1 && m % 2 ? "" : "\n"); mc_step(" %.8s-%.8s", LB[qi[q]], lc[qj[q]]); } wr("que", t);
    mc_step("; program %s", nm[x]); mc_states(1); char *first = NULL; for (int s = 0; s < 2; s++) { char ks[10], *v0[] = {(char *)nm[x], "obs", "que", "4", NULL}, *v1[] = {(char *)nm[x], ks, "obs", "que", "4", NULL}, *v3[] = {(char *)nm[x], "obs", "4", NULL}, *out; sprintf(ks, "%d", K); memset(&R, 0, sizeof R); unlink("link_scores.dat"); prog(pm[x], NULL, &out, x == 0 ? v0 : x == 3 ? v3 : v1); if (!R.calls || R.kind != kd[x] || ((x == 1 || x == 2) && R.K != K)) { mc_fail("model", "scores of %s with %d states", R.calls ? FN[R.kind] : "(no model)", R.K); break; } if (R.calls != 1) mc_fail("calls", "%d calls", R.calls);
      /* the table handed over: the rated and queried nodes, and exactly the ratings of the file */
      int e1[8], e2[8]; for (int i = 0; i < 8; i++) { e1[i] = s1[i] >= 0; e2[i] = s2[i] >= 0; } if (x < 3) for (int q = 0; q < nq; q++) e1[qi[q]] = e2[qj[q]] = 1; int c1 = 0, c2 = 0, ok = 1; for (int i = 0; i < 8; i++) { c1 += e1[i]; c2 += e2[i]; } if (R.net.split != c1 || R.net.n != c1 + c2) { mc_fail("ratings", "table of %dx%d instead of %dx%d", R.net.split, R.net.n - R.net.split, c1, c2); break; } for (int i = 0; i < 8 && ok; i++) for (int j = 0; j < 8 && ok; j++) if (e1[i] && e2[j]) { int p = -1, r = -1; for (int y = 0; y < c1; y++) if (!strcmp(R.net.lab[y], LB[i])) p = y; for (int y = c1; y < c1 + c2; y++) if (!strcmp(R.net.lab[y], lc[j])) r = y; if (p < 0 || r < 0 || R.net.has[p][r] != H[i][j] || R.net.has[r][p] != H[i][j] || (H[i][j] && (R.net.w[p][r] != W[i][j] || R.net.w[r][p] != W[i][j]))) { mc_fail("ratings", "rating of %s %s differs from the file", LB[i], lc[j]); ok = 0; } } if (!ok) break;
      if (x < 3) { if (R.nq != nq) { mc_fail("queries", "%d queries instead of %d", R.nq, nq); break; } for (int q = 0; q < nq; q++) if (strcmp(R.qa[q], LB[qi[q]]) || strcmp(R.qb[q], lc[qj[q]])) mc_fail("queries", "query %d is %s %s", q, R.qa[q], R.qb[q]); }
      char *u = x == 3 ? rd("link_scores.dat") : strstr(out, "RESULTS"); if (!u) { mc_fail("output", "no results"); break; } if (x < 3) u += 7; if (!first) first = strdup(u); else if (strcmp(first, u)) mc_fail("seed", "the same seed gives different results"); int q = 0; for (;;) { char a[200], b[200], sc[60]; int cc = 0; if (x == 3) while (q < R.nq && !strcmp(R.qa[q], R.qb[q])) q++; int g2 = sscanf(u, "%199s %199s%n", a, b, &cc); if (g2 < 2) break; u += cc; if (q >= R.nq || strcmp(a, R.qa[q]) || strcmp(b, R.qb[q])) { mc_fail("output", "result %d is for %s %s", q, a, b); break; } for (int k = 0; k < (x == 1 || x == 2 ? K : 1); k++) { if (sscanf(u, " %59s%n", sc, &cc) != 1 || !close6(sc, R.sc[k][q])) { mc_fail("score", "value %d of %s %s is %s instead of %f", k, a, b, sc, R.sc[k][q]); break; } u += cc; } q++; } if (q != R.nq) mc_fail("output", "%d results for %d queries", q, R.nq); mc_traces(1); mc_outcome(mc_hash(R.sc, sizeof R.sc)); } free(first); } }
/* the same for the rating programs, the program for several states and the reconstruction */
static void seeds2(long x) { prog_dir(); int differ = 0; int (*m[])(int, char **) = {rec2_main, reck_main, reck_gibbs_main, conflict_main, links_k_main}; static const char *nm[] = {"multi_recommend_2", "multi_recommend_k", "multi_recommend_k_gibbs", "conflict", "reliability_links_k"};
  for (int f = 0; f < 8 && !differ; f++) { char t[2000]; int l = 0; for (int i = 0; i < 5; i++) for (int j = x == 4 ? i + 1 : 0; j < (x == 4 ? 5 : 4); j++) if ((i * 3 + j * 5 + f) % 4) l += sprintf(t + l, "%c%d %c%d %d\n", x == 4 ? 'n' : x == 3 ? 'a' : 'u', i, x == 4 ? 'n' : x == 3 ? 'a' : 'v', j, (i * j + i + f) % 2); wr("net", t); wr("que", "u0 v0\nu1 v2\nu4 v3\n"); char *first = NULL; mc_case("%s on \"%s\" with six seeds", nm[x], t);
    for (int s = 1; s <= 6; s++) { char sd[10], *out, *a; sprintf(sd, "%d", s * 11); char *v0[] = {(char *)nm[x], "net", "que", sd, NULL}, *v1[] = {(char *)nm[x], "2", "net", "que", sd, NULL}, *v3[] = {(char *)nm[x], "net", sd, NULL}, *v4[] = {(char *)nm[x], "2", "net", sd, NULL}; prog(m[x], NULL, &out, x == 0 ? v0 : x < 3 ? v1 : x == 3 ? v3 : v4); a = x < 3 ? strstr(out, "RESULTS") : rd(x == 3 ? "link_scores.dat" : "unobserved_k.dat"); mc_states(1); mc_traces(1); if (!a) continue; if (!first) first = strdup(a); else if (strcmp(first, a)) differ = 1; } free(first); mc_outcome(x * 10 + f); } if (!differ) mc_fail("seed", "%s: six seeds give the same scores for every file", nm[x]); }
static void usage(long x) { (void)x; prog_usage = 1; prog_dir(); wr("net", "a b\nb c\n"); wr("que", "a b\n"); struct { int (*m)(int, char **); const char *name, *a[4]; int need; } U[] = {{links_main, "reliability_links", {"net"}, 2}, {links_gibbs_main, "reliability_links_gibbs", {"net"}, 2}, {links_sparse_main, "reliability_links_gibbs_sparse", {"net"}, 2}, {links_k_main, "reliability_links_k", {"2", "net"}, 3}, {reconstruct_main, "reconstruct", {"net"}, 2}, {mb_main, "reliability_links_mb", {"net"}, 2}, {mb_or_main, "reliability_links_mb_OR", {"net"}, 2}, {mb_gibbs_main, "reliability_links_mb_gibbs", {"net"}, 2}, {mb_gibbs_or_main, "reliability_links_mb_gibbs_OR", {"net"}, 2}, {od_main, "only_degeneration_mb", {"net"}, 2}, {od_gibbs_main, "only_degeneration_mb_gibbs", {"net"}, 2}, {rec2_main, "multi_recommend_2", {"net", "que"}, 3}, {reck_main, "multi_recommend_k", {"2", "net", "que"}, 4}, {reck_gibbs_main, "multi_recommend_k_gibbs", {"2", "net", "que"}, 4}, {conflict_main, "conflict", {"net"}, 2}};
  for (int i = 0; i < 15; i++) for (int k = 0; k < U[i].need; k++) { char *v[6] = {(char *)U[i].name}, *out; for (int j = 0; j < k; j++) v[j + 1] = (char *)U[i].a[j]; v[k + 1] = NULL; mc_case("%s with %d arguments", U[i].name, k); mc_states(1); memset(&R, 0, sizeof R); prog(U[i].m, NULL, &out, v); if (!strstr(out, "Use") || R.calls) mc_fail("usage", "%s does not explain its arguments", U[i].name); mc_traces(1); mc_outcome(i * 5 + k); } }
int main(int c, char **v) { const char *e = getenv("VERIF_TIER"); int th = e && !strcmp(e, "thorough"); char nm[60];
  for (int x = 0; x < 9; x++) { for (int n = 2; n <= 4; n++) for (int k = 0; k < (n == 4 ? 4 : 1); k++) { sprintf(nm, "%s-%d-%d", PR[x].name, n, k); if (n == 4) mc_section(nm, network, x | n << 4 | k << 8); else for (int q = 0; q < 4; q++) { sprintf(nm, "%s-%d-%d", PR[x].name, n, q); mc_section(nm, network, x | n << 4 | q << 8); } } sprintf(nm, "seeds-%s", PR[x].name); mc_section(nm, seeds, x); if (PR[x].style == 2) { sprintf(nm, "long-name-%s", PR[x].name); mc_section(nm, longname, x); } }
  for (int n = 2; n <= 4; n++) for (int K = 2; K <= 3; K++) for (int k = 0; k < 4; k++) { sprintf(nm, "links_k-%d-%d-%d", n, K, k); mc_section(nm, kstate, n | K << 4 | k << 8); } for (int n = 2; n <= 4; n++) { sprintf(nm, "reconstruct-%d", n); mc_section(nm, reconstruct, n); }
  static const int sz[][2] = {{1, 1}, {1, 2}, {2, 1}, {2, 2}, {3, 2}, {2, 3}}; for (int x = 0; x < 4; x++) for (int s = 0; s < 6; s++) for (int K = 2; K <= (x == 1 || x == 2 ? 3 : 2); K++) for (int k = 0; k < 4; k++) { if (!th && s > 3 && k) continue; sprintf(nm, "%s-%d-%d-%d-%d", x == 0 ? "recommend2" : x == 1 ? "recommendk" : x == 2 ? "recommendkg" : "conflict", sz[s][0], sz[s][1], K, k); mc_section(nm, ratings, x | sz[s][0] << 3 | sz[s][1] << 6 | K << 9 | (long)k << 12); }
  for (int x = 0; x < 5; x++) { sprintf(nm, "seeds2-%d", x); mc_section(nm, seeds2, x); } mc_section("usage", usage, 0); return mc_main(c, v); }
