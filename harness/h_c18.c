/* C18: partitions written by the library or by the module-identification program, read back: all partitions of small node
   sets in every arrangement, every format, several label families; the program itself run on its own output. */
#define HMAX 16
#include "hg.h"
#include "modules.h"
#undef MAX_LABEL_LENGTH
#include "aa.h"
#include "io.h"
#include <unistd.h>
struct group *FReadPartition(FILE *);
static int th;
/* label families: letters, prefixes of each other, digits and signs, comment-like, long */
static void labels(int fam, int n, char lab[][100]) {
  static const char *F3[] = {"-1", "10", "1", "01", "0", "1.0", "+"}, *F4[] = {"#", "//", "#a", "---", "////", "R1", "# "};
  for (int i = 0; i < n; i++)
    if (fam == 0) sprintf(lab[i], "%c", 'a' + i);
    else if (fam == 1) { memset(lab[i], 'x', i + 1); lab[i][i + 1] = 0; }
    else if (fam == 2) strcpy(lab[i], F3[i]);
    else if (fam == 3) { strcpy(lab[i], F4[i]); if (lab[i][strlen(lab[i]) - 1] == ' ') strcpy(lab[i], "##"); }
    else { int L = 99 - 7 * i; memset(lab[i], 'q', L); lab[i][L] = 0; lab[i][0] = 'a' + (i * 5) % 7; }
}
/* assignment of each label in a partition of the library; returns a message */
static const char *readlab(struct group *p, int n, char lab[][100], int *a) {
  static char m[200]; int k = 0, tot = 0; for (int i = 0; i < n; i++) a[i] = -1;
  for (struct group *g = p->next; g; g = g->next, k++) { int c = 0; for (struct node_lis *l = g->nodeList->next; l; l = l->next) { int i; for (i = 0; i < n; i++) if (!strcmp(lab[i], l->nodeLabel)) break; if (i == n) { snprintf(m, 200, "unknown node '%.60s'", l->nodeLabel); return m; } if (a[i] >= 0) { snprintf(m, 200, "node '%.60s' twice", lab[i]); return m; } a[i] = k; c++; tot++; if (tot > n) return "too many nodes"; } if (g->size != c) { snprintf(m, 200, "group %d has size %d, lists %d", k, g->size, c); return m; } }
  for (int i = 0; i < n; i++) if (a[i] < 0) { snprintf(m, 200, "node '%.60s' lost", lab[i]); return m; } return NULL;
}
static int same(const int *a, const int *b, int n) { for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if ((a[i] == a[j]) != (b[i] == b[j])) return 0; return 1; }
static void text(const int *a, const int *o, int n, int fam) { mc_case("labels of family %d, modules", fam); for (int i = 0; i < n; i++) mc_step(" %d", a[i]); mc_step(", nodes listed in order"); for (int i = 0; i < n; i++) mc_step(" %d", o[i]); }
static char *buf; static size_t bl;
/* ---- the library's partitions ---- */
static void legacy(int n, const int *a, const int *o, int fam, char lab[][100], struct node_gra **nl, struct node_gra *net, const RG *r) {
  int b[HMAX], K = 0, idx[HMAX]; const char *e; for (int i = 0; i < n; i++) { if (a[i] >= K) K = a[i] + 1; nl[i]->inGroup = -1; } for (int k = 0; k < K; k++) idx[k] = -1;
  struct group *p = CreateHeaderGroup(), *g[HMAX]; int c = 0; if (fam & 1) CreateGroup(p, 40);
  for (int x = 0; x < n; x++) { int k = a[o[x]]; if (idx[k] < 0) { idx[k] = c++; g[k] = CreateGroup(p, k); if (fam == 2) CreateGroup(p, 20 + k); } AddNodeToGroup(g[k], nl[o[x]]); }
  FILE *f = open_memstream(&buf, &bl); FPrintPartition(f, p, 1); fclose(f); mc_trans(1); f = mc_memfile(buf); struct group *q = FCreatePartition(f); fclose(f); mc_trans(1);
  e = readlab(q, n, lab, b); if (e) mc_fail("reload", "one node per line: %s; file \"%s\"", e, buf); else { if (!same(a, b, n)) mc_fail("reload", "one node per line: other modules after reading \"%s\"", buf); else {
      int l = 0; for (struct group *h = q->next; h; h = h->next) { if (h->label != l) mc_fail("reload", "group %d read has label %d", l, h->label); l++; }
      MapPartToNetSoft(q, net); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if ((a[i] == a[j]) != (nl[i]->inGroup == nl[j]->inGroup)) mc_fail("reload-map", "nodes %d and %d", i, j); MapPartToNet(q, net); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if ((a[i] == a[j]) != (nl[i]->inGroup == nl[j]->inGroup)) mc_fail("reload-map", "nodes %d and %d after MapPartToNet", i, j); mc_trans(2);
      for (struct group *h = q->next; h; h = h->next) if (h->size) { int in = 0, out = 0; double inw = 0, outw = 0; for (int i = 0; i < n; i++) if (nl[i]->inGroup == h->label) for (int j = 0; j < n; j++) if (r->has[i][j]) { if (nl[j]->inGroup != h->label) { out++; outw += r->w[i][j]; } else if (i < j) { in++; inw += r->w[i][j]; } } if (h->inlinks != in || h->outlinks != out || h->totlinks != in + out || !mc_close(h->inlinksW, inw) || !mc_close(h->outlinksW, outw) || !mc_close(h->totlinksW, inw + outw)) mc_fail("reload-links", "links of group %d read back are %d/%d/%d %g/%g/%g instead of %d/%d/%d %g/%g/%g", h->label, h->totlinks, h->inlinks, h->outlinks, h->totlinksW, h->inlinksW, h->outlinksW, in + out, in, out, inw + outw, inw, outw); } } }
  RemovePartition(q); free(buf);
  /* the verbose listing */
  MapPartToNet(p, net); f = open_memstream(&buf, &bl); FPrintPartition(f, p, 0); fclose(f); mc_trans(1); { int seen[HMAX] = {0}, lines = 0; char *sv, *cp = strdup(buf); for (char *l = strtok_r(cp, "\n", &sv); l; l = strtok_r(NULL, "\n", &sv)) { int gl, sz, tl, il, ol, off = 0; double tw, iw, ow; if (sscanf(l, "%d %d %d %d %d %lf %lf %lf ---%n", &gl, &sz, &tl, &il, &ol, &tw, &iw, &ow, &off) != 8 || !off || gl < 1 || gl > K) { mc_fail("listing", "line \"%s\"", l); break; } lines++; char *t = l + off; int cnt = 0; while (*t == ' ') { t++; size_t L = strcspn(t, " "); int i; for (i = 0; i < n; i++) if (strlen(lab[i]) == L && !strncmp(lab[i], t, L)) break; if (i == n || seen[i]++ || a[i] != gl - 1) { mc_fail("listing", "node '%.40s' in line \"%s\"", t, l); break; } cnt++; t += L; } int in = 0, out = 0; double inw = 0, outw = 0; for (int i = 0; i < n; i++) if (a[i] == gl - 1) for (int j = 0; j < n; j++) if (r->has[i][j]) { if (a[j] != a[i]) { out++; outw += r->w[i][j]; } else if (i < j) { in++; inw += r->w[i][j]; } } if (sz != cnt || tl != in + out || il != in || ol != out || fabs(tw - inw - outw) > 1e-5 || fabs(iw - inw) > 1e-5 || fabs(ow - outw) > 1e-5) mc_fail("listing", "line \"%s\": should have %d nodes, links %d %d %d, weights %g %g %g", l, cnt, in + out, in, out, inw + outw, inw, outw); } if (lines != K) mc_fail("listing", "%d groups listed instead of %d", lines, K); for (int i = 0; i < n; i++) if (!seen[i]) mc_fail("listing", "node '%s' not listed", lab[i]); free(cp); } free(buf);
  /* Pajek partition file */
  { char fn[600], l[100]; snprintf(fn, 600, "%s/p.clu", mc_tmpdir()); FPrintPajekPartitionFile(fn, net); mc_trans(1); f = fopen(fn, "r"); int N = -1, x; if (!f || !fgets(l, 100, f) || sscanf(l, "*Vertices %d", &N) != 1 || N != n) mc_fail("pajek", "header"); else { for (int i = 0; i < n; i++) if (fscanf(f, "%d", &x) != 1 || x != a[i] + 1) { mc_fail("pajek", "module of node %d", i); break; } if (fscanf(f, "%d", &x) == 1) mc_fail("pajek", "more lines than nodes"); } if (f) fclose(f); }
  RemovePartition(p);
  /* one module per line, in several layouts */
  for (int v = 0; v < 6; v++) { char t[3000]; int L = 0; int done[HMAX] = {0}; if (v == 4) L += sprintf(t + L, "\n"); for (int x = 0; x < n; x++) { int k = a[o[x]]; if (done[k]) continue; done[k] = 1; int first = 1; for (int y = 0; y < n; y++) if (a[o[y]] == k) { if (!first) L += sprintf(t + L, "\t"); L += sprintf(t + L, "%s", lab[o[y]]); first = 0; } if (v == 1 || v == 3) L += sprintf(t + L, "\t"); L += sprintf(t + L, v == 5 ? "\n\n" : "\n"); } if ((v == 2 || v == 3) && L) t[--L] = 0; f = mc_memfile(t); q = FReadPartition(f); fclose(f); mc_trans(1); e = readlab(q, n, lab, b); if (e) mc_fail("tabular", "layout %d: %s", v, e); else if (!same(a, b, n)) mc_fail("tabular", "layout %d: other modules", v); RemovePartition(q); }
}
/* ---- the program's partitions ---- */
static void check_arr(Partition *p, int n, const int *a, int K, int ret, const char *what) { int b[HMAX]; if (ret) mc_fail("assign-missing", "%s: %d nodes reported missing", what, ret); const char *e = pt_check(p, NULL); if (e) { mc_fail("assign", "%s: %s", what, e); return; } for (int i = 0; i < n; i++) b[i] = p->nodes[i]->module; if (!same(a, b, n)) mc_fail("assign", "%s: other modules", what); if ((int)(p->M - p->nempty) != K) mc_fail("assign", "%s: %d modules instead of %d", what, p->M - p->nempty, K); if (p->nempty) mc_fail("assign", "%s: %d empty modules left", what, p->nempty); }
static void array(int n, const int *a, const int *o, char lab[][100]) { int K = 0; for (int i = 0; i < n; i++) if (a[i] >= K) K = a[i] + 1; char *L[HMAX]; 
  Partition *p = CreatePartition(n, n); for (int i = 0; i < n; i++) { p->nodes[i]->strength = (i + 1) / 16.0; L[i] = lab[i]; } int idx[HMAX], c = 0; for (int k = 0; k < K; k++) idx[k] = -1; for (int x = 0; x < n; x++) { int k = a[o[x]]; if (idx[k] < 0) { idx[k] = c; c += (x & 1) && c + 1 < n && n - c > K ? 2 : 1; if (idx[k] >= n) idx[k] = n - 1; } } /* gaps between modules are allowed */
  int used[HMAX] = {0}, ok = 1; for (int k = 0; k < K; k++) if (used[idx[k]]++) ok = 0; if (!ok) { c = 0; for (int k = 0; k < K; k++) idx[k] = c++; } for (int x = 0; x < n; x++) put(p, idx[a[o[x]]], o[x]);
  for (int hd = 0; hd < 2; hd++) for (int pm = 0; pm < 3; pm++) { FILE *f = open_memstream(&buf, &bl); if (hd) { fprintf(f, "# Modularity: %f\n", 0.25); fprintf(f, "# Modularity (with diagonal): %f\n", -0.5); } ClusteringOutput(f, p, L); fclose(f); mc_trans(1); int b[HMAX], m[HMAX]; char *M[HMAX]; for (int i = 0; i < n; i++) { m[i] = pm == 0 ? i : pm == 1 ? n - 1 - i : o[i]; M[i] = lab[m[i]]; b[i] = a[m[i]]; } Partition *q = CreatePartition(n, n); for (int i = 0; i < n; i++) q->nodes[i]->strength = 1.0 / (2 + i); f = mc_memfile(buf); int r = AssignNodesToModulesFromFile(f, q, M); fclose(f); mc_trans(1); check_arr(q, n, b, K, r, hd ? "clustering output with header" : "clustering output"); if (!hd && !pm) { /* structure of the output itself */ int ln = 0; for (char *t = buf; *t; t++) ln += *t == '\n'; if (ln != (int)p->M && ln != K) mc_fail("output", "%d lines for %d modules", ln, K); } FreePartition(q); free(buf); }
  /* hand-written layouts: no final newline, no trailing tabs, empty lines */
  for (int v = 0; v < 4; v++) { char t[3000]; int l = 0, done[HMAX] = {0}; for (int x = 0; x < n; x++) { int k = a[o[x]]; if (done[k]) continue; done[k] = 1; int first = 1; for (int y = 0; y < n; y++) if (a[o[y]] == k) { if (!first) l += sprintf(t + l, "\t"); l += sprintf(t + l, "%s", lab[o[y]]); first = 0; } if (v == 1) l += sprintf(t + l, "\t"); l += sprintf(t + l, v == 2 ? "\n\n" : "\n"); } if (v == 3) t[--l] = 0; Partition *q = CreatePartition(n, n); FILE *f = mc_memfile(t); int r = AssignNodesToModulesFromFile(f, q, L); fclose(f); mc_trans(1); char w[30]; sprintf(w, "layout %d", v); check_arr(q, n, a, K, r, w); FreePartition(q); }
  /* a file that lists only some nodes: the number of missing ones is reported */
  for (int x = 0; x < n; x++) { char t[3000]; int l = 0; for (int y = 0; y <= x; y++) l += sprintf(t + l, "%s%s", lab[o[y]], y + 1 <= x && a[o[y]] == a[o[y + 1]] ? "\t" : "\n"); Partition *q = CreatePartition(n, n); FILE *f = mc_memfile(t); int r = AssignNodesToModulesFromFile(f, q, L); fclose(f); mc_trans(1); if (r != n - 1 - x) mc_fail("assign-missing", "%d nodes reported missing instead of %d", r, n - 1 - x); FreePartition(q); }
  /* tabular output */
  double *z = calloc(n, sizeof *z), *P = calloc(n, sizeof *P); for (int i = 0; i < n; i++) { z[i] = (i * 37 % 11) / 2.0 - 1; P[i] = (i * 23 % 9) / 9.0; } FILE *f = open_memstream(&buf, &bl); TabularOutput(f, L, p, z, P); fclose(f); mc_trans(1); { char *sv, *l = strtok_r(buf, "\n", &sv); int i = 0; if (!l || strncmp(l, "Label", 5)) mc_fail("table", "no header"); for (; l && (l = strtok_r(NULL, "\n", &sv)); i++) { char lb[200]; int mo, ro; double zz, pp; if (i >= n || sscanf(l, "%s %d %lf %lf R%d", lb, &mo, &zz, &pp, &ro) != 5) { mc_fail("table", "line \"%s\"", l); break; } int j; for (j = 0; j < n; j++) if (!strcmp(lb, lab[j])) break; if (j == n || mo != (int)p->nodes[j]->module || fabs(zz - z[j]) > 1e-6 || fabs(pp - P[j]) > 1e-6 || ro != GetRole(P[j], z[j]) + 1) mc_fail("table", "line \"%s\"", l); } if (i != n) mc_fail("table", "%d nodes listed", i); } free(buf); free(z); free(P); FreePartition(p); }
static void parts(long arg) { int n = arg & 15, fam = arg >> 4 & 7, c = arg >> 7 & 15, C = arg >> 11; char lab[HMAX][100]; labels(fam, n, lab); RG r; rg_init(&r, n); int q = 0; for (int i = 0; i < n; i++) { snprintf(r.lab[i], 16, "%.15s", lab[i]); for (int j = i + 1; j < n; j++, q++) if (q % 3 != 1) rg_link(&r, i, j, 1 + (q % 4) * 0.5); }
  struct node_gra *net = CreateHeaderGraph(), *nl[HMAX]; for (int i = 0; i < n; i++) nl[i] = CreateNodeGraph(net, lab[i]); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (r.has[i][j]) AddAdjacency(nl[i], nl[j], 0, 0, r.w[i][j], 0);
  int a[HMAX] = {0}; long x = 0; do { int o[HMAX]; for (int i = 0; i < n; i++) o[i] = i; mc_states(1); do { if (x++ % C != c) continue; if (mc_timeup()) { mc_capped("time"); return; } text(a, o, n, fam); legacy(n, a, o, fam, lab, nl, net, &r); array(n, a, o, lab); mc_traces(1); mc_outcome(mc_hash(a, n * sizeof(int)) ^ mc_hash(o, n * sizeof(int))); } while (mc_next_perm(o, n)); } while (mc_next_rgs(a, n)); RemoveGraph(net); }
/* larger partitions: i mod k and blocks, up to 60 nodes */
static void big(long arg) { int n = arg; struct node_gra *net = CreateHeaderGraph(), *nl[64]; char *L[64]; for (int i = 0; i < n; i++) { char t[20]; sprintf(t, "n%d", i); L[i] = strdup(t); nl[i] = CreateNodeGraph(net, t); } for (int k = 1; k <= n; k++) for (int v = 0; v < 2; v++) { mc_case("%d nodes, %d modules, arrangement %d", n, k, v); int a[64], b[64]; for (int i = 0; i < n; i++) { a[i] = v ? i * k / n : i % k; nl[i]->inGroup = -1; } struct group *p = CreateHeaderGroup(), *g[64]; Partition *A = CreatePartition(n, n); for (int j = 0; j < k; j++) g[j] = CreateGroup(p, j); for (int i = 0; i < n; i++) { AddNodeToGroup(g[a[i]], nl[i]); put(A, a[i], i); } FILE *f = open_memstream(&buf, &bl); FPrintPartition(f, p, 1); fclose(f); f = mc_memfile(buf); struct group *q = FCreatePartition(f); fclose(f); MapPartToNet(q, net); for (int i = 0; i < n; i++) b[i] = nl[i]->inGroup; if (!same(a, b, n)) mc_fail("reload", "other modules"); free(buf); RemovePartition(q); RemovePartition(p); f = open_memstream(&buf, &bl); ClusteringOutput(f, A, L); fclose(f); Partition *B = CreatePartition(n, n); f = mc_memfile(buf); int r = AssignNodesToModulesFromFile(f, B, L); fclose(f); if (r) mc_fail("assign-missing", "%d", r); for (int i = 0; i < n; i++) b[i] = B->nodes[i]->module; if (!same(a, b, n)) mc_fail("assign", "other modules"); f = mc_memfile(buf); q = FReadPartition(f); fclose(f); MapPartToNet(q, net); for (int i = 0; i < n; i++) b[i] = nl[i]->inGroup; if (!same(a, b, n)) mc_fail("tabular", "other modules"); RemovePartition(q); free(buf); FreePartition(A); FreePartition(B); mc_states(1); mc_trans(6); mc_traces(1); } }
int main(int c, char **v) { char nm[60]; const char *e = getenv("VERIF_TIER"); th = e && !strcmp(e, "thorough");
  for (int fam = 0; fam < 5; fam++) { for (int n = 1; n < 5; n++) { sprintf(nm, "partitions-%d-family-%d", n, fam); mc_section(nm, parts, n | fam << 4 | 1 << 11); } int C = 2; for (int k = 0; k < C; k++) { sprintf(nm, "partitions-5-family-%d-%d", fam, k); mc_section(nm, parts, 5 | fam << 4 | k << 7 | C << 11); } }
  if (th) for (int fam = 0; fam < 5; fam++) for (int k = 0; k < 8; k++) { sprintf(nm, "partitions-6-family-%d-%d", fam, k); mc_section(nm, parts, 6 | fam << 4 | k << 7 | 8 << 11); }
  for (int n = 7; n <= (th ? 60 : 30); n++) { sprintf(nm, "large-%d", n); mc_section(nm, big, n); } return mc_main(c, v); }
