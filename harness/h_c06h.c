/* C06 on networks with hubs of thousands of links: products of degrees exceed 2^31 */
#include "huge.h"
static void cmp(const char *sig, double got, long double want) { mc_trans(1); if (!mc_close(got, (double)want)) mc_fail(sig, "%s is %.12g, should be %.12Lg", sig, got, want); uint64_t x = mc_hash(&got, sizeof got); mc_outcome(x); }
/* triangles around i, and distinct second neighbours with the number of their links to the neighbours of i */
static int *cnt; static long double tri(HUGE *h, int i) { long double t = 0; for (long y = h->off[i]; y < h->off[i + 1]; y++) cnt[h->nb[y]] = 1; for (long y = h->off[i]; y < h->off[i + 1]; y++) { int u = h->nb[y]; for (long z = h->off[u]; z < h->off[u + 1]; z++) t += cnt[h->nb[z]]; } for (long y = h->off[i]; y < h->off[i + 1]; y++) cnt[h->nb[y]] = 0; return t; }
static long double squares(HUGE *h, int i, long *k2) { long double s = 0; *k2 = 0; for (long y = h->off[i]; y < h->off[i + 1]; y++) { int u = h->nb[y]; for (long z = h->off[u]; z < h->off[u + 1]; z++) cnt[h->nb[z]]++; } for (long y = h->off[i]; y < h->off[i + 1]; y++) cnt[h->nb[y]] = 0; cnt[i] = 0;
  for (long y = h->off[i]; y < h->off[i + 1]; y++) { int u = h->nb[y]; for (long z = h->off[u]; z < h->off[u + 1]; z++) { int v = h->nb[z]; if (cnt[v]) { ++*k2; s += (long double)cnt[v] * (cnt[v] - 1); cnt[v] = 0; } } } return s; }
static void one(int f, int k, int a, int what) { HUGE h; mc_case("%s of %d, %d, %s", hu_name[f], k, a, what ? "squares" : "triangles"); mc_states(1); mc_hang(150); hu_fam(&h, f, k, a); cnt = calloc(h.n, sizeof(int)); int n = h.n;
  if (!what) { long double C = 0, tt = 0, kk = 0; long nc = 0; for (int i = 0; i < n; i++) if (h.k[i] > 1) { long double t = tri(&h, i), d = (long double)h.k[i] * (h.k[i] - 1); C += t / d; tt += t; kk += d; nc++; } mc_tick(); if (nc) { cmp("ClusteringCoefficient", ClusteringCoefficient(h.net), C / nc); mc_tick(); cmp("ClusteringCoefficient2", ClusteringCoefficient2(h.net), tt / kk); }
    for (int i = 0; i < n; i = i < 4 ? i + 1 : i + n / 3 + 1) { mc_tick(); cmp("OneNodeClusteringCoefficient", OneNodeClusteringCoefficient(h.nl[i], h.net), h.k[i] > 1 ? tri(&h, i) / ((long double)h.k[i] * (h.k[i] - 1)) : -1); }
    for (int j = 1; j < n; j = j < 4 ? j + 1 : j + n / 3 + 1) { long c = 0; for (long y = h.off[0]; y < h.off[1]; y++) c += hu_has(&h, j, h.nb[y]); int A = hu_has(&h, 0, j); cmp("CommonNeighbors", CommonNeighbors(h.nl[0], h.nl[j]), c); cmp("JaccardIndex", JaccardIndex(h.nl[j], h.nl[0]), c ? (long double)c / (h.k[0] + (long)h.k[j] - 2 * A - c) : 0); if (h.k[j] && h.k[0]) cmp("TopologicalOverlap", TopologicalOverlap(h.nl[0], h.nl[j]), (long double)(c + A) / (h.k[0] < h.k[j] ? h.k[0] : h.k[j])); } }
  else { long double S = 0; long ns = 0, k2; if (what > 1) { for (int i = 0; i < n; i++) { long double s = squares(&h, i, &k2); if (k2 && h.k[i] > 1) { S += s / ((long double)k2 * h.k[i] * (h.k[i] - 1)); ns++; } } if (ns) { mc_tick(); cmp("SquareClustering", SquareClustering(h.net), S / ns); } }
    for (int i = 0; i < n; i = i < 2 ? i + 1 : i + n / 2 + 1) { long double s = squares(&h, i, &k2); mc_tick(); double q = OneNodeSquareClustering(h.nl[i], h.net); mc_trans(1); if (k2 && h.k[i] > 1) cmp("OneNodeSquareClustering", q, s / ((long double)k2 * h.k[i] * (h.k[i] - 1))); else if (q >= 0) mc_fail("OneNodeSquareClustering", "value %g for node %d, for which it is not defined", q, i); } }
  free(cnt); hu_free(&h); mc_traces(1); }
typedef struct { int f, k, a, what; } CASE;
static const CASE CS[] = {{3, 600, 60, 0}, {3, 5000, 120, 0}, {3, 47000, 300, 0}, {2, 2000, 50, 0}, {5, 300, 0, 0}, {6, 300, 40, 0}, {7, 300, 8, 0}, {4, 3000, 0, 0}, {8, 300, 0, 2}, {8, 2000, 0, 1}, {8, 2000, 0, 2}, {2, 300, 3, 2}, {2, 5000, 3, 1}, {6, 150, 100, 2}, {6, 700, 600, 1}, {2, 47000, 0, 1}, {7, 60, 20, 2}, {7, 200, 200, 1}, {1, 300, 200, 2}};
static void cs(long i) { one(CS[i].f, CS[i].k, CS[i].a, CS[i].what); }
void huge_register(void) { char nm[60]; for (int i = 0; i < (int)(sizeof CS / sizeof *CS); i++) { sprintf(nm, "huge-%s-%d-%d-%d", hu_name[CS[i].f], CS[i].k, CS[i].a, CS[i].what); for (char *c = nm; *c; c++) if (*c == ' ') *c = '-'; mc_section(strdup(nm), cs, i); } }
