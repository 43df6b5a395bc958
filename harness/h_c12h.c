/* C12, continued: the printed block model of every small network and partition and of larger dense networks; partitions with hundreds of thousands of groups or members */
#include "huge.h"
#include "modules.h"
static char *capture(struct group *p, char type, int sw) { char *b = NULL; size_t z = 0; FILE *f = open_memstream(&b, &z), *o = stdout; stdout = f; BlockModel(p, type, sw); fflush(f); stdout = o; fclose(f); mc_trans(1); return b; }
/* labels given to the groups: lab; members a[] */
static void block(HUGE *h, const int *a, int K, const int *lab, int empty) { struct group *p = CreateHeaderGroup(), *g[400]; for (int i = 0; i < h->n; i++) h->nl[i]->inGroup = -1; for (int k = 0; k < K; k++) { if (empty && k == 0) CreateGroup(p, 900); g[k] = CreateGroup(p, lab[k]); } for (int i = 0; i < h->n; i++) AddNodeToGroup(g[a[i]], h->nl[i]);
  static double N[400][400]; static int s[400]; double D[400]; for (int k = 0; k < K; k++) { s[k] = 0; D[k] = 0; for (int l = 0; l < K; l++) N[k][l] = 0; } for (int i = 0; i < h->n; i++) { s[a[i]]++; D[a[i]] += h->k[i]; } for (long e = 0; e < h->m; e++) { int u = a[h->e[e][0]], v = a[h->e[e][1]]; N[u][v]++; if (u != v) N[v][u]++; }
  double L = h->m, pr = 2 * L / ((double)h->n * (h->n - 1)); for (const char *t = "nfpez"; *t; t++) { if ((*t == 'f' || *t == 'e') && !L) continue; if (*t == 'z' && (h->n < 2 || L == 0 || pr >= 1)) continue; char *b = capture(p, *t, 0), *q = b; int bad = 0;
    for (int k = 0; k < K && !bad; k++) { if (!s[k]) continue; for (int l = 0; l < K; l++) { if (!s[l]) continue; int x, y, c; char v[64]; if (sscanf(q, "%d %d %63s\n%n", &x, &y, v, &c) != 3) { mc_fail("block-format", "type %c: missing line for groups %d and %d", *t, k, l); bad = 1; break; } q += c; if (x != lab[k] + 1 || y != lab[l] + 1) { mc_fail("block-label", "type %c: line for %d %d instead of %d %d", *t, x, y, lab[k] + 1, lab[l] + 1); bad = 1; break; }
      double w = atof(v), want, pairs = k == l ? s[k] * (s[k] - 1.) / 2 : (double)s[k] * s[l]; if (*t == 'n') want = N[k][l]; else if (*t == 'f') want = N[k][l] / L; else if (*t == 'p') { if (!pairs) continue; want = N[k][l] / pairs; } else if (*t == 'e') { want = N[k][l] / L - D[k] * D[l] / ((k == l ? 4 : 2) * L * L); } else { if (!pairs) continue; want = (N[k][l] - pr * pairs) / sqrt(pairs * pr * (1 - pr)); }
      if (!(fabs(w - want) <= 1.1e-6 + 1e-9 * fabs(want))) mc_fail("block-value", "type %c, groups %d and %d: %s instead of %.6f", *t, k, l, v, want); } }
    if (!bad && *q) mc_fail("block-format", "type %c: extra output \"%.60s\"", *t, q); mc_outcome(mc_hash(b, strlen(b))); free(b); }
  RemovePartition(p); mc_traces(1); }
static void small(long arg) { int n = arg & 7, c = arg >> 3, C = n < 5 ? 1 : 8; for (unsigned long m = c; m < 1ul << (n * (n - 1) / 2); m += C) { HUGE h; hu_init(&h, n); int z = 0; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++, z++) if (m >> z & 1) hu_link(&h, i, j); hu_build(&h); mc_states(1); int a[8] = {0}; do { if (mc_timeup()) { mc_capped("time"); return; } int K = 0, lab[8]; for (int i = 0; i < n; i++) if (a[i] >= K) K = a[i] + 1; for (int v = 0; v < 2; v++) { for (int k = 0; k < K; k++) lab[k] = v ? (K - k) * 3 : k; mc_case("n=%d links %lx groups", n, m); for (int i = 0; i < n; i++) mc_step(" %d", a[i]); block(&h, a, K, lab, v); } } while (mc_next_rgs(a, n)); hu_free(&h); } }
static void dense(long f) { static const int S[] = {20, 100, 180, 216, 240, 330}; for (int i = 0; i < 6; i++) for (int v = 0; v < 4; v++) { if (mc_timeup()) { mc_capped("time"); return; } HUGE h; int k = S[i]; hu_fam(&h, f, f == 3 ? 2 * k : f == 6 ? k : k, f == 6 ? k : k); if (f == 5 && i % 2) { /* leave one link out so that the link probability is below one */ hu_free(&h); hu_init(&h, k); for (int x = 0; x < k; x++) for (int y = x + 1; y < k; y++) if (x || y > 1) hu_link(&h, x, y); hu_build(&h); } int *a = calloc(h.n, sizeof(int)), K = 0, lab[400]; for (int x = 0; x < h.n; x++) { a[x] = v == 0 ? 0 : v == 1 ? x % 2 : v == 2 ? x * 3 / h.n : x % 7; if (a[x] >= K) K = a[x] + 1; } for (int x = 0; x < K; x++) lab[x] = x; mc_case("%s of %d, grouping %d", hu_name[f], k, v); mc_states(1); block(&h, a, K, lab, 0); free(a); hu_free(&h); } }
/* many groups / many members; groups filled without links so that only the lists are large */
static void big(long arg) { int mode = arg & 1, n = arg >> 1; mc_case("%d nodes in %s", n, mode ? "one group" : "groups of their own"); mc_states(1); HUGE h; hu_init(&h, n); for (int i = 0; i + 1 < n; i += 2) hu_link(&h, i, i + 1); hu_build(&h); struct group *p = CreateHeaderGroup(), *g = p; struct node_lis *t = NULL; if (mode) { g = CreateGroup(p, 0); t = g->nodeList; }
  for (int i = 0; i < n; i++) { if (!mode) { g = CreateGroup(g, i); AddNodeToGroup(g, h.nl[i]); } else { /* the list is walked from its last entry */ struct node_lis *s = g->nodeList; g->nodeList = t; t = AddNodeToGroup(g, h.nl[i]); g->nodeList = s; } mc_trans(1); }
  if (PartitionSize(p) != n) mc_fail("size", "%d members instead of %d", PartitionSize(p), n); if (NGroups(p) != (mode ? 1 : n) || NNonEmptyGroups(p) != (mode ? 1 : n)) mc_fail("ngroups", "%d groups, %d non-empty", NGroups(p), NNonEmptyGroups(p)); long in = 0, tot = 0; for (g = p->next; g; g = g->next) { in += g->inlinks; tot += g->totlinks; } if (in != (mode ? n / 2 : 0) || tot != (mode ? n / 2 : n / 2 * 2)) mc_fail("links", "%ld internal and %ld links", in, tot); mc_tick(); RemovePartition(p); mc_trans(4); hu_free(&h); mc_traces(1); }
void huge_register(void) { char nm[40]; for (int n = 5; n >= 2; n--) for (int c = 0; c < (n < 5 ? 1 : 8); c++) { sprintf(nm, "block-model-%d-%d", n, c); mc_section(strdup(nm), small, n | c << 3); } mc_section("block-model-complete", dense, 5); mc_section("block-model-clique-and-star", dense, 3); mc_section("block-model-bipartite", dense, 6); mc_section("block-model-wheel", dense, 4); for (int m = 0; m < 2; m++) { sprintf(nm, "huge-%d-nodes-%d", 400000, m); mc_section(strdup(nm), big, 400000 << 1 | m); } }
