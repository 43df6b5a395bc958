/* C13: bipartite modularity with degrees of up to 66000, and the modularity of partitions whose modules have tens of thousands of links */
#include "huge.h"
#include "modules.h"
#include "bipartite.h"
static void bip(long arg) { mc_hang(150); int k = arg >> 2, v = arg & 3; mc_case("teams of %d, arrangement %d", k, v); mc_states(1); /* v 0: one team with k members, one with 3; v 1: k teams, two actors in all of them (v 2: in nearly all of them), a third in two */ HUGE h; int n1 = v == 0 ? k : 3, n2 = v == 0 ? 2 : k; struct binet *B = CreateBipart(); free(B->net1); free(B->net2); HUGE a, b; hu_init(&a, n1); hu_build(&a); hu_init(&b, n2); hu_build(&b); (void)h; B->net1 = a.net; B->net2 = b.net; int *k1 = calloc(n1, sizeof(int)), *k2 = calloc(n2, sizeof(int)); int common = 0;
  for (int i = 0; i < n1; i++) for (int j = 0; j < n2; j++) { int on = v == 0 ? j == 0 || i < 3 : i == 2 ? j < 2 : !(v == 2 && i == 1 && j >= n2 - n2 / 9); if (!on) continue; struct node_lis *l = calloc(1, sizeof *l); l->node = j; l->nodeLabel = strdup(b.nl[j]->label); l->ref = b.nl[j]; l->weight = 1; a.last[i]->next = l; a.last[i] = l; l = calloc(1, sizeof *l); l->node = i; l->nodeLabel = strdup(a.nl[i]->label); l->ref = a.nl[i]; l->weight = 1; b.last[j]->next = l; b.last[j] = l; k1[i]++; k2[j]++; }
  (void)common; struct group *p = CreateHeaderGroup(), *g = p, *g0; g0 = g = CreateGroup(p, 0); for (int i = 0; i < n1; i++) { if (i < 2) AddNodeToGroupSoft(g0, a.nl[i]->label); else { g = CreateGroup(g, i); AddNodeToGroupSoft(g, a.nl[i]->label); } struct node_lis *l = (i < 2 ? g0 : g)->nodeList; while (l->next) l = l->next; l->ref = a.nl[i]; l->node = i; }
  long double sm = 0, sm2 = 0, c = 0; for (int j = 0; j < n2; j++) { sm += k2[j]; sm2 += (long double)k2[j] * k2[j]; } for (struct node_lis *l = a.nl[0]->neig->next; l; l = l->next) { int j = l->node; for (int z = 0; z < 1; z++) c += v == 0 ? 1 : v == 2 ? j < n2 - n2 / 9 : 1; } long double want = 2 * (c / (sm2 - sm) - (long double)k1[0] * k1[1] / (sm * sm)); mc_tick(); double got = ModularityBipart(B, p); mc_trans(1); if (!mc_close(got, (double)want)) mc_fail("bipartite", "%.12g instead of %.12Lg", got, want); mc_outcome(mc_hash(&got, 8)); RemovePartition(p); RemoveBipart(B); free(k1); free(k2); mc_traces(1); }
static void uni(long arg) { int k = arg >> 4, f = arg & 15; HUGE h; mc_case("%s of %d", hu_name[f], k); mc_states(1); hu_fam(&h, f, k, f == 7 ? 30 : 9); for (int v = 0; v < 3; v++) { struct group *p = CreateHeaderGroup(), *g[40]; struct node_lis *t[40]; int K = v == 0 ? 1 : v == 1 ? 2 : 31; for (int i = 0; i < K; i++) { g[i] = CreateGroup(i ? g[i - 1] : p, i); t[i] = g[i]->nodeList; } int *a = calloc(h.n, sizeof(int)); for (int i = 0; i < h.n; i++) { a[i] = v == 0 ? 0 : v == 1 ? i >= h.n / 3 : i % 31; h.nl[i]->inGroup = -1; }
    for (int i = 0; i < h.n; i++) { struct group *q = g[a[i]]; struct node_lis *s = q->nodeList; q->nodeList = t[a[i]]; t[a[i]] = AddNodeToGroup(q, h.nl[i]); q->nodeList = s; } mc_tick(); long double D[40] = {0}, I[40] = {0}, w = 0; for (int i = 0; i < h.n; i++) D[a[i]] += h.k[i]; for (long e = 0; e < h.m; e++) if (a[h.e[e][0]] == a[h.e[e][1]]) I[a[h.e[e][0]]]++; for (int i = 0; i < K; i++) w += I[i] / h.m - D[i] * D[i] / (4.0L * h.m * h.m); double got = Modularity(p), gw = ModularityWeight(p); mc_trans(2); if (!mc_closet(got, (double)w, 1e-9) || !mc_closet(gw, (double)w, 1e-9)) mc_fail("large", "modularity %.12g, weighted %.12g instead of %.12Lg", got, gw, w); mc_outcome(mc_hash(&got, 8)); RemovePartition(p); free(a); mc_tick(); } hu_free(&h); mc_traces(1); }
void huge_register(void) { static const int Kk[] = {300, 33000, 47000}; char nm[50]; for (int i = 2; i >= 0; i--) for (int v = 0; v < 3; v++) { int k = v == 0 && i == 2 ? 66000 : Kk[i]; sprintf(nm, "huge-bipartite-%d-%d", k, v); mc_section(strdup(nm), bip, (long)k << 2 | v); } static const int F[] = {0, 1, 2, 4, 7}; for (int i = 0; i < 5; i++) { int k = F[i] == 7 ? 2000 : 60000; sprintf(nm, "huge-%d", i); mc_section(strdup(nm), uni, (long)k << 4 | F[i]); } }
