/* C01 on networks of up to 500000 nodes and hubs of up to 400000 links: counts, copies, cleaning and removal */
#include "huge.h"
static void big(long arg) { int f = arg & 1, n = arg >> 1; HUGE h; mc_case("%s of %d nodes", f ? "star" : "ring", n); mc_states(1); if (f) hu_fam(&h, 0, n - 1, 0); else { hu_init(&h, n); for (int i = 0; i < n; i++) hu_link(&h, i, (i + 1) % n); hu_build(&h); }
  if (CountNodes(h.net) != n) mc_fail("count", "CountNodes gives %d instead of %d", CountNodes(h.net), n); if (TotalNLinks(h.net, 1) != h.m || TotalNLinks(h.net, 0) != 2 * h.m) mc_fail("links", "TotalNLinks gives %d and %d instead of %ld and %ld", TotalNLinks(h.net, 1), TotalNLinks(h.net, 0), h.m, 2 * h.m); mc_trans(3);
  for (int i = 0; i < n; i++) { if ((int)NodeDegree(h.nl[i]) != h.k[i]) mc_fail("degree", "degree of %d is %u instead of %d", i, NodeDegree(h.nl[i]), h.k[i]); if (NodeStrength(h.nl[i]) != h.k[i]) mc_fail("strength", "strength of %d is %g instead of %d", i, NodeStrength(h.nl[i]), h.k[i]); mc_trans(2); }
  if (!f && n <= 100000) { mc_tick(); struct node_gra *c = CopyNetwork(h.net), *p = c; mc_trans(1); int i = 0; while ((p = p->next)) { struct node_lis *l = p->neig; int d = 0; if (strcmp(p->label, h.nl[i]->label)) { mc_fail("copy", "node %d of the copy is %s", i, p->label); break; } while ((l = l->next)) { d++; int j = l->ref->num; if (j != (i + 1) % n && j != (i + n - 1) % n) mc_fail("copy", "the copy links %d and %d", i, j); } if (d != 2) mc_fail("copy", "node %d of the copy has %d links", i, d); i++; } if (i != n) mc_fail("copy", "the copy has %d nodes", i); mc_tick(); RemoveGraph(c); }
  mc_tick(); /* links with their own labels, as the library makes them */ for (int i = 0; i < n; i++) { struct node_lis *l = h.nl[i]->neig; while ((l = l->next)) l->nodeLabel = strdup(l->nodeLabel); } RemoveGraph(h.net); mc_trans(1); free(h.e); free(h.k); free(h.off); free(h.nb); free(h.nl); free(h.last); mc_traces(1); }
void huge_register(void) { static const int N[] = {1000, 30000, 500000}; char nm[40]; for (int i = 2; i >= 0; i--) for (int f = 0; f < 2; f++) { sprintf(nm, "huge-%s-%d", f ? "star" : "ring", N[i]); mc_section(strdup(nm), big, N[i] << 1 | f); } }
