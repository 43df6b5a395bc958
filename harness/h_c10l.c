/* C10 on larger networks: structured families of up to 129 nodes, long sequences of switches, removals and additions, fixed streams of draws */
#define HMAX 132
#define BM 132
#define LARGE
#include "h_c10.c"
static void visit(const RG *r, struct node_gra *net, struct node_gra **nl) { (void)r; (void)net; (void)nl; }
#include "en.h"
static void sw(long n) { static RG r, o; for (int f = 0; f < 20; f++) { en_fam(&r, f, n); int L = 0; for (int i = 0; i < n; i++) L += rg_deg(&r, i); L /= 2; if (L > 900 || f == 2 || f == 3 || f == 4 || f == 18 || f == 5 || f == 11 || f == 12 || f == 19 || f == 6) continue; for (int s = 0; s < 2; s++) { if (mc_timeup()) { mc_capped("time"); return; } mc_case("family %d of %ld nodes, %d switches per link, stream %d", f, n, 1 + 2 * s, s); mc_rc.seed = s + f; randomize(&r, 1 + 2 * s, NULL, 0, &o, s); mc_states(1); mc_traces(1); mc_outcome(rg_hash(&o)); } } }
static void bsw(long a) { int n1 = a & 255, n2 = a >> 8; static BG b, o; for (int f = 0; f < 6; f++) for (int s = 0; s < 2; s++) { if (mc_timeup()) { mc_capped("time"); return; } bg_init(&b, n1, n2); for (int i = 0; i < n1; i++) for (int j = 0; j < n2; j++) if (f == 0 ? j == i % n2 : f == 1 ? j == i % n2 || j == (i + 1) % n2 : f == 2 ? (i * 7 + j * 3 + i * j) % 5 == 0 : f == 3 ? i * 4 / n1 == j * 4 / n2 : f == 4 ? (i * 11 + j * 5 + i * j) % 13 == 0 : j == i * n2 / n1 || (i % 5 == 0 && j % 4 == 1)) b.has[i][j] = b.w[i][j] = 1; int L = bg_links(&b); if (L > 900) continue; mc_case("bipartite family %d, %d+%d nodes, %d switches per link", f, n1, n2, 1 + s); struct node_gra *x[BM], *y[BM]; struct binet *B = bg_build(&b, x, y); if (s) for (int i = 0; i < n1; i++) NodeDegree(x[i]); mc_rc.seed = f * 2 + s; struct binet *R = RandomizeBipart(B, 1 + s, mc_rng()); mc_trans(1); mc_states(1); mc_traces(1); const char *e = bg_read(R, &o); if (!e && (o.n1 != n1 || o.n2 != n2)) e = "number of nodes changed"; if (!e && bg_links(&o) != L) e = "number of links changed"; if (!e && NLinksBipart(R) != L) e = "number of links changed"; for (int i = 0; i < n1 && !e; i++) { int k = 0; for (int j = 0; j < n2; j++) k += o.has[i][j] - b.has[i][j]; if (k) e = "degree in set 1 changed"; } for (int j = 0; j < n2 && !e; j++) { int k = 0; for (int i = 0; i < n1; i++) k += o.has[i][j] - b.has[i][j]; if (k) e = "degree in set 2 changed"; } if (e) mc_fail("randomize-bipart", "%s", e); mc_outcome(mc_hash(o.has[n1 / 2], n2 * sizeof(int)) + f); RemoveBipart(B); } }
static void ra(long n) { static RG r, o; for (int f = 0; f < 20; f++) for (int sym = 0; sym < 2; sym++) for (int add = 0; add < 2; add++) for (int q = 0; q < 4; q++) { if (mc_timeup()) { mc_capped("time"); return; } en_fam(&r, f, n); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if (r.has[i][j]) { r.w[i][j] = r.w[j][i] = 1 + (i * j) % 7; if (!sym && (i + j) % 3 == 0) r.has[i][j] = 0; } int T = 0, cap = 0; for (int i = 0; i < n; i++) for (int j = sym ? i + 1 : 0; j < n; j++) if (i != j) { T += r.has[i][j]; cap += !r.has[i][j]; } if (T > 900) continue; int lim = add ? (cap < 600 ? cap : 600) : T, k = q == 0 ? 1 : q == 1 ? lim / 3 : q == 2 ? lim / 2 : add && lim == 600 ? 300 : lim; if (k < 1 || k > lim) continue;
    mc_case("%s %d of %d links (%s), family %d of %ld nodes", add ? "add" : "remove", k, add ? cap : T, sym ? "symmetric" : "directed", f, n); static struct node_gra *nl[HMAX]; struct node_gra *net = rg_build(&r, nl); if (q & 1) for (int i = 0; i < n; i++) { NodeDegree(nl[i]); NodeStrength(nl[i]); } mc_rc.seed = f * 4 + q; if (add) AddRandomLinks(net, k, sym, mc_rng()); else RemoveRandomLinks(net, k, sym, mc_rng()); mc_trans(1); mc_states(1); mc_traces(1); const char *e = rg_read(net, &o); int gone = 0, came = 0; if (!e) for (int i = 0; i < n; i++) for (int j = sym ? i : 0; j < n; j++) { if (sym && o.has[i][j] != o.has[j][i]) e = "a link is no longer symmetric"; gone += r.has[i][j] && !o.has[i][j]; came += !r.has[i][j] && o.has[i][j]; if (i == j && o.has[i][i]) e = "self-link created"; if (r.has[i][j] && o.has[i][j] && r.w[i][j] != o.w[i][j]) e = "weight of another link changed"; } if (!e && (gone != (add ? 0 : k) || came != (add ? k : 0))) e = "another number of links appeared or disappeared"; if (!e) for (int i = 0; i < n; i++) if ((int)NodeDegree(nl[i]) != rg_deg(&o, i) || !mc_close(NodeStrength(nl[i]), rg_str(&o, i))) e = "degree or strength not updated"; if (!e && TotalNLinks(net, sym) != T + (add ? k : -k)) e = "TotalNLinks"; if (e) mc_fail(add ? "add-links" : "remove-links", "%s", e); else mc_outcome(rg_hash(&o)); RemoveGraph(net); } }
void large_register(void) { static const int S[] = {13, 40, 66, 129}; char b[40]; for (int i = 3; i >= 0; i--) { sprintf(b, "large-switch-%d", S[i]); mc_section(b, sw, S[i]); sprintf(b, "large-links-%d", S[i]); mc_section(b, ra, S[i]); sprintf(b, "large-bipart-%d", S[i]); mc_section(b, bsw, S[i] | (long)(S[3 - i] > 40 ? 40 : S[3 - i]) << 8); } }
