/* C12 on larger networks: histories of group operations on families of up to 129 nodes */
#define HMAX 130
#define KM 130
#define LARGE
#include "h_c12.c"
static void visit(const RG *r, struct node_gra *net, struct node_gra **nl) { (void)r; (void)net; (void)nl; }
#include "en.h"
static int NS[] = {9, 13, 20, 40, 66, 101, 129};
static ST s; static int sizes(int k) { return s.alive[k] ? s.len[k] : -1; }
static int pick(int ne, int from) { for (int i = 0; i < s.K; i++) { int k = (i + from) % s.K; if (s.alive[k] && (!ne || s.len[k])) return k; } return -1; }
static void step(OP o) { mc_step(" %s", otext(o)); rapply(&s, o, 1); mapply(&s, o); }
static void large(long arg) { int n = NS[arg / 3], gv = arg % 3; for (int f = 0; f < 20; f++) for (int pat = 0; pat < (n > 50 ? 1 : 3); pat++) { if (mc_timeup()) { mc_capped("time"); return; } en_fam(&R, f, n); int k = 0, E = 0; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (R.has[i][j]) { if (f % 2) R.w[i][j] = R.w[j][i] = WT[k % 6]; k++; E++; } if (n > 50 && E > 12 * n) continue;
    int gs = gv == 0 ? 1 : gv == 1 ? n / 4 : n / 2 + 1; mc_case("family %d on %d nodes, groups of %d, pattern %d:", f, n, gs, pat); start(gs); memset(&s, 0, sizeof s); s.n = n; s.K = (n + gs - 1) / gs; for (int i = 0; i < n; i++) app(&s, i / gs, i); for (int g = 0; g < s.K; g++) s.alive[g] = 1; members(&s, "start"); counts(&s, "start"); mc_states(1); int len = n > 50 ? 40 : 80, x = 31 * f + 7 * pat + 3, nout = 0;
    for (int t = 0; t < len; t++) { x = (x * 73 + 41) % 10007; int fast = x & 1, u = x % n, w = where(&s, u); switch ((x / 3 + t * (pat + 1)) % 11) {
      case 0: case 1: case 2: if (w >= 0) { int c = pick(0, x % s.K); step((OP){fast ? FMOVE : MOVE, u, w, c}); } break;
      case 3: { int g = pick(1, x % s.K); if (g < 0) break; u = t % 2 ? s.l[g][0] : s.l[g][s.len[g] - 1]; int c = pick(0, (g + 1) % s.K); step((OP){fast ? FMOVE : MOVE, u, g, c}); break; }
      case 4: if (w >= 0 && nout < 4) { step((OP){fast ? FREMOVE : REMOVE, u, w, 0}); nout++; } break;
      case 5: for (int v = 0; v < n; v++) if (where(&s, v) < 0) { step((OP){fast ? FADD : ADD, v, 0, pick(0, x % s.K)}); nout--; break; } break;
      case 6: case 7: { int a = pick(1, x % s.K), b = a < 0 ? -1 : pick(1, (a + 1) % s.K); if (b >= 0 && a != b) step((OP){fast ? FMERGE : MERGE, t % 2 ? a : b, t % 2 ? b : a, 0}); break; }
      case 8: step((OP){COPY}); break; case 9: if (t > len / 2) step((OP){COMPRESS}); break;
      case 10: if (w >= 0) { int b = pick(0, (w + 1) % s.K); if (b != w) { step((OP){BADREMOVE, u, b, 0}); step((OP){BADMOVE, u, b, w}); } } break; } }
    int na = 0; for (int g = 0; g < s.K; g++) na += sizes(g) > 0; if (na <= 12 || n < 30) queries(&s); mc_traces(1); mc_outcome(key(&s)); fin();
    /* removing links, from partitions given in one go */
    OP h[1]; ST path[1]; ST keep = s; for (int v = 0; v < 2; v++) { start(1); fin(); ST q; memset(&q, 0, sizeof q); q.n = n; q.K = v ? 3 : 1; for (int i = 0; i < n; i++) app(&q, v ? i % 3 : 0, i); for (int g = 0; g < q.K; g++) q.alive[g] = 1; for (int sym = 0; sym < 2; sym++) for (int what = 0; what < q.K + 2; what++) { net = rg_build(&R, nl); for (int i = 0; i < n; i++) nl[i]->inGroup = v ? i % 3 : 0; part = CreatePartitionFromInGroup(net); RG *ex = malloc(sizeof *ex), *got = malloc(sizeof *got); *ex = R; mc_step(" links removed: %d, symmetric %d, %d groups", what, sym, q.K); if (what < q.K) { RemoveWithinGroupLinks(G(what), sym); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (where(&q, i) == what && i != j) { ex->has[i][j] = 0; if (sym) ex->has[j][i] = 0; } } else if (what == q.K) { RemoveBetweenGroupLinks(part, sym); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (where(&q, i) != where(&q, j)) ex->has[i][j] = 0; } else { RemoveInterGroupLinks(net); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (where(&q, i) != where(&q, j)) ex->has[i][j] = 0; } const char *er = rg_read(net, got); if (!er) er = rg_diff(ex, got, 1); if (er) mc_fail("remove-links", "%s", er); for (int i = 0; i < n; i++) if ((int)NodeDegree(nl[i]) != rg_deg(ex, i)) mc_fail("remove-links", "degree of node %d", i); free(ex); free(got); fin(); mc_trans(1); } } s = keep; (void)h; (void)path; } }
void large_register(void) { char nm[40]; for (int i = 6; i >= 0; i--) for (int g = 0; g < 3; g++) { sprintf(nm, "families-%d-%d", NS[i], g); mc_section(strdup(nm), large, i * 3 + g); } }
