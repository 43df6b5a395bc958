/* enumeration of all small graphs / digraphs / trees / structured families; the harness defines
   static void visit(const RG *r, struct node_gra *net, struct node_gra **nl) before including this. */
#ifndef EN_H
#define EN_H
#include "hg.h"
static struct node_gra *EN_nl[HMAX];
static void en_one(const RG *r, int rev, const char *what) {
  mc_case("%s%s%s", rg_text(r), rev ? " (links inserted in reverse)" : "", what);
  struct node_gra *net = rev ? rg_build_rev(r, EN_nl) : rg_build(r, EN_nl);
  visit(r, net, EN_nl); RemoveGraph(net); mc_states(1); mc_traces(1); }
#define EN_ARG(n, p, P) ((long)(n) | (long)(p) << 8 | (long)(P) << 24)
static inline void en_und(long a) { int n = a & 255, part = a >> 8 & 65535, parts = a >> 24; unsigned long M = 1ul << (n * (n - 1) / 2); RG r;
  for (unsigned long m = part; m < M; m += parts) { if (mc_timeup()) { mc_capped("time"); return; } rg_mask(&r, n, m); en_one(&r, 0, ""); if (n <= 5) en_one(&r, 1, ""); if (m % 5 == 0 && m > M / 3 && m < M / 3 + 6) mc_sample("%s", rg_text(&r)); } }
static inline void en_dir(long a) { int n = a & 255, part = a >> 8 & 65535, parts = a >> 24; unsigned long M = 1ul << (n * (n - 1)); RG r;
  for (unsigned long m = part; m < M; m += parts) { if (mc_timeup()) { mc_capped("time"); return; } rg_dmask(&r, n, m); en_one(&r, 0, ""); if (n <= 3) en_one(&r, 1, ""); if (m % 5 == 0 && m > M / 3 && m < M / 3 + 6) mc_sample("%s", rg_text(&r)); } }
static inline void en_trees(long n) { int c[HMAX] = {0}; RG r; /* Pruefer sequences */
  for (;;) { if (mc_timeup()) { mc_capped("time"); return; } rg_init(&r, n); int deg[HMAX]; for (int i = 0; i < n; i++) deg[i] = 1; for (int i = 0; i < n - 2; i++) deg[c[i]]++;
    for (int i = 0; i < n - 2; i++) for (int j = 0; j < n; j++) if (deg[j] == 1) { rg_link(&r, j, c[i], 1); deg[j]--; deg[c[i]]--; break; }
    int u = -1; for (int j = 0; j < n; j++) if (deg[j] == 1) { if (u < 0) u = j; else { rg_link(&r, u, j, 1); break; } }
    en_one(&r, 0, ""); int k = 0; while (k < n - 2 && ++c[k] == n) c[k++] = 0; if (k >= n - 2) break; } }
/* circulant graphs: all connection sets of n nodes, optionally with one node's links removed and one chord */
static inline void en_circ(long n) { RG r; for (int S = 0; S < 1 << (n / 2); S++) for (int v = 0; v < 3; v++) { if (mc_timeup()) { mc_capped("time"); return; } rg_init(&r, n); for (int i = 0; i < n; i++) for (int d = 1; d <= n / 2; d++) if (S >> (d - 1) & 1) rg_link(&r, i, (i + d) % n, 1);
    if (v == 1) for (int j = 0; j < n; j++) r.has[2][j] = r.has[j][2] = 0; if (v == 2) { rg_link(&r, 0, n / 2, 1); r.has[1][0] = r.has[0][1] = 0; } en_one(&r, 0, v == 1 ? " (circulant, node isolated)" : v == 2 ? " (circulant with chord)" : " (circulant)"); } }
/* structured families on up to 40 nodes; every third one with its links inserted in reverse */
static void en_fam(RG *r, int f, int n) { rg_init(r, n); for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) { int l = 0, h = n / 2; switch (f) {
  case 0: l = j == i + 1; break; case 1: l = j == i + 1 || (i == 0 && j == n - 1); break; case 2: l = i == 0; break; case 3: l = j == n - 1; break;
  case 4: l = i == 0 || j == i + 1 || (i == 1 && j == n - 1); break; case 5: l = 1; break; case 6: l = i < n / 3 && j >= n / 3; break;
  case 7: l = (i < h) == (j < h) || (i == h - 1 && j == h); break; case 8: l = j < h || (j == i + 1 && i >= h - 1); break;                    /* barbell, lollipop */
  case 9: l = (j == i + 1 && j % 5) || j == i + 5; break; case 10: l = i == (j - 1) / 2; break;                                               /* grid, binary tree */
  case 11: { int a = 0, s = 1; while (a + s <= i) { a += s; s++; } l = j < a + s; break; } case 12: { int a = n, s = 1; while (a - s > j) { a -= s; s++; } l = i >= a - s; break; } /* cliques of growing / shrinking size */
  case 13: l = (i * 7 + j * 11 + i * j) % 5 == 0; break; case 14: l = i % 3 == 0 && j % 3 == 0 && (i + j) % 2; break; case 15: l = j == i + 1 && i % 7 != 6; break;
  case 16: l = (i + j) % 2 == 0 && (i * j) % 3 == 1; break; case 17: l = j - i <= 3; break; case 18: l = i < 2; break; case 19: l = 0; break; }
  if (l) rg_link(r, i, j, 1); } }
static inline void en_big(long n) { RG r; for (int f = 0; f < 20; f++) { if (mc_timeup()) { mc_capped("time"); return; } en_fam(&r, f, n); en_one(&r, f % 3 == 1, " (structured family)"); } }
/* larger networks, from the translation unit compiled with EN_LARGE: the sizes pass 64, 100, 127/128 and 255/256 */
#ifndef EN_DENSE
#define EN_DENSE 130
#endif
#ifndef EN_SIZES
#define EN_SIZES 65, 100, 101, 129, 200, 257
#endif
static inline void en_large(long a) { static RG r; int n = a & 1023, rev = a >> 10 & 1; for (int f = 0; f < 20; f++) { if (mc_timeup()) { mc_capped("time"); return; } en_fam(&r, f, n); long E = 0; for (int i = 0; i < n; i++) E += rg_deg(&r, i); if (n > EN_DENSE && E > 12 * n) continue; en_one(&r, rev ^ (f % 3 == 1), " (structured family)"); } }
static inline void en_register_large(void) { static const int S[] = {EN_SIZES}; char b[40]; for (unsigned i = 0; i < sizeof S / sizeof *S; i++) { sprintf(b, "families-%d", S[i]); mc_section(b, en_large, S[i]); } }
static inline void en_register(int und, int dir, int tree, int circ) { char b[40];
  for (int n = 2; n <= und; n++) { int P = n >= 7 ? 32 : n == 6 ? 8 : 1; for (int p = 0; p < P; p++) { sprintf(b, "undirected-%d-%d", n, p); mc_section(b, en_und, EN_ARG(n, p, P)); } }
  for (int n = 2; n <= dir; n++) { int P = n >= 5 ? 32 : n == 4 ? 8 : 1; for (int p = 0; p < P; p++) { sprintf(b, "directed-%d-%d", n, p); mc_section(b, en_dir, EN_ARG(n, p, P)); } }
  for (int n = 4; n <= tree; n++) { sprintf(b, "trees-%d", n); mc_section(b, en_trees, n); }
  static const int big[] = {9, 13, 14, 20, 31, 40}; for (int i = 0; i < 6; i++) if (big[i] <= HMAX) { sprintf(b, "families-%d", big[i]); mc_section(b, en_big, big[i]); }
  for (int n = 7; n <= circ; n++) { sprintf(b, "circulant-%d", n); mc_section(b, en_circ, n); } }
static int en_thorough(void) { return getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough"); }
#endif
