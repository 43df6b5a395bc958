/* C07 on networks with hubs of up to 50000 links: the sums of squares and cubes of degrees exceed 2^31 */
#include "huge.h"
static void cmp(const char *sig, double got, long double want) { mc_trans(1); if (!mc_close(got, (double)want)) mc_fail(sig, "%s is %.12g, should be %.12Lg", sig, got, want); uint64_t x = mc_hash(&got, sizeof got); mc_outcome(x); }
static void one(int f, int k, int a) { HUGE h; mc_case("%s of %d, %d", hu_name[f], k, a); mc_states(1); hu_fam(&h, f, k, a); long double s1 = 0, s2 = 0, M = 2 * h.m, x = 0, q = 0, m = 0; for (int i = 0; i < h.n; i++) { s1 += h.k[i]; s2 += (long double)h.k[i] * h.k[i]; } m = s2 / M;
  cmp("AverageDegree-directed", AverageDegree(h.net, 0), s1 / h.n); cmp("AverageDegree-symmetric", AverageDegree(h.net, 1), s1 / h.n); cmp("AverageSquaredDegree", AverageSquaredDegree(h.net), s2 / h.n);
  for (long e = 0; e < h.m; e++) { long double u = h.k[h.e[e][0]] - m, v = h.k[h.e[e][1]] - m; x += 2 * u * v; q += u * u + v * v; } if (q > 1e-6) { double as = Assortativity(h.net); mc_trans(1); if (!mc_closet(as, (double)(x / q), 1e-7)) mc_fail("Assortativity", "assortativity %.12g, should be %.12Lg", as, x / q); }
  for (int i = 0; i < h.n; i = i < 40 ? i + 1 : i + h.n / 7 + 1) if (h.k[i]) { long double t = 0; for (long y = h.off[i]; y < h.off[i + 1]; y++) t += h.k[h.nb[y]]; cmp("CalculateKnn", CalculateKnn(h.nl[i]), t / h.k[i]); }
  hu_free(&h); mc_traces(1); }
static const int K[] = {2, 100, 600, 1100, 1300, 1700, 5000, 20000, 33000, 47000, 66000};
static void hubs(long f) { for (int i = 0; i < 11; i++) for (int a = 1; a <= 3; a++) { if (mc_timeup()) { mc_capped("time"); return; } if (f == 5 || f == 6) { if (K[i] > 1300 && f == 5) continue; one(f, K[i], f == 5 ? a : a * 9); } else if (f == 7) { if (K[i] < 9000) one(f, K[i], a * 4); } else one(f, K[i], f == 1 ? K[i] * a / 3 : f == 3 ? (K[i] < a * 40 ? K[i] : a * 40) : a - 1); if (f == 0 || f == 4 || f == 5) break; } }
void huge_register(void) { char nm[40]; for (int f = 0; f < 9; f++) { sprintf(nm, "hubs-%s", hu_name[f]); for (char *c = nm; *c; c++) if (*c == ' ') *c = '-'; mc_section(strdup(nm), hubs, f); } }
