/* C16: participation coefficient of hubs with up to 47000 links */
#include "huge.h"
#include "modules.h"
static void hub(long arg) { mc_hang(150); int k = arg >> 3, v = arg & 7; HUGE h; mc_case("hub with %d links, grouping %d", k, v); mc_states(1); hu_fam(&h, 0, k, 0); long double P = 0; int K = v == 0 ? 1 : v == 1 ? 2 : v == 2 ? 50 : 1000; if (K > k) K = k; int *c = calloc(K + 1, sizeof(int)); h.nl[0]->inGroup = 0; for (int i = 1; i <= k; i++) { int g = v == 1 ? i > k / 5 : i % K; h.nl[i]->inGroup = g; c[g]++; } for (int g = 0; g < K; g++) P += (long double)c[g] * c[g] / ((long double)k * k); P = 1 - P; double got = ParticipationCoefficient(h.nl[0]); mc_trans(1); if (!mc_close(got, (double)P)) mc_fail("participation", "%.12g instead of %.12Lg", got, P); mc_outcome(mc_hash(&got, 8)); free(c); hu_free(&h); mc_traces(1); }
void huge_register(void) { static const int Kk[] = {3000, 20000, 33000, 47000}; char nm[40]; for (int i = 3; i >= 0; i--) for (int v = 0; v < (i > 1 ? 2 : 4); v++) { sprintf(nm, "huge-hub-%d-%d", Kk[i], v); mc_section(strdup(nm), hub, (long)Kk[i] << 3 | v); } }
