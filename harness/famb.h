/* structured families of bipartite networks, unweighted */
#ifndef FAMB_H
#define FAMB_H
#define NF 12
static const char *fam_name[NF] = {"hub in set 1", "hub in set 2", "complete", "band", "blocks", "perfect matching", "ladder", "arithmetic", "sparse arithmetic", "two hubs", "nested", "few links"};
static void fam(BG *b, int f, int n1, int n2) { bg_init(b, n1, n2); for (int i = 0; i < n1; i++) for (int j = 0; j < n2; j++) { int l = 0; switch (f) { case 0: l = i == 0 || j == i; break; case 1: l = j == n2 - 1 || j == i % n2; break; case 2: l = 1; break; case 3: l = j >= i * n2 / n1 - 1 && j <= i * n2 / n1 + 1; break; case 4: l = i * 4 / n1 == j * 4 / n2; break; case 5: l = i == j; break; case 6: l = j == i % n2 || j == (i + 1) % n2; break; case 7: l = (i * 7 + j * 3 + i * j) % 4 == 0; break; case 8: l = (i * 11 + j * 5 + i * j) % 13 == 0; break; case 9: l = i == n1 / 2 || j == n2 / 3; break; case 10: l = (long)i * n2 + (long)j * n1 < (long)n1 * n2 / 2; break; case 11: l = i % 10 == 3 && j % 7 == 2; break; }
    if (l) { b->has[i][j] = 1; b->w[i][j] = 1; } } }
#endif
