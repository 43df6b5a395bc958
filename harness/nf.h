/* network files in several forms, with the network each one describes */
#ifndef NF_H
#define NF_H
static char LB[HMAX][100]; static void labels(int f) { for (int i = 0; i < HMAX; i++) if (f == 0) sprintf(LB[i], "n%d", i); else if (f == 1) sprintf(LB[i], "%d", (i * 37 + 11) % 64); else { int L = f == 2 ? 99 - i % 3 : 1 + i % 50; memset(LB[i], 'q', L); LB[i][L] = 0; sprintf(LB[i] + (L > 4 ? 0 : 0), "%c%c", 'a' + i % 26, 'A' + i / 26); if (L > 2) LB[i][2] = 'q'; } }
static int lidx(const RG *r, const int *id, const char *s) { for (int i = 0; i < r->n; i++) if (!strcmp(LB[id[i]], s)) return i; return -1; }
/* writes the file of a network in one of several forms; out: the network the file describes (nodes that appear in it), id: their labels */
static void netfile(const char *name, const RG *g, int var, RG *out, int *id) { static char t[300000]; int l = 0, n = g->n, map[HMAX]; memset(map, -1, sizeof map); rg_init(out, HMAX); out->n = 0; int E = 0; static int ea[4000], eb[4000];
  for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (g->has[i][j]) { int f = (i * 3 + j + var) & 1; ea[E] = f ? i : j; eb[E++] = f ? j : i; if ((var & 1) && (i + j) % 3 == 0) { ea[E] = eb[E - 1]; eb[E] = ea[E - 1]; E++; } if ((var & 2) && (i * j) % 4 == 1) { ea[E] = eb[E] = i; E++; } }
  if (var & 4) for (int i = 0; i < n; i++) if (!rg_deg(g, i)) { ea[E] = eb[E] = i; E++; }
  if (var & 8) for (int x = 0; x < E / 2; x++) { int y = E - 1 - x, z = ea[x]; ea[x] = ea[y]; ea[y] = z; z = eb[x]; eb[x] = eb[y]; eb[y] = z; }
  for (int x = 0; x < E; x++) { l += sprintf(t + l, "%s%s%s%s", LB[ea[x]], var & 1 ? "\t" : " ", LB[eb[x]], x == E - 1 && (var & 2) ? "" : "\n"); int v[2] = {ea[x], eb[x]}; for (int q = 0; q < 2; q++) if (map[v[q]] < 0) { map[v[q]] = out->n; id[out->n] = v[q]; out->n++; } if (v[0] != v[1]) rg_link(out, map[v[0]], map[v[1]], 1); } t[l] = 0; wr(name, t);
  mc_case("file (form %d):", var); for (int x = 0; x < E && x < 40; x++) mc_step(" %.8s-%.8s", LB[ea[x]], LB[eb[x]]); }
#endif
