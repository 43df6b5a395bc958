/* C31: layouts: boxes, forces, integration, arrangement of components, normalization and the layout programs. */
#define HMAX 128
#include "hg.h"
#include "prog.h"
#include "nf.h"
#include "layout.h"
#include "modules.h"
#include "tools.h"
int netlayout_main(int, char **), multinetlayout_main(int, char **);
static int th;
/* fresh vectors contain garbage */
double *allocate_d_vec(int n) { double *v = malloc((n > 0 ? n : 1) * sizeof *v); static const double junk[] = {37.5, -812.25, 3.5e7}; static int k; k++; for (int i = 0; i < n; i++) v[i] = junk[(i + k) % 3]; return v; }
int AssignBox(struct node_gra *, int, double, double, double, double);
static void quiet(FILE **a, FILE **b) { *a = stdout; *b = stderr; static FILE *n; if (!n) n = fopen("/dev/null", "w"); stdout = stderr = n; }
static void loud(FILE *a, FILE *b) { fflush(stdout); stdout = a; stderr = b; }

/* ---- boxes ---- */
static int boxof(double x, double lo, double hi, int nb, int *alt) { double f = (x - lo) / (hi - lo) * nb; int k = floor(f); *alt = k; if (f - k < 3e-5 * nb) *alt = k - 1; if (k + 1 - f < 3e-5 * nb) *alt = k + 1; if (k < 0) k = 0; if (k >= nb) k = nb - 1; if (*alt < 0) *alt = 0; if (*alt >= nb) *alt = nb - 1; return k; }
static void assign(long three) {
  static const double lo[] = {0, -3.5, 0.25, 1e-3, -1e4}, wd[] = {1, 7.3, 1e-4, 250, 2e4}; struct node_gra *net = CreateHeaderGraph(), *p = CreateNodeGraph(net, "a");
  for (int nb = 1; nb <= (th ? 9 : 6); nb++) for (int e = 0; e < 5; e++) for (int x = 0; x <= 24; x++) for (int y = 0; y <= 24; y++) for (int z = 0; z <= (three ? 24 : 0); z += three && !th ? 3 : 1) {
    double X = lo[e] + wd[e] * x / 24, Y = lo[(e + 1) % 5] + wd[(e + 1) % 5] * y / 24, Z = lo[(e + 2) % 5] + wd[(e + 2) % 5] * z / 24, a1, a2, a3; p->coorX = X; p->coorY = Y; p->coorZ = Z; a1 = lo[e] + wd[e]; a2 = lo[(e + 1) % 5] + wd[(e + 1) % 5]; a3 = lo[(e + 2) % 5] + wd[(e + 2) % 5];
    mc_trans(1); int b = three ? AssignBox3D(p, nb, lo[e], a1, lo[(e + 1) % 5], a2, lo[(e + 2) % 5], a3) : AssignBox(p, nb, lo[e], a1, lo[(e + 1) % 5], a2);
    int xa, ya, za = 0, xb = boxof(X, lo[e], a1, nb, &xa), yb = boxof(Y, lo[(e + 1) % 5], a2, nb, &ya), zb = three ? boxof(Z, lo[(e + 2) % 5], a3, nb, &za) : 0;
    int bx = b % nb, by = three ? b / nb % nb : b / nb, bz = three ? b / nb / nb : 0; mc_outcome(b);
    if (b < 0 || (bx != xb && bx != xa) || (by != yb && by != ya) || (bz != zb && bz != za) || by >= nb || bz >= nb) { mc_case("node at %g %g %g, %d boxes per side of [%g,%g]x[%g,%g]%s", X, Y, Z, nb, lo[e], a1, lo[(e + 1) % 5], a2, three ? " (3D)" : ""); mc_fail("box", "box %d (row %d column %d plane %d) instead of %d %d %d", b, by, bx, bz, yb, xb, zb); }
  }
  mc_states(1); mc_traces(1); RemoveGraph(net);
}
static void boxlist(void *a) {   /* every sequence of additions and removals */
  (void)a; RG g; rg_init(&g, 4); struct node_gra *nl[4], *net = rg_build(&g, nl); int in[4] = {0}; struct node_box *b = CreateNodeBox(NULL); mc_case("box:");
  for (int s = 0; s < (th ? 8 : 6); s++) { int k = mc_choose(4); if (in[k]) { mc_step(" -%d", k); RemoveNodeFromBox(nl[k], b); in[k] = 0; } else { mc_step(" +%d", k); AddNodeToBox(nl[k], b); in[k] = 1; } mc_trans(1);
    int seen[4] = {0}, c = 0; struct node_box *p = b; while ((p = p->next) && ++c < 9) for (int i = 0; i < 4; i++) seen[i] += p->ref == nl[i]; int w = 0; for (int i = 0; i < 4; i++) { w += in[i]; if (seen[i] != in[i]) mc_fail("boxlist", "node %d is in the box %d times instead of %d", i, seen[i], in[i]); } if (c != w) mc_fail("boxlist", "%d nodes in the box instead of %d", c, w); if (b->ref) mc_fail("boxlist", "the header holds a node"); }
  FreeBox(b); RemoveGraph(net);
}
static void boxes(long x) { (void)x; mc_rc = (mc_rngcfg){0}; mc_dfs(boxlist, NULL); mc_states(1); }

/* ---- forces and energies ---- */
typedef double P3[3];
static void refForce(const RG *g, P3 *x, const int *bx, int b, int dim, P3 *F, double *E) {
  int n = g->n; double eps = sqrt(n) / 1e4, Ke = 1. / n, lo[3] = {1e9, 1e9, 1e9}, hi[3] = {-1e9, -1e9, -1e9}, cut = 0; *E = 0; memset(F, 0, n * sizeof *F);
  for (int i = 0; i < n; i++) for (int c = 0; c < dim; c++) { if (x[i][c] < lo[c]) lo[c] = x[i][c]; if (x[i][c] > hi[c]) hi[c] = x[i][c]; } for (int c = 0; c < dim; c++) cut += (hi[c] - lo[c]) / dim; cut /= b;
  for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) {
    double d2 = 0, d; for (int c = 0; c < dim; c++) d2 += pow(x[j][c] - x[i][c], 2); d = sqrt(d2); double f = 0;
    if (g->has[i][j]) { f += g->w[i][j] * d; *E += g->w[i][j] * d2 / 2; }
    int near = abs(bx[i] % b - bx[j] % b) <= 1 && abs(bx[i] / b % b - bx[j] / b % b) <= 1 && abs(bx[i] / b / b - bx[j] / b / b) <= 1;
    if (near && (d < cut || b <= 2)) { f -= Ke / (d2 + eps); *E += Ke / sqrt(d2 + eps); }
    for (int c = 0; c < dim; c++) { double q = f * (x[j][c] - x[i][c]) / d; F[i][c] += q; F[j][c] -= q; }
  }
}
static void setxy(struct node_gra **nl, P3 *x, int n) { for (int i = 0; i < n; i++) { nl[i]->coorX = x[i][0]; nl[i]->coorY = x[i][1]; nl[i]->coorZ = x[i][2]; nl[i]->trans = i; } }
static void force1(const RG *g, P3 *x, int b, int dim) {
  struct node_gra *nl[HMAX], *net = rg_build(g, nl); int n = g->n, nb = dim == 3 ? b * b * b : b * b, bx[HMAX]; struct node_box **L = malloc(nb * sizeof *L); for (int i = 0; i < nb; i++) L[i] = CreateNodeBox(NULL); setxy(nl, x, n); double lo[3] = {1e9, 1e9, 1e9}, hi[3] = {-1e9, -1e9, -1e9};
  for (int i = 0; i < n; i++) for (int c = 0; c < 3; c++) { if (x[i][c] < lo[c]) lo[c] = x[i][c]; if (x[i][c] > hi[c]) hi[c] = x[i][c]; } for (int c = 0; c < 3; c++) if (hi[c] - lo[c] < 1e-9) { hi[c] += .5; lo[c] -= .5; }
  for (int i = 0; i < n; i++) { int y[3]; for (int c = 0; c < 3; c++) { y[c] = (x[i][c] - lo[c]) / (hi[c] - lo[c]) * b; if (y[c] >= b) y[c] = b - 1; } bx[i] = (dim == 3 ? y[2] * b * b : 0) + y[1] * b + y[0]; AddNodeToBox(nl[i], L[bx[i]]); }
  P3 F[HMAX]; double E, fx[HMAX], fy[HMAX], fz[HMAX], e; refForce(g, x, bx, b, dim, F, &E); mc_trans(2); mc_traces(1);
  for (int i = 0; i < n; i++) fx[i] = fy[i] = fz[i] = 77;
  if (dim == 3) { CalculateNodeForces3D(net, fx, fy, fz, L, b); e = PotentialEnergy3D(net, L, b); } else { CalculateNodeForces(net, fx, fy, L, b); e = PotentialEnergy(net, L, b); }
  for (int i = 0; i < n; i++) { double f[3] = {fx[i], fy[i], fz[i]}; for (int c = 0; c < dim; c++) if (!mc_closet(f[c], F[i][c], 1e-8)) { mc_step("; positions"); for (int k = 0; k < n && k < 5; k++) mc_step(" (%g %g %g)", x[k][0], x[k][1], x[k][2]); mc_fail("force", "force %d on node %d is %.10g instead of %.10g", c, i, f[c], F[i][c]); i = n; break; } }
  if (!mc_closet(e, E, 1e-8)) { mc_step("; positions"); for (int k = 0; k < n && k < 5; k++) mc_step(" (%g %g %g)", x[k][0], x[k][1], x[k][2]); mc_fail("energy", "potential energy %.10g instead of %.10g", e, E); }
  mc_outcome(mc_hash(&E, 8)); for (int i = 0; i < nb; i++) FreeBox(L[i]); free(L); RemoveGraph(net);
}
static double jit(int k) { return 0.013 * (((k * 7919) % 101) / 101. - .5); }
static void lattice(P3 x, int cell, int S, int dim, int k) { for (int c = 0; c < 3; c++) { x[c] = c < dim ? (cell % S + .5) / S + jit(k * 3 + c + 1 + cell) : 0; cell /= S; } }
static void forces(long arg) {   /* all placements on a lattice */
  int dim = arg & 3, n = arg >> 2 & 7, b = arg >> 5 & 7; int S = dim == 3 ? (n == 2 ? 4 : th ? 3 : 2) : n == 2 ? 7 : n == 3 ? (th ? 5 : 4) : 3, C = dim == 3 ? S * S * S : S * S; long tot = 1; for (int i = 0; i < n; i++) tot *= C; int np = n * (n - 1) / 2;
  for (long q = 0; q < tot; q++) { P3 x[HMAX]; long r = q; for (int i = 0; i < n; i++) { lattice(x[i], r % C, S, dim, i); r /= C; }
    for (int m = 0; m < 1 << np; m++) { if (n > 2 && (q + m) % (n == 3 ? 3 : 37)) continue; RG g; rg_mask(&g, n, m); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if (g.has[i][j]) rg_link(&g, i, j, (i + j + q) % 3 == 0 ? 1 : 0.5 + (q + i) % 4); mc_case("forces (%dD, %d boxes per side) on %s", dim, b, rg_text(&g)); force1(&g, x, b, dim); }
    mc_states(1); if (mc_timeup()) { mc_capped("time"); return; } }
}
static void forcesBig(long dim) {   /* a node in every box */
  for (int b = 1; b <= (dim == 3 ? 4 : 6); b++) for (int q = 0; q < (th ? 12 : 4); q++) { int C = dim == 3 ? b * b * b : b * b, n = C + q * 2 < 2 ? 2 : C + q * 2; RG g; rg_init(&g, n); P3 x[HMAX]; for (int i = 0; i < n; i++) { lattice(x[i], (i * (2 * q + 1) + q) % C, b, dim, i); if (i >= C) for (int c = 0; c < dim; c++) x[i][c] += .11 * (i - C) / b / b; } for (int i = 1; i < n; i++) if ((i * i + q) % 3) rg_link(&g, i, (i * (q + 1)) % i, 1 + i % 2); mc_states(1); mc_case("forces (%ldD, %d boxes per side) on %d nodes, placement %d", dim, b, n, q); force1(&g, x, b, dim); }
}

/* ---- integration ---- */
static void normalize(P3 *x, int n, int dim) { for (int c = 0; c < dim; c++) { double lo = 1e9, hi = -1e9; for (int i = 0; i < n; i++) { if (x[i][c] < lo) lo = x[i][c]; if (x[i][c] > hi) hi = x[i][c]; } for (int i = 0; i < n; i++) x[i][c] = hi > lo ? (x[i][c] - lo) / (hi - lo) : 0; } }
static int simulate(const RG *g, P3 *x, int meth, double drag, double dt, int nsteps, int nb, gsl_rng *r) {   /* meth 1: 2D, 2: 3D pulled to a plane, 3: 3D; returns the steps made */
  int n = g->n, dim = meth == 1 ? 2 : 3, bx[HMAX], L = 0, st = 0; P3 pr[HMAX], F[HMAX]; double E, kz = 0; int sw = 0; for (int i = 0; i < n; i++) L += rg_deg(g, i); L /= 2;
  if (nb <= 0) { double q = n * (double)n / (10. * L); nb = floor(dim == 2 ? sqrt(q) : pow(q, 1. / 3)); if (nb < 1) nb = 1; }
  RG d; rg_init(&d, 1); struct node_gra *nl[1], *net = rg_build(&d, nl);
  double lo[3] = {0, 0, 0}, hi[3] = {1, 1, 1};
  for (int i = 0; i < n; i++) { for (int c = 0; c < dim; c++) pr[i][c] = x[i][c] = gsl_rng_uniform(r); for (int c = dim; c < 3; c++) x[i][c] = 0; }
  for (int s = 0; s < nsteps; s++) {
    for (int i = 0; i < n; i++) { nl[0]->coorX = x[i][0]; nl[0]->coorY = x[i][1]; nl[0]->coorZ = x[i][2]; bx[i] = dim == 2 ? AssignBox(nl[0], nb, lo[0], hi[0], lo[1], hi[1]) : AssignBox3D(nl[0], nb, lo[0], hi[0], lo[1], hi[1], lo[2], hi[2]); }
    refForce(g, x, bx, nb, dim, F, &E); double T = 0;
    for (int c = 0; c < 3; c++) { lo[c] = 1e50; hi[c] = -1e50; }
    for (int i = 0; i < n; i++) for (int c = 0; c < dim; c++) { double f = F[i][c] - (c == 2 && meth == 2 ? kz * (x[i][c] - .5) : 0), y = (2 * x[i][c] - pr[i][c] * (1 - drag * dt / 2) + f * dt * dt) / (1 + drag * dt / 2), v = (y - pr[i][c]) / 2 / dt; T += v * v / 2; pr[i][c] = x[i][c]; x[i][c] = y; if (y < lo[c]) lo[c] = y; if (y > hi[c]) hi[c] = y; }
    st++; if (sw) kz += dt; if (meth == 2 && T / n < 1e-3) sw = 1; if (T / n < 1e-5) break;
  }
  normalize(x, n, meth == 3 ? 3 : 2); RemoveGraph(net); return st;
}
static void lay(struct node_gra *net, int meth, double drag, double dt, int ns, gsl_rng *r, int nb) { FILE *a, *b; quiet(&a, &b); (meth == 1 ? MDGraphLayout : meth == 2 ? MDGraphLayout2Dp : MDGraphLayout3D)(net, drag, dt, ns, r, nb); loud(a, b); mc_tick(); }
static const char *unchanged(struct node_gra *net, const RG *g) { static RG r; const char *e = rg_read(net, &r); return e ? e : rg_diff(&r, g, 1); }
static int spans(struct node_gra *net, int dim) { double lo[3] = {9, 9, 9}, hi[3] = {-9, -9, -9}; struct node_gra *p = net; int n = 0; while ((p = p->next)) { n++; double x[3] = {p->coorX, p->coorY, p->coorZ}; for (int c = 0; c < dim; c++) { if (!isfinite(x[c])) { mc_fail("finite", "coordinate %g", x[c]); return 0; } if (x[c] < lo[c]) lo[c] = x[c]; if (x[c] > hi[c]) hi[c] = x[c]; } } for (int c = 0; c < dim && n > 1; c++) if (fabs(lo[c]) > 1e-12 || fabs(hi[c] - 1) > 1e-12) { mc_fail("range", "coordinates %d range from %.12g to %.12g", c, lo[c], hi[c]); return 0; } return 1; }
static int connected(const RG *g) { int s[HMAX] = {1}, ch = 1, n = g->n; while (ch) { ch = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (s[i] && !s[j] && g->has[i][j]) s[j] = ch = 1; } for (int i = 0; i < n; i++) if (!s[i]) return 0; return 1; }
typedef struct { int n; double x[HMAX], y[HMAX], r[HMAX]; } CIR;
static void circles(const RG *g, P3 *x, int *comp, CIR *c) { int n = g->n; c->n = 0; for (int i = 0; i < n; i++) comp[i] = -1; for (int i = 0; i < n; i++) { if (comp[i] >= 0) continue; int st[HMAX], k = 0; st[k++] = i; comp[i] = c->n; while (k) { int a = st[--k]; for (int j = 0; j < n; j++) if (comp[j] < 0 && (g->has[a][j] || g->has[j][a])) { comp[j] = c->n; st[k++] = j; } } c->n++; }
  for (int k = 0; k < c->n; k++) { int z = 0; c->x[k] = c->y[k] = c->r[k] = 0; for (int i = 0; i < n; i++) if (comp[i] == k) { c->x[k] += x[i][0]; c->y[k] += x[i][1]; z++; } c->x[k] /= z; c->y[k] /= z; for (int i = 0; i < n; i++) if (comp[i] == k) { double d = hypot(x[i][0] - c->x[k], x[i][1] - c->y[k]); if (d > c->r[k]) c->r[k] = d; } c->r[k] *= 1.02; } }
static double cost(const CIR *c, double X, double Y, double *ov) { double e = 0; *ov = 0; for (int i = 0; i < c->n; i++) { e += hypot(c->x[i] - X, c->y[i] - Y); for (int j = 0; j < i; j++) { double o = c->r[i] + c->r[j] - hypot(c->x[i] - c->x[j], c->y[i] - c->y[j]); if (o > 0) *ov += o; } } return e + 1e5 * *ov; }
/* are y the positions x after arranging the components? tol: accuracy of both */
static int arranged(const RG *g, P3 *x, P3 *y, double tol) { int n = g->n, comp[HMAX], size[HMAX] = {0}; static CIR a, b; circles(g, x, comp, &a); for (int i = 0; i < n; i++) size[comp[i]]++; circles(g, y, comp, &b);
  for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if (comp[i] == comp[j] && (!mc_closet(y[i][0] - y[j][0], x[i][0] - x[j][0], tol) || !mc_closet(y[i][1] - y[j][1], x[i][1] - x[j][1], tol))) { mc_fail("rigid", "nodes %d and %d of the same component moved relative to each other", i, j); return 0; }
  if (a.n == 1) { for (int i = 0; i < n; i++) if (y[i][0] != x[i][0] || y[i][1] != x[i][1]) mc_fail("connected", "a connected network was moved"); return 0; }
  int big = 0, ok = 0; for (int k = 0; k < a.n; k++) if (size[k] > big) big = size[k]; double o0, o1, bo = 0, bc0 = 0, bc1 = 0; for (int k = 0; k < a.n; k++) if (size[k] == big) { double c0 = cost(&a, a.x[k], a.y[k], &o0), c1 = cost(&b, a.x[k], a.y[k], &o1); bo = o1; bc0 = c0; bc1 = c1; ok |= c1 <= c0 + 1e-6 * (1 + c0) + (tol > 1e-8 ? 1e5 * 1e-4 * n : 0); }
  if (!ok && tol < 1e-8) mc_fail("cost", "distances and overlaps grew from %g to %g", bc0, bc1); if (bo > (tol > 1e-8 ? 1e-3 : 1e-4)) mc_fail("overlap", "components still overlap by %g", bo); mc_outcome(mc_hash(&bc1, 8)); return 1; }
static void md1(const RG *g, int meth, double drag, double dt, int ns, int nb, unsigned seed, int cmp) {
  static RG o; o = *g; struct node_gra *nl[HMAX], *net = rg_build(g, nl); gsl_rng *r = gsl_rng_alloc(gsl_rng_mt19937), *q = gsl_rng_alloc(gsl_rng_mt19937); gsl_rng_set(r, seed); gsl_rng_set(q, seed); int n = g->n; P3 x[HMAX]; const char *e;
  if (n <= 6) mc_case("layout %s, %s, drag %g, step %g, %d steps, %d boxes, seed %u", meth == 1 ? "2D" : meth == 2 ? "2Dp" : "3D", rg_text(g), drag, dt, ns, nb, seed); else mc_case("layout %s, %d nodes, %d steps, %d boxes, seed %u", meth == 1 ? "2D" : meth == 2 ? "2Dp" : "3D", n, ns, nb, seed);
  mc_trans(1); mc_traces(1); lay(net, meth, drag, dt, ns, r, nb); if ((e = unchanged(net, &o))) mc_fail("network", "the layout changed the network: %s", e);
  if (spans(net, meth == 3 ? 3 : 2) && cmp && connected(g)) { simulate(g, x, meth, drag, dt, ns, nb, q); for (int i = 0; i < n; i++) { double y[3] = {nl[i]->coorX, nl[i]->coorY, nl[i]->coorZ}; for (int c = 0; c < (meth == 3 ? 3 : 2); c++) if (!mc_closet(x[i][c], y[c], 1e-5)) { mc_fail("dynamics", "coordinate %d of node %d is %.9g instead of %.9g", c, i, y[c], x[i][c]); i = n; break; } } }
  else if (cmp && meth != 3) {   /* components: the positions before the arrangement, moved component by component and brought to the unit square */
    simulate(g, x, meth, drag, dt, ns, nb, q); P3 y[HMAX]; int comp[HMAX]; static CIR a; circles(g, x, comp, &a); double s[2] = {0, 0}; for (int c = 0; c < 2; c++) { double d = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (comp[i] == comp[j] && x[i][c] - x[j][c] > d) { d = x[i][c] - x[j][c]; s[c] = c ? (nl[i]->coorY - nl[j]->coorY) / d : (nl[i]->coorX - nl[j]->coorX) / d; } if (d < 1e-3) s[c] = 0; }
    if (s[0] && s[1]) { if (s[0] < 0 || s[1] < 0) mc_fail("rigid", "a component was mirrored"); else { for (int i = 0; i < n; i++) { y[i][0] = nl[i]->coorX / s[0]; y[i][1] = nl[i]->coorY / s[1]; y[i][2] = 0; } P3 z; for (int c = 0; c < 2; c++) { int k = 0, sz[HMAX] = {0}, b = 0; for (int i = 0; i < n; i++) if (++sz[comp[i]] > b) { b = sz[comp[i]]; k = comp[i]; } z[c] = 0; for (int i = 0; i < n; i++) if (comp[i] == k) z[c] += (x[i][c] - y[i][c]) / sz[k]; } for (int i = 0; i < n; i++) for (int c = 0; c < 2; c++) y[i][c] += z[c]; arranged(g, x, y, 2e-4); } } }
  double c0 = nl[0]->coorX + nl[n - 1]->coorY; mc_outcome(mc_hash(&c0, 8)); RemoveGraph(net); gsl_rng_free(r); gsl_rng_free(q);
}
static void md(long arg) {
  int meth = arg & 3, n = arg >> 2 & 15, part = arg >> 6; static const int NS[] = {0, 1, 2, 3, 7, 25, 60};
  for (long m = part; m < 1L << (n * (n - 1) / 2); m += n == 5 ? (th ? 28 : 68) : 4) { RG g; rg_mask(&g, n, m); if (!m) continue; mc_states(1); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if (g.has[i][j] && m % 3 == 0) rg_link(&g, i, j, 1 + (i * j) % 3 * .5);
    for (int s = 0; s < 7; s++) for (int nb = 0; nb <= 4; nb++) md1(&g, meth, s % 2 ? 0.05 : 0.4, s % 3 ? 0.05 : 0.02, NS[s], nb, m * 7 + s, 1);
    if (mc_timeup()) { mc_capped("time"); return; } }
}
static void mdLong(long meth) {   /* until the nodes rest */
  for (int w = 0; w < 5; w++) for (int n = 2; n <= 6; n++) { RG g; rg_init(&g, n); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if (w == 0 ? j == i - 1 : w == 1 ? j == 0 : w == 2 ? 1 : w == 3 ? j == i - 1 || i - j == 2 : j == 0 || (i == 2 && j == 1)) rg_link(&g, i, j, 1); mc_states(1); md1(&g, meth, 0.5, 0.05, th ? 3000 : 600, 0, n + w, 1); md1(&g, meth, 2, 0.1, 3000, 0, n * 10 + w, 1); }
}
static void mdBig(long arg) {   /* enough nodes for several boxes */
  int meth = arg & 3, w = arg >> 2; for (int n = 20; n <= 120; n += 20) { static RG g; rg_init(&g, n); for (int i = 1; i < n; i++) if (w == 0) rg_link(&g, i, i - 1, 1); else if (w == 1) rg_link(&g, i, 0, 1); else rg_link(&g, i, (i * 5 + 1) % i, 1); mc_states(1); md1(&g, meth, 0.05, 0.05, th ? 30 : 12, 0, n, 1); md1(&g, meth, 0.05, 0.05, th ? 12 : 5, 3 + w, n + 1, 1); }
}
static void mdReal(long arg) {   /* any network, components included; same seed, same layout */
  int meth = arg & 3, n = arg >> 2 & 15; for (long m = 0; m < 1L << (n * (n - 1) / 2); m += n == 5 ? (th ? 9 : 61) : n == 4 && !th ? 3 : 1) { RG g; rg_mask(&g, n, m); mc_states(1); double c[2][HMAX]; for (int s = 0; s < 2; s++) { struct node_gra *nl[HMAX], *net = rg_build(&g, nl); gsl_rng *r = gsl_rng_alloc(gsl_rng_mt19937); gsl_rng_set(r, m + 1); mc_case("layout %d of %s, seed %ld", meth, rg_text(&g), m + 1); mc_trans(1); mc_traces(1); lay(net, meth, .05, .05, 40, r, 0); const char *e = unchanged(net, &g); if (e) mc_fail("network", "the layout changed the network: %s", e); spans(net, meth == 3 ? 3 : 2); for (int i = 0; i < n; i++) c[s][i] = nl[i]->coorX * 3 + nl[i]->coorY; RemoveGraph(net); gsl_rng_free(r); } for (int i = 0; i < n; i++) if (c[0][i] != c[1][i]) { mc_fail("seed", "the same seed gives another layout"); break; } if (mc_timeup()) { mc_capped("time"); return; } }
}

/* ---- components ---- */
static void arrange1(const RG *g, P3 *x, unsigned seed) {
  struct node_gra *nl[HMAX], *net = rg_build(g, nl); int n = g->n; setxy(nl, x, n); gsl_rng *r = gsl_rng_alloc(gsl_rng_mt19937); gsl_rng_set(r, seed); mc_trans(1); mc_traces(1); static RG o; o = *g; ArrangeComponents(net, r); mc_tick(); const char *e = unchanged(net, &o); if (e) mc_fail("network", "the arrangement changed the network: %s", e);
  P3 y[HMAX]; for (int i = 0; i < n; i++) { y[i][0] = nl[i]->coorX; y[i][1] = nl[i]->coorY; if (!isfinite(y[i][0] + y[i][1])) { mc_fail("finite", "coordinates %g %g", y[i][0], y[i][1]); goto end; } }
  arranged(g, x, y, 1e-9);
end: RemoveGraph(net); gsl_rng_free(r);
}
static void arrange(long arg) { int n = arg & 15, part = arg >> 4;
  for (long m = part; m < 1L << (n * (n - 1) / 2); m += n == 5 ? (th ? 16 : 76) : 4) { RG g; rg_mask(&g, n, m); mc_states(1); for (int q = 0; q < 5; q++) { P3 x[HMAX]; for (int i = 0; i < n; i++) { x[i][0] = q == 0 ? .5 + jit(i) : q == 1 ? i % 2 : q == 2 ? (i * 3 % 5) / 5. + jit(i) : q == 3 ? i / (double)n : 1 - i * i / 25.; x[i][1] = q == 0 ? .5 + jit(i + 9) : q == 1 ? i / 2 % 2 : q == 2 ? (i * 2 % 5) / 5. : q == 3 ? 1 - i / (double)n : .3 * i + jit(i); x[i][2] = 0; } mc_case("components of %s, positions %d", rg_text(&g), q); arrange1(&g, x, m + q); } if (mc_timeup()) { mc_capped("time"); return; } } }
static void arrangeBig(long w) { for (int n = 6; n <= 18; n += 3) { RG g; rg_init(&g, n); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if (w == 0 ? i / 2 == j / 2 : w == 1 ? i / 3 == j / 3 : w == 2 ? i > n / 2 && j == i - 1 : (i < n / 2) == (j < n / 2) && (i - j) <= 2) rg_link(&g, i, j, 1); P3 x[HMAX]; for (int q = 0; q < 3; q++) { for (int i = 0; i < n; i++) { x[i][0] = (i * 7 % n + .3 * q) / n; x[i][1] = (i * i * (q + 1) % n + .1 * i) / n; x[i][2] = 0; } mc_case("components of a network of %d nodes (family %ld), positions %d", n, w, q); mc_states(1); arrange1(&g, x, n + q); } } }
static void normal(long dim) { static const double val[] = {-2, 0, 0.5, 3, 1e4}; for (int n = 2; n <= 4; n++) { long tot = 1; for (int i = 0; i < n; i++) tot *= 5; RG g; rg_init(&g, n); for (long q = 0; q < tot; q++) { P3 x[HMAX], y[HMAX]; long r = q; struct node_gra *nl[HMAX], *net = rg_build(&g, nl); for (int i = 0; i < n; i++) { x[i][0] = val[r % 5]; x[i][1] = val[(r % 5 + i) % 5]; x[i][2] = val[(r + 2 * i) % 5]; r /= 5; } setxy(nl, x, n); memcpy(y, x, sizeof(P3) * n); normalize(y, n, dim); if (dim == 3) NormalizeCoordinates3D(net); else NormalizeCoordinates(net); mc_trans(1);
      for (int c = 0; c < dim; c++) { int same = 1; for (int i = 0; i < n; i++) same &= x[i][c] == x[0][c]; for (int i = 0; i < n; i++) { double v = c == 0 ? nl[i]->coorX : c == 1 ? nl[i]->coorY : nl[i]->coorZ; if (same ? !(v >= 0 && v <= 1) : !mc_closet(v, y[i][c], 1e-9)) { mc_case("normalization (%ldD), case %ld of %d nodes", dim, q, n); mc_fail("normalize", "coordinate %d of node %d is %g instead of %g", c, i, v, y[i][c]); i = n; } } } RemoveGraph(net); } mc_states(tot); mc_traces(tot); } }

/* ---- programs ---- */
static int coords(char *t, const RG *r, const int *id) { int n = r->n, seen[HMAX] = {0}; char *ln[5000]; int k = 0; for (char *p = strtok(t, "\n"); p && k < 5000; p = strtok(NULL, "\n")) ln[k++] = p; if (k < n) { mc_fail("output", "%d lines for %d nodes", k, n); return 0; } double lo[2] = {9, 9}, hi[2] = {-9, -9};
  for (int i = k - n; i < k; i++) { char a[200]; double x[2]; int c = 0; if (sscanf(ln[i], "%199s %lf %lf%n", a, x, x + 1, &c) != 3 || ln[i][c]) { mc_fail("output", "line \"%.60s\"", ln[i]); return 0; } int v = lidx(r, id, a); if (v < 0 || seen[v]++) { mc_fail("output", "node %s %s", a, v < 0 ? "is not in the network" : "printed twice"); return 0; } for (int q = 0; q < 2; q++) { if (!isfinite(x[q])) { mc_fail("output", "coordinate \"%.60s\"", ln[i]); return 0; } if (x[q] < lo[q]) lo[q] = x[q]; if (x[q] > hi[q]) hi[q] = x[q]; } }
  for (int q = 0; q < 2 && n > 1; q++) if (lo[q] != 0 || hi[q] != 1) { mc_fail("output", "coordinates range from %g to %g", lo[q], hi[q]); return 0; } return 1; }
static void programs(long arg) { prog_dir(); int n = arg & 15, part = arg >> 4; for (long m = part; m < 1L << (n * (n - 1) / 2); m += n == 5 ? (th ? 40 : 400) : 2) { if (!m) continue; for (int form = 0; form < (n < 4 ? 16 : 3); form++) { RG g; static RG r; int id[HMAX]; labels((m + form) % 4); rg_mask(&g, n, m); netfile("net", &g, n < 4 ? form : (m + form * 5) & 15, &r, id); if (r.n < 2) continue; int L = 0; for (int i = 0; i < r.n; i++) L += rg_deg(&r, i); if (!L) continue; mc_states(1);
    char *first = NULL; for (int s = 0; s < 4; s++) { char *out, me[4]; sprintf(me, "%d", s < 3 ? s + 1 : (int)(m % 3) + 1); char *v[] = {"netlayout", "net", "7", s % 2 ? "-1" : "0.04", (m + s) % 2 ? "30" : "6", s < 2 ? "-1" : "0.1", me, NULL}; if (s == 3) { int k = m % 3; v[3] = k % 2 ? "-1" : "0.04"; v[4] = (m + k) % 2 ? "30" : "6"; v[5] = k < 2 ? "-1" : "0.1"; } mc_step("; netlayout method %s", me); if (prog(netlayout_main, NULL, &out, v)) mc_fail("exit", "netlayout failed"); mc_traces(1); if (s == m % 3) first = strdup(out); if (s == 3 && strcmp(first, out)) mc_fail("seed", "the same seed gives another layout"); coords(out, &r, id); mc_outcome(mc_hash(out, strlen(out))); } free(first);
    if (mc_timeup()) { mc_capped("time"); return; } } } }
static void multi(long arg) { prog_dir(); (void)arg; labels(0); for (int k = 2; k <= 3; k++) for (int m = 1; m < 64; m += th ? 1 : 3) { static RG g[3], r[3], u; int id[3][HMAX], uid[HMAX]; rg_init(&u, HMAX); u.n = 0; char *v[6] = {"multinetlayout"}; for (int q = 0; q < k; q++) { char f[9]; sprintf(f, "net%d", q); rg_mask(&g[q], 4, (m * (2 * q + 1) + q) % 63 + 1); static char sv[HMAX][100]; memcpy(sv, LB, sizeof LB); if (q) for (int i = 0; i < 4; i++) strcpy(LB[i], sv[i + q]); netfile(f, &g[q], (m + q) & 15, &r[q], id[q]); memcpy(LB, sv, sizeof LB); for (int i = 0; i < r[q].n; i++) { id[q][i] += q ? q : 0; int have = 0; for (int z = 0; z < u.n; z++) have |= uid[z] == id[q][i]; if (!have) uid[u.n++] = id[q][i]; } v[q + 1] = strdup(f); } v[k + 1] = NULL;
    mc_case("multinetlayout of %d networks, case %d", k, m); mc_states(1); char *out, *o1; if (prog(multinetlayout_main, NULL, &out, v)) mc_fail("exit", "multinetlayout failed"); o1 = strdup(out); prog(multinetlayout_main, NULL, &out, v); if (strcmp(o1, out)) mc_fail("seed", "two runs differ"); coords(o1, &u, uid); free(o1); mc_traces(1); if (mc_timeup()) { mc_capped("time"); return; } } }
static void usage(long x) { (void)x; prog_usage = 1; prog_dir(); labels(0); RG g, r; int id[HMAX]; rg_mask(&g, 3, 7); netfile("net", &g, 0, &r, id); char *v[] = {"p", "net", "1", "-1", "10", "-1", "1", NULL}; for (int k = 1; k <= 6; k++) { char *o, *w[8]; memcpy(w, v, sizeof w); w[k] = NULL; mc_case("netlayout with %d arguments", k - 1); mc_states(1); mc_traces(1); int c = prog(netlayout_main, NULL, &o, w); if (!c || !strstr(o, "Use")) mc_fail("usage", "no usage message"); if (k < 3) { c = prog(multinetlayout_main, NULL, &o, w); if (!c || !strstr(o, "Use")) mc_fail("usage", "no usage message"); } } }
int main(int c, char **v) { const char *e = getenv("VERIF_TIER"); th = e && !strcmp(e, "thorough"); char b[60];
  for (int w = 0; w < 3; w++) for (int m = 1; m <= 3; m++) { sprintf(b, "dynamics-large/%d/%d", m, w); mc_section(b, mdBig, m | w << 2); }
  for (int n = 5; n >= 2; n--) for (int m = 1; m <= 3; m++) for (int p = 0; p < 4; p++) { sprintf(b, "dynamics/%d/n%d/%d", m, n, p); mc_section(b, md, m | n << 2 | p << 6); }
  for (int m = 1; m <= 3; m++) { sprintf(b, "dynamics-rest/%d", m); mc_section(b, mdLong, m); for (int n = 1; n <= 5; n++) { sprintf(b, "layout/%d/n%d", m, n); mc_section(b, mdReal, m | n << 2); } }
  for (int d = 2; d <= 3; d++) { for (int n = 2; n <= 4; n++) for (int q = 1; q <= (d == 3 ? 4 : 5); q++) { if (d == 3 && n == 4 && !th) continue; sprintf(b, "forces/%dD/n%d/%d", d, n, q); mc_section(b, forces, d | n << 2 | q << 5); } sprintf(b, "forces/%dD/large", d); mc_section(b, forcesBig, d); sprintf(b, "boxes/%dD", d); mc_section(b, assign, d == 3); sprintf(b, "normalization/%dD", d); mc_section(b, normal, d); }
  mc_section("boxes/list", boxes, 0); for (int n = 1; n <= 5; n++) for (int p = 0; p < (n > 2 ? 4 : 1); p++) { sprintf(b, "components/n%d/%d", n, p); mc_section(b, arrange, n | p << 4); } for (int w = 0; w < 4; w++) { sprintf(b, "components/large/%d", w); mc_section(b, arrangeBig, w); }
  for (int n = 2; n <= 5; n++) for (int p = 0; p < 2; p++) { sprintf(b, "netlayout/n%d/%d", n, p); mc_section(b, programs, n | p << 4); } mc_section("multinetlayout", multi, 0); mc_section("usage", usage, 0); return mc_main(c, v); }
