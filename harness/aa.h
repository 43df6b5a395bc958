/* adjacency arrays and optimizer partitions built from reference networks */
#ifndef AA_H
#define AA_H
#include "hg.h"
#include "partition.h"
#include "fillpartitions.h"
#include "movements.h"
#define ELMAX (HMAX < 64 ? 400 : HMAX * HMAX / 2)
typedef struct { int E; unsigned a[ELMAX], b[ELMAX]; double w[ELMAX]; } EL;
static inline void el_from(EL *e, const RG *r, int rev) { e->E = 0; for (int i = 0; i < r->n; i++) for (int j = i + 1; j < r->n; j++) if (r->has[i][j]) { int x = e->E++; e->a[x] = (rev & 1) ? j : i; e->b[x] = (rev & 1) ? i : j; e->w[x] = r->w[i][j]; } if (rev & 2) for (int x = 0; x < e->E / 2; x++) { int y = e->E - 1 - x; unsigned t = e->a[x]; e->a[x] = e->a[y]; e->a[y] = t; t = e->b[x]; e->b[x] = e->b[y]; e->b[y] = t; double d = e->w[x]; e->w[x] = e->w[y]; e->w[y] = d; } }
/* put nodes into modules by the public operations, in the given order; the modules not used stay empty */
static inline void put(Partition *p, unsigned mod, int i) { Module *m = p->modules[mod]; Node *x = p->nodes[i]; x->module = mod; x->next = NULL; x->prev = m->last; if (m->last) m->last->next = x; else { m->first = x; p->nempty--; } m->last = x; m->size++; m->strength += x->strength; }
/* validity of the data structure; a[] the expected assignment or NULL */
static inline const char *pt_check(Partition *p, const int *a) { static char m[200]; int seen[HMAX < 64 ? 64 : HMAX] = {0}; unsigned empty = 0, tot = 0;
  for (unsigned k = 0; k < p->M; k++) { Module *mo = p->modules[k]; if (!mo) return "missing module"; if (mo->id != k) { snprintf(m, 200, "module %u has id %u", k, mo->id); return m; } unsigned c = 0; double s = 0; Node *q = mo->first, *pr = NULL; for (; q; pr = q, q = q->next) { if (q->id >= p->N || p->nodes[q->id] != q) return "list contains a foreign node"; if (q->prev != pr) { snprintf(m, 200, "backward pointer of node %u in module %u", q->id, k); return m; } if (seen[q->id]++) { snprintf(m, 200, "node %u listed twice", q->id); return m; } if (q->module != k) { snprintf(m, 200, "node %u listed in module %u carries module %u", q->id, k, q->module); return m; } if (a && a[q->id] != (int)k) { snprintf(m, 200, "node %u in module %u instead of %d", q->id, k, a[q->id]); return m; } c++; s += q->strength; if (c > p->N) return "list too long"; }
    if (mo->last != pr) { snprintf(m, 200, "end of the list of module %u", k); return m; } if (mo->size != c) { snprintf(m, 200, "module %u has size %u, lists %u nodes", k, mo->size, c); return m; } if (fabs(mo->strength - s) > 1e-9) { snprintf(m, 200, "module %u has strength %g, should be %g", k, mo->strength, s); return m; } if (!c) empty++; tot += c; }
  if (p->nempty != empty) { snprintf(m, 200, "%u empty modules recorded, there are %u", p->nempty, empty); return m; } if (tot != p->N) { snprintf(m, 200, "%u nodes listed instead of %u", tot, p->N); return m; } return NULL; }
#endif
