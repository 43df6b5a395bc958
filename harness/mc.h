/* mc.h - a small stateless model checker for C code.
 *
 * A harness registers sections; each section runs in its own child process (so a crash, a sanitizer
 * report or a hang of the code under test is caught and attributed to the case being executed).
 * Within a section the harness enumerates a finite space completely:
 *   - inputs with ordinary loops,
 *   - nondeterminism with mc_dfs(): the body is re-executed for every sequence of choices it makes
 *     through mc_choose() or through the random generator returned by mc_rng().
 */
#ifndef MC_H
#define MC_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <math.h>
#include <stdint.h>
#include <stdbool.h>
#include <gsl/gsl_rng.h>

/* ---- tiers and arguments ---- */
extern int mc_thorough;                 /* VERIF_TIER=thorough */
extern const char *mc_only;             /* replay: only this section */

/* ---- sections ---- */
typedef void (*mc_fn)(long arg);
void mc_section(const char *name, mc_fn fn, long arg);
int  mc_main(int argc, char **argv);    /* runs the registered sections; harness main ends with it */

/* ---- reporting (inside a section) ---- */
void mc_case(const char *fmt, ...) __attribute__((format(printf,1,2)));  /* describe current case  */
void mc_step(const char *fmt, ...) __attribute__((format(printf,1,2)));  /* append a step to it    */
void mc_tick(void);                     /* progress mark for the hang watchdog, no description     */
void mc_hang(int seconds);               /* CPU seconds without progress that count as a hang, in this section */
void mc_fail(const char *sig, const char *fmt, ...) __attribute__((format(printf,2,3)));
void mc_states(long n);                 /* distinct model states / inputs explored                 */
void mc_trans(long n);                  /* transitions / operations executed on the real code      */
void mc_traces(long n);                 /* executions (traces) validated against the implementation*/
void mc_sample(const char *fmt, ...) __attribute__((format(printf,1,2)));
void mc_outcome(uint64_t h);            /* distinct observed outcomes (approximate set)            */
void mc_capped(const char *what);       /* a bound other than the stated one was hit               */
int  mc_timeup(void);                   /* the run's time budget is used up                        */
#define MC_CHECK(cond, sig, ...) do { if (!(cond)) mc_fail(sig, __VA_ARGS__); } while (0)
int  mc_close(double a, double b);      /* equal up to 1e-9 relative/absolute; both NaN is equal   */
int  mc_closet(double a, double b, double tol);

/* ---- exhaustive choice exploration ---- */
typedef struct {
  int free_depth;        /* the first free_depth draws take every alphabet value                   */
  int max_dev;           /* after that, at most this many draws deviate from the default stream    */
  int dev_horizon;       /* deviations only at draws < dev_horizon                                 */
  int nalpha;
  const double *alpha;   /* alphabet of values in [0,1)                                            */
  int hard_horizon;      /* more draws than this in one execution = does not terminate             */
  unsigned seed;         /* selects the default stream                                             */
} mc_rngcfg;
extern mc_rngcfg mc_rc;
gsl_rng *mc_rng(void);                  /* generator whose draws are explorer choices              */
int  mc_choose(int n);
long mc_dfs(void (*body)(void *), void *arg);   /* returns number of executions                    */
int  mc_ndraws(void);                   /* draws made so far in this execution                     */
void mc_script(const double *vals, int n);      /* outside dfs: next draws come from this list     */
int  mc_script_overrun(void);           /* draws beyond the script so far                          */
extern int mc_script_abort;             /* 1: longjmp out on overrun (mc_script_run)               */
int  mc_script_run(void (*body)(void *), void *arg, const double *vals, int n); /* 1 if overran    */

/* ---- helpers ---- */
extern FILE *mc_devnull;
const char *mc_tmpdir(void);            /* private scratch directory of this section               */
FILE *mc_memfile(const char *text);     /* read stream over a string                               */
uint64_t mc_hash(const void *p, size_t n);
int mc_next_rgs(int *a, int n);         /* next restricted growth string (set partition)           */
int mc_next_perm(int *a, int n);
/* growing hash set of 64-bit keys */
typedef struct { uint64_t *t; size_t cap, n; } mc_set;
int  mc_set_add(mc_set *s, uint64_t k); /* 1 if new */
void mc_set_free(mc_set *s);
#endif
