/* running the command-line programs of the repository inside a harness: their main() is linked under another name */
#ifndef PROG_H
#define PROG_H
#include "mc.h"
#include <unistd.h>
#include <fcntl.h>
#include <getopt.h>
static char PG_D[500];
static char *path(const char *f) { static char b[8][700]; static int r; char *s = b[r++ & 7]; snprintf(s, 700, "%s/%s", PG_D, f); return s; }
static void prog_dir(void) { snprintf(PG_D, 500, "%s", mc_tmpdir()); if (chdir(PG_D)) mc_fail("internal", "cannot enter the scratch directory"); }
static void wr(const char *f, const char *t) { FILE *o = fopen(path(f), "w"); fputs(t, o); fclose(o); }
static char *rd(const char *f) { FILE *o = fopen(path(f), "r"); if (!o) return NULL; static char *b[8]; static int r; int k = r++ & 7; if (!b[k]) b[k] = malloc(400001); size_t n = fread(b[k], 1, 400000, o); b[k][n] = 0; fclose(o); return b[k]; }
/* runs a program with the given arguments; its standard output (not its chatter on standard error) is returned in *out */
static int prog_usage;   /* set while programs are called with missing arguments */
static int prog(int (*m)(int, char **), const char *in, char **out, char **argv) { int c = 0; while (argv[c]) c++; char *cp[40]; for (int i = 0; i < c; i++) cp[i] = strdup(argv[i]); cp[c] = NULL; fflush(NULL); int o = dup(1), e = dup(2), i0 = dup(0), f = open(path("stdout"), O_CREAT | O_TRUNC | O_WRONLY, 0600), g = open(getenv("MC_STDERR") ? getenv("MC_STDERR") : "/dev/null", O_RDWR), h = open(in ? path(in) : "/dev/null", O_RDONLY); dup2(f, 1); dup2(g, 2); dup2(h, 0); clearerr(stdin); rewind(stdin); optind = 0; mc_tick(); int r = m(c, cp); fflush(NULL); dup2(o, 1); dup2(e, 2); dup2(i0, 0); close(o); close(e); close(i0); close(f); close(g); close(h); for (int i = 0; i < c; i++) free(cp[i]); if (out) *out = rd("stdout"); mc_trans(1); if (r && !prog_usage) mc_fail("exit", "%s returned %d", argv[0], r); return r; }
#endif
