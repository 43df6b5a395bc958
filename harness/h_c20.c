/* C20: link-reliability samplers (Metropolis, Gibbs, sparse Gibbs) */
#include "smp.h"
#define KINDS S_MC,S_GIBBS,S_SPARSE
#include "smp_main.h"
int main(int c,char **v){ smp_sections(); return mc_main(c,v); }
