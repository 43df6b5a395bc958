/* C21: multi-layer (AND/OR) and degeneration-only samplers */
#include "smp.h"
#define KINDS S_MB,S_MBG,S_OR,S_ORG,S_OD,S_ODG
#include "smp_main.h"
static void sec_deg(long a){ (void)a; for(int n=0;n<=400;n++){ double x=LogDegeneracy(n),y=LogDegeneracy_OD(n); mc_case("LogDegeneracy(%d)",n); mc_states(1); mc_trans(2); mc_traces(1); mc_outcome(n);
    if(n<70){ if(!mc_closet(x,lndeg[n],1e-7)) mc_fail("degeneracy","LogDegeneracy(%d)=%.10g instead of %.10g",n,x,lndeg[n]); if(!mc_closet(y,lndeg[n],1e-7)) mc_fail("degeneracy","LogDegeneracy_OD(%d)=%.10g instead of %.10g",n,y,lndeg[n]); }
    else { if(fabs(x/lndeg[n]-1)>0.02||fabs(y/lndeg[n]-1)>0.02) mc_fail("degeneracy","LogDegeneracy(%d)=%g, %g far from %g",n,x,y,lndeg[n]); if(x<LogDegeneracy(n-1)||y<LogDegeneracy_OD(n-1)) mc_fail("degeneracy","LogDegeneracy(%d) decreases",n); } } }
int main(int c,char **v){ mc_section("degeneracy",sec_deg,0); smp_sections(); return mc_main(c,v); }
