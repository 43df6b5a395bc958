/* C32: samples are taken only from chains that have settled, spaced by the measured decorrelation time.
 * The chain's step and the decay fit are replaced by scripted ones; the schedules of energies, of
 * partitions and of fit results are enumerated. */
#define HMAX 110
#include "hg.h"
#include "modules.h"
#include "tools.h"
#include "missing.h"
#include "multiblock.h"
double **LinkScoreMB_OD(struct node_gra*,double,int,gsl_rng*,char); double **GibbsLinkScoreMB_OD(struct node_gra*,double,int,gsl_rng*,char);
#include "sparse_missing.h"
#include "recommend.h"
#include "conflict.h"
enum { M_REAL, M_THERM, M_DECOR, M_FULL };
static int mode; static long nstep; static int wantfac; static const char *fname="";
/* ---- M_THERM: energies ---- */
static double *en; static long nen;
/* ---- M_DECOR: partitions and fit results ---- */
#define PM 130
static int two; static int n1,n2; static int P[2][PM][HMAX],np;   /* partitions since the estimate began; P[.][0] at its start */
static int reps,acc,calls; static int cfg; static double est[2][40],acd[2][40]; static int dcalls; static long devat[2]; static double devval[2]; static double basev; static int pendneg;
static double xs[2][4]; static int bad;
/* ---- M_FULL ---- */
static int decval,phase,burnin; static double thinning; static long sampled;
#define DIE(...) do{ mc_fail(__VA_ARGS__); _exit(9); }while(0)
static int sched(int t,int i,int rep,int side){ int s=(i*(cfg%5+1)+(t*(cfg/5%4)+t*t*(cfg/20%3)+rep*7)*(i%(2+cfg/60%3)==0||i<=t)+side*3); int k=cfg%7==0?2:3+cfg%4; int n=side?n2:n1; if(k>n) k=n; return s%k; }
static void moveall(struct node_gra **nl,struct group **gl,int n,int side,int t){ for(int i=0;i<n;i++){ int to=sched(t,i,reps,side); if(nl[i]->inGroup!=to) MoveNode(nl[i],gl[nl[i]->inGroup],gl[to]); } }
static void scriptstep(int fac,double *H,struct node_gra **a,struct group **ga,int na,struct node_gra **b,struct group **gb,int nb){
  switch(mode){
  case M_THERM: if(wantfac>=0&&fac!=wantfac){ if(!bad) mc_fail("spacing","%s: thermalization steps of %d instead of %d moves per node",fname,fac,wantfac); bad=1; } if(nstep>=nen) DIE("settling","%s: goes on after %ld steps although the energy has settled",fname,nstep); *H=en[nstep++]; break;
  case M_DECOR: if(pendneg){ np=0; pendneg=0; } if(np==0){ for(int i=0;i<na;i++) P[0][0][i]=a[i]->inGroup; for(int i=0;i<nb;i++) P[1][0][i]=b[i]->inGroup; np=1; }
    if(fac!=1){ if(!bad) mc_fail("decorrelation","%s: steps of %d moves per node while estimating",fname,fac); bad=1; }
    if(np>=PM) DIE("decorrelation","%s: more than %d steps in one estimate",fname,PM); moveall(a,ga,na,0,np); if(nb) moveall(b,gb,nb,1,np); for(int i=0;i<na;i++) P[0][np][i]=a[i]->inGroup; for(int i=0;i<nb;i++) P[1][np][i]=b[i]->inGroup; np++; nstep++; break;
  case M_FULL: if(phase<1) DIE("settling","%s: steps before thermalization",fname); if(wantfac>=0){ double w=wantfac*(sampled>=burnin?thinning:1); if(fabs(fac-w)>=1||(fac!=w&&w==(int)w)){ if(!bad) mc_fail("spacing","%s: %s steps of %d instead of %g moves per node",fname,sampled>=burnin?"sampling":"burn-in",fac,w); bad=1; } } sampled++; if(sampled>5000) DIE("settling","%s: more than 5000 sampling steps",fname); break;
  default: break; } }
#define LSARG double *H,double c,struct node_gra **nl,struct group **gl,struct group *p,int n,int **G2G,int *n2g,double **lc,int lcs,double *lf,int lfs
#define LSV H,c,nl,gl,p,n,G2G,n2g,lc,lcs,lf,lfs
#define ST(f) scriptstep(f,H,nl,gl,n,NULL,NULL,0)
#define ST2(f) scriptstep(f,H,nl1,gl1,m1,nl2,gl2,m2)
void LinkScoreMCStep(int f,LSARG,gsl_rng *g){ ST(f); }
void LSMCStepMB(int f,LSARG,double *hl,gsl_rng *g){ ST(f); } void ORLSMCStepMB(int f,LSARG,double *hl,gsl_rng *g){ ST(f); } void LSMCStepMB_OD(int f,LSARG,double *hl,gsl_rng *g){ ST(f); }
void GibbsLinkScoreStep(LSARG,gsl_rng *g){ ST(-1); } void GibbsLinkScoreStepMB(LSARG,double *hl,gsl_rng *g){ ST(-1); } void ORGibbsLinkScoreStepMB(LSARG,double *hl,gsl_rng *g){ ST(-1); } void GibbsLinkScoreStepMB_OD(LSARG,double *hl,gsl_rng *g){ ST(-1); }
#define SPARG double *H,struct node_gra **nl,struct group **gl,struct group *p,int n,int **G2G,int *n2g,double *ga,double *gb,double *gab,int gs,double *lf,int lfs,double a,double b
void SparseGibbsLinkScoreStep(SPARG,gsl_rng *g){ ST(-1); }
#define KARG double *H,struct node_gra **nl,struct group **gl,struct group *p,int n,int *ng,int ****N2G,int ****G2G,double *ll,int lls,double *lf,int lfs
void LSMCStepKState(int k,int f,KARG,gsl_rng *g){ ST(f); }
#define R2ARG double *H,struct node_gra **nl1,struct node_gra **nl2,struct group **gl1,struct group **gl2,struct group *p1,struct group *p2,int m1,int m2,int *ng1,int *ng2,int **a0,int **a1,int **a2,int **a3,int **a4,int **a5,int **a6,int **a7,double *ll,int lls,double **lc,int lcs,double *lf,int lfs
void MCStep2State(int f,R2ARG,gsl_rng *g){ ST2(f); }
#define RKARG double *H,struct node_gra **nl1,struct node_gra **nl2,struct group **gl1,struct group **gl2,struct group *p1,struct group *p2,int m1,int m2,int *ng1,int *ng2,int ***a0,int ***a1,int ***a2,int ***a3,double *ll,int lls,double *lf,int lfs
void MCStepKState(int k,int f,RKARG,gsl_rng *g){ ST2(f); } void GibbsStepKState(int k,RKARG,gsl_rng *g){ ST2(-1); }
/* decorrelation and thermalization: the real ones, except in M_FULL */
#define FD { if(mode!=M_FULL){ DIE("harness","called"); } calls++; return decval; }
#define FT(d) { if(mode!=M_FULL){ DIE("harness","called"); } if(wantfac>=0&&(d)!=wantfac){ mc_fail("spacing","%s: thermalization with steps of %d instead of %d moves per node",fname,(int)(d),wantfac); } phase++; }
int real_GetDecorrelationStep(LSARG,gsl_rng*,char); int GetDecorrelationStep(LSARG,gsl_rng *g,char v) FD
int real_GetDecorrelationStepMB(LSARG,double*,gsl_rng*,char); int GetDecorrelationStepMB(LSARG,double *hl,gsl_rng *g,char v) FD
int real_ORGetDecorrelationStepMB(LSARG,double*,gsl_rng*,char); int ORGetDecorrelationStepMB(LSARG,double *hl,gsl_rng *g,char v) FD
int real_GetDecorrelationStepMB_OD(LSARG,double*,gsl_rng*,char); int GetDecorrelationStepMB_OD(LSARG,double *hl,gsl_rng *g,char v) FD
int real_LSGetDecorrelationStepKState(int,KARG,gsl_rng*,char); int LSGetDecorrelationStepKState(int k,KARG,gsl_rng *g,char v) FD
int real_GetDecorrelationStep2State(R2ARG,gsl_rng*,char); int GetDecorrelationStep2State(R2ARG,gsl_rng *g,char v) FD
int real_GetDecorrelationStepKState(int,RKARG,gsl_rng*,char); int GetDecorrelationStepKState(int k,RKARG,gsl_rng *g,char v) FD
void real_ThermalizeLinkScoreMC(int,LSARG,gsl_rng*,char); void ThermalizeLinkScoreMC(int d,LSARG,gsl_rng *g,char v) FT(d)
void real_ThermalizeLSMCMB(int,LSARG,double*,gsl_rng*,char); void ThermalizeLSMCMB(int d,LSARG,double *hl,gsl_rng *g,char v) FT(d)
void real_ORThermalizeLSMCMB(int,LSARG,double*,gsl_rng*,char); void ORThermalizeLSMCMB(int d,LSARG,double *hl,gsl_rng *g,char v) FT(d)
void real_ThermalizeLSMCMB_OD(int,LSARG,double*,gsl_rng*,char); void ThermalizeLSMCMB_OD(int d,LSARG,double *hl,gsl_rng *g,char v) FT(d)
void real_LSThermalizeMCKState(int,int,KARG,gsl_rng*,char); void LSThermalizeMCKState(int k,int d,KARG,gsl_rng *g,char v) FT(d)
void real_ThermalizeMC2State(int,R2ARG,gsl_rng*,char); void ThermalizeMC2State(int d,R2ARG,gsl_rng *g,char v) FT(d)
void real_ThermalizeMCKState(int,int,RKARG,gsl_rng*,char); void ThermalizeMCKState(int k,int d,RKARG,gsl_rng *g,char v) FT(d)
void real_GibbsThermalizeLinkScore(LSARG,gsl_rng*,char); void GibbsThermalizeLinkScore(LSARG,gsl_rng *g,char v) FT(wantfac)
void real_GibbsThermalizeLSMCMB(LSARG,double*,gsl_rng*,char); void GibbsThermalizeLSMCMB(LSARG,double *hl,gsl_rng *g,char v) FT(wantfac)
void real_ORGibbsThermalizeLSMCMB(LSARG,double*,gsl_rng*,char); void ORGibbsThermalizeLSMCMB(LSARG,double *hl,gsl_rng *g,char v) FT(wantfac)
void real_GibbsThermalizeLSMCMB_OD(LSARG,double*,gsl_rng*,char); void GibbsThermalizeLSMCMB_OD(LSARG,double *hl,gsl_rng *g,char v) FT(wantfac)
void real_SparseGibbsThermalizeLinkScore(SPARG,gsl_rng*,char); void SparseGibbsThermalizeLinkScore(SPARG,gsl_rng *g,char v) FT(wantfac)
void real_GibbsThermalizeKState(int,RKARG,gsl_rng*,char); void GibbsThermalizeKState(int k,RKARG,gsl_rng *g,char v) FT(wantfac)
/* lookup tables (C25) replaced by direct evaluation */
double **InitializeFastLogChoose(int n){ (void)n; return calloc(1,sizeof(double*)); } void FreeFastLogChoose(double **p,int n){ (void)n; free(p); } double FastLogChoose(int r,int l,double **p,int n){ (void)p;(void)n; return LogChoose(r,l); }
double *InitializeFastLogFact(int n){ (void)n; return calloc(1,sizeof(double)); } void FreeFastLogFact(double *p){ free(p); } double FastLogFact(int r,double *p,int n){ (void)p;(void)n; return lgamma(r+1.); }
double *InitializeFastLogGamma(int n,double x){ (void)n;(void)x; return calloc(1,sizeof(double)); } void FreeFastLogGamma(double *p){ free(p); } double FastLogGamma(int r,double *p,int n,double x){ (void)p;(void)n; return lgamma(r+x); }
double *InitializeFastLog(int n){ (void)n; return calloc(1,sizeof(double)); } void FreeFastLog(double *p){ free(p); } double FastLog(int r,double *p,int n){ (void)p;(void)n; return log(r); }

/* ================= thermalization ================= */
enum { T_MC,T_MB,T_OR,T_OD,T_K,T_2S,T_RK,T_G,T_GMB,T_GOR,T_GOD,T_SP,T_GRK,NT };
static const char *tn[]={"ThermalizeLinkScoreMC","ThermalizeLSMCMB","ORThermalizeLSMCMB","ThermalizeLSMCMB_OD","LSThermalizeMCKState","ThermalizeMC2State","ThermalizeMCKState","GibbsThermalizeLinkScore","GibbsThermalizeLSMCMB","ORGibbsThermalizeLSMCMB","GibbsThermalizeLSMCMB_OD","SparseGibbsThermalizeLinkScore","GibbsThermalizeKState"};
/* a small consistent set-up, so that verbose output and refactorings that look at it find sane data */
typedef struct { struct node_gra *net,**nl; struct group *p,**gl; int n; int **G2G,*n2g; } SU;
static SU mk(int n){ SU s; s.n=n; s.net=CreateHeaderGraph(); s.nl=calloc(n+1,sizeof*s.nl); s.gl=calloc(n+1,sizeof*s.gl); struct node_gra *l=s.net; char b[20]; for(int i=0;i<n;i++){ sprintf(b,"v%d",i); l=s.nl[i]=CreateNodeGraph(l,b); } for(int i=0;i+1<n;i++){ AddAdjacency(s.nl[i],s.nl[i+1],0,0,1,0); AddAdjacency(s.nl[i+1],s.nl[i],0,0,1,0); } struct group *g=s.p=CreateHeaderGroup(); for(int i=0;i<n;i++) g=s.gl[i]=CreateGroup(g,i); ResetNetGroup(s.net); for(int i=0;i<n;i++) AddNodeToGroup(s.gl[i],s.nl[i]); s.G2G=allocate_i_mat(n+1,n+1); s.n2g=allocate_i_vec(n+1); for(int i=0;i<=n;i++){ s.n2g[i]=0; for(int j=0;j<=n;j++) s.G2G[i][j]=0; } for(int i=0;i<n;i++) for(int j=0;j<n;j++) if(i!=j) s.G2G[i][j]=NG2GLinks(s.gl[i],s.gl[j]); return s; }
static void back(SU *s){ for(int i=0;i<s->n;i++) if(s->nl[i]->inGroup!=i) MoveNode(s->nl[i],s->gl[s->nl[i]->inGroup],s->gl[i]); }
static void un(SU *s){ RemovePartition(s->p); RemoveGraph(s->net); free(s->nl); free(s->gl); free_i_mat(s->G2G,s->n+1); free_i_vec(s->n2g); }
static SU A,B; static double dumlf[8],*dumlc[8]; static int ***dum3[4]; static int ***dumN[4];
static void therm(int k,int d,double *H,char v){ gsl_rng *g=mc_rng(); int c1=A.n,c2=B.n;
#define LSC H,0,A.nl,A.gl,A.p,A.n,A.G2G,A.n2g,dumlc,0,dumlf,0
#define R2C H,A.nl,B.nl,A.gl,B.gl,A.p,B.p,A.n,B.n,&c1,&c2,A.G2G,B.G2G,A.G2G,B.G2G,A.G2G,B.G2G,A.G2G,B.G2G,dumlf,0,dumlc,0,dumlf,0
#define RKC H,A.nl,B.nl,A.gl,B.gl,A.p,B.p,A.n,B.n,&c1,&c2,dumN[0],dumN[0],dumN[0],dumN[0],dumlf,0,dumlf,0
#define KC H,A.nl,A.gl,A.p,A.n,&c1,(int****)dumN,(int****)dumN,dumlf,0,dumlf,0
  switch(k){ case T_MC: real_ThermalizeLinkScoreMC(d,LSC,g,v); break; case T_MB: real_ThermalizeLSMCMB(d,LSC,dumlf,g,v); break; case T_OR: real_ORThermalizeLSMCMB(d,LSC,dumlf,g,v); break; case T_OD: real_ThermalizeLSMCMB_OD(d,LSC,dumlf,g,v); break; case T_K: real_LSThermalizeMCKState(2,d,KC,g,v); break; case T_2S: real_ThermalizeMC2State(d,R2C,g,v); break; case T_RK: real_ThermalizeMCKState(2,d,RKC,g,v); break; case T_G: real_GibbsThermalizeLinkScore(LSC,g,v); break; case T_GMB: real_GibbsThermalizeLSMCMB(LSC,dumlf,g,v); break; case T_GOR: real_ORGibbsThermalizeLSMCMB(LSC,dumlf,g,v); break; case T_GOD: real_GibbsThermalizeLSMCMB_OD(LSC,dumlf,g,v); break; case T_SP: real_SparseGibbsThermalizeLinkScore(H,A.nl,A.gl,A.p,A.n,A.G2G,A.n2g,dumlf,dumlf,dumlf,0,dumlf,0,.5,.5,g,v); break; default: real_GibbsThermalizeKState(2,RKC,g,v); } }
static const double SQ=4.47213595499957939; /* sqrt(20) */
static void blk(double *e,double m,double s,int pat){ for(int i=0;i<20;i++) e[i]= pat? m+s*(i<10?1:-1) : m+s*(i%2?1:-1); }   /* mean m, standard deviation s */
static int tv; static void onetherm(int k,const int *seq,int len,int pat){ static double buf[20*80]; double m0=1e10,s0=1e-10; int eq=0,b=0; en=buf;
  while(eq<5&&b<70){ int c= b<len? seq[b] : 2; double s= (c==4||c==5)? 3 : (b*7+pat)%3, m; double thr=m0-s0/SQ-s/SQ; if(b==0){ m=pat%2?-5000:250; s=pat%4?2:0; }
    else switch(c){ case 0: m=thr-20; break; case 1: m= s+s0>.5 ? thr+.3*(s+s0)/SQ : m0; break; case 2: m=m0; if(s0+s<.1) s=0; break; case 3: m=m0+15; break; case 4: m=thr-.02; break; default: m=thr+.02; }
    if(c==2&&s==0&&s0==0) m=m0; blk(buf+20*b,m,s,(b+pat)%2); b++; if(b==1||c==0||c==4){ m0=m; s0=s; eq=0; } else eq++; }
  if(eq<5) DIE("harness","schedule does not settle"); nen=20*b; for(long i=nen;i<nen+20*4;i++) buf[i]=buf[nen-1]; long wantn=nen; nen=wantn+40; nstep=0; mode=M_THERM; bad=0; wantfac= k>=T_G? -1 : 1+tv%9; fname=tn[k]; static const char vv[]="qvd"; double H=777; mc_trans(1); mc_traces(1);
  therm(k,wantfac,&H,vv[tv++%3]); if(nstep==0) return; /* the step was not reached: nothing to judge */
  if(nstep!=wantn) mc_fail("settling","%s stops after %ld steps (blocks of 20), should be %ld",tn[k],nstep,wantn); else if(H!=buf[wantn-1]) mc_fail("settling","%s: energy changed",tn[k]); mc_outcome((uint64_t)wantn*31+k); mode=M_REAL; }
static void sec_therm(long arg){ int k=arg&31,L=arg>>5&15,first=arg>>9; A=mk(6); B=mk(5); int seq[16]; long M=1; for(int i=0;i<L-1;i++) M*=6; for(long c=0;c<M;c++){ long z=c; seq[0]=0; seq[1]=first; for(int i=2;i<=L;i++){ seq[i]=z%6; z/=6; } mc_case("%s, blocks %ld after first %d (base 6: 0 far below, 1 below within errors, 2 equal, 3 above, 4 just below, 5 just not below the limit)",tn[k],c,first); mc_states(1); onetherm(k,seq,L+1,(int)(c%4)); if(mc_timeup()){ mc_capped("time"); break; } } un(&A); un(&B); }

/* ================= decorrelation time ================= */
enum { D_MC,D_MB,D_OR,D_OD,D_K,D_2S,D_RK,ND };
static const char *dn[]={"GetDecorrelationStep","GetDecorrelationStepMB","ORGetDecorrelationStepMB","GetDecorrelationStepMB_OD","LSGetDecorrelationStepKState","GetDecorrelationStep2State","GetDecorrelationStepKState"};
static double refMI(const int *a,const int *b,int n){ double h1=0,h2=0,h12=0; int sa[HMAX]={0},sb[HMAX]={0}; static int j[HMAX][HMAX]; for(int i=0;i<n;i++) j[a[i]][b[i]]=0; for(int i=0;i<n;i++){ sa[a[i]]++; sb[b[i]]++; j[a[i]][b[i]]++; } for(int x=0;x<n;x++){ if(sa[x]) h1+=sa[x]*log((double)sa[x]/n); if(sb[x]) h2+=sb[x]*log((double)sb[x]/n); } for(int i=0;i<n;i++){ int *c=&j[a[i]][b[i]]; if(*c){ h12+=*c*log((double)*c*n/((double)sa[a[i]]*sb[b[i]])); *c=0; } } return -2*h12/(h1+h2); }
static int same(double a,double b){ if(isnan(a)&&isnan(b)) return 1; return fabs(a-b)<1e-9; }
static int side_seen[2];
double real_CalculateDecay(int,double,double,double,double);
double CalculateDecay(int nnod,double x1,double y1,double x2,double y2){ if(mode!=M_DECOR) return real_CalculateDecay(nnod,x1,y1,x2,y2);
  if(np<1){ DIE("decorrelation","%s: two fits without a step between them",fname); }
  /* which partition is this about? */
  int side=-1; for(int s=0;s<=two&&side<0;s++) if(!side_seen[s]&&nnod==(s?n2:n1)) side=s;
  if(side<0){ DIE("decorrelation","%s: fit for a partition of %d nodes",fname,nnod); } if(two&&n1==n2&&n1>1){ /* decide by the values */ int t=np-1; if(!same(y2,refMI(P[side][0],P[side][t],nnod))&&!side_seen[1]&&same(y2,refMI(P[1][0],P[1][t],nnod))) side=1; }
  side_seen[side]=1;
  int i1=(int)x1,i2=(int)x2; if(x1!=i1||x2!=i2||i1<0||i2<i1||i2>np-1){ if(!bad) mc_fail("decorrelation","%s: fit at times %g and %g after %d steps",fname,x1,x2,np-1); bad=1; }
  else { int ok1=0,ok2=0; for(int q=0;q<2;q++){ if(i1+q<np&&same(y1,refMI(P[side][0],P[side][i1+q],nnod))) ok1=1; if(i2+q<np&&same(y2,refMI(P[side][0],P[side][i2+q],nnod))) ok2=1; } if(!(ok1&&ok2)&&!bad){ mc_fail("decorrelation","%s: the overlaps with the partition at the start of the estimate after %d and %d steps are %.9g and %.9g, not %.9g and %.9g (%d nodes, estimate %d)",fname,i1,i2,refMI(P[side][0],P[side][i1<np-1?i1+1:i1],nnod),refMI(P[side][0],P[side][np-1],nnod),y1,y2,nnod,reps); bad=1; } }
  double v=basev+(dcalls%4)*.25; for(int d=0;d<2;d++) if(devat[d]==dcalls) v=devval[d]; dcalls++; if(dcalls>400) DIE("decorrelation","%s: more than 400 fits",fname); est[side][0]=v;
  int need=two?(n1>1)+(n2>1):1; int got=side_seen[0]+side_seen[1]; if(got==need){ reps++; int neg=(side_seen[0]&&est[0][0]<0)||(side_seen[1]&&est[1][0]<0); if(!neg){ if(acc<40) for(int s=0;s<2;s++) acd[s][acc]= side_seen[s]? 2*est[s][0] : 1e-6; acc++; } side_seen[0]=side_seen[1]=0; pendneg=1; }
  return v; }
static double expect(double *out2){ /* mean of the accepted estimates within two standard deviations; -1: borderline */ int side=0; double m[2]={0,0}; for(int s=0;s<=two;s++){ for(int i=0;i<acc;i++) m[s]+=acd[s][i]; m[s]/=acc; } if(two&&m[1]>=m[0]-1e-12){ if(m[1]<m[0]+1e-9&&m[0]!=m[1]) return -1; side=1; } double q=0; for(int i=0;i<acc;i++) q+=(acd[side][i]-m[side])*(acd[side][i]-m[side]); double sd=sqrt(q/acc); if(sd<1e-6*m[side]){ *out2=m[side]; return m[side]; } double s=0; int k=0; for(int i=0;i<acc;i++){ double z=fabs(acd[side][i]-m[side])/sd; if(fabs(z-2)<1e-6) return -1; if(z<2){ s+=acd[side][i]; k++; } } *out2=m[side]; return s/k; }
static int dcall(int k,double *H,char v){ gsl_rng *g=mc_rng(); int c1=A.n,c2=B.n; switch(k){ case D_MC: return real_GetDecorrelationStep(LSC,g,v); case D_MB: return real_GetDecorrelationStepMB(LSC,dumlf,g,v); case D_OR: return real_ORGetDecorrelationStepMB(LSC,dumlf,g,v); case D_OD: return real_GetDecorrelationStepMB_OD(LSC,dumlf,g,v); case D_K: return real_LSGetDecorrelationStepKState(2,KC,g,v); case D_2S: return real_GetDecorrelationStep2State(R2C,g,v); default: return real_GetDecorrelationStepKState(2,RKC,g,v); } }
static void onedec(int k,int a,int b){ n1=a; n2=b; two=k>=D_2S; mc_states(1); static const double vals[]={-1,0,.05,5,60,3000}; static const double bases[]={4,.1,37.3}; int nb=3,big=!mc_thorough&&a!=9&&a!=20; A=mk(a); B=mk(two?b:2);
  for(int bi=0;bi<nb;bi++) for(int d1=-1;d1<12;d1+= big?3:1) for(int v1=0;v1<(d1<0?1:6);v1+= big?2:1) for(int d2= d1<0? 12 : d1+1;d2<13;d2+= d1>=0&&!mc_thorough&&(a!=20||k)?3:1) for(int v2=0;v2<(d2==12?1:6);v2+= mc_thorough?1:2){
    basev=bases[bi]; devat[0]=d1; devval[0]=vals[v1]; devat[1]=d2==12?-1:d2; devval[1]=vals[v2]; cfg=(bi*31+d1*17+v1*5+d2*3+v2+a*13+400)%360; back(&A); back(&B);
    reps=acc=dcalls=np=pendneg=bad=0; nstep=0; side_seen[0]=side_seen[1]=0; fname=dn[k]; mode=M_DECOR; static int tvv; static const char vv[]="qvd"; double H=0; mc_case("%s, %d%s%d nodes, fits %g except fit %d: %g, fit %ld: %g, schedule %d",dn[k],a,two?"+":"/",two?b:0,basev,d1,vals[v1],devat[1],vals[v2],cfg); mc_trans(1); mc_traces(1);
    int r=dcall(k,&H,vv[tvv++%3]); mode=M_REAL;
    if(dcalls>0&&!bad){ if(acc!=10) mc_fail("decorrelation","%s uses %d estimates",dn[k],acc); else { double mm=0,w=expect(&mm); if(w>=0){ if(w<1) w=1; if(!(fabs(r-w)<1+1e-6&&r>=1)) mc_fail("decorrelation","%s gives %d steps; the estimates average to %.6g",dn[k],r,w); mc_outcome((uint64_t)r*41+k); } else if(r<1) mc_fail("decorrelation","%s gives %d steps",dn[k],r); } }
    else if(r<1) mc_fail("decorrelation","%s gives %d steps",dn[k],r);
    if(mc_timeup()){ mc_capped("time"); d1=99; bi=9; break; } } un(&A); un(&B); }
static void sec_dec(long arg){ onedec(arg&15,arg>>4&255,arg>>12&255); }

/* ================= the decay fit ================= */
static void sec_fit(long arg){ static const int ns[]={6,10,20,40,60,100,400,1000}; if(arg<8){ int i=arg; for(int x2=1;x2<=ns[i]/5+12;x2+= x2<12?1:7) for(int x1=0;x1<x2;x1+= x1<4?1:x2/7+1) for(int ai=0;ai<10;ai++) for(int bi=0;bi<14;bi++){ double a=ai*.1-.05*(ai==0), b=.3*pow(1.7,bi); double e1=exp(-x1/b),e2=exp(-x2/b); double y1=a+(1-a)*e1,y2=a+(1-a)*e2; mc_case("fit for %d nodes at times %d and %d, a=%g b=%g",ns[i],x1,x2,a,b); mc_states(1); mc_trans(1); mc_traces(1); double r=real_CalculateDecay(ns[i],x1,y1,x2,y2); if(isnan(r)){ mc_fail("fit","the decay time is not a number"); continue; } if(r<=0) { mc_outcome(1); continue; } /* no solution found: the estimate is discarded */
    /* a decay through both points exists for this r: a from the second point, residual at the first */
    double f2=exp(-x2/r),f1=exp(-x1/r); if(1-f2<1e-4||1-f1<1e-9) continue; double ar=(y2-f2)/(1-f2); if(fabs(y1-ar-(1-ar)*f1)>1e-5) mc_fail("fit","decay time %g does not fit (%d, %g), (%d, %g); %g does",r,x1,y1,x2,y2,b); mc_outcome((uint64_t)llround(log(r)*1e4)); if(x1==0) continue; if(e1-e2>1e-3&&e2>1e-3&&e1<.999&&a>.04&&fabs(log(r/b))>.01){ /* another root of the same equations? then its residuals vanish too; checked above */ } }
  return; }
  /* fits through points that are not on such a curve end as well */
  for(int x1=1;x1<5;x1++) for(int x2=x1;x2<25;x2+=3) for(int p=0;p<=20;p++) for(int q=0;q<=20;q++){ mc_case("fit at times %d and %d, overlaps %g and %g",x1,x2,p*.05,q*.05); mc_trans(1); mc_states(1); double r=real_CalculateDecay(20,x1,p*.05,x2,q*.05); if(isnan(r)) mc_fail("fit","the decay time is not a number"); } }

/* ================= whole functions: order of the phases and spacing ================= */
enum { F_MC,F_G,F_SP,F_MB,F_GMB,F_OR,F_GOR,F_OD,F_GOD,F_NS,F_PS,F_K,F_2S,F_RK,F_GRK,F_ALL,NF };
static const char *fn_[]={"LinkScore","GibbsLinkScore","SparseGibbsLinkScore","LinkScoreMB","GibbsLinkScoreMB","ORLinkScoreMB","ORGibbsLinkScoreMB","LinkScoreMB_OD","GibbsLinkScoreMB_OD","NetworkScore","PartitionSampling","LSMultiLinkScoreKState","MultiLinkScore2State","MultiLinkScoreKState","GibbsMultiLinkScoreKState","AllLinkScore2State"};
static struct binet *ratings(struct query ***qs,int *nq,int m){ struct binet *bn=CreateBipart(); struct node_gra *l=bn->net1=CreateHeaderGraph(),*u[4],*w[4]; char b[9]; for(int i=0;i<3;i++){ sprintf(b,"u%d",i); l=u[i]=CreateNodeGraph(l,b); } l=bn->net2=CreateHeaderGraph(); for(int i=0;i<4;i++){ sprintf(b,"i%d",i); l=w[i]=CreateNodeGraph(l,b); } for(int i=0;i<3;i++) for(int j=0;j<4;j++) if((i*4+j)!=m%12){ AddAdjacency(u[i],w[j],0,0,(i+j*m)%2,0); AddAdjacency(w[j],u[i],0,0,(i+j*m)%2,0); } *nq=2; *qs=calloc(2,sizeof **qs); (*qs)[0]=CreateQuery(u[m%3],w[m%4]); (*qs)[1]=CreateQuery(u[(m+1)%3],w[(m+2)%4]); return bn; }
static void sec_full(long arg){ int k=arg; for(int m=0;m<8;m++) for(int d=1;d<=9;d+= d<3?1:3) for(int it=1;it<=5;it++) for(int given=0;given<=(k==F_K||k==F_2S||k==F_RK||k==F_ALL);given++) for(int vi=0;vi<3;vi++) { double thin= k==F_PS? 1+m%4*.75 : 1; int burn= k==F_PS? (m+it)%4 : 0; burnin=burn; thinning=thin; char v="qvd"[vi]; mode=M_FULL; calls=phase=0; sampled=0; bad=0; decval= given? 77 : d; wantfac= d; fname=fn_[k]; mc_case("%s, network %d, spacing %d%s, %d samples, thinning %g",fn_[k],m,d,given?" (given)":"",it,thin); mc_states(1); mc_trans(1); mc_traces(1); int dg= given? d : -1;
    int gibbs= k==F_G||k==F_SP||k==F_GMB||k==F_GOR||k==F_GOD||k==F_GRK; if(gibbs) wantfac=-1; RG G; rg_init(&G,5); for(int i=0;i<5;i++) for(int j=i+1;j<5;j++) if((i*3+j+m)%3||(m==7&&j==i+1)) rg_link(&G,i,j,(i+j+m)%2); RG T=G; struct node_gra *net=NULL,*net2=NULL; struct binet *bn=NULL; struct query **qs=NULL; int nq=0; gsl_rng *g=mc_rng(); double sc[1]; (void)sc;
    if(k<=F_K){ net=rg_build(&G,NULL); net2=rg_build(&T,NULL); } else bn=ratings(&qs,&nq,m);
    double **s=NULL;
    switch(k){ case F_MC: s=LinkScore(net,0,it,g,v); break; case F_G: s=GibbsLinkScore(net,0,it,g,v); break; case F_SP: s=SparseGibbsLinkScore(net,it,g,v); break; case F_MB: s=LinkScoreMB(net,0,it,g,v); break; case F_GMB: s=GibbsLinkScoreMB(net,0,it,g,v); break; case F_OR: s=ORLinkScoreMB(net,0,it,g,v); break; case F_GOR: s=ORGibbsLinkScoreMB(net,0,it,g,v); break; case F_OD: s=LinkScoreMB_OD(net,0,it,g,v); break; case F_GOD: s=GibbsLinkScoreMB_OD(net,0,it,g,v); break; case F_NS: NetworkScore(net2,net,0,it,g,v); break; case F_PS: { struct group **P=PartitionSampling(net,0,it,g,v,burn,thin); for(int i=0;i<it;i++) RemovePartition(P[i]); free(P); break; } case F_K: { struct query **Q; int n; s=LSMultiLinkScoreKState(2,net,it,g,v,dg,&Q,&n); for(int i=0;i<n;i++) FreeQuery(Q[i]); free(Q); free_d_mat(s,2); s=NULL; break; } case F_2S: free_d_vec(MultiLinkScore2State(bn,qs,nq,it,g,v,dg)); break; case F_RK: s=MultiLinkScoreKState(2,bn,qs,nq,it,g,v,dg); free_d_mat(s,2); s=NULL; break; case F_GRK: s=GibbsMultiLinkScoreKState(2,bn,qs,nq,it,g,v); free_d_mat(s,2); s=NULL; break; default: { struct query **Q=AllLinkScore2State(bn,it,g,v,dg); for(int i=0;i<12;i++) FreeQuery(Q[i]); free(Q); } }
    if(s) free_d_mat(s,5);
    if(phase==0&&sampled>0) mc_fail("settling","%s samples without thermalization",fn_[k]); else if(phase>0&&sampled!=it+burn&&!bad) mc_fail("spacing","%s makes %ld sampling steps for %d samples",fn_[k],sampled,it+burn); if(given&&calls) mc_fail("spacing","%s measures the decorrelation time although it is given",fn_[k]); mc_outcome(k*100+it*10+d); mode=M_REAL;
    if(net){ RemoveGraph(net); RemoveGraph(net2); } if(bn){ for(int i=0;i<nq;i++) FreeQuery(qs[i]); free(qs); RemoveBipart(bn); } if(mc_timeup()){ mc_capped("time"); return; } } }
int main(int c,char **v){ const char *ti=getenv("VERIF_TIER"); int t=ti&&!strcmp(ti,"thorough"); char b[80]; stderr=fopen("/dev/null","w"); static int **dz; dz=allocate_i_mat(8,8); static int **az[4]; for(int i=0;i<4;i++) az[i]=dz; for(int i=0;i<4;i++) dumN[i]=az; (void)dum3; int L=t?7:5;
  for(int k=0;k<NT;k++) for(int f=0;f<6;f++){ sprintf(b,"settling/%s/%d",tn[k],f); mc_section(b,sec_therm,k|L<<5|f<<9); }
  static const int nn[]={2,3,4,5,7,9,10,15,19,20,24,25,39,40,60,100};
  for(int k=0;k<ND;k++) for(int i=0;i<16;i++){ if(k>=D_2S){ for(int q=0;q<3;q++){ int m= q==0? (nn[i]>40?3:nn[i]) : q==1? nn[(i*7+3)%9] : 1; sprintf(b,"decorrelation/%s/%d+%d",dn[k],nn[i],m); mc_section(b,sec_dec,k|nn[i]<<4|m<<12); if(q==2){ sprintf(b,"decorrelation/%s/%d+%d",dn[k],1,nn[i]); mc_section(b,sec_dec,k|1<<4|nn[i]<<12); } } } else { sprintf(b,"decorrelation/%s/%d",dn[k],nn[i]); mc_section(b,sec_dec,k|nn[i]<<4); } }
  for(int i=0;i<9;i++){ sprintf(b,"fit/%d",i); mc_section(b,sec_fit,i); } for(int k=0;k<NF;k++){ sprintf(b,"phases/%s",fn_[k]); mc_section(b,sec_full,k); }
  return mc_main(c,v); }
