/* C23: link reliabilities are averages over the sampled partitions.
 * The chain's step is replaced by one that visits a scripted sequence of partitions (keeping the
 * bookkeeping it is given up to date incrementally), or by the real step with a recorder. */
#define HMAX 10
#include "hg.h"
#include "modules.h"
#include "tools.h"
#include "missing.h"
#include "multiblock.h"
double **LinkScoreMB_OD(struct node_gra*,double,int,gsl_rng*,char); double **GibbsLinkScoreMB_OD(struct node_gra*,double,int,gsl_rng*,char);
#include "sparse_missing.h"
#include "recommend.h"
enum { S_MC, S_GIBBS, S_SPARSE, S_MB, S_MBG, S_OR, S_ORG, S_OD, S_ODG, S_K, S_NKIND };
static const char *nm[]={"LinkScore","GibbsLinkScore","SparseGibbsLinkScore","LinkScoreMB","GibbsLinkScoreMB","ORLinkScoreMB","ORGibbsLinkScoreMB","LinkScoreMB_OD","GibbsLinkScoreMB_OD","LSMultiLinkScoreKState"};
static const RG *G; static int K;                /* network; K-state: weights are states */
static int mode;                                  /* 0 scripted, 1 real step, 2 everything real */
static int script[40][HMAX],nscript; static double scriptH[40]; static int pos,sampling;
static int vis[100000][HMAX],nvis; static double visH[100000]; static double EH;
static void cnt(const int *a,int n,int x,int y,int k,int *r,int *l){ *r=*l=0; for(int i=0;i<n;i++) for(int j=i+1;j<n;j++) if((a[i]==x&&a[j]==y)||(a[i]==y&&a[j]==x)){ (*r)++; if(G->has[i][j]&&(k<0||(int)G->w[i][j]==k)) (*l)++; } }
static void cur(struct node_gra **nl,int n,int *a){ for(int i=0;i<n;i++) a[i]=nl[i]->inGroup; }
static void record(struct node_gra **nl,int n,double H){ if(nvis>=100000){ mc_fail("steps","more than 100000 steps"); _exit(9); } cur(nl,n,vis[nvis]); visH[nvis++]=H; }
static void moveto(struct node_gra **nl,struct group **gl,int n,int **G2G,int ***pG,int ***pN,const int *t){ int a[HMAX],r,l0,l1; cur(nl,n,a);
  for(int i=0;i<n;i++) if(a[i]!=t[i]) MoveNode(nl[i],gl[a[i]],gl[t[i]]);
  for(int x=0;x<n;x++) for(int y=0;y<n;y++){ if(G2G){ cnt(a,n,x,y,-1,&r,&l0); cnt(t,n,x,y,-1,&r,&l1); G2G[x][y]+=l1-l0; } else for(int k=0;k<K;k++){ cnt(a,n,x,y,k,&r,&l0); cnt(t,n,x,y,k,&r,&l1); pG[k][x][y]+=l1-l0; int c=0; for(int j=0;j<n;j++) if(G->has[x][j]&&(int)G->w[x][j]==k) c+=(t[j]==y)-(a[j]==y); pN[k][x][y]+=c; } } }
static void step(struct node_gra **nl,struct group **gl,int n,int **G2G,int ***pG,int ***pN,double *H){ if(!sampling) return; if(pos>=nscript){ mc_fail("steps","more than %d sampling steps",nscript); _exit(9); } moveto(nl,gl,n,G2G,pG,pN,script[pos]); *H=scriptH[pos]; pos++; }
#define LSARG double *H,double c,struct node_gra **nl,struct group **gl,struct group *p,int n,int **G2G,int *n2g,double **lc,int lcs,double *lf,int lfs
#define LSV H,c,nl,gl,p,n,G2G,n2g,lc,lcs,lf,lfs
#define MCSTEP(f) void real_##f(int,LSARG,gsl_rng*); void f(int fac,LSARG,gsl_rng *g){ if(!mode){ step(nl,gl,n,G2G,NULL,NULL,H); return; } real_##f(fac,LSV,g); record(nl,n,*H); }
#define MBSTEP(f) void real_##f(int,LSARG,double*,gsl_rng*); void f(int fac,LSARG,double *hl,gsl_rng *g){ if(!mode){ step(nl,gl,n,G2G,NULL,NULL,H); return; } real_##f(fac,LSV,hl,g); record(nl,n,*H); }
#define GIBBS(f) void real_##f(LSARG,gsl_rng*); void f(LSARG,gsl_rng *g){ if(!mode){ step(nl,gl,n,G2G,NULL,NULL,H); return; } real_##f(LSV,g); record(nl,n,*H); }
#define GIBBSH(f) void real_##f(LSARG,double*,gsl_rng*); void f(LSARG,double *hl,gsl_rng *g){ if(!mode){ step(nl,gl,n,G2G,NULL,NULL,H); return; } real_##f(LSV,hl,g); record(nl,n,*H); }
MCSTEP(LinkScoreMCStep) MBSTEP(LSMCStepMB) MBSTEP(ORLSMCStepMB) MBSTEP(LSMCStepMB_OD) GIBBS(GibbsLinkScoreStep) GIBBSH(GibbsLinkScoreStepMB) GIBBSH(ORGibbsLinkScoreStepMB) GIBBSH(GibbsLinkScoreStepMB_OD)
#define SPARG double *H,struct node_gra **nl,struct group **gl,struct group *p,int n,int **G2G,int *n2g,double *ga,double *gb,double *gab,int gs,double *lf,int lfs,double a,double b
#define SPV H,nl,gl,p,n,G2G,n2g,ga,gb,gab,gs,lf,lfs,a,b
void real_SparseGibbsLinkScoreStep(SPARG,gsl_rng*); void SparseGibbsLinkScoreStep(SPARG,gsl_rng *g){ if(!mode){ step(nl,gl,n,G2G,NULL,NULL,H); return; } real_SparseGibbsLinkScoreStep(SPV,g); record(nl,n,*H); }
#define KARG double *H,struct node_gra **nl,struct group **gl,struct group *p,int n,int *ng,int ****N2G,int ****G2G,double *ll,int lls,double *lf,int lfs
#define KV H,nl,gl,p,n,ng,N2G,G2G,ll,lls,lf,lfs
void real_LSMCStepKState(int,int,KARG,gsl_rng*); void LSMCStepKState(int k,int f,KARG,gsl_rng *g){ if(!mode){ step(nl,gl,n,NULL,*G2G,*N2G,H); return; } real_LSMCStepKState(k,f,KV,g); record(nl,n,*H); }
/* decorrelation time and thermalization: replaced by a fixed number of (real) steps; in mode 2 left alone */
static int dec;
static int dok(int r){ if(r<1||r>1000000) mc_fail("decorrelation","decorrelation step %d",r); return r; }
#define DECOR(f,st,A,V,B,W,vs) int real_##f(A B,gsl_rng*,char); int f(A B,gsl_rng *g,char v){ if(mode==2) return dok(real_##f(V W,g,v)); if(mode==1) st; return dec; }
#define THERM(f,st,A,V,B,W) void real_##f(int,A B,gsl_rng*,char); void f(int d,A B,gsl_rng *g,char v){ if(mode==2){ real_##f(d,V W,g,v); return; } if(mode==1) st; sampling=1; }
#define GTHERM(f,st,A,V,B,W) void real_##f(A B,gsl_rng*,char); void f(A B,gsl_rng *g,char v){ if(mode==2){ real_##f(V W,g,v); return; } if(mode==1) st; sampling=1; }
#define NOA
#define HLA ,double *hl
#define HLV ,hl
DECOR(GetDecorrelationStep,LinkScoreMCStep(1,LSV,g),LSARG,LSV,NOA,NOA,) THERM(ThermalizeLinkScoreMC,LinkScoreMCStep(1,LSV,g),LSARG,LSV,NOA,NOA)
DECOR(GetDecorrelationStepMB,LSMCStepMB(1,LSV,hl,g),LSARG,LSV,HLA,HLV,) THERM(ThermalizeLSMCMB,LSMCStepMB(1,LSV,hl,g),LSARG,LSV,HLA,HLV)
DECOR(ORGetDecorrelationStepMB,ORLSMCStepMB(1,LSV,hl,g),LSARG,LSV,HLA,HLV,) THERM(ORThermalizeLSMCMB,ORLSMCStepMB(1,LSV,hl,g),LSARG,LSV,HLA,HLV)
DECOR(GetDecorrelationStepMB_OD,LSMCStepMB_OD(1,LSV,hl,g),LSARG,LSV,HLA,HLV,) THERM(ThermalizeLSMCMB_OD,LSMCStepMB_OD(1,LSV,hl,g),LSARG,LSV,HLA,HLV)
GTHERM(GibbsThermalizeLinkScore,GibbsLinkScoreStep(LSV,g),LSARG,LSV,NOA,NOA) GTHERM(GibbsThermalizeLSMCMB,GibbsLinkScoreStepMB(LSV,hl,g),LSARG,LSV,HLA,HLV) GTHERM(ORGibbsThermalizeLSMCMB,ORGibbsLinkScoreStepMB(LSV,hl,g),LSARG,LSV,HLA,HLV) GTHERM(GibbsThermalizeLSMCMB_OD,GibbsLinkScoreStepMB_OD(LSV,hl,g),LSARG,LSV,HLA,HLV) GTHERM(SparseGibbsThermalizeLinkScore,SparseGibbsLinkScoreStep(SPV,g),SPARG,SPV,NOA,NOA)
int real_LSGetDecorrelationStepKState(int,KARG,gsl_rng*,char); int LSGetDecorrelationStepKState(int k,KARG,gsl_rng *g,char v){ if(mode==2) return dok(real_LSGetDecorrelationStepKState(k,KV,g,v)); if(mode==1) LSMCStepKState(k,1,KV,g); return dec; }
void real_LSThermalizeMCKState(int,int,KARG,gsl_rng*,char); void LSThermalizeMCKState(int k,int d,KARG,gsl_rng *g,char v){ if(mode==2){ real_LSThermalizeMCKState(k,d,KV,g,v); return; } if(mode==1) LSMCStepKState(k,1,KV,g); sampling=1; }
/* lookup tables (C25) replaced by direct evaluation: the real ones take up to 800 MB per call */
double **InitializeFastLogChoose(int n){ (void)n; return calloc(1,sizeof(double*)); } void FreeFastLogChoose(double **p,int n){ (void)n; free(p); } double FastLogChoose(int r,int l,double **p,int n){ (void)p;(void)n; return LogChoose(r,l); }
double *InitializeFastLogFact(int n){ (void)n; return calloc(1,sizeof(double)); } void FreeFastLogFact(double *p){ free(p); } double FastLogFact(int r,double *p,int n){ (void)p;(void)n; return lgamma(r+1.); }
double *InitializeFastLogGamma(int n,double x){ (void)n;(void)x; return calloc(1,sizeof(double)); } void FreeFastLogGamma(double *p){ free(p); } double FastLogGamma(int r,double *p,int n,double x){ (void)p;(void)n; return lgamma(r+x); }
double *InitializeFastLog(int n){ (void)n; return calloc(1,sizeof(double)); } void FreeFastLog(double *p){ free(p); } double FastLog(int r,double *p,int n){ (void)p;(void)n; return log(r); }
/* ---- oracle ---- */
static double harm(int k){ double h=0; for(int i=1;i<=k;i++) h+=1.0/i; return h; }
static double pred(int kind,int r,int l){ static double H[64]; static int in; if(!in){ for(int i=0;i<64;i++) H[i]=harm(i); in=1; } switch(kind){
  case S_SPARSE: { double E=0; for(int i=0;i<G->n;i++) for(int j=i+1;j<G->n;j++) E+=G->has[i][j]; double d=E/(G->n*(G->n-1)/2.),b=.5,a=d*b/(1-d); return (l+a)/(r+a+b); }
  case S_MB: case S_MBG: return (l+1)*(H[r+2]-H[l+1])/((r+2)*(H[r+1]-H[l]));
  case S_OR: case S_ORG: { int z=r-l; return 1-(z+1)*(H[r+2]-H[z+1])/((r+2)*(H[r+1]-H[z])); }
  default: return (l+1.)/(r+2.); } }
static const char *seqtext(int (*v)[HMAX],int m){ static char t[600]; int l=0; for(int i=0;i<m&&l<500;i++){ l+=snprintf(t+l,600-l," "); for(int j=0;j<G->n;j++) l+=snprintf(t+l,600-l,"%d",v[i][j]); } t[l]=0; return t; }
static void unchanged(struct node_gra *net){ RG b; const char *e=rg_read(net,&b); if(e||(e=rg_diff(&b,G,1))) mc_fail("changed","the network was changed: %s",e); }
/* expected score of pair i,j in state k (k<0: link) over the partitions v[0..m) */
static double want(int kind,int i,int j,int k,int (*v)[HMAX],int m){ double s=0; int r,l; for(int q=0;q<m;q++){ if(kind==S_K){ int t=0,nk=0; for(int z=0;z<K;z++){ cnt(v[q],G->n,v[q][i],v[q][j],z,&r,&l); t+=l; if(z==k) nk=l; } s+=(nk+1.)/(t+K); } else { cnt(v[q],G->n,v[q][i],v[q][j],-1,&r,&l); s+=pred(kind,r,l); } } return s/m; }
static double **call(int kind,struct node_gra *net,double linC,int it,gsl_rng *g,char v){ switch(kind){ case S_MC: return LinkScore(net,linC,it,g,v); case S_GIBBS: return GibbsLinkScore(net,linC,it,g,v); case S_SPARSE: return SparseGibbsLinkScore(net,it,g,v); case S_MB: return LinkScoreMB(net,linC,it,g,v); case S_MBG: return GibbsLinkScoreMB(net,linC,it,g,v); case S_OR: return ORLinkScoreMB(net,linC,it,g,v); case S_ORG: return ORGibbsLinkScoreMB(net,linC,it,g,v); case S_OD: return LinkScoreMB_OD(net,linC,it,g,v); default: return GibbsLinkScoreMB_OD(net,linC,it,g,v); } }
static void check(int kind,double **s,int (*v)[HMAX],int m){ int n=G->n; for(int i=0;i<n;i++) for(int j=0;j<n;j++) if(i!=j){ double w=want(kind,i,j,-1,v,m); if(!(fabs(s[i][j]-w)<=2e-6)){ mc_fail("score","%s gives pair %d,%d the reliability %.9g instead of %.9g",nm[kind],i,j,s[i][j],w); return; } if(s[i][j]!=s[j][i]&&fabs(s[i][j]-s[j][i])>1e-12){ mc_fail("symmetry","%s is not symmetric for pair %d,%d",nm[kind],i,j); return; } if(!(s[i][j]>0&&s[i][j]<1)){ mc_fail("range","%s gives pair %d,%d %g",nm[kind],i,j,s[i][j]); return; } uint64_t o=(uint64_t)llround(w*1e7); mc_outcome(o*11+kind); } }
static void checkK(double **s,struct query **q,int nq,struct node_gra **nl,int (*v)[HMAX],int m){ int n=G->n,seen[HMAX][HMAX]={{0}}; if(nq!=n*(n-1)/2){ mc_fail("queries","%d pairs",nq); return; } for(int x=0;x<nq;x++){ int i=q[x]->n1->num,j=q[x]->n2->num; if(i<0||i>=n||j<0||j>=n||i==j||nl[i]!=q[x]->n1||nl[j]!=q[x]->n2||seen[i][j]){ mc_fail("queries","pair %d is %d,%d",x,i,j); return; } seen[i][j]=seen[j][i]=1; double t=0; for(int k=0;k<K;k++){ double w=want(S_K,i,j,k,v,m); t+=s[k][x]; if(!(fabs(s[k][x]-w)<=2e-6)){ mc_fail("score","pair %d,%d has probability %.9g of state %d instead of %.9g",i,j,s[k][x],k,w); return; } if(!(s[k][x]>0&&s[k][x]<1)&&K>1) mc_fail("range","probability %g",s[k][x]); } if(fabs(t-1)>1e-5) mc_fail("sum","probabilities of pair %d,%d add up to %g",i,j,t); } }
static double initdraw[HMAX]; static int effective(int m){ int s=0; for(int i=0;i<m;i++) if(scriptH[i]<-400) s=i; return s; }
static int degenerate(int kind){ int E=0,n=G->n; for(int i=0;i<n;i++) for(int j=i+1;j<n;j++) E+=G->has[i][j]; return kind==S_SPARSE&&(E==0||E==n*(n-1)/2); }
/* scripted run: init[] initial groups, script[0..nscript) */
static void run(int kind,const int *init,double linC,char v){ if(degenerate(kind)) return; int n=G->n; struct node_gra *nl[HMAX]; struct node_gra *net=rg_build(G,nl); mode=0; pos=0; sampling=0; 
  mc_case("%s, %s, mode %c, first groups %s, visiting%s",nm[kind],rg_text(G),v,seqtext((int(*)[HMAX])init,1),seqtext(script,nscript)); for(int i=0;i<n;i++) initdraw[i]=(init[i]+0.5)/n; mc_script(initdraw,n); mc_trans(1); mc_traces(1);
  if(kind==S_K){ struct query **q; int nq=-1; double **s=LSMultiLinkScoreKState(K,net,nscript-effective(nscript),mc_rng(),v,2,&q,&nq); if(pos!=nscript){ mc_fail("steps","%d samples instead of %d",pos,nscript); } else { int e=effective(nscript); checkK(s,q,nq,nl,script+e,nscript-e); } unchanged(net); for(int x=0;x<nq;x++) FreeQuery(q[x]); free(q); free_d_mat(s,K); }
  else { double **s=call(kind,net,linC,nscript,mc_rng(),v); if(pos!=nscript) mc_fail("steps","%d samples instead of %d",pos,nscript); else check(kind,s,script,nscript); unchanged(net); free_d_mat(s,n); }
  mc_script(NULL,0); RemoveGraph(net); }
static void lab(long c,int n,int *a){ for(int i=0;i<n;i++){ a[i]=c%n; c/=n; } }
static long ipow(long a,int b){ long r=1; while(b--) r*=a; return r; }
static void setK(RG *g,int n,long m,int k){ rg_init(g,n); for(int i=0;i<n;i++) for(int j=i+1;j<n;j++){ int w=m%(k+1)-1; m/=k+1; if(w>=0) rg_link(g,i,j,w); } K=k; }
static long nnet(int kind,int n,int k){ return kind==S_K? ipow(k+1,n*(n-1)/2) : 1L<<(n*(n-1)/2); }
static void getnet(RG *g,int kind,int n,int k,long m){ if(kind==S_K) setK(g,n,m,k); else rg_mask(g,n,m); G=g; }
#define A(kind,n,k,s,o) ((long)(kind)|(long)(n)<<4|(long)(k)<<8|(long)(s)<<12|(long)(o)<<24)
#define U int kind=arg&15,n=arg>>4&15,k=arg>>8&15,stride=arg>>12&4095,off=arg>>24&4095; RG g; long M=nnet(kind,n,k); long L=ipow(n,n); int init[HMAX]; (void)L; dec=1+off%3; static const double lin[]={0,0.7};
static void sec_one(long arg){ U; nscript=1; scriptH[0]=0; for(long m=off;m<M;m+=stride){ getnet(&g,kind,n,k,m); mc_states(1); for(long c=0;c<L;c++){ lab(c,n,script[0]); lab((c*7+m*3)%L,n,init); run(kind,init,lin[m%2],c%50==0?'v':c%51==0?'d':'q'); } for(long c=0;c<L;c++){ lab(c,n,init); lab((c*5+m)%L,n,script[0]); run(kind,init,0,'q'); } if(mc_timeup()){ mc_capped("time"); return; } } }
static void sec_two(long arg){ U; nscript=2; for(long m=off;m<M;m+=stride){ getnet(&g,kind,n,k,m); mc_states(1); long step=n>=4?(mc_thorough?5:37):1; for(long c=m%step;c<L*L;c+=step){ lab(c/L,n,script[0]); lab(c%L,n,script[1]); scriptH[0]=0; scriptH[1]=-3; if(kind==S_K&&c%3==0) scriptH[0]=-500; lab((c*11+m)%L,n,init); run(kind,init,0,'q'); } if(mc_timeup()){ mc_capped("time"); return; } } }
/* longer histories: all sequences over three partitions, with restarts for the K-state model */
static void sec_long(long arg){ U; for(long m=off;m<M;m+=stride){ getnet(&g,kind,n,k,m); mc_states(1); int P[3][HMAX]; for(int q=0;q<3;q++) lab((q*29+m*13+5)%L,n,P[q]); for(nscript=3;nscript<=(mc_thorough?6:5);nscript++) for(long c=0;c<ipow(3,nscript);c++){ long z=c; for(int i=0;i<nscript;i++){ memcpy(script[i],P[z%3],sizeof P[0]); scriptH[i]= (kind==S_K&&(c>>1)%4==1&&i==c%((nscript+1)/2))? -401 : -7*i; z/=3; } lab((c+m)%L,n,init); run(kind,init,0,'q'); } if(mc_timeup()){ mc_capped("time"); return; } } }
static void sec_big(long arg){ U; for(long m=0;m<6;m++){ if(kind==S_K){ rg_init(&g,n); K=k; for(int i=0;i<n;i++) for(int j=i+1;j<n;j++){ int w=(i*3+j*5+i*j+m)%(k+1)-1; if(w>=0) rg_link(&g,i,j,w); } } else { rg_init(&g,n); for(int i=0;i<n;i++) for(int j=i+1;j<n;j++) if(m==0||(m==1&&(i<n/2)==(j<n/2))||(m==2&&j==i+1)||(m==3&&i==0)||(m>3&&(i*7+j*5+m)%3==0)) rg_link(&g,i,j,1); } G=&g; mc_states(1); for(int q=0;q<40;q++){ nscript=1+q%6; for(int s=0;s<nscript;s++){ scriptH[s]=0; for(int i=0;i<n;i++) script[s][i]= q==0? 0 : q==1? i : q<6? (i/q)%n : (i*(q%5+1)+s*q+i*i*(q%3))%(1+q%n); } for(int i=0;i<n;i++) init[i]=(i*q+q/3)%n; run(kind,init,0,'q'); } } }
/* the real step, all draws explored within bounds */
static int ekind,eit; static struct node_gra *enl[HMAX]; static void ebody(void *v){ (void)v; struct node_gra *net=rg_build(G,enl); nvis=0; sampling=0; mc_trans(1); int n=G->n;
  if(ekind==S_K){ struct query **q; int nq; double **s=LSMultiLinkScoreKState(K,net,eit,mc_rng(),'q',mode==2?0:1,&q,&nq); int b=nvis-eit; if(b<0) mc_fail("steps","%d steps",nvis); else checkK(s,q,nq,enl,vis+b,eit); unchanged(net); for(int x=0;x<nq;x++) FreeQuery(q[x]); free(q); free_d_mat(s,K); }
  else { double **s=call(ekind,net,0,eit,mc_rng(),'q'); int b=nvis-eit; if(b<0) mc_fail("steps","%d steps",nvis); else check(ekind,s,vis+b,eit); unchanged(net); free_d_mat(s,n); }
  RemoveGraph(net); }
static int gibbs(int k){ return k==S_GIBBS||k==S_SPARSE||k==S_MBG||k==S_ORG||k==S_ODG; }
static void sec_real(long arg){ U; mode=1; static double al[8]; for(int i=0;i<n;i++) al[i]=(i+0.5)/n; al[n]=0; al[n+1]=1-1e-12; ekind=kind; for(long m=off;m<M;m+=stride){ getnet(&g,kind,n,k,m); if(degenerate(kind)) continue; mode=1; mc_states(1); for(eit=1;eit<=3;eit+=2){ mc_case("%s with the real step, %d samples, %s",nm[kind],eit,rg_text(G)); mc_rc.free_depth=n; mc_rc.max_dev=1; mc_rc.dev_horizon=n+(gibbs(kind)?6:12)+(mc_thorough?12:0); mc_rc.nalpha=n+2; mc_rc.alpha=al; mc_rc.hard_horizon=20000; mc_rc.seed=m+eit; mc_dfs(ebody,NULL); if(mc_timeup()){ mc_capped("time"); return; } } } }
/* everything real, a few default streams */
static void sec_full(long arg){ U; mode=2; ekind=kind; eit=20; for(long m=0;m<4;m++){ if((m==2&&kind>=S_MB)||(n<4&&m!=1)) continue; /* the decorrelation estimate of a small star does not settle */ if(kind==S_K){ rg_init(&g,n); K=k; for(int i=0;i<n;i++) for(int j=i+1;j<n;j++){ int w=(i*3+j*5+i*j+m)%(k+1)-1; if(w>=0) rg_link(&g,i,j,w); } } else { rg_init(&g,n); for(int i=0;i<n;i++) for(int j=i+1;j<n;j++) if((m==0&&(i<n/2)==(j<n/2))||(m==1&&j==i+1)||(m==2&&i==0)||(m>2&&(i*7+j*5+m)%3==0)) rg_link(&g,i,j,1); } G=&g; mc_states(1); for(int sd=0;sd<(mc_thorough?8:2);sd++){ mc_case("%s, nothing replaced, stream %d, %s",nm[kind],sd,rg_text(G)); mc_rc.free_depth=0; mc_rc.max_dev=0; mc_rc.dev_horizon=0; mc_rc.nalpha=0; mc_rc.hard_horizon=400000; mc_rc.seed=sd+1; mc_dfs(ebody,NULL); } } }
/* ---- whole-network reliability, sampled partitions ---- */
static double lnC(double r,double l){ return lgamma(r+1)-lgamma(l+1)-lgamma(r-l+1); }
static double lncontrib(const RG *o,const RG *t,const int *a){ int n=o->n,sz[HMAX]={0}; double e=0; for(int i=0;i<n;i++) sz[a[i]]++; for(int x=0;x<n;x++) for(int y=x;y<n;y++) if(sz[x]&&sz[y]){ int r,lo,lt; G=o; cnt(a,n,x,y,-1,&r,&lo); G=t; cnt(a,n,x,y,-1,&r,&lt); e+=log(r+1.)+lnC(r,lo)-log(2.*r+1)-lnC(2*r,lo+lt); } return e; }
double real_NetworkScore(struct node_gra*,struct node_gra*,double,int,gsl_rng*,char);
static void sec_network(long arg){ int n=arg&7,part=arg>>3&15,parts=arg>>7&15; long M=1L<<(n*(n-1)/2),L=ipow(n,n); RG o,t; for(long x=part;x<M;x+=parts) for(long y=0;y<M;y+=(n==4&&!mc_thorough?3:1)){ rg_mask(&o,n,x); rg_mask(&t,n,y); mc_states(1); for(long c=0;c<L;c+= n==4? 17 : 1) for(nscript=1;nscript<=2;nscript++){ lab(c,n,script[0]); lab((c*31+7*y+x)%L,n,script[1]); scriptH[0]=scriptH[1]=0; int init[HMAX]; lab((c+x+y)%L,n,init); G=&o; struct node_gra *N=rg_build(&o,NULL),*T=rg_build(&t,NULL); mode=0; pos=sampling=0; dec=1; for(int i=0;i<n;i++) initdraw[i]=(init[i]+0.5)/n; mc_script(initdraw,n); mc_case("NetworkScore, observed %s, target %s, visiting%s",rg_text(&o),rg_text(&t),seqtext(script,nscript)); mc_trans(1); mc_traces(1);
      double s=real_NetworkScore(T,N,0,nscript,mc_rng(),'q'); double a=0,b=0; for(int i=0;i<nscript;i++){ a+=exp(lncontrib(&o,&t,script[i])); b+=exp(lncontrib(&o,&o,script[i])); } if(pos!=nscript) mc_fail("steps","%d samples",pos); if(!mc_closet(s,a/b,1e-8)) mc_fail("network-score","is %.10g instead of %.10g",s,a/b); G=&o; unchanged(N); G=&t; unchanged(T); mc_outcome((uint64_t)llround(log(a/b)*1e7)); RemoveGraph(N); RemoveGraph(T); mc_script(NULL,0); if(mc_timeup()){ mc_capped("time"); return; } } } }
static void sec_sampling(long arg){ int n=arg&7; long M=1L<<(n*(n-1)/2),L=ipow(n,n); RG o; for(long x=0;x<M;x+=n>3?5:1){ rg_mask(&o,n,x); G=&o; mc_states(1); for(int burn=0;burn<3;burn++) for(int it=1;it<=3;it++) for(long c=0;c<L;c+=n>3?23:1){ nscript=burn+it; for(int i=0;i<nscript;i++){ lab((c*(i+1)*(i*13+1)+i*x)%L,n,script[i]); scriptH[i]=0; } struct node_gra *nl[HMAX],*N=rg_build(&o,nl); mode=0; pos=sampling=0; dec=3; for(int i=0;i<n;i++) initdraw[i]=((c+i)%n+0.5)/n; mc_script(initdraw,n); mc_case("PartitionSampling, %s, burn-in %d, %d samples, visiting%s",rg_text(&o),burn,it,seqtext(script,nscript)); mc_trans(1); mc_traces(1);
      struct group **P=PartitionSampling(N,0,it,mc_rng(),'q',burn,1); if(pos!=nscript) mc_fail("steps","%d steps",pos); for(int i=0;i<it;i++){ int a[HMAX]; for(int q=0;q<n;q++) a[q]=-1; struct group *g=P[i]; int bad=0,c2=0; while((g=g->next)!=NULL){ struct node_lis *l=g->nodeList; int z=0; while((l=l->next)!=NULL&&++c2<=n){ z++; int id=-1; for(int q=0;q<n;q++) if(!strcmp(o.lab[q],l->nodeLabel)) id=q; if(id<0||a[id]>=0) bad=1; else a[id]=g->label; } if(z!=g->size) bad=1; } for(int q=0;q<n;q++) if(a[q]<0) bad=1; for(int q=0;q<n&&!bad;q++) for(int w=0;w<n;w++) if((a[q]==a[w])!=(script[burn+i][q]==script[burn+i][w])) bad=1; if(bad){ mc_fail("sampled","partition %d returned is not the one visited",i); break; } }
      unchanged(N); for(int i=0;i<it;i++) RemovePartition(P[i]); free(P); RemoveGraph(N); mc_script(NULL,0); if(mc_timeup()){ mc_capped("time"); return; } } } }
static void add(const char *f,mc_fn fn,int kind,int n,int k,int stride,int off,int st){ for(int o=off;o<stride;o+=st){ char b[100]; snprintf(b,100,"%s/%s/n%d/k%d/%d",f,nm[kind],n,k,o); mc_section(b,fn,A(kind,n,k,stride,o)); } }
int main(int c,char **v){ const char *ti=getenv("VERIF_TIER"); int t=ti&&!strcmp(ti,"thorough"); char b[60]; stderr=fopen("/dev/null","w");
  for(int k=0;k<S_K;k++){ add("full",sec_full,k,10,0,1,0,1); if(k!=S_SPARSE) add("full",sec_full,k,2,0,1,0,1); add("full",sec_full,k,3,0,1,0,1); add("one",sec_one,k,2,0,1,0,1); add("one",sec_one,k,3,0,1,0,1); add("one",sec_one,k,4,0,2,0,1); add("two",sec_two,k,2,0,1,0,1); add("two",sec_two,k,3,0,1,0,1); add("two",sec_two,k,4,0,16,k,t?1:16); add("long",sec_long,k,3,0,1,0,1); add("long",sec_long,k,4,0,8,k%4,t?1:4); add("long",sec_long,k,5,0,256,k*7,t?16:256); add("big",sec_big,k,8,0,1,0,1); add("big",sec_big,k,9,0,1,0,1); add("real",sec_real,k,3,0,1,0,1); add("real",sec_real,k,4,0,16,k,t?4:16); }
  for(int k=2;k<=3;k++){ add("full",sec_full,S_K,10,k,1,0,1); add("full",sec_full,S_K,2,k,1,0,1); add("full",sec_full,S_K,3,k,1,0,1); add("one",sec_one,S_K,2,k,1,0,1); add("one",sec_one,S_K,3,k,1,0,1); add("one",sec_one,S_K,4,k,k==2?32:256,3,t?2:k==2?16:128); add("two",sec_two,S_K,2,k,1,0,1); add("two",sec_two,S_K,3,k,4,0,1); add("long",sec_long,S_K,3,k,2,0,1); add("long",sec_long,S_K,4,k,k==2?128:1024,5,t?32:1024); add("big",sec_big,S_K,8,k,1,0,1); add("real",sec_real,S_K,3,k,k==2?2:4,0,1); }
  for(int n=2;n<=3;n++){ sprintf(b,"network-score/%d",n); mc_section(b,sec_network,n|1<<7); } for(int p=0;p<8;p++){ sprintf(b,"network-score/4/%d",p); mc_section(b,sec_network,4|p<<3|8<<7); } for(int n=2;n<=4;n++){ sprintf(b,"sampled-partitions/%d",n); mc_section(b,sec_sampling,n); }
  return mc_main(c,v); }
