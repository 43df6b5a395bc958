/* smp.h - one-mode link samplers: common set-up, own energy functions, consistency checks */
#ifndef SMP_H
#define SMP_H
#include "hg.h"
#include "modules.h"
#include "tools.h"
#include "missing.h"
#include "multiblock.h"
#include "sparse_missing.h"
#include "st.h"
double PartitionHMB_OD(struct group *part,double linC,double *HarmonicList);
double LogDegeneracy(int); double LogDegeneracy_OD(int);
void LSMCStepMB_OD(int,double*,double,struct node_gra**,struct group**,struct group*,int,int**,int*,double**,int,double*,int,double*,gsl_rng*);
void GibbsLinkScoreStepMB_OD(double*,double,struct node_gra**,struct group**,struct group*,int,int**,int*,double**,int,double*,int,double*,gsl_rng*);
double SparsePartitionH(struct group *part,double a,double b);
void SparseGibbsLinkScoreStep(double*,struct node_gra**,struct group**,struct group*,int,int**,int*,double*,double*,double*,int,double*,int,double,double,gsl_rng*);
enum { S_MC, S_GIBBS, S_SPARSE, S_MB, S_MBG, S_OR, S_ORG, S_OD, S_ODG, S_NKIND };
static const char *s_name[]={"Metropolis","Gibbs","sparse Gibbs","AND Metropolis","AND Gibbs","OR Metropolis","OR Gibbs","degeneration-only Metropolis","degeneration-only Gibbs"};
typedef struct { int kind,n; RG g; double linC,a,b; int tabs; struct node_gra *net,*nl[HMAX]; struct group *part,*gl[HMAX]; int **G2G,*n2g; double H; double **lc,*lf,*hl,*ga,*gb,*gab; int start[HMAX]; } SM;
static double s_lnC(double r,double l){ return lgamma(r+1)-lgamma(l+1)-lgamma(r-l+1); }
/* log of the number of pairs of partitions of n groups whose meet is trivial: sum_k s(n,k) Bell(k)^2 */
static const double lndeg[]={
#include "lndeg.inc"
};
static double s_lndeg(int n){ return lndeg[n]; }
static double s_harm(int k){ double h=0; for(int i=1;i<=k;i++) h+=1.0/i; return h; }
static double s_pair(const SM *s,int r,int l){
  switch(s->kind){
  case S_SPARSE: return lgamma(r+s->a+s->b)-lgamma(l+s->a)-lgamma(r-l+s->b);
  case S_MB: case S_MBG: return log(r+1.)+s_lnC(r,l)-log(s_harm(r+1)-s_harm(l));
  case S_OR: case S_ORG: return log(r+1.)+s_lnC(r,l)-log(s_harm(r+1)-s_harm(r-l));
  default: return log(r+1.)+s_lnC(r,l); } }
/* energy of a partition without the labelling correction (a[i]: group of node i) */
static double s_energy0(const SM *s,const int *a,int *png){ int n=s->n; int sz[HMAX]={0},L[HMAX][HMAX]; memset(L,0,sizeof L); for(int i=0;i<n;i++) sz[a[i]]++;
  for(int i=0;i<n;i++) for(int j=i+1;j<n;j++) if(s->g.has[i][j]){ int x=a[i],y=a[j]; if(x>y){int t=x;x=y;y=t;} L[x][y]++; }
  double E=0; int ng=0; for(int x=0;x<n;x++){ if(sz[x]) ng++; for(int y=x;y<n;y++){ if(s->kind!=S_SPARSE && (!sz[x]||!sz[y])) continue; int r= x==y? sz[x]*(sz[x]-1)/2 : sz[x]*sz[y]; E+=s_pair(s,r,L[x][y]); } }
  if(s->kind!=S_SPARSE) E+=s->linC*ng;
  if(s->kind>=S_MB) E-=s_lndeg(ng);
  if(png) *png=ng; return E; }
static double s_energy(const SM *s,const int *a){ int ng; double e=s_energy0(s,a,&ng); return e-lgamma(s->n-ng+1.); }
static double s_libenergy(SM *s){ switch(s->kind){ case S_SPARSE: return SparsePartitionH(s->part,s->a,s->b); case S_MB: case S_MBG: return PartitionHMB(s->part,s->linC,s->hl); case S_OR: case S_ORG: return ORPartitionHMB(s->part,s->linC,s->hl); case S_OD: case S_ODG: return PartitionHMB_OD(s->part,s->linC,s->hl); default: return PartitionH(s->part,s->linC); } }
static void s_get(const SM *s,int *a){ for(int i=0;i<s->n;i++) a[i]=s->nl[i]->inGroup; }
static void s_open(SM *s,int kind,const RG *g,double linC,int tabs){ memset(s,0,sizeof *s); s->kind=kind; s->g=*g; s->n=g->n; s->linC=linC; s->a=0.3; s->b=0.5; s->tabs=tabs; int n=s->n;
  s->net=rg_build(g,s->nl); struct group *last=s->part=CreateHeaderGroup(); for(int i=0;i<n;i++) last=s->gl[i]=CreateGroup(last,i);
  ResetNetGroup(s->net); for(int i=0;i<n;i++) AddNodeToGroup(s->gl[i],s->nl[i]);
  s->G2G=allocate_i_mat(n,n); s->n2g=calloc(n,sizeof(int)); s->lc=InitializeFastLogChoose(tabs); s->lf=InitializeFastLogFact(tabs); s->hl=InitializeHarmonicList(3+n*(n-1)/2);
  s->ga=InitializeFastLogGamma(tabs,s->a); s->gb=InitializeFastLogGamma(tabs,s->b); s->gab=InitializeFastLogGamma(tabs,s->a+s->b); }
static void s_close(SM *s){ int n=s->n; RemovePartition(s->part); RemoveGraph(s->net); free_i_mat(s->G2G,n); free(s->n2g); FreeFastLogChoose(s->lc,s->tabs); FreeFastLogFact(s->lf); FreeHarmonicList(s->hl); FreeFastLogGamma(s->ga); FreeFastLogGamma(s->gb); FreeFastLogGamma(s->gab); }
static void s_set(SM *s,const int *a){ int n=s->n; for(int i=0;i<n;i++) if(s->nl[i]->inGroup!=a[i]) MoveNode(s->nl[i],s->gl[s->nl[i]->inGroup],s->gl[a[i]]);
  for(int i=0;i<n;i++){ s->n2g[i]=0; for(int j=0;j<n;j++) s->G2G[i][j]=0; }
  for(int i=0;i<n;i++) for(int j=i+1;j<n;j++) if(s->g.has[i][j]){ int x=a[i],y=a[j]; s->G2G[x][y]++; if(x!=y) s->G2G[y][x]++; }
  s->H=s_energy(s,a); }
static void s_step(SM *s,gsl_rng *r){ double *H=&s->H; int n=s->n,t=s->tabs;
  switch(s->kind){
  case S_MC: LinkScoreMCStep(1,H,s->linC,s->nl,s->gl,s->part,n,s->G2G,s->n2g,s->lc,t,s->lf,t,r); break;
  case S_GIBBS: GibbsLinkScoreStep(H,s->linC,s->nl,s->gl,s->part,n,s->G2G,s->n2g,s->lc,t,s->lf,t,r); break;
  case S_SPARSE: SparseGibbsLinkScoreStep(H,s->nl,s->gl,s->part,n,s->G2G,s->n2g,s->ga,s->gb,s->gab,t,s->lf,t,s->a,s->b,r); break;
  case S_MB: LSMCStepMB(1,H,s->linC,s->nl,s->gl,s->part,n,s->G2G,s->n2g,s->lc,t,s->lf,t,s->hl,r); break;
  case S_MBG: GibbsLinkScoreStepMB(H,s->linC,s->nl,s->gl,s->part,n,s->G2G,s->n2g,s->lc,t,s->lf,t,s->hl,r); break;
  case S_OR: ORLSMCStepMB(1,H,s->linC,s->nl,s->gl,s->part,n,s->G2G,s->n2g,s->lc,t,s->lf,t,s->hl,r); break;
  case S_ORG: ORGibbsLinkScoreStepMB(H,s->linC,s->nl,s->gl,s->part,n,s->G2G,s->n2g,s->lc,t,s->lf,t,s->hl,r); break;
  case S_OD: LSMCStepMB_OD(1,H,s->linC,s->nl,s->gl,s->part,n,s->G2G,s->n2g,s->lc,t,s->lf,t,s->hl,r); break;
  case S_ODG: GibbsLinkScoreStepMB_OD(H,s->linC,s->nl,s->gl,s->part,n,s->G2G,s->n2g,s->lc,t,s->lf,t,s->hl,r); break; } }
static const char *s_ptext(const int *a,int n){ static char b[8][80]; static int r; char *t=b[r++%8]; int l=0; for(int i=0;i<n;i++) l+=snprintf(t+l,80-l,"%s%d",i?",":"",a[i]); return t; }
/* everything the step must keep exact */
static void s_check(SM *s){ int n=s->n,a[HMAX]; s_get(s,a);
  for(int i=0;i<n;i++) if(a[i]<0||a[i]>=n){ mc_fail("state","node %d is in group %d",i,a[i]); return; }
  int sz[HMAX]={0}; for(int i=0;i<n;i++) sz[a[i]]++;
  for(int x=0;x<n;x++){ struct group *g=s->gl[x]; if(g->size!=sz[x]) { mc_fail("state","group %d has size %d instead of %d after a %s step",x,g->size,sz[x],s_name[s->kind]); return; } int c=0; struct node_lis *p=g->nodeList; while((p=p->next)!=NULL){ if(++c>n||a[p->node]!=x||p->ref!=s->nl[p->node]){ mc_fail("state","member list of group %d is wrong after a %s step",x,s_name[s->kind]); return; } } if(c!=sz[x]){ mc_fail("state","group %d lists %d of %d members",x,c,sz[x]); return; } }
  for(int x=0;x<n;x++) for(int y=0;y<n;y++){ int L=0; for(int i=0;i<n;i++) for(int j=i+1;j<n;j++) if(s->g.has[i][j]&&((a[i]==x&&a[j]==y)||(x!=y&&a[i]==y&&a[j]==x))) L++; if(x==y && s->gl[x]->inlinks!=L){ mc_fail("state","group %d has %d inner links instead of %d after a %s step",x,s->gl[x]->inlinks,L,s_name[s->kind]); return; } if(s->G2G[x][y]!=L){ mc_fail("counts","count of links between groups %d and %d is %d instead of %d after a %s step to %s",x,y,s->G2G[x][y],L,s_name[s->kind],s_ptext(a,n)); return; } }
  double e=s_energy(s,a),le=s_libenergy(s);
  if(!mc_closet(s->H,e,1e-7)) mc_fail("energy","energy carried along is %.10g but that of partition %s is %.10g after a %s step",s->H,s_ptext(a,n),e,s_name[s->kind]);
  if(!mc_closet(le,e,1e-7)) mc_fail("function","energy function gives %.10g instead of %.10g for partition %s (%s)",le,e,s_ptext(a,n),s_name[s->kind]); }
/* ---- unlabelled states ---- */
static int s_np; static int s_part[900][HMAX];
static int s_canon(const int *a,int n,int *c){ int mp[HMAX],k=0; memset(mp,-1,sizeof mp); for(int i=0;i<n;i++){ if(mp[a[i]]<0) mp[a[i]]=k++; c[i]=mp[a[i]]; } return k; }
static void s_enum(int n){ int a[HMAX]={0}; s_np=0; do { memcpy(s_part[s_np++],a,sizeof a); } while(mc_next_rgs(a,n)); }
static int s_index(const int *a,int n){ int c[HMAX]={0}; s_canon(a,n,c); for(int i=0;i<s_np;i++) if(!memcmp(s_part[i],c,n*sizeof(int))) return i; return -1; }
/* ---- distribution of a step ---- */
static void s_streset(void *v){ SM *s=v; s_set(s,s->start); }
static void s_ststep(void *v,gsl_rng *r){ s_step(v,r); }
static uint64_t s_stsig(void *v){ SM *s=v; uint64_t h=0; for(int i=0;i<s->n;i++) h=h*HMAX+s->nl[i]->inGroup; return h; }
static int s_stfinal(void *v){ SM *s=v; int a[HMAX]; s_get(s,a); return s_index(a,s->n); }
/* the step leaves exp(-energy) over partitions invariant and can reach every partition.  lab: label arrangement */
static void s_invariant(SM *s,int lab,int nprobe){ int n=s->n; s_enum(n); int m=s_np; double *T=calloc(m*m,sizeof(double)),pi[900],z=0; double e0=s_energy0(s,s_part[0],NULL);
  ST st={s_streset,s_ststep,s_stsig,s_stfinal,s,nprobe}; st_leaves=st_branch=st_runs=0;
  for(int i=0;i<m;i++){ pi[i]=exp(-(s_energy0(s,s_part[i],NULL)-e0)); z+=pi[i]; }
  for(int i=0;i<m;i++){ for(int k=0;k<n;k++){ int x=s_part[i][k]; s->start[k]= lab==0? x : lab==1? n-1-x : (x+1)%n; } mc_case("%s step, %s, linC=%g, from partition %s",s_name[s->kind],rg_text(&s->g),s->linC,s_ptext(s->start,n));
    st_tree(&st,T+i*m,m); double sum=0; for(int j=0;j<m;j++) sum+=T[i*m+j]; if(fabs(sum-1)>1e-7) mc_fail("mass","transition probabilities add up to %g",sum); }
  mc_case("%s step, %s, linC=%g",s_name[s->kind],rg_text(&s->g),s->linC);
  for(int j=0;j<m;j++){ double f=0; for(int i=0;i<m;i++) f+=pi[i]/z*T[i*m+j]; if(fabs(f-pi[j]/z)>1e-6) { mc_fail("invariant","partition %s has probability %.9g but after one %s step %.9g",s_ptext(s_part[j],n),pi[j]/z,s_name[s->kind],f); break; } }
  st_forget(); if(n<3) { mc_states(m); mc_trans(st_runs); mc_traces(st_leaves+st_branch); free(T); return; }
  char r[900]={0}; int ch=1; r[0]=1; while(ch){ ch=0; for(int i=0;i<m;i++) if(r[i]) for(int j=0;j<m;j++) if(!r[j]&&T[i*m+j]>1e-12) r[j]=1,ch=1; }
  for(int j=0;j<m;j++) if(!r[j]) { mc_fail("unreachable","partition %s is never reached by %s steps",s_ptext(s_part[j],n),s_name[s->kind]); break; }
  mc_states(m); mc_trans(st_runs); mc_traces(st_leaves+st_branch); free(T); }
/* ---- all outcomes of steps from one state ---- */
static int s_nsteps; 
static void s_body(void *v){ SM *s=v; s_set(s,s->start); mc_trans(1); for(int k=0;k<s_nsteps;k++){ s_step(s,mc_rng()); s_check(s); } int a[HMAX]; s_get(s,a); mc_outcome(mc_hash(a,s->n*sizeof(int))); }
static void s_explore(SM *s,const int *a,int nsteps,int fd,int dev,int hor,unsigned seed){ static double al[HMAX+2]; int n=s->n; memcpy(s->start,a,n*sizeof(int)); for(int i=0;i<n;i++) al[i]=(i+0.5)/n; al[n]=0; al[n+1]=1-1e-15;
  mc_rc.free_depth=fd; mc_rc.max_dev=dev; mc_rc.dev_horizon=hor; mc_rc.nalpha=n+2; mc_rc.alpha=al; mc_rc.hard_horizon=5000; mc_rc.seed=seed; s_nsteps=nsteps;
  mc_case("%s, %d steps, %s, linC=%g, tables of %d, from %s",s_name[s->kind],nsteps,rg_text(&s->g),s->linC,s->tabs,s_ptext(a,n)); mc_states(1); mc_dfs(s_body,s); }
#endif
