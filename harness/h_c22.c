/* C22: recommender samplers (two-state, K-state, Gibbs) and the K-state link sampler */
#define HMAX 8
#include "hg.h"
#include "modules.h"
#include "bipartite.h"
#include "tools.h"
#include "missing.h"
#include "recommend.h"
#include "hb.h"
#include "st.h"
enum { R_2, R_K, R_G, R_L };
static const char *rn[]={"2-state","K-state","K-state Gibbs","K-state link"};
#define N 6
typedef struct { int kind,K,n1,n2,tabs; int w[N][N]; /* -1: unobserved */
  struct binet *B; struct node_gra *net,*x[N],*y[N]; struct group *p1,*p2,*g1[N],*g2[N]; int **NA[4],**NB[4],**GA[4],**GB[4]; int ***pN,***pG; double H; int ng1,ng2; double *ll,**lc,*lf; int s1[N],s2[N]; } RS;
static const char *rtext(const RS *r){ static char b[2][400]; static int q; char *t=b[q++%2]; int l=snprintf(t,400,"K=%d %d%s%.0d nodes, ratings",r->K,r->n1,r->kind==R_L?"":"+",r->kind==R_L?0:r->n2); for(int i=0;i<r->n1;i++){ l+=snprintf(t+l,400-l," "); for(int j=0;j<r->n2;j++) l+=snprintf(t+l,400-l,"%c",r->w[i][j]<0?'.':'0'+r->w[i][j]); } return t; }
static const char *stext(const RS *r,const int *a,const int *b){ static char t[4][120]; static int q; char *s=t[q++%4]; int l=0; for(int i=0;i<r->n1;i++) l+=snprintf(s+l,120-l,"%d",a[i]); if(r->kind!=R_L){ l+=snprintf(s+l,120-l,"|"); for(int j=0;j<r->n2;j++) l+=snprintf(s+l,120-l,"%d",b[j]); } return s; }
static double lf(double x){ return lgamma(x+1); }
static double epair(const RS *r,const int *nk){ int n=0; double e=0; for(int k=0;k<r->K;k++){ n+=nk[k]; e-=lf(nk[k]); } if(r->kind==R_2) return log(n+1.)+lf(n)+e; return lf(n+r->K-1)+e; }
static int distinct(const int *a,int n){ int c=0; for(int i=0;i<n;i++){ int f=1; for(int j=0;j<i;j++) if(a[j]==a[i]) f=0; c+=f; } return c; }
static void count(const RS *r,const int *a,const int *b,int x,int y,int *nk){ for(int k=0;k<4;k++) nk[k]=0; if(r->kind==R_L){ for(int i=0;i<r->n1;i++) for(int j=i+1;j<r->n1;j++) if(r->w[i][j]>=0&&((a[i]==x&&a[j]==y)||(a[i]==y&&a[j]==x))) nk[r->w[i][j]]++; } else for(int i=0;i<r->n1;i++) for(int j=0;j<r->n2;j++) if(r->w[i][j]>=0&&a[i]==x&&b[j]==y) nk[r->w[i][j]]++; }
static double energy0(const RS *r,const int *a,const int *b){ double e=0; int nk[4]; for(int x=0;x<r->n1;x++) for(int y=r->kind==R_L?x:0;y<(r->kind==R_L?r->n1:r->n2);y++){ count(r,a,b,x,y,nk); e+=epair(r,nk); } return e; }
static double energy(const RS *r,const int *a,const int *b){ double e=energy0(r,a,b)-lf(r->n1-distinct(a,r->n1)); if(r->kind!=R_L) e-=lf(r->n2-distinct(b,r->n2)); return e; }
static double libenergy(RS *r){ return r->kind==R_2? H2State(r->p1,r->p2) : r->kind==R_L? LSHKState(r->K,r->p1) : HKState(r->K,r->p1,r->p2); }
static void ropen(RS *r){ int n1=r->n1,n2=r->n2; 
  if(r->kind==R_L){ RG g; rg_init(&g,n1); for(int i=0;i<n1;i++) for(int j=i+1;j<n1;j++) if(r->w[i][j]>=0) rg_link(&g,i,j,r->w[i][j]); r->net=rg_build(&g,r->x); struct group *l=r->p1=CreateHeaderGroup(); for(int i=0;i<n1;i++) l=r->g1[i]=CreateGroup(l,i); ResetNetGroup(r->net); for(int i=0;i<n1;i++) AddNodeToGroup(r->g1[i],r->x[i]); r->pN=calloc(r->K,sizeof(int**)); r->pG=calloc(r->K,sizeof(int**)); for(int k=0;k<r->K;k++){ r->pN[k]=allocate_i_mat(n1,n1); r->pG[k]=allocate_i_mat(n1,n1); } }
  else { BG b; bg_init(&b,n1,n2); for(int i=0;i<n1;i++) for(int j=0;j<n2;j++) if(r->w[i][j]>=0){ b.has[i][j]=1; b.w[i][j]=r->w[i][j]; } r->B=bg_build(&b,r->x,r->y); struct group *l=r->p1=CreateHeaderGroup(); for(int i=0;i<n1;i++) l=r->g1[i]=CreateGroup(l,i); l=r->p2=CreateHeaderGroup(); for(int i=0;i<n2;i++) l=r->g2[i]=CreateGroup(l,i); ResetNetGroup(r->B->net1); ResetNetGroup(r->B->net2); for(int i=0;i<n1;i++) AddNodeToGroup(r->g1[i],r->x[i]); for(int i=0;i<n2;i++) AddNodeToGroup(r->g2[i],r->y[i]);
    for(int k=0;k<r->K;k++){ r->NA[k]=allocate_i_mat(n1,n2); r->NB[k]=allocate_i_mat(n2,n1); r->GA[k]=allocate_i_mat(n1,n2); r->GB[k]=allocate_i_mat(n2,n1); } }
  r->ll=InitializeFastLog(r->tabs); r->lc=InitializeFastLogChoose(r->tabs); r->lf=InitializeFastLogFact(r->tabs); }
static void rclose(RS *r){ int n1=r->n1,n2=r->n2; RemovePartition(r->p1); if(r->kind==R_L){ RemoveGraph(r->net); for(int k=0;k<r->K;k++){ free_i_mat(r->pN[k],n1); free_i_mat(r->pG[k],n1); } free(r->pN); free(r->pG); } else { RemovePartition(r->p2); RemoveBipart(r->B); for(int k=0;k<r->K;k++){ free_i_mat(r->NA[k],n1); free_i_mat(r->NB[k],n2); free_i_mat(r->GA[k],n1); free_i_mat(r->GB[k],n2); } } FreeFastLog(r->ll); FreeFastLogChoose(r->lc,r->tabs); FreeFastLogFact(r->lf); }
static void rset(RS *r,const int *a,const int *b){ int n1=r->n1,n2=r->n2,nk[4]; for(int i=0;i<n1;i++) if(r->x[i]->inGroup!=a[i]) MoveNode(r->x[i],r->g1[r->x[i]->inGroup],r->g1[a[i]]); 
  if(r->kind!=R_L) for(int j=0;j<n2;j++) if(r->y[j]->inGroup!=b[j]) MoveNode(r->y[j],r->g2[r->y[j]->inGroup],r->g2[b[j]]);
  r->ng1=distinct(a,n1); r->ng2=r->kind==R_L?0:distinct(b,n2);
  if(r->kind==R_L){ for(int k=0;k<r->K;k++) for(int i=0;i<n1;i++) for(int x=0;x<n1;x++){ int c=0; for(int j=0;j<n1;j++) if(a[j]==x){ int w= i<j? r->w[i][j] : j<i? r->w[j][i] : -1; if(w==k) c++; } r->pN[k][i][x]=c; } for(int x=0;x<n1;x++) for(int y=0;y<n1;y++){ count(r,a,b,x,y,nk); for(int k=0;k<r->K;k++) r->pG[k][x][y]=nk[k]; } }
  else { for(int k=0;k<r->K;k++){ for(int i=0;i<n1;i++) for(int y=0;y<n2;y++){ int c=0; for(int j=0;j<n2;j++) if(b[j]==y&&r->w[i][j]==k) c++; r->NA[k][i][y]=c; } for(int j=0;j<n2;j++) for(int x=0;x<n1;x++){ int c=0; for(int i=0;i<n1;i++) if(a[i]==x&&r->w[i][j]==k) c++; r->NB[k][j][x]=c; } } for(int x=0;x<n1;x++) for(int y=0;y<n2;y++){ count(r,a,b,x,y,nk); for(int k=0;k<r->K;k++) r->GA[k][x][y]=r->GB[k][y][x]=nk[k]; } }
  r->H=energy(r,a,b); }
static void rstep(RS *r,gsl_rng *g){ int t=r->tabs,n1=r->n1,n2=r->n2; switch(r->kind){
  case R_2: MCStep2State(1,&r->H,r->x,r->y,r->g1,r->g2,r->p1,r->p2,n1,n2,&r->ng1,&r->ng2,r->NA[0],r->NB[0],r->NA[1],r->NB[1],r->GA[0],r->GB[0],r->GA[1],r->GB[1],r->ll,t,r->lc,t,r->lf,t,g); break;
  case R_K: MCStepKState(r->K,1,&r->H,r->x,r->y,r->g1,r->g2,r->p1,r->p2,n1,n2,&r->ng1,&r->ng2,r->NA,r->NB,r->GA,r->GB,r->ll,t,r->lf,t,g); break;
  case R_G: GibbsStepKState(r->K,&r->H,r->x,r->y,r->g1,r->g2,r->p1,r->p2,n1,n2,&r->ng1,&r->ng2,r->NA,r->NB,r->GA,r->GB,r->ll,t,r->lf,t,g); break;
  case R_L: LSMCStepKState(r->K,1,&r->H,r->x,r->g1,r->p1,n1,&r->ng1,&r->pN,&r->pG,r->ll,t,r->lf,t,g); break; } }
static void rget(const RS *r,int *a,int *b){ for(int i=0;i<r->n1;i++) a[i]=r->x[i]->inGroup; if(r->kind!=R_L) for(int j=0;j<r->n2;j++) b[j]=r->y[j]->inGroup; }
static int chkgroups(struct group **g,struct node_gra **x,const int *a,int n){ for(int q=0;q<n;q++){ int c=0,m=0; for(int i=0;i<n;i++) m+=a[i]==q; struct node_lis *p=g[q]->nodeList; while((p=p->next)!=NULL) if(++c>n||p->node<0||p->node>=n||a[p->node]!=q||p->ref!=x[p->node]) return 1; if(c!=m||g[q]->size!=m) return 1; } return 0; }
static void rcheck(RS *r){ int a[N],b[N]={0},n1=r->n1,n2=r->n2,nk[4]; rget(r,a,b); const char *nm=rn[r->kind];
  for(int i=0;i<n1;i++) if(a[i]<0||a[i]>=n1){ mc_fail("state","node in group %d",a[i]); return; } if(r->kind!=R_L) for(int i=0;i<n2;i++) if(b[i]<0||b[i]>=n2){ mc_fail("state","node in group %d",b[i]); return; }
  if(chkgroups(r->g1,r->x,a,n1)||(r->kind!=R_L&&chkgroups(r->g2,r->y,b,n2))){ mc_fail("state","groups and nodes disagree after a %s step to %s",nm,stext(r,a,b)); return; }
  if(r->ng1!=distinct(a,n1)||(r->kind!=R_L&&r->ng2!=distinct(b,n2))){ mc_fail("groups","number of groups is %d,%d after a %s step to %s",r->ng1,r->ng2,nm,stext(r,a,b)); return; }
  if(r->kind==R_L){ for(int x=0;x<n1;x++) for(int y=0;y<n1;y++){ count(r,a,b,x,y,nk); for(int k=0;k<r->K;k++) if(r->pG[k][x][y]!=nk[k]){ mc_fail("counts","groups %d and %d have %d links of state %d instead of %d after a %s step to %s",x,y,r->pG[k][x][y],k,nk[k],nm,stext(r,a,b)); return; } } for(int k=0;k<r->K;k++) for(int i=0;i<n1;i++) for(int x=0;x<n1;x++){ int c=0; for(int j=0;j<n1;j++) if(a[j]==x&&(i<j?r->w[i][j]:j<i?r->w[j][i]:-1)==k) c++; if(r->pN[k][i][x]!=c){ mc_fail("counts","node %d has %d links of state %d to group %d instead of %d after a %s step to %s",i,r->pN[k][i][x],k,x,c,nm,stext(r,a,b)); return; } } }
  else { for(int x=0;x<n1;x++) for(int y=0;y<n2;y++){ count(r,a,b,x,y,nk); for(int k=0;k<r->K;k++) if(r->GA[k][x][y]!=nk[k]||r->GB[k][y][x]!=nk[k]){ mc_fail("counts","groups %d and %d have %d/%d ratings %d instead of %d after a %s step to %s",x,y,r->GA[k][x][y],r->GB[k][y][x],k,nk[k],nm,stext(r,a,b)); return; } }
    for(int k=0;k<r->K;k++){ for(int i=0;i<n1;i++) for(int y=0;y<n2;y++){ int c=0; for(int j=0;j<n2;j++) if(b[j]==y&&r->w[i][j]==k) c++; if(r->NA[k][i][y]!=c){ mc_fail("counts","first-set node %d has %d ratings %d in group %d instead of %d after a %s step to %s",i,r->NA[k][i][y],k,y,c,nm,stext(r,a,b)); return; } } for(int j=0;j<n2;j++) for(int x=0;x<n1;x++){ int c=0; for(int i=0;i<n1;i++) if(a[i]==x&&r->w[i][j]==k) c++; if(r->NB[k][j][x]!=c){ mc_fail("counts","second-set node %d has %d ratings %d in group %d instead of %d after a %s step to %s",j,r->NB[k][j][x],k,x,c,nm,stext(r,a,b)); return; } } } }
  double e=energy(r,a,b),le=libenergy(r); if(!mc_closet(r->H,e,1e-7)) mc_fail("energy","energy carried along is %.10g but that of %s is %.10g after a %s step",r->H,stext(r,a,b),e,nm); if(!mc_closet(le,e,1e-7)) mc_fail("function","energy function gives %.10g instead of %.10g for %s (%s)",le,e,stext(r,a,b),nm); }
/* ---- exploration ---- */
static int nsteps; static void body(void *v){ RS *r=v; rset(r,r->s1,r->s2); mc_trans(1); for(int k=0;k<nsteps;k++){ rstep(r,mc_rng()); rcheck(r); } int a[2*N]={0}; rget(r,a,a+N); mc_outcome(mc_hash(a,sizeof a)); }
static void explore(RS *r,int st,int fd,int dev,int hor,unsigned seed){ static double al[20]; int na=0; int d[]={r->n1,r->kind==R_L?r->n1:r->n2}; for(int q=0;q<2;q++) for(int i=0;i<d[q];i++){ double v=(i+0.5)/d[q]; int f=0; for(int j=0;j<na;j++) if(fabs(al[j]-v)<1e-9) f=1; if(!f) al[na++]=v; } al[na++]=0; al[na++]=1-1e-15;
  mc_rc.free_depth=fd; mc_rc.max_dev=dev; mc_rc.dev_horizon=hor; mc_rc.nalpha=na; mc_rc.alpha=al; mc_rc.hard_horizon=5000; mc_rc.seed=seed; nsteps=st; mc_case("%s sampler, %d steps, %s, tables of %d, from %s",rn[r->kind],st,rtext(r),r->tabs,stext(r,r->s1,r->s2)); mc_states(1); mc_dfs(body,r); }
static void sreset(void *v){ RS *r=v; rset(r,r->s1,r->s2); } static void sstep(void *v,gsl_rng *g){ rstep(v,g); }
static uint64_t ssig(void *v){ RS *r=v; uint64_t h=0; for(int i=0;i<r->n1;i++) h=h*N+r->x[i]->inGroup; if(r->kind!=R_L) for(int i=0;i<r->n2;i++) h=h*N+r->y[i]->inGroup; return h; }
static int pa[60][N],npa,pb[60][N],npb;
static void enumparts(int (*p)[N],int *np,int n){ int a[N]={0}; *np=0; do memcpy(p[(*np)++],a,sizeof a); while(mc_next_rgs(a,n)); }
static int idx(int (*p)[N],int np,const int *a,int n){ int mp[N],c[N]={0},k=0; memset(mp,-1,sizeof mp); for(int i=0;i<n;i++){ if(mp[a[i]]<0) mp[a[i]]=k++; c[i]=mp[a[i]]; } for(int q=0;q<np;q++) if(!memcmp(p[q],c,n*sizeof(int))) return q; return -1; }
static int sfinal(void *v){ RS *r=v; int a[N],b[N]; rget(r,a,b); int i=idx(pa,npa,a,r->n1); if(r->kind==R_L) return i; int j=idx(pb,npb,b,r->n2); return i<0||j<0?-1:i*npb+j; }
static void invariant(RS *r,int lab,int nprobe){ enumparts(pa,&npa,r->n1); if(r->kind==R_L){ npb=1; memset(pb,0,sizeof pb); } else enumparts(pb,&npb,r->n2); int m=npa*npb; double *T=calloc(m*m,sizeof(double)),*pi=calloc(m,sizeof(double)),z=0; ST st={sreset,sstep,ssig,sfinal,r,nprobe}; st_leaves=st_branch=st_runs=0; double e0=energy0(r,pa[0],pb[0]);
  for(int i=0;i<m;i++){ pi[i]=exp(-(energy0(r,pa[i/npb],pb[i%npb])-e0)); z+=pi[i]; }
  for(int i=0;i<m;i++){ for(int k=0;k<r->n1;k++){ int x=pa[i/npb][k]; r->s1[k]=lab==0?x:lab==1?r->n1-1-x:(x+1)%r->n1; } if(r->kind!=R_L) for(int k=0;k<r->n2;k++){ int x=pb[i%npb][k]; r->s2[k]=lab==0?x:lab==1?r->n2-1-x:(x+1)%r->n2; } mc_case("%s step, %s, from %s",rn[r->kind],rtext(r),stext(r,r->s1,r->s2)); st_tree(&st,T+i*m,m); double s=0; for(int j=0;j<m;j++) s+=T[i*m+j]; if(fabs(s-1)>1e-7) mc_fail("mass","transition probabilities add up to %g",s); }
  mc_case("%s step, %s",rn[r->kind],rtext(r));
  for(int j=0;j<m;j++){ double f=0; for(int i=0;i<m;i++) f+=pi[i]/z*T[i*m+j]; if(fabs(f-pi[j]/z)>1e-6){ mc_fail("invariant","state %s has probability %.9g but after one %s step %.9g",stext(r,pa[j/npb],pb[j%npb]),pi[j]/z,rn[r->kind],f); break; } }
  mc_states(m); mc_trans(st_runs); mc_traces(st_leaves+st_branch); st_forget(); free(T); free(pi); }
static void ratings(RS *r,long m){ for(int i=0;i<N;i++) for(int j=0;j<N;j++) r->w[i][j]=-1; if(r->kind==R_L){ for(int i=0;i<r->n1;i++) for(int j=i+1;j<r->n1;j++){ r->w[i][j]=m%(r->K+1)-1; m/=r->K+1; } } else for(int i=0;i<r->n1;i++) for(int j=0;j<r->n2;j++){ r->w[i][j]=m%(r->K+1)-1; m/=r->K+1; } }
static long nrat(int kind,int K,int n1,int n2){ long c=1; int p=kind==R_L?n1*(n1-1)/2:n1*n2; while(p--) c*=K+1; return c; }
#define ARG(kind,K,n1,n2,extra) ((kind)|(K)<<3|(n1)<<6|(n2)<<9|(long)(extra)<<12)
static void setup(RS *r,long arg){ memset(r,0,sizeof *r); r->kind=arg&7; r->K=arg>>3&7; r->n1=arg>>6&7; r->n2=arg>>9&7; if(r->kind==R_L) r->n2=r->n1; }
static long pw(long a,int b){ long r=1; while(b--) r*=a; return r; }
/* all ratings x all labelled partitions (extra: stride, share, depth code) */
static void sec_ex(long arg){ RS r; setup(&r,arg); int stride=arg>>12&0xfff, off=arg>>24&0xfff, all=arg>>36&1; long M=nrat(r.kind,r.K,r.n1,r.n2); int gibbs=r.kind==R_G;
  for(long m=off;m<M;m+=stride){ r.tabs=m%2?40:2; ratings(&r,m); ropen(&r);
    if(all){ long A=pw(r.n1,r.n1),B=r.kind==R_L?1:pw(r.n2,r.n2); for(long s=0;s<A*B;s++){ long t=s; for(int i=0;i<r.n1;i++){ r.s1[i]=t%r.n1; t/=r.n1; } if(r.kind!=R_L) for(int i=0;i<r.n2;i++){ r.s2[i]=t%r.n2; t/=r.n2; } explore(&r,1,gibbs?2:(mc_thorough?4:3),1,gibbs?6:10,1); explore(&r,3,0,1,gibbs?10:20,m); if(mc_timeup()) break; } }
    else { enumparts(pa,&npa,r.n1); if(r.kind==R_L) npb=1; else enumparts(pb,&npb,r.n2); for(int i=0;i<npa;i++) for(int j=0;j<npb;j++){ for(int q=0;q<N;q++){ r.s1[q]=(m&1)&&q<r.n1?r.n1-1-pa[i][q]:pa[i][q]; r.s2[q]=(m&2)&&q<r.n2&&r.kind!=R_L?r.n2-1-pb[j][q]:pb[j][q]; } explore(&r,1,gibbs?0:1,1,gibbs?6:mc_thorough?9:6,m); if(mc_thorough) explore(&r,2,0,1,20,m+1); } }
    rclose(&r); if(mc_timeup()){ mc_capped("time"); return; } } }
static void sec_inv(long arg){ RS r; setup(&r,arg); int stride=arg>>12&0xfff, off=arg>>24&0xfff; long M=nrat(r.kind,r.K,r.n1,r.n2); r.tabs=40;
  for(long m=off;m<M;m+=stride){ ratings(&r,m); ropen(&r); invariant(&r,m%3,r.kind==R_G?40:24); rclose(&r); if(mc_timeup()){ mc_capped("time"); return; } } }
/* larger rating tables */
static void sec_big(long arg){ RS r; setup(&r,arg); int w=arg>>12; for(int i=0;i<N;i++) for(int j=0;j<N;j++){ int v=(i*7+j*3+w*5+i*j)%(r.K+1+w%2); r.w[i][j]= v>=r.K? -1 : (r.kind==R_L&&i>=j)? -1 : v; } 
  for(int tb=0;tb<2;tb++){ r.tabs=tb?60:4; ropen(&r); for(int q=0;q<4;q++){ for(int i=0;i<N;i++){ r.s1[i]= q==0? i : q==1? r.n1-1 : q==2? i/2 : (i*5+2)%3+1; r.s2[i]= q==0? i : q==1? r.n2-1 : q==2? (i+1)/2%r.n2 : (i*2+1)%3; if(i<r.n1) r.s1[i]%=r.n1; if(i<r.n2) r.s2[i]%=r.n2; } explore(&r,2,0,1,mc_thorough?40:14,q); } rclose(&r); } }
static void add(const char *f,mc_fn fn,long arg){ char nm[120]; snprintf(nm,120,"%s/%s/K%ld/%ldx%ld/%lx",f,rn[arg&7],arg>>3&7,arg>>6&7,arg>>9&7,arg>>12); for(char *p=nm;*p;p++) if(*p==' ') *p='-'; mc_section(nm,fn,arg); }
static void inv(int k,int K,int a,int b,int stride,int off,int step){ for(int o=off;o<stride;o+=step) add("invariant",sec_inv,ARG(k,K,a,b,0)|(long)stride<<12|(long)o<<24); }
static void ex(int k,int K,int a,int b,int stride,int off,int step,int all){ for(int o=off;o<stride;o+=step) add("steps",sec_ex,ARG(k,K,a,b,0)|(long)stride<<12|(long)o<<24|(long)all<<36); }
int main(int c,char **v){ const char *ti=getenv("VERIF_TIER"); int th=ti&&!strcmp(ti,"thorough");
  /* exact transition probabilities: (stride, first, step between shares) */
  inv(R_2,2,2,2,16,0,th?1:8); inv(R_K,2,2,2,16,1,th?1:8); inv(R_K,3,2,2,th?16:64,3,th?2:64);
  inv(R_G,2,2,2,4,0,1); inv(R_G,3,2,2,16,0,th?1:8); inv(R_G,2,3,2,th?64:256,5,th?2:128); inv(R_G,3,2,3,th?512:1024,77,th?16:1024);
  inv(R_2,2,3,1,th?4:8,0,th?1:8); inv(R_2,2,1,3,th?4:8,1,th?1:8); inv(R_K,3,3,1,th?8:16,3,th?1:16); inv(R_K,3,1,2,2,0,1); inv(R_K,2,2,1,1,0,1); inv(R_G,3,1,3,4,0,1); inv(R_G,2,3,1,2,0,1);
  inv(R_L,2,2,2,1,0,1); inv(R_L,3,2,2,1,0,1); inv(R_L,2,3,3,6,0,th?1:2); inv(R_L,3,3,3,8,1,th?1:4);
  for(int k=R_2;k<=R_G;k++) for(int K=2;K<=(k==R_2?2:3);K++){ int g=k==R_G; ex(k,K,2,2,4,0,1,1); ex(k,K,2,1,1,0,1,1); ex(k,K,1,2,1,0,1,1); ex(k,K,3,1,K==3&&!th?6:2,0,K==3&&!th?2:1,1); ex(k,K,1,3,K==3&&!th?6:2,1,K==3&&!th?2:1,1); ex(k,K,3,2,K==2?(th?8:32):(th?64:256),3,K==2?(th?1:8):(th?8:64),0); ex(k,K,2,3,K==2?(th?8:32):(th?64:256),1,K==2?(th?1:8):(th?8:64),0); (void)g; for(int w=0;w<4;w++) add("big",sec_big,ARG(k,K,5,4,w)), add("big",sec_big,ARG(k,K,3,6,w)); }
  for(int K=2;K<=3;K++){ ex(R_L,K,2,2,1,0,1,1); ex(R_L,K,3,3,8,0,K==2?1:2,1); ex(R_L,K,4,4,K==2?64:512,K,th?8:32,0); for(int w=0;w<4;w++) add("big",sec_big,ARG(R_L,K,6,6,w)); }
  return mc_main(c,v); }
