/* st.h - exhaustive exploration of one call of a stochastic step.
 *
 * The step draws uniform numbers.  st_tree() computes, for the real step started from one state, the
 * exact distribution of its final state: the unit interval of every draw is cut into the pieces on
 * which the continuation behaves identically (found by comparing whole executions over a fixed family
 * of continuations and bisecting every change), every combination of pieces is executed, and pieces
 * after which the step is exactly where it was before the draw (a rejected proposal that is redrawn)
 * are renormalised away.  Nothing is assumed about how many draws there are or what they are for.
 */
#ifndef ST_H
#define ST_H
#include "mc.h"
#define ST_MAXD 400
#define ST_NS 24
typedef struct {
  void (*reset)(void *);            /* put the system in the start state                */
  void (*step)(void *, gsl_rng *);  /* run the real step                                */
  uint64_t (*sig)(void *);          /* labelled state                                   */
  int (*final)(void *);             /* index of the final (unlabelled) state            */
  void *arg; int nprobe;
} ST;
static ST *st_cur; static const double *st_pre; static int st_np, st_nd, st_stream; static uint64_t st_th; static int st_over; static long st_runs;
/* continuations: the next four draws are stratified (with values next to 0 and 1), later ones mixed */
static double st_streamval(int s,int k){ static const int mul[4]={5,7,11,13}; if(k<4){ int r=(s*mul[k]+k*3)%ST_NS; return r==0?1e-6:r==ST_NS-1?1-1e-6:r==1?0.004:r==ST_NS-2?0.996:(r+0.5)/ST_NS; }
  uint64_t x=(uint64_t)(s+1)*0x9E3779B97F4A7C15ull ^ (uint64_t)(k+1)*0xC2B2AE3D27D4EB4Full; x^=x>>29; x*=0xBF58476D1CE4E5B9ull; x^=x>>32; x*=0x94D049BB133111EBull; x^=x>>29; double u=(double)(x>>11)/9007199254740992.0; if(x&(1u<<(s&3))){ u=u*u*u; u=u*u; } return u; }
static void st_mix(uint64_t v){ st_th=(st_th^v)*0x100000001b3ull; st_th^=st_th>>31; }
static double st_getd(void *v){ (void)v; int i=st_nd++; if(i<st_np) return st_pre[i]; int k=i-st_np; if(k>ST_MAXD){ st_over=1; if(k>20*ST_MAXD) { mc_fail("no-end","the step did not finish within %d random draws",k); _exit(3);} } st_mix(st_cur->sig(st_cur->arg)); return st_streamval(st_stream,k); }
static unsigned long st_get(void *v){ return (unsigned long)(st_getd(v)*4294967296.0); }
static void st_set(void *v,unsigned long s){ (void)v;(void)s; }
static const gsl_rng_type st_type={"st",0xffffffffUL,0,8,st_set,st_get,st_getd};
static gsl_rng *st_rng(void){ static gsl_rng *g; if(!g) g=gsl_rng_alloc(&st_type); return g; }
/* run with a prefix and continuation s; returns number of draws after the prefix */
static int st_run(const double *pre,int np,int s){ st_pre=pre; st_np=np; st_nd=0; st_stream=s; st_th=1469598103934665603ull; st_cur->reset(st_cur->arg); st_cur->step(st_cur->arg,st_rng()); st_runs++; mc_tick(); st_mix(st_cur->sig(st_cur->arg)); st_mix((uint64_t)(st_nd-np)); return st_nd-np; }
typedef struct { uint64_t h[ST_NS]; } STV;
static STV st_tv(const double *pre,int np){ STV v; for(int s=0;s<ST_NS;s++){ st_run(pre,np,s); v.h[s]=st_th; } return v; }
static int st_eq(const STV *a,const STV *b){ return !memcmp(a,b,sizeof *a); }
static long st_leaves, st_branch;
/* control states met so far (identified by their behaviour on all continuations) and their distributions */
typedef struct { STV v; double *d; int nc; double *c; uint64_t *h; } STM; static STM *st_memo; static long st_nm, st_cm; static int st_nf;
/* a state counts as met before only if it also behaves the same on both sides of every breakpoint */
static double *st_find(const STV *v,double *pre,int np){ if(!st_cm) return NULL; for(long k=v->h[0]%st_cm;st_memo[k].d;k=(k+1)%st_cm) if(st_eq(&st_memo[k].v,v)){ STM *m=&st_memo[k]; int ok=1; for(int i=0;i<2*m->nc&&ok;i++){ pre[np]=m->c[i]; st_run(pre,np+1,0); if(st_th!=m->h[i]) ok=0; } if(ok) return m->d; } return NULL; }
static void st_ins(STM e){ if(st_nm*2>=st_cm){ STM *o=st_memo; long oc=st_cm; st_cm=oc?oc*2:4096; st_memo=calloc(st_cm,sizeof(STM)); st_nm=0; for(long k=0;k<oc;k++) if(o[k].d) st_ins(o[k]); free(o); } long k=e.v.h[0]%st_cm; while(st_memo[k].d) k=(k+1)%st_cm; st_memo[k]=e; st_nm++; }
static void st_put(const STV *v,double *d,double *pre,int np,const double *cut,int nc){ STM e; e.v=*v; e.d=d; e.nc=nc; e.c=nc?malloc(2*nc*sizeof(double)):NULL; e.h=nc?malloc(2*nc*sizeof(uint64_t)):NULL; for(int i=0;i<2*nc;i++){ double x=cut[i/2]+(i%2?1e-9:-1e-9); if(x<0) x=0; if(x>1-1e-15) x=1-1e-15; e.c[i]=pre[np]=x; st_run(pre,np+1,0); e.h[i]=st_th; } st_ins(e); }
static void st_forget(void){ for(long k=0;k<st_cm;k++){ free(st_memo[k].d); free(st_memo[k].c); free(st_memo[k].h); } free(st_memo); st_memo=NULL; st_nm=st_cm=0; }
/* breakpoints in (lo,hi]: appends pieces */
typedef struct { double cut[80]; STV tv[80]; int n; } STP;
static void st_cuts(double *pre,int np,double lo,const STV *lv,double hi,const STV *hv,STP *P,int depth){
  if(st_eq(lv,hv)||P->n>=78) return;
  if(hi-lo<1e-11||depth>200){ P->cut[P->n]=(lo+hi)/2; P->tv[++P->n]=*hv; return; }
  int s=0; while(lv->h[s]==hv->h[s]) s++;
  double a=lo,b=hi; while(b-a>1e-11){ double c=(a+b)/2; pre[np]=c; st_run(pre,np+1,s); if(st_th==lv->h[s]) a=c; else b=c; }
  STV av,bv; pre[np]=a; av=st_tv(pre,np+1); pre[np]=b; bv=st_tv(pre,np+1);
  st_cuts(pre,np,lo,lv,a,&av,P,depth+1); 
  if(P->n<78){ P->cut[P->n]=(a+b)/2; P->tv[++P->n]=bv; }
  st_cuts(pre,np,b,&bv,hi,hv,P,depth+1); }
static double *st_walk(double *pre,int np){
  STV self=st_tv(pre,np); double *d=st_find(&self,pre,np); if(d) return d;
  d=calloc(st_nf,sizeof(double));
  if(np>=ST_MAXD){ mc_fail("no-end","more than %d draws in one step",ST_MAXD); return d; }
  int more=st_run(pre,np,0);
  if(more<=0){ int f=st_cur->final(st_cur->arg); if(f<0||f>=st_nf) mc_fail("state","the step ends in a state that is not a partition"); else d[f]=1; st_leaves++; st_put(&self,d,pre,np,NULL,0); return d; }
  int m=0,P=st_cur->nprobe; static double px[130]; STV *pv=malloc(130*sizeof(STV)); STP *pc=malloc(sizeof *pc); pc->n=0;
  px[m++]=0; for(int i=0;i<P;i++) px[m++]=(i+0.5)/P; px[m++]=1-1e-15;
  for(int i=0;i<m;i++){ pre[np]=px[i]; pv[i]=st_tv(pre,np+1); }
  pc->tv[0]=pv[0]; for(int i=1;i<m;i++) st_cuts(pre,np,px[i-1],&pv[i-1],px[i],&pv[i],pc,0);
  free(pv); int n=pc->n+1; if(n>=78) mc_fail("pieces","more than 78 pieces in one draw");
  double wid[80],val[80]; double last=0; for(int i=0;i<n;i++){ double r=i<n-1?pc->cut[i]:1; wid[i]=r-last; val[i]=(r+last)/2; last=r; }
  /* pieces narrower than the bisection are edges */
  double retry=0; char skip[80]; for(int i=0;i<n;i++){ skip[i]=0; if(st_eq(&pc->tv[i],&self)){ retry+=wid[i]; skip[i]=1; } else if(wid[i]<1e-10) skip[i]=1; }
  if(retry>1-1e-9){ mc_fail("no-progress","a random draw never has any effect"); free(pc); return d; }
  st_branch++;
  double tot=0; for(int i=0;i<n;i++){ if(skip[i]) continue; double w=0; for(int j=i;j<n;j++) if(!skip[j]&&st_eq(&pc->tv[j],&pc->tv[i])){ w+=wid[j]; if(j>i) skip[j]=2; } tot+=w; pre[np]=val[i]; double *c=st_walk(pre,np+1); for(int f=0;f<st_nf;f++) d[f]+=w*c[f]; }
  if(tot>0) for(int f=0;f<st_nf;f++) d[f]/=tot;
  st_put(&self,d,pre,np,pc->cut,n-1); free(pc); return d; }
/* distribution of final states in acc[nfinal]; st_forget() between different systems */
static void st_tree(ST *s,double *acc,int nfinal){ static double pre[ST_MAXD+4]; st_cur=s; st_nf=nfinal; double *d=st_walk(pre,0); memcpy(acc,d,nfinal*sizeof(double)); }
#endif
