/* C24: recommendations are averages over the sampled pairs of partitions of the prediction from
 * exactly the observed ratings.  As in h_c23.c the chain's step is replaced by one that visits a
 * scripted sequence of partitions, or is the real one with a recorder. */
#include "hb.h"
#include "tools.h"
#include "missing.h"
#include "recommend.h"
#include "conflict.h"
enum { Q_2, Q_K, Q_G, Q_ALL };
static const char *nm[]={"MultiLinkScore2State","MultiLinkScoreKState","GibbsMultiLinkScoreKState","AllLinkScore2State"};
#define M1 8
typedef struct { int a[M1],b[M1]; } ST2;
static int K,n1,n2,w[M1][M1],cl[M1][M1];          /* ratings (-1: none), and without the queried pairs */
static int mode,samelab;                          /* 0 scripted, 1 real step recorded, 2 nothing replaced but recorded */
static ST2 script[200]; static double scriptH[200]; static int nscript,pos,sampling;
static ST2 *vis; static int nvis; static int dec,decgiven;
static void cur(struct node_gra **x,struct node_gra **y,ST2 *s){ memset(s,0,sizeof *s); for(int i=0;i<n1;i++) s->a[i]=x[i]->inGroup; for(int j=0;j<n2;j++) s->b[j]=y[j]->inGroup; }
static void record(struct node_gra **x,struct node_gra **y){ if(!vis) vis=malloc(400000*sizeof *vis); if(nvis>=400000){ mc_fail("steps","more than 400000 steps"); _exit(9); } cur(x,y,vis+nvis++); }
static int cnt(const ST2 *s,int x,int y,int k){ int c=0; for(int i=0;i<n1;i++) if(s->a[i]==x) for(int j=0;j<n2;j++) if(s->b[j]==y&&cl[i][j]==k) c++; return c; }
/* go to t, adding to the bookkeeping what changes (wrong initial contents therefore stay wrong) */
static void moveto(struct node_gra **x,struct node_gra **y,struct group **g1,struct group **g2,int *ng1,int *ng2,int ***NA,int ***NB,int ***GA,int ***GB,const ST2 *t){ ST2 s; cur(x,y,&s);
  for(int i=0;i<n1;i++) if(s.a[i]!=t->a[i]){ if(g1[t->a[i]]->size==0) (*ng1)++; MoveNode(x[i],g1[s.a[i]],g1[t->a[i]]); if(g1[s.a[i]]->size==0) (*ng1)--; }
  for(int j=0;j<n2;j++) if(s.b[j]!=t->b[j]){ if(g2[t->b[j]]->size==0) (*ng2)++; MoveNode(y[j],g2[s.b[j]],g2[t->b[j]]); if(g2[s.b[j]]->size==0) (*ng2)--; }
  for(int k=0;k<K;k++){ for(int p=0;p<n1;p++) for(int q=0;q<n2;q++){ int d=cnt(t,p,q,k)-cnt(&s,p,q,k); GA[k][p][q]+=d; GB[k][q][p]+=d; }
    for(int i=0;i<n1;i++) for(int j=0;j<n2;j++) if(cl[i][j]==k){ NA[k][i][s.b[j]]--; NA[k][i][t->b[j]]++; NB[k][j][s.a[i]]--; NB[k][j][t->a[i]]++; } } }
static void step(struct node_gra **x,struct node_gra **y,struct group **g1,struct group **g2,int *ng1,int *ng2,int ***NA,int ***NB,int ***GA,int ***GB,double *H){ if(!sampling) return; if(pos>=nscript){ mc_fail("steps","more than %d sampling steps",nscript); _exit(9); } moveto(x,y,g1,g2,ng1,ng2,NA,NB,GA,GB,script+pos); *H=scriptH[pos++]; }
#define COM double *H,struct node_gra **x,struct node_gra **y,struct group **g1,struct group **g2,struct group *p1,struct group *p2,int m1,int m2,int *ng1,int *ng2
#define COV H,x,y,g1,g2,p1,p2,m1,m2,ng1,ng2
#define A2 COM,int **a0,int **b0,int **a1,int **b1,int **c0,int **d0,int **c1,int **d1,double *ll,int lls,double **lc,int lcs,double *lf,int lfs,gsl_rng *g
#define V2 COV,a0,b0,a1,b1,c0,d0,c1,d1,ll,lls,lc,lcs,lf,lfs,g
#define AK COM,int ***NA,int ***NB,int ***GA,int ***GB,double *ll,int lls,double *lf,int lfs,gsl_rng *g
#define VK COV,NA,NB,GA,GB,ll,lls,lf,lfs,g
void real_MCStep2State(int,A2); void MCStep2State(int f,A2){ if(!mode){ int **NA[]={a0,a1},**NB[]={b0,b1},**GA[]={c0,c1},**GB[]={d0,d1}; step(x,y,g1,g2,ng1,ng2,NA,NB,GA,GB,H); return; } real_MCStep2State(f,V2); record(x,y); }
void real_MCStepKState(int,int,AK); void MCStepKState(int k,int f,AK){ if(!mode){ step(x,y,g1,g2,ng1,ng2,NA,NB,GA,GB,H); return; } real_MCStepKState(k,f,VK); record(x,y); }
void real_GibbsStepKState(int,AK); void GibbsStepKState(int k,AK){ if(!mode){ step(x,y,g1,g2,ng1,ng2,NA,NB,GA,GB,H); return; } real_GibbsStepKState(k,VK); record(x,y); }
static int dok(int r){ if(r<1||r>1000000) mc_fail("decorrelation","decorrelation step %d",r); return r; }
int real_GetDecorrelationStep2State(A2,char); int GetDecorrelationStep2State(A2,char v){ if(mode==2) return dok(real_GetDecorrelationStep2State(V2,v)); if(decgiven) mc_fail("decorrelation","estimated although given"); if(mode) MCStep2State(1,V2); return dec; }
int real_GetDecorrelationStepKState(int,AK,char); int GetDecorrelationStepKState(int k,AK,char v){ if(mode==2) return dok(real_GetDecorrelationStepKState(k,VK,v)); if(decgiven) mc_fail("decorrelation","estimated although given"); if(mode) MCStepKState(k,1,VK); return dec; }
void real_ThermalizeMC2State(int,A2,char); void ThermalizeMC2State(int d,A2,char v){ if(mode==2){ real_ThermalizeMC2State(d,V2,v); return; } if(mode) MCStep2State(1,V2); sampling=1; *H=0; }
void real_ThermalizeMCKState(int,int,AK,char); void ThermalizeMCKState(int k,int d,AK,char v){ if(mode==2){ real_ThermalizeMCKState(k,d,VK,v); return; } if(mode) MCStepKState(k,1,VK); sampling=1; *H=0; }
void real_GibbsThermalizeKState(int,AK,char); void GibbsThermalizeKState(int k,AK,char v){ if(mode==2){ real_GibbsThermalizeKState(k,VK,v); return; } if(mode) GibbsStepKState(k,VK); sampling=1; if(!mode) *H=0; }
/* lookup tables (C25) replaced by direct evaluation */
double **InitializeFastLogChoose(int n){ (void)n; return calloc(1,sizeof(double*)); } void FreeFastLogChoose(double **p,int n){ (void)n; free(p); } double FastLogChoose(int r,int l,double **p,int n){ (void)p;(void)n; return LogChoose(r,l); }
double *InitializeFastLogFact(int n){ (void)n; return calloc(1,sizeof(double)); } void FreeFastLogFact(double *p){ free(p); } double FastLogFact(int r,double *p,int n){ (void)p;(void)n; return lgamma(r+1.); }
double *InitializeFastLog(int n){ (void)n; return calloc(1,sizeof(double)); } void FreeFastLog(double *p){ free(p); } double FastLog(int r,double *p,int n){ (void)p;(void)n; return log(r); }
/* ---- set-up ---- */
static void tobg(BG *b){ bg_init(b,n1,n2); for(int i=0;i<n1;i++){ if(samelab) sprintf(b->l1[i],"%d",i+1); for(int j=0;j<n2;j++) if(w[i][j]>=0){ b->has[i][j]=1; b->w[i][j]=w[i][j]; } } if(samelab) for(int j=0;j<n2;j++) sprintf(b->l2[j],"%d",j+1); }
static const char *wtext(void){ static char t[200]; int l=snprintf(t,200,"K=%d ratings",K); for(int i=0;i<n1;i++){ l+=snprintf(t+l,200-l," "); for(int j=0;j<n2;j++) l+=snprintf(t+l,200-l,"%c",w[i][j]<0?'.':'0'+w[i][j]); } return t; }
static int qi[64],qj[64],nq; static const char *qtext(void){ static char t[300]; int l=0; t[0]=0; for(int q=0;q<nq&&l<280;q++) l+=snprintf(t+l,300-l," %d-%d",qi[q]+1,qj[q]+1); return t; }
static const char *vtext(const ST2 *v,int m){ static char t[700]; int l=0; t[0]=0; for(int s=0;s<m&&l<600;s++){ l+=snprintf(t+l,700-l," "); for(int i=0;i<n1;i++) l+=snprintf(t+l,700-l,"%d",v[s].a[i]); l+=snprintf(t+l,700-l,"|"); for(int j=0;j<n2;j++) l+=snprintf(t+l,700-l,"%d",v[s].b[j]); } return t; }
static double want(int k,int i,int j,const ST2 *v,int m){ double t=0; for(int s=0;s<m;s++){ int c[8],n=0; for(int z=0;z<K;z++){ c[z]=cnt(v+s,v[s].a[i],v[s].b[j],z); n+=c[z]; } t+=(c[k]+1.)/(n+K); } return t/m; }
static void clean(int kind){ memcpy(cl,w,sizeof w); if(kind!=Q_ALL) for(int q=0;q<nq;q++) cl[qi[q]][qj[q]]=-1; }
/* one complete call; in scripted mode v is the script from sample `from` on, otherwise the last `it` visited */
static void call(int kind,int it,int from,char vb,struct node_gra **X,struct node_gra **Y,struct binet *B){
  struct query *Q[64]; clean(kind); pos=sampling=nvis=0; mc_trans(1); if(!mode) mc_traces(1); int d=decgiven?decgiven:-1;
  if(kind==Q_ALL){ struct query **q=AllLinkScore2State(B,it,mc_rng(),vb,d); const ST2 *v=mode?vis+nvis-it:script+from; int m=mode?it:nscript-from; if(!mode&&pos!=nscript){ mc_fail("steps","%d samples instead of %d",pos,nscript); return; } int seen[M1][M1]={{0}};
    for(int z=0;z<n1*n2;z++){ int i=q[z]->n1->num,j=q[z]->n2->num; if(i<0||i>=n1||j<0||j>=n2||q[z]->n1!=X[i]||q[z]->n2!=Y[j]||seen[i][j]++){ mc_fail("pairs","pair %d is %d,%d",z,i,j); return; } double e=want(1,i,j,v,m); if(!(fabs(q[z]->score-e)<=2e-6)){ mc_fail("score","%s gives pair %d-%d %.9g instead of %.9g",nm[kind],i+1,j+1,q[z]->score,e); return; } mc_outcome((uint64_t)llround(e*1e7)); FreeQuery(q[z]); } free(q); }
  else { for(int q=0;q<nq;q++) Q[q]=CreateQuery(X[qi[q]],Y[qj[q]]); double *s=NULL,**S=NULL; if(kind==Q_2) s=MultiLinkScore2State(B,Q,nq,it,mc_rng(),vb,d); else if(kind==Q_K) S=MultiLinkScoreKState(K,B,Q,nq,it,mc_rng(),vb,d); else S=GibbsMultiLinkScoreKState(K,B,Q,nq,it,mc_rng(),vb);
    const ST2 *v=mode?vis+nvis-it:script+from; int m=mode?it:nscript-from; if(!mode&&pos!=nscript){ mc_fail("steps","%d samples instead of %d",pos,nscript); return; }
    for(int q=0;q<nq;q++){ if(Q[q]->n1!=X[qi[q]]||Q[q]->n2!=Y[qj[q]]){ mc_fail("queries","query %d does not refer to its pair any more",q); return; } double t=0; for(int k=0;k<K;k++){ if(kind==Q_2&&k==0) continue; double e=want(k,qi[q],qj[q],v,m),x=kind==Q_2?s[q]:S[k][q]; t+=x; if(!(fabs(x-e)<=2e-6)){ mc_fail("score","%s gives pair %d-%d %.9g for state %d instead of %.9g",nm[kind],qi[q]+1,qj[q]+1,x,k,e); return; } if(K>1&&!(x>0&&x<1)) mc_fail("range","score %g",x); mc_outcome((uint64_t)llround(e*1e7)*4+k); } if(kind!=Q_2&&fabs(t-1)>1e-5) mc_fail("sum","scores of pair %d-%d add up to %g",qi[q]+1,qj[q]+1,t); }
    for(int q=0;q<nq;q++) FreeQuery(Q[q]); if(s) free_d_vec(s); if(S) free_d_mat(S,K); }
  BG want_,got; tobg(&want_); const char *e=bg_read(B,&got); if(e||(e=bg_diff(&got,&want_,1))) mc_fail("changed","the ratings were changed: %s",e); }
/* number of samples that are discarded because the energy fell too far */
static int restart(int kind){ int s=0,gap=0; double o=0; for(int i=0;i<nscript;i++) if(kind==Q_G? o-scriptH[i]>400 : scriptH[i]< -400){ if(i-s>gap) gap=i-s; s=i; o=scriptH[i]; } return gap<nscript-s?s:-1; /* -1: the run would have ended before that restart */ }
static void run(int kind,char vb){ BG b; tobg(&b); struct node_gra *X[BM],*Y[BM]; struct binet *B=bg_build(&b,X,Y); mode=0; int f=restart(kind); if(f<0){ RemoveBipart(B); return; } mc_case("%s, mode %c, %s, queries%s, visiting%s%s",nm[kind],vb,wtext(),kind==Q_ALL?" all":qtext(),vtext(script,nscript),f?" (with a restart)":""); call(kind,nscript-f,f,vb,X,Y,B); RemoveBipart(B); }
static long ipow(long a,int b){ long r=1; while(b--) r*=a; return r; }
static void lab(long c,ST2 *s){ memset(s,0,sizeof *s); for(int i=0;i<n1;i++){ s->a[i]=c%n1; c/=n1; } for(int j=0;j<n2;j++){ s->b[j]=c%n2; c/=n2; } }
static void table(long m){ for(int i=0;i<n1;i++) for(int j=0;j<n2;j++){ w[i][j]=m%(K+1)-1; m/=K+1; } }
/* query sets: bit mask of pairs (each once, row by row); code>=2^(n1 n2): special lists */
static void queries(long c){ int N=n1*n2; nq=0; if(c<1L<<N){ for(int z=0;z<N;z++) if(c>>z&1){ qi[nq]=z/n2; qj[nq++]=z%n2; } } else { c-=1L<<N; /* two queries, order and repetition allowed */ qi[0]=c%N/n2; qj[0]=c%N%n2; c/=N; qi[1]=c%N/n2; qj[1]=c%N%n2; nq=2; } }
#define ARG(k,K,a,b,s,o) ((long)(k)|(long)(K)<<4|(long)(a)<<8|(long)(b)<<12|(long)(s)<<16|(long)(o)<<40)
#define U int kind=arg&15; K=arg>>4&15; n1=arg>>8&15; n2=arg>>12&15; long st=arg>>16&0xffffff,off=arg>>40; long NT=ipow(K+1,n1*n2),NQ=kind==Q_ALL?1:(1L<<(n1*n2))+(long)n1*n2*n1*n2,L=ipow(n1,n1)*ipow(n2,n2); (void)L; (void)NQ; samelab=off&1; decgiven=off%3==2?3:0; dec=1+off%2;
static void sec_one(long arg){ U; for(long m=off;m<NT;m+=st){ table(m); mc_states(1); long qs=NQ>40?NQ/23:1,ls=L>64?L/41:1; for(long q=m%qs;q<NQ;q+=qs){ queries(q); nscript=1; scriptH[0]=0; for(long c=(m+q)%ls;c<L;c+=ls){ lab(c,script); run(kind,c%61==0?'v':c%67==0?'d':'q'); } if(mc_timeup()){ mc_capped("time"); return; } } } }
/* sequences over three pairs of partitions, lengths 2..5, with restarts */
static void sec_seq(long arg){ U; for(long m=off;m<NT;m+=st){ table(m); mc_states(1); ST2 P[3]; for(int p=0;p<3;p++) lab((m*7+p*(L/3+1)+p)%L,P+p); for(int z=0;z<3;z++){ queries((m*5+z*11)%NQ); for(nscript=2;nscript<=(mc_thorough?6:5);nscript++) for(long c=0;c<ipow(3,nscript);c++){ long y=c; for(int i=0;i<nscript;i++){ script[i]=P[y%3]; y/=3; scriptH[i]=-3*i; } int r=(c+m)%5; int h=(nscript+1)/2; if(r<3) for(int i=(c/3)%h;i<(kind==Q_G?nscript:(c/3)%h+1);i++) scriptH[i]-=401+100*r; if(r==2) for(int i=(c/7)%nscript;i<(kind==Q_G?nscript:(c/7)%nscript+1);i++) scriptH[i]-=501; run(kind,'q'); } if(kind==Q_ALL) break; if(mc_timeup()){ mc_capped("time"); return; } } } }
static int ipat(int i,int j,int m){ int v=(i*3+j*5+i*j+m*7+(i*i+m)%3)%(K+1)-1; return v; }
static void sec_big(long arg){ U; for(int m=0;m<8;m++){ for(int i=0;i<n1;i++) for(int j=0;j<n2;j++) w[i][j]=ipat(i,j,m); mc_states(1); for(int q=0;q<30;q++){ nq=0; for(int i=0;i<n1;i++) for(int j=0;j<n2;j++) if((q==0)||((i*5+j*3+q+m)%(q+1)==0&&nq<60)){ qi[nq]=i; qj[nq++]=j; } nscript=1+q%6; for(int s=0;s<nscript;s++){ scriptH[s]=0; memset(script+s,0,sizeof *script); for(int i=0;i<n1;i++) script[s].a[i]= q==0?0: q==1? i : (i*(q%5+1)+s*q+i*i*(q%3))%(1+q%n1); for(int j=0;j<n2;j++) script[s].b[j]= q==0?0: q==1? n2-1-j : (j*(q%4+1)+s+j*j*(q%2))%(1+(q*3)%n2); } run(kind,'q'); } } }
static int rk,rit; static void rbody(void *v){ (void)v; BG b; tobg(&b); struct node_gra *X[BM],*Y[BM]; struct binet *B=bg_build(&b,X,Y); call(rk,rit,0,'q',X,Y,B); RemoveBipart(B); }
static void sec_real(long arg){ U; static double al[12]; int na=0; for(int i=0;i<n1;i++) al[na++]=(i+.5)/n1; for(int j=0;j<n2;j++) if(n2!=n1) al[na++]=(j+.5)/n2; al[na++]=0; al[na++]=1-1e-12; rk=kind;
  for(long m=off;m<NT;m+=st){ table(m); mc_states(1); for(rit=1;rit<=3;rit+=2){ queries((m*7+rit*3)%NQ); mode=1; mc_rc.free_depth=mc_thorough?4:3; mc_rc.max_dev=1; mc_rc.dev_horizon=(kind==Q_G?9:15)+(mc_thorough?10:0); mc_rc.nalpha=na; mc_rc.alpha=al; mc_rc.hard_horizon=50000; mc_rc.seed=m+rit; mc_case("%s with the real step, %d samples, %s, queries%s",nm[kind],rit,wtext(),kind==Q_ALL?" all":qtext()); mc_dfs(rbody,NULL); if(mc_timeup()){ mc_capped("time"); return; } } } }
static void sec_full(long arg){ U; rk=kind; rit=25; for(int m=0;m<3;m++){ for(int i=0;i<n1;i++) for(int j=0;j<n2;j++) w[i][j]= m==0? ((i<n1/2)==(j<n2/2)? (K>1) : 0) : m==1? ipat(i,j,1) : (i+j)%3? -1 : (i/2+j/2)%K; mc_states(1); nq=0; for(int i=0;i<n1;i++) for(int j=0;j<n2;j++) if((i*5+j*3+m)%7==0){ qi[nq]=i; qj[nq++]=j; } for(int sd=0;sd<(mc_thorough?10:3);sd++){ mode=2; mc_rc.free_depth=mc_rc.max_dev=mc_rc.dev_horizon=0; mc_rc.nalpha=1; static double z=0; mc_rc.alpha=&z; mc_rc.hard_horizon=20000000; mc_rc.seed=sd+1; mc_case("%s, nothing replaced, stream %d, %s, queries%s",nm[kind],sd,wtext(),kind==Q_ALL?" all":qtext()); mc_dfs(rbody,NULL); if(mc_timeup()){ mc_capped("time"); return; } } } }
/* ---- lists of pairs and files ---- */
static void sec_sets(long arg){ U; (void)kind; for(long m=off;m<NT;m+=st){ table(m); BG b; tobg(&b); struct node_gra *X[BM],*Y[BM]; struct binet *B=bg_build(&b,X,Y); mc_case("unobserved pairs and removal, %s",wtext()); mc_states(1); mc_trans(2); mc_traces(1); int un=n1*n2-bg_links(&b); if(CountUnobserved(B)!=un) mc_fail("unobserved","%d pairs instead of %d",CountUnobserved(B),un); struct query **q=BuildUnobservedSet(B); int seen[M1][M1]={{0}}; for(int z=0;z<un;z++){ if(!q[z]){ mc_fail("unobserved","entry %d missing",z); break; } int i=q[z]->n1->num,j=q[z]->n2->num; if(i<0||i>=n1||j<0||j>=n2||X[i]!=q[z]->n1||Y[j]!=q[z]->n2||w[i][j]>=0||seen[i][j]++){ mc_fail("unobserved","entry %d is %d-%d",z,i+1,j+1); break; } FreeQuery(q[z]); } free(q);
    const char *e; BG g; if((e=bg_read(B,&g))||(e=bg_diff(&g,&b,1))) mc_fail("changed","by listing: %s",e);
    mc_outcome(m);
    for(int r1=-1;r1<=K;r1++) for(int r2=-1;r2<=K;r2++){ struct binet *C=bg_build(&b,X,Y); BG x=b; mc_case("%s, removing rating %d then %d",wtext(),r1,r2); for(int z=0;z<2;z++){ int r=z?r2:r1; RemoveRatings(C,r); mc_trans(1); for(int i=0;i<n1;i++) for(int j=0;j<n2;j++) if(x.has[i][j]&&x.w[i][j]==r) x.has[i][j]=0; if((e=bg_read(C,&g))||(e=bg_diff(&g,&x,1))) mc_fail("removed","%s",e); } RemoveBipart(C); }
    RemoveBipart(B); if(mc_timeup()){ mc_capped("time"); return; } } }
/* files: arg = number of observation lines | number of query lines<<4 | family<<8 | part<<12 | parts<<20 */
static const char *UL[2][4]={{"ann","bob","cy","dee"},{"1","2","3","10"}},*IL[2][4]={{"x","y","ann","z"},{"1","10","2","4"}};
static struct node_gra *byl(struct node_gra *p,const char *l){ while((p=p->next)!=NULL) if(!strcmp(p->label,l)) return p; return NULL; }
static void sec_files(long arg){ int no=arg&15,nqq=arg>>4&15,fam=arg>>8&15,part=arg>>12&255,parts=arg>>20; char fo[300],fq[300]; snprintf(fo,300,"%s/obs",mc_tmpdir()); snprintf(fq,300,"%s/que",mc_tmpdir()); K=3;
  long No=ipow(2*2*3,no),Nq=ipow(3*3,nqq); for(long o=part;o<No;o+=parts){ BG b; bg_init(&b,0,0); FILE *f=fopen(fo,"w"); long z=o; char txt[300]; int tl=0; for(int k=0;k<no;k++){ int u=z%2,i=z/2%2,r=z/4%3; z/=12; fprintf(f,k%2?"%s\t%s  %d\n":"%s %s %d\n",UL[fam][u],IL[fam][i],r); tl+=snprintf(txt+tl,300-tl," %s-%s:%d",UL[fam][u],IL[fam][i],r); int x=bg_i1(&b,UL[fam][u]); if(x<0){ x=b.n1++; strcpy(b.l1[x],UL[fam][u]); } int y=bg_i2(&b,IL[fam][i]); if(y<0){ y=b.n2++; strcpy(b.l2[y],IL[fam][i]); } if(!b.has[x][y]){ b.has[x][y]=1; b.w[x][y]=r; } } fclose(f); txt[tl]=0;
    long qs=nqq>3?(nqq==4?13:97):no==3?(nqq>2?61:7):no==2&&nqq>2?11:1; if(mc_thorough&&qs>7) qs=(qs/10)*2+1; for(long q=o%qs;q<Nq;q+=qs){ mc_case("observations%s, query file %ld of %d lines",txt,q,nqq); mc_states(1); mc_trans(2); mc_traces(1); f=fopen(fo,"r"); struct binet *B=ReadRecommenderObservations(f); fclose(f); BG g; const char *e; if(!B){ mc_fail("observations","not read"); return; } if((e=bg_read(B,&g))||(e=bg_diff(&g,&b,0))) mc_fail("observations","%s",e);
      f=fopen(fq,"w"); char ql[8][2][8]; z=q; for(int k=0;k<nqq;k++){ strcpy(ql[k][0],UL[fam][z%3+(q%2&&z%3==2)]); strcpy(ql[k][1],IL[fam][z/3%3+(q%3==1&&z/3%3==2)]); z/=9; fprintf(f,"%s %s%s",ql[k][0],ql[k][1],k==nqq-1&&q%2?"":"\n"); } fclose(f);
      BG x=b; f=fopen(fq,"r"); struct query **Q=ReadQueries(f,nqq,B); fclose(f); for(int k=0;k<nqq;k++){ if(bg_i1(&x,ql[k][0])<0) strcpy(x.l1[x.n1++],ql[k][0]); if(bg_i2(&x,ql[k][1])<0) strcpy(x.l2[x.n2++],ql[k][1]); }
      if((e=bg_read(B,&g))||(e=bg_diff(&g,&x,0))) mc_fail("queries","after reading queries: %s",e); for(int k=0;k<nqq;k++){ struct node_gra *p=byl(B->net1,ql[k][0]),*r=byl(B->net2,ql[k][1]); if(!Q[k]||Q[k]->n1!=p||Q[k]->n2!=r) mc_fail("queries","query %d is not %s-%s",k,ql[k][0],ql[k][1]); }
      if(q%5==0&&!mc_timeup()){ /* and predict from them: one scripted sample */ n1=g.n1; n2=g.n2; for(int i=0;i<n1;i++) for(int j=0;j<n2;j++) w[i][j]=g.has[i][j]?(int)g.w[i][j]:-1; nq=nqq; for(int k=0;k<nqq;k++){ qi[k]=bg_i1(&g,ql[k][0]); qj[k]=bg_i2(&g,ql[k][1]); } mode=0; decgiven=0; dec=1; clean(Q_K); nscript=1; scriptH[0]=0; lab((o*31+q*7)%(ipow(n1,n1)*ipow(n2,n2)),script); pos=sampling=0; double **S=MultiLinkScoreKState(3,B,Q,nqq,1,mc_rng(),'q',-1); for(int k=0;k<nqq;k++) for(int s=0;s<3;s++){ double v=want(s,qi[k],qj[k],script,1); if(fabs(S[s][k]-v)>2e-6) mc_fail("score","pair %s-%s has %g for rating %d instead of %g",ql[k][0],ql[k][1],S[s][k],s,v); } free_d_mat(S,3); }
      for(int k=0;k<nqq;k++) FreeQuery(Q[k]); free(Q); RemoveBipart(B); if(mc_timeup()){ mc_capped("time"); return; } } mc_outcome(o); } }
static void add(const char *f,mc_fn fn,int kind,int k,int a,int b,long st,int parts){ for(int o=0;o<parts;o++){ char t[100]; snprintf(t,100,"%s/%s/%dx%d/k%d/%d",f,kind<0?"sets":nm[kind],a,b,k,o); long off=parts>=st?o:(st/parts)*o+o%7; if(off>=st) continue; mc_section(t,fn,ARG(kind<0?0:kind,k,a,b,st,off)); } }
int main(int c,char **v){ const char *ti=getenv("VERIF_TIER"); int t=ti&&!strcmp(ti,"thorough"); stderr=fopen("/dev/null","w");
  for(int kind=0;kind<4;kind++){ for(int k=(kind==Q_2||kind==Q_ALL)?2:1;k<=((kind==Q_2||kind==Q_ALL)?2:3);k++){ if(k>1) add("full",sec_full,kind,k,6,7,1,1);
      add("one",sec_one,kind,k,1,2,1,1); add("one",sec_one,kind,k,2,1,1,1); add("one",sec_one,kind,k,2,2,k==3?4:1,k==3?4:1); add("one",sec_one,kind,k,2,3,k==1?1:k==2?27:512,t?8:2); add("one",sec_one,kind,k,3,2,k==1?1:k==2?27:512,t?8:2); if(k>1) add("one",sec_one,kind,k,3,3,k==2?2187:32768,t?8:1);
      add("seq",sec_seq,kind,k,2,2,k==1?3:k==2?9:32,t?8:2); add("seq",sec_seq,kind,k,3,3,k==1?170:k==2?5000:100000,t?8:2); if(k>1){ add("big",sec_big,kind,k,7,8,1,1); add("big",sec_big,kind,k,8,3,1,1); add("real",sec_real,kind,k,2,2,k==3?64:20,t?8:2); add("real",sec_real,kind,k,2,3,k==2?240:1365,t?8:1); } } }
  for(int k=1;k<=3;k++) for(int a=1;a<=3;a++) for(int b=1;b<=3;b++){ long N=ipow(k+1,a*b),st=N>20000?N/(t?60000:4000):1; if(st<1) st=1; add("sets",sec_sets,-1,k,a,b,st,st>1?1:1); }
  for(int fam=0;fam<2;fam++) for(int o=1;o<=3;o++) for(int q=1;q<=(o==1?5:3);q++){ int P=o==3||q>2?4:1; for(int p=0;p<P;p++){ char b[60]; sprintf(b,"files/%d/%d+%d/%d",fam,o,q,p); mc_section(b,sec_files,o|q<<4|fam<<8|p<<12|(long)P<<20); } }
  return mc_main(c,v); }
