/* C26: matrices and spectra of every small graph; sums and comparisons of all pairs of small labelled networks */
#ifndef HMAX
#define HMAX 40
#endif
#include "hg.h"
#include <gsl/gsl_vector.h>
#include "tools.h"
#include "matrix.h"
/* eigenvalues of a symmetric matrix by cyclic Jacobi rotations, ascending */
static void jacobi(double a[HMAX][HMAX],int n,double *ev){ for(int sw=0;sw<60;sw++){ double off=0; for(int i=0;i<n;i++) for(int j=i+1;j<n;j++) off+=a[i][j]*a[i][j]; if(off<1e-26) break;
    for(int p=0;p<n;p++) for(int q=p+1;q<n;q++) if(fabs(a[p][q])>1e-300){ double t,th=(a[q][q]-a[p][p])/(2*a[p][q]); t=(th>=0?1:-1)/(fabs(th)+sqrt(th*th+1)); double c=1/sqrt(t*t+1),s=t*c; for(int k=0;k<n;k++){ double x=a[k][p],y=a[k][q]; a[k][p]=c*x-s*y; a[k][q]=s*x+c*y; } for(int k=0;k<n;k++){ double x=a[p][k],y=a[q][k]; a[p][k]=c*x-s*y; a[q][k]=s*x+c*y; } } }
  for(int i=0;i<n;i++) ev[i]=a[i][i]; for(int i=0;i<n;i++) for(int j=i+1;j<n;j++) if(ev[j]<ev[i]){ double t=ev[i]; ev[i]=ev[j]; ev[j]=t; } }
static void visit(const RG *r,struct node_gra *net,struct node_gra **nl){ int n=r->n,sym=1,loops=0,links=0; (void)nl;
  for(int i=0;i<n;i++) for(int j=0;j<n;j++){ if(r->has[i][j]!=r->has[j][i]) sym=0; if(i==j&&r->has[i][i]) loops=1; links+=r->has[i][j]; }
  int **A=AdjacencyMat(net); mc_trans(1); for(int i=0;i<n;i++) for(int j=0;j<n;j++) if(A[i][j]!=r->has[i][j]){ mc_fail("AdjacencyMat","entry %d,%d is %d",i,j,A[i][j]); return; } free_i_mat(A,n);
  if(loops) return;
  int **L=LaplacianMat(net); mc_trans(1); for(int i=0;i<n;i++) for(int j=0;j<n;j++){ int w= i==j? rg_deg(r,i) : -r->has[i][j]; if(L[i][j]!=w){ mc_fail("LaplacianMat","entry %d,%d is %d instead of %d",i,j,L[i][j],w); return; } } free_i_mat(L,n);
  if(!sym) return;
  static double a[HMAX][HMAX]; double ev[HMAX]; for(int i=0;i<n;i++) for(int j=0;j<n;j++) a[i][j]= i==j? rg_deg(r,i) : -r->has[i][j]; jacobi(a,n,ev);
  gsl_vector *s=LaplacianSpectrum(net); mc_trans(1); if((int)s->size!=n){ mc_fail("LaplacianSpectrum","%d eigenvalues",(int)s->size); return; } for(int i=0;i<n;i++) if(fabs(gsl_vector_get(s,i)-ev[i])>1e-7){ mc_fail("LaplacianSpectrum","eigenvalue %d is %.10g instead of %.10g",i,gsl_vector_get(s,i),ev[i]); break; } 
  uint64_t h=0; for(int i=0;i<n;i++) h=h*31+(uint64_t)llround(ev[i]*1e6); mc_outcome(h); gsl_vector_free(s);
  if(links){ double l2=0; for(int i=n-1;i>=0;i--) if(ev[i]>1e-6) l2=ev[i]; double q=Synchronizability(net); mc_trans(1); if(!mc_closet(q,ev[n-1]/l2,1e-7)) mc_fail("Synchronizability","is %.10g instead of %.10g",q,ev[n-1]/l2); }
  static RG b; const char *e=rg_read(net,&b); if(e||(e=rg_diff(&b,r,1))) mc_fail("changed","the network was changed: %s",e); }
#include "en.h"
/* ---- two networks ---- */
static const char *lab[3][5]={{"a","b","c","d","e"},{"1","10","100","2","20"},{"n","N","n ","nn","_"}};
static void pair(const RG *a,const RG *b,int cmp){ mc_case("A: %s / B: %s",rg_text(a),rg_text(b)); static RG w,g; const char *e; int mp[HMAX];
  struct node_gra *A=rg_build(a,NULL),*B=rg_build_rev(b,NULL); mc_states(1); mc_traces(1);
  if(cmp){ int v[6]; double p[4]; for(int i=0;i<6;i++) v[i]=-7; CompareTwoNetworks(A,B,v,v+1,v+2,p,p+1,v+3,v+4,v+5,p+2,p+3); mc_trans(1);
    int nc=0,la=0,lb=0,lc=0; int ma[HMAX],mb[HMAX]; for(int i=0;i<a->n;i++) nc+=(ma[i]=rg_idx(b,a->lab[i]))>=0; for(int i=0;i<b->n;i++) mb[i]=rg_idx(a,b->lab[i]);
    for(int i=0;i<a->n;i++) for(int j=i+1;j<a->n;j++) if(a->has[i][j]&&ma[i]>=0&&ma[j]>=0){ la++; lc+=b->has[ma[i]][ma[j]]; } for(int i=0;i<b->n;i++) for(int j=i+1;j<b->n;j++) if(b->has[i][j]&&mb[i]>=0&&mb[j]>=0) lb++;
    int want[6]={a->n,b->n,nc,la,lb,lc}; static const char *nm[]={"nodes of A","nodes of B","common nodes","links of A","links of B","common links"}; for(int i=0;i<6;i++) if(v[i]!=want[i]) mc_fail("compare","%s: %d instead of %d",nm[i],v[i],want[i]);
    if(b->n&&!mc_close(p[0],(double)nc/b->n)) mc_fail("compare","fraction of B's nodes in A is %g",p[0]); if(a->n&&!mc_close(p[1],(double)nc/a->n)) mc_fail("compare","fraction of A's nodes in B is %g",p[1]); if(lb&&!mc_close(p[2],(double)lc/lb)) mc_fail("compare","fraction of B's links in A is %g",p[2]); if(la&&!mc_close(p[3],(double)lc/la)) mc_fail("compare","fraction of A's links in B is %g",p[3]);
    int o[6]={nc,la,lb,lc,a->n,b->n}; mc_outcome(mc_hash(o,sizeof o)); }
  struct node_gra *S=AddTwoNetworks(A,B); mc_trans(1);
  if((e=rg_read(A,&g))||(e=rg_diff(&g,a,1))) mc_fail("changed","first network changed: %s",e); if((e=rg_read(B,&g))||(e=rg_diff(&g,b,1))) mc_fail("changed","second network changed: %s",e);
  RemoveGraph(A); RemoveGraph(B);
  w=*a; rg_pad(&w,a->n+b->n); for(int i=0;i<b->n;i++){ mp[i]=rg_idx(&w,b->lab[i]); if(mp[i]<0){ mp[i]=w.n; strcpy(w.lab[w.n++],b->lab[i]); } } for(int i=0;i<b->n;i++) for(int j=0;j<b->n;j++) if(b->has[i][j]&&!w.has[mp[i]][mp[j]]){ w.has[mp[i]][mp[j]]=1; w.w[mp[i]][mp[j]]=1; }
  if((e=rg_read(S,&g))||(e=rg_diff(&g,&w,0))) mc_fail("sum","%s",e); 
  else { struct node_gra *p=S; int i=0; while((p=p->next)!=NULL){ if(NodeDegree(p)!=rg_deg(&g,i)||!mc_close(NodeStrength(p),rg_str(&g,i))) { mc_fail("sum-degree","node %s has degree %d, strength %g",p->label,NodeDegree(p),NodeStrength(p)); break; } i++; } }
  RemoveGraph(S); }
#ifndef EN_LARGE
void large_register(void);
/* all ordered selections of k of the 5 labels */
static int sel[200][4],nsel; static void selections(int k,int pool){ nsel=0; int c[4]={0}; for(;;){ int ok=1; for(int i=0;i<k;i++) for(int j=0;j<i;j++) if(c[i]==c[j]) ok=0; if(ok) memcpy(sel[nsel++],c,sizeof c); int q=0; while(q<k&&++c[q]==pool) c[q++]=0; if(q>=k) break; } }
static void relabel(RG *g,int fam,const int *s){ for(int i=0;i<g->n;i++) strcpy(g->lab[i],lab[fam][s?s[i]:i]); }
static void sec_und(long arg){ int na=arg&7,nb=arg>>3&7,fam=arg>>6&3,pool=arg>>8&7; selections(nb,pool); RG a,b; for(long x=0;x<1L<<(na*(na-1)/2);x++) for(long y=0;y<1L<<(nb*(nb-1)/2);y++) for(int s=0;s<nsel;s++){ rg_mask(&a,na,x); rg_mask(&b,nb,y); relabel(&a,fam,NULL); relabel(&b,fam,sel[s]); if((x+y)%2) for(int i=0;i<na;i++) for(int j=0;j<na;j++) if(a.has[i][j]) a.w[i][j]=2+(i+j)%2*0.5; pair(&a,&b,1); if(mc_timeup()){ mc_capped("time"); return; } } }
/* directed networks with self-loops: sums only */
static void full(RG *g,int n,long m){ rg_init(g,n); for(int i=0;i<n;i++) for(int j=0;j<n;j++) if(m>>(i*n+j)&1){ g->has[i][j]=1; g->w[i][j]=1; } }
static void sec_dir(long arg){ int na=arg&7,nb=arg>>3&7,st=arg>>6; selections(nb,4); RG a,b; for(long x=0;x<1L<<(na*na);x+=st) for(long y=0;y<1L<<(nb*nb);y++) for(int s=0;s<nsel;s++){ full(&a,na,x); full(&b,nb,y); relabel(&b,0,sel[s]); pair(&a,&b,0); if(mc_timeup()){ mc_capped("time"); return; } } }
static void loops(long n){ RG g; for(long m=0;m<1L<<(n*n);m++){ full(&g,n,m); en_one(&g,0,""); } }
int main(int c,char **v){ int t=en_thorough(); char b[60]; large_register(); en_register(t?7:6,t?5:4,t?8:7,11); for(int n=1;n<=3;n++){ sprintf(b,"self-loops-%d",n); mc_section(b,loops,n); }
  for(int f=0;f<3;f++) for(int na=0;na<=4;na++) for(int nb=0;nb<=4;nb++){ int pool= na+nb>=7? (t?5:4) : 5; if(na==4&&nb==4&&f&&!t) continue; sprintf(b,"pairs/%d-%d/labels%d",na,nb,f); mc_section(b,sec_und,na|nb<<3|f<<6|pool<<8); }
  for(int na=1;na<=3;na++) for(int nb=1;nb<=3;nb++){ int st= na+nb==6? (t?1:41) : 1; sprintf(b,"directed-pairs/%d-%d",na,nb); mc_section(b,sec_dir,na|nb<<3|(long)st<<6); }
  return mc_main(c,v); }
#endif
