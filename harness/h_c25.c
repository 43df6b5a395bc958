/* C25: numeric helpers and lookup tables against direct computation */
#include "mc.h"
#include <unistd.h>
#include "tools.h"
static int close9(double a,double b){ return mc_closet(a,b,1e-9); }
static long double lfact(int n){ static long double t[4000]; static int m; if(!m) m=1; for(;m<=n;m++) t[m]=t[m-1]+logl(m); return t[n]; }
/* tables of every size; every order of first two lookups */
static void sec_tables(long arg){ for(int size=arg;size<=60;size+=4){ int top=2*size+20; mc_case("tables of size %d",size); mc_states(1); mc_traces(1);
    double *l=InitializeFastLog(size),*f=InitializeFastLogFact(size),*h=InitializeHarmonicList(size?size:1); long double H=0;
    for(int r=0;r<=top;r++){ mc_trans(2); if(r>0&&!close9(FastLog(r,l,size),logl(r))) mc_fail("FastLog","log %d with table of %d is %.12g",r,size,FastLog(r,l,size)); if(!close9(FastLogFact(r,f,size),lfact(r))) mc_fail("FastLogFact","log %d! with table of %d is %.12g",r,size,FastLogFact(r,f,size)); if(r<size){ if(r) H+=1.0L/r; if(!close9(h[r],H)) mc_fail("Harmonic","H(%d) is %.12g instead of %.12Lg",r,h[r],H); } }
    if(size&&!(isinf(FastLog(0,l,size))&&FastLog(0,l,size)<0)) mc_fail("FastLog","log 0 is %g",FastLog(0,l,size)); if(size==0&&!isinf(FastLog(0,l,size))) mc_fail("FastLog","log 0 is %g",FastLog(0,l,size));
    FreeFastLog(l); FreeFastLogFact(f); FreeHarmonicList(h);
    for(int x2=1;x2<=7;x2++){ double x=x2*0.5; double *g=InitializeFastLogGamma(size,x); for(int r=0;r<=top;r++){ mc_trans(1); if(!close9(FastLogGamma(r,g,size,x),lgammal(r+(long double)x))) mc_fail("FastLogGamma","log gamma(%d+%g) with table of %d is %.12g",r,x,size,FastLogGamma(r,g,size,x)); } FreeFastLogGamma(g); }
    double **c=InitializeFastLogChoose(size); for(int rep=0;rep<2;rep++) for(int r=rep?top:0;rep?r>=0:r<=top;r+=rep?-1:1) for(int k=0;k<=r;k++){ mc_trans(1); double v=FastLogChoose(r,k,c,size); long double w=lfact(r)-lfact(k)-lfact(r-k); if(fabsl(v-w)>1e-9*(1+fabsl(w))){ mc_fail("FastLogChoose","log C(%d,%d) with table of %d is %.12g instead of %.12Lg",r,k,size,v,w); break; } } FreeFastLogChoose(c,size); } }
/* order of lookups: all sequences of three lookups on a fresh small table */
static void sec_orders(long size){ int top=size+2,n=0,R[200],K[200]; for(int r=0;r<=top;r++) for(int k=0;k<=r;k++){ R[n]=r; K[n++]=k; } double **c=NULL; for(int a=0;a<n;a++) for(int b=0;b<n;b++) for(int d=0;d<n;d++){ c=InitializeFastLogChoose(size); int q[3]={a,b,d}; mc_case("table of %ld, lookups C(%d,%d) C(%d,%d) C(%d,%d)",size,R[a],K[a],R[b],K[b],R[d],K[d]); mc_states(1); mc_traces(1); for(int i=0;i<3;i++){ mc_trans(1); double v=FastLogChoose(R[q[i]],K[q[i]],c,size); long double w=lfact(R[q[i]])-lfact(K[q[i]])-lfact(R[q[i]]-K[q[i]]); if(fabsl(v-w)>1e-9) mc_fail("FastLogChoose","lookup %d gives %.12g instead of %.12Lg",i,v,w); } FreeFastLogChoose(c,size); } }
static void sec_choose(long x){ (void)x; static unsigned long long P[60][60]; for(int n=0;n<=56;n++) for(int k=0;k<=56;k++){ P[n][k]= k==0?1: n==0?0: P[n-1][k-1]+P[n-1][k]; mc_case("C(%d,%d)",n,k); mc_trans(2); mc_states(1); if(P[n][k]<(1ull<<48)||k>n){ long double v=Choose(n,k); if(v!=(long double)P[n][k]) mc_fail("Choose","is %.0Lf instead of %llu",v,P[n][k]); } if(k<=n&&!close9(LogChoose(n,k),logl(P[n][k]))) mc_fail("LogChoose","is %.12g instead of %.12Lg",LogChoose(n,k),logl(P[n][k])); }
  for(int n=57;n<=600;n++) for(int k=0;k<=n;k++){ mc_case("C(%d,%d)",n,k); long double w=lfact(n)-lfact(k)-lfact(n-k); mc_trans(1); mc_states(1); if(!close9(LogChoose(n,k),w)) mc_fail("LogChoose","is %.12g",LogChoose(n,k)); if(w<300&&fabsl(logl(Choose(n,k))-w)>1e-9*(1+w)) mc_fail("Choose","log is %.12Lg instead of %.12Lg",logl(Choose(n,k)),w); }
  long w=1; for(int n=0;n<=20;n++){ if(n) w*=n; mc_case("%d!",n); mc_states(1); mc_trans(1); if(fact(n)!=w) mc_fail("fact","is %ld instead of %ld",fact(n),w); } mc_traces(1); }
/* all vectors of a length over a value set, at two scales */
static const double vals[]={0,1,-1,2,0.1,-2.5,1e3}; 
static void sec_stat(long arg){ int n=arg&15,nv=arg>>4&15; double sc= arg>>8&1? 1e-3 : 1; int c[8]={0}; double d[9]; for(;;){ double mn=1e99,mx=-1e99; long double s=0,v=0; for(int i=0;i<n;i++){ d[i]=vals[c[i]]*sc; if(d[i]<mn) mn=d[i]; if(d[i]>mx) mx=d[i]; s+=d[i]; } d[n]=1e9; s/=n; for(int i=0;i<n;i++) v+=(d[i]-s)*(d[i]-s); long double sd=sqrtl(v/n); char t[200]; int l=0; for(int i=0;i<n;i++) l+=snprintf(t+l,200-l," %g",d[i]); mc_case("vector%s",t); mc_states(1); mc_traces(1); mc_trans(4);
    if(!close9(mean(d,n),s)) mc_fail("mean","is %.12g instead of %.12Lg",mean(d,n),s); if(min(d,n)!=mn) mc_fail("min","is %g",min(d,n)); if(max(d,n)!=mx) mc_fail("max","is %g",max(d,n));
    double big=fabs(mn)>fabs(mx)?fabs(mn):fabs(mx); double x=stddev(d,n); /* the difference of two rounded means: error of order sqrt(eps)*scale near zero */ if(!(x>=0)||fabsl(x-sd)>1e-7*big+1e-12) mc_fail("stddev","is %.12g instead of %.12Lg",x,sd); if(sd>1e-3*big&&fabsl(x-sd)>1e-8*sd) mc_fail("stddev","is %.12g instead of %.12Lg",x,sd);
    int q=0; while(q<n&&++c[q]==nv) c[q++]=0; if(q>=n) break; if(mc_timeup()){ mc_capped("time"); return; } } }
static void sec_const(long x){ (void)x; static const double v[]={0.1,0.3,1./3,1e-3,7.7,-0.1,1e5+0.1,123456.789,1e-8}; for(unsigned i=0;i<sizeof v/sizeof *v;i++) for(int n=1;n<=400;n++){ double d[400]; for(int k=0;k<n;k++) d[k]=v[i]; mc_case("%d times %g",n,v[i]); mc_states(1); mc_traces(1); mc_trans(4); double s=stddev(d,n); if(!(s>=0)||s>1e-6*fabs(v[i])) mc_fail("stddev","of equal values is %g",s); if(!close9(mean(d,n),v[i])) mc_fail("mean","of equal values is %.12g",mean(d,n)); if(min(d,n)!=v[i]||max(d,n)!=v[i]) mc_fail("min/max","of equal values are %g %g",min(d,n),max(d,n)); } }
/* matrices and vectors: distinct cells, zeroed reals, printing */
static void sec_alloc(long x){ (void)x; for(int r=1;r<=12;r++) for(int c=1;c<=12;c++){ mc_case("%dx%d matrices",r,c); mc_states(1); mc_traces(1); int **m=allocate_i_mat(r,c); double **d=allocate_d_mat(r,c); for(int i=0;i<r;i++) for(int j=0;j<c;j++){ if(d[i][j]!=0) mc_fail("zero","new matrix has %g",d[i][j]); m[i][j]=i*100+j; d[i][j]=i*100+j; } for(int i=0;i<r;i++) for(int j=0;j<c;j++) if(m[i][j]!=i*100+j||d[i][j]!=i*100+j) mc_fail("cells","cells overlap"); 
    char *t=NULL; size_t l=0; FILE *f=open_memstream(&t,&l); fprintf_i_mat(f,m,r,c); fclose(f); char *p=t; for(int i=0;i<r;i++) for(int j=0;j<c;j++){ int a,b,v,k; if(sscanf(p,"%d %d %d\n%n",&a,&b,&v,&k)!=3||a!=i+1||b!=j+1||v!=m[i][j]){ mc_fail("print","entry %d,%d printed as %.20s",i,j,p); i=r; break; } p+=k; } free(t); mc_trans(3); free_i_mat(m,r); free_d_mat(d,r); int *iv=allocate_i_vec(c); double *dv=allocate_d_vec(c); for(int j=0;j<c;j++){ iv[j]=j; dv[j]=j; } free_i_vec(iv); free_d_vec(dv); } }
/* files: every sequence of up to 4 (5) lines out of a set of lengths, with and without final newline */
static void sec_lines(long arg){ static const int len[]={0,1,5,997,998,999,1000,1998,1999,2500}; int n=arg&7,last=arg>>3&1; if(n==0&&last) return; int c[6]={0},nl=10; static char buf[20000]; char path[300]; snprintf(path,300,"%s/f",mc_tmpdir()); for(;;){ int l=0; char t[100]; int tl=0; for(int i=0;i<n;i++){ memset(buf+l,'x',len[c[i]]); l+=len[c[i]]; if(!(last&&i==n-1)) buf[l++]='\n'; tl+=snprintf(t+tl,100-tl," %d",len[c[i]]); } t[tl]=0; int want=n; if(last&&len[c[n-1]]==0) want=n-1; 
    FILE *f=fopen(path,"w"); fwrite(buf,1,l,f); fclose(f); mc_case("file with lines of length%s%s",t,last?", no final newline":""); mc_states(1); mc_trans(1); mc_traces(1); int g=CountLinesInFile(path); if(g!=want) mc_fail("CountLines","%d lines counted instead of %d",g,want); mc_outcome(g); int q=0; while(q<n&&++c[q]==nl) c[q++]=0; if(q>=n) break; if(mc_timeup()){ mc_capped("time"); break; } } unlink(path); }
/* geometric distribution: number of draws above p before the first one below it */
static double gp; static const double *gal; static void gbody(void *v){ (void)v; int d0=mc_ndraws(); int k=geometric_dist_val(gp,mc_rng()); int used=mc_ndraws()-d0; mc_trans(1); if(k!=used-1) mc_fail("geometric","returned %d after %d draws",k,used); mc_outcome(k); }
static void sec_geo(long x){ static const double ps[]={0.05,0.3,0.5,0.9,1}; for(int i=0;i<5;i++){ gp=ps[i]; static double al[3]; al[0]=gp/2; al[1]=(gp+1)/2>=1?0.999:(gp+1)/2; al[2]=gp*0.999; gal=al; mc_case("geometric, p=%g",gp); mc_states(1); mc_rc.free_depth=7; mc_rc.max_dev=0; mc_rc.dev_horizon=0; mc_rc.nalpha=3; mc_rc.alpha=al; mc_rc.hard_horizon=100000; mc_rc.seed=1; mc_dfs(gbody,NULL); 
    /* directly: the value is the number of leading draws above p */
    for(int k=0;k<=12;k++){ double s[14]; for(int j=0;j<k;j++) s[j]=(gp+1)/2; s[k]=gp/2; s[k+1]=gp/3; if(gp==1&&k) continue; mc_script(s,k+2); mc_case("geometric, p=%g, %d draws above p, then one below",gp,k); int g=geometric_dist_val(gp,mc_rng()); mc_trans(1); mc_traces(1); if(g!=k||mc_script_overrun()) mc_fail("geometric","returned %d",g); mc_script(NULL,0); } } (void)x; }
int main(int c,char **v){ const char *ti=getenv("VERIF_TIER"); int t=ti&&!strcmp(ti,"thorough"); char b[60];
  for(int i=0;i<4;i++){ sprintf(b,"tables/%d",i); mc_section(b,sec_tables,i); } for(int s=0;s<=(t?6:4);s++){ sprintf(b,"lookup-orders/%d",s); mc_section(b,sec_orders,s); } mc_section("binomials",sec_choose,0);
  for(int n=1;n<=(t?8:6);n++) for(int q=0;q<2;q++){ sprintf(b,"statistics/%d/%d",n,q); mc_section(b,sec_stat,n|(n<=6?7:5)<<4|q<<8); } mc_section("constant-vectors",sec_const,0); mc_section("matrices",sec_alloc,0); for(int n=0;n<=(t?4:3);n++) for(int q=0;q<2;q++){ sprintf(b,"lines/%d/%d",n,q); mc_section(b,sec_lines,n|q<<3); } mc_section("geometric",sec_geo,0); return mc_main(c,v); }
