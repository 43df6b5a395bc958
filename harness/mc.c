#define _GNU_SOURCE
#include "mc.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <setjmp.h>
#include <time.h>
#include <errno.h>
#include <dirent.h>

#define CASE_LEN 6000
#define MAXFAIL 8
#define MAXSAMPLE 3
struct fail { char sig[120]; char msg[1500]; char cas[CASE_LEN]; };
struct shm {
  volatile long progress;
  volatile int done;
  int hang;
  long states, trans, traces, execs, nfail_total;
  int nfail; struct fail fails[MAXFAIL];
  int nsample; char sample[MAXSAMPLE][800];
  int caplen; char capped[300];
  uint64_t outc[1024]; long noutc;      /* small open table + count */
  char cas[CASE_LEN]; int caslen, caslen_base;
  int live, chpos; double chval[600]; /* choices of the running execution */
};
struct sect { const char *name; mc_fn fn; long arg; struct shm *s; pid_t pid; int state; double t0, t1; char tmp[200]; };
#define MAXSECT 512
static struct sect sects[MAXSECT]; static int nsect;
static struct shm *S;
static struct sect *CUR;
int mc_thorough; const char *mc_only;
FILE *mc_devnull;
static double t_end;
static double now(void){ struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+1e-9*t.tv_nsec; }
int mc_timeup(void){ return now()>t_end; }

void mc_section(const char *name, mc_fn fn, long arg){
  if (nsect>=MAXSECT) { fprintf(stderr,"too many sections\n"); exit(2);} 
  sects[nsect].name=strdup(name); sects[nsect].fn=fn; sects[nsect].arg=arg; nsect++;
}
static void vput(const char *fmt, va_list ap, int append){
  if (!append) { S->caslen=0; S->cas[0]=0; }
  int room=CASE_LEN-S->caslen-1; if (room<=1) return;
  int k=vsnprintf(S->cas+S->caslen,room,fmt,ap);
  if (k>room-1) k=room-1; if (k>0) S->caslen+=k;
}
void mc_tick(void){ S->progress++; }
void mc_case(const char *fmt,...){ va_list ap; va_start(ap,fmt); vput(fmt,ap,0); va_end(ap); S->caslen_base=S->caslen; S->progress++; }
void mc_step(const char *fmt,...){ va_list ap; va_start(ap,fmt); vput(fmt,ap,1); va_end(ap); S->progress++; }
static char choicebuf[4000];
static const char *choices_text(void);
void mc_fail(const char *sig,const char *fmt,...){
  S->nfail_total++;
  for (int i=0;i<S->nfail;i++) if (!strcmp(S->fails[i].sig,sig)) return;
  if (S->nfail>=MAXFAIL) return;
  static int ff=-1; if(ff<0) ff=getenv("MC_FAILFAST")!=NULL;
  struct fail *f=&S->fails[S->nfail];
  snprintf(f->sig,sizeof f->sig,"%s",sig);
  va_list ap; va_start(ap,fmt); vsnprintf(f->msg,sizeof f->msg,fmt,ap); va_end(ap);
  snprintf(f->cas,sizeof f->cas,"%s%s",S->cas,choices_text());
  S->nfail++; if(ff) _exit(9);
}
void mc_states(long n){ S->states+=n; }
void mc_trans(long n){ S->trans+=n; }
void mc_traces(long n){ S->traces+=n; }
void mc_sample(const char *fmt,...){ if (S->nsample>=MAXSAMPLE) return; va_list ap; va_start(ap,fmt);
  vsnprintf(S->sample[S->nsample],sizeof S->sample[0],fmt,ap); va_end(ap); S->nsample++; }
void mc_outcome(uint64_t h){ if(!h)h=1; for(int i=0;i<8;i++){ size_t k=(h+i)%1024; if(S->outc[k]==h)return; if(!S->outc[k]){S->outc[k]=h;S->noutc++;return;} } }
void mc_capped(const char *what){ if (strstr(S->capped,what)) return; int l=strlen(S->capped); snprintf(S->capped+l,sizeof S->capped-l,"%s; ",what); }
int mc_closet(double a,double b,double tol){ if (isnan(a)&&isnan(b)) return 1; if (a==b) return 1; double d=fabs(a-b); double m=fmax(fabs(a),fabs(b)); return d<=tol*(1.0+m); }
int mc_close(double a,double b){ return mc_closet(a,b,1e-9); }

/* ---------------- choices ---------------- */
#define MAXPOS 20000
static int ch_n[MAXPOS], ch_v[MAXPOS]; static double ch_val[MAXPOS];
static int pos, prefix, in_dfs, draws, devs;
static jmp_buf bail; static int bail_ok;
mc_rngcfg mc_rc;
static const double *scr; static int scr_n, scr_i, scr_over; int mc_script_abort;
static uint64_t mix(uint64_t x){ x+=0x9E3779B97F4A7C15ull; x=(x^(x>>30))*0xBF58476D1CE4E5B9ull; x=(x^(x>>27))*0x94D049BB133111EBull; return x^(x>>31);} 
static const char *choices_text(void){
  choicebuf[0]=0; if (!in_dfs) return choicebuf;
  int l=snprintf(choicebuf,sizeof choicebuf," | choices:");
  for (int i=0;i<pos && l<(int)sizeof choicebuf-40;i++) { if (ch_val[i]>=0) l+=snprintf(choicebuf+l,sizeof choicebuf-l," %.6g",ch_val[i]); else l+=snprintf(choicebuf+l,sizeof choicebuf-l," #%d/%d",ch_v[i],ch_n[i]); }
  return choicebuf;
}
static int pick(int n){
  if (pos>=MAXPOS) { mc_fail("nontermination","more than %d choices in one execution",MAXPOS); if (bail_ok) longjmp(bail,1); _exit(9);} 
  if (pos<prefix) {
    if (ch_n[pos]!=n) { mc_fail("nondeterminism","replaying a prefix of choices diverged at choice %d (%d options, expected %d)",pos,n,ch_n[pos]); if (bail_ok) longjmp(bail,2); _exit(9);} 
  } else { ch_n[pos]=n; ch_v[pos]=0; }
  S->chpos=pos; return ch_v[pos++];
}
int mc_choose(int n){ if (n<=1) return 0; int v=pick(n); ch_val[pos-1]=-1; if (pos<600) S->chval[pos-1]=-1-v; return v; }
static double draw(void){
  int d=draws++; S->progress++;
  if (scr) { if (scr_i<scr_n) return scr[scr_i++]; scr_over++; if (mc_script_abort && bail_ok) longjmp(bail,3); return (double)(mix(mc_rc.seed*1000003ull+d)>>11)/9007199254740992.0; }
  if (mc_rc.hard_horizon && d>mc_rc.hard_horizon) { mc_fail("nontermination","more than %d random draws without finishing",mc_rc.hard_horizon); if (bail_ok) longjmp(bail,1); _exit(9);} 
  double def=(double)(mix(mc_rc.seed*1000003ull+d)>>32)/4294967296.0;
  if (!in_dfs) return def;
  double r;
  if (d<mc_rc.free_depth) { r=mc_rc.alpha[pick(mc_rc.nalpha)]; ch_val[pos-1]=r; if (pos<600) S->chval[pos-1]=r; return r; }
  if (devs<mc_rc.max_dev && d<mc_rc.dev_horizon) { int c=pick(1+mc_rc.nalpha); if (c==0) r=def; else { devs++; r=mc_rc.alpha[c-1]; } ch_val[pos-1]=r; if (pos<600) S->chval[pos-1]=r; return r; }
  return def;
}
int mc_ndraws(void){ return draws; }
long mc_dfs(void (*body)(void*),void *arg){
  long ex=0; prefix=0;
  for (;;) {
    pos=0; draws=0; devs=0; in_dfs=1; ex++; S->progress++;
    S->caslen=S->caslen_base; S->cas[S->caslen]=0;
    bail_ok=1; int j=setjmp(bail);
    S->live=1; S->chpos=-1; if (!j) body(arg);
    bail_ok=0; in_dfs=0; S->live=0;
    if (j==0 && pos<prefix) { mc_fail("nondeterminism","a replayed prefix of %d choices ended after %d",prefix,pos); }
    int i=pos-1; while (i>=0 && ch_v[i]+1>=ch_n[i]) i--;
    if (i<0) break;
    ch_v[i]++; prefix=i+1;
    if ((ex&1023)==0 && mc_timeup()) { mc_capped("time budget in choice exploration"); break; }
    if (S->nfail>=MAXFAIL) break;
  }
  S->execs+=ex; S->traces+=ex;
  return ex;
}
void mc_script(const double *v,int n){ scr=v; scr_n=n; scr_i=0; scr_over=0; draws=0; }
int mc_script_overrun(void){ return scr_over; }
int mc_script_run(void (*body)(void*),void *arg,const double *v,int n){
  mc_script(v,n); mc_script_abort=1; bail_ok=1; int j=setjmp(bail); if (!j) body(arg); bail_ok=0; mc_script_abort=0; scr=NULL; return j!=0; }
/* the generator */
static void r_set(void *st,unsigned long s){ (void)st;(void)s; }
static unsigned long r_get(void *st){ (void)st; return (unsigned long)(draw()*4294967296.0); }
static double r_getd(void *st){ (void)st; return draw(); }
static const gsl_rng_type r_type={"explorer",0xffffffffUL,0,sizeof(long),r_set,r_get,r_getd};
static long r_state; static gsl_rng r_gen={&r_type,&r_state};
gsl_rng *mc_rng(void){ return &r_gen; }

/* ---------------- helpers ---------------- */
const char *mc_tmpdir(void){ return CUR->tmp; }
FILE *mc_memfile(const char *text){ size_t n=strlen(text); if (n) return fmemopen((void*)text,n,"r"); return fopen("/dev/null","r"); }
uint64_t mc_hash(const void *p,size_t n){ const unsigned char *c=p; uint64_t h=1469598103934665603ull; for(size_t i=0;i<n;i++){h^=c[i];h*=1099511628211ull;} return mix(h);} 
int mc_next_rgs(int *a,int n){ int m[64]; m[0]=0; for(int i=1;i<n;i++) m[i]=a[i-1]>m[i-1]?a[i-1]:m[i-1]; for(int i=n-1;i>0;i--) if (a[i]<=m[i]) { a[i]++; for(int j=i+1;j<n;j++) a[j]=0; return 1;} return 0; }
int mc_next_perm(int *a,int n){ int i=n-2; while(i>=0&&a[i]>=a[i+1]) i--; if(i<0) return 0; int j=n-1; while(a[j]<=a[i]) j--; int t=a[i];a[i]=a[j];a[j]=t; for(int l=i+1,r=n-1;l<r;l++,r--){t=a[l];a[l]=a[r];a[r]=t;} return 1; }
int mc_set_add(mc_set *s,uint64_t k){ if(!k)k=1; if (s->n*2>=s->cap){ size_t oc=s->cap; uint64_t*o=s->t; s->cap=oc?oc*2:1024; s->t=calloc(s->cap,8); s->n=0; for(size_t i=0;i<oc;i++) if(o[i]) mc_set_add(s,o[i]); free(o);} size_t i=k&(s->cap-1); while(s->t[i]){ if(s->t[i]==k) return 0; i=(i+1)&(s->cap-1);} s->t[i]=k; s->n++; return 1; }
void mc_set_free(mc_set *s){ free(s->t); memset(s,0,sizeof *s); }

/* ---------------- running ---------------- */
static long last_prog; static int stuck; static int hang_limit=40; void mc_hang(int s){ if(!getenv("MC_HANG")) hang_limit=s; }
static void onprof(int sig){ (void)sig; if (S->progress==last_prog) { if (++stuck>=hang_limit) { S->hang=1; _exit(77);} } else { last_prog=S->progress; stuck=0; } }
static void rmtree(const char *d){ DIR*D=opendir(d); if(D){ struct dirent*e; char p[600]; while((e=readdir(D))){ if(!strcmp(e->d_name,".")||!strcmp(e->d_name,"..")) continue; snprintf(p,sizeof p,"%s/%s",d,e->d_name); unlink(p);} closedir(D);} rmdir(d); }
static void child(struct sect *c,const char *scratch){
  CUR=c; S=c->s; (void)scratch;
  int dn=open("/dev/null",O_RDWR); dup2(dn,0); dup2(dn,1);
  char p[300]; snprintf(p,sizeof p,"%s.err",c->tmp); int e=open(p,O_CREAT|O_WRONLY|O_TRUNC|O_APPEND,0600); dup2(e,2);
  struct rlimit rl={64<<20,64<<20}; setrlimit(RLIMIT_FSIZE,&rl); rl.rlim_cur=rl.rlim_max=0; setrlimit(RLIMIT_CORE,&rl);
  signal(SIGXFSZ,SIG_IGN);
  mc_devnull=fopen("/dev/null","w");
  if (chdir(c->tmp)) _exit(70);
  struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_handler=onprof; sa.sa_flags=SA_RESTART; sigaction(SIGPROF,&sa,NULL);
  struct itimerval it={{1,0},{1,0}}; setitimer(ITIMER_PROF,&it,NULL);
  c->fn(c->arg); if (!S->nsample && S->caslen) mc_sample("last case: %s",S->cas); S->done=1; fflush(NULL); _exit(0);
}
static void jstr(FILE*f,const char*s){ fputc('"',f); for(;*s;s++){ unsigned char ch=*s; if(ch=='"'||ch=='\\') fprintf(f,"\\%c",ch); else if(ch=='\n') fputs("\\n",f); else if(ch=='\t') fputs("\\t",f); else if(ch<32||ch>126) fprintf(f,"\\u%04x",ch); else fputc(ch,f);} fputc('"',f);} 
int mc_main(int argc,char**argv){
  const char*t=getenv("VERIF_TIER"); mc_thorough=t&&!strcmp(t,"thorough");
  const char*out=argc>1?argv[1]:"/dev/stdout"; const char*scratch=argc>2?argv[2]:"/tmp";
  double budget=argc>3?atof(argv[3]):600; mc_only=argc>4?argv[4]:NULL;
  double t0=now(); t_end=t0+budget; double t_fail=0,grace=200; const char*gs=getenv("MC_GRACE"); if(gs) grace=atof(gs); int J=8; const char*j=getenv("MC_JOBS"); if(j) J=atoi(j);
  const char*hl=getenv("MC_HANG"); if(hl) hang_limit=atoi(hl);
  int running=0,next=0;
  for(int i=0;i<nsect;i++){ sects[i].s=mmap(NULL,sizeof(struct shm),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); snprintf(sects[i].tmp,sizeof sects[i].tmp,"%s/sect%d.%d",scratch,i,(int)getpid()); }
  for(;;){
    while(running<J&&next<nsect){ struct sect*c=&sects[next++]; if(mc_only&&strcmp(mc_only,c->name)) {c->state=3;continue;} c->t0=now(); mkdir(c->tmp,0700); fflush(NULL); c->pid=fork(); if(c->pid==0) child(c,scratch); if (c->pid<0){perror("fork");return 2;} c->state=1; running++; }
    if(!running) break;
    /* once something failed the verdict is settled: the rest gets MC_GRACE seconds (a broken tree may hang in every section) */
    int st; pid_t p=t_fail?waitpid(-1,&st,WNOHANG):wait(&st); if(p<0){ if(errno==EINTR) continue; break; }
    if(t_fail&&now()>t_fail+grace){ for(int i=0;i<nsect;i++) if(sects[i].state==1){ if(sects[i].pid!=p) { kill(sects[i].pid,SIGKILL); waitpid(sects[i].pid,&st,0); } char err[300]; snprintf(err,sizeof err,"%s.err",sects[i].tmp); unlink(err); rmtree(sects[i].tmp); sects[i].state=2; sects[i].t1=now(); if(!*sects[i].s->capped) strcpy(sects[i].s->capped,"stopped after a violation"); } break; }
    if(p==0){ usleep(20000); continue; }
    for(int i=0;i<nsect;i++) if(sects[i].state==1&&sects[i].pid==p){ struct sect*c=&sects[i]; c->state=2; c->t1=now(); running--; S=c->s; char err[300]; snprintf(err,sizeof err,"%s.err",c->tmp);
      if(!c->s->done && S->nfail<MAXFAIL){ struct fail*f=&S->fails[S->nfail]; char head[900]=""; FILE*e=fopen(err,"r"); if(e){ char ln[400]; while(fgets(ln,sizeof ln,e)) if(strstr(ln,"ERROR: AddressSanitizer")||strstr(ln,"runtime error")||strstr(ln,"SUMMARY")||(strstr(ln,"    #")&&strlen(head)<600)){ ln[strcspn(ln,"\n")]=0; strncat(head,ln,sizeof head-strlen(head)-3); strcat(head," "); if (strlen(head)>sizeof head-410) break; } fclose(e);} 
        if(S->hang){ snprintf(f->sig,sizeof f->sig,"hang:%s",c->name); snprintf(f->msg,sizeof f->msg,"no progress for %d CPU seconds",hang_limit);} 
        else if (WIFEXITED(st)&&WEXITSTATUS(st)==9) { /* already reported */ f=NULL; }
        else { snprintf(f->sig,sizeof f->sig,"crash:%s",c->name); if(WIFSIGNALED(st)) snprintf(f->msg,sizeof f->msg,"terminated by signal %d. %s",WTERMSIG(st),head); else snprintf(f->msg,sizeof f->msg,"exited with status %d. %s",WEXITSTATUS(st),head);} 
        if(f){ int l=snprintf(f->cas,sizeof f->cas,"%s",S->cas); if (S->live) { l+=snprintf(f->cas+l,sizeof f->cas-l," | choices:"); for (int k=0;k<=S->chpos&&k<599&&l<(int)sizeof f->cas-40;k++) l+=snprintf(f->cas+l,sizeof f->cas-l,S->chval[k]<0?" #%.0f":" %.6g",S->chval[k]<0?-1-S->chval[k]:S->chval[k]); } S->nfail++; S->nfail_total++; } }
      if(S->nfail_total&&!t_fail) t_fail=now();
      unlink(err); rmtree(c->tmp); }
  }
  FILE*f=fopen(out,"w"); if(!f){perror(out);return 2;}
  fprintf(f,"{\"wall\":%.3f,\"sections\":[",now()-t0); int first=1;
  for(int i=0;i<nsect;i++){ struct sect*c=&sects[i]; if(c->state!=2) continue; S=c->s; if(!first) fputc(',',f); first=0; fprintf(f,"\n{\"name\":"); jstr(f,c->name);
    fprintf(f,",\"states\":%ld,\"transitions\":%ld,\"traces\":%ld,\"outcomes\":%ld,\"capped\":",S->states,S->trans,S->traces,S->noutc); jstr(f,S->capped); fprintf(f,",\"samples\":["); for(int k=0;k<S->nsample;k++){ if(k)fputc(',',f); jstr(f,S->sample[k]); }
    fprintf(f,"],\"wall\":%.2f,\"nfail\":%ld,\"fails\":[",c->t1-c->t0,S->nfail_total); for(int k=0;k<S->nfail;k++){ if(k)fputc(',',f); fprintf(f,"{\"sig\":"); jstr(f,S->fails[k].sig); fprintf(f,",\"msg\":"); jstr(f,S->fails[k].msg); fprintf(f,",\"case\":"); jstr(f,S->fails[k].cas); fputc('}',f);} fprintf(f,"]}"); }
  fprintf(f,"\n]}\n"); fclose(f); return 0;
}
