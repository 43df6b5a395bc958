/* C04: all operation histories of the stack, the queue and the integer stack up to a depth. */
#include "mc.h"
#include "datastruct.h"
#include "movements.h"
static int V[64];
static void chkS(struct stack*s,int*m,int n){ if(stack_empty(s)!=(n==0)) mc_fail("stack-empty","stack_empty=%d with %d elements",stack_empty(s),n); if(s->length!=n) mc_fail("stack-length","length %d, should be %d",s->length,n); void*t=stack_top(s); if(t!=(n?(void*)&V[m[n-1]]:NULL)) mc_fail("stack-top","wrong top with %d elements",n); if(stack_empty(s)!=(n==0)||s->length!=n) mc_fail("stack-top","stack_top changes the stack"); }
static void chkQ(struct queue*s,int*m,int h,int n){ if(queue_empty(s)!=(n==0)) mc_fail("queue-empty","queue_empty=%d with %d elements",queue_empty(s),n); if(s->length!=n) mc_fail("queue-length","length %d, should be %d",s->length,n); void*t=queue_first(s); if(t!=(n?(void*)&V[m[h]]:NULL)) mc_fail("queue-first","wrong first with %d elements",n); if(s->length!=n) mc_fail("queue-first","queue_first changes the queue"); }
/* ops: 0 push (fresh value), 1 push NULL-free repeat of value 0, 2 pop, 3 clear */
static void hist_stack(long depth){ long tot=1; for(int i=0;i<depth;i++) tot*=4; for(long c=0;c<tot;c++){ if(c%4096==0&&mc_timeup()){mc_capped("time");return;} mc_case("stack ops (base 4, low digit first) %ld depth %ld",c,depth); struct stack*s=stack_create(); int m[64],n=0,fresh=1; long x=c; chkS(s,m,n); for(int i=0;i<depth;i++,x/=4){ switch(x%4){ case 0: stack_push(s,&V[fresh]); m[n++]=fresh++; break; case 1: stack_push(s,&V[0]); m[n++]=0; break; case 2: { void*r=stack_pop(s); void*e=n?(void*)&V[m[--n]]:NULL; if(r!=e) mc_fail("stack-pop","op %d: wrong element popped",i); break; } case 3: stack_clear(s); n=0; break; } mc_trans(1); chkS(s,m,n); mc_outcome(mc_hash(m,n*sizeof(int))+n); } /* drain */ if(c&1){ while(n){ if(stack_pop(s)!=&V[m[--n]]) mc_fail("stack-drain","wrong order"); } if(stack_pop(s)) mc_fail("stack-drain","extra element"); chkS(s,m,0); } stack_free(s); mc_states(1); mc_traces(1); if(c==tot/3) mc_sample("stack history %ld of depth %ld (0 push new,1 push same,2 pop,3 clear)",c,depth);} }
static void hist_queue(long depth){ long tot=1; for(int i=0;i<depth;i++) tot*=4; for(long c=0;c<tot;c++){ if(c%4096==0&&mc_timeup()){mc_capped("time");return;} mc_case("queue ops (base 4, low digit first) %ld depth %ld",c,depth); struct queue*s=queue_create(); int m[64],h=0,n=0,fresh=1; long x=c; chkQ(s,m,h,n); for(int i=0;i<depth;i++,x/=4){ switch(x%4){ case 0: queue_enqueue(s,&V[fresh]); m[h+n++]=fresh++; break; case 1: queue_enqueue(s,&V[0]); m[h+n++]=0; break; case 2: { void*r=queue_dequeue(s); void*e=NULL; if(n){ e=&V[m[h++]]; n--; } if(r!=e) mc_fail("queue-dequeue","op %d: wrong element",i); break; } case 3: queue_clear(s); h+=n; n=0; break; } mc_trans(1); chkQ(s,m,h,n); mc_outcome(mc_hash(m+h,n*sizeof(int))+n); } if(c&1){ while(n){ if(queue_dequeue(s)!=&V[m[h]]) mc_fail("queue-drain","wrong order"); h++; n--; } if(queue_dequeue(s)) mc_fail("queue-drain","extra element"); chkQ(s,m,h,0); } queue_free(s); mc_states(1); mc_traces(1); if(c==tot/3) mc_sample("queue history %ld of depth %ld",c,depth);} }
static void hist_int(long depth){ for(int cap=1;cap<=6;cap++){ long tot=1; for(int i=0;i<depth;i++) tot*=4; for(long c=0;c<tot;c++){ if(c%4096==0&&mc_timeup()){mc_capped("time");return;} mc_case("int stack cap %d ops %ld depth %ld",cap,c,depth); Stack*s=CreateStack(cap); int m[64],n=0; long x=c; int ok=1; for(int i=0;i<depth&&ok;i++,x/=4){ int o=x%4; if(o<3){ if(n==cap){ ok=0; break; } int v=o==0?0:o==1?7:2147483647; AddToStack(v,s); m[n++]=v; } else { int r=PopFromStack(s); int e=n?m[--n]:-1; if(r!=e) mc_fail("intstack","op %d: popped %d, expected %d",i,r,e); } mc_trans(1); } while(n){ int r=PopFromStack(s); if(r!=m[--n]) mc_fail("intstack","drain: popped %d, expected %d",r,m[n]); } if(PopFromStack(s)!=-1||PopFromStack(s)!=-1) mc_fail("intstack","empty stack does not report -1"); FreeStack(s); mc_states(1); mc_traces(1);} } }
int main(int c,char**v){ int t=getenv("VERIF_TIER")&&!strcmp(getenv("VERIF_TIER"),"thorough"); int d=t?11:9;
  char b[30]; for(int k=1;k<=d;k++){ sprintf(b,"stack-depth-%d",k); mc_section(b,hist_stack,k); sprintf(b,"queue-depth-%d",k); mc_section(b,hist_queue,k); }
  mc_section("intstack",hist_int,t?8:7); return mc_main(c,v); }
