/* C03: label lookup. (a) the complete reachable state space of the bundled search tree over k keys
   (every insert/delete/find in every reachable tree); (b) all insertion x deletion orders; (c) label
   dictionaries of networks for every order of a set of tricky labels. */
#define _GNU_SOURCE
#include "hg.h"
#include <search.h>
static int K; static int keys[64];
static int cmp(const void*a,const void*b){ int x=*(const int*)a,y=*(const int*)b; return x<y?-1:x>y; }
/* observation by walking */
static int wk[64],wn,wlev[64],pre[64],prel[64],npre,maxlev,bad;
static void act(const void*nodep,VISIT v,int depth){ int key=**(int*const*)nodep; if(v==postorder||v==leaf){ if(wn<64){wk[wn]=key;wlev[wn]=depth;wn++;} } if(v==preorder||v==leaf){ if(npre<64){pre[npre]=key;prel[npre]=depth;npre++;} } if(depth>maxlev)maxlev=depth; }
struct nt { const void*key; struct nt*l,*r; unsigned red:1; };
static int enc(struct nt*n,unsigned char*b,int l){ if(!n){ b[l++]=255; return l; } b[l++]=(unsigned char)((*(const int*)n->key)*2+n->red); l=enc(n->l,b,l); return enc(n->r,b,l); }
static uint64_t canon(void*root){ unsigned char b[300]; int l=enc(root,b,0); if(root) b[1-1]&=~1; return mc_hash(b,l); }
static void check(void**root,unsigned set,const char*when){ wn=npre=0; maxlev=0; twalk(*root,act); int n=__builtin_popcount(set); if(wn!=n){ mc_fail("walk","%s: walk visits %d keys, %d are stored",when,wn,n); return; } int i=0; for(int k=0;k<K;k++) if(set>>k&1){ if(wk[i]!=k) { mc_fail("walkorder","%s: walk position %d is key %d, expected %d",when,i,wk[i],k); return; } i++; }
  if(n){ int h=maxlev+1; double lim=2*log2(n+1)+1e-9; if(h>lim) mc_fail("balance","%s: height %d for %d keys",when,h,n); }
  for(int k=0;k<K;k++){ int probe=k; void*r=tfind(&probe,root,cmp); if((r!=NULL)!=(set>>k&1)) mc_fail("find","%s: key %d %s",when,k,r?"found but absent":"not found but present"); else if(r&&*(int**)r!=&keys[k]) mc_fail("find","%s: key %d found at another entry",when,k); } }
static void *freed[64]; static int nfreed; static void onfree(void*p){ if(nfreed<64) freed[nfreed++]=p; }
static void destroy(void*root,unsigned set){ nfreed=0; tdestroy(root,onfree); if(nfreed!=__builtin_popcount(set)) mc_fail("destroy","tdestroy frees %d keys of %d",nfreed,__builtin_popcount(set)); for(int i=0;i<nfreed;i++){ int k=(int*)freed[i]-keys; if(k<0||k>=K||!(set>>k&1)) mc_fail("destroy","tdestroy frees a foreign key"); else set&=~(1u<<k); } }
static void ins(void**root,int k,unsigned*set){ static int probe; probe=k; void*r; if(*set>>k&1) { r=tsearch(&probe,root,cmp); if(!r||*(int**)r!=&keys[k]) mc_fail("reinsert","inserting present key %d does not return the existing entry",k); } else { r=tsearch(&keys[k],root,cmp); if(!r||*(int**)r!=&keys[k]) mc_fail("insert","inserting key %d does not return its entry",k); *set|=1u<<k; } }
static void del(void**root,int k,unsigned*set){ int probe=k; void*r=tdelete(&probe,root,cmp); if((r!=NULL)!=(*set>>k&1)) mc_fail("delete","deleting key %d returns %s",k,r?"success though absent":"failure though present"); *set&=~(1u<<k); }
typedef struct { unsigned char d,o[60]; } H;
static void space(long k){ K=k; for(int i=0;i<64;i++) keys[i]=i; mc_set seen={0}; H*cur=calloc(1,sizeof(H)),*nxt=NULL; long nc=1,cap,nn; int depth=0; mc_set_add(&seen,canon(NULL));
  while(nc){ cap=nn=0; nxt=NULL; for(long c=0;c<nc;c++){ if(mc_timeup()){ mc_capped("time"); break; } for(int o=0;o<2*K;o++){ void*root=NULL; unsigned set=0; mc_case("keys 0..%d, ops:",K-1); for(int i=0;i<cur[c].d;i++){ int q=cur[c].o[i]; mc_step(" %s%d",q<K?"+":"-",q%K); if(q<K) ins(&root,q,&set); else del(&root,q-K,&set); } mc_step(" %s%d",o<K?"+":"-",o%K); if(o<K) ins(&root,o,&set); else del(&root,o-K,&set); mc_trans(1); check(&root,set,"after the last op"); mc_traces(1); uint64_t h=canon(root); if(mc_set_add(&seen,h)){ mc_states(1); mc_outcome(h); if(nn==cap){cap=cap?2*cap:256; nxt=realloc(nxt,cap*sizeof(H));} nxt[nn]=cur[c]; if(nxt[nn].d<59) nxt[nn].o[nxt[nn].d++]=o; nn++; } destroy(root,set); } }
    free(cur); cur=nxt; nc=nn; depth++; }
  mc_sample("complete state space of trees over %d keys: %ld trees, BFS depth %d",K,(long)seen.n,depth); mc_set_free(&seen); }
static void perms(long arg){ int n=arg&31,ndel=arg>>5&1,first=arg>>6; K=n; for(int i=0;i<64;i++) keys[i]=i; int p[32]; for(int i=0;i<n;i++) p[i]=i; /* permutations starting with 'first' */
  p[0]=first; for(int i=1,j=0;i<n;i++,j++){ if(j==first) j++; p[i]=j; }
  do { if(p[0]!=first) break; void*root=NULL; unsigned set=0; mc_case("insert:"); for(int i=0;i<n;i++){ mc_step(" %d",p[i]); ins(&root,p[i],&set); if(!ndel) check(&root,set,"after insert"); mc_trans(1); } check(&root,set,"after inserts"); mc_states(1);
    destroy(root,set); mc_traces(1);
    if(ndel){ int q[32]; for(int i=0;i<n;i++) q[i]=i; do { root=NULL; set=0; mc_case("insert:"); for(int i=0;i<n;i++){ mc_step(" %d",p[i]); ins(&root,p[i],&set); } mc_step("; delete:"); for(int i=0;i<n;i++){ mc_step(" %d",q[i]); del(&root,q[i],&set); check(&root,set,"after delete"); mc_trans(1); } if(root) mc_fail("empty","root not NULL after deleting everything"); mc_traces(1); mc_states(1); } while(mc_next_perm(q,n)); }
    if(mc_timeup()){mc_capped("time");break;} } while(mc_next_perm(p,n)); }
/* dictionaries */
static const char*LS[3][8]={{"a","b","c","aa","ab","A","",""},{"10","9","1","02","2","100","",""},{"node","node1","node10","node2","Node","nod","",""}};
static void dict(long s){ int n=6+(mc_thorough?1:0); char ext[8][16]; for(int i=0;i<6;i++) snprintf(ext[i],16,"%s",LS[s][i]); snprintf(ext[6],16,"zz"); int p[8]; for(int i=0;i<n;i++) p[i]=i; do { mc_case("labels:"); struct node_gra*net=CreateHeaderGraph(),*nl[8]; for(int m=1;m<=n;m++){ mc_step(" %s",ext[p[m-1]]); nl[m-1]=CreateNodeGraph(net,ext[p[m-1]]); if(m<n&&m>1&&m!=3) continue; void*d=MakeLabelDict(net); for(int i=0;i<n;i++){ struct node_gra*g=GetNodeDict(ext[p[i]],d); if(i<m?g!=nl[i]:g!=NULL) mc_fail("dict","label %s: %s",ext[p[i]],g?"wrong node returned":"not found"); mc_trans(1);} char abs1[8]="a0",abs2[8]="~"; if(GetNodeDict(abs1,d)||GetNodeDict(abs2,d)) mc_fail("dict","absent label found"); FreeLabelDict(d); mc_traces(1); } RemoveGraph(net); mc_states(1); } while(mc_next_perm(p,n)); 
  struct node_gra*net=CreateHeaderGraph(); void*d=MakeLabelDict(net); char x[4]="x"; mc_case("empty network"); if(GetNodeDict(x,d)) mc_fail("dict","label found in an empty dictionary"); FreeLabelDict(d); RemoveGraph(net); }
static void big(long arg){ /* ascending, descending and strided orders of up to 2000 labels */ (void)arg; for(int n=1;n<=1200;n=n<8?n+1:n*3/2) for(int st=1;st<n+1;st=st*2+1){ int a=st; int g=n,h=a%n; if(h==0) h=n>1?1:0; { int x=n,y=h; while(y){int q=x%y;x=y;y=q;} g=x; } if(g!=1&&n>1) h=1; for(int dir=0;dir<2;dir++){ mc_case("n=%d stride=%d dir=%d",n,h,dir); struct node_gra*net=CreateHeaderGraph(),*last=net; struct node_gra**nl=calloc(n,sizeof*nl); for(int i=0;i<n;i++){ int v=(int)((long)i*h%n); if(dir) v=n-1-v; char b[16]; sprintf(b,"n%d",v); last=nl[v]=CreateNodeGraph(last,b); } void*d=MakeLabelDict(net); for(int v=-1;v<=n;v++){ char b[16]; sprintf(b,"n%d",v); struct node_gra*r=GetNodeDict(b,d); if(r!=(v>=0&&v<n?nl[v]:NULL)) mc_fail("dict","n=%d label %s: wrong result",n,b); mc_trans(1);} FreeLabelDict(d); free(nl); RemoveGraph(net); mc_states(1); mc_traces(1);} } }
int main(int c,char**v){ int t=getenv("VERIF_TIER")&&!strcmp(getenv("VERIF_TIER"),"thorough"); char b[40];
  for(int k=1;k<=(t?13:12);k++){ sprintf(b,"state-space-%d-keys",k); mc_section(b,space,k); }
  for(int f=0;f<(t?9:8);f++){ sprintf(b,"insertion-orders-first-%d",f); mc_section(b,perms,(t?9:8)|0<<5|f<<6); }
  for(int n=1;n<=4;n++) for(int f=0;f<n;f++){ sprintf(b,"ins-del-orders-%d-%d",n,f); mc_section(b,perms,n|1<<5|f<<6); }
  for(int f=0;f<5;f++){ sprintf(b,"ins-del-orders-5-%d",f); mc_section(b,perms,5|1<<5|f<<6); }
  for(int f=0;f<6;f++){ sprintf(b,"ins-del-orders-6-%d",f); mc_section(b,perms,6|1<<5|f<<6); }
  for(int s=0;s<3;s++){ sprintf(b,"dictionary-%d",s); mc_section(b,dict,s); }
  mc_section("large-dictionaries",big,0);
  return mc_main(c,v); }
