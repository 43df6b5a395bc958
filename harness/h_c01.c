/* C01: explicit-state exploration of edit histories of a network against a matrix model.
   A state is the real network (ordered adjacency lists, weights, cached degree/strength);
   every enabled operation is applied in every state up to the depth bound (histories are replayed
   on a fresh network, since the real objects cannot be copied without using the code under test). */
#include "hg.h"
#define NMAX 4
typedef struct { unsigned char op,i,j,f; double w; } OP;
static OP ops[400]; static int nops;
typedef struct { unsigned short h[8]; unsigned char d; } HIST;

typedef struct { RG m; struct node_gra *net,*nl[NMAX]; } ST;
static void relist(ST *s){ struct node_gra *p=s->net; int i=0; while((p=p->next)&&i<NMAX) s->nl[i++]=p; }
static int enabled(const ST *s,const OP *o){ const RG*m=&s->m; switch(o->op){
  case 'A': case 'S': case 'F': return o->i<m->n&&o->j<m->n;
  case 'R': return o->i<m->n&&o->j<m->n&&m->has[o->i][o->j];
  case 'Y': return o->i<m->n&&o->j<m->n&&m->has[o->i][o->j]&&m->has[o->j][o->i];
  case 'N': return m->n<NMAX-1;
  case 'I': for(int i=0;i<m->n;i++) if(!rg_deg(m,i)) for(int k=0;k<m->n;k++) if(m->has[k][i]) return 0; return 1;
  case 'G': return o->i<m->n;
  default: return 1; } }
static int addm(RG *m,int i,int j,int au,int ad,double w){ if(i==j&&!au) return 0; if(m->has[i][j]){ if(ad){ m->w[i][j]+=w; return 1;} return 0;} m->has[i][j]=1; m->w[i][j]=w; return 1; }
static const char *opname(const OP*o){ static char b[80]; static const char *L="abcdef"; switch(o->op){
  case 'A': snprintf(b,80," AddAdjacency(%c,%c,auto=%d,add=%d,w=%g)",L[o->i],L[o->j],o->f&1,o->f>>1,o->w);break;
  case 'S': snprintf(b,80," AddBoth(%c,%c,add=%d,w=%g)",L[o->i],L[o->j],o->f>>1,o->w);break;
  case 'F': snprintf(b,80," AddAdjacencySoft(%c,%c,auto=%d,add=%d,w=%g)+Rewire",L[o->i],L[o->j],o->f&1,o->f>>1,o->w);break;
  case 'R': snprintf(b,80," RemoveLink(%c,%c,0)",L[o->i],L[o->j]);break;
  case 'Y': snprintf(b,80," RemoveLink(%c,%c,1)",L[o->i],L[o->j]);break;
  case 'N': snprintf(b,80," CreateNode");break; case 'I': snprintf(b,80," RemoveIsolatedNodes");break;
  case 'C': snprintf(b,80," CopyNetwork");break; case 'Q': snprintf(b,80," QueryDegrees");break;
  case 'W': snprintf(b,80," RewireByNum");break; case 'G': snprintf(b,80," DanglingLink(%c)+CleanAdjacencies",L[o->i]);break; } return b; }
static void chk(ST *s,const char *after){
  RG r; const char *e=rg_read(s->net,&r); if(e){ mc_fail("structure","after %s: %s",after,e); return; }
  e=rg_diff(&r,&s->m,1); if(e) mc_fail("content","after %s: %s",after,e);
}
static void chkcopy(struct node_gra *net,const RG *m,const char *what){ RG r; const char *e=rg_read(net,&r); if(e){ mc_fail("copy","%s: %s",what,e); return;} e=rg_diff(&r,m,1); if(e) mc_fail("copy","%s: %s",what,e); }
static void query(ST *s,const char *when){ RG*m=&s->m; int tot=0,sym=1,selfl=0; for(int i=0;i<m->n;i++){ tot+=rg_deg(m,i); for(int j=0;j<m->n;j++) if(m->has[i][j]!=m->has[j][i]) sym=0; if(m->has[i][i]) selfl=1; }
  for(int i=0;i<m->n;i++){ struct node_gra*p=s->nl[i]; int d=NodeDegree(p); double st=NodeStrength(p); if(d!=rg_deg(m,i)) mc_fail("degree","%s: degree of %s is %d, should be %d",when,m->lab[i],d,rg_deg(m,i)); if(!mc_close(st,rg_str(m,i))) mc_fail("strength","%s: strength of %s is %g, should be %g",when,m->lab[i],st,rg_str(m,i));
    if((int)NodeDegree(p)!=rg_deg(m,i)||!mc_close(NodeStrength(p),rg_str(m,i))) mc_fail("requery","%s: second query of %s differs",when,m->lab[i]);
    if(GetNode(i,s->net)!=p) mc_fail("getnode","GetNode(%d) returns another node",i);
    for(int j=0;j<m->n;j++){ int a=IsThereLink(p,s->nl[j])==1,b=IsThereLinkSoft(p,j)==1; if(a!=m->has[i][j]||b!=m->has[i][j]) mc_fail("istherelink","%s: IsThereLink(%s,%s)=%d soft=%d, should be %d",when,m->lab[i],m->lab[j],a,b,m->has[i][j]); if(m->has[i][j]){ struct node_lis*l=GetLink(p,j); if(!l||l->node!=j||l->ref!=s->nl[j]||!mc_close(l->weight,m->w[i][j])) mc_fail("getlink","%s: GetLink(%s,%s) wrong",when,m->lab[i],m->lab[j]); } } }
  if(CountNodes(s->net)!=m->n) mc_fail("countnodes","%s: CountNodes %d, should be %d",when,CountNodes(s->net),m->n);
  if(TotalNLinks(s->net,0)!=tot) mc_fail("totallinks","%s: TotalNLinks(directed)=%d, should be %d",when,TotalNLinks(s->net,0),tot);
  if(sym&&!selfl&&TotalNLinks(s->net,1)!=tot/2) mc_fail("totallinks","%s: TotalNLinks(symmetric)=%d, should be %d",when,TotalNLinks(s->net,1),tot/2);
  if(m->n>0){ if(!mc_close(AverageDegree(s->net,0),(double)tot/m->n)) mc_fail("avgdegree","%s: AverageDegree",when); }
  for(int i=0;i<m->n+1;i++){ char lb[4]={(char)('a'+i),0}; char buf[8]; strcpy(buf,i<m->n?m->lab[i]:"zz"); (void)lb; if((IsThereNode(buf,s->net)!=0)!=(i<m->n)) mc_fail("istherenode","%s: IsThereNode(\"%s\")=%d, should be %d",when,buf,IsThereNode(buf,s->net),i<m->n); }
}
static void apply(ST *s,const OP *o){ RG*m=&s->m; struct node_gra**nl=s->nl; int au=o->f&1,ad=o->f>>1; int r,x; mc_step("%s",opname(o)); switch(o->op){
  case 'A': r=AddAdjacency(nl[o->i],nl[o->j],au,ad,o->w,0); x=addm(m,o->i,o->j,au,ad,o->w); if((r!=0)!=(x!=0)) mc_fail("addreturn","AddAdjacency returned %d, expected %d",r,x); break;
  case 'S': AddAdjacency(nl[o->i],nl[o->j],au,ad,o->w,0); addm(m,o->i,o->j,au,ad,o->w); if(o->i!=o->j){ AddAdjacency(nl[o->j],nl[o->i],au,ad,o->w,0); addm(m,o->j,o->i,au,ad,o->w);} break;
  case 'F': r=AddAdjacencySoft(nl[o->i],m->lab[o->j],au,ad,o->w,0); x=addm(m,o->i,o->j,au,ad,o->w); RewireAdjacencyByLabel(s->net); if((r!=0)!=(x!=0)) mc_fail("addreturn","AddAdjacencySoft returned %d, expected %d",r,x); break;
  case 'R': RemoveLink(nl[o->i],nl[o->j],0); m->has[o->i][o->j]=0; m->w[o->i][o->j]=0; break;
  case 'Y': RemoveLink(nl[o->i],nl[o->j],1); m->has[o->i][o->j]=m->has[o->j][o->i]=0; m->w[o->i][o->j]=m->w[o->j][o->i]=0; break;
  case 'N': { char lb[8]; for(char c='a';;c++){ lb[0]=c; lb[1]=0; if(rg_idx(m,lb)<0) break; } struct node_gra*p=CreateNodeGraph(s->net,lb); if(!p||p->num!=m->n) mc_fail("createnode","new node has number %d",p?p->num:-1); strcpy(m->lab[m->n],lb); m->n++; relist(s); break; }
  case 'I': { int keep[NMAX],k=0,rem; for(int i=0;i<m->n;i++) if(rg_deg(m,i)) keep[k++]=i; RG q; rg_init(&q,k); for(int i=0;i<k;i++){ strcpy(q.lab[i],m->lab[keep[i]]); for(int j=0;j<k;j++){ q.has[i][j]=m->has[keep[i]][keep[j]]; q.w[i][j]=m->w[keep[i]][keep[j]]; } } rem=RemoveIsolatedNodes(s->net); if(rem!=m->n-k) mc_fail("isolated","RemoveIsolatedNodes returned %d, expected %d",rem,m->n-k); *m=q; relist(s); break; }
  case 'C': { int q=0; for(int i=0;i<m->n;i++){ nl[i]->coorX=1.5+i; nl[i]->coorY=2.5+i; nl[i]->coorZ=3.5+i; nl[i]->state=4+i; nl[i]->ivar1=5+i; nl[i]->inGroup=6+i; nl[i]->dvar1=7.25+i; struct node_lis*l=nl[i]->neig; while((l=l->next)) l->status=++q; }
     struct node_gra*c=CopyNetwork(s->net); chkcopy(c,m,"copy"); q=0;
     { struct node_gra*p=c; int i=0; while((p=p->next)){ if(p->coorX!=1.5+i||p->coorY!=2.5+i||p->coorZ!=3.5+i||p->state!=4+i||p->ivar1!=5+i||p->inGroup!=6+i||p->dvar1!=7.25+i) mc_fail("copyattr","attributes of node %d are not copied",i); struct node_lis*l=p->neig; while((l=l->next)) if(l->status!=++q) mc_fail("copyattr","status of a link of node %d is not copied",i); i++; } } /* mutate the copy, the original must not change */
     struct node_gra*cl[NMAX]; struct node_gra*p=c; int k=0; while((p=p->next)&&k<NMAX) cl[k++]=p; RG m2=*m; if(k==m->n&&k>0){ int i=0,j=k-1; if(m2.has[i][j]){ RemoveLink(cl[i],cl[j],0); m2.has[i][j]=0; m2.w[i][j]=0; } else { AddAdjacency(cl[i],cl[j],1,0,3,0); m2.has[i][j]=1; m2.w[i][j]=3; } chkcopy(c,&m2,"edited copy"); chk(s,"editing a copy"); }
     RemoveGraph(c); c=CopyNetwork(s->net); RemoveGraph(s->net); s->net=c; relist(s); break; }
  case 'Q': query(s,"query"); break;
  case 'W': RewireAdjacencyByNum(s->net); break;
  case 'G': AddAdjacencySoft(nl[o->i],"zz",1,0,5,0); CleanAdjacencies(s->net); RewireAdjacencyByLabel(s->net); break; } }
static uint64_t canon(ST *s){ unsigned char b[2000]; int l=0; for(int i=0;i<s->m.n;i++){ struct node_gra*p=s->nl[i]; b[l++]='n'; b[l++]=p->label[0]; b[l++]=p->degree; b[l++]=(unsigned char)(p->strength*4); struct node_lis*q=p->neig; while((q=q->next)&&l<1900){ b[l++]=q->node; b[l++]=(unsigned char)(q->weight*4); } } return mc_hash(b,l); }
static void start(ST *s,int n){ memset(s,0,sizeof *s); rg_init(&s->m,n); s->net=rg_build(&s->m,s->nl); relist(s); }
static void mkops(int rich){ nops=0; int nn=3; for(int i=0;i<nn;i++) for(int j=0;j<nn;j++) for(int f=0;f<4;f++) for(int w=1;w<=(rich?2:1);w++){ if(i!=j&&(f&1)&&!rich) continue; ops[nops++]=(OP){'A',i,j,f,w==1?1.0:2.5}; }
  for(int i=0;i<nn;i++) for(int j=i;j<nn;j++) for(int f=0;f<4;f+=rich?1:3) ops[nops++]=(OP){'S',i,j,f,1.5};
  for(int i=0;i<nn;i++) for(int j=0;j<nn;j++){ for(int f=0;f<4;f+=rich?1:2) { if (!rich&&i!=j&&f==0) continue; ops[nops++]=(OP){'F',i,j,f,0.5}; } ops[nops++]=(OP){'R',i,j,0,0}; if(j>=i||rich) ops[nops++]=(OP){'Y',i,j,0,0}; }
  ops[nops++]=(OP){'N'}; ops[nops++]=(OP){'I'}; ops[nops++]=(OP){'C'}; ops[nops++]=(OP){'Q'}; ops[nops++]=(OP){'W'}; for(int i=0;i<nn;i++) ops[nops++]=(OP){'G',i}; }
static void run_hist(ST*s,int n0,const HIST*h){ start(s,n0); for(int k=0;k<h->d;k++) apply(s,&ops[h->h[k]]); }
static void explore(long arg){ int rich=arg&1, n0=(arg>>1)&7, depth=arg>>4; mkops(rich);
  mc_set seen={0}; HIST *cur=calloc(1,sizeof(HIST)),*nxt; long ncur=1; long cap;
  for(int d=0;d<depth&&ncur;d++){ nxt=NULL; long nn=0; cap=0; for(long c=0;c<ncur;c++){ if(mc_timeup()){ mc_capped("time"); break; }
      for(int o=0;o<nops;o++){ ST s; mc_case("start n=%d:",n0); run_hist(&s,n0,&cur[c]); if(!enabled(&s,&ops[o])){ RemoveGraph(s.net); continue; }
        apply(&s,&ops[o]); mc_trans(1); chk(&s,opname(&ops[o])); uint64_t k=canon(&s); if(mc_set_add(&seen,k)){ mc_states(1); if(d+1<depth){ if(nn==cap){ cap=cap?cap*2:1024; nxt=realloc(nxt,cap*sizeof(HIST)); } nxt[nn]=cur[c]; nxt[nn].h[nxt[nn].d++]=o; nn++; } mc_outcome(k); }
        query(&s,"at the end"); chk(&s,"queries"); mc_traces(1); if(d==2&&o%37==0) mc_sample("history of %d edits ending in%s; result %s",d+1,opname(&ops[o]),rg_text(&s.m)); RemoveGraph(s.net); } }
    free(cur); cur=nxt; ncur=nn; }
  free(cur); mc_set_free(&seen); }
void huge_register(void);
int main(int c,char**v){ huge_register(); int t=getenv("VERIF_TIER")&&!strcmp(getenv("VERIF_TIER"),"thorough");
  mc_section("rich-alphabet-from-3-nodes",explore,1|3<<1|(t?4:3)<<4);
  mc_section("rich-alphabet-from-0-nodes",explore,1|0<<1|(t?6:5)<<4);
  mc_section("rich-alphabet-from-1-node",explore,1|1<<1|(t?5:4)<<4);
  mc_section("core-alphabet-from-3-nodes",explore,0|3<<1|(t?5:4)<<4);
  mc_section("core-alphabet-from-2-nodes",explore,0|2<<1|(t?6:5)<<4);
  return mc_main(c,v); }
