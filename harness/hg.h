/* helpers: building library networks from plain matrices and reading them back */
#ifndef HG_H
#define HG_H
#include "mc.h"
#include "graph.h"
#ifndef HMAX
#define HMAX 12
#endif
/* plain reference network: w[i][j] != 0 (has[i][j]) link i->j */
typedef struct { int n; int has[HMAX][HMAX]; double w[HMAX][HMAX]; char lab[HMAX][16]; } RG;
static inline void rg_clear(RG *g,int n){ g->n=n; if(HMAX<64) memset(g,0,sizeof *g); else for(int i=0;i<n;i++){ memset(g->has[i],0,n*sizeof(int)); memset(g->w[i],0,n*sizeof(double)); memset(g->lab[i],0,16); } g->n=n; }
/* clear the rows and columns of nodes g->n to m-1, for networks that grow */
static inline void rg_pad(RG *g,int m){ if(m>HMAX) m=HMAX; for(int i=0;i<m;i++) for(int j=i<g->n?g->n:0;j<m;j++){ g->has[i][j]=0; g->w[i][j]=0; } for(int i=g->n;i<m;i++) memset(g->lab[i],0,16); }
static inline void rg_init(RG *g,int n){ rg_clear(g,n); for(int i=0;i<n;i++) if(i<26) snprintf(g->lab[i],16,"%c",'a'+i); else snprintf(g->lab[i],16,"a%d",i); }
static inline void rg_link(RG *g,int i,int j,double w){ g->has[i][j]=g->has[j][i]=1; g->w[i][j]=g->w[j][i]=w; }
/* undirected graph from edge bitmask (pairs i<j in lexicographic order) */
static inline void rg_mask(RG *g,int n,unsigned long m){ rg_init(g,n); int k=0; for(int i=0;i<n;i++) for(int j=i+1;j<n;j++,k++) if(m>>k&1) rg_link(g,i,j,1); }
/* digraph from bitmask (ordered pairs i!=j) */
static inline void rg_dmask(RG *g,int n,unsigned long m){ rg_init(g,n); int k=0; for(int i=0;i<n;i++) for(int j=0;j<n;j++) if(i!=j){ if(m>>k&1) { g->has[i][j]=1; g->w[i][j]=1; } k++; } }
static inline int rg_deg(const RG *g,int i){ int d=0; for(int j=0;j<g->n;j++) d+=g->has[i][j]; return d; }
static inline double rg_str(const RG *g,int i){ double d=0; for(int j=0;j<g->n;j++) if(g->has[i][j]) d+=g->w[i][j]; return d; }
static inline const char *rg_text(const RG *g){ static char b[4][1200]; static int r; char*t=b[r++%4]; int l=snprintf(t,1200,"n=%d links:",g->n); for(int i=0;i<g->n;i++) for(int j=0;j<g->n;j++) if(g->has[i][j]&&(i<=j||!g->has[j][i]||g->w[i][j]!=g->w[j][i])) l+=snprintf(t+l,1200-l>0?1200-l:0," %s%s%s%s",g->lab[i],(g->has[j][i]&&g->w[i][j]==g->w[j][i])?"-":">",g->lab[j],""), l+= g->w[i][j]!=1? snprintf(t+l,1200-l>0?1200-l:0,"(%g)",g->w[i][j]):0; return t; }
/* order!=NULL: order in which adjacencies of each node are inserted */
static inline struct node_gra *rg_build(const RG *g, struct node_gra **nl){
  struct node_gra *net=CreateHeaderGraph(), *tmp[HMAX]; if(!nl) nl=tmp;
  for(int i=0;i<g->n;i++) nl[i]=CreateNodeGraph(net,(char*)g->lab[i]);
  for(int i=0;i<g->n;i++) for(int j=0;j<g->n;j++) if(g->has[i][j]) AddAdjacency(nl[i],nl[j],1,0,g->w[i][j],0);
  return net; }
/* reverse insertion order of the links */
static inline struct node_gra *rg_build_rev(const RG *g, struct node_gra **nl){
  struct node_gra *net=CreateHeaderGraph(), *tmp[HMAX]; if(!nl) nl=tmp;
  for(int i=0;i<g->n;i++) nl[i]=CreateNodeGraph(net,(char*)g->lab[i]);
  for(int i=g->n-1;i>=0;i--) for(int j=g->n-1;j>=0;j--) if(g->has[i][j]) AddAdjacency(nl[i],nl[j],1,0,g->w[i][j],0);
  return net; }
/* read a library network back; returns 0 and a message if it is malformed.
   Node i of the result is the i-th node of the list. */
static inline const char *rg_read(struct node_gra *net, RG *g){
  static char msg[300]; struct node_gra *p=net,*nl[HMAX]; int n=0; while((p=p->next)!=NULL) n++; rg_clear(g,n<HMAX?n:HMAX); p=net; n=0;
  while((p=p->next)!=NULL){ if(n>=HMAX) return "too many nodes"; nl[n]=p; if(p->num!=n) { snprintf(msg,300,"node %d of the list has number %d",n,p->num); return msg; } snprintf(g->lab[n],16,"%s",p->label); n++; }
  g->n=n;
  for(int i=0;i<n;i++){ struct node_lis *l=nl[i]->neig; int c=0; if(!l) return "node without adjacency header"; while((l=l->next)!=NULL){ if(++c>HMAX*HMAX) return "adjacency list too long (cycle?)"; int j; for(j=0;j<n;j++) if(nl[j]==l->ref) break; if(j==n) { snprintf(msg,300,"adjacency of node %s does not point to a node of the network",g->lab[i]); return msg; } if(l->node!=j) { snprintf(msg,300,"adjacency %s->%s carries number %d instead of %d",g->lab[i],g->lab[j],l->node,j); return msg; } if(l->nodeLabel && strcmp(l->nodeLabel,nl[j]->label)) { snprintf(msg,300,"adjacency %s->%s carries label %s",g->lab[i],g->lab[j],l->nodeLabel); return msg;} if(g->has[i][j]) { snprintf(msg,300,"repeated adjacency %s->%s",g->lab[i],g->lab[j]); return msg; } g->has[i][j]=1; g->w[i][j]=l->weight; } }
  return NULL; }
static inline int rg_idx(const RG *g,const char *lab){ for(int i=0;i<g->n;i++) if(!strcmp(g->lab[i],lab)) return i; return -1; }
/* same labelled network? (order of nodes ignored if order==0) */
static inline const char *rg_diff(const RG *a,const RG *b,int order){ static char m[400]; if(a->n!=b->n){ snprintf(m,400,"%d nodes instead of %d",a->n,b->n); return m; } int mp[HMAX]; for(int i=0;i<a->n;i++){ mp[i]=rg_idx(b,a->lab[i]); if(mp[i]<0){ snprintf(m,400,"unexpected node %s",a->lab[i]); return m; } if(order&&mp[i]!=i){ snprintf(m,400,"node %s at position %d instead of %d",a->lab[i],i,mp[i]); return m; } } for(int i=0;i<a->n;i++) for(int j=0;j<a->n;j++){ int x=a->has[i][j],y=b->has[mp[i]][mp[j]]; if(x!=y){ snprintf(m,400,"link %s->%s is %s",a->lab[i],a->lab[j],x?"present but should not be":"missing"); return m; } if(x&&!mc_closet(a->w[i][j],b->w[mp[i]][mp[j]],1e-5)){ snprintf(m,400,"link %s->%s has weight %g instead of %g",a->lab[i],a->lab[j],a->w[i][j],b->w[mp[i]][mp[j]]); return m; } } return NULL; }
static inline uint64_t rg_hash(const RG *g){ if(HMAX<64) return mc_hash(g,sizeof *g); uint64_t h=g->n; for(int i=0;i<g->n;i++) h=h*1000003u^mc_hash(g->has[i],g->n*sizeof(int))^mc_hash(g->w[i],g->n*sizeof(double))*31; return h; }
#endif
