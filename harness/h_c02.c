/* C02: every edge list up to a few lines over a small alphabet x every switch combination is read by
   FBuildNetwork and compared with a direct interpretation of the file; then printed and read back. */
#include "hg.h"
static const char *LB[4]={"a","b","c","d"};
typedef struct { int a,b; double w; } LN;
static double W[3]={1,2.5,-0.75};
static void model(const LN*l,int n,int au,int ad,int sy,int ws,const char**lab,RG*m){ memset(m,0,sizeof *m); for(int k=0;k<n;k++){ int id[2]; for(int e=0;e<2;e++){ const char*s=lab[e?l[k].b:l[k].a]; char t[16]; snprintf(t,16,"%s",s); id[e]=rg_idx(m,t); if(id[e]<0){ strcpy(m->lab[m->n],t); id[e]=m->n++; } }
    double w=ws?l[k].w:1; for(int d=0;d<(sy&&id[0]!=id[1]?2:1);d++){ int i=id[d],j=id[1-d]; if(i==j&&!au) continue; if(m->has[i][j]){ if(ad) m->w[i][j]+=w; } else { m->has[i][j]=1; m->w[i][j]=w; } } } }
static void strip(const RG*m,RG*o){ int keep[HMAX],k=0; for(int i=0;i<m->n;i++){ int c=0; for(int j=0;j<m->n;j++) c+=m->has[i][j]+m->has[j][i]; if(c) keep[k++]=i; } rg_init(o,k); for(int i=0;i<k;i++){ strcpy(o->lab[i],m->lab[keep[i]]); for(int j=0;j<k;j++){ o->has[i][j]=m->has[keep[i]][keep[j]]; o->w[i][j]=m->w[keep[i]][keep[j]]; } } }
static void pajek(struct node_gra*net,const RG*m,int coor,int ws,int sy){ FPrintPajekFile("p.net",net,coor,ws,sy); FILE*f=fopen("p.net","r"); if(!f){ mc_fail("pajek","no file written"); return; } char ln[300]; RG r; memset(&r,0,sizeof r); int nv=-1,st=0,nl=0; int selfc=0; (void)selfc;
  while(fgets(ln,300,f)){ if(!strncmp(ln,"*Vertices",9)){ sscanf(ln+9,"%d",&nv); st=1; } else if(!strncmp(ln,"*Arcs",5)||!strncmp(ln,"*Edges",6)){ if((ln[1]=='A')!=(sy==0)) mc_fail("pajek","section %s for symmetric=%d",ln,sy); st=2; }
    else if(st==1){ int id; char lab[64]; double x,y,z; int k=sscanf(ln,"%d \"%60[^\"]\" %lf %lf %lf",&id,lab,&x,&y,&z); if(k!=(coor==1?5:2)||id!=r.n+1||r.n>=HMAX) { mc_fail("pajek","bad vertex line %s",ln); break; } if(coor==1&&(fabs(x-(0.5+id))>1e-6||fabs(y-(1.25+id))>1e-6||fabs(z+id)>1e-6)) mc_fail("pajek","wrong coordinates %s",ln); snprintf(r.lab[r.n++],16,"%s",lab); }
    else if(st==2){ int i,j; double w=1; int k=sscanf(ln,"%d %d %lf",&i,&j,&w); if(k!=(ws?3:2)||i<1||j<1||i>r.n||j>r.n){ mc_fail("pajek","bad link line %s",ln); break; } if(r.has[i-1][j-1]) mc_fail("pajek","link printed twice: %s",ln); r.has[i-1][j-1]=1; r.w[i-1][j-1]=w; if(sy){ if(i!=j&&r.has[j-1][i-1]) mc_fail("pajek","symmetric link printed twice: %s",ln); r.has[j-1][i-1]=1; r.w[j-1][i-1]=w; } nl++; } }
  fclose(f); if(nv!=m->n) mc_fail("pajek","%d vertices announced, network has %d",nv,m->n); RG mm=*m; if(!ws) for(int i=0;i<mm.n;i++) for(int j=0;j<mm.n;j++) if(mm.has[i][j]) mm.w[i][j]=1; const char*e=rg_diff(&r,&mm,1); if(e) mc_fail("pajek","coor=%d weight=%d symmetric=%d: %s",coor,ws,sy,e); }
static long nread;
static void one(const LN*l,int n,const char**lab,const char*sep,const char*eol,int lasteol,int ws,int sw,int full){ int au=sw&1,ad=sw>>1&1,sy=sw>>2&1; static char text[4000]; int p=0; for(int k=0;k<n;k++){ p+=sprintf(text+p,"%s%s%s",lab[l[k].a],sep,lab[l[k].b]); if(ws) p+=sprintf(text+p,"%s%g",sep,l[k].w); if(k<n-1||lasteol) p+=sprintf(text+p,"%s",eol); }
  text[p]=0; mc_case("file \"%s\" weight_sw=%d auto=%d add=%d symmetric=%d",text,ws,au,ad,sy);
  RG m,r; model(l,n,au,ad,sy,ws,lab,&m); FILE*f=mc_memfile(text); struct node_gra*net=FBuildNetwork(f,ws,au,ad,sy); fclose(f); nread++; mc_trans(1);
  if(!net){ mc_fail("read","well-formed file rejected"); return; }
  const char*e=rg_read(net,&r); if(!e) e=rg_diff(&r,&m,1); if(e){ mc_fail("read","%s",e); RemoveGraph(net); return; }
  mc_outcome(rg_hash(&r));
  int sym=1; for(int i=0;i<m.n;i++) for(int j=0;j<m.n;j++) if(m.has[i][j]!=m.has[j][i]||m.w[i][j]!=m.w[j][i]) sym=0;
  if(full){ /* print, read back */
    for(int pw=0;pw<2;pw++) for(int ps=0;ps<=sym;ps++){ char*buf=NULL; size_t sz=0; FILE*o=open_memstream(&buf,&sz); FPrintNetAdjacencyList(o,net,pw,ps); fclose(o); RG st,rr; strip(&m,&st); if(!pw) for(int i=0;i<st.n;i++) for(int j=0;j<st.n;j++) if(st.has[i][j]) st.w[i][j]=1; FILE*i2=mc_memfile(buf); struct node_gra*n2=FBuildNetwork(i2,pw,1,0,ps); fclose(i2); mc_trans(1); if(!n2) mc_fail("roundtrip","printed list \"%s\" cannot be read",buf); else { e=rg_read(n2,&rr); if(!e) e=rg_diff(&rr,&st,0); if(e) mc_fail("roundtrip","weight=%d symmetric=%d printed \"%s\": %s",pw,ps,buf,e); 
        /* every link once */ int lines=0; for(char*c=buf;c&&*c;c++) lines+=*c=='\n'; int want=0; for(int i=0;i<m.n;i++) for(int j=0;j<m.n;j++) if(m.has[i][j]&&(!ps||strcmp(m.lab[i],m.lab[j])<=0)) want++; if(lines!=want) mc_fail("roundtrip","%d lines printed for %d links",lines,want); RemoveGraph(n2);} free(buf); }
    { char*buf=NULL; size_t sz=0; FILE*o=open_memstream(&buf,&sz); FPrintDegrees(o,net); fclose(o); char exp[400]; int q=0; exp[0]=0; for(int i=0;i<m.n;i++) q+=sprintf(exp+q,"%s %d\n",m.lab[i],rg_deg(&m,i)); char lb[64]; int d,i=0; FILE*g=mc_memfile(buf); while(fscanf(g,"%60s %d",lb,&d)==2){ if(i>=m.n||strcmp(lb,m.lab[i])||d!=rg_deg(&m,i)){ mc_fail("degrees","printed \"%s\" expected \"%s\"",buf,exp); break; } i++; } fclose(g); if(i<m.n) mc_fail("degrees","printed \"%s\" expected \"%s\"",buf,exp); free(buf); }
    if(full>1){ struct node_gra*p=net; int c=0; while((p=p->next)){ c++; p->coorX=0.5+c; p->coorY=1.25+c; p->coorZ=-c; } for(int co=0;co<2;co++) for(int pw=0;pw<2;pw++) for(int ps=0;ps<=sym;ps++) { pajek(net,&m,co,pw,ps); mc_trans(1);} }
    mc_traces(1); }
  RemoveGraph(net); }
static void enumfiles(long arg){ int nl=arg&15, weighted=arg>>4&1, nlab=arg>>5&7, part=arg>>8&15, nparts=arg>>12&15; int nw=weighted?(nl>=3?2:3):1; long per=nlab*nlab*nw,tot=1; for(int i=0;i<nl;i++) tot*=per;
  for(long c=part;c<tot;c+=nparts){ if(mc_timeup()){mc_capped("time");break;} LN l[8]; long x=c; for(int k=0;k<nl;k++){ long y=x%per; x/=per; l[k].a=y%nlab; l[k].b=y/nlab%nlab; l[k].w=W[y/nlab/nlab]; }
    mc_states(1); for(int sw=0;sw<8;sw++) one(l,nl,LB," ","\n",1,weighted,sw,nl<=2?2:(c%16==0?2:1)); if(c%997==5) { char b[300]; int p=0; for(int k=0;k<nl;k++) p+=sprintf(b+p,"%s %s %g; ",LB[l[k].a],LB[l[k].b],l[k].w); mc_sample("file {%s} weighted=%d, 8 switch settings, read/print/re-read",b,weighted); } } }
/* formatting variants and label shapes */
static char lg[4][120];
static void formats(long arg){ const char*seps[]={" ","\t","   "," \t "}; const char*eols[]={"\n"," \n","\r\n","\t\n"};
  const char*labs[][4]={{"a","b","c","d"},{"10","2","1","02"},{"A","a","aa","ab"},{"x-1","x_1","x.1","x:1"},{lg[0],lg[1],lg[2],lg[3]}};
  for(int i=0;i<4;i++){ for(int k=0;k<15;k++) lg[i][k]='a'+(k*7)%26; lg[i][15-i]=0; if(i==0) lg[0][14]='Z',lg[0][15]=0; }
  for(int ls=arg;ls<=arg;ls++) for(int s=0;s<4;s++) for(int e=0;e<4;e++) for(int le=0;le<2;le++) for(int ws=0;ws<2;ws++) for(int sw=0;sw<8;sw++){
    for(int c=0;c<256;c++){ LN l[2]={{c&3,c>>2&3,1},{c>>4&3,c>>6&3,2.5}}; if(c%16==0||ls==0) {} ; mc_states(1); one(l,2,(const char**)labs[ls],seps[s],eols[e],le,ws,sw,(s==0&&e==0)?2:0); if(mc_timeup()){mc_capped("time");return;} } } }
/* long labels (up to the documented maximum) and large files */
static void large(long arg){ (void)arg; for(int len=1;len<100;len++) for(int sy=0;sy<2;sy++){ char a[101],b[101]; memset(a,'x',len); a[len]=0; memset(b,'x',len); b[len]=0; b[len-1]='y'; static char t[600]; sprintf(t,"%s %s 2\n%s %s 3\n",a,b,b,a); mc_case("label length %d sy=%d",len,sy); FILE*f=mc_memfile(t); struct node_gra*n=FBuildNetwork(f,1,0,1,sy); fclose(f); mc_states(1); mc_trans(1); struct node_gra*p=n->next; if(!p||!p->next||p->next->next||strcmp(p->label,a)||strcmp(p->next->label,b)) mc_fail("longlabel","labels of length %d read wrongly",len); else { double w=sy?5:2; if(!IsThereLink(p,p->next)||GetLink(p,1)->weight!=w) mc_fail("longlabel","links of long labels wrong"); char*buf=NULL; size_t sz; FILE*o=open_memstream(&buf,&sz); FPrintNetAdjacencyList(o,n,1,0); fclose(o); f=mc_memfile(buf); struct node_gra*m=FBuildNetwork(f,1,0,0,0); fclose(f); if(CountNodes(m)!=2||TotalNLinks(m,0)!=2||strcmp(m->next->label,a)) mc_fail("longlabel","round trip of long labels"); RemoveGraph(m); free(buf);} RemoveGraph(n); mc_traces(1); }
  for(int n=2;n<=260;n+=(n<20?1:16)) for(int perm=1;perm<n;perm+=1+n/5){ /* ring visited with a stride */ size_t sz; char*t=NULL; FILE*o=open_memstream(&t,&sz); for(int i=0;i<n;i++) fprintf(o,"v%d v%d\n",(int)((long)i*perm%n),(int)(((long)i*perm+1)%n)); fclose(o); mc_case("ring of %d nodes, stride %d",n,perm); FILE*f=mc_memfile(t); struct node_gra*net=FBuildNetwork(f,0,0,0,1); fclose(f); mc_states(1); mc_trans(1); int seen[300]={0},cnt=0; struct node_gra*p=net; char lab[300][8]; while((p=p->next)){ if(cnt<300) strcpy(lab[cnt],p->label); int v=atoi(p->label+1); if(v<0||v>=n||seen[v]) mc_fail("ring","node %s unexpected or repeated",p->label); else seen[v]=1; if(p->num!=cnt) mc_fail("ring","numbering"); cnt++; }
      int step=1; { int g=perm,h=n; while(h){int q=g%h;g=h;h=q;} step=g; } long i; int want[300]={0},wc=0; for(i=0;i<n;i++){ int a=(long)i*perm%n,b=((long)i*perm+1)%n; if(!want[a]){want[a]=1;wc++;} if(!want[b]){want[b]=1;wc++;} } (void)step; if(cnt!=wc) mc_fail("ring","%d nodes read, file has %d",cnt,wc); 
      p=net; while((p=p->next)){ int v=atoi(p->label+1); int nb=0; struct node_lis*q=p->neig; while((q=q->next)){ int u=atoi(q->ref->label+1); if(u!=(v+1)%n&&v!=(u+1)%n) mc_fail("ring","unexpected link %s-%s",p->label,q->ref->label); nb++; } int exp=0; for(i=0;i<n;i++){ int a=(long)i*perm%n; int b=(a+1)%n; if(n==2&&0) {} if(a==v||b==v){ int other=a==v?b:a; int dup=0; for(long k=0;k<i;k++){ int a2=(long)k*perm%n,b2=(a2+1)%n; if((a2==v&&b2==other)||(b2==v&&a2==other)) {dup=1;break;} } if(!dup) exp++; } } if(nb!=exp) mc_fail("ring","node %s has %d links, file gives %d",p->label,nb,exp); }
      RemoveGraph(net); free(t); mc_traces(1); } }
int main(int c,char**v){ int t=getenv("VERIF_TIER")&&!strcmp(getenv("VERIF_TIER"),"thorough");
  mc_section("unweighted-1-line",enumfiles,1|0<<4|4<<5|0<<8|1<<12);
  mc_section("unweighted-2-lines",enumfiles,2|0<<4|4<<5|0<<8|1<<12);
  mc_section("weighted-1-line",enumfiles,1|1<<4|4<<5|0<<8|1<<12);
  mc_section("weighted-2-lines",enumfiles,2|1<<4|4<<5|0<<8|1<<12);
  for(int k=0;k<4;k++){ char b[40]; sprintf(b,"unweighted-3-lines-%d",k); mc_section(b,enumfiles,3|0<<4|4<<5|k<<8|4<<12); sprintf(b,"weighted-3-lines-%d",k); mc_section(b,enumfiles,3|1<<4|3<<5|k<<8|4<<12); sprintf(b,"unweighted-4-lines-%d",k); mc_section(b,enumfiles,4|0<<4|3<<5|k<<8|4<<12); }
  if(t) for(int k=0;k<8;k++){ char b[40]; sprintf(b,"unweighted-4-lines-4-labels-%d",k); mc_section(b,enumfiles,4|0<<4|4<<5|k<<8|8<<12); sprintf(b,"weighted-4-lines-%d",k); mc_section(b,enumfiles,4|1<<4|3<<5|k<<8|8<<12); sprintf(b,"unweighted-5-lines-%d",k); mc_section(b,enumfiles,5|0<<4|3<<5|k<<8|8<<12); }
  for(int k=0;k<5;k++){ char b[40]; sprintf(b,"formats-%d",k); mc_section(b,formats,k); } mc_section("large",large,0);
  return mc_main(c,v); }
