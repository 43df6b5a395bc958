/* sections shared by C20 and C21; define KINDS before including */
static int kinds[]={KINDS};
static int isgibbs(int k){ return k==S_GIBBS||k==S_SPARSE||k==S_MBG||k==S_ORG||k==S_ODG; }
static const double lin[]={0,1.3};
/* all labelled partitions of 2-3 nodes, one and two steps, all draw sequences up to a depth */
static void sec_small(long arg){ int k=arg&15,n=arg>>4&15,li=arg>>8&1,tb=arg>>9&1; SM s; RG g; long M=1L<<(n*(n-1)/2);
  for(long m=0;m<M;m++){ rg_mask(&g,n,m); s_open(&s,k,&g,lin[li],tb?60:2); int nl=1; for(int i=0;i<n;i++) nl*=n;
    for(int q=0;q<nl;q++){ int a[HMAX],x=q; for(int i=0;i<n;i++){ a[i]=x%n; x/=n; } s_explore(&s,a,1, n==2?6:3,1,9,1); s_explore(&s,a,3,2,1,isgibbs(k)?9:20,2); if(mc_thorough){ s_explore(&s,a,2,n==2?8:(isgibbs(k)?5:6),1,20,3); } if(mc_timeup()) break; }
    s_close(&s); if(mc_timeup()){ mc_capped("time"); return; } } }
static void sec_four(long arg){ int k=arg&15; int part=arg>>4; int n=4; SM s; RG g;
  for(int m=part;m<64;m+=2){ rg_mask(&g,n,m); s_open(&s,k,&g,lin[m%2],m%3?60:3); int a[HMAX]={0}; 
    do { for(int lab=0;lab<2;lab++){ int b[HMAX]; for(int i=0;i<n;i++) b[i]=lab?3-a[i]:a[i]; if(isgibbs(k)) s_explore(&s,b,1,mc_thorough?4:(lab?1:2),1,4,1); else s_explore(&s,b,1,(lab&&!mc_thorough)?1:2,1,mc_thorough?14:8,1); s_explore(&s,b,2,0,1,isgibbs(k)?8:20,4); if(mc_thorough) s_explore(&s,b,2,1,2,isgibbs(k)?8:14,5); } if(mc_timeup()) break; } while(mc_next_rgs(a,n));
    s_close(&s); if(mc_timeup()){ mc_capped("time"); return; } } }
static void sec_five(long arg){ int k=arg&15; int part=arg>>4; int n=5; SM s; RG g; int st=mc_thorough?4:68;
  for(int m=part;m<1024;m+=st){ rg_mask(&g,n,m); s_open(&s,k,&g,lin[m%2],m%3?60:4); int a[HMAX]={0};
    do { s_explore(&s,a,1,0,1,isgibbs(k)?5:8,m); s_explore(&s,a,1,0,0,0,m+1); if(mc_timeup()) break; } while(mc_next_rgs(a,n));
    s_close(&s); if(mc_timeup()){ mc_capped("time"); return; } } }
/* larger structured networks: counts beyond the tables, many groups */
static void big(RG *g,int w){ if(w==0){ rg_init(g,8); for(int i=0;i<8;i++) for(int j=i+1;j<8;j++) rg_link(g,i,j,1); } else if(w==1){ rg_init(g,8); for(int i=0;i<8;i++) for(int j=i+1;j<8;j++) if((i<4)==(j<4)||i+j==7) rg_link(g,i,j,1); } else if(w==2){ rg_init(g,9); for(int i=0;i<9;i++) rg_link(g,i,(i+1)%9,1); rg_link(g,0,4,1); } else if(w==3){ rg_init(g,7); for(int i=1;i<7;i++) rg_link(g,0,i,1); } else { rg_init(g,8); for(int i=0;i<4;i++) for(int j=4;j<8;j++) if((i*3+j)%4) rg_link(g,i,j,1); } }
static void sec_big(long arg){ int k=arg&15,w=arg>>4; RG g; big(&g,w); SM s; int n=g.n; 
  for(int tb=0;tb<2;tb++){ s_open(&s,k,&g,lin[w%2],tb?200:5); for(int q=0;q<4;q++){ int a[HMAX]; for(int i=0;i<n;i++) a[i]= q==0? i : q==1? n-1 : q==2? i/3 : (i*5+2)%3+1; s_explore(&s,a,2,0,1,mc_thorough?40:16,q); if(mc_thorough&&tb) s_explore(&s,a,1,0,2,8,q+7); }
    s_close(&s); } }
/* exact transition probabilities; p-th share of the networks */
static const unsigned char iso4[]={0,1,3,12,7,11,13,30,15,31,63,51,33,22,45,26};
static void sec_inv(long arg){ int k=arg&15,n=arg>>4&15,li=arg>>8&1,part=arg>>9; RG g; SM s; long M=1L<<(n*(n-1)/2); int full=n<4||(mc_thorough&&n==4&&isgibbs(k)); long cnt= full? M : n==4? (long)sizeof iso4 : 4; int np= n==4? 4 : 1;
  for(long q=part%np;q<cnt;q+=np){ long m= full? q : n==4? iso4[q] : (part*4+q)*37%1024; rg_mask(&g,n,m); if(k==S_SPARSE&&li) continue; if(n==4&&li&&q%8>=4&&!mc_thorough) continue; s_open(&s,k,&g,lin[li],60);
    for(int lab=0;lab<(n==3?3:n==2?2:1);lab++){ s_invariant(&s,n>3?(int)(m+li)%3:lab,isgibbs(k)?(n>3?40:60):24); if(mc_timeup()) break; } s_close(&s); if(mc_timeup()){ mc_capped("time"); return; } } }
static void addsec(const char *f,mc_fn fn,long arg,int k,const char *x){ static char nm[128]; snprintf(nm,128,"%s/%s%s",f,s_name[k],x); for(char *p=nm;*p;p++) if(*p==' ') *p='-'; mc_section(nm,fn,arg); }
static void smp_sections(void){ char x[40]; const char *ti=getenv("VERIF_TIER"); int th=ti&&!strcmp(ti,"thorough"); unsigned nk=sizeof kinds/sizeof *kinds;
  for(int n=5;n>=2;n--) for(unsigned q=0;q<nk;q++) for(int li=0;li<2;li++){ int k=kinds[q]; if((n==5||(n==4&&!isgibbs(k)))&&!th) continue; if(n==5&&!isgibbs(k)) continue; if(k==S_SPARSE&&li) continue; for(int p=0;p<(n>=4?4:1);p++){ snprintf(x,40,"/n%d/c%d/%d",n,li,p); addsec("invariant",sec_inv,k|n<<4|li<<8|(long)p<<9,k,x); } }
  for(unsigned q=0;q<nk;q++){ int k=kinds[q];
    for(int n=2;n<=3;n++) for(int li=0;li<2;li++) for(int tb=0;tb<2;tb++){ snprintf(x,40,"/n%d/c%d/t%d",n,li,tb); addsec("small",sec_small,k|n<<4|li<<8|tb<<9,k,x); }
    for(int p=0;p<2;p++){ snprintf(x,40,"/%d",p); addsec("four",sec_four,k|p<<4,k,x); }
    for(int p=0;p<4;p++){ snprintf(x,40,"/%d",p); addsec("five",sec_five,k|p<<4,k,x); }
    for(int w=0;w<5;w++){ snprintf(x,40,"/%d",w); addsec("big",sec_big,k|w<<4,k,x); } } }
