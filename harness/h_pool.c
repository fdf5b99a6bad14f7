/* H01: scratch memory pools; H02: scratch hash tables */
#include "hi.h"
#include "dbmpool.h"
#include "dbhash.h"
#ifdef U_POOL /* blocks keep their contents */
static const int SZ[]={1,8,16,3,100,1024,1032,7,2000,5000,1020,4}; static struct { unsigned char*p; int n; } B[64];
void ws_main(void){ static const int OR[]={0,1,1028,1029,2048,5000,-5}; int i,j,k,ops=ws_param("ops",5),kinds=ws_param("kinds",6),rep; long live=ws_alloc_live; void*db=NULL,*m=wg_create_mpool(db,OR[ws_choose(7,"orig")]); ws_assert(m); ws_malloc_faults=ws_param("faults",0); k=0; rep=1+ws_choose(2,"often")*4;
  for(i=0;i<ops;i++){ int n=SZ[ws_choose(kinds,"size")],f=ws_faults_hit,r; for(r=0;r<rep;r++){ unsigned char*p=wg_alloc_mpool(db,m,n); if(!p){ ws_check(ws_faults_hit>f,"a request is refused only for a reason"); ws_reach("refused"); continue; } ws_check(((unsigned long)p&3)==0,"blocks are aligned"); for(j=0;j<n;j++) p[j]=(unsigned char)(k*31+j); B[k].p=p; B[k].n=n; k++; } }
  for(i=0;i<k;i++) for(j=0;j<B[i].n;j++) if(B[i].p[j]!=(unsigned char)(i*31+j)) ws__fail("a block keeps its contents"); for(i=0;i<k;i++) for(j=0;j<i;j++) ws_check(B[i].p+B[i].n<=B[j].p||B[j].p+B[j].n<=B[i].p,"blocks are apart"); wg_free_mpool(db,m); ws_check(ws_alloc_live==live,"all memory is given back"); ws_reach("kept"); }
#elif defined(U_BIG) /* every size */
void ws_main(void){ int n=(int)ws_u(32,"bytes"); void*m; char*p; int warm=ws_choose(3,"warm"); ws_malloc_limit=ws_param("limit",1L<<22); m=wg_create_mpool(NULL,1028); ws_assert(m); while(warm--) wg_alloc_mpool(NULL,m,3000); ws_last_request=0; p=wg_alloc_mpool(NULL,m,n); if(n<=0){ ws_check(p==NULL,"nothing cannot be allocated"); ws_reach("refused"); return; }
  if(p&&ws_last_request) ws_check((unsigned long)n<=ws_last_request,"the memory obtained is as large as the request"); if(!p){ ws_check(n>(1L<<20),"a moderate request is granted"); ws_check(ws_last_request>(unsigned long)ws_malloc_limit||n>0x7ffffff0,"refused for lack of memory only"); } ws_malloc_limit=1L<<26; { char*q=wg_alloc_mpool(NULL,m,16); ws_check(q!=NULL,"the pool can still be used"); if(p) ws_check(q>=p+n||q+16<=p,"blocks are apart"); } ws_reach("any"); }
#elif defined(U_ATOM) /* lists and atoms */
void ws_main(void){ static char s1[12],s2[12]; int n1=ws_choose(6,"len1")-1,n2=ws_choose(5,"len2")-1,t=ws_choose(16,"type"),i,pre=ws_choose(5,"before"); void*m=wg_create_mpool(NULL,0),*a,*b,*p,*q,*c; char*r; ws_assert(m); for(i=0;i<pre;i++) wg_alloc_mpool(NULL,m,1+i); for(i=0;i<n1;i++) s1[i]=(char)ws_range(1,255,"c"); for(i=0;i<n2;i++) s2[i]=(char)ws_range(1,255,"d");
  memset(wg_alloc_mpool(NULL,m,4),0xff,4); a=wg_mkatom(NULL,m,t,n1<0?NULL:s1,n2<0?NULL:s2); c=wg_alloc_mpool(NULL,m,8); memset(c,0xee,8); b=wg_mkatom(NULL,m,3,"12",NULL); ws_assert(a&&b); p=wg_mkpair(NULL,m,a,NULL); q=wg_mkpair(NULL,m,b,p); ws_assert(p&&q);
  ws_check(wg_isatom(NULL,a)&&!wg_ispair(NULL,a)&&wg_isatom(NULL,b),"an atom is an atom"); ws_check(wg_ispair(NULL,p)&&!wg_isatom(NULL,p)&&wg_ispair(NULL,q),"a pair is a pair"); ws_check(!wg_isatom(NULL,NULL)&&!wg_ispair(NULL,NULL),"nothing is neither"); ws_check(wg_first(NULL,p)==a&&wg_rest(NULL,p)==NULL&&wg_first(NULL,q)==b&&wg_rest(NULL,q)==p,"the parts of a pair"); ws_check(wg_listtreecount(NULL,q)==3,"the size of a list");
  ws_check(wg_atomtype(NULL,a)==t,"the type of an atom"); r=wg_atomstr1(NULL,a); if(n1<=0) ws_check(r==NULL,"no first text"); else ws_check(r&&strcmp(r,s1)==0,"the first text"); r=wg_atomstr2(NULL,a); if(n2<=0) ws_check(r==NULL,"no second text"); else ws_check(r&&strcmp(r,s2)==0,"the second text"); ws_check(wg_atomtype(NULL,b)==3&&strcmp(wg_atomstr1(NULL,b),"12")==0&&wg_atomstr2(NULL,b)==NULL,"another atom"); ws_reach("atom"); }
#elif defined(U_LIST) /* many atoms in lists, across growth */
void ws_main(void){ void*m=wg_create_mpool(NULL,0),*l=NULL,*p; int i,n=ws_param("n",400),k=ws_choose(3,"kind"); char b[40]; ws_assert(m); for(i=0;i<n;i++){ int j,len=(i*7+k)%33; for(j=0;j<len;j++) b[j]='a'+(i+j)%26; b[len]=0; l=wg_mkpair(NULL,m,wg_mkatom(NULL,m,i%15,b,k==1?"en":k==2?b:NULL),l); ws_assert(l); } for(p=l,i=n-1;p;p=wg_rest(NULL,p),i--){ int j,len=(i*7+k)%33; char*s,*t; for(j=0;j<len;j++) b[j]='a'+(i+j)%26; b[len]=0; ws_check(wg_atomtype(NULL,wg_first(NULL,p))==i%15,"type"); s=wg_atomstr1(NULL,wg_first(NULL,p)); t=wg_atomstr2(NULL,wg_first(NULL,p)); ws_check(len?s&&strcmp(s,b)==0:s==NULL,"first"); ws_check(k==0||(k==2&&!len)?t==NULL:t&&strcmp(t,k==1?"en":b)==0,"second"); } ws_check(i==-1,"all"); wg_free_mpool(NULL,m); ws_reach("list"); }
#elif defined(U_GH) /* extendible hash table: any sequence with colliding keys */
static const gint K[4][10]={{256L,264L,272L,280L,288L,296L,304L,312L,320L,328L},{304L,368L,432L,496L,2328L,2392L,2456L,2520L,4384L,4448L},{22792L,31208L,87712L,102040L,126520L,139160L,163640L,182176L,228432L,238632L},{10000832L,131421624L,290048832L,297917336L,457531656L,506555416L,740867544L,830391920L,995503160L,1211291464L}};
#define NM 200
static gint MK[NM],MV[NM]; static int mn;
static void*T; static int put(gint k,gint v){ int i,f=ws_faults_hit; gint r=wg_ginthash_addkey(NULL,T,k,v); if(r==0){ for(i=0;i<mn;i++) if(MK[i]==k){ MV[i]=v; return 0; } ws_assert(mn<NM); MK[mn]=k; MV[mn++]=v; return 0; } (void)f; return -1; }
static void all(void){ int i; for(i=0;i<mn;i++){ gint v=-77; ws_check(wg_ginthash_getkey(NULL,T,MK[i],&v)==0,"a stored key is found"); ws_check(v==MV[i],"with the value stored last"); } for(i=0;i<4;i++){ int j,q; for(j=0;j<10;j++){ gint v=-77; for(q=0;q<mn;q++) if(MK[q]==K[i][j]) break; if(q==mn){ ws_check(wg_ginthash_getkey(NULL,T,K[i][j],&v)!=0&&v==-77,"a key that was not stored is absent"); } } } }
void ws_main(void){ long live=ws_alloc_live; int i,ops=ws_param("ops",4),deep=ws_param("deep",0),g; ws_malloc_faults=ws_param("faults",0); T=wg_ginthash_init(NULL); if(!T){ ws_check(ws_faults_hit>0,"made"); ws_check(ws_alloc_live==live,"a table that is not made keeps no memory"); ws_reach("refused"); return; }
  for(i=0;i<ops;i++){ int grp=ws_choose(deep?4:3,"group"),from=ws_choose(2,"from")*4,cnt=ws_choose(3,"count")*4+1; for(g=0;g<cnt;g++){ int f=ws_faults_hit,r=put(K[grp][(from+g)%10],i*100+g); if(r){ ws_check(ws_faults_hit>f||grp==3,"refused only for a reason"); ws_reach("failed"); all(); } } all(); }
  wg_ginthash_free(NULL,T); ws_check(ws_alloc_live==live,"all memory is given back"); ws_reach("map"); }
#elif defined(U_GHM) /* many keys */
void ws_main(void){ void*t=wg_ginthash_init(NULL); int i,n=ws_param("n",3000),st=ws_choose(4,"stride"),s=st==0?8:st==1?1:st==2?4096:-24; for(i=0;i<n;i++) ws_check(wg_ginthash_addkey(NULL,t,(gint)i*s,i*3)==0,"added"); for(i=0;i<n;i+=2) ws_check(wg_ginthash_addkey(NULL,t,(gint)i*s,i*5)==0,"replaced"); for(i=0;i<n;i++){ gint v=-1; ws_check(wg_ginthash_getkey(NULL,t,(gint)i*s,&v)==0&&v==(i%2?i*3:i*5),"found"); } for(i=n;i<n+200;i++){ gint v=-1; ws_check(wg_ginthash_getkey(NULL,t,(gint)i*s,&v)!=0,"absent"); } wg_ginthash_free(NULL,t); ws_reach("many"); }
#elif defined(U_GHS) /* arbitrary keys and values */
void ws_main(void){ void*t=wg_ginthash_init(NULL); gint k[3],v[3],x,r; int i,n=ws_param("n",3); for(i=0;i<n;i++){ k[i]=(gint)ws_u(64,"key"); v[i]=(gint)ws_u(64,"value"); ws_check(wg_ginthash_addkey(NULL,t,k[i],v[i])==0,"added"); } x=(gint)ws_u(64,"probe"); r=1234; { int last=-1,f; for(i=0;i<n;i++) if(k[i]==x) last=i; f=wg_ginthash_getkey(NULL,t,x,&r); ws_check((f==0)==(last>=0),"exactly the stored keys are found"); if(f==0) ws_check(r==v[last],"with the value stored last"); else ws_check(r==1234,"an absent key changes nothing"); } ws_reach("any"); }
#elif defined(U_DH) /* set of a fixed capacity */
void ws_main(void){ long live=ws_alloc_live; static const int N[]={0,1,100,194,195,400,800,3000}; int n=N[ws_choose(ws_param("sizes",6),"n")],st=ws_choose(5,"keys"),i; void*t; ws_malloc_faults=2; t=wg_dhash_init(NULL,n); if(!t){ ws_check(ws_faults_hit>0&&ws_alloc_live==live,"not made"); return; }
#define KEY(i) (st==0?(gint)(i+1)*8:st==1?(gint)(i+1)*389*8:st==2?-(gint)(i+1):st==3?(gint)(i+1)*769*391*8:(gint)(i*i+1))
  for(i=0;i<n;i++){ if(i%7==0) ws_check(wg_dhash_haskey(NULL,t,KEY(i))==0,"absent before"); ws_check(wg_dhash_addkey(NULL,t,KEY(i))==0,"a set takes as many keys as it was made for"); ws_check(wg_dhash_haskey(NULL,t,KEY(i))==1,"present"); if(i%5==0) ws_check(wg_dhash_addkey(NULL,t,KEY(i))==0,"again"); } for(i=0;i<n;i++) ws_check(wg_dhash_haskey(NULL,t,KEY(i))==1,"a stored key is present"); for(i=n;i<n+100;i++) ws_check(wg_dhash_haskey(NULL,t,KEY(i))==0,"another key is absent"); wg_dhash_free(NULL,t); ws_check(ws_alloc_live==live,"all memory is given back"); ws_reach("set"); }
#elif defined(U_DHF) /* beyond the capacity */
void ws_main(void){ void*t=wg_dhash_init(NULL,1); int i,n=0,m=ws_param("m",500),st=ws_choose(3,"keys"); static char in[2000]; ws_assert(t); for(i=0;i<m;i++){ gint k=st==0?(gint)(i+1)*8:st==1?(gint)(i+1)*389:-(gint)(i*i+1); gint r=wg_dhash_addkey(NULL,t,k); in[i]=r==0; if(r==0) n++; else ws_reach("full"); } for(i=0;i<m;i++){ gint k=st==0?(gint)(i+1)*8:st==1?(gint)(i+1)*389:-(gint)(i*i+1); ws_check(wg_dhash_haskey(NULL,t,k)==in[i],"exactly the accepted keys are present"); } ws_check(n>=1,"some"); ws_reach("end"); }
#else /* every capacity */
void ws_main(void){ unsigned long n=ws_u(64,"entries"); void*t; ws_malloc_limit=100000; ws_last_request=0; t=wg_dhash_init(NULL,n); if(t||ws_last_request>100000){ ws_check(ws_last_request/8>n,"the table has room for all entries"); ws_check(ws_last_request/8<n*5+1000,"the table is not absurdly large"); ws_reach("sized"); } else { ws_check(n>2000000000UL,"an ordinary number is supported"); ws_reach("unsupported"); } }
#endif
