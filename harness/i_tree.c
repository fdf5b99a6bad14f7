/* I01: a sorted index always holds exactly the current rows in order */
#include "hi.h"
static void*db; static gint id;
#define MX 130
static void*R[MX]; static long K[MX]; static int n; static int mode;
/* the key k as a stored value: a small number, one outside the immediate range, or a double */
static gint enc(long k){ switch(mode){ case 1: return wg_encode_int(db,k+(1L<<40)); case 2: return wg_encode_double(db,(double)k+0.5); default: return wg_encode_int(db,k); } }
static int mine(void*r){ int i; for(i=0;i<n;i++) if(R[i]==r) return i; return -1; }
static void check(void){ int i,p=-1; static char seen[MX]; ti_collect(db,id); memset(seen,0,sizeof seen); ws_check(ti_n==n,"the index holds as many rows as there are");
  for(i=0;i<ti_n;i++){ int m=mine(offsettoptr(db,ti_rows[i])); ws_check(m>=0,"every row of the index exists"); ws_check(!seen[m],"a row is in the index once"); seen[m]=1; if(p>=0) ws_check(K[p]<=K[m],"rows are in order"); p=m; } }
static int add(long k){ void*r; ws_assert(n<MX); r=wg_create_raw_record(db,2); ws_assert(r!=NULL); ws_assert(wg_set_new_field(db,r,0,wg_encode_null(db,0))==0); ws_assert(wg_set_new_field(db,r,1,enc(k))==0); R[n]=r; K[n]=k; return n++; }
static void addc(long k){ void*r=wg_create_record(db,2); ws_assert(r!=NULL); ws_assert(wg_set_field(db,r,1,enc(k))==0); R[n]=r; K[n]=k; n++; }
static void del(int i){ ws_check(wg_delete_record(db,R[i])==0,"a row is deleted"); n--; R[i]=R[n]; K[i]=K[n]; }
static void upd(int i,long k){ ws_check(wg_set_field(db,R[i],1,enc(k))==0,"a row is changed"); K[i]=k; }
/* starting contents: N rows in one of several orders */
static void fill(int N,int pat,long step){ int i; for(i=0;i<N;i++){ long k; switch(pat){ case 0: k=i; break; case 1: k=N-1-i; break; case 2: k=(i&1)?N-1-i/2:i/2; break; case 3: k=(i*37)%N; break; case 4: k=0; break; default: k=(i*7)%3; } addc(k*step); } }
#ifdef U_EDGE /* indexes on the outermost columns, records of lengths around them */
static gint ids[4]; static const int cols[4]={0,1,126,127}; static const int lens[6]={1,2,127,128,129,200}; static int act[4];
static long KV[8][4]; static int L[8];
static void edge(void){ int c,i; for(c=0;c<4;c++) if(act[c]){ int want=0; long p=0; ti_collect(db,ids[c]); for(i=0;i<n;i++) want+=L[i]>cols[c]; ws_check(ti_n==want,"the index holds as many rows as there are"); for(i=0;i<ti_n;i++){ int m=mine(offsettoptr(db,ti_rows[i])); ws_check(m>=0&&L[m]>cols[c],"every row of the index exists and has the column"); ws_check(i==0||p<=KV[m][c],"rows are in order"); p=KV[m][c]; } } }
void ws_main(void){ int k,ops=ws_param("ops",4),c,i; db=newdb(400000);
  for(c=0;c<4;c++){ act[c]=1; if(wg_create_index(db,cols[c],WG_INDEX_TYPE_TTREE,NULL,0)!=0) ws__fail("an index on a valid column"); ids[c]=wg_column_to_index_id(db,cols[c],WG_INDEX_TYPE_TTREE,NULL,0); }
  ws_check(wg_create_index(db,MAX_INDEXED_FIELDNR+1,WG_INDEX_TYPE_TTREE,NULL,0)!=0,"no index on a column beyond the limit");
  for(k=0;k<ops;k++){ int o=ws_choose(3,"op"); if(o==0){ int l=lens[ws_choose(6,"len")],raw=ws_choose(2,"raw"); void*r; ws_assume(n<8); r=raw?wg_create_raw_record(db,l):wg_create_record(db,l); ws_assert(r!=NULL); R[n]=r; L[n]=l; for(c=0;c<4;c++) KV[n][c]=-1000; if(raw){ for(i=0;i<l;i++) ws_assert(wg_set_new_field(db,r,i,wg_encode_int(db,i+k))==0); for(c=0;c<4;c++) KV[n][c]=cols[c]+k; } n++; }
    else { ws_assume(n>0); i=ws_choose(n,"row"); if(o==1){ int j; ws_check(wg_delete_record(db,R[i])==0,"a row is deleted"); n--; R[i]=R[n]; L[i]=L[n]; for(j=0;j<4;j++) KV[i][j]=KV[n][j]; } else { c=ws_choose(4,"column"); ws_assume(cols[c]<L[i]); KV[i][c]=50-30*k; ws_check(wg_set_field(db,R[i],cols[c],wg_encode_int(db,50-30*k))==0,"a row is changed"); } }
    edge(); }
  for(c=3;c>=0;c--) if(ws_choose(2,"drop")){ ws_check(wg_drop_index(db,ids[c])==0,"an index is dropped"); act[c]=0; edge(); }
  while(n){ n--; ws_check(wg_delete_record(db,R[n])==0,"a row is deleted"); edge(); } ws_reach("edge"); }
#else
static const int sizes[]={0,1,8,9,17,24,26,33,48,60,90};
void ws_main(void){ int i,k; db=newdb(400000); mode=ws_choose(ws_param("modes",3),"mode");
  if(ws_choose(2,"before")) { id=0; } else { ws_assert(wg_create_index(db,1,WG_INDEX_TYPE_TTREE,NULL,0)==0); id=wg_column_to_index_id(db,1,WG_INDEX_TYPE_TTREE,NULL,0); ws_assert(id>0); }
  wg_create_record(db,1); /* a record without the column */
  { int lo=ws_param("slo",0),hi=ws_param("shi",7); int N=sizes[lo+ws_choose(hi-lo,"N")],pat=ws_choose(6,"pattern"); fill(N,pat,10); }
  if(!id){ ws_assert(wg_create_index(db,1,WG_INDEX_TYPE_TTREE,NULL,0)==0); id=wg_column_to_index_id(db,1,WG_INDEX_TYPE_TTREE,NULL,0); ws_assert(id>0); }
  check();
#ifdef U_SYM /* arbitrary keys */
  { int ops=ws_param("ops",2); for(k=0;k<ops;k++){ int c=ws_choose(3,"op"); if(c==0) add(ws_range(-20,1000,"key")); else { ws_assume(n>0); if(c==1) i=ws_choose(n,"row"); else { int m=ws_param("upds",6); if(m>n) m=n; i=(int)((long)ws_choose(m,"row")*n/m); } if(c==1) del(i); else upd(i,ws_range(-20,1000,"key")); } check(); } ws_reach("sym"); }
#endif
#ifdef U_RUN /* remove all rows from any start in steps */
  { int N=n,start,step; ws_assume(N>0); { static const int st[]={1,2,3,5,7,11,13}; start=ws_choose(N,"start"); step=st[ws_choose(7,"step")]; } 
    /* rows in insertion order */ static void*O[MX]; static char gone[MX]; for(i=0;i<N;i++){ O[i]=R[i]; gone[i]=0; } i=start; for(k=0;k<N;k++){ while(gone[i]) i=(i+1)%N; gone[i]=1; del(mine(O[i])); check(); i=(i+step)%N; } 
    ws_check(n==0,"all gone"); add(5); add(3); check(); ws_reach("run"); }
#endif
#ifdef U_SYMRUN /* one arbitrary key among rows that are then removed */
  { int at; add(ws_range(-20,1000,"key")); check(); at=ws_choose(4,"order"); while(n){ int t=at==0?0:at==1?n-1:at==2?n/2:(n*7/3)%n; del(t); check(); } ws_reach("symrun"); }
#endif
}
#endif
