/* I02: a hash index always finds exactly the matching records */
#include "hi.h"
static void*db; static gint id; static gint cols[3]; static int nc,jsn;
#include "dbschema.h"
#define MX 16
static void*R[MX]; static int n;
static int mine(void*r){ int i; for(i=0;i<n;i++) if(R[i]==r) return i; return -1; }
/* equal as stored values; a reference equals itself */
static int eq(gint a,gint b){ if(a==b) return 1; if(wg_get_encoded_type(db,a)==WG_RECORDTYPE||wg_get_encoded_type(db,b)==WG_RECORDTYPE) return 0; return WG_COMPARE(db,a,b)==WG_EQUAL; }
static void probe(gint*v){ int seen[MX],i,k,m; gint h=wg_search_hash(db,id,v,nc); ws_check(h>=0,"a search gives an answer"); memset(seen,0,sizeof seen);
  for(k=0;h;k++){ gcell*c=(gcell*)offsettoptr(db,h); m=mine(offsettoptr(db,c->car)); ws_check(m>=0,"a found row exists"); ws_check(!seen[m],"a row is found once"); seen[m]=1; h=c->cdr; ws_check(k<MX,"the result ends"); }
  for(i=0;i<n;i++){ int w=wg_get_record_len(db,R[i])>cols[nc-1]; for(k=0;k<nc&&w;k++) w=eq(wg_get_field(db,R[i],cols[k]),v[k]); ws_check(w==seen[i],"exactly the matching rows are found"); } }
static void probe_rows(void){ int i,k; for(i=0;i<n;i++){ gint v[3]; if(wg_get_record_len(db,R[i])<=cols[nc-1]) continue; for(k=0;k<nc;k++) v[k]=wg_get_field(db,R[i],cols[k]); probe(v); } }
static char LONGS[]="a string of more than thirty-two characters", LONGT[]="a string of more than thirty-two characterz"; static char ST[3]; static union { double d; unsigned long u; } U;
#define NK 21
static gint val(int k){ switch(k){ case 0: return wg_encode_int(db,(long)ws_u(64,"int")); case 1: U.u=ws_u(64,"double"); return wg_encode_double(db,U.d);
  case 2: ST[0]=(char)ws_u(8,"c"); ST[1]=0; return wg_encode_str(db,ST,NULL); case 3: return wg_encode_null(db,0); case 4: return wg_encode_str(db,LONGS,NULL); case 5: return wg_encode_str(db,LONGT,"en");
  case 6: return wg_encode_uri(db,"ab","c"); case 7: return wg_encode_uri(db,"b","ca"); case 8: return wg_encode_uri(db,"cab",NULL); case 9: return wg_encode_xmlliteral(db,"ab","c"); case 10: return wg_encode_blob(db,"a\0b","x",3); case 11: return wg_encode_blob(db,"a\0c","x",3); case 12: return wg_encode_blob(db,"a","x",1);
  case 13: return wg_encode_char(db,(char)ws_u(8,"char")); case 14: return wg_encode_date(db,(int)ws_range(1,100000,"date")); case 15: return wg_encode_time(db,(int)ws_range(0,8639999,"time")); case 16: return wg_encode_var(db,(long)ws_u(58,"var")); case 17: return wg_encode_fixpoint(db,1.5); case 18: return wg_encode_str(db,"",NULL); case 19: return wg_encode_int(db,(1L<<32)+5); default: return wg_encode_int(db,5); } }
static void mk(int len){ ws_assert(n<MX); R[n]=wg_create_record(db,len); ws_assert(R[n]!=NULL); n++; }
static void index_on(int c,gint*cl,int type,int slots){ int i; nc=c; for(i=0;i<c;i++) cols[i]=cl[i]; ws_assert(wg_create_multi_index(db,cl,c,type,NULL,0)==0); id=wg_multi_column_to_index_id(db,cl,c,type,NULL,0); ws_assert(id>0); if(slots) HASHIDX_ARRAYP(HDR(db,id))->arraylength=slots; }
void ws_main(void){ int k,i; db=newdb(400000);
#ifdef U_PAIR /* any two values: found exactly when equal */
  { gint cl[2]={1,0},x,y,v[1]; index_on(1,cl,WG_INDEX_TYPE_HASH,1); mk(2); mk(3); mk(1); x=val(ws_choose(NK,"k")); y=val(ws_choose(NK,"k")); ws_assume(x!=WG_ILLEGAL&&y!=WG_ILLEGAL); ws_check(wg_set_field(db,R[0],1,x)==0&&wg_set_field(db,R[1],1,y)==0,"values are stored"); probe_rows(); v[0]=wg_encode_null(db,0); probe(v); ws_assert(wg_set_field(db,R[0],1,wg_encode_str(db,LONGS,NULL))==0); probe_rows(); ws_check(wg_delete_record(db,R[1])==0,"a row is deleted"); R[1]=R[--n]; probe_rows(); ws_reach("pair"); }
#endif
#ifdef U_MULTI /* two columns: keys do not run into each other */
  { gint cl[2]={2,0},v[2]; int rev=ws_choose(2,"order"); if(rev){ cl[0]=0; cl[1]=2; } index_on(2,cl,WG_INDEX_TYPE_HASH,1); cols[0]=0; cols[1]=2; mk(3); mk(3); mk(2); mk(1);
    { static const int ks[]={0,20,18,6,10,4,2,8,12,7}; int nk=ws_param("kinds",10),a=ks[ws_choose(nk,"a")],b=ks[1+ws_choose(nk-1,"b")],c=ws_choose(2,"same")?b:18,d=ws_choose(2,"same2")?a:20; ws_assert(wg_set_field(db,R[0],0,val(a))==0&&wg_set_field(db,R[0],2,val(b))==0&&wg_set_field(db,R[1],0,val(c))==0&&wg_set_field(db,R[1],2,val(d))==0); }
    probe_rows(); v[0]=wg_get_field(db,R[0],2); v[1]=wg_get_field(db,R[0],0); probe(v); v[0]=wg_get_field(db,R[0],0); v[1]=wg_get_field(db,R[1],2); probe(v); ws_reach("multi"); }
#endif
#ifdef U_AMB /* texts chosen to imitate the joint between keys */
  { gint cl[2]={0,1}; static const char*T[]={"p","\x07x","x","p\x05x","\x05x","","p\x07x","s","\x07xs"}; int i; index_on(2,cl,WG_INDEX_TYPE_HASH,1); for(i=0;i<2;i++){ int f; mk(2); for(f=0;f<2;f++){ int t=ws_choose(3,"t"),a=ws_choose(t==2?1:ws_param("texts",6),"a"); gint e; if(t==0) e=wg_encode_str(db,(char*)T[a],NULL); else { int b=ws_choose(3,"b"); static const char*Q[]={NULL,"p","x"}; e=t==1?wg_encode_uri(db,(char*)T[a],(char*)Q[b]):wg_encode_blob(db,(char*)(b==0?"p\0\x08x":b==1?"x":"p"),"t",b==0?4:1); } ws_assume(e!=WG_ILLEGAL); ws_assert(wg_set_field(db,R[i],f,e)==0); } } probe_rows(); ws_reach("amb"); }
#endif
#ifdef U_HIST /* any history, one to three columns, few or many slots */
  { gint cl[3]={1,0,3}; int ops=ws_param("ops",4),c=1+ws_choose(3,"cols"),sl=ws_choose(2,"slots"),late=ws_choose(2,"late"); static const int ks[]={20,4,6,2}; if(!late) index_on(c,cl,WG_INDEX_TYPE_HASH,sl?1:0); cols[0]=c==1?1:0; cols[1]=1; cols[2]=3;
    mk(4); mk(2); mk(4); for(i=0;i<n;i++) ws_assert(wg_set_field(db,R[i],1,wg_encode_int(db,5))==0); if(late){ index_on(c,cl,WG_INDEX_TYPE_HASH,0); cols[0]=c==1?1:0; cols[1]=1; cols[2]=3; }
    probe_rows();
    for(k=0;k<ops;k++){ int o=ws_choose(3,"op"); i=ws_choose(n,"row"); if(o==0){ int f=ws_choose(3,"col"); static const int fc[]={0,1,3}; gint e; ws_assume(fc[f]<wg_get_record_len(db,R[i])); e=ws_choose(3,"v"); e=e==0?wg_encode_int(db,5):e==1?wg_encode_str(db,LONGS,NULL):wg_encode_record(db,R[ws_choose(2,"target")]); ws_assert(wg_set_field(db,R[i],fc[f],e)==0); } else if(o==1){ if(wg_delete_record(db,R[i])==0){ R[i]=R[--n]; if(!n) mk(4); } } else { ws_assume(n<5); mk(ws_choose(2,"len")?4:2); }
      probe_rows(); { gint v[3]; v[0]=wg_encode_int(db,5); v[1]=wg_encode_int(db,5); v[2]=wg_encode_null(db,0); probe(v); v[0]=wg_encode_null(db,0); probe(v); } } ws_reach("hist"); }
#endif
#ifdef U_JSON /* arrays are found by each of their elements */
  { gint cl[2]={1,2}; static void*A[3][3]; static int an; int ops=ws_param("ops",3),late=ws_choose(2,"late"); void*arr[3]; gint key=wg_encode_str(db,"k",NULL),v[2]; int j; jsn=1;
    for(i=0;i<3;i++){ arr[i]=wg_create_array(db,i+1,0,0); ws_assert(arr[i]!=NULL); for(j=0;j<=i;j++) ws_assert(wg_set_field(db,arr[i],j,wg_encode_int(db,j/2))==0); }
    if(!late) index_on(2,cl,WG_INDEX_TYPE_HASH_JSON,1);
    for(i=0;i<2;i++){ R[n]=wg_create_kvpair(db,wg_encode_str(db,"k",NULL),i?wg_encode_record(db,arr[2]):wg_encode_int(db,0),0); ws_assert(R[n]!=NULL); n++; } 
    if(late) index_on(2,cl,WG_INDEX_TYPE_HASH_JSON,0);
    for(k=0;k<=ops;k++){ int x,m; if(k){ int o=ws_choose(4,"op"); if(o==0) ws_assert(wg_set_field(db,R[ws_choose(n,"row")],2,wg_encode_int(db,ws_choose(2,"x")))==0); else if(o==1) ws_assert(wg_set_field(db,R[ws_choose(n,"row")],2,wg_encode_record(db,arr[ws_choose(3,"arr")]))==0); else if(o==2){ int a=ws_choose(3,"arr"); j=ws_choose(a+1,"el"); ws_assert(wg_set_field(db,arr[a],j,wg_encode_int(db,ws_choose(3,"x")))==0); } else { int a=ws_choose(3,"arr"); ws_assert(wg_set_field(db,arr[a],0,wg_encode_record(db,arr[(a+1)%3]))==0); } }
      for(x=0;x<3;x++){ int got[MX]={0}; gint h; v[0]=key; v[1]=wg_encode_int(db,x); h=wg_search_hash(db,id,v,2); ws_check(h>=0,"a search gives an answer"); for(j=0;h;j++){ gcell*c=(gcell*)offsettoptr(db,h); m=mine(offsettoptr(db,c->car)); ws_check(m>=0,"a found row exists"); got[m]=1; h=c->cdr; ws_check(j<40,"the result ends"); }
        for(i=0;i<n;i++){ gint e=wg_get_field(db,R[i],2); int w=0; if(wg_get_encoded_type(db,e)==WG_RECORDTYPE){ void*a=wg_decode_record(db,e); for(j=0;j<wg_get_record_len(db,a);j++) if(wg_get_field(db,a,j)==v[1]) w=1; } else w=e==v[1]; ws_check(w==got[i],"exactly the rows holding the value are found"); } } } ws_reach("json"); }
#endif
#ifdef U_RAW /* raw records filled field by field in any order */
  { gint cl[3]={0,1,2}; static const int ord[6][3]={{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}}; int c=1+ws_choose(3,"cols"),o=ws_choose(6,"order"),f; if(c==1) cl[0]=ws_choose(3,"col"); index_on(c,cl,WG_INDEX_TYPE_HASH,1); mk(3); 
    R[n]=wg_create_raw_record(db,3); ws_assert(R[n]!=NULL); n++; for(f=0;f<3;f++) ws_assert(wg_set_new_field(db,R[1],ord[o][f],f==0?wg_encode_int(db,(long)ws_u(64,"x")):f==1?wg_encode_str(db,LONGS,NULL):wg_encode_null(db,0))==0); 
    probe_rows(); if(ws_choose(2,"null")) { gint v[3]={0,0,0}; probe(v); } ws_check(wg_set_field(db,R[1],ord[o][0],wg_encode_int(db,7))==0,"a row is changed"); probe_rows(); ws_check(wg_delete_record(db,R[1])==0,"a row is deleted"); n--; probe_rows(); ws_reach("raw"); }
#endif
}
