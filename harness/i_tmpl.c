/* I03: an index with a template covers exactly the matching records */
#include "hi.h"
static void*db; static gint id[4]; static int ni;
#define MX 16
#define NC 4
static void*R[MX]; static int n;
static int mine(void*r){ int i; for(i=0;i<n;i++) if(R[i]==r) return i; return -1; }
static char LONGS[]="a string of more than thirty-two characters";
/* the templates: fixed values per column, -1 for any */
static struct { int col,ncol,len; int fix[NC]; int hash; } T[4];
static gint cval(int v){ switch(v){ case 0: return wg_encode_null(db,0); case 1: return wg_encode_int(db,1); case 2: return wg_encode_str(db,LONGS,NULL); case 3: return wg_encode_int(db,1L<<40); case 4: return wg_encode_double(db,2.5); default: return wg_encode_int(db,2); } }
static int V[MX][NC]; static long X[MX][NC]; static int anyhash;
static int agree(int f,int i,int c){ if(V[i][c]!=100) return V[i][c]==f; return f==1?X[i][c]==1:f==5?X[i][c]==2:f==3?X[i][c]==1L<<40:0; } static int L[MX];
/* does the row agree with the template and have the indexed column */
static int want(int t,int i){ int c; if(L[i]<=T[t].col||(T[t].ncol>1&&L[i]<=3)) return 0; for(c=0;c<NC;c++) if(T[t].fix[c]>=0&&(L[i]<=c||!agree(T[t].fix[c],i,c))) return 0; return 1; }
static void check(void){ int t,i,seen[MX]; for(t=0;t<ni;t++){ memset(seen,0,sizeof seen);
   if(!T[t].hash){ void*p=NULL; ti_collect(db,id[t]); for(i=0;i<ti_n;i++){ void*r=offsettoptr(db,ti_rows[i]); int m=mine(r); ws_check(m>=0,"every row of the index exists"); ws_check(!seen[m],"a row is in the index once"); seen[m]=1; if(p) ws_check(WG_COMPARE(db,wg_get_field(db,p,T[t].col),wg_get_field(db,r,T[t].col))!=WG_GREATER,"rows are in order"); p=r; } 
     for(i=0;i<n;i++) ws_check(seen[i]==want(t,i),"the index holds exactly the rows that match"); }
   else { int j; for(j=0;j<n;j++){ gint v[2],h; int k=0; if(L[j]<=T[t].col||(T[t].ncol>1&&L[j]<=3)) continue; memset(seen,0,sizeof seen); v[0]=wg_get_field(db,R[j],T[t].col); if(T[t].ncol>1) v[1]=wg_get_field(db,R[j],3); h=wg_search_hash(db,id[t],v,T[t].ncol); ws_check(h>=0,"a search gives an answer"); for(;h;){ gcell*c=(gcell*)offsettoptr(db,h); int m=mine(offsettoptr(db,c->car)); ws_check(m>=0,"a found row exists"); ws_check(!seen[m],"a row is found once"); seen[m]=1; h=c->cdr; ws_check(++k<40,"the result ends"); }
       for(i=0;i<n;i++){ int w=want(t,i)&&WG_COMPARE(db,wg_get_field(db,R[i],T[t].col),v[0])==WG_EQUAL&&(T[t].ncol==1||WG_COMPARE(db,wg_get_field(db,R[i],3),v[1])==WG_EQUAL); ws_check(seen[i]==w,"exactly the matching rows are found"); } } } } }
static void mkidx(int t){ gint m[NC],cl[2]; int c; for(c=0;c<T[t].len;c++) m[c]=T[t].fix[c]<0?wg_encode_var(db,c):cval(T[t].fix[c]); cl[0]=T[t].col; cl[1]=3; ws_assert(wg_create_multi_index(db,cl,T[t].ncol,T[t].hash?WG_INDEX_TYPE_HASH:WG_INDEX_TYPE_TTREE,m,T[t].len)==0);
  for(c=0;c<T[t].len;c++) m[c]=T[t].fix[c]<0?wg_encode_var(db,c):cval(T[t].fix[c]); id[t]=wg_multi_column_to_index_id(db,cl,T[t].ncol,T[t].hash?WG_INDEX_TYPE_HASH:WG_INDEX_TYPE_TTREE,m,T[t].len); ws_check(id[t]>0,"the index is found by its template"); if(T[t].hash){ anyhash=1; if(!n) HASHIDX_ARRAYP(HDR(db,id[t]))->arraylength=1; } }
static void put(int i,int c,int v){ if(v==100){ long x=(long)ws_u(64,"x"); ws_check(wg_set_int_field(db,R[i],c,x)==0,"a field is set"); V[i][c]=100; X[i][c]=x; return; } ws_check(wg_set_field(db,R[i],c,cval(v))==0,"a field is set"); V[i][c]=v; }
static int mk(int len){ int c; R[n]=wg_create_record(db,len); ws_assert(R[n]!=NULL); L[n]=len; for(c=0;c<NC;c++) V[n][c]=0; return n++; }
void ws_main(void){ int k,i,c,ops=ws_param("ops",3),late; db=newdb(600000);
  /* index set-ups */
  static const struct { int col,ncol,len; int fix[NC]; int hash; } S[]={ {0,1,2,{-1,1,-1,-1},0},{0,1,3,{-1,1,2,-1},0},{2,1,2,{1,-1,-1,-1},0},{1,1,1,{2,-1,-1,-1},1},{0,2,2,{-1,1,-1,-1},1},{0,1,2,{-1,0,-1,-1},0},{1,1,4,{3,-1,-1,4},0},{0,1,4,{-1,1,-1,-1},0} };
  int s=ws_choose(8,"index"),s2=ws_choose(3,"second"); late=ws_choose(2,"late"); 
  memcpy(&T[0],&S[s],sizeof S[0]); ni=1; if(s2){ s=(s+(s2==1?1:4))%8; if(s==7&&ni) s=1; memcpy(&T[1],&S[s],sizeof S[0]); ni=2; if(!memcmp(&T[0].fix,&T[1].fix,sizeof T[0].fix)&&T[0].col==T[1].col&&T[0].ncol==T[1].ncol) ws_assume(0); }
  if(!late) for(k=0;k<ni;k++) mkidx(k);
  mk(4); mk(2); mk(1); mk(4); put(0,0,1); put(0,1,1); put(0,2,2); put(1,0,2); put(3,3,4); put(3,0,3);
  if(late) for(k=0;k<ni;k++) mkidx(k);
  check();
  for(k=0;k<ops;k++){ int o=ws_choose(6,"op"); if(o<4){ i=ws_choose(n,"row"); c=o; ws_assume(c<L[i]); { int nv=ws_param("vals",4),v=ws_choose(nv+!(late&&anyhash),"val"); put(i,c,v<nv?v:100); } }
    else if(o==4){ i=ws_choose(n,"row"); ws_check(wg_delete_record(db,R[i])==0,"a row is deleted"); n--; R[i]=R[n]; L[i]=L[n]; memcpy(V[i],V[n],sizeof V[i]); memcpy(X[i],X[n],sizeof X[i]); ws_assume(n>0); }
    else { ws_assume(n<6); mk(ws_choose(2,"len")?4:2); }
    check(); }
  ws_reach("tmpl"); }
