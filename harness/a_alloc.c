/* A01-A04: record storage, through the public interface only */
#include "h.h"
#define MAXR 64
static void *db; static char *seg; static long segsz;
static struct { void*rec; long len; wg_int v[4]; int raw; } M[MAXR]; static int nm;
/* every field of a record gets a distinctive value; first and last field hold arbitrary ones */
static wg_int tag(int i,long f){ return wg_encode_int(db,1000*i+f); }
static void fill(int i,int full){ long f; for(f=0;f<M[i].len;f++){ wg_int e; if(full && (f==0||f==M[i].len-1)){ long x=(long)ws_u(64,"value"); e=wg_encode_int(db,x); ws_assert(e!=WG_ILLEGAL); M[i].v[f==0?0:1]=x; } else e=tag(i,f); ws_assert(wg_set_new_field(db,M[i].rec,f,e)==0); } M[i].raw=!full; }
static int create(long len,int full){ int i=nm++; ws_assert(i<MAXR); M[i].rec=wg_create_record(db,len); ws_check(M[i].rec!=NULL,"a record that fits can be created"); M[i].len=len; ws_check((char*)M[i].rec>=seg && (char*)M[i].rec+(3+len)*8<=seg+segsz,"a record lies inside the segment"); fill(i,full); return i; }
static void verify(int i){ long f; ws_check(wg_get_record_len(db,M[i].rec)==M[i].len,"a record keeps its length"); for(f=0;f<M[i].len;f++){ wg_int e=wg_get_field(db,M[i].rec,f); if(!M[i].raw && (f==0||f==M[i].len-1)) ws_check(wg_decode_int(db,e)==M[i].v[f==0&&M[i].len>1?0:(M[i].len==1?0:1)],"a field keeps its value"); else ws_check(e==tag(i,f),"a field keeps its value"); } }
static void verify_all(void){ int i,j,n=0; for(i=0;i<nm;i++) if(M[i].rec){ n++; verify(i); for(j=0;j<i;j++) if(M[j].rec){ char*a=M[i].rec,*b=M[j].rec; ws_check(a+(3+M[i].len)*8<=b || b+(3+M[j].len)*8<=a,"live records are disjoint"); } }
  /* the walk sees exactly the live ones, each once */
  { void*r=wg_get_first_record(db); int seen=0; while(r){ for(i=0;i<nm;i++) if(M[i].rec==r) break; ws_check(i<nm,"the walk visits live records only"); seen++; ws_check(seen<=n,"the walk visits each record once"); r=wg_get_next_record(db,r); } ws_check(seen==n,"the walk visits every record"); } }
static void del(int i){ ws_check(wg_delete_record(db,M[i].rec)==0,"a record can be deleted"); M[i].rec=NULL; }
static long lens[]={0,1,2,5,29,30,31,40};
void ws_main(void){
  int i,k; db=newdb(DBSIZE); seg=*(char**)db; segsz=wg_database_size(db);
#ifdef U_SPLIT /* reuse a hole of any length by a shorter or longer record */
  { long mx=ws_param("max",40),a=ws_range(0,mx,"a"),b=ws_range(0,mx,"b"); int x,y; a=ws_concretize(a); b=ws_concretize(b);
    create(1,0); x=create(a,0); create(3,0); verify_all(); del(x); verify_all(); y=create(b,1); verify_all(); create(2,0); create(0,0); verify_all();
    del(1-1); verify_all(); del(y); verify_all(); x=create(a,0); create(b,0); verify_all(); ws_reach("split"); }
#endif
#ifdef U_MIX /* histories of creating and deleting */
  { int ops=ws_param("ops",5),nl=ws_param("lens",6); create(2,1);
    for(k=0;k<ops;k++){ int live=0; for(i=0;i<nm;i++) live+=M[i].rec!=NULL; int c=ws_choose(nl+live,"op");
      if(c<nl) create(lens[c],0); else { c-=nl; for(i=0;i<nm;i++) if(M[i].rec && c--==0) break; del(i); }
      verify_all(); ws_dedup(); }
    ws_reach("mixed"); }
#endif
#ifdef U_ORDER /* neighbours of few sizes deleted in every order, then the room used again */
  { int dels=ws_param("dels",6),n=ws_param("n",9),v=1+ws_choose(3,"layout"),left; create((v&1)?500:17,0); for(i=1;i<n;i++) create((v&2)||(i&1)==0?17:6,0); create(6,0); create(6,0); left=n;
    for(k=0;k<dels;k++){ int c=ws_choose(left--,"del"); for(i=0;i<n;i++) if(M[i].rec && c--==0) break; del(i); }
    for(k=0;k<14;k++){ static const long use[]={17,17,6,17,29,6,6,1,38,17,6,40,3,17}; create(use[k],0); } verify_all();
    for(i=1;i<nm;i+=2) if(M[i].rec) del(i); verify_all(); create(450,0); create(17,0); create(6,0); verify_all(); ws_reach("order"); }
#endif
#ifdef U_MERGE /* neighbours deleted in every order join into one usable piece */
  { int n=3,ord[4],left=n,grown; long tot=0; long first; create(1,0);
    for(k=0;k<n;k++){ long l=lens[ws_choose(6,"len")]; i=create(l,0); tot+=(l<1?1:l); if((3+(l<1?1:l))%2) ; }
    create(1,0); /* guard */
    { char*lo=M[1].rec,*hi=M[n+1].rec; long span=hi-lo; 
      ws_assume(lo<(char*)M[2].rec && (char*)M[2].rec<(char*)M[3].rec && (char*)M[3].rec<hi);
      for(k=0;k<n;k++){ int c=ws_choose(left,"del"); for(i=1;i<=n;i++) if(M[i].rec && c--==0) break; del(i); left--; verify_all(); }
      /* a record spanning exactly the joined room must go there: the long ones need a general bucket, the short ones an exact one */
      { long l=span/8-3; int got=0,t; void*r; grown=wg_database_freesize(db);
        for(t=0;t<3000 && !got;t++){ r=wg_create_record(db,l); ws_assert(r!=NULL); if(wg_database_freesize(db)!=grown) break; if((char*)r==lo) got=1; }
        ws_check(got,"joined neighbours are used as one piece before the database grows"); }
      ws_reach("merged"); ws_exit();
      } }
#endif
#ifdef U_DV /* the end of the designated free area: exhaust it exactly, then grow */
  { long mx=ws_param("max",40); long l0=ws_concretize(ws_range(0,mx,"last")); long big=ws_concretize(ws_range(0,8,"big"));
    i=create(900+big,0); create(60,0); create(l0,0); create(l0,0); verify_all(); create(5,0); create(1100,0); verify_all(); del(i); del(2); verify_all(); create(l0,0); create(big,0); verify_all(); del(1); create(950,0); verify_all(); ws_reach("dv"); }
#endif
#ifdef U_DV2 /* a freed record becomes the designated area, then is given up again when the database grows */
  { long mx=ws_param("max",8); long l0=ws_concretize(ws_range(0,mx,"after")),l1=ws_concretize(ws_range(0,mx,"inside")); int c; int x,y;
    create(1,0); x=create(900,0); y=create(l0,0); create(2,0); verify_all(); del(x); verify_all(); create(l1,0); verify_all(); c=ws_choose(3,"use"); if(c) create(c==1?300:895-l1-l1/8,0); verify_all();
    create(1100,0); verify_all(); c=ws_choose(3,"then"); if(c==0) del(y); else if(c==1) create(300,0); else { del(4); } verify_all(); create(100,0); verify_all(); create(l0,1); verify_all(); ws_reach("dv2"); }
#endif
#ifdef U_LEN /* a record of any requested length has that length, or is refused */
  { long l=(long)ws_u(64,"length"); void*r; ws_assume(l<0 || l>ws_param("above",100000)); create(2,0); r=wg_create_record(db,l); if(r) ws_check(wg_get_record_len(db,r)==l,"a record has the length it was created with"); else ws_reach("refused"); r=wg_create_raw_record(db,l); if(r) ws_check(wg_get_record_len(db,r)==l,"a record has the length it was created with"); verify_all(); }
#endif
}
