/* A02: storage of deleted objects of every kind can be used again */
#include "h.h"
static void *db; static void *R[40]; static int nr;
static char buf[400];
static char*str(int n,int seed){ int i; for(i=0;i<n;i++) buf[i]='a'+(i*7+seed)%26; buf[n]=0; return buf; }
/* one object of each kind, in a field of its own record */
static wg_int mk(int kind,int seed){ switch(kind){
 case 0: return wg_encode_int(db,0x123456789abcdefL+seed); case 1: return wg_encode_double(db,1.5+seed);
 case 2: return wg_encode_str(db,str(20,seed),NULL); case 3: return wg_encode_str(db,str(60,seed),NULL);
 case 4: return wg_encode_str(db,str(10,seed),"en"); case 5: return wg_encode_uri(db,str(40,seed),str(5,seed));
 case 6: return wg_encode_blob(db,str(100,seed),"bin",100); case 7: return wg_encode_xmlliteral(db,str(300,seed),"xsd:a"); default: return wg_encode_int(db,seed); } }
#define NK 9
static void work(int ops,const int*op,const long*len){ int k,i; for(k=0;k<ops;k++){ int c=op[k]; long l=len[k]; R[nr]=wg_create_record(db,l); ws_check(R[nr]!=NULL,"memory used by deleted data can be used again"); for(i=0;i<l;i++){ wg_int e=mk(c,k*3+(i&3)); ws_check(e!=WG_ILLEGAL,"memory used by deleted data can be used again"); ws_assert(wg_set_field(db,R[nr],i,e)==0); } if(k>1&&l>3) ws_assert(wg_set_field(db,R[nr],2,wg_encode_record(db,R[nr-1]))==0); nr++; } }
static void clear(int order){ int i,k; for(i=0;i<nr;i++) if(wg_get_record_len(db,R[i])>3) ws_assert(wg_set_field(db,R[i],2,wg_encode_int(db,1))==0);
  for(k=0;k<nr;k++){ i=order==0?k:order==1?nr-1-k:(k*2<nr?2*k:2*(k-(nr+1)/2)+1); if(i>=nr) i=nr-1; if(R[i]){ ws_check(wg_delete_record(db,R[i])==0,"deleting"); R[i]=NULL; } }
  for(k=0;k<nr;k++) if(R[k]){ ws_assert(wg_delete_record(db,R[k])==0); R[k]=NULL; } nr=0; ws_check(nrecords(db)==0,"all records are gone"); }
static long lens[]={1,4,30,120};
void ws_main(void){
#ifdef U_CYCLE /* the same create and delete workload again and again never grows the database */
  int ops=ws_param("ops",4),op[8],k; long len[8],f; int order,round; db=newdb(ws_param("size",300000)); ws_assert(wg_create_index(db,0,WG_INDEX_TYPE_TTREE,NULL,0)==0);
  for(k=0;k<ops;k++){ op[k]=ws_choose(NK,"kind"); len[k]=lens[ws_choose(ws_param("lens",2),"len")]; } order=ws_choose(3,"order");
  work(ops,op,len); clear(order); f=wg_database_freesize(db);
  for(round=0;round<2;round++){ work(ops,op,len); clear((order+round)%3); ws_check(wg_database_freesize(db)==f,"a repeated create and delete workload does not grow the database"); }
  /* and the room is one piece again */
  { void*r=wg_create_record(db,ws_param("one",900)); ws_check(r!=NULL && wg_database_freesize(db)==f,"neighbouring free pieces are joined"); }
  ws_reach("cycled");
#endif
#ifdef U_FILL /* fill to the last byte, free, fill again: the same amount fits */
  { int kind=ws_choose(NK,"kind"),len=(int)lens[ws_choose(4,"len")],n1=0,n2=0,round; void*first=NULL,*r; static void*S[4000]; db=newdb(160000+ws_choose(3,"sz")*8192);
    for(round=0;round<3;round++){ int n=0,i; for(;;){ wg_int e=mk(kind,round==0?n:n); if(e==WG_ILLEGAL) break; r=wg_create_record(db,len); if(!r){ wg_free_encoded(db,e); break; } ws_assert(wg_set_field(db,r,0,e)==0); S[n++]=r; ws_assert(n<4000); }
      if(round==0) n1=n; else ws_check(n>=n1,"after deleting everything as much fits as before"); ws_check(nrecords(db)==n,"records present");
      for(i=0;i<n;i++) ws_check(wg_delete_record(db,S[round==1?n-1-i:i])==0,"deleting"); }
    ws_reach("filled"); }
#endif
}
