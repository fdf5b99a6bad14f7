/* R02: references between records */
#include "h.h"
#define NR 4
static void*db; static void*R[NR]; static int F[NR][2]; static int live[NR],nr;
/* the parents the database reports are exactly the records with a field pointing there */
static void check(void){ int i,j,f; for(i=0;i<nr;i++) if(live[i]){ int cnt=0,want=0,seen[NR]={0}; void*p; for(j=0;j<nr;j++) if(live[j]&&(F[j][0]==i||F[j][1]==i)) want++;
   for(p=wg_get_first_parent(db,R[i]);p;p=wg_get_next_parent(db,R[i],p)){ for(j=0;j<nr;j++) if(live[j]&&R[j]==p) break; ws_check(j<nr,"a parent is a live record"); ws_check(F[j][0]==i||F[j][1]==i,"a parent refers to the record"); ws_check(!seen[j],"each parent is given once"); seen[j]=1; if(++cnt>NR) ws__fail("parents do not end"); } ws_check(cnt==want,"every referring record is a parent");
   for(f=0;f<2;f++){ wg_int e=wg_get_field(db,R[i],f); if(F[i][f]<0) ws_check(wg_get_encoded_type(db,e)!=WG_RECORDTYPE,"no reference"); else ws_check(wg_get_encoded_type(db,e)==WG_RECORDTYPE&&wg_decode_record(db,e)==R[F[i][f]],"a reference reads back"); } } }
void ws_main(void){ int k,i,j,f,ops=ws_param("ops",4); db=newdb(200000); nr=ws_param("recs",3);
#ifdef U_IDX
  ws_assert(wg_create_index(db,0,WG_INDEX_TYPE_TTREE,NULL,0)==0);
#endif
  for(i=0;i<nr;i++){ R[i]=wg_create_record(db,2); live[i]=1; F[i][0]=F[i][1]=-1; ws_assert(wg_set_int_field(db,R[i],0,i)==0); }
  check();
  for(k=0;k<ops;k++){ int c=ws_choose(nr*(2*(nr+1)+1),"op"); i=c/(2*(nr+1)+1); c%=2*(nr+1)+1; if(!live[i]){ ws_assume(0); }
    if(c<2*(nr+1)){ f=c&1; j=c/2-1; if(j>=0) ws_assume(live[j]); ws_assert(wg_set_field(db,R[i],f,j<0?wg_encode_int(db,5):wg_encode_record(db,R[j]))==0); F[i][f]=j; }
    else { int refd=0,self=F[i][0]==i||F[i][1]==i; wg_int r; for(j=0;j<nr;j++) if(live[j]&&j!=i&&(F[j][0]==i||F[j][1]==i)) refd=1; r=wg_delete_record(db,R[i]); if(refd) ws_check(r!=0,"a referenced record cannot be deleted"); else if(!self) ws_check(r==0,"an unreferenced record can be deleted"); if(r==0){ live[i]=0; ws_check(rec_listed(db,R[i])==0,"a deleted record is gone"); } else ws_check(rec_listed(db,R[i])==1,"a record that was not deleted is there"); }
    check(); }
  /* undo everything: all space and all parents go */
  for(i=0;i<nr;i++) if(live[i]) for(f=0;f<2;f++){ ws_assert(wg_set_int_field(db,R[i],f,1)==0); F[i][f]=-1; } check();
  for(i=0;i<nr;i++) if(live[i]) ws_check(wg_delete_record(db,R[i])==0,"an unreferenced record can be deleted"); ws_check(nrecords(db)==0,"empty"); ws_reach("refs"); }
