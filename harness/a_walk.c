/* A04: the walk over the records, with every other kind of object around */
#include "h.h"
wg_int wg_parse_json_param(void *db, const char *buf, void **document); wg_int wg_delete_document(void *db, void *document); void *wg_find_document(void *db, void *rec);
static void *db; static void*L[20]; static int nl; static int idx[4]; static void*P[4]; static int np; static wg_query*Q;
static int mine(void*r){ int i; for(i=0;i<nl;i++) if(L[i]==r) return i; return -1; }
static void walk(void){ void*r; int n=0,seen[20],i; for(i=0;i<nl;i++) seen[i]=0; for(r=wg_get_first_record(db);r;r=wg_get_next_record(db,r)){ i=mine(r); ws_check(i>=0,"only live records are visited"); ws_check(!seen[i],"each record is visited once"); seen[i]=1; n++; } ws_check(n==nl,"every live record is visited"); }
static void add(long len){ void*r=wg_create_record(db,len); ws_assert(r!=NULL); ws_assert(mine(r)<0); L[nl++]=r; { long f; for(f=0;f<len && f<3;f++) ws_assert(wg_set_field(db,r,f,f==0?wg_encode_int(db,nl):f==1?wg_encode_str(db,"a string of more than thirty-two characters",NULL):wg_encode_int(db,1L<<40))==0); } }
static long lens[]={0,3,1,40,800};
/* the extra records a document or its pieces consist of are ordinary records: pick them up */
static void adopt(void){ void*r; for(r=wg_get_first_record(db);r;r=wg_get_next_record(db,r)) if(mine(r)<0){ ws_assert(nl<20); L[nl++]=r; } }
#ifdef U_FULL /* a database without any free room left, then some of it is given back and used again */
#define MF 400
static void*F[MF]; static long FL[MF]; static int nf;
static int fnew(long len){ void*r=wg_create_record(db,len); long f; if(!r) return 0; ws_assert(nf<MF&&len>=1); for(f=0;f<nf;f++) ws_check(F[f]!=r,"a new record is a new place"); F[nf]=r; FL[nf]=len; for(f=0;f<len;f++) ws_assert(wg_set_field(db,r,f,wg_encode_int(db,f==0||f==len-1?nf:0))==0); nf++; return 1; }
static void fullwalk(void){ void*r; int n=0,live=0,i; static char seen[MF]; for(i=0;i<nf;i++){ seen[i]=0; live+=F[i]!=NULL; } for(r=wg_get_first_record(db);r;r=wg_get_next_record(db,r)){ wg_int e; long l=wg_get_record_len(db,r); ws_check(l>=1&&l<100000,"only live records are visited"); e=wg_get_field(db,r,0); ws_check(wg_get_encoded_type(db,e)==WG_INTTYPE,"records keep their contents"); i=(int)wg_decode_int(db,e); ws_check(i>=0&&i<nf&&F[i]==r,"only live records are visited"); ws_check(l==FL[i]&&wg_get_field(db,r,l-1)==e,"records keep their contents"); ws_check(!seen[i],"each record is visited once"); seen[i]=1; n++; } ws_check(n==live,"every live record is visited"); }
void ws_main(void){ static const long fl[]={30,5,8,40,3,200,1,12,30,7}; int k,i,ops=ws_param("ops",4),nd=ws_param("del",10); long l; db=newdb(ws_param("size",150000));
  for(i=0;i<10;i++) ws_assert(fnew(fl[i])); for(l=6000;l>0;) if(!fnew(l)) l=l>40?l*9/10:l-1; fullwalk();
  for(k=0;k<ops;k++){ int c=ws_choose(nd+4,"op"); if(c<nd){ ws_assume(F[c]!=NULL); ws_check(wg_delete_record(db,F[c])==0,"a record can be deleted"); F[c]=NULL; } else { static const long nl2[]={1,8,29,60}; fnew(nl2[c-nd]); } fullwalk(); }
  for(i=0;i<nf;i++) if(F[i]){ ws_check(wg_delete_record(db,F[i])==0,"a record can be deleted"); F[i]=NULL; if((i&7)==0) fullwalk(); }
  ws_check(nrecords(db)==0,"no record is left"); nf=0; ws_check(fnew(700),"room given back can be used again"); fullwalk(); ws_reach("full"); }
#else
void ws_main(void){ int k,ops=ws_param("ops",4); db=newdb(DBSIZE); walk(); 
  if(ws_choose(2,"prefilled")){ add(0); add(3); add(40); walk(); }
  for(k=0;k<ops;k++){ int c=ws_choose(13+nl,"op"); if(c<5) { add(lens[c]); }
    else if(c==5||c==6){ int t=c==5?WG_INDEX_TYPE_TTREE:WG_INDEX_TYPE_HASH; wg_int id=wg_column_to_index_id(db,0,t,NULL,0); if(id>0){ if(t==WG_INDEX_TYPE_TTREE) ws_assert(wg_drop_index(db,id)==0); } else ws_assert(wg_create_index(db,0,t,NULL,0)==0); }
    else if(c==7){ wg_int m[2]; wg_int id; m[0]=wg_encode_query_param_var(db,1); m[1]=wg_encode_str(db,"a string of more than thirty-two characters",NULL); id=wg_column_to_index_id(db,0,WG_INDEX_TYPE_TTREE,m,2); if(id>0) ws_assert(wg_drop_index(db,id)==0); else ws_assert(wg_create_index(db,0,WG_INDEX_TYPE_TTREE,m,2)==0);}
    else if(c==8){ ws_assume(np<3); ws_assert(wg_parse_json_param(db,"{\"k\":[1,\"a long text that will not fit into a short string\"]}",&P[np++])==0); }
    else if(c==9){ ws_assume(np>0); ws_assert(wg_delete_document(db,P[--np])==0); }
    else if(c==10){ void*d; ws_assume(nl<12); ws_assert(wg_parse_json_document(db,"{\"k\":7}",&d)==0); ws_assert(nrecords(db)==nl+2); adopt(); ws_assert(mine(d)>=0); }
    else if(c==11){ wg_int m[2]; wg_query_arg a; m[0]=wg_encode_query_param_int(db,1L<<50); m[1]=wg_encode_query_param_str(db,"a string of more than thirty-two characters",NULL); a.column=0; a.cond=WG_COND_NOT_EQUAL; a.value=wg_encode_query_param_double(db,2.5); if(Q) wg_free_query(db,Q); Q=wg_make_query(db,m,2,&a,1); ws_assert(Q!=NULL); }
    else if(c==12){ wg_int e=wg_encode_str(db,"a string nobody refers to and that is long",NULL); ws_assert(e!=WG_ILLEGAL); wg_encode_double(db,2.5); }
    else { int i=c-13; if(wg_get_first_parent(db,L[i])==NULL){ ws_assert(wg_delete_record(db,L[i])==0); L[i]=L[--nl]; } else ws_assert(wg_delete_record(db,L[i])!=0); }
    walk(); }
  ws_reach("walked"); }
#endif
