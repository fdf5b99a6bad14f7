/* A03: running out of segment or process memory fails cleanly */
#include "h.h"
static void *db; static void *B[4]; static char lstr[300];
static wg_int W[6000]; static int nw; static void*FR[800]; static int nfr; static void*holder;
static int idx; /* 0 none, 1 sorted, 2 hash, 3 both */
static void base(void){ int i; for(i=0;i<3;i++){ B[i]=wg_create_record(db,4); ws_assert(B[i]); ws_assert(wg_set_int_field(db,B[i],0,10+i)==0); ws_assert(wg_set_str_field(db,B[i],1,i==1?"a string that is longer than any short string":"short")==0); ws_assert(wg_set_field(db,B[i],2,wg_encode_int(db,0x1122334455667788L+i))==0); }
  ws_assert(wg_set_field(db,B[2],3,wg_encode_record(db,B[0]))==0); }
static int cnt0;
static void check_base(void){ int i,n=0; void*r; for(i=0;i<3;i++){ ws_check(wg_get_record_len(db,B[i])==4,"stored records survive"); ws_check(wg_decode_int(db,wg_get_field(db,B[i],0))==10+i,"stored integers survive"); ws_check(!strcmp(wg_decode_str(db,wg_get_field(db,B[i],1)),i==1?"a string that is longer than any short string":"short"),"stored strings survive"); ws_check(wg_decode_int(db,wg_get_field(db,B[i],2))==0x1122334455667788L+i,"stored integers survive"); ws_check(rec_listed(db,B[i])==1,"stored records stay enumerable"); }
  ws_check(wg_decode_record(db,wg_get_field(db,B[2],3))==B[0],"stored references survive"); ws_check(wg_get_first_parent(db,B[0])==B[2] && !wg_get_next_parent(db,B[0],B[2]),"backward references survive");
  for(i=0;i<3;i++){ r=wg_find_record_int(db,0,WG_COND_EQUAL,10+i,NULL); ws_check(r==B[i],"stored records can be found"); } 
  if(idx&2){ wg_query_arg a; wg_query*q; int m=ws_malloc_faults; ws_malloc_faults=0; a.column=0; a.cond=WG_COND_EQUAL; a.value=wg_encode_query_param_int(db,11); q=wg_make_query(db,NULL,0,&a,1); ws_assert(q); ws_check(wg_fetch(db,q)==B[1],"stored records can be found by query"); ws_check(wg_fetch(db,q)==NULL,"once"); wg_free_query(db,q); ws_malloc_faults=m; } }
/* use up everything: other records take the segment, then each kind of cell until it fails */
static void fill(void){ long l; wg_int e; void*r; int i;
  for(l=2000;l>=1;l=l>40?l/3:l/2){ while((r=wg_create_record(db,l))!=NULL){ ws_assert(nfr<800); FR[nfr++]=r; } }
  while((e=wg_encode_int(db,0x7f00000000000000L+nw))!=WG_ILLEGAL) W[nw++]=e;
  while((e=wg_encode_double(db,1.5+nw))!=WG_ILLEGAL) W[nw++]=e;
  while((e=wg_encode_str(db,"xyzzy",NULL))!=WG_ILLEGAL) W[nw++]=e;
  for(i=0;i<3000;i++){ char b[80]; int k; for(k=0;k<40;k++) b[k]='a'+(i>>(k%12)&1); b[40]='0'+i%10; b[41]='0'+i/10%10; b[42]='0'+i/100%10; b[43]='0'+i/1000; b[44]=0; e=wg_encode_str(db,b,NULL); if(e==WG_ILLEGAL) break; W[nw++]=e; } 
  for(i=0;i<nfr;i++){ long k,n=wg_get_record_len(db,FR[i]); for(k=0;k<n;k++) if(wg_set_field(db,FR[i],k,wg_encode_record(db,B[1]))) goto cells; }
 cells:;
}
void ws_main(void){
  int op,rel,i; long rc=0; void*r=NULL,*q; wg_int e; memset(lstr,'q',250);
#ifdef U_SEG /* the segment is full; a little is released; then one operation */
  idx=ws_choose(4,"indexes"); db=newdb(ws_param("size",420000)); base();
  if(idx&1) ws_assert(wg_create_index(db,0,WG_INDEX_TYPE_TTREE,NULL,0)==0); if(idx&2) ws_assert(wg_create_index(db,0,WG_INDEX_TYPE_HASH,NULL,0)==0);
  fill(); check_base(); 
  rel=ws_choose(6,"released"); /* 0 nothing */
  if(rel==1||rel==5){ r=FR[nfr-1]; for(i=0;i<wg_get_record_len(db,r);i++) wg_set_field(db,r,i,0); ws_assert(wg_delete_record(db,r)==0); nfr--; }
  if(rel==2) wg_free_encoded(db,W[0]); if(rel==3){ for(i=0;i<wg_get_record_len(db,FR[0]);i++) wg_set_field(db,FR[0],i,0); ws_assert(wg_delete_record(db,FR[0])==0); FR[0]=NULL; } if(rel==4||rel==5) for(i=0;i<3;i++) wg_set_field(db,FR[1],i,0);
  r=NULL; cnt0=nrecords(db); op=ws_choose(14,"op");
#else /* process memory fails at some point */
  int before; idx=0; db=newdb(500000); base(); { int k; for(k=0;k<12;k++){ r=wg_create_record(db,4); wg_set_int_field(db,r,0,100+k); } } r=NULL; idx=ws_choose(2,"index"); if(idx) ws_assert(wg_create_index(db,0,WG_INDEX_TYPE_TTREE,NULL,0)==0); cnt0=nrecords(db); before=ws_alloc_live; 
#ifdef U_JSON
  op=18;
#else
  op=14+ws_choose(4,"op");
#endif
   ws_malloc_faults=ws_param("faults",1);
#endif
  switch(op){
   case 0: r=wg_create_record(db,2); if(r){ ws_check(wg_get_record_len(db,r)==2,"length"); ws_check(rec_listed(db,r)==1,"a created record is listed"); } break;
   case 1: r=wg_create_record(db,100); if(r) ws_check(wg_get_record_len(db,r)==100,"length"); break;
   case 2: e=wg_encode_int(db,0x0102030405060708L); if(e!=WG_ILLEGAL) ws_check(wg_decode_int(db,e)==0x0102030405060708L,"value"); break;
   case 3: e=wg_encode_double(db,2.25); if(e!=WG_ILLEGAL) ws_check(wg_decode_double(db,e)==2.25,"value"); break;
   case 4: e=wg_encode_str(db,"hello",NULL); if(e!=WG_ILLEGAL) ws_check(!strcmp(wg_decode_str(db,e),"hello"),"value"); break;
   case 5: e=wg_encode_str(db,lstr,"en"); if(e!=WG_ILLEGAL){ ws_check(!strcmp(wg_decode_str(db,e),lstr),"value"); ws_check(!strcmp(wg_decode_str_lang(db,e),"en"),"lang"); } break;
   case 6: e=wg_encode_blob(db,lstr,"t",250); if(e!=WG_ILLEGAL) ws_check(wg_decode_blob_len(db,e)==250 && !memcmp(wg_decode_blob(db,e),lstr,250),"value"); break;
   case 7: rc=wg_set_field(db,B[1],3,wg_encode_record(db,B[2])); if(rc==0){ ws_check(wg_get_first_parent(db,B[2])==B[1],"reference"); ws_assert(wg_set_field(db,B[1],3,0)==0); } else ws_check(wg_get_first_parent(db,B[2])==NULL && wg_get_field(db,B[1],3)==0,"a failed reference changes nothing"); break;
   case 8: rc=wg_create_index(db,1,WG_INDEX_TYPE_TTREE,NULL,0); ws_check((rc==0)==(wg_column_to_index_id(db,1,WG_INDEX_TYPE_TTREE,NULL,0)>0),"an index exists exactly if creating it succeeded"); break;
   case 9: rc=wg_create_index(db,1,WG_INDEX_TYPE_HASH,NULL,0); ws_check((rc==0)==(wg_column_to_index_id(db,1,WG_INDEX_TYPE_HASH,NULL,0)>0),"an index exists exactly if creating it succeeded"); break;
   case 10: { wg_int m[3]; m[0]=wg_encode_int(db,11); m[1]=wg_encode_str(db,"short",NULL); m[2]=wg_encode_var(db,1); rc=wg_create_index(db,2,WG_INDEX_TYPE_TTREE,m,3); ws_check((rc==0)==(wg_column_to_index_id(db,2,WG_INDEX_TYPE_TTREE,m,3)>0),"an index exists exactly if creating it succeeded"); break; }
   case 11: { int k,okc=0; for(k=0;k<40;k++){ r=wg_create_record(db,1); if(!r) break; if(wg_set_int_field(db,r,0,50+k)) break; okc++; } for(k=0;k<okc;k++) ws_check(wg_find_record_int(db,0,WG_COND_EQUAL,50+k,NULL)!=NULL,"a row whose insertion succeeded is found"); r=NULL; cnt0=-1; break; }
   case 12: { void*doc; rc=wg_parse_json_document(db,"{\"a\":[1,2,{\"b\":\"some text\"}],\"c\":3.5}",&doc); cnt0=-1; break; }
   case 13: { int k; for(k=0;k<30;k++) if(wg_set_field(db,FR[1],k%wg_get_record_len(db,FR[1]),wg_encode_record(db,B[2]))) break; for(k=0;k<wg_get_record_len(db,FR[1]);k++) wg_set_field(db,FR[1],k,0); ws_check(wg_get_first_parent(db,B[2])==NULL,"references are gone again"); break; }
#ifndef U_SEG
   case 14: { wg_query_arg a[2]; wg_query*qq; int n=0; a[0].column=0; a[0].cond=WG_COND_GTEQUAL; a[0].value=wg_encode_query_param_int(db,100); a[1].column=0; a[1].cond=WG_COND_LESSTHAN; a[1].value=wg_encode_query_param_int(db,110); qq=wg_make_query(db,NULL,0,a,2); if(qq){ while(wg_fetch(db,qq)) n++; ws_check(n==10,"a query that was made gives all its rows"); wg_free_query(db,qq); } else ws_check(ws_faults_hit>0,"fails only for lack of memory"); break; }
   case 15: { wg_query*qq=wg_make_query_rc(db,NULL,0,NULL,0,5); int n=0; if(qq){ while(wg_fetch(db,qq)) n++; ws_check(n==5,"rows"); wg_free_query(db,qq); } break; }
   case 16: { wg_int p=wg_encode_query_param_str(db,lstr,"en"); if(p!=WG_ILLEGAL){ ws_check(!strcmp(wg_decode_str(db,p),lstr),"parameter value"); wg_free_query_param(db,p); } p=wg_encode_query_param_double(db,1.5); if(p!=WG_ILLEGAL) wg_free_query_param(db,p); break; }
   case 17: { void*d=wg_attach_local_database(200000); if(d) wg_delete_local_database(d); break; }
   case 18: { void*doc; rc=wg_parse_json_document(db,"{\"a\":[1,2,{\"b\":\"some text\"}],\"c\":3.5}",&doc); if(rc==0) ws_check(nrecords(db)>cnt0,"document stored"); cnt0=-1; break; }
#endif
  }
  ws_malloc_faults=0;
  if(r) cnt0++;
  if(cnt0>=0 && op!=0 && op!=1) ws_check(nrecords(db)==cnt0,"a failed operation leaves no records behind");
  if(op==10) idx=idx; check_base();
#ifdef U_SEG
  /* after deleting, things that fit succeed again */
  for(i=0;i<nfr;i++) if(FR[i]){ int k; for(k=0;k<wg_get_record_len(db,FR[i]);k++) ws_assert(wg_set_field(db,FR[i],k,0)==0); ws_check(wg_delete_record(db,FR[i])==0,"deleting"); }
  r=wg_create_record(db,500); ws_check(r!=NULL,"after deleting, records can be created again"); ws_assert(wg_set_int_field(db,r,7,5)==0); ws_assert(wg_set_field(db,r,8,wg_encode_record(db,B[2]))==0); check_base();
#else
  ws_check(ws_alloc_live==before,"process memory is given back");
#endif
  ws_reach("survived");
}
