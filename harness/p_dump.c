/* P01-P03: dumps */
#ifndef DBSIZE
#define DBSIZE 400000
#endif
#include "h.h"
#include <errno.h>
#define LOGF "/repo/_build/log/wgdb.journal."
static const char *LONGS="a long string that certainly does not fit into the short string cells";
/* a database with some history; the same twice for the same arguments */
static void fill(void*db,int kind,int seed){ int i; void*r[14]; wg_int cols[2]={0,1}; wg_int tm[3]; 
  if(kind&1) ws_assert(wg_create_index(db,0,WG_INDEX_TYPE_TTREE,NULL,0)==0);
  if(kind&2) ws_assert(wg_create_multi_index(db,cols,2,WG_INDEX_TYPE_HASH,NULL,0)==0);
  if(kind&4){ tm[0]=wg_encode_var(db,0); tm[1]=wg_encode_int(db,1); tm[2]=wg_encode_var(db,0); ws_assert(wg_create_index(db,2,WG_INDEX_TYPE_TTREE,tm,3)==0); }
  for(i=0;i<14;i++){ r[i]=wg_create_record(db,3+i%3*2); ws_assert(r[i]!=NULL); wg_set_field(db,r[i],0,wg_encode_int(db,(i*7+seed)%10)); wg_set_field(db,r[i],1,wg_encode_int(db,i%3)); 
    switch((i+seed)%7){ case 0: wg_set_field(db,r[i],2,wg_encode_str(db,i%2?"short":"other short",NULL)); break; case 1: wg_set_field(db,r[i],2,wg_encode_str(db,LONGS+i%4,i%3?"en":NULL)); break; case 2: wg_set_field(db,r[i],2,wg_encode_double(db,i*1.5)); break; case 3: wg_set_field(db,r[i],2,wg_encode_int(db,1L<<(40+i))); break;
      case 4: wg_set_field(db,r[i],2,wg_encode_uri(db,"thing","http://x/")); break; case 5: wg_set_field(db,r[i],2,wg_encode_date(db,730000+i)); break; default: if(i>0) wg_set_field(db,r[i],2,wg_encode_record(db,r[i-1])); } }
  for(i=2;i<14;i+=5) if(wg_get_first_parent(db,r[i])==NULL) wg_delete_record(db,r[i]); wg_set_field(db,r[1],2,wg_encode_str(db,"changed",NULL)); }
static void samevalue(void*a,void*b,wg_int x,wg_int y){ wg_int t=wg_get_encoded_type(a,x); ws_check(t==wg_get_encoded_type(b,y),"the same type"); switch(t){ case WG_NULLTYPE: break; case WG_INTTYPE: ws_check(wg_decode_int(a,x)==wg_decode_int(b,y),"the same number"); break; case WG_DOUBLETYPE: ws_check(wg_decode_double(a,x)==wg_decode_double(b,y),"the same double"); break;
    case WG_STRTYPE: { char*p=wg_decode_str_lang(a,x),*q=wg_decode_str_lang(b,y); ws_check(strcmp(wg_decode_str(a,x),wg_decode_str(b,y))==0,"the same text"); ws_check((p==NULL)==(q==NULL)&&(!p||strcmp(p,q)==0),"the same language"); break; } case WG_URITYPE: ws_check(strcmp(wg_decode_uri(a,x),wg_decode_uri(b,y))==0&&strcmp(wg_decode_uri_prefix(a,x),wg_decode_uri_prefix(b,y))==0,"the same URI"); break; case WG_DATETYPE: ws_check(wg_decode_date(a,x)==wg_decode_date(b,y),"the same date"); break;
    case WG_RECORDTYPE: { void*p=wg_decode_record(a,x),*q=wg_decode_record(b,y); ws_check(wg_get_record_len(a,p)==wg_get_record_len(b,q)&&wg_decode_int(a,wg_get_field(a,p,0))==wg_decode_int(b,wg_get_field(b,q,0)),"the same record"); break; } default: ws_check(x==y,"the same value"); } }
static int found(void*db,wg_int col,wg_int v,int*order){ wg_query_arg q[1]; wg_query*w; void*r; int n=0; q[0].column=col; q[0].cond=WG_COND_GTEQUAL; q[0].value=wg_encode_query_param_int(db,v); w=wg_make_query(db,NULL,0,q,1); ws_assert(w!=NULL); while((r=wg_fetch(db,w))){ ws_assert(n<100); order[n++]=wg_decode_int(db,wg_get_field(db,r,0))*10+wg_decode_int(db,wg_get_field(db,r,1)); } wg_free_query(db,w); wg_free_query_param(db,q[0].value); return n; }
static void same(void*a,void*b){ void*r=wg_get_first_record(a),*s=wg_get_first_record(b),*p,*q; int i,n; static int oa[100],ob[100]; while(r&&s){ ws_check(wg_get_record_len(a,r)==wg_get_record_len(b,s),"the same length"); for(i=0;i<wg_get_record_len(a,r);i++) samevalue(a,b,wg_get_field(a,r,i),wg_get_field(b,s,i)); 
    p=wg_get_first_parent(a,r); q=wg_get_first_parent(b,s); ws_check((p==NULL)==(q==NULL),"the same references"); r=wg_get_next_record(a,r); s=wg_get_next_record(b,s); } ws_check(r==NULL&&s==NULL,"the same records");
  ws_check((wg_column_to_index_id(a,0,WG_INDEX_TYPE_TTREE,NULL,0)>0)==(wg_column_to_index_id(b,0,WG_INDEX_TYPE_TTREE,NULL,0)>0),"the same indexes"); n=found(a,0,4,oa); ws_check(n==found(b,0,4,ob)&&memcmp(oa,ob,n*sizeof*oa)==0,"a query finds the same"); }
/* the same operations have the same results from here on */
static void further(void*a,void*b){ void*r,*s; int i; wg_int x,y; for(i=0;i<6;i++){ r=wg_create_record(a,3+i%2); s=wg_create_record(b,3+i%2); ws_check(r&&s,"a new record"); x=i%2?wg_encode_str(a,LONGS+i%4,NULL):wg_encode_int(a,i); y=i%2?wg_encode_str(b,LONGS+i%4,NULL):wg_encode_int(b,i); ws_check(x==y,"a value is stored at the same place"); ws_check(wg_set_field(a,r,0,wg_encode_int(a,i))==0&&wg_set_field(b,s,0,wg_encode_int(b,i))==0&&wg_set_field(a,r,1,wg_encode_int(a,1))==0&&wg_set_field(b,s,1,wg_encode_int(b,1))==0&&wg_set_field(a,r,2,x)==0&&wg_set_field(b,s,2,y)==0,"fields of a new record"); }
  r=wg_get_first_record(a); s=wg_get_first_record(b); for(i=0;i<3&&r&&s;i++){ r=wg_get_next_record(a,r); s=wg_get_next_record(b,s); } ws_check(wg_delete_record(a,r)==wg_delete_record(b,s),"a deletion"); same(a,b); }
static void usable(void*db){ wg_int l=wg_start_write(db); ws_check(l!=0,"the database is not left locked"); wg_end_write(db,l); }
long ws_syscall_hook(long nr,long a,long b,long c,long d){ errno=ETIMEDOUT; return -1; } /* every wait for a lock times out */
wg_int wg_check_dump(void*db,char*fileName,wg_int*minsize,wg_int*maxsize);
#ifdef U_ROUND /* P01 */
void ws_main(void){ int kind=ws_choose(8,"indexes"),mode=ws_choose(4,"mode"),k2=ws_choose(3,"target"); void*a,*t,*b; long sz,s0,s1; 
  /* mode: local, shared, shared with journal in source, shared with journal in both */
  if(mode==0){ a=newdb(DBSIZE); b=newdb(DBSIZE+k2*50000); } else { a=mode>=2?wg_attach_logged_database("1000",DBSIZE):wg_attach_database("1000",DBSIZE); b=mode>=3?wg_attach_logged_database("2000",DBSIZE+k2*50000):wg_attach_database("2000",DBSIZE+k2*50000); } ws_assert(a&&b); t=newdb(DBSIZE);
  fill(a,kind,0); fill(t,kind,0); if(k2) fill(b,k2*3&7,k2);
  ws_check(wg_dump(a,"d.bin")==0,"a dump is made"); ws_check(ws_files_open()<=2,"files are closed"); sz=ws_file_size("d.bin"); ws_check(sz>0,"a dump is written"); usable(a); same(a,t); { wg_int mi,ma; ws_check(wg_check_dump(NULL,"d.bin",&mi,&ma)==0&&mi==sz&&ma==wg_database_size(a),"a dump is recognised with its size"); }
  { long size2=wg_database_size(b); ws_check(wg_import_dump(b,"d.bin")==0,"a dump is imported"); ws_check(wg_database_size(b)==size2,"the size of the database stays"); } usable(b); same(a,b);
  s0=ws_file_size(LOGF "1000"); s1=ws_file_size(LOGF "2000"); if(mode==3) ws_check(s1>0,"a journal goes on"); wg_set_field(b,wg_get_first_record(b),2,wg_encode_str(b,"one more",NULL)); ws_check(ws_file_size(LOGF "1000")==s0,"the journal of the other database is left alone"); if(mode>=1) ws_check(mode==3?ws_file_size(LOGF "2000")>s1:ws_file_size(LOGF "2000")==s1,"whether there is a journal is decided by the importing database");
  if(mode>=2){ wg_set_field(a,wg_get_first_record(a),2,wg_encode_str(a,"one more",NULL)); ws_check(ws_file_size(LOGF "1000")>s0,"the journal goes on after a dump"); } else wg_set_field(a,wg_get_first_record(a),2,wg_encode_str(a,"one more",NULL)); wg_set_field(t,wg_get_first_record(t),2,wg_encode_str(t,"one more",NULL));
  if(ws_choose(2,"twin")) further(a,t); else further(a,b); ws_reach("same"); }
#elif defined(U_BAD) /* P02 */
void ws_main(void){ void*a,*b,*t; int how=ws_choose(9,"how"); long n,i; unsigned char*p; int small=0; wg_int res; a=newdb(DBSIZE); fill(a,3,0); ws_assert(wg_dump(a,"d.bin")==0); n=ws_file_size("d.bin"); p=ws_file_data("d.bin"); 
  small=how==8; b=newdb(small?n-8*(1+ws_choose(3,"less")*500):DBSIZE); t=newdb(small?wg_database_size(b):DBSIZE); if(small&&n-wg_database_size(b)<=0) return; fill(b,1,1); fill(t,1,1);
  switch(how){ case 0: { unsigned char o[16]; int k,d=0; memcpy(o,p,16); for(k=0;k<16;k++){ p[k]=(unsigned char)ws_u(8,"header"); d|=p[k]^o[k]; } ws_assume(d!=0); break; } /* mark, version, build features, checksum: all other values */
    case 1: { static const long at[]={0,1,15,16,100,8191,8192,8193,16384,40000,-1,-2,-8,-100,-8192}; i=at[ws_choose(15,"cut")]; if(i<0) i+=n; ws_file_truncate("d.bin",i); break; }
    case 2: { int k=ws_choose(5,"tail"); unsigned char x=(unsigned char)ws_u(8,"byte"); ws_assume(x!=p[n-1-k]); p[n-1-k]=x; break; } /* one byte near the end, any value */
    case 3: i=ws_choose(ws_param("head",60),"at")+16; p[i]^=1<<ws_choose(2,"bit")*7; break;
    case 4: i=ws_choose(ws_param("mid",100),"at")*((n-8)/ws_param("mid",100)); p[i]^=1<<ws_choose(8,"bit"); break;
    case 5: p[n]=ws_choose(2,"more")?0:7; ws_file_put("x.bin",p,n+1); ws_file_remove("d.bin"); ws_file_put("d.bin",ws_file_data("x.bin"),n+1); break;
    case 6: ws_file_remove("d.bin"); break;
    case 7: { int k=ws_choose(3,"swap"); long q=k==0?8192:k==1?40000:n-9000; unsigned char x[64]; memcpy(x,p+q,64); memcpy(p+q,p+q+64,64); memcpy(p+q+64,x,64); if(memcmp(p+q,x,64)==0) return; break; }
    default: break; }
  res=wg_import_dump(b,"d.bin"); ws_check(res!=0,"what is not a complete dump that fits is refused"); ws_check(res==-1,"the refusal says that the database is unchanged"); ws_check(ws_files_open()==0,"files are closed"); usable(b); same(b,t); further(b,t); ws_reach("refused"); }
#else /* P03 */
void ws_main(void){ void*a,*t,*b; int logged=ws_choose(2,"logged"),held=ws_choose(3,"held"); wg_int e,l=0; long js; a=logged?wg_attach_logged_database("1000",DBSIZE):newdb(DBSIZE); t=newdb(DBSIZE); ws_assert(a&&t); fill(a,3,0); fill(t,3,0); js=ws_file_size(LOGF "1000"); if(held) l=held==1?wg_start_read(a):wg_start_write(a);
  ws_io_faults=ws_param("faults",1); e=wg_dump(a,"d.bin"); ws_io_faults=0; if(held) ws_check(e!=0,"a dump of a locked database reports an error"); if(held==1) wg_end_read(a,l); else if(held) wg_end_write(a,l); ws_check(ws_files_open()<=logged,"files are closed");
  if(logged&&e==-1) ws_check(ws_file_size(LOGF "1000")==js,"the journal is kept when there is no dump to replace it"); if(ws_faults_hit==0&&!held) ws_check(e==0,"a dump is made"); usable(a); same(a,t); if(e==0){ b=newdb(DBSIZE); ws_check(wg_import_dump(b,"d.bin")==0,"a dump reported as made can be imported"); same(b,t); ws_reach("made"); } else ws_reach("error"); if(e!=-2) further(a,t); }
#endif
