/* P04-P06: journal */
#ifndef DBSIZE
#define DBSIZE 300000
#endif
#include "h.h"
#include <errno.h>
#define LOGF "/repo/_build/log/wgdb.journal."

void*wg_get_first_raw_record(void*db); void*wg_get_next_raw_record(void*db,void*r); wg_int wg_free_encoded(void*db,wg_int e); void*wg_create_array(void*db,wg_int size,wg_int isdocument,wg_int isparam); void*wg_create_object(void*db,wg_int size,wg_int isdocument,wg_int isparam); void*wg_create_triple(void*db,wg_int s,wg_int p,wg_int o,wg_int isparam);
long ws_syscall_hook(long nr,long a,long b,long c,long d){ errno=ETIMEDOUT; return -1; }
static char TXT[100]; static const char*text(int n,int i){ int j; for(j=0;j<n;j++) TXT[j]='a'+(j+i)%25; TXT[n]=0; if(n>0) TXT[n-1]='A'+i; return TXT; }
static void samevalue(void*a,void*b,wg_int x,wg_int y,int deep){ wg_int t=wg_get_encoded_type(a,x); ws_check(t==wg_get_encoded_type(b,y),"the same type"); switch(t){ case WG_INTTYPE: ws_check(wg_decode_int(a,x)==wg_decode_int(b,y),"the same number"); break; case WG_DOUBLETYPE: { double d=wg_decode_double(a,x),e=wg_decode_double(b,y); ws_check(memcmp(&d,&e,8)==0,"the same double"); break; }
    case WG_STRTYPE: { char*p=wg_decode_str_lang(a,x),*q=wg_decode_str_lang(b,y); ws_check(strcmp(wg_decode_str(a,x),wg_decode_str(b,y))==0,"the same text"); ws_check((p==NULL)==(q==NULL)&&(!p||strcmp(p,q)==0),"the same language"); break; }
    case WG_URITYPE: { char*p=wg_decode_uri_prefix(a,x),*q=wg_decode_uri_prefix(b,y); ws_check(strcmp(wg_decode_uri(a,x),wg_decode_uri(b,y))==0,"the same URI"); ws_check((p==NULL)==(q==NULL)&&(!p||strcmp(p,q)==0),"the same prefix"); break; }
    case WG_XMLLITERALTYPE: { char*p=wg_decode_xmlliteral_xsdtype(a,x),*q=wg_decode_xmlliteral_xsdtype(b,y); ws_check(strcmp(wg_decode_xmlliteral(a,x),wg_decode_xmlliteral(b,y))==0,"the same XML text"); ws_check((p==NULL)==(q==NULL)&&(!p||strcmp(p,q)==0),"the same XML type"); break; }
    case WG_BLOBTYPE: { char*p=wg_decode_blob_type(a,x),*q=wg_decode_blob_type(b,y); long n=wg_decode_blob_len(a,x); ws_check(n==wg_decode_blob_len(b,y)&&memcmp(wg_decode_blob(a,x),wg_decode_blob(b,y),n)==0,"the same blob"); ws_check((p==NULL)==(q==NULL)&&(!p||strcmp(p,q)==0),"the same blob type"); break; }
    case WG_RECORDTYPE: { void*p=wg_decode_record(a,x),*q=wg_decode_record(b,y); int i; ws_check(wg_get_record_len(a,p)==wg_get_record_len(b,q),"the same record"); if(deep>0) for(i=0;i<wg_get_record_len(a,p);i++) samevalue(a,b,wg_get_field(a,p,i),wg_get_field(b,q,i),deep-1); break; } default: ws_check(x==y,"the same value"); } }
static int refs(void*db,void*r){ void*p=wg_get_first_parent(db,r); int n=0; while(p&&n<50){ n++; p=wg_get_next_parent(db,r,p); } return n; }
static void same(void*a,void*b){ void*r=wg_get_first_record(a),*s=wg_get_first_record(b); int i; while(r&&s){ ws_check(wg_get_record_len(a,r)==wg_get_record_len(b,s),"the same length"); ws_check(((wg_int*)r)[1]==((wg_int*)s)[1],"the same kind of record"); for(i=0;i<wg_get_record_len(a,r);i++) samevalue(a,b,wg_get_field(a,r,i),wg_get_field(b,s,i),2); ws_check(refs(a,r)==refs(b,s),"the same references"); r=wg_get_next_record(a,r); s=wg_get_next_record(b,s); } ws_check(r==NULL&&s==NULL,"the same records");
  r=wg_get_first_raw_record(a); s=wg_get_first_raw_record(b); for(i=0;r&&s&&i<1000;i++){ r=wg_get_next_raw_record(a,r); s=wg_get_next_raw_record(b,s); } ws_check(r==NULL&&s==NULL,"the same internal records"); }
static wg_int S(int v){ return v; }
/* a value of kind k; the same call on two databases gives the same value */
static long I64; static double F64; static long D31,T24;
static wg_int value(void*db,int k,int v){ switch(k){ case 0: return wg_encode_int(db,v); case 1: return wg_encode_int(db,(1L<<61)+v); case 2: return wg_encode_double(db,v+0.25); case 3: return wg_encode_str(db,text(5,v),NULL); case 4: return wg_encode_str(db,text(40,v),NULL); case 5: return wg_encode_str(db,text(6,v),"en"); case 6: return wg_encode_uri(db,text(9,v),"http://p/"); case 7: return wg_encode_xmlliteral(db,text(33,v),"xsd:long"); case 8: { static const char bl[40]="\0\1\2\0abc\377\0zz"; return wg_encode_blob(db,bl+v,"mime/type",12+v); } case 9: return wg_encode_str(db,text(45,v),"a language longer than the short strings hold"); case 10: return wg_encode_uri(db,text(40,v),NULL);
    case 11: return wg_encode_date(db,700000+v); case 12: return wg_encode_time(db,100*v); case 13: return wg_encode_char(db,'a'+v); case 14: return wg_encode_fixpoint(db,v+0.5); case 15: return wg_encode_null(db,0); case 16: return wg_encode_str(db,text(7,v),""); case 17: return wg_encode_str(db,"",NULL); case 18: return wg_encode_blob(db,"",NULL,0+1); case 19: return wg_encode_var(db,v); default: return wg_encode_int(db,-(1L<<60)-1-v); } }
#define NKIND 21
#define NREC 8
typedef struct { void*db; void*r[NREC]; int n; } world;
/* one operation; a negative result is a failure */
static int step(world*w,int op,int x,int y){ wg_int e; int res; void*db=w->db; switch(op){
    case 0: case 1: case 2: if(w->n>=NREC) return 0; if(!(w->r[w->n]=wg_create_record(db,op==2?7:op+1))) return -1; w->n++; return 0;
    case 3: { void*r=w->n?w->r[x%w->n]:NULL; if(!r) return 0; res=wg_delete_record(db,r); if(res==0){ int k=x%w->n; w->n--; w->r[k]=w->r[w->n]; } return res==-1?0:res; }
    case 4: { if(!w->n) return 0; e=value(db,y,x); if(e==WG_ILLEGAL) return -2; res=wg_set_field(db,w->r[x%w->n],0,e); if(res) wg_free_encoded(db,e); return res; }
    case 5: { if(!w->n) return 0; return wg_set_field(db,w->r[x%w->n],wg_get_record_len(db,w->r[x%w->n])-1,wg_encode_record(db,w->r[y%w->n])); }
    case 6: { if(!w->n) return 0; return wg_set_field(db,w->r[x%w->n],wg_get_record_len(db,w->r[x%w->n])-1,0); }
    case 7: { if(w->n>=NREC) return 0; void*r=x%3==0?wg_create_array(db,2,x%2,y%2):x%3==1?wg_create_object(db,1,1,y%2):wg_create_triple(db,0,0,wg_encode_int(db,x),y%2); if(!r) return -1; w->r[w->n++]=r; return 0; }
    case 8: { if(!w->n) return 0; if(wg_set_field(db,w->r[x%w->n],50,0)==0) return -9; return 0; }
    case 9: { if(!w->n) return 0; e=wg_get_field(db,w->r[x%w->n],0); if(wg_get_encoded_type(db,e)!=WG_STRTYPE) return 0; return wg_set_field(db,w->r[y%w->n],0,wg_encode_str(db,wg_decode_str(db,e),wg_decode_str_lang(db,e))); }
    case 10: { if(w->n>=NREC) return 0; if(!(w->r[w->n]=wg_create_raw_record(db,2))) return -1; w->n++; return wg_set_new_field(db,w->r[w->n-1],1,wg_encode_int(db,x)); }
    default: { if(!w->n) return 0; e=wg_encode_int(db,x); (void)e; return wg_set_field(db,w->r[x%w->n],0,value(db,0,x)); } } }
static void*logged(const char*k,long size){ void*db=wg_attach_logged_database((char*)k,size); ws_assert(db!=NULL); return db; }
#ifdef U_VALS /* every kind of value with arbitrary contents */
void ws_main(void){ void*a=logged("1000",DBSIZE),*b=newdb(DBSIZE+ws_choose(2,"size")*100000),*r; int k=ws_choose(9,"kind"),i; wg_int e=0; static char s[50]; r=wg_create_record(a,3); wg_set_field(a,r,0,wg_encode_int(a,7));
  switch(k){ case 0: e=wg_encode_int(a,(long)ws_u(64,"int")); break; case 1: { double d; unsigned long u=ws_u(64,"double"); memcpy(&d,&u,8); e=wg_encode_double(a,d); break; } case 2: e=wg_encode_date(a,ws_range(0,100000000,"date")); break; case 3: e=wg_encode_time(a,ws_range(0,8640000-1,"time")); break; case 4: e=wg_encode_char(a,(char)ws_u(8,"char")); break;
    case 5: { int n=ws_choose(36,"len"),uri=ws_choose(2,"lang"); memcpy(s,text(n,1),n+1); if(n&&n<32&&!uri){ s[0]=(char)ws_range(1,255,"c"); s[n-1]=(char)ws_range(1,255,"d"); } else if(n){ static const unsigned char cc[]={1,' ','a',127,128,255}; s[0]=cc[ws_choose(6,"c")]; s[n-1]=cc[ws_choose(6,"d")]; } e=uri?wg_encode_uri(a,s,"x"):wg_encode_str(a,s,NULL); break; } /* strings that are hashed: few values of the bytes */
    case 6: { int n=1+ws_choose(40,"len"),j; for(j=0;j<n;j++) s[j]=(char)(j*37); e=wg_encode_blob(a,s,ws_choose(2,"type")?"t":NULL,n); break; }
    case 7: e=value(a,ws_choose(NKIND,"which"),ws_choose(3,"v")); break; default: { int n=120+ws_choose(20,"len"); static char l[200]; for(i=0;i<n;i++) l[i]='a'+i%26; e=wg_encode_str(a,l,ws_choose(2,"lang")?"en":NULL); break; } }
  if(e==WG_ILLEGAL) e=0; ws_assert(wg_set_field(a,r,1,e)==0); wg_set_field(a,r,2,wg_encode_str(a,"end",NULL)); ws_check(wg_replay_log(b,LOGF "1000")==0,"the journal is replayed"); ws_check(ws_files_open()<=1,"files are closed"); same(a,b); ws_reach("replayed"); }
#elif defined(U_OPS) /* every history of operations */
void ws_main(void){ world A,B,C; int i,ops=ws_param("ops",4),tgt=ws_choose(4,"target"),kinds=ws_param("kinds",4); static const int kk[]={4,2,5,8,1,3,7,9,6,0}; memset(&A,0,sizeof A); A.db=logged("1000",DBSIZE); B.db=tgt==1?logged("2000",DBSIZE):newdb(DBSIZE+(tgt==2?60000:0));
  if(ws_choose(2,"dumped")){ /* the journal starts after some history that a dump holds */ for(i=0;i<4;i++){ step(&A,i%3,0,0); step(&A,4,i,kk[i]); } step(&A,3,1,0); ws_assert(wg_dump(A.db,"d")==0); if(tgt==2||tgt==3) return; ws_assert(wg_import_dump(B.db,"d")==0); }
  if(tgt==3){ /* not a fresh database: other objects lie where the journal has its own */ void*x[3]; for(i=0;i<3;i++){ x[i]=wg_create_record(B.db,2+i*3); ws_assert(x[i]!=NULL); wg_set_field(B.db,x[i],0,value(B.db,kk[i],i)); } wg_delete_record(B.db,x[0]); wg_delete_record(B.db,x[2]); wg_delete_record(B.db,x[1]); }
  for(i=0;i<ops;i++){ int op=ws_choose(ws_param("opk",8),"op"),x=0,y=0; if(op==3||op>=5) x=ws_choose(2,"x"); if(op==4){ x=ws_choose(2,"x"); y=kk[ws_choose(kinds,"y")]; } if(op==5||op==7||op==9) y=ws_choose(2,"y"); ws_check(step(&A,op,x,y)>=0,"an operation succeeds"); ws_dedup(); }
  ws_check(wg_replay_log(B.db,LOGF "1000")==0,"the journal is replayed"); ws_check(ws_files_open()<=2,"files are closed"); same(A.db,B.db); ws_reach("replayed");
  if(tgt<=1){ /* both go on alike, the replaying one with a journal of its own */ memset(&C,0,sizeof C); { void*r=wg_get_first_record(A.db),*s=wg_get_first_record(B.db); if(r){ ws_check(wg_set_field(A.db,r,0,wg_encode_str(A.db,"after",NULL))==0&&wg_set_field(B.db,s,0,wg_encode_str(B.db,"after",NULL))==0,"goes on"); } r=wg_create_record(A.db,2); s=wg_create_record(B.db,2); ws_check(r&&s,"goes on"); ws_check(wg_set_field(A.db,r,1,value(A.db,5,1))==0&&wg_set_field(B.db,s,1,value(B.db,5,1))==0,"goes on"); } same(A.db,B.db);
    if(tgt==1&&ws_file_size("d")<0){ C.db=newdb(DBSIZE); ws_file_put("j0",ws_file_data(LOGF "1000"),ws_file_size(LOGF "1000")); ws_check(wg_replay_log(C.db,"j0")==0,"the journal of the whole session"); same(C.db,B.db); ws_check(ws_file_size(LOGF "2000")>4,"the replaying database has a journal of its own"); } } }
#elif defined(U_REUSE) /* space is used again in a different way in the replaying database */
void ws_main(void){ world A,B; int i,n=ws_param("n",5),pre=ws_choose(3,"holes"); void*x[6]; memset(&A,0,sizeof A); A.db=logged("1000",DBSIZE); B.db=newdb(DBSIZE);
  for(i=0;i<5;i++){ x[i]=wg_create_record(B.db,i==pre?6:2+i%2); ws_assert(x[i]); } if(pre) for(i=0;i<5;i+=pre) wg_delete_record(B.db,x[i]); 
  for(i=0;i<n;i++){ int op=ws_choose(3,"op"); if(op<2) ws_assert(step(&A,op*2,0,0)==0); else ws_assert(step(&A,3,ws_choose(3,"which"),0)==0); if(A.n) ws_assert(step(&A,4,0,ws_choose(2,"kind")*4)==0); }
  ws_check(wg_replay_log(B.db,LOGF "1000")==0,"the journal is replayed");
  /* every record of A is in B, by contents: number the records first */
  { void*r,*s; int na=0,nb=0,old=0; for(i=0;i<5;i++) if(!pre||i%pre) old++; r=wg_get_first_record(A.db); while(r){ na++; r=wg_get_next_record(A.db,r); } s=wg_get_first_record(B.db); while(s){ nb++; s=wg_get_next_record(B.db,s); } ws_check(na+old==nb,"the same number of records");
    for(r=wg_get_first_record(A.db);r;r=wg_get_next_record(A.db,r)){ int ca=0,cb=0; void*q; for(q=wg_get_first_record(A.db);q;q=wg_get_next_record(A.db,q)) if(wg_get_record_len(A.db,q)==wg_get_record_len(A.db,r)&&WG_COMPARE(A.db,wg_get_field(A.db,q,0),wg_get_field(A.db,r,0))==WG_EQUAL) ca++; for(q=wg_get_first_record(B.db);q;q=wg_get_next_record(B.db,q)){ int isold=0; for(i=0;i<5;i++) if((!pre||i%pre)&&x[i]==q) isold=1; if(isold) continue; if(wg_get_record_len(B.db,q)==wg_get_record_len(A.db,r)){ wg_int f=wg_get_field(A.db,r,0),g=wg_get_field(B.db,q,0); wg_int t=wg_get_encoded_type(A.db,f); if(t==wg_get_encoded_type(B.db,g)&&(t==WG_STRTYPE?strcmp(wg_decode_str(A.db,f),wg_decode_str(B.db,g))==0:f==g)) cb++; } } ws_check(ca==cb,"the same contents"); }
    for(i=0;i<5;i++) if(!pre||i%pre){ int j; for(j=0;j<wg_get_record_len(B.db,x[i]);j++) ws_check(wg_get_field(B.db,x[i],j)==0,"other records are left alone"); } }
  ws_reach("replayed"); }
#elif defined(U_PARAM) /* parameter, template and indexed records */
void ws_main(void){ world A; void*b,*r; int what=ws_choose(5,"what"),ix=ws_choose(2,"indexed"),i,n=0; wg_int tm[2]; wg_query_arg q[1]; wg_query*w; A.db=logged("1000",DBSIZE); A.n=0; b=newdb(DBSIZE); if(ix) ws_assert(wg_create_index(b,0,WG_INDEX_TYPE_TTREE,NULL,0)==0);
  step(&A,0,0,0); step(&A,4,1,0); if(what==0){ ws_assert(wg_create_triple(A.db,0,wg_encode_int(A.db,1),wg_encode_int(A.db,2),1)); ws_assert(wg_create_array(A.db,2,0,1)); } else if(what==1){ tm[0]=wg_encode_int(A.db,1); tm[1]=wg_encode_int(A.db,1); ws_assert(wg_create_index(A.db,3,WG_INDEX_TYPE_TTREE,tm,2)==0); } else if(what==2){ tm[0]=wg_encode_str(A.db,"x",NULL); tm[1]=wg_encode_var(A.db,0); ws_assert(wg_create_index(A.db,3,WG_INDEX_TYPE_TTREE,tm,2)==0); ws_assert(wg_drop_index(A.db,wg_column_to_index_id(A.db,3,WG_INDEX_TYPE_TTREE,tm,2))==0); } else if(what==3){ void*o=wg_create_object(A.db,1,1,1); ws_assert(o&&wg_set_field(A.db,o,0,wg_encode_int(A.db,1))==0); } else { void*o=wg_create_array(A.db,1,1,0); ws_assert(o&&wg_set_field(A.db,o,0,wg_encode_int(A.db,1))==0); }
  step(&A,1,0,0); step(&A,4,1,4); ws_check(wg_replay_log(b,LOGF "1000")==0,"the journal is replayed"); same(A.db,b);
  for(i=0;i<2;i++){ void*db=i?b:A.db; q[0].column=0; q[0].cond=WG_COND_EQUAL; q[0].value=wg_encode_query_param_int(db,1); w=wg_make_query(db,NULL,0,q,1); ws_assert(w); while((r=wg_fetch(db,w))) n+=i?-1:1; wg_free_query(db,w); } ws_check(n==0,"a query finds the same"); ws_reach("replayed"); }
#elif defined(U_CUT) /* P05: the journal ends anywhere */
static long B[64]; static int NB;
/* entry by entry; after each call the journal may end */
static int session(world*w,int upto,int rec){ int n=0; wg_int e[8]; 
#define ENT(stmt) do { if(n==upto) return n; stmt; n++; if(rec){ ws_assert(n<64); B[n]=ws_file_size(LOGF "1000"); } } while(0)
  if(rec) B[0]=4;
  ENT(w->r[0]=wg_create_record(w->db,2)); ENT(e[0]=wg_encode_str(w->db,"a short text",NULL)); ENT(wg_set_field(w->db,w->r[0],0,e[0])); ENT(wg_set_field(w->db,w->r[0],1,wg_encode_int(w->db,300))); ENT(w->r[1]=wg_create_record(w->db,3)); ENT(wg_set_field(w->db,w->r[1],0,wg_encode_record(w->db,w->r[0]))); ENT(e[1]=wg_encode_int(w->db,(1L<<62)+5)); ENT(wg_set_field(w->db,w->r[1],1,e[1])); ENT(e[2]=wg_encode_double(w->db,1.5)); ENT(wg_set_field(w->db,w->r[1],2,e[2]));
  ENT(e[3]=wg_encode_str(w->db,text(40,2),"en")); ENT(wg_set_field(w->db,w->r[0],0,e[3])); ENT(wg_set_field(w->db,w->r[1],0,0)); ENT(wg_delete_record(w->db,w->r[0])); ENT(w->r[2]=wg_create_record(w->db,1)); ENT(e[4]=wg_encode_blob(w->db,"b\0b",NULL,3)); ENT(wg_set_field(w->db,w->r[2],0,e[4])); ENT(w->r[3]=wg_create_record(w->db,200)); ENT(wg_set_field(w->db,w->r[3],150,wg_encode_int(w->db,-1))); ENT(e[5]=wg_encode_uri(w->db,"u","")); ENT(wg_set_field(w->db,w->r[3],5,e[5])); return n; }
void ws_main(void){ world A,T; void*b; long n,at,i,k=-1; wg_int res; int lg=ws_choose(2,"logged"); A.db=logged("1000",DBSIZE); NB=session(&A,60,1); n=ws_file_size(LOGF "1000"); b=lg?logged("2000",DBSIZE):newdb(DBSIZE); T.db=newdb(DBSIZE);
#ifdef U_BYTE /* the kind of an entry is overwritten, or the start mark */
  i=ws_choose(NB+4,"entry"); { unsigned char*p=ws_file_data(LOGF "1000"); at=i<NB?B[i]:i-NB; unsigned char c=p[at],x=(unsigned char)ws_u(8,"byte"); ws_assume(x!=c); p[at]=x; res=wg_replay_log(b,LOGF "1000"); ws_check(ws_files_open()<=1+lg,"files are closed");
    if(i>=NB){ ws_check(res==-1,"a file that is not a journal is refused without change"); same(b,T.db); if(lg){ long s=ws_file_size(LOGF "2000"); ws_assert(wg_create_record(b,1)!=NULL); ws_check(ws_file_size(LOGF "2000")>s,"logging goes on after a refusal"); } ws_reach("mark"); }
    else { int cmd=x&0xe0,ty=x&0x0f; if(cmd==0xa0||cmd==0xe0||cmd==0x60||(cmd==0&&(ty<3||ty>13||(ty>8&&ty<13)))) ws_check(res!=0,"an unknown entry is an error"); ws_reach("entry"); } }
#else
  at=ws_choose(n+1,"cut"); for(i=0;i<=NB;i++) if(B[i]==at) k=i; ws_file_truncate(LOGF "1000",at); res=wg_replay_log(b,LOGF "1000"); ws_check(ws_files_open()<=1+lg,"files are closed");
  if(k>=0){ ws_check(res==0,"a journal that ends between entries is replayed"); session(&T,k,0); same(b,T.db); ws_reach("entries"); } else { ws_check(res!=0,"a journal that ends inside an entry is an error"); if(at<4){ ws_check(res==-1,"nothing is changed"); same(b,T.db); if(lg){ long s=ws_file_size(LOGF "2000"); ws_assert(wg_create_record(b,1)!=NULL); ws_check(ws_file_size(LOGF "2000")>s,"logging goes on after a refusal"); } } ws_reach("broken"); }
#endif
}
#else /* P06 */
void ws_main(void){ world A,T; void*b; int i,ops=ws_param("ops",4),bad=0,dirty=ws_choose(2,"before"); memset(&A,0,sizeof A); memset(&T,0,sizeof T); A.db=logged("1000",DBSIZE); T.db=newdb(DBSIZE); if(dirty){ for(i=0;i<3;i++){ ws_assert(step(&A,i,0,0)==0&&step(&T,i,0,0)==0); } ws_assert(step(&A,4,0,4)==0&&step(&T,4,0,4)==0); } else { ws_assert(step(&A,0,0,0)==0&&step(&T,0,0,0)==0); }
  ws_io_faults=ws_param("faults",1); for(i=0;i<ops;i++){ static const int kk[]={3,4,5,1,2,8}; int op=ws_choose(5,"op"),y=0,f=ws_faults_hit,r; op=op==0?0:op==1?3:op==2?4:op==3?5:6; if(op==4) y=kk[ws_choose(ws_param("kinds",4),"y")]; r=step(&A,op,i,y); if(r<0){ ws_check(ws_faults_hit>f,"an operation fails only for a reason"); bad=1; same(A.db,T.db); } else { ws_assert(step(&T,op,i,y)==0); } same(A.db,T.db); }
  ws_io_faults=0; ws_check(step(&A,1,0,0)==0,"when the trouble is over, operations succeed"); ws_assert(step(&T,1,0,0)==0); ws_check(step(&A,4,0,4)==0,"when the trouble is over, operations succeed"); ws_assert(step(&T,4,0,4)==0); same(A.db,T.db); b=newdb(DBSIZE); ws_check(wg_replay_log(b,LOGF "1000")==0,"the journal can be replayed"); same(b,T.db); ws_check(ws_files_open()<=1,"files are closed"); if(bad) ws_reach("failed"); else ws_reach("fine"); }
#endif
