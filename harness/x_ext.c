/* X01: values of another database */
#ifndef DBSIZE
#define DBSIZE 152000
#endif
#include "h.h"
#include <errno.h>
long ws_syscall_hook(long nr,long a,long b,long c,long d){ errno=ETIMEDOUT; return -1; }
wg_int wg_register_external_db(void*db,void*extdb); wg_int wg_encode_external_data(void*db,void*extdb,wg_int encoded); void wg_snprint_value(void*db,wg_int enc,char*buf,int buflen); wg_int wg_free_encoded(void*db,wg_int e);
static char TXT[100]; static const char*text(int n,int i){ int j; for(j=0;j<n;j++) TXT[j]='a'+(j+i)%25; TXT[n]=0; if(n>0) TXT[n-1]='A'+i; return TXT; }
#define NKIND 18
static long IV; static double FV;
static wg_int value(void*db,int k,int v){ void*r; switch(k){ case 0: return wg_encode_int(db,v); case 1: return wg_encode_int(db,IV+v); case 2: return wg_encode_double(db,FV+v); case 3: return wg_encode_str(db,text(5,v),NULL); case 4: return wg_encode_str(db,text(40,v),NULL); case 5: return wg_encode_str(db,text(6,v),"en"); case 6: return wg_encode_uri(db,text(9,v),"http://p/"); case 7: return wg_encode_xmlliteral(db,text(33,v),"xsd:long"); case 8: { static const char bl[40]="\0\1\2\0abc\377\0zz"; return wg_encode_blob(db,(char*)bl+v,"mime/type",12+v); } case 9: return wg_encode_str(db,text(45,v),"a language longer than the short strings hold"); case 10: return wg_encode_uri(db,text(40,v),NULL);
    case 11: return wg_encode_date(db,700000+v); case 12: return wg_encode_time(db,100*v); case 13: return wg_encode_char(db,'a'+v); case 14: return wg_encode_fixpoint(db,v+0.5); case 15: return wg_encode_null(db,0); case 16: r=wg_create_record(db,2); ws_assert(r); wg_set_field(db,r,0,value(db,4,v)); wg_set_field(db,r,1,value(db,5,v)); return wg_encode_record(db,r); default: { void*s=wg_create_record(db,3); ws_assert(s); wg_set_field(db,s,0,value(db,2,v)); wg_set_field(db,s,1,value(db,16,v)); wg_set_field(db,s,2,value(db,9,v)); return wg_encode_record(db,s); } } }
static void samevalue(void*a,void*b,wg_int x,wg_int y,void*own){ wg_int t=wg_get_encoded_type(a,x); ws_check(t==wg_get_encoded_type(b,y),"the same type"); switch(t){ case WG_INTTYPE: ws_check(wg_decode_int(a,x)==wg_decode_int(b,y),"the same number"); break; case WG_DOUBLETYPE: { double d=wg_decode_double(a,x),e=wg_decode_double(b,y); ws_check(memcmp(&d,&e,8)==0,"the same double"); break; }
#define PAIR(f,g,h) { char*p=g(a,x),*q=g(b,y); ws_check(strcmp(f(a,x),f(b,y))==0,"the same text"); ws_check((p==NULL)==(q==NULL)&&(!p||strcmp(p,q)==0),"the same annotation"); ws_check(h(a,x)==h(b,y),"the same length"); break; }
    case WG_STRTYPE: PAIR(wg_decode_str,wg_decode_str_lang,wg_decode_str_len) case WG_URITYPE: PAIR(wg_decode_uri,wg_decode_uri_prefix,wg_decode_uri_len) case WG_XMLLITERALTYPE: PAIR(wg_decode_xmlliteral,wg_decode_xmlliteral_xsdtype,wg_decode_xmlliteral_len)
    case WG_BLOBTYPE: { char*p=wg_decode_blob_type(a,x),*q=wg_decode_blob_type(b,y); long n=wg_decode_blob_len(a,x); ws_check(n==wg_decode_blob_len(b,y)&&memcmp(wg_decode_blob(a,x),wg_decode_blob(b,y),n)==0,"the same blob"); ws_check((p==NULL)==(q==NULL)&&(!p||strcmp(p,q)==0),"the same blob type"); break; }
    case WG_RECORDTYPE: { void*p=wg_decode_record(a,x),*q=wg_decode_record(b,y); int i; if(own) ws_check(p==q,"the very record"); ws_check(wg_get_record_len(a,p)==wg_get_record_len(b,q),"the same record"); break; } default: ws_check(x==y,"the same value"); } }
static char*seg(void*db){ return *(char**)db; }
static int same_image(const char*a,const char*b,long n){ long i; const long*x=(const long*)a,*y=(const long*)b,d=n/8; for(i=0;i<d;i++) if(x[i]!=y[i]) return 0; return 1; }
static int refs(void*db,void*r){ void*p=wg_get_first_parent(db,r); int n=0; while(p&&n<50){ n++; p=wg_get_next_parent(db,r,p); } return n; }
#ifdef U_VALUE /* a foreign value is the value */
void ws_main(void){ int order=ws_choose(2,"order"),k=ws_choose(NKIND,"kind"),k2=ws_choose(NKIND,"kind2"),two=ws_choose(2,"owners"),v2=ws_choose(2,"v"); void*c,*p,*p2,*r,*r2; wg_int x,y,e,f,o; char*snap,*snapc; char b1[300],b2[300]; static int len=DBSIZE;
  IV=ws_choose(2,"wide")?(1L<<61)-1:-(1L<<60); FV=1.5; if(k==1){ IV=(long)ws_u(64,"int"); ws_assume(IV<(1L<<62)&&IV>-(1L<<62)); } if(k==2){ unsigned long u=ws_u(64,"double"); memcpy(&FV,&u,8); }
  if(order) c=newdb(DBSIZE); p=newdb(DBSIZE); p2=newdb(DBSIZE); if(!order) c=newdb(DBSIZE);
  for(e=0;e<30;e++) ws_assert(wg_create_record(c,1+e%4)); r=wg_create_record(c,3); x=value(p,k,1); y=value(two?p2:p,k2,v2); ws_check(wg_set_field(c,r,0,0)==0,"set"); 
  { wg_int t=wg_encode_external_data(c,p,x); if(t!=x){ ws_check(wg_set_field(c,r,0,t)==-5,"a value of a database that is not registered is refused"); ws_check(wg_get_field(c,r,0)==0,"and not stored"); ws_reach("refused"); } else ws_reach("immediate"); }
  ws_assert(wg_register_external_db(c,p)==0&&wg_register_external_db(c,p2)==0); snap=malloc(len); memcpy(snap,seg(p),len);
  e=wg_encode_external_data(c,p,x); f=wg_encode_external_data(c,two?p2:p,y); ws_check(wg_set_field(c,r,0,e)==0&&wg_set_field(c,r,1,f)==0,"a value of a registered database is stored"); ws_check(wg_get_field(c,r,0)==e&&wg_get_field(c,r,1)==f,"and read back");
  samevalue(p,c,x,e,p); samevalue(two?p2:p,c,y,f,p); 
  if(k!=2&&k!=1){ wg_snprint_value(p,x,b1,290); wg_snprint_value(c,e,b2,290); ws_check(strcmp(b1,b2)==0,"printed alike"); }
  /* comparison: as if all were local */
  { wg_int lx=value(c,k,1),ly=value(c,k2,v2),px; int s; px=wg_compare(c,lx,ly,7); if(lx==ly) px=WG_EQUAL; ws_check(WG_COMPARE(c,e,f)==px,"foreign values compare as local ones"); ws_check(WG_COMPARE(c,e,ly)==px,"a foreign and a local value compare as local ones"); ws_check(WG_COMPARE(c,lx,f)==px,"a local and a foreign value compare as local ones"); ws_check(WG_COMPARE(c,e,lx)==WG_EQUAL,"a foreign value equals its copy"); (void)s; }
  /* leaving */
  switch(ws_choose(4,"leave")){ case 0: ws_check(wg_set_field(c,r,0,f)==0&&wg_set_field(c,r,1,e)==0,"exchanged"); break; case 1: ws_check(wg_set_field(c,r,0,wg_encode_str(c,"local",NULL))==0,"replaced"); break; case 2: ws_check(wg_delete_record(c,r)==0,"deleted"); break; default: ws_check(wg_free_encoded(c,e)==0,"freed"); break; }
  ws_check(same_image(snap,seg(p),len),"the owner does not change"); samevalue(p,p,x,x,p); ws_reach("done"); }
#elif defined(U_LINK) /* references within and across */
void ws_main(void){ void*c,*p,*R[4],*X[2]; int i,j,ops=ws_param("ops",4),order=ws_choose(2,"order"),fld[4][2],n=3,live[4]={1,1,1,1}; char*snap; if(order) c=newdb(DBSIZE); p=newdb(DBSIZE); if(!order) c=newdb(DBSIZE); memset(fld,-1,sizeof fld); for(i=0;i<3;i++) ws_assert((R[i]=wg_create_record(c,2))); for(i=0;i<2;i++){ ws_assert((X[i]=wg_create_record(p,2))); ws_assert(wg_set_field(p,X[i],1,wg_encode_str(p,text(40,i),NULL))==0); } ws_assert(wg_set_field(p,X[1],0,wg_encode_record(p,X[0]))==0); ws_assert(wg_register_external_db(c,p)==0); snap=malloc(DBSIZE); memcpy(snap,seg(p),DBSIZE);
  /* fld: -1 null, 0..2 local record, 10/11 foreign record, 20/21 foreign text */
  for(i=0;i<ops;i++){ int op=ws_choose(3,"op"),w=ws_choose(i==0?1:i==1?2:3,"which"); if(!live[w]) continue; if(op==0){ int f=ws_choose(2,"field"),t=ws_choose(8,"to"),r; wg_int e; int code=t<3?t:t<5?10+t-3:t<7?20+t-5:-1; if(code>=0&&code<3&&!live[code]) continue; e=code<0?0:code<3?wg_encode_record(c,R[code]):code<12?wg_encode_external_data(c,p,wg_encode_record(p,X[code-10])):wg_encode_external_data(c,p,wg_get_field(p,X[code-20],1)); r=wg_set_field(c,R[w],f,e); ws_check(r==0,"stored"); fld[w][f]=code; }
    else if(op==1){ int r,refd=0; for(j=0;j<3;j++) if(live[j]&&(fld[j][0]==w||fld[j][1]==w)) refd=1; r=wg_delete_record(c,R[w]); ws_check((r==-1)==refd&&(r==0||r==-1),"a record is deleted exactly if nothing refers to it"); if(!r){ live[w]=0; fld[w][0]=fld[w][1]=-1; } }
    else { ws_check(wg_delete_record(c,X[w%2])==-2,"a foreign record is not deleted"); }
    for(j=0;j<3;j++) if(live[j]){ int k,q=0; for(k=0;k<3;k++) if(live[k]&&(fld[k][0]==j||fld[k][1]==j)) q++; ws_check(refs(c,R[j])==q,"references within the database are known"); for(k=0;k<2;k++){ wg_int e=wg_get_field(c,R[j],k); int t=fld[j][k]; if(t<0) ws_check(e==0,"null"); else if(t<3) ws_check(wg_decode_record(c,e)==R[t],"the record"); else if(t<12) ws_check(wg_decode_record(c,e)==X[t-10],"the foreign record"); else ws_check(strcmp(wg_decode_str(c,e),text(40,t-20))==0,"the foreign text"); } }
    ws_dedup(); }
  ws_check(same_image(snap,seg(p),DBSIZE),"the owner does not change"); { int k=0; for(j=0;j<3;j++) k+=live[j]; ws_check(nrecords(c)==k,"the records"); } ws_reach("linked"); }
#else /* registration */
void ws_main(void){ void*c=NULL,*p=newdb(DBSIZE),*r; int what=ws_choose(5,"what"),i,n; wg_int e; if(what==0){ c=wg_attach_database("1000",DBSIZE); ws_assert(c); ws_check(wg_register_external_db(c,p)<0,"not in a shared database"); r=wg_create_record(c,1); e=wg_encode_external_data(c,p,wg_encode_str(p,"x",NULL)); ws_check(wg_set_field(c,r,0,e)==-5,"its values are refused"); ws_reach("shared"); return; }
  c=newdb(DBSIZE); r=wg_create_record(c,2); if(what==1){ ws_assert(wg_create_index(c,0,WG_INDEX_TYPE_TTREE,NULL,0)==0); ws_check(wg_register_external_db(c,p)<0,"not with an index"); e=wg_encode_external_data(c,p,wg_encode_str(p,"x",NULL)); ws_check(wg_set_field(c,r,0,e)==-5,"its values are refused"); ws_assert(wg_drop_index(c,wg_column_to_index_id(c,0,WG_INDEX_TYPE_TTREE,NULL,0))==0); ws_check(wg_register_external_db(c,p)==0,"without the index"); ws_check(wg_set_field(c,r,0,e)==0,"its values are stored"); ws_reach("index"); return; }
  if(what==2){ ws_assert(wg_register_external_db(c,p)==0); ws_check(wg_create_index(c,0,ws_choose(2,"kind")?WG_INDEX_TYPE_TTREE:WG_INDEX_TYPE_HASH,NULL,0)!=0,"no index afterwards"); ws_check(wg_column_to_index_id(c,0,WG_INDEX_TYPE_TTREE,NULL,0)==-1&&wg_column_to_index_id(c,0,WG_INDEX_TYPE_HASH,NULL,0)==-1,"none is made"); ws_reach("noindex"); return; }
  if(what==3){ ws_file_put("d","old",3); if(ws_choose(2,"used")){ ws_assert(wg_register_external_db(c,p)==0); if(ws_choose(2,"stored")) ws_assert(wg_set_field(c,r,0,wg_encode_external_data(c,p,wg_encode_str(p,"x",NULL)))==0); ws_check(wg_dump(c,"d")!=0,"not dumped"); ws_check(ws_file_size("d")==3,"an older dump stays"); ws_check(wg_create_record(c,1)&&wg_start_write(c)!=0,"the database stays usable"); } else ws_check(wg_dump(c,"d")==0,"dumped"); ws_reach("dump"); return; }
  { static void*X[24]; wg_int ex[24]; int ok=0; for(i=0;i<24;i++){ X[i]=newdb(150000+i*1000); ex[i]=wg_encode_external_data(c,X[i],wg_encode_str(X[i],text(6,i),NULL)); } n=ws_choose(24,"count")+1; for(i=0;i<n;i++){ int q=wg_register_external_db(c,X[i]); if(q==0) ok++; ws_check((q==0)==(wg_set_field(c,r,0,ex[i])==0),"a registered database is known, another one is not"); } ws_check(ok==n||ok>=20,"twenty databases can be registered"); for(i=0;i<24;i++){ int q=wg_set_field(c,r,1,ex[i]); ws_check(q==(i<ok?0:-5),"exactly the registered databases are known"); if(!q) ws_check(strcmp(wg_decode_str(c,wg_get_field(c,r,1)),text(6,i))==0,"the text of its owner"); } ws_reach("many"); } }
#endif
