/* Q04 J03: document queries and deletion of documents */
#include "js.h"
static void*db;
static const char*DOCS[]={ "{\"a\":1,\"b\":\"x\"}", "{\"b\":\"x\",\"c\":{\"a\":1}}", "[\"q\",\"a\",1]", "{\"a\":[1,2,1],\"b\":[\"x\",{\"a\":3}]}", "[{\"a\":2},{\"a\":1,\"b\":\"x\"}]", "{\"z\":{\"z\":{\"z\":{\"z\":{\"z\":{\"a\":1,\"b\":\"x\"}}}}}}", "[[[[[[1,\"a\",{\"a\":1}]]]]]]", "{\"a\":{\"b\":\"x\"},\"d\":1.5}", "[]", "{\"b\":[]}", "[[[[[{\"a\":\"x\",\"b\":1}]]]]]", "{\"a\":[[1,2],[3]],\"b\":{\"a\":1}}" };
#define ND 12
static const char*VALS[]={ "1", "\"x\"", "{\"b\":\"x\"}", "[1,2]", "2", "[]", "{\"a\":1}","1.5" };
static J*dj[6]; static void*dr[6]; static int nd;
static void put(int k){ J*j=jparse(DOCS[k]); void*d=NULL; if(!j){ ws__fail("template"); } ws_check(wg_parse_json_document(db,(char*)DOCS[k],&d)==0,"a document is parsed"); ws_assert(d!=NULL); dj[nd]=j; dr[nd]=d; nd++; }
#ifdef U_QUERY
static wg_int val(const char*t,J**j){ *j=jparse(t); if((*j)->t=='i') return wg_encode_query_param_int(db,(*j)->i); if((*j)->t=='d') return wg_encode_query_param_double(db,(*j)->d); if((*j)->t=='s') return wg_encode_query_param_str(db,(*j)->s,NULL); { void*d=NULL; ws_assert(wg_parse_json_param(db,(char*)t,&d)==0); return wg_encode_query_param_record(db,d); } }
void ws_main(void){ wg_int cols[2]={1,2}; int k=ws_choose(4,"index"),i,na,t,seen[8],cnt=0,got=0,want[8]; wg_json_query_arg a[2]; const char*key[2]; J*vj[2]; wg_query*q; void*r; db=newdb(800000);
  if(k&1) ws_assert(wg_create_multi_index(db,cols,2,WG_INDEX_TYPE_HASH_JSON,NULL,0)==0); if(k&2) ws_assert(wg_create_index(db,1,WG_INDEX_TYPE_TTREE,NULL,0)==0);
  if(ws_choose(2,"plain")){ r=wg_create_record(db,3); ws_assert(!wg_set_str_field(db,r,1,(char*)"a")); ws_assert(!wg_set_int_field(db,r,2,1)); r=wg_create_record(db,1); }
  { int nn=ws_param("docs",2); for(i=0;i<nn;i++) put(ws_choose(ws_param("kinds",ND),"doc")); if(ws_choose(2,"changed")){ /* a document that was there and is gone */ put(0); ws_check(wg_delete_document(db,dr[nd-1])==0,"a document is deleted"); nd--; } }
  na=1+ws_choose(2,"pairs"); for(i=0;i<na;i++){ key[i]=ws_choose(2,"key")?"a":"b"; a[i].key=wg_encode_query_param_str(db,key[i],NULL); a[i].value=val(VALS[ws_choose(ws_param("vals",7),"value")],&vj[i]); }
  for(i=0;i<nd;i++){ want[i]=1; for(t=0;t<na;t++) if(!jhas(dj[i],key[t],vj[t])) want[i]=0; cnt+=want[i]; seen[i]=0; }
  q=wg_make_json_query(db,a,na); ws_check(q!=NULL,"a document query is made"); while((r=wg_fetch(db,q))){ for(i=0;i<nd;i++) if(dr[i]==r) break; ws_check(i<nd,"a result is a document"); ws_check(!seen[i],"a document is found once"); ws_check(want[i],"a found document holds all the pairs"); seen[i]=1; got++; } ws_check(got==cnt,"every document that holds the pairs is found"); ws_check((int)q->res_count==cnt,"the number of results is right"); wg_free_query(db,q); ws_reach("query"); }
#endif
#ifdef U_MANY /* more documents than a result page holds */
void ws_main(void){ wg_int cols[2]={1,2}; int k=ws_choose(3,"index"),i,n,m,got=0; static const int N[]={19,20,21,63,64,70}; wg_json_query_arg a[2]; wg_query*q; void*r; static void*D[80]; static int seen[80]; char t[60]; db=newdb(2000000); if(k==1) ws_assert(wg_create_multi_index(db,cols,2,WG_INDEX_TYPE_HASH_JSON,NULL,0)==0); if(k==2) ws_assert(wg_create_index(db,1,WG_INDEX_TYPE_TTREE,NULL,0)==0);
  n=N[ws_choose(6,"docs")]; m=1+ws_choose(3,"mod"); for(i=0;i<n;i++){ strcpy(t,i%m==0?"{\"b\":7,\"a\":[1,1,2]}":i%m==1?"{\"a\":1}":"{\"b\":7}"); ws_assert(wg_parse_json_document(db,t,&D[i])==0); }
  a[0].key=wg_encode_query_param_str(db,"a",NULL); a[0].value=wg_encode_query_param_int(db,1); a[1].key=wg_encode_query_param_str(db,"b",NULL); a[1].value=wg_encode_query_param_int(db,7); if(ws_choose(2,"swap")){ wg_json_query_arg x=a[0]; a[0]=a[1]; a[1]=x; }
  q=wg_make_json_query(db,a,2); ws_check(q!=NULL,"a document query is made"); while((r=wg_fetch(db,q))){ for(i=0;i<n;i++) if(D[i]==r) break; ws_check(i<n&&i%m==0&&!seen[i],"a found document holds all the pairs, once"); seen[i]=1; got++; } ws_check(got==(n+m-1)/m,"every document that holds the pairs is found"); ws_check((int)q->res_count==got,"the number of results is right"); wg_free_query(db,q); ws_reach("many"); }
#endif
#ifdef U_DEL /* deletion removes a document, all of it and nothing else */
void ws_main(void){ int i,k,tot=0,plain=0,idx=ws_choose(3,"index"); wg_int cols[2]={1,2}; void*p; db=newdb(800000); if(idx==1) ws_assert(wg_create_multi_index(db,cols,2,WG_INDEX_TYPE_HASH_JSON,NULL,0)==0); if(idx==2) ws_assert(wg_create_index(db,1,WG_INDEX_TYPE_TTREE,NULL,0)==0);
  p=wg_create_record(db,2); plain=1; for(i=0;i<3;i++) put(ws_choose(ND,"doc")); for(i=0;i<nd;i++) tot+=jcount(dj[i]); ws_check(nrecords(db)==plain+tot,"a document has a record for each structure and pair");
  { int ext=ws_choose(3,"referrer"); k=ws_choose(nd,"which"); if(ext==1){ ws_assert(wg_set_field(db,p,0,wg_encode_record(db,dr[k]))==0); } else if(ext==2){ ws_assume(wg_get_record_len(db,dr[k])>0&&wg_get_encoded_type(db,wg_get_field(db,dr[k],wg_get_record_len(db,dr[k])-1))==WG_RECORDTYPE); ws_assert(wg_set_field(db,p,0,wg_get_field(db,dr[k],wg_get_record_len(db,dr[k])-1))==0); }
    if(ext){ ws_check(wg_delete_document(db,dr[k])!=0,"a document that is referred to from outside is not deleted"); for(i=0;i<nd;i++) jcheckrec(db,dr[i],dj[i]); ws_check(nrecords(db)==plain+tot,"a deletion that fails removes nothing"); ws_assert(wg_set_field(db,p,0,wg_encode_null(db,0))==0); } }
  ws_check(wg_delete_document(db,dr[k])==0,"a document is deleted"); tot-=jcount(dj[k]); ws_check(nrecords(db)==plain+tot,"deletion removes every record of the document and no other"); for(i=0;i<nd;i++) if(i!=k) jcheckrec(db,dr[i],dj[i]); ws_check(rec_listed(db,p)==1,"other records stay");
  ws_check(wg_delete_document(db,p)!=0,"a plain record is not a document"); for(i=0;i<nd;i++) if(i!=k) ws_check(wg_delete_document(db,dr[i])==0,"a document is deleted"); ws_check(nrecords(db)==plain,"deletion removes every record"); ws_reach("del"); }
#endif
