/* Q01 Q02 Q03: queries and record search against a plain evaluation of the conditions */
#include "h.h"
static void*db;
#define MX 200
static void*R[MX]; static wg_int V[MX][3]; static int L[MX]; static int n;
static const wg_int CONDS[6]={WG_COND_EQUAL,WG_COND_NOT_EQUAL,WG_COND_LESSTHAN,WG_COND_GREATER,WG_COND_LTEQUAL,WG_COND_GTEQUAL};
static int holds(int c,wg_int v,wg_int w){ switch(c){ case 0: return v==w; case 1: return v!=w; case 2: return v<w; case 3: return v>w; case 4: return v<=w; default: return v>=w; } }
static void row(int len,wg_int a,wg_int b,wg_int c){ wg_int x[3]={a,b,c}; int f; R[n]=wg_create_record(db,len); ws_assert(R[n]!=NULL); L[n]=len; for(f=0;f<len;f++){ V[n][f]=x[f]; ws_assert(wg_set_int_field(db,R[n],f,x[f])==0); } n++; }
static int rowof(void*r){ int i; for(i=0;i<n;i++) if(R[i]==r) return i; return -1; }
static void read_all(wg_query*q,int cnt,int *want){ int seen[MX],i,got=0; void*r; memset(seen,0,sizeof seen);
  while((r=wg_fetch(db,q))){ i=rowof(r); ws_check(i>=0,"a fetched row is a record of the database"); ws_check(!seen[i],"a row is fetched once"); seen[i]=1; got++; ws_check(want[i],"a fetched row satisfies the conditions"); }
  ws_check(got==cnt,"every row that satisfies the conditions is fetched"); ws_check((int)q->res_count==cnt,"the reported number of results is right"); ws_check(wg_fetch(db,q)==NULL,"after the end comes the end"); ws_check(wg_fetch(db,q)==NULL,"after the end comes the end"); }
static void mkidx(int k){ switch(k){ case 1: ws_assert(wg_create_index(db,0,WG_INDEX_TYPE_TTREE,NULL,0)==0); break; case 2: ws_assert(wg_create_index(db,1,WG_INDEX_TYPE_TTREE,NULL,0)==0); break; case 3: mkidx(1); mkidx(2); break; case 4: { wg_int cols[2]={0,1}; ws_assert(wg_create_multi_index(db,cols,2,WG_INDEX_TYPE_HASH,NULL,0)==0); break; } default: break; } }
#ifdef U_RANGE /* one or two conditions on the first column, rows with runs of duplicates */
void ws_main(void){ static const int RUN[]={1,2,4,10,25}; static const int SZ[]={0,1,7,26,60}; int run=RUN[ws_choose(5,"run")],sz=SZ[ws_choose(5,"size")],k=ws_choose(2,"index"),ord=ws_choose(2,"order"),i,na=1+ws_choose(2,"conds"),want[MX],cnt=0,hi; wg_query_arg a[2]; int c[2]; wg_int w[2];
  db=newdb(800000); if(k&&ws_param("before",1)) mkidx(1); for(i=0;i<sz;i++){ int j=ord?(i*7)%sz:i; if(ord&&sz%7==0) j=sz-1-i; row(1,j/run,0,0); } hi=(sz?(sz-1)/run:0)+1; if(hi>8) hi=8;
  for(i=0;i<na;i++){ c[i]=ws_choose(6,"cond"); w[i]=ws_range(-1,hi,"bound"); a[i].column=0; a[i].cond=CONDS[c[i]]; a[i].value=wg_encode_query_param_int(db,w[i]); }
  memset(want,0,sizeof want); for(i=0;i<n;i++){ int ok=1,t; for(t=0;t<na;t++) if(!holds(c[t],V[i][0],w[t])) ok=0; want[i]=ok; cnt+=ok; }
  { wg_query*q=wg_make_query(db,NULL,0,a,na); ws_check(q!=NULL,"a query is made"); read_all(q,cnt,want); wg_free_query(db,q); } ws_reach("range"); }
#endif
#ifdef U_COLS /* conditions over several columns, records of several lengths, match record, templates */
void ws_main(void){ int nr=ws_param("rows",12),k=ws_choose(8,"index"),i,na=ws_choose(ws_param("conds",2)+1,"conds"),mm=ws_choose(4,"match"),want[MX],cnt=0,t; wg_query_arg a[3]; int c[3]; wg_int w[3],m[3]; void*tm=NULL; wg_query*q;
  db=newdb(800000); for(i=0;i<nr;i++) row(1+(i%3==2?2:(i+1)%3),i/4,i%3,i&1);
  if(k<5) mkidx(k); else { wg_int mv[3]; int ml=k==5?2:3; mv[0]=wg_encode_var(db,0); mv[1]=k==7?wg_encode_var(db,1):wg_encode_int(db,1); if(ml>2) mv[2]=wg_encode_int(db,1); ws_assert(wg_create_index(db,0,WG_INDEX_TYPE_TTREE,mv,ml)==0); if(ws_choose(2,"plain")) mkidx(2); }
  ws_assume(na||mm);
  for(i=0;i<na;i++){ c[i]=ws_choose(6,"cond"); a[i].column=ws_choose(3,"col"); w[i]=ws_range(0,2,"value"); a[i].cond=CONDS[c[i]]; a[i].value=wg_encode_query_param_int(db,w[i]); }
  if(mm){ int f; for(f=0;f<3;f++) m[f]=wg_encode_var(db,f); if(mm==1){ m[0]=wg_encode_int(db,ws_choose(3,"m0")); } else if(mm==2){ m[1]=wg_encode_int(db,1); m[2]=wg_encode_int(db,ws_choose(2,"m2")); } else { m[1]=wg_encode_int(db,1); tm=wg_create_raw_record(db,2); ws_assert(tm!=NULL); wg_set_new_field(db,tm,0,wg_encode_var(db,0)); wg_set_new_field(db,tm,1,m[1]); } }
  memset(want,0,sizeof want); for(i=0;i<n;i++){ int ok=1,f; for(t=0;t<na;t++) if(a[t].column>=L[i]||!holds(c[t],V[i][a[t].column],w[t])) ok=0; if(mm) for(f=0;f<3;f++) if(wg_get_encoded_type(db,m[f])!=WG_VARTYPE&&(f>=L[i]||V[i][f]!=wg_decode_int(db,m[f]))) ok=0; want[i]=ok; cnt+=ok; }
  if(tm){ /* the match record is itself a record of the database */ R[n]=tm; L[n]=2; { int ok=1; for(t=0;t<na;t++){ if(a[t].column>=2) ok=0; else if(a[t].column==1){ if(!holds(c[t],1,w[t])) ok=0; } else { wg_int vv=wg_encode_var(db,0); int o=WG_COMPARE(db,vv,a[t].value); int h=c[t]==0?o==0:c[t]==1?o!=0:c[t]==2?o==WG_LESSTHAN:c[t]==3?o==WG_GREATER:c[t]==4?o!=WG_GREATER:o!=WG_LESSTHAN; if(!h) ok=0; } } want[n]=ok; cnt+=ok; } n++; }
  q=wg_make_query(db,mm?(tm?tm:(void*)m):NULL,mm&&!tm?3:0,na?a:NULL,na); ws_check(q!=NULL,"a query is made"); read_all(q,cnt,want); wg_free_query(db,q); ws_reach("cols"); }
#endif
#ifdef U_KIND /* values of many kinds, arbitrary contents, against the order of values */
static const char LONG1[]="a text of more than thirty-two characters", LONG2[]="a text of more than thirty-two charactery";
static wg_int mk(int p,int k){ switch(k){ case 0: { wg_int v=(wg_int)ws_u(64,"int"); return p?wg_encode_query_param_int(db,v):wg_encode_int(db,v); } case 1: { double d=ws_choose(2,"d")?1.5:-2.25; return p?wg_encode_query_param_double(db,d):wg_encode_double(db,d); } case 2: { char b[3]; b[0]=(char)ws_u(8,"c0"); b[1]=(char)ws_range('a','b',"c1"); b[2]=0; return p?wg_encode_query_param_str(db,b,NULL):wg_encode_str(db,b,NULL); }
  case 3: { const char*s=ws_choose(2,"l")?LONG1:LONG2; return p?wg_encode_query_param_str(db,s,NULL):wg_encode_str(db,(char*)s,NULL); } case 4: { const char*s=ws_choose(2,"ls")?"lang":LONG1; const char*l=ws_choose(2,"lg")?"et":"en"; return p?wg_encode_query_param_str(db,s,l):wg_encode_str(db,(char*)s,(char*)l); }
  case 5: { const char*s=ws_choose(2,"u")?"":"urn:x"; const char*l=ws_choose(3,"pf")==0?NULL:"http://a/"; return p?wg_encode_query_param_uri(db,s,l):wg_encode_uri(db,(char*)s,(char*)l); } case 6: { const char*l=ws_choose(2,"xs")?"xsd:a":"xsd:b"; return p?wg_encode_query_param_xmlliteral(db,"<x/>",l):wg_encode_xmlliteral(db,"<x/>",(char*)l); }
  case 7: return p?wg_encode_query_param_null(db,0):wg_encode_null(db,0); case 8: { char ch=(char)ws_u(8,"ch"); return p?wg_encode_query_param_char(db,ch):wg_encode_char(db,ch); } case 9: { int d=(int)ws_range(0,800000,"date"); return p?wg_encode_query_param_date(db,d):wg_encode_date(db,d); } case 10: { int d=(int)ws_range(0,8639999,"time"); return p?wg_encode_query_param_time(db,d):wg_encode_time(db,d); } case 11: { double d=ws_choose(2,"fx")?1.5:-7.25; return p?wg_encode_query_param_fixpoint(db,d):wg_encode_fixpoint(db,d); } case 12: { wg_int v=ws_range(0,5,"var"); return p?wg_encode_query_param_var(db,v):wg_encode_var(db,v); } default: { void*r=R[0]; return p?wg_encode_query_param_record(db,r):wg_encode_record(db,r); } } }
void ws_main(void){ int i,k=ws_choose(14,"kind"),k2=ws_choose(ws_param("kinds",14),"kind2"),c=ws_choose(6,"cond"),want[MX],cnt=0,idx=ws_choose(2,"index"); wg_query_arg a; void*r; db=newdb(800000); 
  if(idx) mkidx(1); row(1,5,0,0); row(1,1000,0,0); R[n]=wg_create_record(db,2); L[n]=2; ws_assert(wg_set_field(db,R[n],0,mk(0,k2))==0); n++; R[n]=wg_create_record(db,1); L[n]=1; ws_assert(wg_set_str_field(db,R[n],0,(char*)"ab")==0); n++;
  a.column=0; a.cond=CONDS[c]; a.value=mk(1,k); ws_check(a.value!=WG_ILLEGAL,"a parameter is encoded");
  memset(want,0,sizeof want); for(i=0;i<n;i++){ wg_int v=wg_get_field(db,R[i],0); int o=WG_COMPARE(db,v,a.value),h=c==0?o==0:c==1?o!=0:c==2?o==WG_LESSTHAN:c==3?o==WG_GREATER:c==4?o!=WG_GREATER:o!=WG_LESSTHAN; want[i]=ws_concretize(h); cnt+=want[i]; }
  { wg_query*q=wg_make_query(db,NULL,0,&a,1); ws_check(q!=NULL,"a query is made"); read_all(q,cnt,want); wg_free_query(db,q); }
  { int seen=0; r=NULL; while((r=wg_find_record(db,0,CONDS[c],a.value,r))){ i=rowof(r); ws_check(i>=0&&want[i]==1,"a found record is one that matches, found once"); want[i]=2; seen++; } ws_check(seen==cnt,"every matching record is found"); }
  wg_free_query_param(db,a.value); ws_check(wg_decode_int(db,wg_get_field(db,R[0],0))==5,"freeing a parameter leaves the data"); ws_check(nrecords(db)==n,"freeing a parameter leaves the data"); ws_reach("kind"); }
#endif
#ifdef U_PAGE /* result pages and limits */
void ws_main(void){ int per=63,sz,i,k=ws_choose(2,"index"),want[MX],cnt=0; wg_query*q; wg_query_arg a; long lim; void*r; static const int SZ[]={0,1,62,63,64,126,127,150}; sz=SZ[ws_choose(8,"size")]; (void)per;
  db=newdb(800000); if(k) mkidx(1); for(i=0;i<sz;i++) row(1,i,0,0); memset(want,0,sizeof want); for(i=0;i<n;i++) want[i]=1; cnt=n; a.column=0; a.cond=WG_COND_GTEQUAL; a.value=wg_encode_query_param_int(db,0);
  { int full=ws_choose(2,"full"); lim=ws_choose(2,"limited"); if(lim){ lim=(long)ws_u(64,"limit"); q=wg_make_query_rc(db,NULL,0,full?NULL:&a,full?0:1,(wg_uint)lim); } else q=wg_make_query(db,NULL,0,full?NULL:&a,full?0:1); }
  ws_check(q!=NULL,"a query is made"); if(lim&&(unsigned long)lim<(unsigned long)cnt){ int got=0,seen[MX]; memset(seen,0,sizeof seen); ws_check(q->res_count==(wg_uint)lim,"the limit is the number of results"); while((r=wg_fetch(db,q))){ i=rowof(r); ws_check(i>=0&&!seen[i],"a row is fetched once"); seen[i]=1; got++; } ws_check(got==lim,"the limit is honoured"); ws_check(wg_fetch(db,q)==NULL,"after the end comes the end"); } else read_all(q,cnt,want);
  wg_free_query(db,q); ws_reach("page"); }
#endif
#ifdef U_BAD /* arguments that make no sense are refused */
void ws_main(void){ wg_query_arg a[2]; wg_query*q; int k=ws_choose(2,"index"),i,want[MX]; void*r; db=newdb(400000); if(k) mkidx(3); for(i=0;i<5;i++) row(1+(i&1),i,i,0); memset(want,0,sizeof want);
  a[0].column=(wg_int)ws_u(64,"column"); a[0].cond=WG_COND_EQUAL; a[0].value=wg_encode_query_param_int(db,1); 
  switch(ws_choose(5,"what")){ case 0: q=wg_make_query(db,NULL,0,a,1); if(a[0].column<0){ ws_check(q==NULL,"a negative column is refused"); break; } ws_check(q!=NULL,"a query is made"); if(a[0].column==0||a[0].column==1) want[1]=1; read_all(q,want[1],want); wg_free_query(db,q); break;
    case 1: ws_check(wg_make_query(db,NULL,0,a,0)==NULL,"an argument list without length is refused"); break; case 2: ws_check(wg_make_query(db,NULL,0,NULL,1)==NULL,"a missing argument list is refused"); break;
    case 3: r=wg_find_record(db,a[0].column,WG_COND_EQUAL,a[0].value,NULL); ws_check(r==((a[0].column==0||a[0].column==1)?R[1]:NULL),"only an existing column can match"); break;
    default: { int col=(int)ws_u(32,"col"); r=wg_find_record_int(db,col,WG_COND_EQUAL,1,NULL); ws_check(r==((col==0||col==1)?R[1]:NULL),"only an existing column can match"); break; } } ws_reach("bad"); }
#endif
#ifdef U_FIND /* repeated search */
void ws_main(void){ static const int RUN[]={1,4,12}; int run=RUN[ws_choose(3,"run")],sz=1+ws_choose(3,"size")*12,k=ws_choose(2,"index"),c=ws_choose(6,"cond"),i,cnt=0,got=0,how=ws_choose(3,"how"); wg_int w; void*r=NULL; char b[16]; static int want[MX];
  db=newdb(800000); if(k) mkidx(1); for(i=0;i<sz;i++){ if(how<2) row(1+(i&1),(i*5%sz)/run,1,0); else { R[n]=wg_create_record(db,1+(i&1)); ws_assert(R[n]!=NULL); V[n][0]=(i*5%sz)/run; L[n]=1+(i&1); b[0]=(char)('b'+V[n][0]); b[1]=0; ws_assert(wg_set_str_field(db,R[n],0,b)==0); n++; } } row(0,0,0,0); w=ws_range(-1,(sz-1)/run+1>8?8:(sz-1)/run+1,"value");
  for(i=0;i<n;i++){ want[i]=ws_concretize(L[i]>0&&holds(c,V[i][0],w)); cnt+=want[i]; } if(how==2){ b[0]=(char)('b'+ws_concretize(w)); b[1]=0; }
  for(;;){ r=how==0?wg_find_record(db,0,CONDS[c],wg_encode_query_param_int(db,w),r):how==1?wg_find_record_int(db,0,CONDS[c],(int)w,r):wg_find_record_str(db,0,CONDS[c],b,r); if(!r) break; i=rowof(r); ws_check(i>=0&&want[i]==1,"a found record is one that matches, found once"); want[i]=2; got++; } ws_check(got==cnt,"every matching record is found"); ws_reach("find"); }
#endif
#ifdef U_FINDT /* the typed search functions */
static void ck(void*r,void*e){ ws_check(r==e,"the record with the value is found"); }
void ws_main(void){ void*r[8]; int i,k=ws_choose(2,"index"); db=newdb(400000); if(k) mkidx(1); for(i=0;i<8;i++){ r[i]=wg_create_record(db,1); ws_assert(r[i]!=NULL); } ws_assert(!wg_set_field(db,r[0],0,wg_encode_null(db,0))); ws_assert(!wg_set_field(db,r[1],0,wg_encode_char(db,'x'))); ws_assert(!wg_set_field(db,r[2],0,wg_encode_date(db,700000))); ws_assert(!wg_set_field(db,r[3],0,wg_encode_time(db,3600))); ws_assert(!wg_set_field(db,r[4],0,wg_encode_var(db,3))); ws_assert(!wg_set_field(db,r[5],0,wg_encode_int(db,77))); ws_assert(!wg_set_field(db,r[6],0,wg_encode_double(db,0.1))); ws_assert(!wg_set_field(db,r[7],0,wg_encode_str(db,(char*)"s",NULL)));
  ck(wg_find_record_null(db,0,WG_COND_EQUAL,NULL,NULL),r[0]); ck(wg_find_record_null(db,0,WG_COND_EQUAL,NULL,r[0]),NULL); ck(wg_find_record_char(db,0,WG_COND_EQUAL,'x',NULL),r[1]); ck(wg_find_record_char(db,0,WG_COND_EQUAL,'y',NULL),NULL); ck(wg_find_record_date(db,0,WG_COND_EQUAL,700000,NULL),r[2]); ck(wg_find_record_time(db,0,WG_COND_EQUAL,3600,NULL),r[3]); ck(wg_find_record_var(db,0,WG_COND_EQUAL,3,NULL),r[4]); { int v=(int)ws_u(32,"i"); ck(wg_find_record_int(db,0,WG_COND_EQUAL,v,NULL),v==77?r[5]:NULL); } ck(wg_find_record_double(db,0,WG_COND_EQUAL,0.1,NULL),r[6]); ck(wg_find_record_double(db,0,WG_COND_EQUAL,0.2,NULL),NULL); ck(wg_find_record_str(db,0,WG_COND_EQUAL,(char*)"s",NULL),r[7]); ck(wg_find_record_str(db,0,WG_COND_EQUAL,(char*)"t",NULL),NULL); { long live=ws_alloc_live; wg_find_record_str(db,0,WG_COND_LESSTHAN,(char*)"t",NULL); wg_find_record_double(db,0,WG_COND_LESSTHAN,2.5,NULL); wg_find_record_int(db,0,WG_COND_LESSTHAN,2000000000,NULL); ws_check(ws_alloc_live==live,"searching keeps no memory"); } ws_reach("typed"); }
#endif
