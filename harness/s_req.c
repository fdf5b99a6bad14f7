/* S04: what the query server does with a request (Server/dserve.c process_query) */
#include "h.h"
#include "dserve.h"
#include <errno.h>
int dserve_main(int,char**); int ws_run_server(int p,struct dserve_global*g){ return 0; }
long ws_syscall_hook(long nr,long a,long b,long c,long d){ errno=ETIMEDOUT; return -1; } /* every wait for a lock times out */
static struct thread_data T; static struct dserve_global G; static struct dserve_conf C; static void*db; 
#define IMG 200000
#define MR 6
/* the reference database: records of two fields, a number and a text or another record */
static struct rec { int live,a,lnk; void*p; long id; char t[8]; } R[MR]; static int nr;
static char X[60000]; static int xn; static void put(const char*s){ while(*s) X[xn++]=*s++; X[xn]=0; } static void putn(long v){ char b[24]; int i=24; unsigned long u=v<0?0UL-(unsigned long)v:(unsigned long)v; b[--i]=0; do b[--i]='0'+u%10; while(u/=10); if(v<0) b[--i]='-'; put(b+i); }
static char Q[4200]; static int qn; static void qs(const char*s){ while(*s) Q[qn++]=*s++; Q[qn]=0; } static void qa(const char*n,const char*v){ if(qn) qs("&"); qs(n); qs("="); qs(v); } static void qi(const char*n,long v){ char b[24]; int i=24; unsigned long u=v<0?0UL-(unsigned long)v:(unsigned long)v; b[--i]=0; do b[--i]='0'+u%10; while(u/=10); if(v<0) b[--i]='-'; qa(n,b+i); }
/* a parameter with any number of d digits */
static long qd(const char*n,int d){ char b[8]; long v=0; int i; for(i=0;i<d;i++){ b[i]=(char)ws_range('0','9',n); v=v*10+(b[i]-'0'); } b[d]=0; qa(n,b); return v; }
static char qsave[4200];
static void make(int n,int vals){ int i; db=wg_attach_database("1000",IMG); ws_assert(db); nr=n; for(i=0;i<n;i++){ struct rec*r=&R[i]; r->p=wg_create_record(db,2); ws_assert(r->p); r->live=1; r->lnk=-1; r->a=vals>1?ws_choose(vals,"a"):i; r->t[0]='t'; r->t[1]='0'+i; r->id=wg_encode_record(db,r->p); ws_assert(wg_set_field(db,r->p,0,wg_encode_int(db,r->a))==0); ws_assert(wg_set_field(db,r->p,1,wg_encode_str(db,r->t,NULL))==0); } }
static void linkr(int i,int j){ ws_assert(wg_set_field(db,R[i].p,1,R[j].id)==0); R[i].lnk=j; }
static void drop_(int i){ ws_assert(wg_delete_record(db,R[i].p)==0); R[i].live=0; }
static int refs(int i){ int j; for(j=0;j<nr;j++) if(R[j].live&&R[j].lnk==i) return 1; return 0; }
static void row(int i,int fmt,int showid,int depth,int lev){ struct rec*r=&R[i]; if(fmt) put("["); if(showid){ putn(r->id); put(","); } putn(r->a); put(","); if(r->lnk<0){ put("\""); put(r->t); put("\""); } else if(fmt&&lev<depth) row(r->lnk,fmt,showid,depth,lev+1); else putn(R[r->lnk].id); if(fmt) put("]"); }
/* the database contains exactly the reference records */
static void same(void){ int i,n=0; void*r; for(r=wg_get_first_record(db);r;r=wg_get_next_record(db,r)){ for(i=0;i<nr;i++) if(R[i].p==r&&R[i].live) break; ws_check(i<nr,"no other record is there"); n++; ws_check(wg_get_record_len(db,r)==2,"a record keeps its length"); ws_check(wg_decode_int(db,wg_get_field(db,r,0))==R[i].a&&wg_get_field_type(db,r,0)==WG_INTTYPE,"a record keeps its number"); if(R[i].lnk<0) ws_check(wg_get_field_type(db,r,1)==WG_STRTYPE&&!strcmp(wg_decode_str(db,wg_get_field(db,r,1)),R[i].t),"a record keeps its text"); else ws_check(wg_get_field(db,r,1)==R[R[i].lnk].id,"a record keeps its reference"); } for(i=0;i<nr;i++) if(R[i].live) n--; ws_check(n==0,"every other record is still there"); }
static int FL=0; /* faults allowed */
static char*run(int post){ char*q,*a; long live=ws_alloc_live; int all=ws_shm_all(),segs=ws_shm_count(); wg_int id; int f=ws_faults_hit; q=malloc(qn+1); ws_assert(q); memcpy(q,Q,qn+1); memcpy(qsave,Q,qn+1); T.isserver=1; T.global=&G; G.conf=&C; T.inbuf=post?q:NULL; T.ip="1.2.3.4"; ws_malloc_faults=FL; a=process_query(q,&T); ws_malloc_faults=0; if(post) ws_check(T.inbuf==NULL,"the posted data are released"); else free(q); ws_check(T.db==NULL,"no database is noted"); ws_check(ws_shm_all()==all,"the database is detached again"); (void)segs; ws_check(ws_alloc_live==live+(a?1:0),"only the answer stays in memory"); ws_check(a!=NULL||ws_faults_hit>f,"a request is answered"); (void)id; return a; }
static void unlocked(void){ wg_int id=wg_start_write(db); ws_check(id!=0,"no lock is left behind"); ws_check(wg_end_write(db,id)!=0,"lock released"); }
static int iserr(const char*a){ return !strncmp(a,"\"ERROR: ",8); }
static void is(const char*a,const char*e){ int i; for(i=0;e[i];i++) if(a[i]!=e[i]) ws__fail("the answer is exactly the expected text"); ws_check(a[i]==0,"the answer ends where expected"); }
static void errs(const char*a,const char*msg){ xn=0; put("\"ERROR: "); put(msg); put("\""); is(a,X); }
static int cmp(int c,long a,long b){ switch(c){ case 0: return a==b; case 1: return a!=b; case 2: return a<b; case 3: return a>b; case 4: return a<=b; default: return a>=b; } }
static const char*CN[]={"equal","not_equal","lessthan","greater","ltequal","gtequal"};
static const char*OPN[]={"count","search","delete","select"};
/* carry out op on the rows ord[0..k-1] and write the expected answer */
static void expect(int op,const int*ord,int k,long from,long count,int fmt,int showid,int depth,const char*jsonp){ int i; long done=0,seen=0,h=0; xn=0; X[0]=0; if(fmt&&jsonp){ put(jsonp); put("("); } if(op==1||op==3){ if(fmt) put("[\n"); } for(i=0;i<k;i++){ if(seen++<from) continue; if(done>=count) break; done++; if(op==0) h++; else if(op==2){ if(!refs(ord[i])){ R[ord[i]].live=0; h++; } } else { if(fmt&&done>1) put(",\n"); row(ord[i],fmt,showid,depth,0); if(!fmt) put("\r\n"); } } if(op==0||op==2) putn(h); else if(fmt) put("\n]"); if(fmt&&jsonp) put(");"); }
#if defined(U_REQ) /* conditions, ranges and operations */
void ws_main(void){ int n=ws_choose(ws_param("recs",3)+1,"records"),i,k=0,op=ws_choose(4,"op"),kind=ws_choose(4,"conditions"),c=0,ord[MR],ex=0; long from=0,count=100000,v=0; char*a; make(n,2); for(i=0;i<n;i++){ R[i].a=R[i].a?5:3; ws_assert(wg_set_field(db,R[i].p,0,wg_encode_int(db,R[i].a))==0); } if(n>=2&&ws_param("links",1)){ i=ws_choose(3,"link"); if(i==1) linkr(0,1); if(i==2) linkr(1,0); } if(n>=3&&ws_choose(2,"gap")&&!refs(1)&&R[1].lnk<0){ drop_(1); }
  qa("op",OPN[op]); if(ws_choose(2,"has from")) from=qd("from",1); if(kind){ c=ws_choose(6,"cond"); ex=c==0?ws_choose(3,"explicit"):1; qa("field","0"); if(ex) qa("compare",CN[c]); v=qd("value",ws_param("digits",1)); if(ex==1) qa("type","int"); if(kind==2){ qa("field","1"); qa("value","t0"); qa("compare","not_equal"); qa("type","str"); } if(kind==3){ qa("field","0"); qa("value","5"); qa("compare","lessthan"); qa("type","int"); } if(ex==0||ex==2) if(kind>1) ws_exit(); } if(ws_choose(2,"has count")) count=qd("count",1); qa("db","1000");
  for(i=0;i<n;i++){ int m=R[i].live; if(kind&&!cmp(c,R[i].a,v)) m=0; if(kind==2&&R[i].lnk<0&&i==0) m=0; if(kind==3&&R[i].a>=5) m=0; if(m) ord[k++]=i; } a=run(ws_choose(2,"post")); expect(op,ord,k,from,count,1,0,100,NULL); is(a,X); free(a); same(); unlocked(); ws_reach("answered"); }
#elif defined(U_FMT) /* formats */
void ws_main(void){ static const char*F[]={NULL,"json","csv","xml"},*S[]={NULL,"yes","no","maybe"},*E[]={NULL,"no","url","json","x"},*J[]={NULL,"f","a.b_c"},*P[]={NULL,"token","_","colour"}; static const long D[]={-1,0,1,2,100}; int f=ws_choose(4,"format"),s=ws_choose(4,"showid"),e=ws_choose(5,"escape"),j=ws_choose(3,"jsonp"),p=ws_choose(4,"param"),d=ws_choose(5,"depth"),op=ws_choose(2,"op"),n=ws_choose(3,"records"),ord[]={0,1,2},bad,l; char*a; make(n,1); if(n>1){ l=ws_choose(4,"link"); if(l==1) linkr(0,1); if(l==2){ linkr(0,1); linkr(1,0); if(d<0||D[d]>2) ws_exit(); } if(l==3) linkr(1,1); if(l==3&&(d<0||D[d]>2)) ws_exit(); } if(J[j]) qa("jsonp",J[j]); qa("op",OPN[op]); if(P[p]) qa(P[p],"y"); if(D[d]>=0) qi("depth",D[d]); if(F[f]) qa("format",F[f]); if(S[s]) qa("showid",S[s]); if(E[e]) qa("escape",E[e]); bad=f==3||s==3||e==4||p==3; if(d==0&&op==0) ws_exit();
  a=run(0); if(bad){ int q=0; if(j){ int m=strlen(J[j]); ws_check(!strncmp(a,J[j],m)&&a[m]=='('&&a[strlen(a)-1]==';'&&a[strlen(a)-2]==')',"an error is given to the function"); q=m+1; } ws_check(iserr(a+q),"an unknown value is refused"); ws_reach("refused"); } else { expect(op,ord,n,0,1000,f!=2,s==1,f==2?0:D[d]<0?100:D[d],J[j]); is(a,X); ws_reach("answered"); } free(a); same(); unlocked(); }
#elif defined(U_IDS) /* lists of record ids */
void ws_main(void){ int n=3,i,m=1+ws_choose(ws_param("ids",3),"n"),op=ws_choose(3,"op"),ct=ws_choose(3,"count"),k=0,ord[8],bad=ws_choose(3,"combined"); char*a; char v[80]; int vn=0; static const long CT[]={-1,0,1}; static const char*JU[]={"0","-7","x","","99999999999999999999","9223372036854775807"}; make(n,1); if(ws_choose(2,"link")) linkr(1,0); else if(ws_choose(2,"gap")) drop_(1);
  for(i=0;i<m;i++){ int w=ws_choose(6,"id"); char b[24]; long id; int q=24; if(i) v[vn++]=','; if(w==5){ const char*s=JU[ws_choose(6,"junk")]; while(*s) v[vn++]=*s++; continue; } if(w==4) id=R[ws_choose(2,"inner")].id+8; else if(w==3){ id=R[0].id-4096; } else { id=R[w].id; if(op==1||op==0){ if(R[w].live) ord[k++]=w; } else if(R[w].live) ord[k++]=w; } b[--q]=0; do b[--q]='0'+id%10; while(id/=10); while(b[q]) v[vn++]=b[q++]; } v[vn]=0;
  qa("op",OPN[op]); qa("recids",v); if(CT[ct]>=0) qi("count",CT[ct]); if(bad==1) qa("field","0"); if(bad==2){ qa("value","1"); ws_exit(); } a=run(0); if(bad){ errs(a,RECIDS_COMBINED_ERR); } else { if(op==2){ /* a record deleted once is gone */ long h=0,c=CT[ct]<0?100000:CT[ct],done=0; for(i=0;i<k;i++){ if(!R[ord[i]].live) continue; if(done>=c) break; done++; if(!refs(ord[i])){ R[ord[i]].live=0; h++; } } xn=0; putn(h); } else expect(op,ord,k,0,CT[ct]<0?100000:CT[ct],1,0,100,NULL); is(a,X); } free(a); same(); unlocked(); ws_reach("answered"); }
#elif defined(U_ANYID) /* any number as a record id or as a value of type record */
void ws_main(void){ int n=2,i,op=ws_choose(3,"op"),how=ws_choose(2,"how"),c=0,d=ws_param("digits",6),at,hit=-1; char*a; char v[24]; long num=0; make(n,1); linkr(1,0); for(i=0;i<d;i++){ v[i]=(char)ws_range('0','9',"digit"); num=num*10+(v[i]-'0'); } v[d]=0; qa("op",OPN[op]); if(how){ c=ws_choose(2,"cond"); qa("field","1"); qa("type","record"); qa("compare",CN[c]); at=qn+7; qa("value",v); } else { at=qn+8; qa("recids",v); } (void)at; a=run(0); for(i=0;i<n;i++) if(num==R[i].id) hit=i;
  if(how){ if(hit<0){ ws_check(iserr(a),"a value that is no record is refused"); ws_reach("refused"); } else { int ord[2],k=0; for(i=0;i<n;i++) if(cmp(c,R[i].lnk==hit,1)) ord[k++]=i; expect(op,ord,k,0,1000,1,0,100,NULL); is(a,X); ws_reach("found"); } } else { int ord[1]; ord[0]=hit; expect(op,ord,hit>=0,0,1000,1,0,100,NULL); is(a,X); ws_reach(hit>=0?"found":"none"); } free(a); same(); unlocked(); }
#elif defined(U_LOCK) /* other users of the database */
void ws_main(void){ int op=ws_choose(4,"op"),w=ws_choose(2,"writer"),many=1+ws_choose(2,"readers"),i,ord[]={0,1},kind=ws_choose(3,"kind"); wg_int l[2]; void*d2; char*a; make(2,1); d2=wg_attach_existing_database("1000"); ws_assert(d2); for(i=0;i<(w?1:many);i++){ l[i]=w?wg_start_write(d2):wg_start_read(d2); ws_assert(l[i]); } qa("op",OPN[op]); if(kind==1){ qa("field","0"); qa("value","5"); qa("compare","lessthan"); qa("type","int"); } if(kind==2){ char b[64]; sprintf(b,"%ld,%ld",R[0].id,R[1].id); qa("recids",b); }
  a=run(0); if(w||op==2){ errs(a,LOCK_ERR); ws_reach("locked"); } else { expect(op,ord,2,0,1000,1,0,100,NULL); is(a,X); ws_reach("shared"); } free(a); same(); for(i=0;i<(w?1:many);i++) ws_check(w?wg_end_write(d2,l[i]):wg_end_read(d2,l[i]),"the lock is still held by its owner"); unlocked(); ws_assert(wg_detach_database(d2)==0); }
#elif defined(U_FAULT) /* failures of memory and attaching anywhere */
void ws_main(void){ int n=1+ws_choose(2,"records"),op=ws_choose(3,"op"),kind=ws_choose(4,"kind"),i,k=0,ord[MR],jp; char*a; make(n,1); FL=ws_param("faults",1); qa("op",OPN[op]); if(kind==1){ qa("field","0"); qa("value","1"); qa("compare","lessthan"); qa("type","int"); } else if(kind==2){ qa("field","1"); qa("value","t0"); } else if(kind==3) qi("recids",R[0].id); for(i=0;i<n;i++) if((kind==0)|((kind==1)&(i<1))|((kind==2)&(i==0))|((kind==3)&(i==0))) ord[k++]=i; jp=ws_choose(2,"jsonp"); if(jp) qa("jsonp","longname"); a=run(ws_choose(2,"post")); { struct rec s[MR]; int e; memcpy(s,R,sizeof R); e=!a; if(a){ const char*b=a; if(jp&&!strncmp(b,"longname(",9)) b+=9; e=iserr(b); } if(e){ ws_check(ws_faults_hit>0,"an error only after a failure"); same(); ws_reach("failed"); } else { expect(op,ord,k,0,100000,1,0,100,jp?"longname":NULL); is(a,X); same(); ws_reach("answered"); } (void)s; } if(a) free(a); unlocked(); }
#elif defined(U_JSONP) /* long names and answers */
void ws_main(void){ static const int L[]={0,1,94,95,96,97,98,99,100,101,500,894,895,896,897,898,899,900,901,902,903,999,1000,1001,1500,1950}; int l=L[ws_choose(sizeof L/sizeof*L,"len")],op=ws_choose(4,"op"),i,n=ws_choose(3,"records"),ord[]={0,1}; static char nm[2001]; char*a; make(n,1); for(i=0;i<l;i++) nm[i]='a'+i%26; qa("jsonp",nm); if(op==3) qa("op","frobnicate"); else qa("op",OPN[op]); a=run(0); if(op==3){ ws_check(!strncmp(a,nm,l)&&a[l]=='(' ,"an error is given to the function"); xn=0; put("(\"ERROR: "); put(UNKNOWN_OP_ERR); put("\");"); is(a+l,X); ws_reach("error"); } else { expect(op,ord,n,0,1000,1,0,100,nm); is(a,X); ws_reach("answered"); } free(a); same(); unlocked(); }
#elif defined(U_MANY) /* answers longer than the buffer */
void ws_main(void){ static const int L[]={3,20,45,46,47,48,49,50,51,52,60,97,98,99,100,101,102,120}; int n=1+ws_choose(ws_param("recs",40),"n"),i,l=L[ws_choose(sizeof L/sizeof*L,"len")],csv=ws_choose(2,"csv"),from=ws_choose(3,"from"); char*a; static char t[130]; db=wg_attach_database("1000",IMG); ws_assert(db); for(i=0;i<l;i++) t[i]='a'+i%26; for(i=0;i<n;i++){ void*r=wg_create_record(db,2); ws_assert(r); wg_set_field(db,r,0,wg_encode_int(db,i)); t[0]='a'+i%26; wg_set_field(db,r,1,wg_encode_str(db,t,NULL)); } qa("op","search"); if(csv) qa("format","csv"); qi("from",from); a=run(0); xn=0; X[0]=0; if(!csv) put("[\n"); for(i=from;i<n;i++){ if(i>from&&!csv) put(",\n"); if(!csv) put("["); putn(i); put(",\""); t[0]='a'+i%26; put(t); put("\""); put(csv?"\r\n":"]"); } if(!csv) put("\n]"); is(a,X); free(a); ws_reach("answered"); }
#elif defined(U_ERR) /* bad requests with arbitrary bytes */
#include "js.h"
void ws_main(void){ int kind=ws_choose(7,"kind"),i,n=1+ws_choose(ws_param("bytes",2),"n"),refused=1; char v[8],*a; J*j; make(1,1); for(i=0;i<n;i++){ v[i]=(char)ws_range(1,255,"byte"); ws_assume(v[i]!='&'); ws_assume(v[i]!='='); ws_assume(v[i]!='%'); } v[n]=0; switch(kind){ case 0: qa("op",v); break; case 1: qa("op","search"); qa(v,"1"); if(n==1&&v[0]=='_') refused=0; break; case 2: qa("op","count"); qa("format",v); break; case 3: qa("op","delete"); qa("escape",v); break; case 4: qa("op","search"); qa("showid",v); if(n==2&&v[0]=='n'&&v[1]=='o') refused=0; break; case 5: qa("op","delete"); qa("field","0"); qa("value","0"); qa("compare",v); break; default: qa("op","delete"); qa("field","0"); qa("value","0"); qa("type",v); break; }
  if(kind==3&&n==2&&v[0]=='n'&&v[1]=='o') ws_exit(); if(kind==1&&n==2&&((v[0]=='d'&&v[1]=='b')||(v[0]=='o'&&v[1]=='p'))) ws_exit(); a=run(0); if(refused){ ws_check(iserr(a),"an unknown word is refused"); ws_reach("refused"); } else ws_check(!iserr(a),"answered"); for(i=0;a[i];i++) ws_check((unsigned char)a[i]>=' '||!refused,"an error is one line of JSON"); j=jparse(a); ws_check(j!=NULL,"an answer is JSON"); if(refused) ws_check(j->t=='s',"an error is a JSON text"); free(a); same(); unlocked(); }
#elif defined(U_BAD) /* malformed requests */
static const char*BQ[]={"","op","op=search&x","search","=","op=","op=search&db=abc","op=search&db=7","db=1000","op=search&field=0","op=search&value=1","op=search&compare=equal","op=search&type=int","op=search&field=x&value=1","op=search&field=-1&value=1","op=search&field=0&value=1&field=1","op=search&field=0&value=1x&type=int","op=delete&field=0&field=0&value=1&value=1&type=int&type=bad","op=delete&field=0&value=0&field=zz&value=1","op=delete&field=0&value=0&field=1&value=1&compare=equal&compare=wrong","op=count&db=2000","op=drop&db=0","op=drop&db=x","op=drop&db=77","op=create&db=","op=create&db=-1","op=delete&field=1&value=abcdefgh&type=str&field=1&value=zzz&type=char&compare=equal&compare=lessthan&field=5"};
void ws_main(void){ int n=sizeof BQ/sizeof*BQ,k=ws_choose(n,"request"); char*a; int segs; make(2,1); qs(BQ[k]); segs=ws_shm_count(); FL=ws_param("faults",0); a=run(ws_choose(2,"post")); if(a){ ws_check(iserr(a),"a malformed request is refused"); free(a); } same(); unlocked(); ws_check(ws_shm_count()==segs,"no database is made or dropped"); ws_reach("refused"); }
#elif defined(U_AUTH) /* which rights a request needs */
static char*LV[8][2]; static void lst(struct sized_strlst*l,int i,char*v){ LV[i][0]=v; l->vals=LV[i]; l->used=v?1:0; l->size=2; }
static const char*AQ[]={"op=count","op=search","op=select&field=0&value=0","op=delete&from=5","op=delete","op=delete&recids=1","op=create&db=2000&size=200000","op=drop&db=1000"};
void ws_main(void){ int k=ws_choose(8,"request"),need=k<3?2:k<6?1:0,tl=ws_choose(2,"by token"),lv=ws_choose(3,"given"),dbs=ws_choose(3,"dbases"),st=ws_choose(2,"stranger"),okay,del=0; char*a; char*who; make(2,1); T.global=&G; G.conf=&C; 
  /* lists of readers, writers and administrators; the request comes from one of them or a stranger */
  if(tl){ lst(&C.admin_tokens,0,"adm"); lst(&C.write_tokens,1,"wri"); lst(&C.read_tokens,2,"rea"); who=st?"zzz":lv==0?"adm":lv==1?"wri":"rea"; qs(AQ[k]); qa("token",who); } else { qs(AQ[k]); lst(lv==0?&C.admin_ips:lv==1?&C.write_ips:&C.read_ips,0,"1.2.3."); if(lv!=0) lst(&C.admin_ips,3,"9."); if(lv!=1) lst(&C.write_ips,4,"9."); if(lv!=2) lst(&C.read_ips,5,"9."); if(st) C.admin_ips.vals[0]=C.write_ips.vals[0]=C.read_ips.vals[0]="8."; } if(dbs) lst(&C.dbases,6,dbs==1?"1000":"3000"); okay=!st&&lv<=need&&(dbs==0||(dbs==1&&k!=6)); a=run(0); del=okay&&k==4; if(okay){ ws_check(!iserr(a),"a permitted request is carried out"); if(del){ R[0].live=R[1].live=0; } ws_check((ws_shm_data(2000)!=NULL)==(k==6),"created as asked"); ws_check((ws_shm_data(1000)==NULL)==(k==7),"dropped as asked"); ws_reach("allowed"); } else { ws_check(iserr(a),"another request is refused"); ws_check(ws_shm_data(2000)==NULL&&ws_shm_data(1000)!=NULL,"no database is made or dropped"); ws_reach("refused"); } free(a); if(!(okay&&k==7)){ same(); unlocked(); } }
#elif defined(U_ADMIN) /* creating and dropping databases */
static char*LV[4][2]; static void lst(struct sized_strlst*l,int i,char*v){ LV[i][0]=v; l->vals=LV[i]; l->used=v?1:0; l->size=2; }
void ws_main(void){ static const char*SZ[]={NULL,"","0","-5","1000","200000","200001","300000","x","2147483648"}; static const long SN[]={0,0,0,0,1000,200000,200001,300000,0,-1}; int s=ws_choose(10,"size"),ex=ws_choose(2,"exists"),mx=ws_choose(2,"max"),df=ws_choose(2,"default"),bs=ws_choose(3,"dbases"),named=ws_choose(2,"named"),key=named?2000:1000,want; long size=SN[s]; char*a; int n0; make(1,1); T.global=&G; G.conf=&C; if(mx) lst(&C.max_dbase_size,0,"200000"); if(df) lst(&C.default_dbase_size,1,"150000"); if(bs) lst(&C.dbases,2,bs==1?"2000":"3000"); if(ex){ void*d=wg_attach_database("2000",180000); ws_assert(d); ws_assert(wg_create_record(d,3)); ws_assert(wg_detach_database(d)==0); } if(s==9) ws_exit(); n0=ws_shm_count();
  FL=ws_param("faults",0); if(ws_choose(2,"drop")){ qa("op","drop"); if(named) qa("db","2000"); if(!named){ ws_exit(); } a=run(0); want=ex&&(bs!=2); if(!a||iserr(a)){ ws_check(!want||ws_faults_hit>0,"an existing database is dropped"); ws_check(ws_shm_count()==n0,"nothing is dropped"); ws_reach("notdropped"); } else { ws_check(want,"dropped only when there is one"); is(a,"1"); ws_check(ws_shm_data(2000)==NULL,"the database is gone"); ws_check(ws_shm_count()==n0-1,"no other"); ws_reach("dropped"); } if(a) free(a); same(); unlocked(); return; }
  qa("op","create"); if(named) qa("db","2000"); if(SZ[s]) qa("size",SZ[s]); a=run(0); if(size<=0) size=df?150000:10000000; want=size<=(mx?200000:1000000000)&&(size>=150000||!named||ex)&&(bs==0||(bs==1&&named)); if(named&&ex) want=want&&size<=180000; if(!named) want=want&&size<=IMG; if(!a||iserr(a)){ ws_check(!want||ws_faults_hit>0,"a database is created when allowed"); ws_check(ws_shm_count()==n0,"nothing is made"); ws_reach("notcreated"); } else { ws_check(want,"created only within the limits"); is(a,"1"); ws_check(ws_shm_data(key)!=NULL,"the database is there"); if(named&&!ex){ void*d=wg_attach_existing_database("2000"); ws_check(ws_shm_size(2000)==size,"it has the size asked for"); ws_check(d!=NULL&&wg_get_first_record(d)==NULL,"it is empty"); wg_detach_database(d); ws_reach("created"); } else ws_check(ws_shm_count()==n0,"an existing database stays"); } if(a) free(a); same(); unlocked(); }
#elif defined(U_CMD) /* command line and cgi use */
static char out[8000]; static int on; static int cgi; static char*env[4]; static const char*body; static long bn; static int op; static char*want; static int k0,longq;
void ws_stdout_hook(const char*s,long n){ ws_assert(on+n<8000); memcpy(out+on,s,n); on+=n; out[on]=0; }
char*ws_getenv_hook(const char*n){ if(!cgi) return NULL; if(!strcmp(n,"REQUEST_METHOD")) return env[0]; if(!strcmp(n,"REMOTE_ADDR")) return "1.2.3.4"; if(!strcmp(n,"QUERY_STRING")) return env[1]; if(!strcmp(n,"CONTENT_LENGTH")) return env[2]; return NULL; }
long ws_stdin_hook(void*p,long n){ long m=n<bn?n:bn; memset(p,'&',n); memcpy(p,body,m); return m; }
typedef void(*sigh)(int); sigh signal(int s,sigh h){ return NULL; } unsigned alarm(unsigned s){ return 0; }
static void finish(void){ char*b=out; if(cgi){ char h[64]; ws_check(!strncmp(b,"Content-Length: ",16),"the length comes first"); b=strstr(out,"\r\n\r\n"); ws_check(b!=NULL,"the headers end"); b+=4; sprintf(h,"Content-Length: %d\r\n",(int)strlen(b)); ws_check(!strncmp(out,h,strlen(h)),"the length is the length of the answer"); } if(want){ int i; for(i=0;want[i];i++) ws_check(b[i]==want[i],"the answer is printed"); ws_check(b[i]=='\n'&&!b[i+1],"and nothing else"); ws_reach("answered"); } else { ws_check(iserr(b),"refused"); ws_reach("refused"); } ws_check(ws_shm_all()==1,"the database is detached"); same(); unlocked(); }
void ws_exit_hook(int c){ finish(); }
void ws_main(void){ static const int L[]={0,1500,1999,2000,2001,5000}; int l=L[ws_choose(6,"len")],how=ws_choose(4,"how"),ord[]={0,1}; char*argv[3]; static char big[5200]; op=ws_choose(3,"op"); make(2,1); qa("op",OPN[op]); if(ws_choose(2,"ids")){ if(op==2) qi("recids",R[0].id); else qi("recids",R[0].id); k0=1; } else k0=2; if(l){ qs("&_="); while(qn<l) Q[qn++<4190?qn-1:4190]='x'; if(qn>4190) qn=4190; Q[qn]=0; l=qn; } memcpy(big,Q,qn+1); expect(op,ord,k0,0,1000,1,0,100,NULL); want=X; if(qn>=MAXQUERYLEN){ want=NULL; if(op==2){ int i; for(i=0;i<2;i++) R[i].live=1; } } argv[0]="dserve"; argv[2]=NULL; if(how==0){ char*q=malloc(qn+1); memcpy(q,Q,qn+1); argv[1]=q; dserve_main(2,argv); } else { cgi=1; if(how==1){ char*q=malloc(qn+1); memcpy(q,Q,qn+1); env[0]="GET"; env[1]=q; } else { static char cl[16]; env[0]="POST"; sprintf(cl,"%d",qn+(how==3?7:0)); env[2]=cl; body=big; bn=qn; } argv[1]=NULL; dserve_main(1,argv); } finish(); }
#endif
