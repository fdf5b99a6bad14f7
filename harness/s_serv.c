/* S01-S03: the query server's request decoding, answers and authorisation (Server/dserve_util.c) */
#include "h.h"
#include "dserve.h"
int dserve_main(int,char**);
struct dserve_global; int ws_run_server(int p,struct dserve_global*g){ return 0; }
static struct thread_data T; static struct dserve_global G; static struct dserve_conf C; 
static char *xdup(const char*s,unsigned long n){ char*p=malloc(n); ws_assert(p); memcpy(p,s,n); return p; }
static int hexv(int c){ return c>='0'&&c<='9'?c-'0':c>='a'&&c<='f'?c-'a'+10:c>='A'&&c<='F'?c-'A'+10:-1; }
/* reference decoding of percent escapes up to n bytes or a zero byte */
static int refdec(const char*s,int n,char*o){ int i=0,k=0; while(i<n&&s[i]){ if(s[i]=='%'&&i+2<n&&hexv((unsigned char)s[i+1])>=0&&hexv((unsigned char)s[i+2])>=0){ o[k++]=(char)(hexv((unsigned char)s[i+1])*16+hexv((unsigned char)s[i+2])); i+=3; } else o[k++]=s[i++]; } o[k]=0; return k; }
#if defined(U_DEC) /* every text */
void ws_main(void){ int n=ws_choose(ws_param("max",6)+1,"n"),i,inpl=ws_choose(2,"inplace"),k; static char s[16]; char o[16],*a,*b,*r; for(i=0;i<n;i++) s[i]=(char)ws_range(1,255,"byte"); a=xdup(s,n+1); b=inpl?a:malloc(n+1); if(!inpl) b[0]=0; r=urldecode(b,a); k=refdec(s,n,o); ws_check(r==b,"the decoded text is returned"); for(i=0;i<=k;i++) if(b[i]!=o[i]) ws__fail("a text is decoded to exactly the encoded bytes"); ws_reach("decoded"); }
#elif defined(U_HEX) /* every escape */
void ws_main(void){ static const char HU[]="0123456789ABCDEF",HL[]="0123456789abcdef"; char s[8]="x%00y"; int v=(int)ws_range(1,255,"v"); int u1=ws_choose(2,"case1"),u2=ws_choose(2,"case2"); s[2]=(u1?HU:HL)[v>>4]; s[3]=(u2?HU:HL)[v&15]; urldecode(s,s); ws_check(s[0]=='x'&&(unsigned char)s[1]==v&&s[2]=='y'&&s[3]==0,"an escaped byte is decoded"); ws_reach("hex"); }
#elif defined(U_QUERY) /* every request over a small alphabet */
static const char AL[]="a=&%4";
void ws_main(void){ int n=ws_choose(ws_param("max",7)+1,"n"),i,j,r,k=0,bad=0,skip=0; static char s[16]; char*q; char**pa,**va; int ps[16],pe[16],vs[16],ve[16]; for(i=0;i<n;i++) s[i]=AL[ws_choose(5,"c")]; q=xdup(s,n+1);
  for(i=0;i<n;){ int p=i; while(i<n&&s[i]!='='){ if(s[i]=='&') skip=1; i++; } if(i>=n){ bad=1; break; } ps[k]=p; pe[k]=i; i++; vs[k]=i; while(i<n&&s[i]!='&') i++; ve[k]=i; i++; k++; }
  if(skip) ws_exit(); /* a name with & in it: not specified */
  pa=malloc(MAXPARAMS*sizeof(char*)); va=malloc(MAXPARAMS*sizeof(char*)); r=parse_query(q,n,pa,va); if(bad){ ws_check(r==-1,"a request with a name without a value is refused"); ws_reach("refused"); return; } ws_check(r==k,"a request has as many parameters as pairs"); for(j=0;j<k;j++){ char o[16]; refdec(s+ps[j],pe[j]-ps[j],o); ws_check(!strcmp(pa[j],o),"the name of a parameter"); refdec(s+vs[j],ve[j]-vs[j],o); ws_check(!strcmp(va[j],o),"the value of a parameter"); } ws_reach("split"); }
#elif defined(U_QANY) /* arbitrary bytes in names and values */
void ws_main(void){ int n1=1+ws_choose(2,"n1"),v1=ws_choose(4,"v1"),n2=1+ws_choose(2,"n2"),v2=ws_choose(3,"v2"),i,k=0,r,tail=ws_choose(2,"tail"); char s[24],nm[2][4],vl[2][8],o[16]; char*pa[MAXPARAMS],*va[MAXPARAMS],*q; 
#define ANY(dst,n,name) for(i=0;i<n;i++){ char c=(char)ws_range(1,255,name); ws_assume(c!='='); ws_assume(c!='&'); s[k++]=dst[i]=c; } dst[n]=0;
  ANY(nm[0],n1,"a") s[k++]='='; ANY(vl[0],v1,"b") s[k++]='&'; ANY(nm[1],n2,"c") s[k++]='='; ANY(vl[1],v2,"d") if(tail) s[k++]='&'; s[k]=0; q=xdup(s,k+1); r=parse_query(q,k,pa,va); ws_check(r==2,"two pairs"); refdec(nm[0],n1,o); ws_check(!strcmp(pa[0],o),"first name"); refdec(vl[0],v1,o); ws_check(!strcmp(va[0],o),"first value"); refdec(nm[1],n2,o); ws_check(!strcmp(pa[1],o),"second name"); refdec(vl[1],v2,o); ws_check(!strcmp(va[1],o),"second value"); ws_reach("two"); }
#elif defined(U_QMANY) /* the number of parameters */
void ws_main(void){ int n=95+ws_choose(10,"n"),i,r; char*q=malloc(6*n+1); char**pa=malloc(MAXPARAMS*sizeof(char*)),**va=malloc(MAXPARAMS*sizeof(char*)); for(i=0;i<n;i++){ q[6*i]='p'; q[6*i+1]='0'+i/10%10; q[6*i+2]='='; q[6*i+3]='0'+i%10; q[6*i+4]='x'; q[6*i+5]='&'; } q[6*n]=0; r=parse_query(q,6*n,pa,va); if(n>MAXPARAMS){ ws_check(r==-1,"too many parameters are refused"); ws_reach("refused"); return; } ws_check(r==n,"all parameters are found"); for(i=0;i<n;i++) ws_check(pa[i][0]=='p'&&pa[i][1]=='0'+i/10%10&&!pa[i][2]&&va[i][0]=='0'+i%10&&va[i][1]=='x'&&!va[i][2],"parameter"); ws_reach("many"); }
#elif defined(U_VAL) /* values of a request */
static const char*V[]={"0","7","00012","2147483647","2147483648","4294967297","9223372036854775807","1.5","12.","0.25","4294967296.5","abc","1a","1.2.3","-5","12 "," 12","-","x y","4.e"};
static const int TY[]={0,WG_NULLTYPE,WG_INTTYPE,WG_RECORDTYPE,WG_DOUBLETYPE,WG_STRTYPE,WG_CHARTYPE,WG_URITYPE,WG_DATETYPE};
void ws_main(void){ void*db=newdb(300000); int t=TY[ws_choose(9,"type")],sym=ws_choose(2,"sym"),i,dig,dots,n; char b[40]; wg_int e,et; if(sym){ n=1+ws_choose(ws_param("digits",3),"n"); for(i=0;i<n;i++) b[i]=(char)ws_range(1,255,"c"); b[n]=0; } else strcpy(b,V[ws_choose(sizeof V/sizeof*V,"v")]); dig=1; dots=0; for(i=0;b[i];i++){ if(b[i]>='0'&&b[i]<='9') continue; dig=0; if(b[i]=='.') dots++; else dots=2; } 
  ws_check((isint(b)!=0)==dig,"a number is digits only"); ws_check((isdbl(b)!=0)==(dots<=1),"a decimal number is digits and at most one point"); if(sym&&!dig&&dots<=1) ws_exit(); e=encode_invalue(db,b,t);
  if(t==WG_URITYPE||t==WG_DATETYPE||((t==WG_INTTYPE||t==WG_RECORDTYPE)&&!dig)||(t==WG_DOUBLETYPE&&dots>1)){ ws_check(e==WG_ILLEGAL,"a value that does not fit its type is refused"); ws_reach("refused"); return; }
  if(t==WG_RECORDTYPE){ ws_check(e==strtol(b,NULL,10),"the number of a record"); ws_reach("rec"); return; } if(sym&&t==WG_DOUBLETYPE) ws_exit(); ws_check(e!=WG_ILLEGAL,"a value is accepted"); et=wg_get_encoded_type(db,e);
  if(t==WG_NULLTYPE) ws_check(et==WG_NULLTYPE,"null"); else if(t==WG_INTTYPE||(t==0&&dig)){ ws_check(et==WG_INTTYPE,"an integer"); ws_check(wg_decode_int(db,e)==strtol(b,NULL,10),"an integer of a request keeps its value"); } else if(t==WG_DOUBLETYPE||(t==0&&dots<=1)){ double d=strtod(b,NULL),f; ws_check(et==WG_DOUBLETYPE,"a decimal"); f=wg_decode_double(db,e); ws_check(!memcmp(&d,&f,8),"a decimal of a request keeps its value"); } else if(t==WG_CHARTYPE) ws_check(et==WG_CHARTYPE&&wg_decode_char(db,e)==b[0],"a character"); else { ws_check(et==WG_STRTYPE,"a text"); ws_check(!strcmp(wg_decode_str(db,e),b),"a text keeps its bytes"); } if(t!=WG_NULLTYPE) wg_free_query_param(db,e); ws_reach("value"); }
#elif defined(U_COND) /* names of comparisons and types */
void ws_main(void){ static const char*N[]={"equal","not_equal","lessthan","greater","ltequal","gtequal"}; static const wg_int CV[]={WG_COND_EQUAL,WG_COND_NOT_EQUAL,WG_COND_LESSTHAN,WG_COND_GREATER,WG_COND_LTEQUAL,WG_COND_GTEQUAL}; static const char*TN[]={"null","int","record","double","str","char"}; static const wg_int TV[]={WG_NULLTYPE,WG_INTTYPE,WG_RECORDTYPE,WG_DOUBLETYPE,WG_STRTYPE,WG_CHARTYPE}; int i,k=ws_choose(6,"k"),p; char b[16]; strcpy(b,N[k]); ws_check(encode_incomp(NULL,b)==CV[k],"a comparison is known by its name"); p=ws_choose(strlen(b)+1,"at"); { char c=(char)ws_range(0,255,"c"); char o=b[p]; ws_assume(c!=o); b[p]=c; b[p+1]=p+1<=(int)strlen(N[k])?N[k][p+1]:0; if(c) { if(o==0) b[p+1]=0; } for(i=0;i<6;i++) if(!strcmp(b,N[i])) ws_exit(); if(b[0]) ws_check(encode_incomp(NULL,b)==BAD_WG_VALUE,"another name is refused"); }
  strcpy(b,TN[k]); ws_check(encode_intype(NULL,b)==TV[k],"a type is known by its name"); b[0]=(char)ws_range(1,255,"d"); for(i=0;i<6;i++) if(!strcmp(b,TN[i])) ws_exit(); ws_check(encode_intype(NULL,b)==BAD_WG_VALUE,"another type is refused"); ws_check(encode_incomp(NULL,NULL)==WG_COND_EQUAL&&encode_intype(NULL,NULL)==0,"no name is the default"); b[0]=0; ws_check(encode_incomp(NULL,b)==WG_COND_EQUAL&&encode_intype(NULL,b)==0,"an empty name is the default"); ws_reach("cond"); }
#elif defined(U_SPACE) /* the answer buffer grows */
static const int BS[]={1,100,101,1000,4096}, ND[]={1,99,100,101,200,999,1000,1001,5000,70000,99000000,100000000,100000001,2147483647};
void ws_main(void){ int bs=BS[ws_choose(5,"size")],us,nd=ND[ws_choose(14,"needed")],i,r,f; static const int US[]={0,1,50,99,100,900,999,1000,4095}; char keep[4096]; long live; us=US[ws_choose(9,"used")]; if(us>bs) ws_exit(); live=ws_alloc_live; ws_malloc_limit=ws_param("limit",1L<<21); ws_malloc_faults=ws_choose(2,"fault"); { int mf=ws_malloc_faults; ws_malloc_faults=0; T.buf=str_new(bs); ws_malloc_faults=mf; } ws_assert(T.buf); ws_check(T.buf[bs-1]==0,"the buffer ends with zero"); T.bufsize=bs; for(i=0;i<us;i++) keep[i]=T.buf[i]=(char)(i*7+1); T.bufptr=T.buf+us; f=ws_faults_hit; ws_last_request=0;
  r=str_guarantee_space(&T,nd); ws_check(T.bufptr-T.buf==us,"the place to write stays"); for(i=0;i<us;i++) if(T.buf[i]!=keep[i]) ws__fail("the text so far is kept");
  if(r){ ws_check(T.bufsize-us>=nd,"there is as much room as asked for"); if(ws_last_request) ws_check(ws_last_request>=(unsigned long)T.bufsize,"the memory is as large as noted"); for(i=0;i<nd&&i<80000;i++) T.bufptr[i]='x'; if(nd>1){ T.bufptr[nd-1]='y'; } ws_reach("room"); } else { ws_check(ws_faults_hit>f||(long)us+nd>ws_malloc_limit/4,"refused only for lack of memory"); ws_reach("none"); T.buf[0]=1; } free(T.buf); ws_check(ws_alloc_live==live,"the buffer is released once"); }
#elif defined(U_STR) /* every text and escaping */
void ws_main(void){ int n=ws_choose(ws_param("max",3)+1,"n"),enc=ws_choose(4,"escape"),i,k=0,p,q,blob=ws_choose(2,"blob"); static char s[8]; char*o=malloc(6*n+3),*in; char d[16]; for(i=0;i<n;i++) s[i]=(char)ws_range(blob?0:1,255,"byte"); in=xdup(s,n+1); if(blob) sprint_blob(o,n,in,enc); else sprint_string(o,n,in,enc); q=strlen(o)-1; ws_check(q>=1&&o[0]=='"'&&o[q]=='"',"a text is quoted");
  for(p=1;p<q;p++){ unsigned char c=o[p]; if(blob||enc==1){ ws_check(c>=' '&&c<127&&c!='"'&&c!='\\',"only plain characters"); if(c=='%'){ int a=hexv((unsigned char)o[p+1]),b=hexv((unsigned char)o[p+2]); ws_check(p+2<q&&a>=0&&b>=0,"an escape is complete"); d[k++]=a*16+b; p+=2; } else d[k++]=c; } else if(enc==0) d[k++]=c; else if(enc==3){ if(c=='"'){ ws_check(p+1<q&&o[p+1]=='"',"a quote is doubled"); p++; } d[k++]=c; } else { ws_check(c>=' '&&c!='"',"special characters are escaped"); if(c=='\\'){ ws_check(p+1<q,"an escape is complete"); c=o[++p]; if(c=='u'){ ws_check(p+4<q&&o[p+1]=='0'&&o[p+2]=='0'&&hexv((unsigned char)o[p+3])>=0&&hexv((unsigned char)o[p+4])>=0,"a numeric escape"); d[k++]=hexv((unsigned char)o[p+3])*16+hexv((unsigned char)o[p+4]); p+=4; } else if(c=='b') d[k++]=8; else if(c=='f') d[k++]=12; else if(c=='n') d[k++]=10; else if(c=='r') d[k++]=13; else if(c=='t') d[k++]=9; else { ws_check(c=='"'||c=='\\'||c=='/',"a known escape"); d[k++]=c; } } else d[k++]=c; } }
  ws_check(k==n,"reading the text back gives as many bytes"); for(i=0;i<n;i++) ws_check(d[i]==s[i],"reading the text back gives the text"); ws_reach("text"); }
#elif defined(U_REC) /* records of any values */
static char ex[200000]; static int en; static void put(const char*s){ while(*s) ex[en++]=*s++; } static void putn(long v){ char b[24]; int i=24,neg=v<0; unsigned long u=neg?0UL-(unsigned long)v:(unsigned long)v; b[--i]=0; do b[--i]='0'+u%10; while(u/=10); if(neg) b[--i]='-'; put(b+i); }
static void esc(const char*s,int n,int e){ static const char*H="0123456789abcdef"; int i; for(i=0;i<n;i++){ unsigned char c=s[i]; if(e==0) ex[en++]=c; else if(e==3){ if(c=='"') ex[en++]=c; ex[en++]=c; } else if(e==1){ if(c<' '||c=='%'||c=='"'||c=='\\'||c>126){ ex[en++]='%'; ex[en++]=H[c>>4]; ex[en++]=H[c&15]; } else ex[en++]=c; } else { const char*p; static const char A[]="\b\n\r\t\f\"\\/",B[]="bnrtf\"\\/"; if((p=memchr(A,c,8))){ ex[en++]='\\'; ex[en++]=B[p-A]; } else if(c<' '){ put("\\u00"); ex[en++]=H[c>>4]; ex[en++]=H[c&15]; } else ex[en++]=c; } } }
#define NK 17
static const char*TXT[]={"","plain","a\"b\\c/d","\x01\n\t\x1f\x7f","100% \xc3\xb5","@:,","\"","\\"};
static char LONGT[4200];
static wg_int K[NK]; static char bl[]={1,0,'"','\\','a',0,(char)200};
static void val(void*db,int k,int e){ switch(k){ case 0: put(e==3?"":"[]"); break; case 1: put("-9000000000"); break; case 2: put("7"); break; case 3: put("\""); esc("plain",5,e); put("\""); break; case 4: put("\""); esc(TXT[2],strlen(TXT[2]),e); put("@"); esc("en\"",3,e); put("\""); break; case 5: put("\""); esc(LONGT,4100,e); put("\""); break; case 6: put("\""); esc(TXT[3],strlen(TXT[3]),e); put("\""); break; case 7: put("\""); esc("x\"",2,e); put(":"); esc("y\\\"",3,e); put("\""); break; case 8: put("\""); esc("ty\"",3,e); put(":"); esc("<a b=\"c\">",9,e); put("\""); break; case 9: put("\""); esc("\"",1,e); put("\""); break; case 10: put("\""); esc(bl,7,1); put("\""); break; case 11: put("\"2026-11-19\""); break; case 12: put("\"10:20:30.40\""); break; case 13: put("\"?5\""); break; case 14: put("1.5"); break; case 15: put("\""); esc("longlang",8,e); put("@"); esc(LONGT,300,e); put("\""); break; case 16: put("\""); esc(TXT[4],strlen(TXT[4]),e); put("\""); break; } }
void ws_main(void){ void*db=newdb(400000); static const int E[]={2,1,0,3}; int i,n=ws_param("fields",2),e=E[ws_choose(4,"escape")],sid=ws_choose(2,"showid"),used,r,bs; void*rec; wg_int (*enc)(void)=NULL; int k[4]; static const int BS[]={100,101,130,1000}; int lim=ws_param("faults",0); (void)enc; for(i=0;i<4199;i++) LONGT[i]="\x01\"ab\\"[i%5]; rec=wg_create_record(db,n); ws_assert(rec);
  for(i=0;i<n;i++){ wg_int v; char lng[301]; memcpy(lng,LONGT,300); lng[300]=0; switch(k[i]=ws_choose(NK,"kind")){ case 0: v=wg_encode_null(db,0); break; case 1: v=wg_encode_int(db,-9000000000L); break; case 2: v=wg_encode_int(db,7); break; case 3: v=wg_encode_str(db,"plain",NULL); break; case 4: v=wg_encode_str(db,(char*)TXT[2],"en\""); break; case 5: { char*t=xdup(LONGT,4101); t[4100]=0; v=wg_encode_str(db,t,NULL); break; } case 6: v=wg_encode_str(db,(char*)TXT[3],NULL); break; case 7: v=wg_encode_uri(db,"y\\\"","x\""); break; case 8: v=wg_encode_xmlliteral(db,"<a b=\"c\">","ty\""); break; case 9: v=wg_encode_char(db,'"'); break; case 10: v=wg_encode_blob(db,bl,NULL,7); break; case 11: v=wg_encode_date(db,wg_ymd_to_date(db,2026,11,19)); break; case 12: v=wg_encode_time(db,wg_hms_to_time(db,10,20,30,40)); break; case 13: v=wg_encode_var(db,5); break; case 14: v=wg_encode_double(db,1.5); break; case 15: v=wg_encode_str(db,"longlang",lng); break; default: v=wg_encode_str(db,(char*)TXT[4],NULL); break; } ws_assert(v!=WG_ILLEGAL); ws_assert(wg_set_field(db,rec,i,v)==0); }
  bs=BS[ws_choose(4,"bufsize")]; used=ws_choose(3,"used"); used=used==0?0:used==1?bs-1:bs; T.buf=str_new(bs); T.bufsize=bs; T.bufptr=T.buf+used; for(i=0;i<used;i++) T.buf[i]='#'; T.db=db; T.format=e!=3; T.strenc=e; T.showid=sid; T.depth=0; T.maxdepth=0; ws_malloc_faults=lim; r=sprint_record(db,rec,&T); if(!r){ ws_check(ws_faults_hit>0,"an answer fails only for lack of memory"); free(T.buf); ws_reach("failed"); return; }
  for(i=0;i<used;i++) put("#"); if(e!=3) put("["); if(sid) putn(wg_encode_record(db,rec)); for(i=0;i<n;i++){ if(i||sid) put(","); val(db,k[i],e); } if(e!=3) put("]"); ws_check(T.bufptr-T.buf==en,"the answer is as long as the record"); ws_check(T.bufptr-T.buf<=T.bufsize,"the answer stays within its buffer"); for(i=0;i<en;i++) if(T.buf[i]!=ex[i]) ws__fail("the answer is the record"); free(T.buf); ws_reach("answer"); }
#elif defined(U_NUM) /* integers */
void ws_main(void){ void*db=newdb(300000); void*rec=wg_create_record(db,1); static const long L[]={0,-1,2147483647L,2147483648L,-2147483648L,-2147483649L,4294967295L,4294967296L,9223372036854775807L,-9223372036854775807L-1,536870911L,1000000000000L}; long v=ws_choose(2,"sym")?L[ws_choose(12,"v")]:ws_range(-999,999,"n"); char*e; ws_assert(wg_set_field(db,rec,0,wg_encode_int(db,v))==0); T.buf=str_new(100); T.bufsize=100; T.bufptr=T.buf; T.format=1; T.strenc=2; ws_assert(sprint_record(db,rec,&T)); *T.bufptr=0; ws_check(T.buf[0]=='['&&strtol(T.buf+1,&e,10)==v&&e>T.buf+1&&!strcmp(e,"]"),"an integer is answered in full"); ws_reach("int"); }
#elif defined(U_NEST) /* records in records */
static char ex[100000]; static int en; static void*R[3]; static int link3[3]; static void*DB;
static void put(const char*s){ while(*s) ex[en++]=*s++; } static void num(long v){ char b[24]; int i=24; b[--i]=0; do b[--i]='0'+v%10; while(v/=10); put(b+i); }
static void show(int r,int d,int md){ put("["); num(r); put(","); if(link3[r]<0) put("[]"); else if(d>=md) num(wg_encode_record(DB,R[link3[r]])); else show(link3[r],d+1,md); put("]"); }
void ws_main(void){ void*db=DB=newdb(300000); int i,md=ws_choose(ws_param("depth",6),"depth"),r,f=ws_choose(2,"fault"); for(i=0;i<3;i++){ R[i]=wg_create_record(db,2); wg_set_field(db,R[i],0,wg_encode_int(db,i)); } for(i=0;i<3;i++){ link3[i]=ws_choose(4,"link")-1; if(link3[i]>=0) wg_set_field(db,R[i],1,wg_encode_record(db,R[link3[i]])); } T.buf=str_new(100); T.bufsize=100; T.bufptr=T.buf; T.db=db; T.format=1; T.strenc=2; T.maxdepth=md; ws_malloc_faults=f; r=sprint_record(db,R[0],&T); if(!r){ ws_check(ws_faults_hit>0,"an answer fails only for lack of memory"); ws_reach("failed"); return; } ws_check(ws_faults_hit==0,"lack of memory is reported"); show(0,0,md); ws_check(T.depth==0,"the depth is restored"); ws_check(T.bufptr-T.buf==en,"length"); for(i=0;i<en;i++) if(T.buf[i]!=ex[i]) ws__fail("records are shown to the given depth"); ws_reach("nested"); }
#elif defined(U_AUTH) /* every address, token, database and configuration */
static char ST[16][4]; static int sn; static char*any(const char*nm){ char*p=ST[sn++]; p[0]=(char)ws_range(0,255,nm); p[1]=(char)ws_range(0,255,nm); p[2]=0; return p; }
static char*vals[7][3]; static void lst(struct sized_strlst*l,int i,int n){ int j; l->vals=vals[i]; l->used=n; l->size=3; for(j=0;j<n;j++){ vals[i][j]=any("entry"); ws_assume(vals[i][j][0]!=0); } }
static int eq(const char*a,const char*b){ return a[0]==b[0]&&(!a[0]||a[1]==b[1]); } static int pre(const char*l,const char*s){ return l[0]==s[0]&&(!l[1]||l[1]==s[1]); }
static int okl(struct sized_strlst*l,const char*s,int exact){ int j; if(!l->used) return 1; if(!s||!s[0]) return 0; for(j=0;j<l->used;j++) if(exact?eq(l->vals[j],s):pre(l->vals[j],s)) return 1; return 0; }
void ws_main(void){ int two=ws_param("two",0),sz[7],i,level,r,w; char*db,*tok; for(i=0;i<7;i++) sz[i]=two?(i==two-1?2:ws_choose(2,"n")):ws_choose(2,"n"); T.global=&G; G.conf=&C; lst(&C.dbases,0,sz[0]); lst(&C.admin_ips,1,sz[1]); lst(&C.write_ips,2,sz[2]); lst(&C.read_ips,3,sz[3]); lst(&C.admin_tokens,4,sz[4]); lst(&C.write_tokens,5,sz[5]); lst(&C.read_tokens,6,sz[6]); i=ws_choose(3,"as"); T.isserver=i==0; T.iscgi=i==1; T.ip=ws_choose(2,"noip")?NULL:any("ip"); tok=ws_choose(2,"notok")?NULL:any("token"); db=ws_choose(2,"nodb")?NULL:any("db"); level=ws_choose(3,"level"); r=authorize(level,&T,db,tok);
  if(i==2) w=1; else { int ip=okl(&C.admin_ips,T.ip,0),tk=okl(&C.admin_tokens,tok,1); if(level!=ADMIN_LEVEL){ ip=ip|okl(&C.write_ips,T.ip,0); tk=tk|okl(&C.write_tokens,tok,1); } if(level==READ_LEVEL){ ip=ip|okl(&C.read_ips,T.ip,0); tk=tk|okl(&C.read_tokens,tok,1); } w=(db==NULL||okl(&C.dbases,db,1))&ip&tk; }
  ws_check((r!=0)==(w!=0),"access is granted exactly by the configuration"); ws_reach("decided"); }
#elif defined(U_CONF) /* configuration files */
static const struct { const char*t; int key; const char*val; } L[]={{"admin_ips=127.0.0.1",1,"127.0.0.1"},{"# admin_ips=9",0,NULL},{"  10.0",-1,"10.0"},{"\t10.1 # more",-1,"10.1"},{"read_tokens = secret # note",2,"secret"},{"",0,NULL},{"   ",0,NULL},{" # only",0,NULL},{"[part]",0,NULL},{"dbases=",3,NULL},{"just words",0,NULL},{"admin_tokens=a=b",4,"a=b"},{"dbases=1000\r",3,"1000"},{"  x\r",-1,"x"}};
#define NL 14
static struct sized_strlst*lof(int k){ return k==1?&C.admin_ips:k==2?&C.read_tokens:k==3?&C.dbases:&C.admin_tokens; }
void ws_main(void){ int n=1+ws_choose(ws_param("lines",3),"n"),i,cur=0,fin=ws_choose(2,"final newline"),cnt[5]={0,0,0,0,0},j; const char*want[5][8]; static char f[400]; int fn=0; for(i=0;i<n;i++){ int l=ws_choose(NL,"line"); memcpy(f+fn,L[l].t,strlen(L[l].t)); fn+=strlen(L[l].t); if(i<n-1||fin) f[fn++]='\n'; if(L[l].key>0) cur=L[l].key; if(L[l].val&&(L[l].key>0||cur>0)) want[cur][cnt[cur]++]=L[l].val; } if(fn==0) ws_exit(); ws_file_put("conf.txt",f,fn); ws_check(load_configuration("conf.txt",&C)==0,"a configuration is read");
  for(i=1;i<=4;i++){ struct sized_strlst*l=lof(i); ws_check(l->used==cnt[i],"each list has as many values as configured"); for(j=0;j<cnt[i];j++) ws_check(!strcmp(l->vals[j],want[i][j]),"each list has the values configured"); } ws_check(!C.write_ips.used&&!C.read_ips.used&&!C.write_tokens.used&&!C.default_dbase.used&&!C.max_dbase_size.used,"other lists are empty"); ws_check(ws_files_open()==0,"the file is closed"); ws_reach("conf"); }
#elif defined(U_CONFANY) /* every ending of a file, in a buffer of any fill */
void ws_main(void){ static char f[1100]; int fill=ws_choose(2,"fill"),n=0,k=ws_param("n",3),i,at; struct sized_strlst*l=&C.read_ips; if(fill){ int tot=997+ws_choose(3,"tot"); while(n<tot-k-10){ f[n++]='#'; } f[n++]='\n'; } at=n; memcpy(f+n,"read_ips=",9); n+=9; for(i=0;i<k;i++) f[n++]=(char)ws_range(0,255,"byte"); for(i=at+9;i<n;i++) ws_assume(f[i]!='='); ws_file_put("conf.txt",f,n); ws_check(load_configuration("conf.txt",&C)==0,"read"); ws_check(l->used<=k,"no more values than bytes"); for(i=0;i<l->used;i++){ char*v=l->vals[i]; ws_check(strlen(v)>=1&&strlen(v)<=(size_t)k,"a value is not longer than its line"); } ws_reach("any"); }
#elif defined(U_CONFBIG) /* large files and many values */
void ws_main(void){ static char f[600000]; static const int SZ[]={999,1000,1001,1999,2000,2001,255999,256000,511999,512000,512001,590000}; int n=SZ[ws_choose(12,"size")],i,k=0,r; const char*e="\nwrite_tokens=tok\n"; for(i=0;i<n;i++) f[i]=(i%100==99)?'\n':'#'; memcpy(f+n-strlen(e),e,strlen(e)); ws_file_put("conf.txt",f,n); r=load_configuration("conf.txt",&C); ws_check(r==0,"a large configuration is read"); ws_check(C.write_tokens.used==1&&!strcmp(C.write_tokens.vals[0],"tok"),"its last line counts"); (void)k; ws_reach("big"); }
#elif defined(U_CONFMANY)
void ws_main(void){ static char f[4000]; int n=1+ws_choose(9,"n")*5,i,k; k=sprintf(f,"dbases=0\n"); for(i=1;i<n;i++) k+=sprintf(f+k,"  %d\n",i); ws_file_put("conf.txt",f,k); ws_malloc_faults=0; ws_check(load_configuration("conf.txt",&C)==0,"read"); ws_check(C.dbases.used==n,"all values are kept"); for(i=0;i<n;i++) ws_check(atoi(C.dbases.vals[i])==i,"in order"); ws_reach("many"); }
#endif
