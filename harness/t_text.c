/* T01, T02: values as text, text as values */
#include "h.h"
int ws_file_put(const char*,const void*,unsigned long); unsigned char*ws_file_data(const char*); long ws_file_size(const char*);
static void*db;
#ifdef U_PRINT /* every kind of value into buffers of every size */
static char big[3000];
static wg_int val(int k,const char*s){ static char q[400]; void*r,*t; int i; switch(k){
 case 0: return wg_encode_null(db,0); case 1: return wg_encode_int(db,0); case 2: return wg_encode_int(db,-9223372036854775807L-1); case 3: return wg_encode_int(db,123456789012L);
 case 4: return wg_encode_double(db,1.25); case 5: return wg_encode_double(db,-1e300); case 6: return wg_encode_fixpoint(db,-12.5);
 case 7: return wg_encode_str(db,s,NULL); case 8: for(i=0;i<300;i++) q[i]='a'+i%26; q[300]=0; return wg_encode_str(db,q,"en"); case 9: return wg_encode_uri(db,s,NULL); case 10: return wg_encode_uri(db,s,"http://x/");
 case 11: return wg_encode_xmlliteral(db,s,"xsd:string"); case 12: return wg_encode_char(db,s[0]?s[0]:'x'); case 13: return wg_encode_date(db,733773); case 14: return wg_encode_date(db,8000000); case 15: return wg_encode_time(db,8639999);
 case 16: return wg_encode_var(db,77); case 17: return wg_encode_blob(db,"\001\002\003",NULL,3); case 18: return wg_encode_anonconst(db,"an_anonymous_constant");
 case 19: r=wg_create_record(db,0); return wg_encode_record(db,r);
 case 20: r=wg_create_record(db,3); wg_set_field(db,r,0,wg_encode_int(db,1)); wg_set_field(db,r,1,wg_encode_str(db,s,NULL)); return wg_encode_record(db,r);
 case 21: r=wg_create_record(db,2); wg_set_field(db,r,0,wg_encode_record(db,r)); wg_set_field(db,r,1,wg_encode_record(db,r)); return wg_encode_record(db,r); /* refers to itself */
 case 22: r=wg_create_record(db,1); for(i=0;i<6;i++){ t=wg_create_record(db,2); wg_set_field(db,t,1,wg_encode_record(db,r)); wg_set_field(db,t,0,wg_encode_str(db,s,NULL)); r=t; } return wg_encode_record(db,r);
 default: r=wg_create_record(db,150); return wg_encode_record(db,r); } }
#define NKIND 24
void ws_main(void){ int k,len,i; long n; char s[8],*b; wg_int e; db=newdb(DBSIZE); k=ws_choose(NKIND,"kind"); len=ws_choose(4,"len"); ws_assume(len==0||k==7||k==9||k==10||k==11||k==12||k==20||k==22); for(i=0;i<len;i++){ s[i]=k>=9&&k<=11?"a\"\xff"[ws_choose(3,"byte")]:(char)ws_u(8,"c"); ws_assume(s[i]!=0); } s[len]=0;
  e=val(k,s); ws_assert(e!=WG_ILLEGAL); n=ws_choose(ws_param("sizes",60)+4,"size"); if(n>=ws_param("sizes",60)){ static const int more[]={100,255,256,2000}; n=more[n-ws_param("sizes",60)]; ws_assume(n<=100||k!=21); }
  b=malloc(n?n:1); if(n==0) b[0]=0; wg_snprint_value(db,e,b,(int)n);
  if(n==0) ws_check(b[0]==0,"a buffer of no size is left alone"); else { for(i=0;i<n&&b[i];i++); ws_check(i<n,"printed text is terminated"); 
    wg_snprint_value(db,e,big,k==21?100:(int)sizeof big); { int l=strlen(big); if(k<19){ ws_check(i<=l&&memcmp(b,big,i)==0,"a small buffer receives the beginning of the text"); if(n>=l+2) ws_check(i==l,"a sufficient buffer receives the whole text"); } else if(n>=l+2&&k!=21&&k!=23&&k!=22) ws_check(i==l&&memcmp(b,big,l)==0,"a sufficient buffer receives the whole text"); }
    if(k==2) ws_check(strcmp(big,"-9223372036854775808")==0,"an integer prints as its digits"); if(k==3) ws_check(strcmp(big,"123456789012")==0,"an integer prints as its digits"); if(k==7){ ws_check(big[0]=='"'&&big[len+1]=='"'&&big[len+2]==0&&memcmp(big+1,s,len)==0,"a text prints quoted"); } if(k==9) ws_check(strcmp(big,s)==0,"a URI prints as itself"); if(k==13) ws_check(strcmp(big,"<raw date 733773>2010-01-01")==0,"a date prints as a date"); if(k==15) ws_check(strcmp(big,"<raw time 8639999>23:59:59.99")==0,"a time prints as a time"); }
  if(k>=19) wg_print_record(db,wg_decode_record(db,e)); ws_reach("printed"); }
#endif
#if defined(U_TYPE)||defined(U_MUT)
#include <errno.h>
static int dig(char c){ return c>='0'&&c<='9'; }
/* what the text denotes, decided independently */
static int triple(const char*t,int first,char sep,int frac,int*v){ int i,k; const char*p=t; v[3]=0; for(i=0;i<3;i++){ if(i){ if(*p!=sep) return 0; p++; } v[i]=0; for(k=0;dig(*p);k++,p++) { if(k>=4) return 0; v[i]=v[i]*10+(*p-'0'); } if(k<1||k>(i?2:first)) return 0; } if(frac&&*p=='.'){ p++; for(k=0;dig(*p);k++,p++) if(k<2) v[3]+=(*p-'0')*(k?1:10); } return *p==0; }
static void judge(const char*t,wg_int e,int param){ int v[4],i,pt=0,ok=1,neg=0,of=0; unsigned long a=0; long d; wg_int ty; ws_check(e!=WG_ILLEGAL,"every text has a value"); ty=wg_get_encoded_type(db,e);
  if(!t[0]){ ws_check(ty==WG_NULLTYPE,"no text is no value"); ws_reach("null"); return; }
  if(triple(t,4,'-',0,v)&&(d=wg_ymd_to_date(db,v[0],v[1],v[2]))>=0){ ws_check(ty==WG_DATETYPE&&wg_decode_date(db,e)==d,"a date is that date"); ws_reach("date"); return; }
  if(triple(t,2,':',1,v)&&(d=wg_hms_to_time(db,v[0],v[1],v[2],v[3]))>=0){ ws_check(ty==WG_TIMETYPE&&wg_decode_time(db,e)==d,"a time is that time"); ws_reach("time"); return; }
  i=0; if(t[0]=='-'){ neg=1; i=1; } if(!dig(t[i])) ok=0; for(;ok&&t[i];i++){ if(t[i]=='.'){ if(pt) ok=0; pt=1; } else if(!dig(t[i])) ok=0; else if(!pt){ unsigned long n=a*10+(t[i]-'0'); if(a>922337203685477580UL||n>9223372036854775807UL+neg) of=1; a=n; } }
  if(ok&&!pt&&!of){ ws_check(ty==WG_INTTYPE&&wg_decode_int(db,e)==(neg?(wg_int)(0UL-a):(wg_int)a),"a whole number is that number"); ws_reach("int"); return; }
  if(ok&&strlen(t)>79&&ty==WG_STRTYPE){ ws_check(strcmp(wg_decode_str(db,e),t)==0,"any other text is itself"); return; } /* too long for a number */
  if(ok&&pt){ double x; ws_check(ty==WG_DOUBLETYPE,"a decimal number is a number"); x=wg_decode_double(db,e); ws_check(x==strtod(t,NULL),"a decimal number has its value"); ws_reach("double"); return; }
  ws_check(ty==WG_STRTYPE&&strcmp(wg_decode_str(db,e),t)==0,"any other text is itself"); ws_reach("str"); (void)param; }
static char T[100];
void ws_main(void){ int i,n; wg_int e; db=newdb(DBSIZE);
#ifdef U_TYPE
  n=ws_choose(ws_param("len",4)+1,"length"); for(i=0;i<n;i++){ T[i]=(char)ws_u(8,"c"); ws_assume(T[i]!=0); } T[n]=0;
#else
  { static const char*base[]={"2010-01-31","999-12-1","2012-2-29","2011-02-29","12:30:45.67","1:2:3","23:59:59.9","24:00:00","12345678901234567890","-9223372036854775808","9223372036854775807","9223372036854775808","-9223372036854775809","0.5","-12.75","100000000000000000000.5","00012","1e5","0x10","--5","1-1","12:00","7","-","123456789012345678901234567890123456789012345678901234567890123456789012345678","0.00000000000000000000000000000000000000000000000000000000000000000000000000001"};
    int c=ws_choose((int)(sizeof base/sizeof*base),"base"),m=ws_param("muts",1); strcpy(T,base[c]); n=strlen(T);
    for(i=0;i<m;i++){ int how=ws_choose(4,"how"),at; if(how==0) continue; if(how==1){ at=n; } else at=ws_choose(n<12?n:12,"at"); if(at>0&&n>12&&how!=1&&at>=6) at=n-12+at; /* the ends of long ones */
      if(how==1||how==3){ int k; for(k=n;k>=at;k--) T[k+1]=T[k]; n++; } { char x; int cl=ws_choose(c<8?11:5,"class"); if(cl==0&&c>=24) x="x.- e"[ws_choose(5,"other")]; else if(cl==0){ x=(char)ws_u(8,"c"); ws_assume(x<'0'||x>'9'); } else x=(c<8?"0123456789":"0589")[cl-1]; ws_assume(x!=0); if(how==2||how==1||how==3) T[at]=x; } } }
#endif
  errno=ws_choose(2,"errno")?ERANGE:0;
  if(ws_choose(2,"param")){ e=wg_parse_and_encode_param(db,T); judge(T,e,1); ws_check(wg_free_query_param(db,e)==0||wg_get_encoded_type(db,e)==WG_NULLTYPE,"the parameter is released"); } else { e=wg_parse_and_encode(db,T); judge(T,e,0); } }
#endif
#ifdef U_CSV /* what is exported comes back */
static wg_int fld(void*d,int k,const char*s){ static char q[80]; int i; switch(k){ case 0: return wg_encode_null(d,0); case 1: return wg_encode_int(d,-5); case 2: return wg_encode_int(d,-9223372036854775807L-1); case 3: return wg_encode_int(d,1L<<40); case 4: return wg_encode_str(d,s,NULL); case 5: return wg_encode_double(d,-12.75); case 6: return wg_encode_date(d,733773); case 7: return wg_encode_time(d,4512345); case 8: for(i=0;i<60;i++) q[i]=i%5?'a'+i%7:i%3?'"':','; q[60]=0; return wg_encode_str(d,q,NULL); case 9: return wg_encode_uri(d,s,NULL); case 10: return wg_encode_uri(d,s,"urn:"); case 11: return wg_encode_xmlliteral(d,s,"xsd:x"); default: return wg_encode_char(d,s[0]); } }
#define NK 13
#define MAXF 24
void ws_main(void){ void*d2; int nrec=1+ws_choose(ws_param("recs",2),"records"),i,j,symbolic=0; static int kind[4][MAXF],nf[4]; static char S[8]; void*r; int sl=1+ws_choose(ws_param("len",2),"len"); db=newdb(300000); d2=newdb(300000);
  
#ifdef U_ANY
  for(i=0;i<sl;i++){ S[i]=(char)ws_u(8,"c"); ws_assume(S[i]!=0); }
#else
  for(i=0;i<sl;i++) S[i]="\",\n\ra \xff;"[ws_choose(i?3:8,"c")];
#endif
   S[sl]=0; ws_assume(!((S[0]>='0'&&S[0]<='9')||S[0]=='-')); (void)symbolic;
  for(i=0;i<nrec;i++){ int c=ws_choose(3,"fields"),any=0; nf[i]=c==0?1:c==1?2:i==0&&!ws_param("few",0)?21:2; r=wg_create_record(db,nf[i]); ws_assert(r!=NULL); for(j=0;j<nf[i];j++){ kind[i][j]=j<2?ws_choose(NK,"kind"):j%NK;
#ifdef U_ANY
      ws_assume(kind[i][j]<=4||kind[i][j]==12||j>=2);
#endif
      any|=kind[i][j]!=0; ws_assert(wg_set_field(db,r,j,fld(db,kind[i][j],S))==0); } ws_assume(any); }
  wg_export_db_csv(db,"t.csv"); ws_check(wg_import_db_csv(d2,"t.csv")==0,"the exported file is imported"); ws_check(nrecords(d2)==nrec,"as many records come back");
  r=wg_get_first_record(d2); for(i=0;i<nrec;i++){ ws_check(wg_get_record_len(d2,r)==nf[i],"a record has as many fields"); for(j=0;j<nf[i];j++){ wg_int e=wg_get_field(d2,r,j),o; int k=kind[i][j]; static char u[16]; 
      if(k<=8){ o=fld(d2,k,S); ws_check(e==o||WG_COMPARE(d2,e,o)==WG_EQUAL,"a field has its value"); }
      else { if(k==10){ strcpy(u,"urn:"); strcat(u,S); } else { strcpy(u,S); if(k==12) u[1]=0; } ws_check(wg_get_encoded_type(d2,e)==WG_STRTYPE&&strcmp(wg_decode_str(d2,e),u)==0,"a text of another kind comes back as text"); } }
    r=wg_get_next_record(d2,r); } ws_reach("back"); }
#endif
#ifdef U_LINES /* any text without quotes: one record per line, one field per separator */
void ws_main(void){ static char t[64],f[64]; int n=ws_choose(ws_param("len",5)+1,"length"),i,q=0,c; void*r; static const char ab[]={',','\n','\r','a','5','-'}; db=newdb(300000); (void)c;
  for(i=0;i<n;i++){ if(i<ws_param("any",1)){ t[i]=(char)ws_u(8,"c"); ws_assume(t[i]!='"'&&t[i]!=0); } else t[i]=ab[ws_choose(6,"c")]; }
  ws_file_put("t.csv",t,n); ws_check(wg_import_db_csv(db,"t.csv")==0,"the file is imported"); r=wg_get_first_record(db);
  for(i=0;i<n;){ int e=i,len=0,k,fl=0,j; char line[64]; while(e<n&&t[e]!='\n') e++; for(k=i;k<e;k++) if(t[k]!='\r') line[len++]=t[k]; i=e+1; if(!len) continue; line[len]=0;
    ws_check(r!=NULL,"every line becomes a record"); for(k=0;k<=len;k++) fl+=k==len||line[k]==','; ws_check(wg_get_record_len(db,r)==fl,"a line has a field for every separator");
    for(k=0,j=0;j<fl;j++){ int x=0; wg_int a,b; while(k<len&&line[k]!=',') f[x++]=line[k++]; f[x]=0; k++; a=wg_get_field(db,r,j); b=wg_parse_and_encode(db,f); ws_check(a==b||WG_COMPARE(db,a,b)==WG_EQUAL,"a field is what its text denotes"); }
    r=wg_get_next_record(db,r); q++; }
  ws_check(r==NULL,"nothing else becomes a record"); ws_reach("lines"); }
#endif
