/* J01 J02: reading and writing documents */
#include "js.h"
static void*db; static char out[60000]; static long on;
static void out_cb(void*c,const char*s,size_t n){ ws_assert(c==(void*)out); ws_assert(on+(long)n<(long)sizeof out); memcpy(out+on,s,n); on+=n; }
void wg_print_json_document(void *db, void *cb, void *cb_ctx, void *document);
/* stored as the text says, printed as stored */
static void round1(const char*t,int file){ J*j=jparse(t),*k; void*d=NULL; ws_check(j!=NULL,"the text is JSON"); if(file){ ws_file_put("in.json",t,strlen(t)); ws_check(wg_parse_json_file(db,"in.json")==0,"a JSON file is read"); { void*r=wg_get_first_record(db); int found=0; while(r){ if(wg_get_record_len(db,r)==j->n) d=r; /* the document is the last record made */ found=1; d=r; r=wg_get_next_record(db,r); } ws_check(found,"a document is stored"); } } else ws_check(wg_parse_json_document(db,(char*)t,&d)==0,"JSON is accepted"); ws_check(d!=NULL,"a document is stored"); if(!file) jcheckrec(db,d,j); ws_check(nrecords(db)==jcount(j),"a document has a record for each structure and pair");
  if(file){ void*r=wg_get_first_record(db); int ok=0; while(r){ on=0; wg_print_json_document(db,(void*)out_cb,out,r); if(on){ d=r; ok++; } r=wg_get_next_record(db,r); } ws_check(ok==1,"one document is stored"); jcheckrec(db,d,j); }
  on=0; wg_print_json_document(db,(void*)out_cb,out,d); out[on]=0; k=jparse(out); ws_check(k!=NULL,"the printed text is JSON"); ws_check(k->t==j->t&&jsame(j,k),"the printed text means what the document holds"); }
#ifdef U_STRUCT /* all small structures */
static char txt[4000]; static int tn; static void put(const char*s){ strcpy(txt+tn,s); tn+=strlen(s); }
static void gen(int depth,int top){ int t=ws_choose(top?2:depth>=ws_param("depth",3)?5:7,"type"); static const char*ATOM[]={"1","\"s\"","-2.5","null","\"\""}; if(!top&&t<5){ put(ATOM[t]); return; } if(!top) t-=5; { int n=ws_choose(ws_param("width",3),"n"),i; put(t?"[":"{"); for(i=0;i<n;i++){ if(i) put(","); if(!t) put(i==0?"\"a\":":i==1?"\"\" : ":"\"a\":"); gen(depth+1,0); } put(t?"]":"}"); } }
void ws_main(void){ db=newdb(400000); gen(1,1); round1(txt,0); ws_reach("struct"); }
#endif
#ifdef U_NUM
void ws_main(void){ static const char*N[]={"0","-0","1","-1","536870911","2147483647","2147483648","-2147483648","-2147483649","4294967296","1152921504606846975","1152921504606846976","-1152921504606846977","9223372036854775807","-9223372036854775808","9223372036854775806","0.0","0.1","1e300","1E-7","1.5e+3","123456789.123456789","2.2250738585072014e-308","1.7976931348623157e308","3.0","-1e22","5e-324","100000000000000000000.5","9007199254740993.0"}; char t[100]; const char*n=N[ws_choose(29,"number")]; int w=ws_choose(3,"where"); db=newdb(400000); strcpy(t,w==0?"[":w==1?"{\"k\":":"[1,"); strcat(t,n); strcat(t,w==1?"}":"]"); round1(t,0); ws_reach("num"); }
#endif
#ifdef U_STR /* strings of arbitrary characters */
void ws_main(void){ char t[200]; int n=0,i,len=ws_param("len",2),key=ws_choose(2,"key"); static const char H[]="0123456789aBcDeF"; db=newdb(400000); strcpy(t,key?"{\"":"[\""); n=strlen(t); 
  for(i=0;i<len;i++){ switch(ws_choose(6,"class")){ case 0: { int c=(int)ws_range(0x20,0x7f,"ascii"); ws_assume(c!='"'&&c!='\\'); t[n++]=(char)c; break; } case 1: { t[n++]='\\'; t[n++]="\"\\/bfnrt"[ws_choose(8,"esc")]; break; } case 2: { int c=(int)ws_range(1,0xff,"u"); int h=ws_choose(3,"hi"); c=(int)ws_concretize(c); t[n++]='\\'; t[n++]='u'; t[n++]=h==2?'2':'0'; t[n++]=h==1?'f':'0'; t[n++]=H[c>>4]; t[n++]=H[c&15]; break; } case 3: t[n++]=(char)ws_range(0xC2,0xDF,"l2"); t[n++]=(char)ws_range(0x80,0xBF,"c2"); break; case 4: t[n++]=(char)0xE2; t[n++]=(char)ws_range(0x80,0xBF,"c3"); t[n++]=(char)ws_range(0x80,0xBF,"c4"); break; default: { strcpy(t+n,"\\ud83d\\ude00"); n+=12; break; } } }
  t[n++]='"'; strcpy(t+n,key?":1}":"]"); round1(t,0); ws_reach("str"); }
#endif
#ifdef U_LONG /* long strings, keys, many elements, texts around the reading chunk */
void ws_main(void){ static char t[40000]; int k=ws_choose(5,"kind"),i,n=0; db=newdb(4000000); if(k<2){ static const int L[]={0,30,31,32,33,78,79,80,81,127,128,300,5000}; int l=L[ws_choose(13,"len")]; strcpy(t,k?"{\"":"[\""); n=2; for(i=0;i<l;i++) t[n++]=(char)('a'+i%26); strcpy(t+n,k?"\":[\"v\"]}":"\"]"); }
  else if(k==2){ int m=ws_choose(4,"n")*13; t[n++]='['; for(i=0;i<m;i++){ if(i) t[n++]=','; t[n++]=(char)('0'+i%10); } t[n++]=']'; t[n]=0; }
  else { static const int P[]={16382,16383,16384,16385,32767,32768,32769}; int p=P[ws_choose(7,"size")],w=ws_choose(3,"where"); strcpy(t,w==2?"[\"":"["); n=strlen(t); while(n<p-(w==0?8:w==1?2:2)) t[n++]=w==2?'x':' '; if(w==0) strcpy(t+n,"\"ab\",12]"); else if(w==1) strcpy(t+n,"1]"); else strcpy(t+n,"\"]"); ws_check((int)strlen(t)==p,"template"); if(k==4){ ws_check(wg_check_json(db,t)==0,"the checker accepts JSON"); } }
  round1(t,k==3||(k<3&&ws_choose(2,"file"))); ws_reach("long"); }
#endif
#ifdef U_DEPTH
void ws_main(void){ char t[200]; char st[20]; int n=0,i,d=1+ws_choose(9,"depth"),mix=ws_choose(4,"mix"); void*doc=NULL; db=newdb(400000); for(i=0;i<d;i++){ int o=mix==0?0:mix==1?1:mix==2?i&1:ws_choose(2,"obj"); st[i]=(char)o; strcpy(t+n,o?"{\"k\":":"["); n=strlen(t); } strcpy(t+n,"7"); n++; for(i=d-1;i>=0;i--) t[n++]=st[i]?'}':']'; t[n]=0;
  if(wg_check_json(db,t)==0){ round1(t,ws_choose(2,"file")); ws_reach("deep"); } else { ws_check(d>6,"nesting within the limit is accepted"); ws_file_put("in.json",t,strlen(t)); ws_check(wg_parse_json_file(db,"in.json")!=0,"what the checker refuses is not read"); ws_check(nrecords(db)==0,"what the checker refuses leaves nothing"); if(wg_parse_json_document(db,t,&doc)==0){ J*j; ws_check(d<=7,"nesting beyond the limit is refused"); j=jparse(t); ws_assert(j!=NULL); jcheckrec(db,doc,j); } ws_reach("toodeep"); } }
#endif
#ifdef U_BAD /* all short texts: accepted exactly when they are JSON */
static int shallow(const char*t){ int d=0,m=0,s=0; for(;*t;t++){ if(s){ if(*t=='\\'&&t[1]) t++; else if(*t=='"') s=0; } else if(*t=='"') s=1; else if(*t=='['||*t=='{'){ if(++d>m) m=d; } else if(*t==']'||*t=='}') d--; } return m<=6; }
static int has_true(J*j){ int i; if(j->t=='b') return 1; for(i=0;(j->t=='o'||j->t=='a')&&i<j->n;i++) if(has_true(j->k[i])) return 1; return 0; }
void ws_main(void){ char t[40]; int n=0,i,len=ws_param("len",4),k=ws_choose(6,"frame"); J*j; void*d=NULL,*r; wg_int rc; static const char*PRE[]={"","[","{\"a\":","[1,","{","[\""}; static const char*POST[]={"","]","}","]","}","\"]"};
  db=newdb(200000); r=wg_create_record(db,2); ws_assert(!wg_set_str_field(db,r,0,(char*)"kept")); ws_assert(!wg_set_int_field(db,r,1,5)); strcpy(t,PRE[k]); n=strlen(t); if(k&&len>ws_param("inner",3)) len=ws_param("inner",3); len=(int)ws_range(0,len,"length"); len=(int)ws_concretize(len); for(i=0;i<len;i++){ unsigned char c=(unsigned char)ws_u(8,"c"); ws_assume(c!=0&&c<0x80&&c!='/'); t[n++]=(char)c; } strcpy(t+n,POST[k]);
  j=jparse(t); rc=wg_check_json(db,t); if(j&&(j->t=='o'||j->t=='a')&&shallow(t)&&!has_true(j)) ws_check(rc==0,"the checker accepts JSON"); else if(!j||(j->t!='o'&&j->t!='a')) ws_check(rc!=0,"the checker refuses what is not a JSON structure");
  if(rc==0&&!has_true(j)){ ws_check(wg_parse_json_document(db,t,&d)==0,"a text the checker accepts parses"); jcheckrec(db,d,j); ws_reach("good"); } 
  else if(rc){ if(j==NULL||(j->t!='o'&&j->t!='a')){ if(ws_choose(2,"file")){ ws_file_put("in.json",t,strlen(t)); ws_check(wg_parse_json_file(db,"in.json")!=0,"a file that is not JSON is refused"); ws_check(nrecords(db)==1,"a file that is refused leaves nothing"); } else if(!j) ws_check(wg_parse_json_document(db,t,&d)!=0,"a text that is not JSON is refused"); } ws_reach("bad"); }
  { wg_int e=wg_get_field(db,r,0); ws_check(wg_get_encoded_type(db,e)==WG_STRTYPE&&!strcmp(wg_decode_str(db,e),"kept")&&wg_decode_int(db,wg_get_field(db,r,1))==5&&wg_get_record_len(db,r)==2,"records stored before stay"); ws_check(wg_create_record(db,3)!=NULL,"the database remains usable"); } }
#endif
#ifdef U_CUT /* a text cut anywhere, and trailing text, in chunks */
void ws_main(void){ static const char T[]=" {\"a\":[1,-2.5e1,\"x\\u0041y\",null],\"b\":{\"c\":{}}} "; char t[80]; int n=strlen(T),c; void*d=NULL; db=newdb(200000); strcpy(t,T); c=ws_choose(n+1,"cut"); if(ws_choose(2,"tail")){ static const char*TAIL[]={"{}","1",",","]","}","\"","x"," \n\t","-","[1]"}; int k=ws_choose(10,"what"); strcat(t,TAIL[k]); ws_check((wg_check_json(db,t)==0)==(k==7),"text after the document is refused"); ws_file_put("in.json",t,strlen(t)); ws_check((wg_parse_json_file(db,"in.json")==0)==(k==7),"text after the document is refused"); ws_check((nrecords(db)==0)==(k!=7),"a refused file leaves nothing"); ws_check((wg_parse_json_document(db,t,&d)==0)==(k==7),"text after the document is refused"); }
  else { t[c]=0; ws_check((wg_check_json(db,t)==0)==(c>=n-1),"a cut text is refused"); ws_file_put("in.json",t,c); ws_check((wg_parse_json_file(db,"in.json")==0)==(c>=n-1),"a cut file is refused"); ws_check((nrecords(db)==0)==(c<n-1),"a refused file leaves nothing"); ws_check((wg_parse_json_document(db,t,&d)==0)==(c>=n-1),"a cut text is refused"); ws_check(wg_parse_json_file(db,"missing.json")!=0,"a missing file is an error"); ws_check(ws_files_open()==0,"files are closed"); } ws_reach("cut"); }
#endif
