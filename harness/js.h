/* reference reading of JSON texts, independent of the code under test */
#include "h.h"
#ifndef JDEPTH
#define JDEPTH 7      /* deepest nesting the parser accepts (WG_COMPARE_REC_DEPTH) */
#endif
typedef struct J { int t; /* 'o' 'a' 'i' 'd' 's' 'n' 'b' */ long i; double d; char*s; long sl; int n; struct J*k[40]; char*key[40]; } J;
static J jpool[400]; static int jnn; static char jstr[200000]; static long jsn;
#define JKEYPOS 1
#define JVALPOS 2
double strtod(const char*,char**); long strtol(const char*,char**,int); extern int *__errno_location(void);
static void jws(const char**p){ while(**p==' '||**p=='\n'||**p=='\t'||**p=='\r'||**p=='\v'||**p=='\f') (*p)++; }
static int jhex(int c){ return c>='0'&&c<='9'?c-'0':c>='a'&&c<='f'?c-'a'+10:c>='A'&&c<='F'?c-'A'+10:-1; }
static int jhex4(const char*q){ int v=0,i; for(i=0;i<4;i++){ int h=jhex((unsigned char)q[i]); if(h<0) return -1; v=v*16+h; } return v; }
static void jput(int c){ jstr[jsn++]=(char)c; }
static void jutf(int u){ if(u<0x80) jput(u); else if(u<0x800){ jput(0xC0|(u>>6)); jput(0x80|(u&63)); } else if(u<0x10000){ jput(0xE0|(u>>12)); jput(0x80|((u>>6)&63)); jput(0x80|(u&63)); } else { jput(0xF0|(u>>18)); jput(0x80|((u>>12)&63)); jput(0x80|((u>>6)&63)); jput(0x80|(u&63)); } }
static int jstring(const char**p,char**out,long*len){ const char*q=*p+1; long st=jsn; for(;;){ int c=(unsigned char)*q; if(c==0||c<0x20) return -1; if(c=='"'){ q++; break; } if(c=='\\'){ q++; switch(*q){ case '"': jput('"'); break; case '\\': jput('\\'); break; case '/': jput('/'); break; case 'b': jput(8); break; case 'f': jput(12); break; case 'n': jput(10); break; case 'r': jput(13); break; case 't': jput(9); break; case 'u': { int u=jhex4(q+1); if(u<0) return -1; q+=4; if((u&0xFC00)==0xD800){ if(q[1]=='\\'&&q[2]=='u'){ int l=jhex4(q+3); if(l<0) return -1; q+=6; u=(((u&0x3F)<<10)|((((u>>6)&0xF)+1)<<16)|(l&0x3FF)); } else u='?'; } jutf(u); break; } default: return -1; } q++; continue; } jput(c); q++; } *len=jsn-st; jput(0); *out=jstr+st; *p=q; return 0; }
static int jdig(int c){ return c>='0'&&c<='9'; }
static J*jval(const char**p,int depth){ J*j; jws(p); ws_assert(jnn<400); j=&jpool[jnn++]; j->n=0; 
  if(**p=='{'||**p=='['){ int ob=**p=='{'; char end=ob?'}':']'; j->t=ob?'o':'a'; if(depth>=JDEPTH) return NULL; (*p)++; jws(p); if(**p==end){ (*p)++; return j; } for(;;){ J*e; char*key=NULL; long kl; jws(p); if(ob){ if(**p!='"'||jstring(p,&key,&kl)) return NULL; jws(p); if(**p!=':') return NULL; (*p)++; } e=jval(p,depth+1); if(!e) return NULL; ws_assert(j->n<40); j->key[j->n]=key; j->k[j->n++]=e; jws(p); if(**p==','){ (*p)++; continue; } if(**p==end){ (*p)++; return j; } return NULL; } }
  if(**p=='"'){ j->t='s'; if(jstring(p,&j->s,&j->sl)) return NULL; return j; }
  if(**p=='-'||jdig(**p)){ const char*q=*p; int fl=0; if(*q=='-') q++; if(*q=='0') q++; else if(jdig(*q)){ while(jdig(*q)) q++; } else return NULL; if(*q=='.'){ fl=1; q++; if(!jdig(*q)) return NULL; while(jdig(*q)) q++; } if(*q=='e'||*q=='E'){ fl=1; q++; if(*q=='+'||*q=='-') q++; if(!jdig(*q)) return NULL; while(jdig(*q)) q++; } if(fl){ j->t='d'; j->d=strtod(*p,NULL); } else { j->t='i'; *__errno_location()=0; j->i=strtol(*p,NULL,10); if(*__errno_location()) return NULL; } *p=q; return j; }
  if(!strncmp(*p,"null",4)){ j->t='n'; *p+=4; return j; } if(!strncmp(*p,"true",4)){ j->t='b'; j->i=1; *p+=4; return j; } if(!strncmp(*p,"false",5)){ j->t='b'; j->i=0; *p+=5; return j; }
  return NULL; }
static J*jparse(const char*t){ J*j; const char*p=t; j=jval(&p,0); if(!j) return NULL; jws(&p); if(*p) return NULL; return j; }
/* is the stored value enc the JSON value j? */
static void jcheckrec(void*db,void*rec,J*j);
static void jcheck(void*db,wg_int enc,J*j){ wg_int ty=wg_get_encoded_type(db,enc); switch(j->t){ case 'o': case 'a': ws_check(ty==WG_RECORDTYPE,"a structure is stored as a record"); jcheckrec(db,wg_decode_record(db,enc),j); break; case 'i': ws_check(ty==WG_INTTYPE,"an integer is stored as an integer"); ws_check(wg_decode_int(db,enc)==j->i,"an integer keeps its value"); break; case 'd': { double d; ws_check(ty==WG_DOUBLETYPE,"a number with fraction or exponent is stored as a double"); d=wg_decode_double(db,enc); ws_check(!memcmp(&d,&j->d,8),"a double keeps its value"); break; }
  case 's': ws_check(ty==WG_STRTYPE,"a string is stored as a string"); ws_check(wg_decode_str_len(db,enc)==j->sl,"a string keeps its length"); ws_check(!memcmp(wg_decode_str(db,enc),j->s,j->sl),"a string keeps its text"); break; case 'n': ws_check(ty==WG_NULLTYPE,"null is stored as null"); break; default: ws__fail("value"); } }
static void jcheckrec(void*db,void*rec,J*j){ int i; ws_check(wg_get_record_len(db,rec)==j->n,"a structure has as many elements as the text"); for(i=0;i<j->n;i++){ wg_int e=wg_get_field(db,rec,i); if(j->t=='a') jcheck(db,e,j->k[i]); else { void*kv; wg_int k; ws_check(wg_get_encoded_type(db,e)==WG_RECORDTYPE,"an object consists of pairs"); kv=wg_decode_record(db,e); ws_check(wg_get_record_len(db,kv)==3,"a pair has three fields"); k=wg_get_field(db,kv,JKEYPOS); ws_check(wg_get_encoded_type(db,k)==WG_STRTYPE,"a key is a string"); ws_check((size_t)wg_decode_str_len(db,k)==strlen(j->key[i])&&!strcmp(wg_decode_str(db,k),j->key[i]),"a key keeps its text"); jcheck(db,wg_get_field(db,kv,JVALPOS),j->k[i]); } } }
static int jcount(J*j){ int i,c=0; if(j->t!='o'&&j->t!='a') return 0; c=1+(j->t=='o'?j->n:0); for(i=0;i<j->n;i++) c+=jcount(j->k[i]); return c; }
static int jsame(J*a,J*b){ int i; if(a->t!=b->t) return (a->t=='i'&&b->t=='d'&&(double)a->i==b->d)||(a->t=='d'&&b->t=='i'&&a->d==(double)b->i); switch(a->t){ case 'i': return a->i==b->i; case 'b': return a->i==b->i; case 'n': return 1; case 'd': return a->d==b->d; case 's': return a->sl==b->sl&&!memcmp(a->s,b->s,a->sl); default: if(a->n!=b->n) return 0; for(i=0;i<a->n;i++){ if(a->t=='o'&&strcmp(a->key[i],b->key[i])) return 0; if(!jsame(a->k[i],b->k[i])) return 0; } return 1; } }
/* does document j contain the pair key: v (an element of an array counts as value)? */
static int jhas(J*j,const char*key,J*v){ int i,t; if(j->t!='o'&&j->t!='a') return 0; for(i=0;i<j->n;i++){ if(j->t=='o'&&!strcmp(j->key[i],key)){ if(jsame(j->k[i],v)) return 1; if(j->k[i]->t=='a') for(t=0;t<j->k[i]->n;t++) if(jsame(j->k[i]->k[t],v)) return 1; } if(jhas(j->k[i],key,v)) return 1; } return 0; }
typedef struct { wg_int key; wg_int value; } wg_json_query_arg; wg_query *wg_make_json_query(void *db, wg_json_query_arg *arglist, wg_int argc); wg_int wg_delete_document(void *db, void *document); wg_int wg_parse_json_param(void *db, const char *buf, void **document);
