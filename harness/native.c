/* Native side of ws.h: replays a solver model. */
#define WS_NO_REDIRECT
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <ucontext.h>
#include "ws.h"
static FILE*in; static const char*prm;
static unsigned long next(const char*nm){ char line[512]; while(in && fgets(line,sizeof line,in)){ char*p; if(line[0]=='#'||line[0]=='\n') continue; p=strrchr(line,' '); if(!p) continue; return strtoul(p+1,NULL,16); } return 0; }
static unsigned long msk(unsigned w){ return w>=64?~0UL:(1UL<<w)-1; }
void ws_sym(void*p,unsigned long n,const char*nm){ unsigned long i; for(i=0;i<n;i++) ((unsigned char*)p)[i]=(unsigned char)next(nm); }
unsigned long ws_u(unsigned long w,const char*nm){ return next(nm)&msk(w); }
long ws_range(long lo,long hi,const char*nm){ unsigned long v=next(nm); return lo+(long)v; }
int ws_choose(long n,const char*nm){ unsigned long v=next(nm); return (int)v; }
long ws_concretize(long v){ return v; }
void ws_assume(long c){ if(!c){ fprintf(stderr,"WS-ASSUME not satisfied\n"); fflush(0); _Exit(78); } }
void ws__assert(long c,const char*m){ if(!c){ fprintf(stderr,"WS-ASSERT %s\n",m); fflush(0); _Exit(77); } }
void ws__fail(const char*m){ ws__assert(0,m); }
void ws_reach(const char*n){}
void ws_exit(void){ fflush(0); _Exit(0); }
long ws_param(const char*nm,long d){ const char*p=getenv("WS_PARAMS"); size_t n=strlen(nm); while(p&&*p){ if(!strncmp(p,nm,n)&&p[n]=='=') return strtol(p+n+1,NULL,0); p=strchr(p,','); if(p)p++; } return d; }
void ws_dedup(void){}
long ws_issym(long v){ return 0; }
void ws_print(const char*m,...){ if(getenv("WGSYM_PRINT")) { va_list ap; va_start(ap,m); fprintf(stderr,"%s %lx %lx\n",m,va_arg(ap,long),va_arg(ap,long)); va_end(ap);} }
#define NCO 16
static ucontext_t ctx[NCO]; static int nco=1,curco=0,live[NCO]={1}; static void(*fns[NCO])(void*); static void*args[NCO];
static void tramp(int id){ fns[id](args[id]); live[id]=0; curco=0; setcontext(&ctx[0]); }
int ws_co_new(void(*fn)(void*),void*a){ int id=nco++; fns[id]=fn; args[id]=a; live[id]=1; getcontext(&ctx[id]); ctx[id].uc_stack.ss_sp=malloc(1<<20); ctx[id].uc_stack.ss_size=1<<20; ctx[id].uc_link=NULL; makecontext(&ctx[id],(void(*)(void))tramp,1,id); return id; }
void ws_co_switch(int id){ int me=curco; if(id==me) return; curco=id; swapcontext(&ctx[me],&ctx[id]); }
int ws_co_self(void){ return curco; }
int ws_co_live(int id){ return id<nco&&live[id]; }
int main(int c,char**v){ if(c>1) in=fopen(v[1],"r"); ws_main(); fflush(0); _Exit(0); }
