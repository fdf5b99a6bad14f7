/* S05: connections and HTTP requests (Server/dserve_net.c). The sockets are models: what a client sends arrives in pieces, what the server sends is recorded. */
#include "h.h"
#include "dserve.h"
#include <errno.h>
#include <sys/socket.h>
#include <netinet/in.h>
int dserve_main(int,char**); int ws_run_server(int p,struct dserve_global*g){ return 0; } void*handle_http(void*);
long ws_syscall_hook(long nr,long a,long b,long c,long d){ errno=ETIMEDOUT; return -1; }
#define NC 128
static struct conn { const char*in; int n,pos; char out[4000]; int on,size,open,shut,closed,fail; } K[NC]; static int nk;
static int PIECES,INTR,SENDF; /* may messages come in pieces, be interrupted, may sending fail */
static struct conn*cof(int fd){ ws_assert(fd>=1000&&fd<1000+nk); return &K[fd-1000]; }
ssize_t recv(int fd,void*b,size_t n,int fl){ struct conn*c=cof(fd); int m; ws_check(!c->closed,"a closed connection is not read"); if(INTR>0&&ws_choose(2,"interrupted")){ INTR--; errno=EINTR; return -1; } m=c->n-c->pos; if(m==0) return c->fail?(errno=ECONNRESET,-1):0; if((size_t)m>n) m=n; if(PIECES>0&&m>1&&ws_choose(2,"piece")){ PIECES--; m=1; } memcpy(b,c->in+c->pos,m); c->pos+=m; return m; }
ssize_t send(int fd,const void*b,size_t n,int fl){ struct conn*c=cof(fd); ws_check(!c->closed&&!c->shut,"a closed connection is not written"); if(INTR>0&&ws_choose(2,"interrupted")){ INTR--; errno=EINTR; return -1; } if(SENDF>0&&ws_choose(2,"broken")){ SENDF--; c->fail=2; errno=EPIPE; return -1; } if(PIECES>0&&n>1&&ws_choose(2,"part")){ PIECES--; n=n/2; } ws_assert(c->on+(long)n<4000); memcpy(c->out+c->on,b,n); c->on+=n; c->out[c->on]=0; return n; }
int shutdown(int fd,int how){ struct conn*c=cof(fd); if(c->shut) return -1; c->shut=1; return 0; }
int ws_close_hook(int fd){ struct conn*c=cof(fd); ws_check(!c->closed,"a connection is closed once"); c->closed=1; return 0; }
int getpeername(int fd,struct sockaddr*a,socklen_t*l){ struct sockaddr_in s; memset(&s,0,sizeof s); s.sin_family=AF_INET; s.sin_port=0x1234; s.sin_addr.s_addr=0x04030201; memcpy(a,&s,sizeof s); *l=sizeof s; return 0; }
const char*inet_ntop(int af,const void*a,char*d,socklen_t n){ strcpy(d,"1.2.3.4"); return d; }
#undef ntohs
#undef htons
#undef ntohl
#undef htonl
uint16_t ntohs(uint16_t x){ return (uint16_t)((x>>8)|(x<<8)); } uint16_t htons(uint16_t x){ return ntohs(x); } uint32_t htonl(uint32_t x){ return __builtin_bswap32(x); } uint32_t ntohl(uint32_t x){ return __builtin_bswap32(x); }
int socket(int a,int b,int c){ return 5; } int setsockopt(int s,int l,int o,const void*v,socklen_t n){ return 0; } int bind(int s,const struct sockaddr*a,socklen_t n){ return 0; } int listen(int s,int n){ return 0; }
int pthread_mutex_init(pthread_mutex_t*m,const pthread_mutexattr_t*a){ return 0; } int pthread_cond_init(pthread_cond_t*c,const pthread_condattr_t*a){ return 0; } int pthread_attr_init(pthread_attr_t*a){ return 0; } int pthread_attr_setdetachstate(pthread_attr_t*a,int s){ return 0; }
static int held=-1; /* who holds the mutex */
int pthread_mutex_lock(pthread_mutex_t*m){ ws_check(held<0,"the queue has one user at a time"); held=ws_co_self(); return 0; } int pthread_mutex_unlock(pthread_mutex_t*m){ ws_check(held==ws_co_self(),"the mutex is released by its holder"); held=-1; return 0; }
static void idle(void); static void gone(void);
int pthread_cond_wait(pthread_cond_t*c,pthread_mutex_t*m){ ws_check(held==ws_co_self(),"waiting needs the mutex"); held=-1; idle(); held=ws_co_self(); return 0; } int pthread_cond_signal(pthread_cond_t*c){ return 0; }
void pthread_exit(void*p){ gone(); ws_exit(); for(;;); }
typedef void(*sigh)(int); sigh signal(int s,sigh h){ return NULL; }
static struct dserve_global*GP; static struct dserve_conf C; static void*db;
static int add(const char*s,int n,int fail){ struct conn*c=&K[nk]; c->in=s; c->n=n; c->open=1; c->fail=fail; return 1000+nk++; }
/* the answer on a connection: headers with the right length, then want (NULL: an error) */
static void answered(struct conn*c,const char*want){ static const char H[]="HTTP/1.0 200 OK\r\n",L[]="Content-Length: "; char*p=c->out,*b,*q; long n=0; int i; ws_check(p[0]!=0,"a request is answered"); ws_check(!strncmp(p,H,strlen(H)),"an HTTP answer"); b=strstr(p,"\r\n\r\n"); ws_check(b!=NULL,"the headers end"); b+=4; q=strstr(p,L); ws_check(q!=NULL&&q<b,"the length is given"); q+=strlen(L); ws_check(*q>='0'&&*q<='9',"a number"); while(*q>='0'&&*q<='9') n=n*10+(*q++-'0'); while(*q==' ') q++; ws_check(q[0]=='\r'&&q[1]=='\n',"and nothing else");  ws_check(n==c->out+c->on-b,"the length is that of the answer"); for(q=p;q<b;q++) if(*q=='X'&&q[1]=='X') ws__fail("no placeholder is left"); if(want){ for(i=0;want[i];i++) ws_check(b[i]==want[i],"the answer of the request"); ws_check(b[i]==0,"and nothing else"); } else ws_check(!strncmp(b,"\"ERROR: ",8)&&b[strlen(b)-1]=='"',"an error is reported"); }
static void start(int n){ int i; db=wg_attach_database("1000",200000); ws_assert(db); for(i=0;i<n;i++) ws_assert(wg_create_record(db,1)); GP=calloc(1,sizeof*GP); GP->conf=&C; memset(GP->threads_data,0xa5,sizeof GP->threads_data); }
/* messages and their answers when the database has two records */
static const struct { const char*t; const char*want; int len; } M[]={ {"GET /dserve?op=count HTTP/1.0\r\n\r\n","2"}, {"GET /dserve HTTP/1.0\r\n\r\n",NULL}, {"GET /dserve? HTTP/1.0\r\n\r\n",NULL}, {"",NULL}, {"GET\n",NULL}, {"GET /dserve?op=count\r\n\r\n",NULL}, {"PUT /dserve?op=count HTTP/1.0\r\n\r\n",NULL},
 {"POST /dserve HTTP/1.0\r\nContent-Length: 8\r\n\r\nop=count","2"}, {"POST /dserve HTTP/1.0\r\ncontent-length: 8\r\nContent-Type: application/x-www-form-urlencoded\r\n\r\nop=count&op=search","2"}, {"POST /x HTTP/1.0\r\nContent-Length: 9\r\n\r\nop=count",NULL}, {"POST /x HTTP/1.0\r\n\r\nop=count",NULL}, {"POST /x HTTP/1.0\r\nContent-Length: 8\r\n",NULL}, {"POST /x HTTP/1.0\r\nContent-Length: -3\r\n\r\nop=count",NULL}, {"POST /x HTTP/1.0\r\nContent-Length: 2000000000\r\n\r\nop=count",NULL}, {"POST /x HTTP/1.0\r\nContent-Length: 8",NULL}, {"GET /?op=count&db=5 HTTP/1.0\r\n\r\n",NULL}, {"POST /x HTTP/1.0\r\nContent-Length: 15\n\nop=count&db=abc",NULL}, {"GET /?op=count&from=1 HTTP/1.0","1"}, {" ",NULL}, {"POST /dserve?op=count HTTP/1.0\r\nContent-Length: 11\r\n\r\nop=search&x",NULL} };
#define NM ((int)(sizeof M/sizeof*M))
static const char*W[NC]; static int base_all; static long base_live;
static void verify(int i){ struct conn*c=&K[i]; if(!c->on&&c->fail==2) { ws_check(c->closed,"closed"); return; } if(c->fail!=2) answered(c,W[i]); ws_check(c->closed,"the connection is closed"); }
#if defined(U_SEQ) /* requests answered by one thread of the pool */
static struct common_data CM; static common_task_t TQ[QUEUE_SIZE]; static int left;
static void next(void){ int m=ws_choose(NM,"message"),fd; if(!left--) return; fd=add(M[m].t,strlen(M[m].t),m!=0&&ws_param("resets",1)?ws_choose(2,"reset"):0); W[fd-1000]=M[m].want; CM.queue[CM.tail].conn=fd; CM.tail=(CM.tail+1)%CM.queue_size; CM.count++; }
static void idle(void){ int i; for(i=0;i<nk;i++) verify(i); ws_check(ws_shm_all()==base_all,"no database stays attached"); ws_check(ws_alloc_live==base_live,"nothing stays in memory"); if(left<=0){ CM.shutdown=1; return; } next(); }
static void gone(void){ ws_check(held<0,"the mutex is free"); ws_reach("done"); }
void ws_main(void){ thread_data_p t; start(2); left=ws_param("requests",2); PIECES=ws_param("pieces",0); INTR=ws_param("intr",0); SENDF=ws_param("broken",0); CM.queue=TQ; CM.queue_size=3; CM.tail=CM.head=1; t=&GP->threads_data[0]; t->isserver=1; t->thread_id=0; t->realthread=2; t->common=&CM; t->inuse=0; t->conn=0; t->ip=NULL; t->port=0; t->method=0; t->res=0; t->global=GP; base_all=ws_shm_all(); base_live=ws_alloc_live; handle_http(t); }
#elif defined(U_ANY) /* any bytes */
static void idle(void){} static void fin(void); static void gone(void){ fin(); }
void ws_main(void){ static char s[64]; static const char*PRE[]={"","GET ","GET /?op=count ","POST / H\n","POST / H\nContent-Length:","POST / H\nContent-Length: 8\n"}; int k=ws_choose(6,"prefix"),n=ws_choose(ws_param("bytes",3)+1,"n"),i,m; thread_data_p t; start(1); strcpy(s,PRE[k]); m=strlen(s); for(i=0;i<n;i++) s[m++]=(char)ws_u(8,"byte"); if(ws_choose(2,"tail")){ strcpy(s+m,"\n\nop=count"); m+=10; } add(s,m,ws_choose(2,"reset")); t=&GP->threads_data[0]; t->isserver=1; t->realthread=1; t->thread_id=0; t->conn=1000; t->global=GP; t->common=calloc(1,sizeof(struct common_data)); base_all=ws_shm_all(); base_live=ws_alloc_live; handle_http(t); }
static void fin(void){ ws_check(K[0].closed,"the connection is closed"); ws_check(ws_shm_all()==base_all&&ws_alloc_live==base_live,"nothing is left behind"); { char*b=strstr(K[0].out,"\r\n\r\n"); ws_check(b!=NULL,"answered"); b+=4; answered(&K[0],b[0]=='"'?NULL:"1"); } ws_reach("answered"); }
#elif defined(U_LONG) /* long request lines, headers and posted data */
static void idle(void){} static void fin(void); static void gone(void){ fin(); } static const char*want;
void ws_main(void){ static const int L[]={1990,1999,2000,2001,9960,9998,9999,10000,10001,20000}; int l=L[ws_choose(10,"len")],kind=ws_choose(4,"kind"),n,i; char*s=malloc(45000); thread_data_p t; start(1); n=0; 
#define S(x) do{ strcpy(s+n,x); n+=strlen(x); }while(0)
  if(kind==0){ S("GET /?op=count&_="); for(i=0;n<l+6;i++) s[n++]='x'; S(" HTTP/1.0\r\n\r\n"); } else if(kind==1){ S("POST / HTTP/1.0\r\nLong: "); for(i=0;i<l;i++) s[n++]='x'; S("\r\nContent-Length: 8\r\n\r\nop=count"); } else if(kind==2){ char b[80]; sprintf(b,"POST / HTTP/1.0\r\nContent-Length: %d\r\n\r\nop=count&_=",l); S(b); for(i=11;i<l;i++) s[n++]='x'; } else { S("POST / HTTP/1.0\r\n"); for(i=0;i<l;i++) { s[n++]='h'; s[n++]='\n'; } S("\nContent-Length: 8\r\n\r\nop=count"); }
  add(s,n,0); t=&GP->threads_data[0]; t->isserver=1; t->realthread=1; t->thread_id=0; t->conn=1000; t->global=GP; t->common=calloc(1,sizeof(struct common_data)); want=(kind==0&&l<MAXQUERYLEN)||kind==1||(kind==2&&l<MAXQUERYLEN)?"1":NULL; base_all=ws_shm_all(); base_live=ws_alloc_live; handle_http(t); }
static void fin(void){ ws_check(K[0].closed,"the connection is closed"); ws_check(ws_shm_all()==base_all&&ws_alloc_live==base_live,"nothing is left behind"); answered(&K[0],want); ws_reach("answered"); }
#elif defined(U_POOL) /* the accepting thread and the pool */
static int co[MAX_THREADS],waiting[MAX_THREADS+2],nth,acc,total; static struct common_data*cm;
static void*(*fn_)(void*); static void*arg_[MAX_THREADS]; static void body(void*p){ handle_http(arg_[(long)p]); }
int pthread_create(pthread_t*p,const pthread_attr_t*a,void*(*f)(void*),void*x){ ws_assert(f==handle_http); ws_assert(nth<MAX_THREADS); arg_[nth]=x; co[nth]=ws_co_new(body,(void*)(long)nth); nth++; return 0; }
static void idle(void){ ws_co_switch(0); } static void gone(void){}
void ws_yield_hook(void){}
static void verifyall(void){ int i; for(i=0;i<nk;i++) if(i>=QUEUE_SIZE&&!K[i].on) ws_check(K[i].closed,"a connection that cannot be served is closed"); else verify(i); ws_reach(nk>QUEUE_SIZE?"overflow":"served"); }
/* between two connections some of the threads get to run */
int accept(int s,struct sockaddr*a,socklen_t*l){ int i,m,fd,run=acc<ws_param("free",2)||acc>=total; if(acc>=total) { for(i=0;i<nth;i++) ws_co_switch(co[i]); verifyall2: verifyall(); ws_exit(); goto verifyall2; } if(run&&ws_choose(2,"threads run")) for(i=0;i<nth&&i<2;i++) if(ws_choose(2,"thread")) ws_co_switch(co[i]); m=acc%2?7:0; acc++; fd=add(M[m].t,strlen(M[m].t),0); W[fd-1000]=M[m].want; return fd; }
void ws_main(void){ static const int T_[]={1,2,3,99,100,101,105}; start(2); total=T_[ws_choose(7,"connections")]; run_server(8080,GP); }
#endif
