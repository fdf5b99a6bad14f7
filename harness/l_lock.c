/* L01, L02, R01(atomic add): participants are coroutines, every access of the lock code to memory they share is a point where another may run */
#include "hi.h"
#include "dblock.h"
#include <errno.h>
#include <time.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#ifndef DBSIZE
#define DBSIZE 200000
#endif
#define MAXT 5
enum { RUN, SLEEP, BLOCKED, DONE };
static void *db; static char *seg; static unsigned char shared[DBSIZE/8+2]; static int warm=1;
static int co[MAXT],st[MAXT],nt,cur; static long waitaddr[MAXT]; static int timed[MAXT],gaveup[MAXT],fres[MAXT]; static int preempt,faults; static int idle;
static char *lastrd[MAXT]; static long lastval[MAXT]; static int same[MAXT]; static void toscheduler(void); /* the same value read over and over: waiting for somebody */
static int kind[MAXT][3],rounds; static int readers,writers; static long asked; static long value; static int want[MAXT];
static void toscheduler(void){ ws_co_switch(0); }
static void yield(void){ int i,b=0; if(ws_co_self()==0) return; for(i=0;i<nt;i++) b|=st[i]==BLOCKED; if(preempt>0||(faults>0&&b)) toscheduler(); }
static void touch(void*a,int n,int wr){ char*p=a; long o; if(p<seg||p>=seg+DBSIZE) return; o=(p-seg)/8; if(warm){ if(wr) shared[o]=1; return; } if(!shared[o]) return;
  if(ws_co_self()==0) return; if(!wr){ long v=*(volatile long*)((long)p&~7L); if(lastrd[cur]==p&&lastval[cur]==v){ if(++same[cur]>=3){ same[cur]=0; st[cur]=SLEEP; toscheduler(); } return; } yield(); same[cur]=0; lastrd[cur]=p; lastval[cur]=*(volatile long*)((long)p&~7L); } else { yield(); lastrd[cur]=NULL; } }
void __tsan_init(void){} void __tsan_func_entry(void*a){} void __tsan_func_exit(void){}
#define TS(n) void __tsan_read##n(void*a){ touch(a,n,0);} void __tsan_write##n(void*a){ touch(a,n,1);} void __tsan_read_write##n(void*a){ touch(a,n,1);} void __tsan_unaligned_read##n(void*a){ touch(a,n,0);} void __tsan_unaligned_write##n(void*a){ touch(a,n,1);} void __tsan_unaligned_read_write##n(void*a){ touch(a,n,1);}
TS(1) TS(2) TS(4) TS(8) TS(16)
void __tsan_read_range(void*a,unsigned long n){ touch(a,n,0);} void __tsan_write_range(void*a,unsigned long n){ touch(a,n,1);}
void* __tsan_memcpy(void*d,const void*s,unsigned long n){ touch(d,n,1); return memcpy(d,s,n);} void* __tsan_memset(void*d,int c,unsigned long n){ touch(d,n,1); return memset(d,c,n);} void* __tsan_memmove(void*d,const void*s,unsigned long n){ touch(d,n,1); return memmove(d,s,n);}
typedef long a64; 
a64 __tsan_atomic64_compare_exchange_val(volatile a64*p,a64 c,a64 v,int mo,int fmo){ a64 o; touch((void*)p,8,1); o=*p; if(o==c) *p=v; return o; }
int __tsan_atomic64_compare_exchange_strong(volatile a64*p,a64*c,a64 v,int mo,int fmo){ a64 o; touch((void*)p,8,1); o=*p; if(o==*c){ *p=v; return 1; } *c=o; return 0; }
int __tsan_atomic64_compare_exchange_weak(volatile a64*p,a64*c,a64 v,int mo,int fmo){ return __tsan_atomic64_compare_exchange_strong(p,c,v,mo,fmo); }
a64 __tsan_atomic64_fetch_add(volatile a64*p,a64 v,int mo){ a64 o; touch((void*)p,8,1); o=*p; *p=o+v; return o; }
a64 __tsan_atomic64_fetch_sub(volatile a64*p,a64 v,int mo){ a64 o; touch((void*)p,8,1); o=*p; *p=o-v; return o; }
a64 __tsan_atomic64_fetch_and(volatile a64*p,a64 v,int mo){ a64 o; touch((void*)p,8,1); o=*p; *p=o&v; return o; }
a64 __tsan_atomic64_fetch_or(volatile a64*p,a64 v,int mo){ a64 o; touch((void*)p,8,1); o=*p; *p=o|v; return o; }
a64 __tsan_atomic64_exchange(volatile a64*p,a64 v,int mo){ a64 o; touch((void*)p,8,1); o=*p; *p=v; return o; }
a64 __tsan_atomic64_load(const volatile a64*p,int mo){ touch((void*)p,8,0); return *p; }
void __tsan_atomic64_store(volatile a64*p,a64 v,int mo){ touch((void*)p,8,1); *p=v; }
void __tsan_atomic_thread_fence(int mo){}
void ws_yield_hook(void){ if(ws_co_self()==0) return; st[cur]=SLEEP; lastrd[cur]=NULL; toscheduler(); }
long ws_syscall_hook(long nr,long a,long b,long c,long d){ int i,n=0; if(ws_co_self()==0){ if((b&~FUTEX_PRIVATE_FLAG)==FUTEX_WAIT) ws__fail("a lock that is free is not given out"); return 0; } yield(); b&=~FUTEX_PRIVATE_FLAG;
  if(b==FUTEX_WAIT){ if(d) asked=((const struct timespec*)d)->tv_sec*1000+((const struct timespec*)d)->tv_nsec/1000000; else asked=-1; if(d){ const struct timespec*t=(void*)d; if(t->tv_nsec<0||t->tv_nsec>=1000000000L||t->tv_sec<0){ errno=EINVAL; return -1; } }
    if(*(volatile int*)a!=(int)c){ errno=EAGAIN; return -1; } st[cur]=BLOCKED; waitaddr[cur]=a; timed[cur]=d!=0; ws_reach("waited"); toscheduler(); i=fres[cur]; fres[cur]=0; if(i){ errno=i; return -1; } return 0; }
  if(b==FUTEX_WAKE){ for(i=0;i<nt&&n<c;i++) if(st[i]==BLOCKED&&waitaddr[i]==a){ st[i]=RUN; n++; } return n; } errno=ENOSYS; return -1; }
static void enter(int w){
#ifndef U_LIVE
  ws_check(writers==0,w?"a writer is alone":"a reader never overlaps a writer"); if(w) ws_check(readers==0,"a writer is alone");
#endif
  if(w) writers++; else readers++; }
static void leave(int w){ if(w) writers--; else readers--; }
static void participant(void*arg){ int me=(int)(long)arg,r; for(r=0;r<rounds;r++){ int w=kind[me][r]; wg_int l; want[me]=1; gaveup[me]=0; l=w?wg_start_write(db):wg_start_read(db); want[me]=0;
#ifdef U_LIVE
    ws_check(l!=0||gaveup[me],"a request that has not timed out is granted");
#endif
    if(!l) continue; enter(w); yield(); leave(w); if(w) wg_end_write(db,l); else wg_end_read(db,l); } st[me]=DONE; toscheduler(); }
static void schedule(void){ int i,n,list[3*MAXT],how[3*MAXT],c; for(;;){ ws_dedup(); n=0;
    int curok=st[cur]==RUN; if(curok){ list[n]=cur; how[n++]=0; }
    for(i=0;i<nt;i++) if(st[i]==RUN&&!(curok&&i==cur)&&(!curok||preempt>0)){ list[n]=i; how[n++]=curok?1:0; }
    { int run=n; if(!run||(curok&&preempt>0)) for(i=0;i<nt;i++) if(st[i]==SLEEP&&(!lastrd[i]||*(volatile long*)((long)lastrd[i]&~7L)!=lastval[i])){ list[n]=i; how[n++]=run?1:0; } if(!n) for(i=0;i<nt;i++) if(st[i]==SLEEP){ list[n]=i; how[n++]=0; } }
    if(n==1&&how[0]==0&&st[list[0]]==SLEEP){ if(++idle>400) ws__fail("everybody waits for a lock that nobody holds"); } else idle=0;
    if(n==0){ int b=-1; for(i=0;i<nt;i++) if(st[i]==BLOCKED) b=i; if(b<0) return;
#ifdef U_LIVE
      ws__fail("somebody waits for a lock that nobody holds");
#endif
      st[b]=RUN; fres[b]=ETIMEDOUT; continue; }
    if(faults>0) for(i=0;i<nt;i++) if(st[i]==BLOCKED){ list[n]=i; how[n++]=2; }
    c=n>1?ws_choose(n,"next"):0; i=list[c]; if(how[c]==1) preempt--; else if(how[c]==2){ int f=ws_choose(timed[i]?3:2,"fault"); faults--; fres[i]=f==0?EINTR:f==1?0:ETIMEDOUT; gaveup[i]=f==2; ws_reach("fault"); }
    st[i]=RUN; cur=i; ws_co_switch(co[i]); } }
static int capacity(void){ static wg_int l[300]; int n=0,i; while(n<100){ l[n]=wg_start_read(db); if(!l[n]) break; n++; } for(i=0;i<n;i++) wg_end_read(db,l[(i*7)%n]); return n; }
#ifdef U_ADD /* concurrent atomic additions */
static void*rec; static int sum,adds;
static void adder(void*arg){ int me=(int)(long)arg,r; for(r=0;r<rounds;r++){ int d=me==0?1:me==1?10:-100; wg_int e=kind[me][r]?wg_update_atomic_field(db,rec,1,wg_encode_int(db,7),wg_encode_int(db,5+d)):wg_add_int_atomic_field(db,rec,1,d); ws_check(e==0||(kind[me][r]&&e==-15),"an atomic operation succeeds or reports the change"); if(e==0){ if(kind[me][r]) { adds+=7-(5+d); } else adds+=d; } } st[me]=DONE; toscheduler(); }
void ws_main(void){ int i,r; db=newdb(DBSIZE); seg=(char*)dbmemsegh(db); nt=ws_param("threads",3); rounds=ws_param("rounds",1); preempt=ws_param("preempt",2); rec=wg_create_record(db,3); ws_assert(rec!=NULL); for(i=0;i<3;i++) wg_set_new_field(db,rec,i,wg_encode_int(db,5)); 
  wg_add_int_atomic_field(db,rec,1,3); wg_add_int_atomic_field(db,rec,1,-3); shared[((char*)(((gint*)rec)+RECORD_HEADER_GINTS+1)-seg)/8]=1; warm=0; for(i=0;i<nt;i++) for(r=0;r<rounds;r++) kind[i][r]=ws_choose(2,"update"); for(i=0;i<nt;i++){ st[i]=RUN; co[i]=ws_co_new(adder,(void*)(long)i); } cur=ws_choose(nt,"first"); schedule(); warm=1;
  ws_check(wg_decode_int(db,wg_get_field(db,rec,1))==5+adds,"no addition is lost"); ws_check(wg_decode_int(db,wg_get_field(db,rec,0))==5&&wg_decode_int(db,wg_get_field(db,rec,2))==5,"no other field is changed"); ws_reach("added"); }
#elif defined(U_TMO)
static void asker(void*arg){ int w=ws_choose(2,"writer"); long t=ws_range(1,100000,"ms"); wg_int l; asked=-2; preempt=faults=0; l=w?db_wlock(db,t):db_rlock(db,t); ws_check(l==0,"a held lock is not given out"); ws_check(asked>=t-1&&asked<=t+1,"the wait is as long as asked for"); ws_reach("timed"); st[0]=DONE; toscheduler(); }
void ws_main(void){ wg_int l; db=newdb(DBSIZE); seg=(char*)dbmemsegh(db); warm=0; nt=1; l=wg_start_write(db); st[0]=RUN; co[0]=ws_co_new(asker,NULL); schedule(); wg_end_write(db,l); }
#else
void ws_main(void){ int i,r,cap=0; wg_int l[MAXT]; db=newdb(DBSIZE); seg=(char*)dbmemsegh(db); nt=ws_param("threads",3); rounds=ws_param("rounds",1); preempt=ws_param("preempt",2); faults=ws_param("faults",1);
  l[0]=wg_start_write(db); ws_check(l[0]!=0,"a free lock is given out"); wg_end_write(db,l[0]); for(i=0;i<nt;i++){ l[i]=wg_start_read(db); ws_check(l[i]!=0,"readers share"); } for(i=0;i<nt;i++) wg_end_read(db,l[i]);
#ifdef U_LIVE
  cap=capacity(); ws_check(cap>=8,"readers share");
  for(i=0;i<nt;i++){ l[i]=wg_start_read(db); } for(i=0;i<nt;i++) wg_end_read(db,l[i]);
#endif
  for(i=0;i<nt;i++) for(r=0;r<rounds;r++) kind[i][r]=ws_choose(2,"writer"); for(i=1;i<nt;i++){ int a=0,b=0; for(r=0;r<rounds;r++){ a=a*2+kind[i-1][r]; b=b*2+kind[i][r]; } ws_assume(a<=b); } /* participants are alike */
  warm=0; for(i=0;i<nt;i++){ st[i]=RUN; co[i]=ws_co_new(participant,(void*)(long)i); }
  cur=ws_choose(nt,"first"); { int f=cur; schedule(); (void)f; }
  warm=1; ws_check(readers==0&&writers==0,"all left"); ws_reach("done"); memset(lastrd,0,sizeof lastrd); memset(lastval,0,sizeof lastval); memset(same,0,sizeof same); memset(waitaddr,0,sizeof waitaddr); memset(timed,0,sizeof timed); memset(gaveup,0,sizeof gaveup); memset(kind,0,sizeof kind); preempt=faults=idle=cur=0; ws_dedup();
#ifdef U_LIVE
  { wg_int x=wg_start_write(db); ws_check(x!=0,"the lock remains usable"); wg_end_write(db,x); } ws_check(capacity()==cap,"all queue entries are given back");
#endif
}
#endif
