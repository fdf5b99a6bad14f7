/* Environment model: process memory, files, shared memory, time. Compiled for wgsym and for native replay alike. */
#define WS_NO_REDIRECT
#include "ws_env.h"
#include "ws.h"

int ws_malloc_faults=0, ws_io_faults=0, ws_faults_hit=0; long ws_malloc_limit=1L<<30; long ws_alloc_live=0; long ws_time_now=1000000000L;

/* ---- process memory ---- */
static int mfault(void){ if(ws_malloc_faults>0 && ws_choose(2,"mem-fault")){ ws_malloc_faults--; ws_faults_hit++; return 1; } return 0; }
static int iofault(void){ if(ws_io_faults>0 && ws_choose(2,"io-fault")){ ws_io_faults--; ws_faults_hit++; return 1; } return 0; }
unsigned long ws_last_request; /* bytes of the last request for memory */
void *ws_malloc(size_t n){ void*p; ws_last_request=n; if(n>(size_t)ws_malloc_limit || mfault()){ errno=ENOMEM; return NULL; } p=malloc(n); if(p) ws_alloc_live++; return p; }
void *ws_calloc(size_t a,size_t b){ void*p; ws_last_request=a*b; if((b && a>(size_t)ws_malloc_limit/b) || mfault()){ errno=ENOMEM; return NULL; } p=calloc(a,b); if(p) ws_alloc_live++; return p; }
void *ws_realloc(void*p,size_t n){ void*q; if(n>(size_t)ws_malloc_limit || mfault()){ errno=ENOMEM; return NULL; } q=realloc(p,n); if(!p&&q) ws_alloc_live++; return q; }
void ws_free(void*p){ if(p) ws_alloc_live--; free(p); }

/* ---- files ---- */
#define NFILES 12
#define NH 24
#define FCAP (1L<<23)
typedef struct { char name[128]; unsigned char *data; long size; int used; } wsfile;
typedef struct { int used, f, rd, wr, app, eof, err, isstream; long pos; int unget; } wshandle;
static wsfile files[NFILES]; static wshandle hs[NH];
static int ffind(const char*n){ int i; for(i=0;i<NFILES;i++) if(files[i].used && !strcmp(files[i].name,n)) return i; return -1; }
static int fnew(const char*n){ int i; for(i=0;i<NFILES;i++) if(!files[i].used){ files[i].used=1; strncpy(files[i].name,n,127); files[i].name[127]=0; if(!files[i].data) files[i].data=calloc(1,FCAP); files[i].size=0; return i; } return -1; }
int ws_file_put(const char*n,const void*d,unsigned long k){ int i=ffind(n); if(i<0) i=fnew(n); if(i<0) return -1; memcpy(files[i].data,d,k); files[i].size=k; return 0; }
unsigned char*ws_file_data(const char*n){ int i=ffind(n); return i<0?NULL:files[i].data; }
long ws_file_size(const char*n){ int i=ffind(n); return i<0?-1:files[i].size; }
void ws_file_truncate(const char*n,long k){ int i=ffind(n); if(i>=0 && k<files[i].size) files[i].size=k; }
void ws_file_remove(const char*n){ int i=ffind(n); if(i>=0) files[i].used=0; }
int ws_files_open(void){ int i,c=0; for(i=0;i<NH;i++) c+=hs[i].used; return c; }
static int hnew(int f){ int i; for(i=3;i<NH;i++) if(!hs[i].used){ memset(&hs[i],0,sizeof(hs[i])); hs[i].used=1; hs[i].f=f; hs[i].unget=-1; return i; } return -1; }
static wshandle* H(FILE*f){ wshandle*h=(wshandle*)f; if((char*)h<(char*)hs || (char*)h>=(char*)(hs+NH)) return NULL; return h->used?h:NULL; }
static int hopen(const char*name,int creat,int trunc,int excl){ int f; if(iofault()){ errno=EIO; return -1; } f=ffind(name); if(f>=0 && excl){ errno=EEXIST; return -1; } if(f<0){ if(!creat){ errno=ENOENT; return -1; } f=fnew(name); if(f<0){ errno=ENOSPC; return -1; } } else if(trunc) files[f].size=0; return hnew(f); }
FILE*ws_fopen(const char*n,const char*m){ int h; int w=m[0]=='w', a=m[0]=='a', plus=strchr(m,'+')!=NULL; h=hopen(n,w||a,w,0); if(h<0) return NULL; hs[h].rd=m[0]=='r'||plus; hs[h].wr=w||a||plus; hs[h].app=a; hs[h].isstream=1; return (FILE*)&hs[h]; }
FILE*ws_fdopen(int fd,const char*m){ if(fd<3||fd>=NH||!hs[fd].used){ errno=EBADF; return NULL; } if(iofault()){ errno=ENOMEM; return NULL; } hs[fd].isstream=1; return (FILE*)&hs[fd]; }
static int hclose(wshandle*h){ h->used=0; if(h->wr && iofault()){ errno=EIO; return -1; } return 0; }
int ws_fclose(FILE*f){ wshandle*h=H(f); if(!h){ ws__fail("fclose of a stream that is not open"); return EOF; } return hclose(h)?EOF:0; }
static long hread(wshandle*h,void*b,long n){ wsfile*f=&files[h->f]; long k=f->size-h->pos; if(!h->rd){ errno=EBADF; return -1; } if(iofault()){ errno=EIO; return -1; } if(k<0) k=0; if(k>n) k=n; if(k>0) memcpy(b,f->data+h->pos,k); h->pos+=k; return k; }
static long hwrite(wshandle*h,const void*b,long n){ wsfile*f=&files[h->f]; long k=n; if(!h->wr){ errno=EBADF; return -1; } if(iofault()){ if(n>1 && ws_choose(2,"io-short")){ k=ws_choose(2,"io-shortlen")?n-1:1; errno=ENOSPC; } else { errno=ENOSPC; return -1; } } if(h->app) h->pos=f->size; if(h->pos+k>FCAP){ errno=ENOSPC; return -1; } if(h->pos>f->size) memset(f->data+f->size,0,h->pos-f->size); memcpy(f->data+h->pos,b,k); h->pos+=k; if(h->pos>f->size) f->size=h->pos; return k; }
long ws_stdin_hook(void*p,long n) __attribute__((weak));
size_t ws_fread(void*b,size_t s,size_t n,FILE*f){ wshandle*h=H(f); long k,got=0; if(f==stdin&&ws_stdin_hook) return s?ws_stdin_hook(b,s*n)/s:0; if(!h){ ws__fail("fread on a stream that is not open"); return 0; } if(!s||!n) return 0; if(h->unget>=0){ *(unsigned char*)b=h->unget; h->unget=-1; got=1; } if(got<(long)(s*n)){ k=hread(h,(char*)b+got,s*n-got); if(k<0){ h->err=1; return got/s; } if(k<(long)(s*n)-got) h->eof=1; got+=k; } return got/s; }
size_t ws_fwrite(const void*b,size_t s,size_t n,FILE*f){ wshandle*h=H(f); long k; if(!h){ if(f==stderr||f==stdout) return n; ws__fail("fwrite on a stream that is not open"); return 0; } if(!s||!n) return 0; k=hwrite(h,b,s*n); if(k<0){ h->err=1; return 0; } if(k<(long)(s*n)) h->err=1; return k/s; }
int ws_fputc(int c,FILE*f){ unsigned char b=c; if(!H(f)) return c; return ws_fwrite(&b,1,1,f)==1?(int)b:EOF; }
int ws_fgetc(FILE*f){ unsigned char b; return ws_fread(&b,1,1,f)==1?(int)b:EOF; }
int ws_fputs(const char*s,FILE*f){ size_t n=strlen(s); if(!H(f)) return 0; return ws_fwrite(s,1,n,f)==n?1:EOF; }
char*ws_fgets(char*b,int n,FILE*f){ int i=0,c=0; while(i<n-1 && (c=ws_fgetc(f))!=EOF){ b[i++]=c; if(c=='\n') break; } if(i==0) return NULL; b[i]=0; return b; }
int ws_feof(FILE*f){ wshandle*h=H(f); return h?h->eof:1; }
int ws_ferror(FILE*f){ wshandle*h=H(f); return h?h->err:1; }
void ws_clearerr(FILE*f){ wshandle*h=H(f); if(h) h->eof=h->err=0; }
int ws_fflush(FILE*f){ wshandle*h; if(!f) return 0; h=H(f); if(h && h->wr && iofault()){ errno=ENOSPC; h->err=1; return EOF; } return 0; }
int ws_fseek(FILE*f,long o,int w){ wshandle*h=H(f); if(!h){ ws__fail("fseek on a stream that is not open"); return -1; } if(iofault()){ errno=EIO; return -1; } h->eof=0; h->unget=-1; if(w==SEEK_SET) h->pos=o; else if(w==SEEK_CUR) h->pos+=o; else h->pos=files[h->f].size+o; return 0; }
long ws_ftell(FILE*f){ wshandle*h=H(f); return h?h->pos:-1; }
void ws_rewind(FILE*f){ ws_fseek(f,0,SEEK_SET); }
int ws_ungetc(int c,FILE*f){ wshandle*h=H(f); if(!h||c==EOF) return EOF; h->unget=(unsigned char)c; h->eof=0; return c; }
int ws_fileno(FILE*f){ wshandle*h=H(f); return h?(int)(h-hs):-1; }
int ws_vfprintf(FILE*f,const char*fmt,va_list ap){ static char buf[8192]; int n; wshandle*h=H(f); if(!h) return 0; n=vsnprintf(buf,sizeof(buf),fmt,ap); if(n>0) { if(ws_fwrite(buf,1,n,f)!=(size_t)n) return -1; } return n; }
int ws_fprintf(FILE*f,const char*fmt,...){ va_list ap; int n; if(!H(f)) return 0; va_start(ap,fmt); n=ws_vfprintf(f,fmt,ap); va_end(ap); return n; }
void ws_stdout_hook(const char*s,long n) __attribute__((weak)); void ws_exit_hook(int code) __attribute__((weak)); char*ws_getenv_hook(const char*n) __attribute__((weak)); long ws_stdin_hook(void*p,long n) __attribute__((weak));
int ws_printf(const char*fmt,...){ static char buf[8192]; va_list ap; int n; if(!ws_stdout_hook) return 0; va_start(ap,fmt); n=vsnprintf(buf,sizeof(buf),fmt,ap); va_end(ap); ws_stdout_hook(buf,n<(int)sizeof(buf)?n:(long)sizeof(buf)-1); return n; }
int ws_puts(const char*s){ if(ws_stdout_hook){ ws_stdout_hook(s,strlen(s)); ws_stdout_hook("\n",1); } return 0; }
int ws_putchar(int c){ char b=(char)c; if(ws_stdout_hook) ws_stdout_hook(&b,1); return c; }
void ws_perror(const char*s){}
int ws_open(const char*n,int fl,...){ int h=hopen(n,(fl&O_CREAT)!=0,(fl&O_TRUNC)!=0,(fl&O_EXCL)&&(fl&O_CREAT)); if(h<0) return -1; hs[h].rd=(fl&O_ACCMODE)!=O_WRONLY; hs[h].wr=(fl&O_ACCMODE)!=O_RDONLY; hs[h].app=(fl&O_APPEND)!=0; return h; }
static wshandle* D(int fd){ if(fd<0||fd>=NH||!hs[fd].used){ errno=EBADF; return NULL; } return &hs[fd]; }
int ws_close_hook(int fd) __attribute__((weak));
int ws_close(int fd){ wshandle*h=D(fd); if(!h){ if(ws_close_hook) return ws_close_hook(fd); ws__fail("close of a file descriptor that is not open"); return -1; } return hclose(h); }
ssize_t ws_read(int fd,void*b,size_t n){ wshandle*h=D(fd); return h?hread(h,b,n):-1; }
ssize_t ws_write(int fd,const void*b,size_t n){ wshandle*h=D(fd); if(!h){ if(fd==1||fd==2) return n; ws__fail("write to a file descriptor that is not open"); return -1; } return hwrite(h,b,n); }
off_t ws_lseek(int fd,off_t o,int w){ wshandle*h=D(fd); if(!h) return -1; if(w==SEEK_SET) h->pos=o; else if(w==SEEK_CUR) h->pos+=o; else h->pos=files[h->f].size+o; return h->pos; }
static int ftr(int f,long n){ if(n>FCAP) return -1; if(n>files[f].size) memset(files[f].data+files[f].size,0,n-files[f].size); files[f].size=n; return 0; }
int ws_ftruncate(int fd,off_t n){ wshandle*h=D(fd); if(!h) return -1; if(iofault()){ errno=EIO; return -1; } return ftr(h->f,n); }
int ws_truncate(const char*p,off_t n){ int f=ffind(p); if(f<0){ errno=ENOENT; return -1; } return ftr(f,n); }
int ws_fsync(int fd){ if(!D(fd)) return -1; if(iofault()){ errno=EIO; return -1; } return 0; }
int ws_unlink(const char*p){ int f=ffind(p); if(f<0){ errno=ENOENT; return -1; } files[f].used=0; return 0; }
int ws_rename(const char*a,const char*b){ int f=ffind(a),g; if(f<0){ errno=ENOENT; return -1; } if(iofault()){ errno=EIO; return -1; } g=ffind(b); if(g>=0&&g!=f) files[g].used=0; strncpy(files[f].name,b,127); return 0; }
int ws_access(const char*p,int m){ if(ffind(p)<0){ errno=ENOENT; return -1; } return 0; }
int ws_stat(const char*p,struct stat*s){ int f=ffind(p); if(f<0){ errno=ENOENT; return -1; } if(iofault()){ errno=EIO; return -1; } memset(s,0,sizeof(*s)); s->st_mode=S_IFREG|0644; s->st_size=files[f].size; return 0; }
int ws_fstat(int fd,struct stat*s){ wshandle*h=D(fd); if(!h) return -1; memset(s,0,sizeof(*s)); s->st_mode=S_IFREG|0644; s->st_size=files[h->f].size; return 0; }
mode_t ws_umask(mode_t m){ static mode_t c=022; mode_t o=c; c=m; return o; }

/* ---- shared memory ---- */
#define NSHM 8
static struct { int used,key,mode; size_t size; char*p; int nattch; } shm[NSHM];
int ws_shmget(key_t k,size_t n,int fl){ int i; for(i=0;i<NSHM;i++) if(shm[i].used && shm[i].key==k){ if((fl&IPC_CREAT)&&(fl&IPC_EXCL)){ errno=EEXIST; return -1; } if(n>shm[i].size){ errno=EINVAL; return -1; } return i; } if(!(fl&IPC_CREAT)){ errno=ENOENT; return -1; } if(n==0||n>(1UL<<28)||mfault()){ errno=EINVAL; return -1; } for(i=0;i<NSHM;i++) if(!shm[i].used&&!shm[i].nattch){ shm[i].p=calloc(1,n); if(!shm[i].p){ errno=ENOMEM; return -1; } shm[i].used=1; shm[i].key=k; shm[i].size=n; shm[i].mode=fl&0777; return i; } errno=ENOSPC; return -1; }
void*ws_shmat(int id,const void*a,int fl){ if(id<0||id>=NSHM||!shm[id].used||mfault()){ errno=EINVAL; return (void*)-1; } shm[id].nattch++; return shm[id].p; }
int ws_shmdt(const void*p){ int i; for(i=0;i<NSHM;i++) if(shm[i].p==p){ if(shm[i].nattch>0) shm[i].nattch--; return 0; } errno=EINVAL; return -1; }
int ws_shmctl(int id,int cmd,struct shmid_ds*b){ if(id<0||id>=NSHM||!shm[id].used){ errno=EINVAL; return -1; } if(cmd==IPC_RMID){ shm[id].used=0; return 0; } if(cmd==IPC_STAT&&b){ memset(b,0,sizeof(*b)); b->shm_segsz=shm[id].size; b->shm_nattch=shm[id].nattch; b->shm_perm.mode=shm[id].mode; return 0; } return 0; }
/* inspection: -1 when there is no such segment */
static int shmi(int k){ int i; for(i=0;i<NSHM;i++) if(shm[i].used&&shm[i].key==k) return i; return -1; }
int ws_shm_nattch(int k){ int i=shmi(k); return i<0?-1:shm[i].nattch; }
int ws_shm_all(void){ int i,n=0; for(i=0;i<NSHM;i++) n+=shm[i].nattch; return n; }
int ws_shm_count(void){ int i,n=0; for(i=0;i<NSHM;i++) n+=shm[i].used; return n; }
int ws_shm_mode(int k){ int i=shmi(k); return i<0?-1:shm[i].mode; }
char*ws_shm_data(int k){ int i=shmi(k); return i<0?NULL:shm[i].p; }
long ws_shm_size(int k){ int i=shmi(k); return i<0?-1:(long)shm[i].size; }

/* ---- time and process ---- */
time_t ws_time(time_t*t){ if(t)*t=ws_time_now; return ws_time_now; }
int ws_ftime(struct timeb*t){ memset(t,0,sizeof(*t)); t->time=ws_time_now; return 0; }
static void brk_down(time_t t,struct tm*r){ long d=t/86400,s=t%86400,y=1970; static const int md[12]={31,28,31,30,31,30,31,31,30,31,30,31}; int m=0; memset(r,0,sizeof(*r)); for(;;){ int l=(y%4==0&&y%100!=0)||y%400==0; int n=l?366:365; if(d<n) break; d-=n; y++; } r->tm_year=y-1900; r->tm_yday=d; for(;;){ int l=(y%4==0&&y%100!=0)||y%400==0; int n=md[m]+(m==1&&l); if(d<n) break; d-=n; m++; } r->tm_mon=m; r->tm_mday=d+1; r->tm_hour=s/3600; r->tm_min=s/60%60; r->tm_sec=s%60; }
struct tm*ws_localtime_r(const time_t*t,struct tm*r){ brk_down(*t,r); return r; }
struct tm*ws_gmtime_r(const time_t*t,struct tm*r){ brk_down(*t,r); return r; }
void ws_yield_hook(void) __attribute__((weak));
int ws_nanosleep(const struct timespec*a,struct timespec*b){ if(ws_yield_hook) ws_yield_hook(); return 0; }
int ws_usleep(unsigned u){ if(ws_yield_hook) ws_yield_hook(); return 0; }
unsigned ws_sleep(unsigned u){ if(ws_yield_hook) ws_yield_hook(); return 0; }
int ws_sched_yield(void){ if(ws_yield_hook) ws_yield_hook(); return 0; }
long ws_syscall_hook(long nr,long a,long b,long c,long d) __attribute__((weak));
long ws_syscall(long nr,...){ va_list ap; long a,b,c,d; va_start(ap,nr); a=va_arg(ap,long); b=va_arg(ap,long); c=va_arg(ap,long); d=va_arg(ap,long); va_end(ap); if(ws_syscall_hook) return ws_syscall_hook(nr,a,b,c,d); return 0; }
uid_t ws_getuid(void){ return 1000; }
gid_t ws_getgid(void){ return 1000; }
pid_t ws_getpid(void){ return 4242; }
char*ws_getenv(const char*n){ return ws_getenv_hook?ws_getenv_hook(n):NULL; }
void ws_exit_(int c){ if(ws_exit_hook) ws_exit_hook(c); ws_exit(); }
void ws_abort(void){ ws__fail("abort() called"); }
int ws_clock_gettime(int c,struct timespec*t){ t->tv_sec=ws_time_now; t->tv_nsec=0; return 0; }
int ws_gettimeofday(struct timeval*t,void*z){ t->tv_sec=ws_time_now; t->tv_usec=0; return 0; }
