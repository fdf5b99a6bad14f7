/* Interface between harnesses and the checker. The same harness runs symbolically in wgsym and natively in replay. */
#ifndef WS_H
#define WS_H
#include <stddef.h>
#include <stdint.h>
typedef long wsint;
/* symbolic inputs */
void ws_sym(void *p, unsigned long n, const char *name);          /* n arbitrary bytes */
unsigned long ws_u(unsigned long width, const char *name);         /* arbitrary width-bit number, zero extended */
long ws_range(long lo, long hi, const char *name);                 /* arbitrary number lo..hi */
int ws_choose(long n, const char *name);                           /* arbitrary choice 0..n-1, explored path by path */
long ws_concretize(long v);                                        /* split the path over all values of v */
/* control */
void ws_assume(long c);
void ws__assert(long c, const char *msg);
void ws__fail(const char *msg);
void ws_reach(const char *name);                                   /* reachability witness */
void ws_exit(void);                                                /* end this path normally */
long ws_param(const char *name, long dflt);                        /* bound chosen on the command line */
void ws_dedup(void);                                               /* prune if this exact state was seen before */
void ws_print(const char *msg, ...);
long ws_issym(long v);
/* coroutines (schedules) */
int ws_co_new(void (*fn)(void *), void *arg);
void ws_co_switch(int id);
int ws_co_self(void);
int ws_co_live(int id);
#define WS_S2(x) #x
#define WS_S1(x) WS_S2(x)
#define ws_assert(c) ws__assert((c)!=0, #c)
#define ws_check(c,msg) ws__assert((c)!=0, msg)
void ws_main(void);

/* environment model (env.c) */
extern int ws_malloc_faults;      /* remaining process-memory failures that may be injected */
extern int ws_io_faults;          /* remaining file-operation failures that may be injected */
extern long ws_malloc_limit;      /* requests above this size fail */
extern int ws_faults_hit;         /* number of injected failures so far */
extern unsigned long ws_last_request; /* bytes of the last request for memory */
extern long ws_alloc_live;        /* blocks obtained and not yet released */
int ws_file_put(const char *name, const void *data, unsigned long n);  /* create a file with given content */
unsigned char *ws_file_data(const char *name);                         /* content (NULL: no such file) */
long ws_file_size(const char *name);
void ws_file_truncate(const char *name, long n);
int ws_files_open(void);                                               /* open handles */
void ws_file_remove(const char *name);
int ws_shm_nattch(int key); int ws_shm_all(void); int ws_shm_count(void); int ws_shm_mode(int key); char *ws_shm_data(int key); long ws_shm_size(int key); /* shared memory segments; -1: none */
extern long ws_time_now;
#endif
