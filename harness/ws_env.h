/* Force-included into every source file under check: environment calls go to the model in env.c. */
#ifndef WS_ENV_H
#define WS_ENV_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>
#include <time.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/timeb.h>
#include <sys/ipc.h>
#include <sys/shm.h>
#include <sys/mman.h>
#include <sys/file.h>
#include <fcntl.h>
#include <unistd.h>
#include <errno.h>
#include <signal.h>
#include <limits.h>
#include <ctype.h>
#include <math.h>
#include <pthread.h>
#include <sched.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <linux/futex.h>
void *ws_malloc(size_t); void *ws_calloc(size_t,size_t); void *ws_realloc(void*,size_t); void ws_free(void*);
FILE *ws_fopen(const char*,const char*); FILE *ws_fdopen(int,const char*); int ws_fclose(FILE*); size_t ws_fread(void*,size_t,size_t,FILE*); size_t ws_fwrite(const void*,size_t,size_t,FILE*);
int ws_fputc(int,FILE*); int ws_fgetc(FILE*); int ws_fputs(const char*,FILE*); char*ws_fgets(char*,int,FILE*); int ws_feof(FILE*); int ws_ferror(FILE*); int ws_fflush(FILE*); int ws_fseek(FILE*,long,int); long ws_ftell(FILE*); void ws_rewind(FILE*); int ws_ungetc(int,FILE*); int ws_fileno(FILE*); void ws_clearerr(FILE*);
int ws_fprintf(FILE*,const char*,...); int ws_printf(const char*,...); int ws_vfprintf(FILE*,const char*,va_list); int ws_puts(const char*); int ws_putchar(int); void ws_perror(const char*);
int ws_open(const char*,int,...); int ws_close(int); ssize_t ws_read(int,void*,size_t); ssize_t ws_write(int,const void*,size_t); off_t ws_lseek(int,off_t,int); int ws_ftruncate(int,off_t); int ws_truncate(const char*,off_t); int ws_fsync(int); int ws_unlink(const char*); int ws_rename(const char*,const char*); int ws_access(const char*,int); int ws_stat(const char*,struct stat*); int ws_fstat(int,struct stat*); mode_t ws_umask(mode_t);
int ws_shmget(key_t,size_t,int); void*ws_shmat(int,const void*,int); int ws_shmdt(const void*); int ws_shmctl(int,int,struct shmid_ds*);
time_t ws_time(time_t*); int ws_ftime(struct timeb*); struct tm*ws_localtime_r(const time_t*,struct tm*); struct tm*ws_gmtime_r(const time_t*,struct tm*); int ws_nanosleep(const struct timespec*,struct timespec*); int ws_usleep(unsigned); unsigned ws_sleep(unsigned); int ws_sched_yield(void); long ws_syscall(long,...); uid_t ws_getuid(void); gid_t ws_getgid(void); pid_t ws_getpid(void); char*ws_getenv(const char*); void ws_exit_(int); void ws_abort(void); int ws_clock_gettime(int,struct timespec*); int ws_gettimeofday(struct timeval*,void*);
#ifndef WS_NO_REDIRECT
#undef getc
#undef putc
#undef putchar
#define malloc ws_malloc
#define calloc ws_calloc
#define realloc ws_realloc
#define free ws_free
#define fopen ws_fopen
#define fdopen ws_fdopen
#define fclose ws_fclose
#define fread ws_fread
#define fwrite ws_fwrite
#define fputc ws_fputc
#define putc ws_fputc
#define fgetc ws_fgetc
#define getc ws_fgetc
#define fputs ws_fputs
#define fgets ws_fgets
#undef feof
#undef ferror
#define feof ws_feof
#define ferror ws_ferror
#define clearerr ws_clearerr
#define fflush ws_fflush
#define fseek ws_fseek
#define ftell ws_ftell
#define rewind ws_rewind
#define ungetc ws_ungetc
#define fileno ws_fileno
#define fprintf ws_fprintf
#define printf ws_printf
#define vfprintf ws_vfprintf
#define puts ws_puts
#define putchar ws_putchar
#define perror ws_perror
#define open ws_open
#define close ws_close
#define read ws_read
#define write ws_write
#define lseek ws_lseek
#define ftruncate ws_ftruncate
#define truncate ws_truncate
#define fsync ws_fsync
#define fdatasync ws_fsync
#define unlink ws_unlink
#define remove ws_unlink
#define rename ws_rename
#define access ws_access
#define stat(a,b) ws_stat(a,b)
#define fstat(a,b) ws_fstat(a,b)
#define umask ws_umask
#define shmget ws_shmget
#define shmat ws_shmat
#define shmdt ws_shmdt
#define shmctl ws_shmctl
#define time(x) ws_time(x)
#define ftime(x) ws_ftime(x)
#define localtime_r ws_localtime_r
#define gmtime_r ws_gmtime_r
#define nanosleep ws_nanosleep
#define usleep ws_usleep
#define sleep ws_sleep
#define sched_yield ws_sched_yield
#define pthread_yield ws_sched_yield
#define syscall ws_syscall
#define getuid ws_getuid
#define getgid ws_getgid
#define getpid ws_getpid
#define getenv ws_getenv
#define exit ws_exit_
#define abort ws_abort
#define clock_gettime ws_clock_gettime
#define gettimeofday ws_gettimeofday
#endif
#endif
