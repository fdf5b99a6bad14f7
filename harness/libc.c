/* C library model for wgsym (natively the real C library is used). */
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>
#include <errno.h>
#include <time.h>
#include <locale.h>
void *ws__alloc(unsigned long n,long zero); void ws__free(void*); long ws_objsize(void*); void ws_exit(void); void ws__fail(const char*);
long ws__fmtd(char*out,long cap,const char*spec,double d); double ws__strtod(const char*s,long n); long ws_concretize(long);
void *memcpy(void*,const void*,size_t); void *memset(void*,int,size_t);
static int the_errno; int *__errno_location(void){ return &the_errno; }
void *malloc(size_t n){ return ws__alloc(n,0); }
void *calloc(size_t a,size_t b){ return ws__alloc(a*b,1); }
void free(void*p){ if(p) ws__free(p); }
void *realloc(void*p,size_t n){ void*q; long o; if(!p) return malloc(n); o=ws_objsize(p); q=malloc(n); if(!q) return 0; memcpy(q,p,(size_t)o<n?(size_t)o:n); ws__free(p); return q; }
size_t strlen(const char*s){ size_t n=0; while(s[n]) n++; return n; }
size_t strnlen(const char*s,size_t m){ size_t n=0; while(n<m&&s[n]) n++; return n; }
int memcmp(const void*a,const void*b,size_t n){ const unsigned char*x=a,*y=b; size_t i; for(i=0;i<n;i++) if(x[i]!=y[i]) return (int)x[i]-(int)y[i]; return 0; }
int bcmp(const void*a,const void*b,size_t n){ return memcmp(a,b,n); }
void *memchr(const void*a,int c,size_t n){ const unsigned char*x=a; size_t i; for(i=0;i<n;i++) if(x[i]==(unsigned char)c) return (void*)(x+i); return 0; }
int strcmp(const char*a,const char*b){ while(*a&&*a==*b){a++;b++;} return (int)(unsigned char)*a-(int)(unsigned char)*b; }
int strncmp(const char*a,const char*b,size_t n){ size_t i; for(i=0;i<n;i++){ if(a[i]!=b[i]) return (int)(unsigned char)a[i]-(int)(unsigned char)b[i]; if(!a[i]) return 0; } return 0; }
int strcoll(const char*a,const char*b){ return strcmp(a,b); }
int tolower(int c){ return c>='A'&&c<='Z'?c+32:c; } int toupper(int c){ return c>='a'&&c<='z'?c-32:c; }
int isdigit(int c){ return c>='0'&&c<='9'; } int isxdigit(int c){ return (c>='0'&&c<='9')||(c>='a'&&c<='f')||(c>='A'&&c<='F'); } int isalpha(int c){ return (c>='a'&&c<='z')||(c>='A'&&c<='Z'); } int isalnum(int c){ return isdigit(c)||isalpha(c); } int isspace(int c){ return c==' '||(c>=9&&c<=13); } int isupper(int c){ return c>='A'&&c<='Z'; } int islower(int c){ return c>='a'&&c<='z'; } int iscntrl(int c){ return (c>=0&&c<32)||c==127; } int isprint(int c){ return c>=32&&c<127; } int isgraph(int c){ return c>32&&c<127; } int ispunct(int c){ return isgraph(c)&&!isalnum(c); }
static unsigned short ctab[384]; static const unsigned short*ctp; 
const unsigned short **__ctype_b_loc(void){ int i; if(!ctp){ for(i=0;i<256;i++){ unsigned v=0; if(isupper(i))v|=256; if(islower(i))v|=512; if(isalpha(i))v|=1024; if(isdigit(i))v|=2048; if(isxdigit(i))v|=4096; if(isspace(i))v|=8192; if(isprint(i))v|=16384; if(isgraph(i))v|=32768; if(i==' '||i==9)v|=1; if(iscntrl(i))v|=2; if(ispunct(i))v|=4; if(isalnum(i))v|=8; ctab[128+i]=v; } ctp=ctab+128; } return &ctp; }
static int ltab[384],utab[384]; static const int*ltp,*utp;
const int **__ctype_tolower_loc(void){ int i; if(!ltp){ for(i=-128;i<256;i++) ltab[128+i]=tolower(i); ltp=ltab+128; } return &ltp; }
const int **__ctype_toupper_loc(void){ int i; if(!utp){ for(i=-128;i<256;i++) utab[128+i]=toupper(i); utp=utab+128; } return &utp; }
int strcasecmp(const char*a,const char*b){ while(*a&&tolower(*a)==tolower(*b)){a++;b++;} return tolower((unsigned char)*a)-tolower((unsigned char)*b); }
int strncasecmp(const char*a,const char*b,size_t n){ size_t i; for(i=0;i<n;i++){ int x=tolower((unsigned char)a[i]),y=tolower((unsigned char)b[i]); if(x!=y) return x-y; if(!x) return 0; } return 0; }
char*strcpy(char*d,const char*s){ char*r=d; while((*d++=*s++)); return r; }
char*strncpy(char*d,const char*s,size_t n){ size_t i=0; for(;i<n&&s[i];i++) d[i]=s[i]; for(;i<n;i++) d[i]=0; return d; }
char*stpcpy(char*d,const char*s){ while((*d=*s)){d++;s++;} return d; }
char*strcat(char*d,const char*s){ strcpy(d+strlen(d),s); return d; }
char*strncat(char*d,const char*s,size_t n){ char*p=d+strlen(d); size_t i=0; for(;i<n&&s[i];i++) p[i]=s[i]; p[i]=0; return d; }
char*strchr(const char*s,int c){ for(;;s++){ if(*s==(char)c) return (char*)s; if(!*s) return 0; } }
char*strrchr(const char*s,int c){ const char*r=0; for(;;s++){ if(*s==(char)c) r=s; if(!*s) return (char*)r; } }
char*index(const char*s,int c){ return strchr(s,c); }
char*strstr(const char*h,const char*n){ size_t k=strlen(n); if(!k) return (char*)h; for(;*h;h++) if(!strncmp(h,n,k)) return (char*)h; return 0; }
size_t strspn(const char*s,const char*a){ size_t n=0; while(s[n]&&strchr(a,s[n])) n++; return n; }
size_t strcspn(const char*s,const char*a){ size_t n=0; while(s[n]&&!strchr(a,s[n])) n++; return n; }
char*strpbrk(const char*s,const char*a){ s+=strcspn(s,a); return *s?(char*)s:0; }
char*strdup(const char*s){ size_t n=strlen(s)+1; char*p=malloc(n); if(p) memcpy(p,s,n); return p; }
char*strndup(const char*s,size_t m){ size_t n=strnlen(s,m); char*p=malloc(n+1); if(p){ memcpy(p,s,n); p[n]=0; } return p; }
char*strtok_r(char*s,const char*d,char**sv){ char*r; if(!s) s=*sv; s+=strspn(s,d); if(!*s){*sv=s;return 0;} r=s; s+=strcspn(s,d); if(*s) *s++=0; *sv=s; return r; }
static char*tsv; char*strtok(char*s,const char*d){ return strtok_r(s,d,&tsv); }
static unsigned long stru(const char*s,char**e,int base,int*neg,int*ovf){ const char*p=s; unsigned long v=0; int any=0; *neg=0;*ovf=0; while(isspace((unsigned char)*p)) p++; if(*p=='+'||*p=='-'){ *neg=*p=='-'; p++; } if((base==0||base==16)&&p[0]=='0'&&(p[1]=='x'||p[1]=='X')&&isxdigit((unsigned char)p[2])){ p+=2; base=16; } if(base==0) base=p[0]=='0'?8:10; for(;;p++){ int d; char c=*p; if(c>='0'&&c<='9') d=c-'0'; else if(c>='a'&&c<='z') d=c-'a'+10; else if(c>='A'&&c<='Z') d=c-'A'+10; else break; if(d>=base) break; any=1; if(v>(~0UL-d)/base) *ovf=1; v=v*base+d; } if(e) *e=(char*)(any?p:s); return v; }
long strtol(const char*s,char**e,int b){ int n,o; unsigned long v=stru(s,e,b,&n,&o); if(n){ if(o||v>(1UL<<63)){ the_errno=ERANGE; return (long)(1UL<<63); } return (long)(0-v); } if(o||v>=(1UL<<63)){ the_errno=ERANGE; return (long)(~0UL>>1); } return (long)v; }
long long strtoll(const char*s,char**e,int b){ return strtol(s,e,b); }
unsigned long strtoul(const char*s,char**e,int b){ int n,o; unsigned long v=stru(s,e,b,&n,&o); if(o){ the_errno=ERANGE; return ~0UL; } return n?0-v:v; }
unsigned long long strtoull(const char*s,char**e,int b){ return strtoul(s,e,b); }
long __isoc23_strtol(const char*s,char**e,int b){ return strtol(s,e,b); } unsigned long __isoc23_strtoul(const char*s,char**e,int b){ return strtoul(s,e,b); } long long __isoc23_strtoll(const char*s,char**e,int b){ return strtol(s,e,b); }
int atoi(const char*s){ return (int)strtol(s,0,10); } long atol(const char*s){ return strtol(s,0,10); } long long atoll(const char*s){ return strtol(s,0,10); }
double strtod(const char*s,char**e){ const char*p=s; long n; int dig=0; while(isspace((unsigned char)*p)) p++; if(*p=='+'||*p=='-') p++;
  if((p[0]=='i'||p[0]=='I')&&(p[1]=='n'||p[1]=='N')&&(p[2]=='f'||p[2]=='F')){ p+=3; dig=1; } else if((p[0]=='n'||p[0]=='N')&&(p[1]=='a'||p[1]=='A')&&(p[2]=='n'||p[2]=='N')){ p+=3; dig=1; }
  else if(p[0]=='0'&&(p[1]=='x'||p[1]=='X')&&isxdigit((unsigned char)p[2])){ p+=2; dig=1; while(isxdigit((unsigned char)*p)) p++; }
  else { while(isdigit((unsigned char)*p)){p++;dig=1;} if(*p=='.'){ const char*q=p+1; int d2=0; while(isdigit((unsigned char)*q)){q++;d2=1;} if(dig||d2){ p=q; dig=1; } } if(dig&&(*p=='e'||*p=='E')){ const char*q=p+1; if(*q=='+'||*q=='-') q++; if(isdigit((unsigned char)*q)){ while(isdigit((unsigned char)*q)) q++; p=q; } } }
  if(!dig){ if(e) *e=(char*)s; return 0.0; } if(e) *e=(char*)p; n=p-s; return ws__strtod(s,n); }
double fabs(double),trunc(double); double round(double x){ double r=trunc(x); if(fabs(x-r)>=0.5) r+=x<0?-1.0:1.0; return r; }
double atof(const char*s){ return strtod(s,0); }
int abs(int x){ return x<0?-x:x; } long labs(long x){ return x<0?-x:x; } long long llabs(long long x){ return x<0?-x:x; }
static unsigned long rs=12345; int rand(void){ rs=rs*6364136223846793005UL+1442695040888963407UL; return (int)((rs>>33)&0x7fffffff); } void srand(unsigned s){ rs=s; } long random(void){ return rand(); } void srandom(unsigned s){ rs=s; }
static void qsw(char*a,char*b,size_t w){ size_t i; for(i=0;i<w;i++){ char t=a[i]; a[i]=b[i]; b[i]=t; } }
void qsort(void*b,size_t n,size_t w,int(*c)(const void*,const void*)){ size_t i,j; char*p=b; for(i=1;i<n;i++) for(j=i;j>0&&c(p+(j-1)*w,p+j*w)>0;j--) qsw(p+(j-1)*w,p+j*w,w); }
void *bsearch(const void*k,const void*b,size_t n,size_t w,int(*c)(const void*,const void*)){ size_t lo=0,hi=n; while(lo<hi){ size_t m=(lo+hi)/2; const char*p=(const char*)b+m*w; int r=c(k,p); if(r==0) return (void*)p; if(r<0) hi=m; else lo=m+1; } return 0; }
/* formatted output: d i u x X o c s p f g e %, flags - 0 + space, width, precision, h l ll z t */
typedef struct { char*b; size_t cap,n; } ob;
static void oc(ob*o,char c){ if(o->n+1<o->cap) o->b[o->n]=c; o->n++; }
static void onum(ob*o,unsigned long v,int neg,unsigned base,int up,int width,int left,int zero,int prec,int plus,int space){ char t[72]; int k=0,i,tot; char sg=neg?'-':plus?'+':space?' ':0;
  if(v==0){ if(prec!=0) t[k++]='0'; } else while(v){ unsigned long q=v/base; unsigned d=(unsigned)(v-q*base); t[k++]=(char)(d<10?'0'+d:(up?'A':'a')+d-10); v=q; }
  { int nd=k>prec?k:prec; tot=nd+(sg!=0); if(!left&&!(zero&&prec<0)) for(i=tot;i<width;i++) oc(o,' '); if(sg) oc(o,sg); if(!left&&zero&&prec<0) for(i=tot;i<width;i++) oc(o,'0'); for(i=k;i<nd;i++) oc(o,'0'); while(k>0) oc(o,t[--k]); if(left) for(i=tot;i<width;i++) oc(o,' '); } }
int vsnprintf(char*b,size_t cap,const char*f,va_list ap){ ob o; o.b=b;o.cap=cap;o.n=0;
  for(;*f;f++){ int left=0,zero=0,plus=0,space=0,alt=0,width=0,prec=-1,lng=0; const char*st=f; if(*f!='%'){ oc(&o,*f); continue; } f++;
    for(;;f++){ if(*f=='-')left=1; else if(*f=='0')zero=1; else if(*f=='+')plus=1; else if(*f==' ')space=1; else if(*f=='#')alt=1; else break; }
    if(*f=='*'){ width=va_arg(ap,int); if(width<0){left=1;width=-width;} f++; } else while(*f>='0'&&*f<='9') width=width*10+*f++-'0';
    if(*f=='.'){ f++; prec=0; if(*f=='*'){ prec=va_arg(ap,int); f++; } else while(*f>='0'&&*f<='9') prec=prec*10+*f++-'0'; }
    for(;;f++){ if(*f=='l'||*f=='z'||*f=='t'||*f=='j'||*f=='q') lng=1; else if(*f=='h') lng=lng<0?-2:-1; else break; }
    switch(*f){
    case 'd': case 'i': { long v=lng>0?va_arg(ap,long):(long)va_arg(ap,int); if(lng==-1) v=(short)v; if(lng==-2) v=(signed char)v; if(v<0) onum(&o,0-(unsigned long)v,1,10,0,width,left,zero,prec,plus,space); else onum(&o,v,0,10,0,width,left,zero,prec,plus,space); break; }
    case 'u': case 'x': case 'X': case 'o': { unsigned long v=lng>0?va_arg(ap,unsigned long):(unsigned long)va_arg(ap,unsigned); if(lng==-1) v=(unsigned short)v; if(lng==-2) v=(unsigned char)v; onum(&o,v,0,*f=='u'?10:*f=='o'?8:16,*f=='X',width,left,zero,prec,0,0); break; }
    case 'p': { unsigned long v=(unsigned long)va_arg(ap,void*); oc(&o,'0'); oc(&o,'x'); onum(&o,v,0,16,0,0,0,0,-1,0,0); break; }
    case 'c': { int c=va_arg(ap,int),i; if(!left) for(i=1;i<width;i++) oc(&o,' '); oc(&o,(char)c); if(left) for(i=1;i<width;i++) oc(&o,' '); break; }
    case 's': { const char*s=va_arg(ap,const char*); int n=0,i; if(!s) s="(null)"; while((prec<0||n<prec)&&s[n]) n++; if(!left) for(i=n;i<width;i++) oc(&o,' '); for(i=0;i<n;i++) oc(&o,s[i]); if(left) for(i=n;i<width;i++) oc(&o,' '); break; }
    case 'f': case 'F': case 'g': case 'G': case 'e': case 'E': { double d=va_arg(ap,double); char sp[48],t[512]; int k=0,i; const char*q; long n; sp[k++]='%'; if(left)sp[k++]='-'; if(zero)sp[k++]='0'; if(plus)sp[k++]='+'; if(space)sp[k++]=' '; if(alt)sp[k++]='#'; { ob so; so.b=sp+k; so.cap=12; so.n=0; if(width){ onum(&so,width,0,10,0,0,0,0,-1,0,0); k+=so.n; } } if(prec>=0){ ob so; sp[k++]='.'; so.b=sp+k; so.cap=12; so.n=0; onum(&so,prec,0,10,0,0,0,0,-1,0,0); k+=so.n; } sp[k++]=*f; sp[k]=0; n=ws__fmtd(t,sizeof t,sp,d); q=t; for(i=0;i<n;i++) oc(&o,q[i]); break; }
    case '%': oc(&o,'%'); break;
    case 'n': break;
    default: while(st<=f&&*st) oc(&o,*st++); if(!*f) f--; break; }
  }
  if(cap>0) b[o.n<cap?o.n:cap-1]=0; return (int)o.n; }
int snprintf(char*b,size_t n,const char*f,...){ va_list ap; int r; va_start(ap,f); r=vsnprintf(b,n,f,ap); va_end(ap); return r; }
int vsprintf(char*b,const char*f,va_list ap){ return vsnprintf(b,1UL<<30,f,ap); }
int sprintf(char*b,const char*f,...){ va_list ap; int r; va_start(ap,f); r=vsnprintf(b,1UL<<30,f,ap); va_end(ap); return r; }
/* sscanf: %d %i %u %ld %x %c %s %n with widths */
int vsscanf(const char*s,const char*f,va_list ap){ int got=0; const char*s0=s; for(;*f;f++){ int w=0,lng=0,sup=0; if(isspace((unsigned char)*f)){ while(isspace((unsigned char)*s)) s++; continue; } if(*f!='%'){ if(*s!=*f) return got?got:(*s?0:-1); s++; continue; } f++; if(*f=='*'){sup=1;f++;} while(*f>='0'&&*f<='9') w=w*10+*f++-'0'; while(*f=='l'||*f=='h'||*f=='z'){ if(*f!='h') lng=1; f++; }
  switch(*f){ case 'd': case 'i': case 'u': case 'x': { char t[40]; int k=0; char*e; long v; while(isspace((unsigned char)*s)) s++; if(!*s) return got?got:-1; if(w==0||w>38) w=38; while(k<w&&(isdigit((unsigned char)s[k])||(k==0&&(s[k]=='-'||s[k]=='+'))||(*f=='x'&&isxdigit((unsigned char)s[k])))){ t[k]=s[k]; k++; } t[k]=0; v=*f=='x'?(long)strtoul(t,&e,16):strtol(t,&e,10); if(e==t) return got; s+=e-t; if(!sup){ if(lng) *va_arg(ap,long*)=v; else *va_arg(ap,int*)=(int)v; got++; } break; }
  case 'c': if(!*s) return got?got:-1; if(!sup){ *va_arg(ap,char*)=*s; got++; } s++; break;
  case 's': { char*d=sup?0:va_arg(ap,char*); int k=0; while(isspace((unsigned char)*s)) s++; if(!*s) return got?got:-1; while(*s&&!isspace((unsigned char)*s)&&(w==0||k<w)){ if(d) d[k]=*s; k++; s++; } if(d){ d[k]=0; got++; } break; }
  case 'n': *va_arg(ap,int*)=(int)(s-s0); break;
  case 'f': case 'g': case 'e': { char*e; double v=strtod(s,&e); if(e==s) return got; s=e; if(!sup){ if(lng) *va_arg(ap,double*)=v; else *va_arg(ap,float*)=(float)v; got++; } break; }
  case '%': if(*s!='%') return got; s++; break; default: return got; } } return got; }
int sscanf(const char*s,const char*f,...){ va_list ap; int r; va_start(ap,f); r=vsscanf(s,f,ap); va_end(ap); return r; }
int __isoc99_sscanf(const char*s,const char*f,...){ va_list ap; int r; va_start(ap,f); r=vsscanf(s,f,ap); va_end(ap); return r; }
int __isoc23_sscanf(const char*s,const char*f,...){ va_list ap; int r; va_start(ap,f); r=vsscanf(s,f,ap); va_end(ap); return r; }
void __assert_fail(const char*a,const char*b,unsigned c,const char*d){ ws__fail("assert() failed"); }
char*strerror(int e){ return "error"; }
struct lconv; char*setlocale(int c,const char*l){ return "C"; }
__attribute__((weak)) int pthread_mutex_lock(void*m){ return 0; } __attribute__((weak)) int pthread_mutex_unlock(void*m){ return 0; } __attribute__((weak)) int pthread_mutex_init(void*m,void*a){ return 0; }
