/* D04: texts, URIs, XML literals and blobs come back byte for byte */
#include "h.h"
static void*db; static char T[400],X[100],B[420];
static wg_int enc(int k,const char*x,int n){ switch(k){ case 0: return wg_encode_str(db,T,x); case 1: return wg_encode_uri(db,T,x); case 2: return wg_encode_xmlliteral(db,T,x); default: return wg_encode_blob(db,T,x,n); } }
static int ty(int k){ static const int t[]={WG_STRTYPE,WG_URITYPE,WG_XMLLITERALTYPE,WG_BLOBTYPE}; return t[k]; }
static char*dec(int k,wg_int e){ switch(k){ case 0: return wg_decode_str(db,e); case 1: return wg_decode_uri(db,e); case 2: return wg_decode_xmlliteral(db,e); default: return wg_decode_blob(db,e); } }
static char*decx(int k,wg_int e){ switch(k){ case 0: return wg_decode_str_lang(db,e); case 1: return wg_decode_uri_prefix(db,e); case 2: return wg_decode_xmlliteral_xsdtype(db,e); default: return wg_decode_blob_type(db,e); } }
static long len(int k,wg_int e){ switch(k){ case 0: return wg_decode_str_len(db,e); case 1: return wg_decode_uri_len(db,e); case 2: return wg_decode_xmlliteral_len(db,e); default: return wg_decode_blob_len(db,e); } }
static long lenx(int k,wg_int e){ switch(k){ case 0: return wg_decode_str_lang_len(db,e); case 1: return wg_decode_uri_prefix_len(db,e); case 2: return wg_decode_xmlliteral_xsdtype_len(db,e); default: return wg_decode_blob_type_len(db,e); } }
static long cpy(int k,wg_int e,char*b,long m){ switch(k){ case 0: return wg_decode_str_copy(db,e,b,m); case 1: return wg_decode_uri_copy(db,e,b,m); case 2: return wg_decode_xmlliteral_copy(db,e,b,m); default: return wg_decode_blob_copy(db,e,b,m); } }
static long cpyx(int k,wg_int e,char*b,long m){ switch(k){ case 0: return wg_decode_str_lang_copy(db,e,b,m); case 1: return wg_decode_uri_prefix_copy(db,e,b,m); case 2: return wg_decode_xmlliteral_xsdtype_copy(db,e,b,m); default: return wg_decode_blob_type_copy(db,e,b,m); } }
static void same(int k,wg_int e,int n,const char*x){ char*p,*q; long i; ws_check(wg_get_encoded_type(db,e)==ty(k),"the type is the one encoded"); p=dec(k,e); ws_assert(p!=NULL); ws_check(memcmp(p,T,n)==0,"decodes to the same bytes"); if(k!=3) ws_check(p[n]==0,"decoded text ends with a zero"); ws_check(len(k,e)==n,"decodes to the same length");
  q=decx(k,e); if(!x) ws_check(q==NULL,"no annotation stays none"); else { ws_assert(q!=NULL); ws_check(strcmp(q,x)==0,"the annotation is the same"); } ws_check(lenx(k,e)==(x?(long)strlen(x):0),"the annotation length is the same"); (void)i; }
static void copies(int k,wg_int e,int n,const char*x,long m){ long i,r,need=k==3?n:n+1; memset(B,0x5a,sizeof B); r=cpy(k,e,B,m); if(m>=need){ ws_check(r==n,"copying gives the length"); ws_check(memcmp(B,T,n)==0,"copying gives the same bytes"); if(k!=3) ws_check(B[n]==0,"the copy ends with a zero"); } else ws_check(r==-1,"a copy that does not fit is refused"); for(i=m;i<(long)sizeof B&&i<m+16;i++) ws_check(B[i]==0x5a,"nothing is written past the stated size");
  memset(B,0x5a,sizeof B); r=cpyx(k,e,B,m); if(!x){ if(m>0) ws_check(r==0&&B[0]==0,"copying no annotation gives an empty text"); } else if(m>(long)strlen(x)) ws_check(r==(long)strlen(x)&&strcmp(B,x)==0,"copying the annotation"); else ws_check(r==-1,"an annotation that does not fit is refused"); for(i=m;i<(long)sizeof B&&i<m+16;i++) ws_check(B[i]==0x5a,"nothing is written past the stated size"); }
void ws_main(void){ db=newdb(200000);
#ifdef U_SHORT
  { int n=ws_choose(32,"len"),i; wg_int e; void*r=wg_create_record(db,2); for(i=0;i<n;i++) T[i]=(char)ws_range(1,255,"c"); T[n]=0; e=wg_encode_str(db,T,NULL); ws_assert(e!=WG_ILLEGAL); ws_assert(wg_set_field(db,r,1,e)==0); e=wg_get_field(db,r,1); same(0,e,n,NULL); copies(0,e,n,NULL,ws_choose(n+3,"room")); ws_assert(wg_set_str_field(db,r,0,T)==0); same(0,wg_get_field(db,r,0),n,NULL); same(0,e,n,NULL); ws_reach("short"); }
#endif
#ifdef U_LONG
  { static const int L[]={0,1,7,8,31,32,33,39,64,300}; static const int XL[]={-1,0,1,5,31,32,40}; static const unsigned char C[]={1,'a',0x80,0xff}; int k=ws_choose(4,"kind"),n=L[ws_choose(10,"len")],xl=XL[ws_choose(7,"xlen")],i; char*x=NULL; wg_int e,e2,e3; void*r; static char T2[400];
    if(k>=2) ws_assume(xl>=0); if(k==3) ws_assume(n>0);
    for(i=0;i<n;i++) T[i]="abcdefghij"[i%10]; if(n) T[n-1]=C[ws_choose(k==3?4:4,"last")]; if(n>1&&k==3) T[n/2]=0; T[n]=0; if(xl>=0){ x=X; for(i=0;i<xl;i++) X[i]="xyz:/"[i%5]; X[xl]=0; }
    r=wg_create_record(db,3); e=enc(k,x,n); ws_assert(e!=WG_ILLEGAL); ws_assert(wg_set_field(db,r,1,e)==0);
    same(k,e,n,x); copies(k,e,n,x,ws_choose(4,"room")==0?0:ws_choose(3,"room2")==0?n:ws_choose(2,"room3")?n+1:xl+1>0?xl+1:1);
    /* near misses stored beside it do not disturb it */
    memcpy(T2,T,sizeof T); if(n){ T[n-1]^=3; if(!T[n-1]&&k!=3) T[n-1]='b'; e2=enc(k,x,n); ws_assert(e2!=WG_ILLEGAL&&e2!=e); ws_assert(wg_set_field(db,r,0,e2)==0); same(k,e2,n,x); }
    memcpy(T,T2,sizeof T); if(xl>0){ X[0]='q'; e3=enc(k,x,n); ws_assert(e3!=WG_ILLEGAL); ws_check(e3!=e,"another annotation makes another value"); ws_assert(wg_set_field(db,r,2,e3)==0); same(k,e3,n,x); X[0]='x'; }
    same(k,wg_get_field(db,r,1),n,x); if(n){ ws_assert(wg_set_int_field(db,r,0,1)==0); } if(xl>0) ws_assert(wg_set_int_field(db,r,2,1)==0); same(k,wg_get_field(db,r,1),n,x); ws_reach("long"); }
#endif
}
