/* C01: comparison */
#include "h.h"
static void*db;
typedef struct { int k; wg_int e; long i; double d; const char*s; int n; const char*x; } val;
static const char*S[]={"","a","ab","abc","b","\x80","\xff","aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa","aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaab","aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"};
static const char*X[]={NULL,"","en","de"};
#define NK 13
static char ST[3][8];
static val mk(int k,int slot){ val v; memset(&v,0,sizeof v); v.k=k; switch(k){
 case 0: v.e=wg_encode_null(db,0); break;
 case 1: v.i=(long)ws_u(64,"int"); v.e=wg_encode_int(db,v.i); break;
 case 2: { union { double d; unsigned long u; } x; x.u=ws_u(64,"double"); v.d=x.d; v.e=wg_encode_double(db,v.d); break; }
 case 3: v.s=S[ws_choose(10,"text")]; v.e=wg_encode_str(db,v.s,X[ws_choose(3,"lang")]); break;
 case 4: v.s=S[ws_choose(10,"text")]; v.x=X[1+ws_choose(3,"type")]; v.e=wg_encode_xmlliteral(db,v.s,v.x); break;
 case 5: v.s=S[ws_choose(10,"text")]; v.x=X[ws_choose(4,"prefix")]; v.e=wg_encode_uri(db,v.s,v.x); break;
 case 6: { static const char*B[]={"a","a\0b","a\0c","abc","a\0b\0","b","aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa\0x","aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa\0y","\xff"}; static const int N[]={1,3,3,3,4,1,56,56,1}; int c=ws_choose(9,"blob"); v.s=B[c]; v.n=N[c]; v.e=wg_encode_blob(db,(char*)v.s,"t",v.n); break; }
 case 7: v.i=(unsigned char)ws_u(8,"char"); v.e=wg_encode_char(db,(char)v.i); break;
 case 8: v.i=(long)ws_range(-5,5,"fix")*1111; v.i=ws_concretize(v.i); v.e=wg_encode_fixpoint(db,v.i/10000.0); break;
 case 9: v.i=(int)ws_u(32,"date"); v.e=wg_encode_date(db,(int)v.i); ws_assume(v.e!=WG_ILLEGAL); break;
 case 10: v.i=(int)ws_u(32,"time"); v.e=wg_encode_time(db,(int)v.i); ws_assume(v.e!=WG_ILLEGAL); break;
 case 11: v.i=(long)ws_u(58,"var"); v.e=wg_encode_var(db,v.i); break;
 default: { int i,n=ws_choose(4,"short"); for(i=0;i<n;i++) ST[slot][i]=(char)ws_range(1,255,"c"); ST[slot][n]=0; v.k=3; v.s=ST[slot]; v.e=wg_encode_str(db,v.s,NULL); } }
 ws_assert(v.e!=WG_ILLEGAL); return v; }
/* one representative per kind whose contents are arbitrary where numbers: strings fixed */
static val fx(int k){ val v; memset(&v,0,sizeof v); v.k=k; switch(k){ case 3: v.e=wg_encode_str(db,ws_choose(2,"long")?S[7]:"a","en"); break; case 4: v.e=wg_encode_xmlliteral(db,"a","en"); break; case 5: v.e=wg_encode_uri(db,"a","en"); break; case 6: v.e=wg_encode_blob(db,(char*)(ws_choose(2,"empty")?"a":"zz"),"t",ws_choose(2,"n")+1); break; case 8: v.e=wg_encode_fixpoint(db,ws_choose(2,"fixsign")?-1.5:2.5); break; default: return mk(k,0); } return v; }
static int sg(long r){ return r<0?-1:r>0; }
static int ustr(const char*a,const char*b){ for(;;a++,b++){ unsigned char x=*a,y=*b; if(x!=y) return x<y?-1:1; if(!x) return 0; } }
static int want(val a,val b){ switch(a.k){ case 0: return 0; case 1: case 7: case 8: case 9: case 10: case 11: return a.i<b.i?-1:a.i>b.i; 
 case 2: { int na=a.d!=a.d,nb=b.d!=b.d; if(na||nb) return na-nb; return a.d<b.d?-1:a.d>b.d; }
 case 3: return ustr(a.s,b.s);
 case 4: case 5: { const char*x=a.x?a.x:"",*y=b.x?b.x:""; int r=ustr(x,y); return r?r:ustr(a.s,b.s); }
 default: { int n=a.n<b.n?a.n:b.n,i; for(i=0;i<n;i++){ unsigned char x=a.s[i],y=b.s[i]; if(x!=y) return x<y?-1:1; } return sg(a.n-b.n); } } }
void ws_main(void){ db=newdb(200000);
#ifdef U_PAIR
  { int ka=ws_choose(NK,"kind"),kb=ws_choose(NK,"kind"); val a=mk(ka,0),b=mk(kb,1); long r=WG_COMPARE(db,a.e,b.e),q=WG_COMPARE(db,b.e,a.e); ws_check(r==WG_EQUAL||r==WG_LESSTHAN||r==WG_GREATER,"comparison gives equal, less or greater"); ws_check(sg(q)==-sg(r),"swapping flips the answer"); if(a.k!=b.k) ws_check(r!=WG_EQUAL,"values of different types are not equal"); else ws_check(sg(r)==want(a,b),"comparison agrees with the values"); ws_reach("pair"); }
#endif
#ifdef U_TYPES /* between types the order is one line */
  { int i,j,k; static val v[NK]; long r,s; i=ws_choose(12,"i"); j=ws_choose(12,"j"); k=ws_choose(12,"k"); ws_assume(i!=j&&j!=k&&i!=k); v[i]=fx(i); v[j]=fx(j); v[k]=fx(k); r=WG_COMPARE(db,v[i].e,v[j].e); s=WG_COMPARE(db,v[j].e,v[k].e); if(r==WG_LESSTHAN&&s==WG_LESSTHAN) ws_check(WG_COMPARE(db,v[i].e,v[k].e)==WG_LESSTHAN,"the order is transitive"); ws_reach("types"); }
#endif
#ifdef U_REC /* records compare by contents */
  { void*r[3]; int i,n[3]; long x[3][3]; wg_int e[3]; long c,d; for(i=0;i<3;i++){ int f; n[i]=1+ws_choose(2,"len"); r[i]=wg_create_record(db,n[i]); for(f=0;f<n[i];f++){ x[i][f]=(long)ws_u(64,"x"); ws_assert(wg_set_int_field(db,r[i],f,x[i][f])==0); } e[i]=wg_encode_record(db,r[i]); }
    c=WG_COMPARE(db,e[0],e[1]); d=WG_COMPARE(db,e[1],e[0]); ws_check(sg(c)==-sg(d),"swapping flips the answer");
    if(n[0]==n[1]){ int f,w=0; for(f=0;f<n[0]&&!w;f++) w=x[0][f]<x[1][f]?-1:x[0][f]>x[1][f]; ws_check(sg(c)==w,"records compare field by field"); } else ws_check(c!=WG_EQUAL,"records of different length differ");
    d=WG_COMPARE(db,e[1],e[2]); if(c==WG_LESSTHAN&&d==WG_LESSTHAN) ws_check(WG_COMPARE(db,e[0],e[2])==WG_LESSTHAN,"the order is transitive"); if(c==WG_EQUAL) ws_check(WG_COMPARE(db,e[0],e[2])==d,"equal records compare alike"); ws_reach("rec"); }
#endif
#ifdef U_DEPTH /* nested records, equal or differing at a level */
  { int lv=1+ws_choose(9,"levels"),i; long a=(long)ws_u(64,"a"),b=(long)ws_u(64,"b"); void*x=wg_create_record(db,2),*y=wg_create_record(db,2); long c; ws_assert(wg_set_int_field(db,x,0,a)==0&&wg_set_int_field(db,y,0,b)==0); for(i=1;i<lv;i++){ void*p=wg_create_record(db,2),*q=wg_create_record(db,2); ws_assert(wg_set_field(db,p,0,wg_encode_record(db,x))==0&&wg_set_field(db,q,0,wg_encode_record(db,y))==0); if(ws_choose(2,"deco")){ wg_set_str_field(db,p,1,"deco"); wg_set_str_field(db,q,1,"deco"); } x=p; y=q; }
    c=WG_COMPARE(db,wg_encode_record(db,x),wg_encode_record(db,y)); if(lv<=7) ws_check(sg(c)==(a<b?-1:a>b),"nested records compare by contents down to depth seven"); else ws_check(c!=WG_EQUAL,"beyond the depth different records differ"); ws_check(sg(WG_COMPARE(db,wg_encode_record(db,y),wg_encode_record(db,x)))==-sg(c),"swapping flips the answer"); 
    /* a cycle ends */ { void*p=wg_create_record(db,1),*q=wg_create_record(db,1); wg_set_field(db,p,0,wg_encode_record(db,q)); wg_set_field(db,q,0,wg_encode_record(db,p)); c=WG_COMPARE(db,wg_encode_record(db,p),wg_encode_record(db,q)); ws_check(c!=WG_EQUAL&&sg(WG_COMPARE(db,wg_encode_record(db,q),wg_encode_record(db,p)))==-sg(c),"cycles"); } ws_reach("depth"); }
#endif
}
