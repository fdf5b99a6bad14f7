/* D02: doubles, fixed-point numbers, characters, nulls, variables, anonymous constants */
#include "h.h"
static void*db; static void*R;
static void keep(wg_int e,wg_int type){ ws_check(e!=WG_ILLEGAL,"a value in range is accepted"); ws_check(wg_get_encoded_type(db,e)==type,"an encoded value reports the type it was encoded with"); ws_assert(wg_set_field(db,R,1,e)==0); ws_check(wg_get_field_type(db,R,1)==type,"a stored value reports its type"); ws_check(wg_decode_int(db,wg_get_field(db,R,0))==77&&wg_decode_int(db,wg_get_field(db,R,2))==-5000000000L,"the neighbouring fields are untouched"); }
void ws_main(void){ db=newdb(200000); R=wg_create_record(db,3); wg_set_int_field(db,R,0,77); wg_set_int_field(db,R,2,-5000000000L);
#ifdef U_SIMPLE
  switch(ws_choose(6,"kind")){
  case 0: { union { double d; unsigned long u; } x,y; wg_int e; x.u=ws_u(64,"bits"); e=wg_encode_double(db,x.d); keep(e,WG_DOUBLETYPE); y.d=wg_decode_double(db,wg_get_field(db,R,1)); ws_check(y.u==x.u,"a double decodes to the identical bits"); ws_assert(wg_set_double_field(db,R,1,1.25)==0); ws_check(wg_decode_double(db,wg_get_field(db,R,1))==1.25,"overwritten"); y.u=ws_u(64,"bits2"); wg_set_double_field(db,R,1,y.d); x.d=wg_decode_double(db,wg_get_field(db,R,1)); ws_check(x.u==y.u,"a double field decodes to the identical bits"); break; }
  case 1: { char c=(char)ws_u(8,"char"); keep(wg_encode_char(db,c),WG_CHARTYPE); ws_check(wg_decode_char(db,wg_get_field(db,R,1))==c,"a character decodes to itself"); break; }
  case 2: keep(wg_encode_null(db,0),WG_NULLTYPE); ws_check(wg_get_field(db,R,1)==0,"null is zero"); ws_check(wg_decode_null(db,0)==0,"null decodes"); break;
  case 3: { long v=(long)ws_u(64,"var"); wg_int e=wg_encode_var(db,v); if(e==WG_ILLEGAL){ ws_check(v<0||v>=(1L<<59),"small variable numbers are accepted"); break; } keep(e,WG_VARTYPE); ws_check(wg_decode_var(db,wg_get_field(db,R,1))==v,"a variable number decodes to itself"); ws_reach("var"); break; }
  case 4: { int v=(int)ws_u(32,"date"); wg_int e=wg_encode_date(db,v); if(e==WG_ILLEGAL){ ws_check(v<-128*255*255||v>128*255*255,"a date number in the documented range is accepted"); break; } keep(e,WG_DATETYPE); ws_check(wg_decode_date(db,wg_get_field(db,R,1))==v,"a date decodes to itself"); break; }
  case 5: { int v=(int)ws_u(32,"time"); wg_int e=wg_encode_time(db,v); if(e==WG_ILLEGAL){ ws_check(v<0||v>60*60*24*100,"a time number in the documented range is accepted"); break; } keep(e,WG_TIMETYPE); ws_check(wg_decode_time(db,wg_get_field(db,R,1))==v,"a time decodes to itself"); break; }
  }
  ws_reach("kept");
#endif
#ifdef U_FIX /* every double closer to k/10000 than to its neighbours, for k spread over the range */
  { long n=ws_param("ks",40), i=ws_choose(n,"k"), k=i<10?i*3-15:-8000000+(16000000/(n-1))*(i)+i%7; union { double d; unsigned long u; } x; wg_int e; double mid=(double)k/10000.0; ws_assume(k>=-8000000&&k<=8000000);
    x.u=ws_u(64,"bits"); ws_assume(x.d>=mid-0.000049&&x.d<=mid+0.000049&&x.d<=800&&x.d>=-800); e=wg_encode_fixpoint(db,x.d); keep(e,WG_FIXPOINTTYPE); ws_check(wg_decode_fixpoint(db,wg_get_field(db,R,1))==mid,"a fixed-point number is rounded to the nearest ten-thousandth"); ws_reach("fix"); }
#endif
#ifdef U_FIXR /* any double */
  { union { double d; unsigned long u; } x; wg_int e; double r; x.u=ws_u(64,"bits"); e=wg_encode_fixpoint(db,x.d);
    if(!(x.d>=-800&&x.d<=800)) ws_check(e==WG_ILLEGAL,"a value outside the range is refused");
    else { keep(e,WG_FIXPOINTTYPE); ws_check((e>>8)>=-8000000&&(e>>8)<=8000000,"in range"); ws_reach("in"); } }
#endif
#ifdef U_FIXD
  { long k=ws_choose(17,"k"); static const long K[]={-8000000,-7999999,-4000001,-123457,-10001,-10000,-9999,-1,0,1,9999,10000,10001,3333333,6666667,7999999,8000000}; double d=K[k]/10000.0; wg_int e=wg_encode_fixpoint(db,d); keep(e,WG_FIXPOINTTYPE); ws_check(wg_decode_fixpoint(db,wg_get_field(db,R,1))==d,"a fixed-point number decodes to itself"); ws_reach("fixd"); }
#endif
#ifdef U_ANON
  { static char a[60],b[40]; int n=ws_choose(ws_param("chars",6),"len"),i; wg_int e,e2; char*s; if(n==5) n=40; for(i=0;i<n;i++) { a[i]='q'; if(i==n-1||i<(int)ws_param("sym",1)) a[i]=(char)(1+ws_choose(255,"c")); } a[n]=0; e=wg_encode_anonconst(db,a); ws_assert(e!=WG_ILLEGAL); ws_assert(wg_set_field(db,R,1,e)==0); s=wg_decode_anonconst(db,wg_get_field(db,R,1)); ws_assert(s!=NULL); ws_check(strcmp(s,a)==0,"an anonymous constant decodes to its name"); e2=wg_encode_anonconst(db,a); ws_check(e2==e,"the same name gives the same constant"); ws_reach("anon"); }
#endif
}
