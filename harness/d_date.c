/* D03: dates and times */
#include "h.h"
static int leap(int y){ return (y%4==0&&y%100!=0)||y%400==0; }
static int mdays(int y,int m){ return m==2?28+leap(y):(m==4||m==6||m==9||m==11)?30:31; }
void ws_main(void){ void*db=newdb(200000); int y,m,d,yy,mm,dd; (void)mdays;
#ifdef U_YMD /* every day: number, back, next day */
  { int r,r2,maxy=ws_param("years",400),y0; wg_int e; y0=ws_param("from",1); y=(int)ws_range(y0,y0+maxy-1,"year"); m=(int)ws_range(1,12,"month"); d=(int)ws_range(1,31,"day"); m=(int)ws_concretize(m); ws_assume(d<=mdays(y,m)); y=(int)ws_concretize(y);
    r=wg_ymd_to_date(db,y,m,d); ws_check(r>0,"a calendar date is accepted"); wg_date_to_ymd(db,r,&yy,&mm,&dd); ws_check(yy==y&&mm==m&&dd==d,"a date converts back to itself");
    if(d<mdays(y,m)) d++; else { d=1; if(m<12) m++; else { m=1; y++; } }
    r2=wg_ymd_to_date(db,y,m,d); ws_check(r2==r+1,"the next day has the next number");
    e=wg_encode_date(db,r); ws_check(e!=WG_ILLEGAL&&wg_get_encoded_type(db,e)==WG_DATETYPE&&wg_decode_date(db,e)==r,"a date is stored"); ws_reach("day"); }
#endif
#ifdef U_FIRST
  ws_check(wg_ymd_to_date(db,1,1,1)==1,"day one"); ws_check(wg_ymd_to_date(db,2010,1,1)==733773,"a known day"); ws_reach("first");
#endif
#ifdef U_BAD /* any three numbers: accepted exactly if they are a date */
  { int r,ok; long hi=ws_param("hi",22000); y=(int)ws_u(32,"year"); m=(int)ws_u(32,"month"); d=(int)ws_u(32,"day"); r=wg_ymd_to_date(db,y,m,d); ok=y>=1&&m>=1&&m<=12&&d>=1&&d<=mdays(y,m); if(!ok) ws_check(r==-1,"an impossible date is rejected"); else if(y<=hi) ws_check(r!=-1,"a calendar date is accepted"); else ws_check(r==-1||(r>0&&r<=8323200),"a date too late is rejected"); ws_reach("any"); }
#endif
#ifdef U_HMS
  { int h=(int)ws_u(32,"hour"),mi=(int)ws_u(32,"min"),s=(int)ws_u(32,"sec"),p=(int)ws_u(32,"part"),r,hh,mn,ss,pp,ok=(h>=0&&h<24&&mi>=0&&mi<60&&s>=0&&s<60&&p>=0&&p<100),mid=(h==24&&mi==0&&s==0&&p==0); wg_int e;
    r=wg_hms_to_time(db,h,mi,s,p); if(!ok){ if(!mid) ws_check(r==-1,"an impossible time is rejected"); else ws_check(r==-1||r==8640000,"midnight"); } else { ws_check(r>=0&&r<8640000,"a time is accepted"); ws_check(r==((h*60+mi)*60+s)*100+p,"the number is the hundredths since midnight"); ws_reach("any"); (void)hh;(void)mn;(void)ss;(void)pp;(void)e; } }
#endif
#ifdef U_HMSV
  { int h=ws_choose(24,"hour"),mi=(int)ws_range(0,59,"min"),s=(int)ws_range(0,59,"sec"),p=(int)ws_range(0,99,"part"),r,hh,mn,ss,pp; wg_int e; r=wg_hms_to_time(db,h,mi,s,p); ws_check(r>=0&&r<8640000,"a time is accepted"); wg_time_to_hms(db,r,&hh,&mn,&ss,&pp); ws_check(hh==h&&mn==mi&&ss==s&&pp==p,"a time converts back to itself"); 
    e=wg_encode_time(db,r); ws_check(e!=WG_ILLEGAL&&wg_get_encoded_type(db,e)==WG_TIMETYPE&&wg_decode_time(db,e)==r,"a time is stored"); ws_reach("time"); }
#endif
#ifdef U_ISO /* written as text and read back */
  { static char b[40]; int r,t,k,h,mi; long y0=ws_param("from",1); y=(int)ws_concretize(ws_range(y0,y0+ws_param("years",20)-1,"year")); 
#ifdef U_ISOT
    d=28; h=ws_choose(24,"hour"); mi=(int)ws_range(0,59,"min"); t=(h*60+mi)*6000+(int)ws_range(0,59,"sec")*100+(int)ws_range(0,99,"part"); m=ws_param("month",2);
#else
    m=ws_choose(12,"month")+1; d=ws_choose(mdays(y,m),"day")+1; h=23; mi=59; t=8639999;
#endif
    r=wg_ymd_to_date(db,y,m,d);
    k=wg_strf_iso_datetime(db,r,t,b); ws_check(k==22&&strlen(b)==22,"ISO text has its length"); ws_check(b[4]=='-'&&b[7]=='-'&&b[10]=='T'&&b[13]==':'&&b[16]==':'&&b[19]=='.',"ISO text has its separators");
    ws_check(wg_strp_iso_date(db,b)==r,"an ISO date reads back"); ws_check(wg_strp_iso_time(db,b+11)==t,"an ISO time reads back"); ws_reach("iso"); }
#endif
}
