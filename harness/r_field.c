/* R01: field access */
#include "h.h"
static void*db; static void*R[3]; static const int L[]={0,1,3,6}; static int len[3]; static wg_int V[3][8];
static const char*TXT="a text longer than thirty-two characters, so it is shared";
static void fill(void){ int i,f; len[0]=2; len[1]=L[ws_choose(4,"len")]; len[2]=2; for(i=0;i<3;i++){ R[i]=wg_create_record(db,len[i]); ws_assert(R[i]!=NULL); for(f=0;f<len[i];f++){ wg_int e; switch((i+f)%4){ case 0: e=wg_encode_int(db,f+10); break; case 1: e=wg_encode_str(db,TXT,NULL); break; case 2: e=wg_encode_double(db,f+0.5); break; default: e=wg_encode_int(db,1L<<45); } V[i][f]=e; ws_assert(wg_set_field(db,R[i],f,e)==0); } } }
static void others(int r,int fld){ int i,f; for(i=0;i<3;i++){ ws_check(wg_get_record_len(db,R[i])==len[i],"lengths are unchanged"); for(f=0;f<len[i];f++) if(i!=r||f!=fld) ws_check(wg_get_field(db,R[i],f)==V[i][f],"no other field is changed"); } ws_check(strcmp(wg_decode_str(db,V[0][1]),TXT)==0,"values are intact"); }
void ws_main(void){ db=newdb(200000); fill();
#ifdef U_SET
  { long f=(long)ws_u(64,"field"); int op=ws_choose(8,"op"); int in=f>=0&&f<len[1]; wg_int r,nv; long iv=(long)ws_u(64,"value"); ws_assume(ws_choose(2,"in")==in); if(in) f=ws_concretize(f);
    switch(op){
    case 0: nv=wg_encode_int(db,iv); ws_assert(nv!=WG_ILLEGAL); r=wg_set_field(db,R[1],f,nv); if(in) ws_check(r==0&&wg_decode_int(db,wg_get_field(db,R[1],f))==iv,"reading back gives what was set"); break;
    case 1: r=wg_set_int_field(db,R[1],f,iv); if(in) ws_check(r==0&&wg_decode_int(db,wg_get_field(db,R[1],f))==iv,"reading back gives what was set"); break;
    case 2: r=wg_set_double_field(db,R[1],f,2.75); if(in) ws_check(r==0&&wg_decode_double(db,wg_get_field(db,R[1],f))==2.75,"reading back gives what was set"); break;
    case 3: r=wg_set_str_field(db,R[1],f,TXT); if(in) ws_check(r==0&&strcmp(wg_decode_str(db,wg_get_field(db,R[1],f)),TXT)==0,"reading back gives what was set"); break;
    case 4: r=wg_get_field(db,R[1],f); if(in){ ws_check(r==V[1][f],"getting a field gives its value"); ws_check(wg_get_field_type(db,R[1],f)==wg_get_encoded_type(db,V[1][f]),"and its type"); } else { ws_check(r==0||r==WG_ILLEGAL,"a field outside the record is refused"); ws_check(wg_get_field_type(db,R[1],f)==0,"a field outside the record has no type"); } others(-1,-1); ws_reach("get"); return;
    case 5: nv=wg_encode_char(db,'x'); r=wg_set_atomic_field(db,R[1],f,nv); if(in){ if(r==0) ws_check(wg_get_field(db,R[1],f)==nv,"atomic setting sets"); else { ws_check(wg_get_field(db,R[1],f)==V[1][f],"a refused atomic operation changes nothing"); ws_check(wg_get_field_type(db,R[1],f)!=WG_INTTYPE||f%4!=3,"simple fields can be set"); } } break;
    case 6: { int add=(int)ws_u(32,"add"); long big=(long)ws_u(60,"big"); int isint=0; if(in){ nv=wg_encode_int(db,big); ws_assert(nv!=WG_ILLEGAL); isint=ws_choose(2,"isint"); if(isint) ws_assert(wg_set_field(db,R[1],f,nv)==0); V[1][f]=wg_get_field(db,R[1],f); } r=wg_add_int_atomic_field(db,R[1],f,add); if(in){ if(r==0){ ws_check(wg_get_field_type(db,R[1],f)==WG_INTTYPE,"adding gives an integer"); if(isint) ws_check(wg_decode_int(db,wg_get_field(db,R[1],f))==big+add,"atomic adding gives the sum"); } else { ws_check(wg_get_field(db,R[1],f)==V[1][f],"a refused atomic operation changes nothing"); if(isint) ws_check(big>(1L<<58)||big+add<-(1L<<58),"small sums are not refused"); } } break; }
    default: nv=wg_encode_char(db,'y'); r=wg_update_atomic_field(db,R[1],f,nv,in?V[1][f]:0); if(in){ if(r==0) ws_check(wg_get_field(db,R[1],f)==nv,"atomic update sets"); else ws_check(wg_get_field(db,R[1],f)==V[1][f],"a refused atomic operation changes nothing"); { wg_int now=wg_get_field(db,R[1],f),n2=wg_encode_char(db,'z'); if(wg_get_encoded_type(db,now)==WG_CHARTYPE){ ws_check(wg_update_atomic_field(db,R[1],f,n2,wg_encode_char(db,'q'))!=0,"an update expecting another value is refused"); ws_check(wg_get_field(db,R[1],f)==now,"and changes nothing"); } } } break;
    }
    if(!in) ws_check(r<0,"a field outside the record is refused"); others(in?1:-1,in?(int)f:-1); ws_reach("set"); }
#endif
#ifdef U_NEW /* fields of raw and ordinary new records */
  { int n=ws_choose(9,"n"),f,raw=ws_choose(2,"raw"); void*r=raw?wg_create_raw_record(db,n):wg_create_record(db,n); ws_assert(r!=NULL); ws_check(wg_get_record_len(db,r)==n,"length"); for(f=0;f<n;f++) if(!raw) ws_check(wg_get_field(db,r,f)==0,"a new record holds nulls"); for(f=0;f<n;f++){ wg_int e=f%2?wg_encode_int(db,f):wg_encode_str(db,"x",NULL); ws_assert(wg_set_new_field(db,r,f,e)==0); ws_check(wg_get_field(db,r,f)==e,"setting a new field"); } ws_check(wg_set_new_field(db,r,n,0)<0&&wg_set_new_field(db,r,-1,0)<0,"a field outside the record is refused"); others(-1,-1); ws_check(wg_delete_record(db,r)==0,"delete"); others(-1,-1); ws_reach("new"); }
#endif
}
