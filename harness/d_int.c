#include "h.h"
void ws_main(void){
  void*db=newdb(DBSIZE);
#ifdef U_ROUND
  long a=(long)ws_u(64,"a"); wg_int e=wg_encode_int(db,a);
  ws_assert(e!=WG_ILLEGAL); ws_check(wg_get_encoded_type(db,e)==WG_INTTYPE,"an encoded integer reports the integer type");
  ws_check(wg_decode_int(db,e)==a,"an encoded integer decodes to itself");
  /* still so when stored in a record next to another integer */
  void*r=wg_create_record(db,2); ws_assert(r!=NULL);
  long b=(long)ws_u(64,"b");
  ws_assert(wg_set_field(db,r,0,e)==0); ws_assert(wg_set_int_field(db,r,1,b)==0);
  ws_check(wg_decode_int(db,wg_get_field(db,r,0))==a,"a stored integer reads back"); ws_check(wg_decode_int(db,wg_get_field(db,r,1))==b,"a stored integer reads back");
  ws_check(wg_get_field_type(db,r,0)==WG_INTTYPE,"field type");
  ws_assert(wg_set_int_field(db,r,0,b)==0); ws_check(wg_decode_int(db,wg_get_field(db,r,0))==b,"an overwritten integer reads back"); ws_check(wg_decode_int(db,wg_get_field(db,r,1))==b,"the other field is untouched");
  ws_reach("stored");
#endif
#ifdef U_CMP
  long a=(long)ws_u(64,"a"),b=(long)ws_u(64,"b"); wg_int x=wg_encode_int(db,a),y=wg_encode_int(db,b);
  wg_int c=WG_COMPARE(db,x,y);
  ws_check((c==WG_EQUAL)==(a==b),"integers compare equal exactly when equal");
  ws_check((c==WG_LESSTHAN)==(a<b),"less exactly when less"); ws_check((c==WG_GREATER)==(a>b),"greater exactly when greater");
  ws_reach("compared");
#endif
}
