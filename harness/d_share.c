/* D05: shared strings */
#include "h.h"
#define N 470
static void*db; static char T[80]; static void*R[N]; static wg_int E[N]; static int on[N];
/* texts of length 40, many of which fall into one slot; kinds and annotations vary */
static const char*txt(int i){ int j; for(j=0;j<40;j++) T[j]='a'+j%7; T[40]=0; T[3]='a'+i%26; T[17]='a'+(i/26)%26; T[39]='A'+i/97; return T; }
static wg_int enc(int i){ const char*t=txt(i/3*3); switch(i%3){ case 0: return wg_encode_str(db,t,NULL); case 1: return wg_encode_str(db,t,"en"); default: return wg_encode_uri(db,t,"en"); } }
static char*dec(int i,wg_int e){ return i%3==2?wg_decode_uri(db,e):wg_decode_str(db,e); }
static void look(int i){ wg_int e=wg_get_field(db,R[i],0); ws_check(e==E[i],"a stored string keeps its value"); ws_check(strcmp(dec(i,e),txt(i/3*3))==0,"a stored string stays readable"); ws_check(wg_get_encoded_type(db,e)==(i%3==2?WG_URITYPE:WG_STRTYPE),"its type"); { char*l=i%3==2?wg_decode_uri_prefix(db,e):wg_decode_str_lang(db,e); if(i%3==0) ws_check(l==NULL,"its annotation"); else ws_check(l&&strcmp(l,"en")==0,"its annotation"); } }
void ws_main(void){ int i,j,n; 
#ifdef U_CHAIN
  n=ws_param("n",N); db=newdb(400000); for(i=0;i<n;i++){ R[i]=wg_create_record(db,2); ws_assert(R[i]!=NULL); E[i]=enc(i); ws_assert(E[i]!=WG_ILLEGAL); ws_assert(wg_set_field(db,R[i],0,E[i])==0); on[i]=1; }
  for(i=0;i<n;i++) ws_check(enc(i)==E[i],"the same text gives the same value");
  { int v=ws_choose(n,"victim"),how=ws_choose(3,"how"),v2; long f; wg_int e;
    /* one more reference keeps it alive */
    ws_assert(wg_set_field(db,R[(v+1)%n],1,E[v])==0); if(how==0) ws_assert(wg_set_int_field(db,R[v],0,1)==0); else if(how==1){ ws_assert(wg_delete_record(db,R[v])==0); } else { e=enc((v+2)%n); ws_assert(wg_set_field(db,R[v],0,e)==0); ws_assert(wg_set_field(db,R[v],0,0)==0); }
    e=wg_get_field(db,R[(v+1)%n],1); ws_check(e==E[v]&&strcmp(dec(v,e),txt(v/3*3))==0,"a string some field still refers to stays readable"); ws_check(enc(v)==E[v],"it is still shared");
    ws_assert(wg_set_int_field(db,R[(v+1)%n],1,5)==0); /* now it is gone */
    for(j=-9;j<10;j++){ i=(v+j*7+n)%n; if(i!=v){ look(i); ws_check(enc(i)==E[i],"other strings are still found"); } }
    for(i=0;i<n;i+=ws_param("stride",9)) if(i!=v) ws_check(enc(i)==E[i],"other strings are still found");
    f=0; e=enc(v); ws_assert(e!=WG_ILLEGAL); ws_check(strcmp(dec(v,e),txt(v/3*3))==0,"it can be stored anew"); for(i=0;i<n;i++) if(i!=v) ws_check(e!=E[i],"it is distinct from all others"); (void)f;(void)v2;
    { void*r=wg_create_record(db,1); ws_assert(wg_set_field(db,r,0,e)==0); ws_check(enc(v)==e,"and is shared again"); } }
  ws_reach("chain");
#endif
#ifdef U_REFS /* every short history of references to three strings */
  { int ops=ws_param("ops",5),k; long f0; static int fld[4]; db=newdb(200000); (void)n; for(i=0;i<4;i++){ R[i]=wg_create_record(db,1); fld[i]=-1; }
    /* warm up so that all areas exist, then the space must come back */
    for(i=0;i<3;i++){ E[i]=enc(i); ws_assert(wg_set_field(db,R[i],0,E[i])==0); } for(i=0;i<3;i++) ws_assert(wg_set_int_field(db,R[i],0,1)==0); f0=wg_database_freesize(db);
    for(k=0;k<ops;k++){ int r=ws_choose(3,"rec"),w=ws_choose(4,"what"),o=fld[r]; int cnt=0; if(w<3){ wg_int e=enc(w); ws_assert(e!=WG_ILLEGAL); for(j=0;j<3;j++) if(fld[j]==w) ws_check(wg_get_field(db,R[j],0)==e,"a string stored again gives the same value"); for(j=0;j<3;j++) if(fld[j]>=0&&fld[j]!=w) ws_check(wg_get_field(db,R[j],0)!=e,"different strings give different values"); ws_assert(wg_set_field(db,R[r],0,e)==0); fld[r]=w; } else { ws_assert(wg_delete_record(db,R[r])==0); R[r]=wg_create_record(db,1); ws_assert(R[r]!=NULL); fld[r]=-1; }
      for(j=0;j<3;j++) if(fld[j]>=0){ wg_int e=wg_get_field(db,R[j],0); ws_check(strcmp(dec(fld[j],e),txt(0))==0,"a referenced string is readable"); ws_check(wg_get_encoded_type(db,e)==(fld[j]==2?WG_URITYPE:WG_STRTYPE),"its type"); { char*l=fld[j]==2?wg_decode_uri_prefix(db,e):wg_decode_str_lang(db,e); ws_check(fld[j]==0?l==NULL:l&&strcmp(l,"en")==0,"its annotation"); } } (void)o;(void)cnt; }
    for(j=0;j<3;j++) ws_assert(wg_set_int_field(db,R[j],0,1)==0); ws_check(wg_database_freesize(db)==f0,"after the last reference is removed the space is free"); 
    { void*r=wg_create_record(db,60); ws_check(r!=NULL,"usable"); } ws_reach("refs"); }
#endif
#ifdef U_ANNOT /* texts with long annotations that are strings themselves; many share a slot with their annotation */
#define AN(i) (memcpy(L,txt(i),41),L[1]='!',L[2]='0'+(i)%10,L)
#define TX(i) (memcpy(X,txt(i),41),X[1]='?',X[5]='0'+(i)/100,X)
  { static char L[80],X[80]; wg_int a; int v,how; n=ws_param("n",N); db=newdb(300000);
    /* one after the other in a few slots: sooner or later text and annotation share one */
    { void*q=newdb(145000),*o=db; void*r; wg_int e,b; long f0=0; char*l; db=q; r=wg_create_record(db,2); ws_assert(r!=NULL); for(i=0;i<ws_param("rounds",1500);i++){ e=wg_encode_str(db,TX(i),AN(i)); ws_assert(e!=WG_ILLEGAL&&wg_set_field(db,r,0,e)==0); b=wg_encode_str(db,AN(i),NULL); ws_assert(b!=WG_ILLEGAL); l=wg_decode_str_lang(db,e); ws_check(wg_decode_str(db,b)==l,"an annotation is shared with the equal text"); ws_check(wg_encode_str(db,TX(i),AN(i))==e,"the same text and annotation give the same value"); ws_check(wg_set_field(db,r,1,b)==0&&wg_set_field(db,r,0,0)==0,"the text goes"); ws_check(strcmp(wg_decode_str(db,wg_get_field(db,r,1)),AN(i))==0,"the text equal to the annotation stays"); ws_check(wg_set_field(db,r,1,0)==0,"everything goes"); if(i==1) f0=wg_database_freesize(db); } ws_check(wg_database_freesize(db)==f0,"all space is free again"); db=o; }
    for(i=0;i<n;i++){ R[i]=wg_create_record(db,1); ws_assert(R[i]!=NULL); E[i]=wg_encode_str(db,TX(i),AN(i)); ws_assert(E[i]!=WG_ILLEGAL&&wg_set_field(db,R[i],0,E[i])==0); }
    for(i=0;i<n;i++){ char*l; ws_check(wg_encode_str(db,TX(i),AN(i))==E[i],"the same text and annotation give the same value"); l=wg_decode_str_lang(db,E[i]); ws_check(l&&strcmp(l,AN(i))==0,"its annotation"); a=wg_encode_str(db,AN(i),NULL); ws_check(wg_decode_str(db,a)==l,"an annotation is shared with the equal text"); }
    v=ws_choose(n,"victim"); how=ws_choose(2,"how"); if(how) ws_check(wg_delete_record(db,R[v])==0,"a deletion"); else ws_check(wg_set_int_field(db,R[v],0,1)==0,"a change");
    for(i=v<5?0:v-5;i<n&&i<v+5;i++) if(i!=v){ ws_check(wg_encode_str(db,TX(i),AN(i))==E[i],"other strings are still found"); ws_check(strcmp(wg_decode_str(db,E[i]),TX(i))==0&&strcmp(wg_decode_str_lang(db,E[i]),AN(i))==0,"other strings are readable"); }
    a=wg_encode_str(db,TX(v),AN(v)); ws_check(a!=WG_ILLEGAL&&strcmp(wg_decode_str_lang(db,a),AN(v))==0,"it can be stored anew"); ws_reach("annot"); }
#endif
}
