/* I04: creating and dropping indexes */
#include "h.h"
#include <stdlib.h>
static void*db; static void*R[12]; static int n; static long K[12];
typedef struct { wg_int cols[3]; int nc,type,tmpl; } spec;
static const spec S[]={ {{0},1,WG_INDEX_TYPE_TTREE,0},{{1},1,WG_INDEX_TYPE_TTREE,0},{{0},1,WG_INDEX_TYPE_HASH,0},{{0,1},2,WG_INDEX_TYPE_HASH,0},{{0},1,WG_INDEX_TYPE_TTREE,1},{{2,1},2,WG_INDEX_TYPE_HASH_JSON,0},{{2},1,WG_INDEX_TYPE_TTREE,1},{{0},1,WG_INDEX_TYPE_TTREE,2},{{127},1,WG_INDEX_TYPE_TTREE,0},{{2,0},2,WG_INDEX_TYPE_HASH,2} };
#define NS 10
static int on[NS]; static wg_int ID[NS];
static wg_int M[3]; static wg_int*tm(int k){ if(!k) return NULL; M[0]=wg_encode_var(db,0); M[1]=k==1?wg_encode_int(db,5):wg_encode_var(db,1); M[2]=k==1?wg_encode_var(db,2):wg_encode_var(db,7); if(k==2){ M[0]=wg_encode_var(db,0); M[1]=wg_encode_int(db,5); M[2]=wg_encode_var(db,1); } return M; }
static int tl(int k){ return k==0?0:k==1?2:3; }
static wg_int lookup(int s){ wg_int c[3]; memcpy(c,S[s].cols,sizeof c); return wg_multi_column_to_index_id(db,c,S[s].nc,S[s].type,tm(S[s].tmpl),tl(S[s].tmpl)); }
static int same(int a,int b){ int i; if(S[a].nc!=S[b].nc||S[a].type!=S[b].type||!S[a].tmpl!=!S[b].tmpl) return 0; for(i=0;i<S[a].nc;i++) if(S[a].cols[i]!=S[b].cols[i]) return 0; return 1; }
static int count(wg_int cond,long x){ wg_query_arg a; wg_query*q; int c=0; void*r; a.column=0; a.cond=cond; a.value=wg_encode_query_param_int(db,x); q=wg_make_query(db,NULL,0,&a,1); ws_assert(q!=NULL); while((r=wg_fetch(db,q))){ if(++c>50) ws__fail("query does not end"); } wg_free_query(db,q); wg_free_query_param(db,a.value); return c; }
static void check(void){ wg_int cnt=-1,*l; int i,j,k=0; for(i=0;i<NS;i++) k+=on[i]; l=(wg_int*)wg_get_all_indexes(db,&cnt); ws_check(cnt==k,"the list shows as many indexes as exist"); ws_check((l==NULL)==(k==0),"there is a list when there are indexes");
  for(i=0;i<NS;i++){ int f=0; for(j=0;j<cnt;j++) if(on[i]&&l[j]==ID[i]) f++; if(on[i]){ ws_check(f==1,"an index is listed once"); ws_check(wg_get_index_type(db,ID[i])==S[i].type,"an index has its type"); { wg_int rl=0; void*t=wg_get_index_template(db,ID[i],&rl); ws_check((t!=NULL)==(S[i].tmpl!=0),"an index has its template"); if(t){ ws_check(rl==2,"trailing columns that are not fixed are left out"); ws_check(wg_decode_int(db,((wg_int*)t)[1])==5,"a template has its value"); } } ws_check(lookup(i)==ID[i],"an index is found by its columns"); }
    else { int dup=0; for(j=0;j<NS;j++) if(on[j]&&same(i,j)) dup=1; if(!dup) ws_check(lookup(i)==-1,"an index that does not exist is not found"); } }
  if(l) free(l);
  ws_check(nrecords(db)==n,"the records are there"); for(i=0;i<n;i++) ws_check(wg_decode_int(db,wg_get_field(db,R[i],0))==K[i],"the records are unchanged"); 
  { int a=0,b=0; for(i=0;i<n;i++){ if(K[i]==3) a++; if(K[i]>3) b++; } ws_check(count(WG_COND_EQUAL,3)==a,"an equality query gives the same rows"); ws_check(count(WG_COND_GREATER,3)==b,"a range query gives the same rows"); } }
static void mk(long k){ R[n]=wg_create_record(db,3); ws_assert(R[n]&&wg_set_int_field(db,R[n],0,k)==0&&wg_set_int_field(db,R[n],1,5)==0); K[n]=k; n++; }
void ws_main(void){ int i,k; db=newdb(1000000); for(i=0;i<9;i++) mk(i%4); mk(100);
#ifdef U_HIST
  { int ops=ws_param("ops",3); check(); for(k=0;k<ops;k++){ int s=ws_choose(NS,"spec"),j,dup=0; wg_int c[3],r; memcpy(c,S[s].cols,sizeof c);
      if(on[s]&&ws_choose(2,"drop")){ r=wg_drop_index(db,ID[s]); if(S[s].type==WG_INDEX_TYPE_TTREE){ ws_check(r==0,"a sorted index is dropped"); on[s]=0; } else if(r==0) on[s]=0; }
      else { for(j=0;j<NS;j++) if(on[j]&&same(s,j)) dup=1; r=wg_create_multi_index(db,c,S[s].nc,S[s].type,tm(S[s].tmpl),tl(S[s].tmpl)); ws_check((r==0)==!dup,"an index is created unless there is one like it"); if(r==0){ on[s]=1; ID[s]=lookup(s); ws_check(ID[s]>0,"a new index is found"); } }
      check(); if(k==0&&ws_choose(2,"change")){ ws_check(wg_set_int_field(db,R[0],0,3)==0,"a row is changed"); K[0]=3; ws_check(wg_delete_record(db,R[1])==0,"a row is deleted"); n--; R[1]=R[n]; K[1]=K[n]; mk(4); check(); } }
    for(i=0;i<NS;i++) if(on[i]&&S[i].type==WG_INDEX_TYPE_TTREE){ ws_check(wg_drop_index(db,ID[i])==0,"a sorted index is dropped"); on[i]=0; check(); ws_check(wg_drop_index(db,ID[i])!=0,"an index is not dropped twice"); } check(); for(i=0;i<3;i++) ws_check(wg_set_int_field(db,R[i],1,6)==0,"rows can be changed"); ws_reach("hist"); }
#endif
#ifdef U_BAD /* wrong requests */
  { wg_int c[12],r; int what=ws_choose(9,"what"); wg_int m[3]; for(i=0;i<12;i++) c[i]=i; if(ws_choose(2,"some")){ wg_int c0=0; ws_assert(wg_create_index(db,0,WG_INDEX_TYPE_TTREE,NULL,0)==0); on[0]=1; ID[0]=lookup(0); (void)c0; }
    switch(what){ case 0: { long x=(long)ws_u(64,"column"); ws_assume(x<0||x>127); r=wg_create_index(db,x,ws_choose(2,"t")?WG_INDEX_TYPE_TTREE:WG_INDEX_TYPE_HASH,NULL,0); break; }
     case 1: { long t=(long)ws_u(64,"type"); ws_assume(t!=WG_INDEX_TYPE_TTREE&&t!=WG_INDEX_TYPE_HASH&&t!=WG_INDEX_TYPE_HASH_JSON); r=wg_create_index(db,1,t,NULL,0); break; }
     case 2: { long x=(long)ws_u(64,"count"); ws_assume(x<1||x>10); r=wg_create_multi_index(db,c,x,WG_INDEX_TYPE_HASH,NULL,0); break; }
     case 3: { c[1]=c[0]=ws_range(0,127,"dup"); c[2]=127-c[0]; r=wg_create_multi_index(db,c,2+ws_choose(2,"n"),WG_INDEX_TYPE_HASH,NULL,0); break; }
     case 4: r=wg_create_multi_index(db,c,2,WG_INDEX_TYPE_TTREE,NULL,0); break;
     case 5: { long x=(long)ws_u(64,"column"); ws_assume(x<0||x>127); c[ws_choose(3,"at")]=x; r=wg_create_multi_index(db,c,3,WG_INDEX_TYPE_HASH,NULL,0); break; }
     case 6: m[0]=wg_encode_int(db,1); m[1]=wg_encode_var(db,1); r=wg_create_index(db,0,WG_INDEX_TYPE_TTREE,m,2); break;
     case 7: m[0]=wg_encode_var(db,1); m[1]=wg_encode_var(db,1); r=wg_create_index(db,0,WG_INDEX_TYPE_TTREE,m,ws_choose(3,"len")); break;
     default: m[0]=wg_encode_var(db,1); m[1]=wg_encode_record(db,R[0]); r=wg_create_index(db,0,WG_INDEX_TYPE_TTREE,m,2); break; }
    ws_check(r!=0,"a wrong index is refused"); check(); 
    { long x=(long)ws_u(64,"id"),t; int j; for(j=0;j<NS;j++) if(on[j]) ws_assume(x!=ID[j]); t=ws_choose(3,"by"); if(t==0) ws_check(wg_drop_index(db,x)!=0,"what is not an index is not dropped"); else if(t==1) ws_check(wg_get_index_type(db,x)==-1,"what is not an index has no type"); else { wg_int rl=77; ws_check(wg_get_index_template(db,x,&rl)==NULL&&rl==77,"what is not an index has no template"); } }
    { long x=(long)ws_u(64,"lookup"); ws_assume(x<0||x>127); ws_check(wg_column_to_index_id(db,x,ws_choose(2,"lt")?0:WG_INDEX_TYPE_TTREE,NULL,0)==-1,"an index on an impossible column is not found"); } check(); ws_reach("bad"); }
#endif
#ifdef U_SPACE /* dropping gives the space back */
  { long f1=0; int j; for(i=0;i<40;i++) { void*r=wg_create_record(db,3); ws_assert(r&&wg_set_int_field(db,r,0,(i*7)%40)==0&&wg_set_int_field(db,r,1,5)==0); } for(j=0;j<ws_param("rounds",12);j++){ int s=ws_choose(2,"a")?0:4; wg_int c[3]; memcpy(c,S[s].cols,sizeof c); ws_assert(wg_create_multi_index(db,c,1,S[s].type,tm(S[s].tmpl),tl(S[s].tmpl))==0); { wg_int id=lookup(s); ws_assert(id>0); ws_check(wg_drop_index(db,id)==0,"a sorted index is dropped"); } if(j==1) f1=wg_database_freesize(db); if(j>1) ws_check(wg_database_freesize(db)>=f1,"making and dropping an index again needs no more space"); } ws_reach("space"); }
#endif
}
