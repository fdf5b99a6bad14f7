/* I01: sorted indexes over columns holding references and values of every type */
#include "hi.h"
static void*db; static gint id[2]; static int ni;
#define MX 24
static void*R[MX]; static int n;
static int mine(void*r){ int i; for(i=0;i<n;i++) if(R[i]==r) return i; return -1; }
static void check(void){ int t,i; for(t=0;t<ni;t++){ int col=HDR(db,id[t])->rec_field_index[0],want=0,seen[MX]; void*p=NULL; ti_collect(db,id[t]); for(i=0;i<n;i++){ seen[i]=0; if(wg_get_record_len(db,R[i])>col) want++; } ws_check(ti_n==want,"the index holds as many rows as have the column");
  for(i=0;i<ti_n;i++){ void*r=offsettoptr(db,ti_rows[i]); int m=mine(r); ws_check(m>=0,"every row of the index exists"); ws_check(!seen[m],"a row is in the index once"); seen[m]=1; if(p) ws_check(WG_COMPARE(db,wg_get_field(db,p,col),wg_get_field(db,r,col))!=WG_GREATER,"rows are in order"); p=r; } } }
static void mkidx(int col){ ws_assert(wg_create_index(db,col,WG_INDEX_TYPE_TTREE,NULL,0)==0); id[ni]=wg_column_to_index_id(db,col,WG_INDEX_TYPE_TTREE,NULL,0); ws_assert(id[ni]>0); ni++; }
static void rec(int len){ R[n]=wg_create_record(db,len); ws_assert(R[n]!=NULL); n++; }
static const char LONG[]="a string of more than thirty-two characters";
static gint val(int k,int j){ switch(k){ case 0: return wg_encode_record(db,R[j]); case 1: return wg_encode_int(db,ws_range(-3,3,"int")); case 2: return wg_encode_str(db,(char*)LONG,NULL); case 3: return wg_encode_null(db,0); case 4: return wg_encode_int(db,(1L<<50)+ws_range(-1,1,"big")); case 5: return wg_encode_str(db,"b",NULL); case 6: return wg_encode_double(db,1.5); default: return wg_encode_char(db,'q'); } }
void ws_main(void){ int k,i,j; db=newdb(400000);
#ifdef U_HIST
  { int ops=ws_param("ops",3),nr=ws_param("recs",3); mkidx(0); if(ws_choose(2,"second")) mkidx(1); for(i=0;i<nr;i++) rec(i==2?1:2); if(ws_choose(2,"filler")) { for(i=0;i<9;i++){ rec(1); ws_assert(wg_set_int_field(db,R[n-1],0,i/2)==0); } } check();
    for(k=0;k<ops;k++){ int c=ws_choose(4,"op"); i=ws_choose(nr,"rec"); j=0; if(!R[i]) ws_assume(0);
      if(c==0){ int f=ws_choose(2,"field"); ws_assume(f<wg_get_record_len(db,R[i])); j=ws_choose(nr,"target"); ws_assume(R[j]!=NULL); ws_assert(wg_set_field(db,R[i],f,val(0,j))==0); }
      else if(c==1){ int f=ws_choose(2,"field"); ws_assume(f<wg_get_record_len(db,R[i])); ws_assert(wg_set_field(db,R[i],f,val(1+ws_choose(4,"kind"),0))==0); }
      else if(c==2){ int f=ws_choose(2,"field"); ws_assume(f<wg_get_record_len(db,R[i])); wg_set_atomic_field(db,R[i],f,encode_smallint(ws_range(-3,3,"int"))); }
      else { if(wg_delete_record(db,R[i])==0){ R[i]=wg_create_record(db,1); ws_assert(R[i]!=NULL); } }
      check(); } ws_reach("hist"); }
#endif
#ifdef U_CHAIN /* the order of a row follows a change deep below it */
  { int lv=ws_choose(8,"levels"),L=1+ws_choose(2,"len"),t; void*leaf[3]; static void*top[3]; for(t=0;t<3;t++){ void*p=wg_create_record(db,3); leaf[t]=p; ws_assert(wg_set_int_field(db,p,1,t*2)==0); ws_assert(wg_set_int_field(db,p,0,0)==0); for(i=0;i<lv;i++){ void*q=wg_create_record(db,L); ws_assert(wg_set_field(db,q,0,wg_encode_record(db,p))==0); p=q; } { void*q=wg_create_record(db,4); ws_assert(wg_set_field(db,q,3,wg_encode_record(db,p))==0); R[n++]=q; } }
    mkidx(3); check(); for(k=0;k<ws_param("ops",2);k++){ t=ws_choose(3,"which"); switch(ws_choose(3,"how")){ case 0: ws_assert(wg_set_int_field(db,leaf[t],1,ws_range(-10,10,"new"))==0); break; case 1: wg_set_atomic_field(db,leaf[t],1,encode_smallint(ws_range(-10,10,"new"))); break; default: ws_assert(wg_set_field(db,leaf[t],1,wg_encode_record(db,leaf[(t+1)%3]))==0); } check(); }
    for(t=0;t<3;t++){ ws_assert(wg_set_int_field(db,R[t],3,1)==0); check(); } ws_reach("chain"); }
#endif
#ifdef U_MIX /* all types and record lengths in one column */
  { int ops=ws_param("ops",4); mkidx(1); for(k=0;k<ops;k++){ int c=ws_choose(12,"op"); 
      if(c<8){ rec(2+(c&1)); if(c==0){ ws_assert(wg_set_field(db,R[n-1],1,val(0,ws_choose(n,"t")))==0); } else ws_assert(wg_set_field(db,R[n-1],1,val(c,0))==0); }
      else if(c==8) rec(1); else if(c==9) rec(0); 
      else { ws_assume(n>0); i=ws_choose(n,"rec"); if(c==10){ if(wg_delete_record(db,R[i])==0) R[i]=R[--n]; } else if(wg_get_record_len(db,R[i])>1) ws_assert(wg_set_field(db,R[i],1,val(1+ws_choose(4,"k"),0))==0); }
      check(); } ws_reach("mix"); }
#endif
}
