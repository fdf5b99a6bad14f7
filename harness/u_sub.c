/* U03: subsumption */
#include "u_glb.h"
typedef struct { int fact,n; int neg[4]; term*at[4]; gptr rec; } cl;
static const long V1[]={1000,1001},V2[]={2000,2001};
static term*arg(const long*V,int nv,const char*w){ int c=ws_choose(nv+2,w); if(c<nv) return tvar(V[c]); return c==nv?tconst(0):tcomp(1,tvar(V[0]),NULL,NULL,0); }
static cl mk(const long*V,int n,int fact){ cl c; int i,nv=(int)ws_param("vars",2); c.fact=fact; c.n=n; if(fact){ c.neg[0]=0; c.at[0]=tcomp(2,tconst(26+ws_choose(2,"predicate")),tconst(ws_choose(2,"constant")),NULL,1); wr_convert_atom_fact_clause(g,wg_decode_record(db,c.at[0]->e),0); c.rec=wg_decode_record(db,c.at[0]->e); return c; }
  c.rec=wr_create_rule_clause(g,n); ws_assert(c.rec!=NULL); for(i=0;i<n;i++){ c.neg[i]=ws_choose(2,"sign"); c.at[i]=tcomp(2,tconst(26),arg(V,nv,"argument"),NULL,1); wr_set_rule_clause_atom_meta(g,c.rec,i,c.neg[i]?ATOM_META_NEG:0); wr_set_rule_clause_atom(g,c.rec,i,c.at[i]->e); }
  return c; }
static int ruse[4];
static int rsub(cl*a,cl*b,int i){ int j; if(i==a->n) return 1; for(j=0;j<b->n;j++) if(!ruse[j]&&a->neg[i]==b->neg[j]){ term*s[NSLOT]; memcpy(s,SB,sizeof s); if(rmatch(a->at[i],b->at[j])){ ruse[j]=1; if(rsub(a,b,i+1)) return 1; ruse[j]=0; } memcpy(SB,s,sizeof s); } return 0; }
void ws_main(void){ int k,n1,n2,r,w; cl a,b; rnew(200000);
#ifdef U_PAIR
  n1=1+ws_choose(ws_param("l1",2),"length"); n2=1+ws_choose(ws_param("l2",2),"length");
  a=mk(V1,n1,n1==1&&ws_choose(2,"fact")); b=mk(ws_choose(2,"same variables")?V1:V2,n2,n2==1&&ws_choose(2,"fact"));
#else
  n1=(int)ws_param("l1",3); n2=(int)ws_param("l2",3); a=mk(V1,n1,0); b=mk(V2,n2,0);
#endif
  for(k=0;k<4;k++) ruse[k]=0; nosb(); w=rsub(&a,&b,0);
  r=(int)wr_subsume_cl(g,a.rec,b.rec,1); ws_check(!r==!w,"a clause subsumes another exactly when some replacement of its variables makes its literals different literals of that one"); clean(); if(w) ws_reach("subsumed"); else ws_reach("not");
  r=(int)wr_subsume_cl(g,a.rec,b.rec,1); ws_check(!r==!w,"the answer is the same the second time"); clean();
  r=(int)wr_subsume_cl(g,b.rec,b.rec,1); ws_check(r,"a clause subsumes itself"); clean(); }
