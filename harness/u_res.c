/* U04: a proof is found only for contradictory clauses, and for ground clauses exactly for those */
#include "hi.h"
#include "rincludes.h"
gint wg_start_write(void*db); gint wg_end_write(void*db,gint l); gint wg_start_read(void*db); gint wg_end_read(void*db,gint l);
int wr_import_otter_file(glb*g,char*f,char*s,cvec c){ return 0; } int wr_import_prolog_file(glb*g,char*f,char*s,cvec c){ return 0; }
int wg_run_reasoner(void*db,int argc,char**argv);
static void*db; static glb*g;
typedef struct { int n; struct { int neg,p,arg[2]; } l[4]; } cl; /* arg: 0,1 variables, 2,3 constants */
static cl C[8]; static int NC,preds,vars,ncon,arity;
static gint CON[2],PRED[2];
static gint argval(int a){ return a<2?wg_encode_var(db,a):CON[a-2]; }
static int kinds;
static gint predname(int i){ int k=i?0:ws_choose(kinds,"predicate"); switch(k){ case 0: return wg_encode_uri(db,i?"q":"p",NULL); case 1: return wg_encode_null(db,0); case 2: return wg_encode_str(db,"a long text that is the name of a predicate",NULL); case 3: return wg_encode_int(db,495); case 4: return wg_encode_int(db,(long[]){0,-1,1L<<31,-(1L<<31),1L<<40,994}[ws_choose(6,"name")]); case 5: return wg_encode_char(db,'c'); case 6: return wg_encode_xmlliteral(db,"x","y"); default: return wg_encode_uri(db,"q","ns"); } }
static int ground(cl*c){ int i,k; for(i=0;i<c->n;i++) for(k=0;k<arity;k++) if(c->l[i].arg[k]<2) return 0; return 1; }
static void put(cl*c){ int i,k; void*r=NULL; gint e; int fact=c->n==1&&!c->l[0].neg&&ground(c);
  if(!fact){ r=wr_create_rule_clause(g,c->n); ws_assert(r!=NULL); }
  for(i=0;i<c->n;i++){ void*a=wr_create_atom(g,1+arity); ws_assert(a!=NULL); ws_assert(wr_set_atom_subterm(g,a,0,PRED[c->l[i].p])==0); for(k=0;k<arity;k++) ws_assert(wr_set_atom_subterm(g,a,1+k,argval(c->l[i].arg[k]))==0); 
    if(fact){ wr_convert_atom_fact_clause(g,a,0); return; }
    e=wg_encode_record(db,a); wr_set_rule_clause_atom_meta(g,r,i,c->l[i].neg?ATOM_META_NEG:0); wr_set_rule_clause_atom(g,r,i,e); } }
static cl gen(int maxlit,int nv){ cl c; int i,k; memset(&c,0,sizeof c); c.n=1+ws_choose(maxlit,"literals"); for(i=0;i<c.n;i++){ int x=ws_choose(2*preds,"literal"); c.l[i].neg=x&1; c.l[i].p=x/2; for(k=0;k<arity;k++){ int a=ws_choose(nv+ncon,"argument"); c.l[i].arg[k]=a<nv?a:2+a-nv; } } return c; }
/* all interpretations of the ground atoms over the constants */
static int atomno(cl*c,int i,int v0,int v1){ int k,n=c->l[i].p; for(k=0;k<arity;k++){ int a=c->l[i].arg[k]; a=a==0?v0:a==1?v1:a-2; n=n*ncon+a; } return n; }
static int satisfiable(void){ int na=preds,I,i,c,v0,v1,k; for(k=0;k<arity;k++) na*=ncon; 
  for(I=0;I<(1<<na);I++){ int ok=1; for(c=0;c<NC&&ok;c++) for(v0=0;v0<ncon&&ok;v0++) for(v1=0;v1<ncon&&ok;v1++){ int t=0; for(i=0;i<C[c].n;i++) if(((I>>atomno(&C[c],i,v0,v1))&1)!=C[c].l[i].neg) t=1; if(!t) ok=0; } if(ok) return 1; } return 0; }
static int horn(void){ int c,i,n; for(c=0;c<NC;c++){ for(n=i=0;i<C[c].n;i++) n+=!C[c].l[i].neg; if(n>1) return 0; } return 1; }
static int dupl(void){ int c,i,j,k; for(c=0;c<NC;c++) for(i=0;i<C[c].n;i++) for(j=0;j<i;j++){ int e=C[c].l[i].p==C[c].l[j].p; for(k=0;k<arity;k++) e=e&&C[c].l[i].arg[k]==C[c].l[j].arg[k]; if(e) return 1; } return 0; }
static int allground(void){ int c; for(c=0;c<NC;c++) if(!ground(&C[c])) return 0; return 1; }
static int complete(void){ return (allground()||horn())&&!dupl(); }
static int done;
void ws_exit_hook(int c); void ws_exit_hook(int c){ ws__fail("the program ends"); }
void ws_main(void){ int i,r,sat,k=(int)ws_param("kind",0); long n0; int nm=(int)ws_param("clauses",3),ml=(int)ws_param("lits",2); db=newdb(400000); g=wr_glb_new_simple(db); ws_assert(g!=NULL);
  preds=(int)ws_param("preds",2); vars=(int)ws_param("vars",0); ncon=(int)ws_param("cons",1); arity=(int)ws_param("arity",1); kinds=(int)ws_param("kinds",1);
  for(i=0;i<2;i++){ PRED[i]=predname(i); CON[i]=wg_encode_str(db,i?"b":"a",NULL); }
  NC=nm; for(i=0;i<NC;i++) C[i]=gen(i<(int)ws_param("long",nm)?ml:1,vars);
  if(ws_param("fake",0)) for(i=0;i<(int)ws_param("noise",0);i++) wg_create_record(db,2);
  for(i=0;i<NC;i++) put(&C[i]);
  sat=satisfiable(); r=wg_run_reasoner(db,0,NULL);
  if(r==0) ws_check(!sat,"a proof is found only when the clauses contradict one another");
  if(r==1&&complete()) ws_check(sat,"the search ends without a proof only when the clauses can all be true");
  ws_check(r==0||r==1,"the search ends with an answer"); if(r==0) ws_reach("proof"); else ws_reach("noproof"); }
