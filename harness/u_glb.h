/* reasoner state without its gigabyte buffers, and terms built next to an independent description of them */
#include "hi.h"
#include "rincludes.h"
gint wg_start_write(void*db); gint wg_end_write(void*db,gint l); gint wg_start_read(void*db); gint wg_end_read(void*db,gint l);
static void*db; static glb*g;
static void rnew(long size){ int i; db=newdb(size); g=wr_glb_new_simple(db); ws_assert(g!=NULL); g->varbanks=wr_vec_new(g,NROF_VARBANKS*NROF_VARSINBANK); g->varstack=wr_cvec_new(g,NROF_VARBANKS*NROF_VARSINBANK); g->varstack[1]=2; g->tmp_litinf_vec=wr_vec_new(g,20);
  ws_assert(g->varbanks&&g->varstack&&g->tmp_litinf_vec); wr_clear_all_varbanks(g); }
/* kind: 0 variable, 1 constant of the table, 2 whole number, 3 compound, 4 double */
typedef struct term { int k; long v; double d; int n; struct term*a[3]; gint e; } term;
static term TS[200]; static int NT;
static term*tnew(int k){ term*t; ws_assert(NT<200); t=&TS[NT++]; memset(t,0,sizeof *t); t->k=k; return t; }
static term*tvar(long v){ term*t=tnew(0); t->v=v; t->e=wg_encode_var(db,v); ws_assert(t->e!=WG_ILLEGAL); return t; }
static term*tint(long v){ term*t=tnew(2); t->v=v; t->e=wg_encode_int(db,v); ws_assert(t->e!=WG_ILLEGAL); return t; }
static term*tdbl(double v){ term*t=tnew(4); t->d=v; t->e=wg_encode_double(db,v); ws_assert(t->e!=WG_ILLEGAL); return t; }
#define LA "a text that does not fit in thirty-two bytes"
#define LB "a text that does not fit in thirty-two bytez"
#define NCONST 36
static term*tconst(int i){ term*t=tnew(1); t->v=i; switch(i){
 case 0: t->e=wg_encode_uri(db,"a",NULL); break; case 1: t->e=wg_encode_uri(db,"b",NULL); break;
 case 2: t->e=wg_encode_str(db,"a",NULL); break; case 3: t->e=wg_encode_str(db,"b",NULL); break; case 4: t->e=wg_encode_str(db,LA,NULL); break; case 5: t->e=wg_encode_str(db,LB,NULL); break;
 case 6: t->e=wg_encode_str(db,"a","en"); break; case 7: t->e=wg_encode_str(db,"a","et"); break; case 8: t->e=wg_encode_str(db,LA,"en"); break;
 case 9: t->e=wg_encode_uri(db,"a","b"); break; case 10: t->e=wg_encode_uri(db,"b","b"); break; case 11: t->e=wg_encode_xmlliteral(db,"a","en"); break; case 12: t->e=wg_encode_xmlliteral(db,"a","et"); break;
 case 13: t->e=wg_encode_blob(db,"a\0b","en",3); break; case 14: t->e=wg_encode_blob(db,"a\0c","en",3); break; case 15: t->e=wg_encode_blob(db,"a\0b",NULL,3); break; case 16: t->e=wg_encode_blob(db,"a\0",NULL,2); break;
 case 17: t->e=wg_encode_null(db,0); break; case 18: t->e=wg_encode_char(db,'a'); break; case 19: t->e=wg_encode_char(db,'b'); break;
 case 20: t->e=wg_encode_fixpoint(db,1.5); break; case 21: t->e=wg_encode_fixpoint(db,1); break; case 22: t->e=wg_encode_date(db,1); break; case 23: t->e=wg_encode_date(db,1000000); break;
 case 24: t->e=wg_encode_time(db,1); break; case 25: t->e=wg_encode_time(db,4000000); break; case 26: t->e=wg_encode_anonconst(db,"f"); break; case 27: t->e=wg_encode_anonconst(db,"h"); break;
 case 28: t->e=wg_encode_str(db,"",NULL); break; case 29: t->e=wg_encode_uri(db,"",NULL); break; case 32: t->e=wg_encode_str(db,"abc","aaa"); break; case 33: t->e=wg_encode_str(db,"abcdefghijk","aaabbbbbbbb"); break; case 34: t->e=wg_encode_str(db,LA "xy","e"); break; case 35: t->e=wg_encode_uri(db,"abc","aaa"); break; case 30: t->e=wg_encode_str(db,LA "a",NULL); break; default: t->e=wg_encode_str(db,LA,"et"); }
 ws_assert(t->e!=WG_ILLEGAL); return t; }
static term*tcomp(int n,term*a,term*b,term*c,int atom){ term*t=tnew(3); void*r; int i; t->n=n; t->a[0]=a; t->a[1]=b; t->a[2]=c; r=atom?wr_create_atom(g,n):wr_create_term(g,n); ws_assert(r!=NULL);
  for(i=0;i<n;i++) ws_assert((atom?wr_set_atom_subterm(g,r,i,t->a[i]->e):wr_set_term_subterm(g,r,i,t->a[i]->e))==0); t->e=wg_encode_record(db,r); return t; }
/* substitutions over the descriptions: variables 1000,1001,...,2000,2001,... are slots 0..7 */
#define SLOT(v) ((int)((v)/1000%5*4+(v)%1000))
#define NSLOT 20
static term*SB[NSLOT];
static term*walk(term*t){ while(t->k==0&&SB[SLOT(t->v)]) t=SB[SLOT(t->v)]; return t; }
static int primeq(term*a,term*b){ if(a->k!=b->k) return 0; switch(a->k){ case 0: case 1: case 2: return a->v==b->v; default: return a->d==b->d; } }
static int occurs(long v,term*t){ int i; t=walk(t); if(t->k==0) return t->v==v; if(t->k==3) for(i=0;i<t->n;i++) if(occurs(v,t->a[i])) return 1; return 0; }
static int runify(term*a,term*b){ int i; a=walk(a); b=walk(b); if(a==b) return 1; if(a->k==0&&b->k==0&&a->v==b->v) return 1;
  if(a->k==0){ if(occurs(a->v,b)) return 0; SB[SLOT(a->v)]=b; return 1; } if(b->k==0){ if(occurs(b->v,a)) return 0; SB[SLOT(b->v)]=a; return 1; }
  if(a->k!=3||b->k!=3) return primeq(a,b); if(a->n!=b->n) return 0; for(i=0;i<a->n;i++) if(!runify(a->a[i],b->a[i])) return 0; return 1; }
static int requal(term*a,term*b){ int i; if(a->k!=3||b->k!=3) return primeq(a,b); if(a->n!=b->n) return 0; for(i=0;i<a->n;i++) if(!requal(a->a[i],b->a[i])) return 0; return 1; }
/* b's variables are constants */
static int rmatch(term*a,term*b){ int i; if(a->k==0){ term*o=SB[SLOT(a->v)]; if(o) return requal(o,b); SB[SLOT(a->v)]=b; return 1; } if(a->k!=3||b->k!=3) return primeq(a,b); if(a->n!=b->n) return 0; for(i=0;i<a->n;i++) if(!rmatch(a->a[i],b->a[i])) return 0; return 1; }
/* the value the code gave to a variable, followed through its bindings, is that term (after the reference's bindings) up to a renaming of free variables */
static long RN[NSLOT]; static char RU[NSLOT];
static int samevalue(gint e,term*t,int deep){ int i; if(deep>12) ws__fail("bindings go in a circle"); t=walk(t);
  while(wg_get_encoded_type(db,e)==WG_VARTYPE&&g->varbanks[wg_decode_var(db,e)]!=UNASSIGNED) e=g->varbanks[wg_decode_var(db,e)];
  if(wg_get_encoded_type(db,e)==WG_VARTYPE){ int s; if(t->k!=0) return 0; s=SLOT(wg_decode_var(db,e)); if(RN[s]<0){ if(RU[SLOT(t->v)]) return 0; RU[SLOT(t->v)]=1; RN[s]=t->v; } return RN[s]==t->v; }
  if(t->k==0) return 0;
  if(wg_get_encoded_type(db,e)==WG_RECORDTYPE){ void*r=wg_decode_record(db,e); if(t->k!=3||wg_get_record_len(db,r)!=t->n+g->unify_firstuseterm) return 0; for(i=0;i<t->n;i++) if(!samevalue(wg_get_field(db,r,i+g->unify_firstuseterm),t->a[i],deep+1)) return 0; return 1; }
  if(t->k==3) return 0; if(t->k==2) return wg_get_encoded_type(db,e)==WG_INTTYPE&&wg_decode_int(db,e)==t->v; if(t->k==4) return wg_get_encoded_type(db,e)==WG_DOUBLETYPE&&wg_decode_double(db,e)==t->d;
  return e==t->e; }
static void clean(void){ int b,i; for(b=0;b<NROF_VARBANKS;b++) for(i=0;i<4;i++) ws_check(g->varbanks[b*NROF_VARSINBANK+i]==UNASSIGNED,"every variable is unbound again"); ws_check(g->varstack[1]==2,"the record of bindings is empty again"); }
static void bound(void){ int b,i,n=0; for(b=0;b<NROF_VARBANKS;b++) for(i=0;i<4;i++) if(g->varbanks[b*NROF_VARSINBANK+i]!=UNASSIGNED) n++; ws_check(g->varstack[1]==2+n,"the record of bindings has all of them"); }
static void nosb(void){ int i; for(i=0;i<NSLOT;i++){ SB[i]=NULL; RN[i]=-1; RU[i]=0; } }
