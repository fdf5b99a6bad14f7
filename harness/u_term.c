/* U01, U02: unification, matching, equality */
#include "u_glb.h"
static int vars,consts; static const long V[]={1000,1001,2000,0,4001};
static term*leaf(const char*w){ int c=ws_choose(vars+consts,w); if(c<vars) return tvar(V[c]); c-=vars; return c==0?tint((long)ws_u(64,"number")):tconst(c-1); }
/* a term of up to that depth whose compounds have up to width parts */
static term*gen(int depth,int width,const char*w){ int c,n; term*a[3]={0,0,0}; if(!depth) return leaf(w); c=ws_choose(vars+consts+width,w); if(c<vars) return tvar(V[c]); if(c<vars+consts) return c==vars?tint((long)ws_u(64,"number")):tconst(c-vars-1);
  n=1+c-vars-consts; for(c=0;c<n;c++) a[c]=gen(depth-1,width,"part"); return tcomp(n,a[0],a[1],a[2],0); }
static void judge(term*x,term*y){ int r,w,i; char used[NSLOT]; 
  r=(int)wr_equal_term(g,x->e,y->e,1); w=requal(x,y); ws_check(r==w,"terms are equal exactly when their structure, constants and variables are"); if(w) ws_reach("equal"); 
  r=(int)wr_equal_term(g,x->e,y->e,0); ws_check(r==w,"terms are equal exactly when their structure, constants and variables are (strings not unique)");
  nosb(); r=(int)wr_match_term(g,x->e,y->e,1); w=rmatch(x,y); ws_check(r==w,"a term matches another exactly when replacing its variables makes it that one");
  if(w){ ws_reach("match"); for(i=0;i<5;i++){ term*t=SB[SLOT(V[i])]; gint e=g->varbanks[V[i]]; if(!t) ws_check(e==UNASSIGNED,"only variables of the first are replaced"); else ws_check(e==t->e||wr_equal_term(g,e,t->e,1),"a replaced variable is the part of the second term"); } } else ws_reach("nomatch");
  bound(); wr_clear_varstack(g,g->varstack); clean();
  nosb(); r=(int)wr_unify_term(g,x->e,y->e,1); w=runify(x,y); ws_check(r==w,"terms unify exactly when some substitution makes them identical");
  bound();
  if(w){ ws_reach("unify"); for(i=0;i<5;i++){ term t; memset(&t,0,sizeof t); t.k=0; t.v=V[i]; ws_check(samevalue(wg_encode_var(db,V[i]),&t,0),"unification binds variables to what makes the terms identical and to nothing more"); } } else ws_reach("nounify");
  wr_clear_varstack(g,g->varstack); clean(); }
void ws_main(void){ rnew(200000); vars=(int)ws_param("vars",3); consts=(int)ws_param("consts",2);
#ifdef U_PAIR
  { int d=(int)ws_param("depth",1),w=(int)ws_param("width",2); term*x,*y; x=gen(d,w,"first"); y=gen(d,w,"second"); judge(x,y); }
#endif
#ifdef U_ATOM /* atoms of several arguments */
  { int n=(int)ws_param("args",3),m=n-ws_choose(2,"shorter"),i; term*a[3]={0,0,0},*b[3]={0,0,0},*x,*y; for(i=0;i<n;i++) a[i]=gen(ws_param("depth",0),1,"argument"); for(i=0;i<m;i++) b[i]=gen(ws_param("depth2",0),1,"other"); x=tcomp(n,a[0],a[1],a[2],1); y=tcomp(m,b[0],b[1],b[2],1); judge(x,y); }
#endif
#ifdef U_CONST /* every pair of constants, alone and inside */
  { int ca=ws_choose(NCONST+2,"first"),cb=ws_choose(NCONST+2,"second"),in=ws_choose(3,"inside"); term*t[2]; int i; for(i=0;i<2;i++){ int c=i?cb:ca; if(c<NCONST) t[i]=tconst(c); else if(c==NCONST) t[i]=tint((long)ws_u(64,"number")); else { union { double d; unsigned long u; } x; x.u=ws_u(64,"double"); ws_assume(x.d==x.d); t[i]=tdbl(x.d); } }
    for(i=0;i<2;i++) if(in>i||in==0) { if(in) t[i]=tcomp(1,t[i],NULL,NULL,0); }
    if(in==1) t[1]=tcomp(1,t[1],NULL,NULL,0); judge(t[0],t[1]); }
#endif
#ifdef U_MIX /* a constant of every kind against a compound or a variable */
  { int c=ws_choose(NCONST+2,"constant"),o=ws_choose(2,"order"),f=ws_choose(3,"other"); term*a,*b; if(c<NCONST) a=tconst(c); else if(c==NCONST) a=tint((long)ws_u(64,"number")); else { union { double d; unsigned long u; } x; x.u=ws_u(64,"double"); ws_assume(x.d==x.d); a=tdbl(x.d); }
    b=f==0?tcomp(1,tconst(0),NULL,NULL,0):f==1?tcomp(2,tvar(1000),a,NULL,0):tvar(2000); if(o) judge(b,a); else judge(a,b); }
#endif
#ifdef U_HASH /* a predicate is filed under a place that exists, equal ones under the same */
  { int i,w=ws_choose(2,"what"); term*t[2]; for(i=0;i<2;i++){ int c=ws_choose(NCONST+4,"constant"); if(w==0&&i==1) c=NCONST+3; if(c<NCONST) t[i]=tconst(c); else if(c==NCONST) t[i]=tint((long)ws_u(64,"number")); else if(c==NCONST+1){ union { double d; unsigned long u; } x; x.u=ws_u(64,"double"); ws_assume(x.d==x.d&&x.d<2000000&&x.d>-2000000); t[i]=tdbl(x.d); } else if(c==NCONST+2) t[i]=tvar(1000); else t[i]=tcomp(1,tconst(0),NULL,NULL,0); }
    { gint h[2]; for(i=0;i<2;i++){ h[i]=wr_term_basehash(g,t[i]->e); ws_check(h[i]>=1&&h[i]<NROF_CLTERM_HASHVEC_ELS,"a predicate is filed under a place of the table"); }
      if(wr_equal_term(g,t[0]->e,t[1]->e,1)){ ws_reach("equal"); ws_check(h[0]==h[1],"equal predicates are filed under the same place"); } ws_reach("hash"); } }
#endif
}
