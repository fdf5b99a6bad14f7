#include "solver.h"
#include <chrono>
#include <cstdio>
#include <cstdlib>
static void onerr(Z3_context c,Z3_error_code e){ fprintf(stderr,"z3 error: %s\n",Z3_get_error_msg(c,e)); }
void Solver::reset(){
  if(ctx) Z3_del_context(ctx);
  Z3_config cfg=Z3_mk_config(); ctx=Z3_mk_context(cfg); Z3_del_config(cfg); Z3_set_error_handler(ctx,onerr);
  cache.clear(); ncached=0; dvq.clear(); dvside.clear();
}
// x = q*c + r, r < c, q <= max/c: q and r are determined by x, so this is exact
Z3_ast Solver::divq(Expr*e,bool rem){
  unsigned w=e->w; u64 c=e->b->val; Z3_sort bv=Z3_mk_bv_sort(ctx,w); Z3_ast x=tr(e->a); bool sg=e->op==SDIV||e->op==SREM; Z3_ast neg=nullptr; bool cneg=sg&&((c>>(w-1))&1); u64 ac=cneg?(0-c)&mask(w):c;
  Z3_ast zero=Z3_mk_unsigned_int64(ctx,0,bv); u64 mx=~e->a->kz&mask(w);
  if(sg){ neg=Z3_mk_bvslt(ctx,x,zero); x=Z3_mk_ite(ctx,neg,Z3_mk_bvneg(ctx,x),x); mx=1ull<<(w-1); }
  char n[48]; snprintf(n,48,"dq%u",e->id); Z3_ast q=Z3_mk_const(ctx,Z3_mk_string_symbol(ctx,n),bv); snprintf(n,48,"dr%u",e->id); Z3_ast r=Z3_mk_const(ctx,Z3_mk_string_symbol(ctx,n),bv);
  Z3_ast cc=Z3_mk_unsigned_int64(ctx,ac,bv); std::vector<Z3_ast> sd; sd.push_back(Z3_mk_eq(ctx,x,Z3_mk_bvadd(ctx,Z3_mk_bvmul(ctx,q,cc),r))); sd.push_back(Z3_mk_bvult(ctx,r,cc)); sd.push_back(Z3_mk_bvule(ctx,q,Z3_mk_unsigned_int64(ctx,mx/ac,bv)));
  // the sum does not wrap: q*c + r <= max for q < max/c; for q == max/c the remainder is bounded too
  { Z3_ast qm=Z3_mk_eq(ctx,q,Z3_mk_unsigned_int64(ctx,mx/ac,bv)); Z3_ast rb=Z3_mk_bvule(ctx,r,Z3_mk_unsigned_int64(ctx,mx%ac,bv)); sd.push_back(Z3_mk_implies(ctx,qm,rb)); }
  dvside[e]=sd;
  if(!rem){ if(!sg) return q; Z3_ast nq=Z3_mk_bvneg(ctx,q); return cneg?Z3_mk_ite(ctx,neg,q,nq):Z3_mk_ite(ctx,neg,nq,q); }
  return sg?Z3_mk_ite(ctx,neg,Z3_mk_bvneg(ctx,r),r):r;
}
Z3_ast Solver::tr(Expr*e){
  if(cache.size()<=e->id) cache.resize(nExprs+1024,nullptr);
  if(cache[e->id]) return cache[e->id];
  Z3_ast r,a=nullptr,b=nullptr,c=nullptr;
  if(e->a) a=tr(e->a); if(e->b) b=tr(e->b); if(e->c) c=tr(e->c);
  auto bv=[&](unsigned w){return Z3_mk_bv_sort(ctx,w);};
  auto b2v=[&](Z3_ast x){return Z3_mk_ite(ctx,x,Z3_mk_unsigned_int64(ctx,1,bv(1)),Z3_mk_unsigned_int64(ctx,0,bv(1)));};
  auto v2b=[&](Z3_ast x){return Z3_mk_eq(ctx,x,Z3_mk_unsigned_int64(ctx,1,bv(1)));};
  auto fs=[&](unsigned w){return w==64?Z3_mk_fpa_sort_double(ctx):Z3_mk_fpa_sort_single(ctx);};
  auto F=[&](Z3_ast x,unsigned w){return Z3_mk_fpa_to_fp_bv(ctx,x,fs(w));};
  auto RNE=[&](){return Z3_mk_fpa_rne(ctx);};
  auto toB=[&](Z3_ast f){return Z3_mk_fpa_to_ieee_bv(ctx,f);};
  switch(e->op){
  case CONST: r=Z3_mk_unsigned_int64(ctx,e->val,bv(e->w)); break;
  case SYM: { char n[32]; snprintf(n,32,"s%llu_%d",(unsigned long long)e->val,e->w); r=Z3_mk_const(ctx,Z3_mk_string_symbol(ctx,n),bv(e->w)); if(e->b) dvside[e]={Z3_mk_bvule(ctx,r,tr(e->b))}; break; }
  case ADD: r=Z3_mk_bvadd(ctx,a,b);break; case SUB: r=Z3_mk_bvsub(ctx,a,b);break; case MUL: r=Z3_mk_bvmul(ctx,a,b);break;
  case UDIV: r=(e->b->op==CONST&&e->b->val)?divq(e,false):Z3_mk_bvudiv(ctx,a,b);break; case SDIV: r=(e->b->op==CONST&&e->b->val)?divq(e,false):Z3_mk_bvsdiv(ctx,a,b);break; case UREM: r=(e->b->op==CONST&&e->b->val)?divq(e,true):Z3_mk_bvurem(ctx,a,b);break; case SREM: r=(e->b->op==CONST&&e->b->val)?divq(e,true):Z3_mk_bvsrem(ctx,a,b);break;
  case AND: r=Z3_mk_bvand(ctx,a,b);break; case OR: r=Z3_mk_bvor(ctx,a,b);break; case XOR: r=Z3_mk_bvxor(ctx,a,b);break; case NOT: r=Z3_mk_bvnot(ctx,a);break;
  case SHL: r=Z3_mk_bvshl(ctx,a,b);break; case LSHR: r=Z3_mk_bvlshr(ctx,a,b);break; case ASHR: r=Z3_mk_bvashr(ctx,a,b);break;
  case EQ: r=b2v(Z3_mk_eq(ctx,a,b));break; case ULT: r=b2v(Z3_mk_bvult(ctx,a,b));break; case ULE: r=b2v(Z3_mk_bvule(ctx,a,b));break;
  case SLT: r=b2v(Z3_mk_bvslt(ctx,a,b));break; case SLE: r=b2v(Z3_mk_bvsle(ctx,a,b));break;
  case ITE: r=Z3_mk_ite(ctx,v2b(a),b,c);break;
  case EXTRACT: r=Z3_mk_extract(ctx,e->val+e->w-1,e->val,a);break; case CONCAT: r=Z3_mk_concat(ctx,a,b);break;
  case ZEXT: r=Z3_mk_zero_ext(ctx,e->w-e->a->w,a);break; case SEXT: r=Z3_mk_sign_ext(ctx,e->w-e->a->w,a);break;
  case FADD: r=toB(Z3_mk_fpa_add(ctx,RNE(),F(a,e->w),F(b,e->w)));break; case FSUB: r=toB(Z3_mk_fpa_sub(ctx,RNE(),F(a,e->w),F(b,e->w)));break;
  case FMUL: r=toB(Z3_mk_fpa_mul(ctx,RNE(),F(a,e->w),F(b,e->w)));break; case FDIV: r=toB(Z3_mk_fpa_div(ctx,RNE(),F(a,e->w),F(b,e->w)));break;
  case FREM: r=toB(Z3_mk_fpa_rem(ctx,F(a,e->w),F(b,e->w)));break;
  case FLT: r=b2v(Z3_mk_fpa_lt(ctx,F(a,e->a->w),F(b,e->a->w)));break; case FLE: r=b2v(Z3_mk_fpa_leq(ctx,F(a,e->a->w),F(b,e->a->w)));break;
  case FEQ: r=b2v(Z3_mk_fpa_eq(ctx,F(a,e->a->w),F(b,e->a->w)));break;
  case FUNO: { Z3_ast x[2]={Z3_mk_fpa_is_nan(ctx,F(a,e->a->w)),Z3_mk_fpa_is_nan(ctx,F(b,e->a->w))}; r=b2v(Z3_mk_or(ctx,2,x)); break; }
  case FSQRT: r=toB(Z3_mk_fpa_sqrt(ctx,RNE(),F(a,e->w)));break;
  case FFLOOR: r=toB(Z3_mk_fpa_round_to_integral(ctx,Z3_mk_fpa_rtn(ctx),F(a,e->w)));break; case FCEIL: r=toB(Z3_mk_fpa_round_to_integral(ctx,Z3_mk_fpa_rtp(ctx),F(a,e->w)));break;
  case FRINT: r=toB(Z3_mk_fpa_round_to_integral(ctx,RNE(),F(a,e->w)));break; case FTRUNCI: r=toB(Z3_mk_fpa_round_to_integral(ctx,Z3_mk_fpa_rtz(ctx),F(a,e->w)));break;
  case FPTOSI: { // x86 semantics: out of range gives the minimum
     Z3_ast f=F(a,e->a->w); Z3_ast conv=Z3_mk_fpa_to_sbv(ctx,Z3_mk_fpa_rtz(ctx),f,e->w);
     double lim=ldexp(1.0,e->w-1);
     Z3_ast hi=e->a->w==64?Z3_mk_fpa_numeral_double(ctx,lim,fs(64)):Z3_mk_fpa_numeral_float(ctx,(float)lim,fs(32));
     Z3_ast lo=e->a->w==64?Z3_mk_fpa_numeral_double(ctx,e->w<=32?-lim-1:-lim,fs(64)):Z3_mk_fpa_numeral_float(ctx,(float)-lim,fs(32));
     Z3_ast cs[2]={Z3_mk_fpa_lt(ctx,f,hi),(e->w<=32&&e->a->w==64)?Z3_mk_fpa_gt(ctx,f,lo):Z3_mk_fpa_geq(ctx,f,lo)};
     r=Z3_mk_ite(ctx,Z3_mk_and(ctx,2,cs),conv,Z3_mk_unsigned_int64(ctx,1ull<<(e->w-1),bv(e->w))); break; }
  case FPTOUI: r=Z3_mk_fpa_to_ubv(ctx,Z3_mk_fpa_rtz(ctx),F(a,e->a->w),e->w);break;
  case SITOFP: r=toB(Z3_mk_fpa_to_fp_signed(ctx,RNE(),a,fs(e->w)));break; case UITOFP: r=toB(Z3_mk_fpa_to_fp_unsigned(ctx,RNE(),a,fs(e->w)));break;
  case FPEXT: case FPTRUNC: r=toB(Z3_mk_fpa_to_fp_float(ctx,RNE(),F(a,e->a->w),fs(e->w)));break;
  default: fprintf(stderr,"tr: bad op %d\n",e->op); abort();
  }
  cache[e->id]=r; ncached++; return r;
}
static bool meets(const std::vector<u64>&a,const std::vector<u64>&b){ size_t n=std::min(a.size(),b.size()); for(size_t i=0;i<n;i++) if(a[i]&b[i]) return true; return false; }
Res Solver::check(const std::vector<Expr*>&cs,Expr*extra,std::vector<u64>&model){
  if(extra->op==CONST&&!extra->val) return UNSAT;
  // independence slice
  std::vector<u64> s=support(extra); std::vector<Expr*> use{extra}; std::vector<char> in(cs.size(),0); bool ch=true;
  while(ch){ ch=false; for(size_t i=cs.size();i-->0;) if(!in[i]&&meets(s,support(cs[i]))){ in[i]=1; ch=true; use.push_back(cs[i]); auto&t=support(cs[i]); if(s.size()<t.size())s.resize(t.size(),0); for(size_t k=0;k<t.size();k++)s[k]|=t[k]; } }
  std::vector<u32> ids; for(Expr*e:use) ids.push_back(e->id); std::sort(ids.begin(),ids.end()); ids.erase(std::unique(ids.begin(),ids.end()),ids.end());
  std::string key((char*)ids.data(),ids.size()*4);
  auto it=memo.find(key);
  if(it!=memo.end()){ memoHits++; if(it->second.r==SAT) for(auto&p:it->second.m){ if(model.size()<=p.first) model.resize(p.first+1,0); model[p.first]=p.second; } return it->second.r; }
  auto t0=std::chrono::steady_clock::now();
  if(!ctx||ncached>400000) reset();
  bool fp=false; for(Expr*e:use) fp|=e->fp;
  Z3_solver sv; 
  if(fp){ Z3_tactic t=Z3_mk_tactic(ctx,"qffpbv"); Z3_tactic_inc_ref(ctx,t); sv=Z3_mk_solver_from_tactic(ctx,t); Z3_solver_inc_ref(ctx,sv); Z3_tactic_dec_ref(ctx,t); }
  else { Z3_tactic t=Z3_mk_tactic(ctx,"qfbv"); Z3_tactic_inc_ref(ctx,t); sv=Z3_mk_solver_from_tactic(ctx,t); Z3_solver_inc_ref(ctx,sv); Z3_tactic_dec_ref(ctx,t); }
  Z3_params p=Z3_mk_params(ctx); Z3_params_inc_ref(ctx,p); Z3_params_set_uint(ctx,p,Z3_mk_string_symbol(ctx,"timeout"),timeoutMs); Z3_solver_set_params(ctx,sv,p); Z3_params_dec_ref(ctx,p);
  Z3_sort b1=Z3_mk_bv_sort(ctx,1);
  for(Expr*e:use) Z3_solver_assert(ctx,sv,Z3_mk_eq(ctx,tr(e),Z3_mk_unsigned_int64(ctx,1,b1)));
  { bool dv=false; for(Expr*e:use) dv|=e->dv; if(dv){ std::vector<Expr*> st(use.begin(),use.end()); std::unordered_map<Expr*,bool> seen; while(!st.empty()){ Expr*e=st.back(); st.pop_back(); if(!e->dv||seen[e]) continue; seen[e]=true; auto d=dvside.find(e); if(d!=dvside.end()) for(Z3_ast x:d->second) Z3_solver_assert(ctx,sv,x); if(e->a)st.push_back(e->a); if(e->b)st.push_back(e->b); if(e->c)st.push_back(e->c); } } }
  auto tq=std::chrono::steady_clock::now(); Z3_lbool rb=Z3_solver_check(ctx,sv);
  if(getenv("WGSYM_SLOW")){ double d=std::chrono::duration<double>(std::chrono::steady_clock::now()-tq).count(); if(d>atof(getenv("WGSYM_SLOW"))) fprintf(stderr,"SLOW %.2fs (translate %.2fs, %zu constraints)\n%s\n",d,std::chrono::duration<double>(tq-t0).count(),use.size(),Z3_solver_to_string(ctx,sv)); }
  Res res=rb==Z3_L_TRUE?SAT:rb==Z3_L_FALSE?UNSAT:UNKNOWN;
  Memo mm; mm.r=res;
  if(res==SAT){
    Z3_model m=Z3_solver_get_model(ctx,sv); Z3_model_inc_ref(ctx,m);
    std::vector<u64> nm=model;
    // collect symbol exprs
    std::vector<Expr*> st(use.begin(),use.end()); std::unordered_map<Expr*,bool> seen; 
    while(!st.empty()){ Expr*e=st.back(); st.pop_back(); if(seen[e]) continue; seen[e]=true; if(e->op==SYM){ Z3_ast out; if(Z3_model_eval(ctx,m,tr(e),true,&out)){ uint64_t v=0; Z3_get_numeral_uint64(ctx,out,&v); if(nm.size()<=e->val) nm.resize(e->val+1,0); nm[e->val]=v; mm.m.push_back({(u32)e->val,v}); } } else { if(e->a)st.push_back(e->a); if(e->b)st.push_back(e->b); if(e->c)st.push_back(e->c);} }
    Z3_model_dec_ref(ctx,m);
    bool ok=true; for(Expr*e:use) if(!evalExpr(e,nm)){ ok=false; break; }
    if(!ok){ // floating-point NaN payload freedom etc.: cannot use the model
      res=UNKNOWN; mm.r=UNKNOWN; mm.m.clear(); }
    else model=nm;
  }
  Z3_solver_dec_ref(ctx,sv);
  secs+=std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count();
  queries++; if(res==SAT) satc++; else if(res==UNSAT) unsatc++; else unknowns++;
  memo.emplace(key,std::move(mm));
  return res;
}
