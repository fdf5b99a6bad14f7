// random check of the simplifier: every built expression must evaluate to what its operands give, and lie in its known bits and range
#include "expr.h"
#include <cstdio>
#include <cstdlib>
#include <random>
int main(int argc,char**argv){ std::mt19937_64 R(argc>1?atoi(argv[1]):1); long bad=0,n=0;
 for(int round=0;round<3000;round++){ std::vector<u64> m; std::vector<Expr*> ex; std::vector<u64> v; 
  auto add=[&](Expr*e,u64 val){ val&=mask(e->w); n++; u64 g=evalExpr(e,m); if(g!=val||(g&e->kz)||(~g&e->ko)||g<e->lo||g>e->hi){ if(bad++<5) printf("BAD w=%d op=%d got %lx want %lx range %lx..%lx kz %lx ko %lx\n",e->w,e->op,(long)g,(long)val,(long)e->lo,(long)e->hi,(long)e->kz,(long)e->ko); } ex.push_back(e); v.push_back(val); };
  for(int i=0;i<4;i++){ unsigned w=(unsigned[]){1,5,8,16,32,64}[R()%6]; u64 mx=R()%2?~0ull:(R()&mask(w)); u64 val=R()&mask(w); if(val>mx) val=mx?val%mx:0; m.push_back(val); Expr*e=mkSym(round*0+i,w,mx); add(e,val); if(w<64){ add(mkZext(e,64),val); add(mkZext(e,32>w?32:64),val);} }
  for(int i=0;i<40;i++){ size_t k=R()%ex.size(); Expr*a=ex[k]; u64 av=v[k]; int c=R()%12; 
   if(c<7){ Expr*b=nullptr; u64 bv=0; if(R()%2){ u64 t=R(); int z=R()%5; bv=(z==0?t:z==1?t%100:z==2?(u64)(-(i64)(t%200)):z==3?(1ull<<(t%64)):(t%2?6000:146097))&mask(a->w); b=mkConst(bv,a->w); } else { for(int t=0;t<8;t++){ size_t q=R()%ex.size(); if(ex[q]->w==a->w){ b=ex[q]; bv=v[q]; break; } } if(!b){ b=a; bv=av; } }
     if(c<5){ Op o=(Op[]){ADD,SUB,MUL,UDIV,SDIV,UREM,SREM,AND,OR,XOR,SHL,LSHR,ASHR,ADD,MUL,SUB,UDIV}[R()%17]; if((o==UDIV||o==SDIV||o==UREM||o==SREM)&&bv==0) continue; if((o==SHL||o==LSHR||o==ASHR)&&bv>=a->w) continue; if(o==SDIV&&bv==mask(a->w)) continue; add(mkBin(o,a,b),evalOp(o,a->w,a->w,av,bv,0,0)); }
     else { Op o=(Op[]){EQ,ULT,ULE,SLT,SLE}[R()%5]; add(mkCmp(o,a,b),evalOp(o,1,a->w,av,bv,0,0)); } }
   else if(c==7){ unsigned w=a->w; unsigned lo=R()%w, l=1+R()%(w-lo); add(mkExtract(a,lo,l),(av>>lo)&mask(l)); }
   else if(c==8&&a->w<64) add(mkZext(a,64),av);
   else if(c==9&&a->w<64) add(mkSext(a,64),(u64)sext64(av,a->w));
   else if(c==10){ size_t q=R()%ex.size(); if(ex[q]->w+a->w<=64) add(mkConcat(a,ex[q]),(av<<ex[q]->w)|v[q]); }
   else if(c==11){ for(int t=0;t<20;t++){ size_t q=R()%ex.size(),p=R()%ex.size(); if(ex[q]->w==1&&ex[p]->w==a->w){ add(mkIte(ex[q],a,ex[p]),v[q]?av:v[p]); break; } } }
  } }
 printf("%ld expressions, %ld wrong\n",n,bad); return bad!=0; }
