#include "expr.h"
static std::unordered_map<EKey,Expr*,EHash> table;
static std::deque<Expr> pool;
size_t nExprs=0;
static void knownBits(Expr*e);

Expr* mk(Op op,u8 w,u64 val,Expr*a,Expr*b,Expr*c){
  EKey k{op,w,val,a,b,c};
  auto it=table.find(k); if(it!=table.end()) return it->second;
  pool.push_back(Expr{}); Expr*e=&pool.back();
  e->op=op;e->w=w;e->val=val;e->a=a;e->b=b;e->c=c;e->id=(u32)nExprs++;e->sup=nullptr;
  e->fp=(op>=FADD)||(a&&a->fp)||(b&&b->fp)||(c&&c->fp);
  e->dv=(op==SYM&&b)||((op==UDIV||op==UREM||op==SDIV||op==SREM)&&b->op==CONST&&b->val)||(a&&a->dv)||(b&&b->dv)||(c&&c->dv);
  knownBits(e);
  table.emplace(k,e);
  if(op!=CONST && ((e->kz|e->ko)==mask(w))){ // fully determined
    Expr*r=mkConst(e->ko,w); table[k]=r; return r; }
  return e;
}
Expr* mkConst(u64 v,u8 w){ return mk(CONST,w,v&mask(w)); }
Expr* mkSym(u32 ord,u8 w,u64 mx){ return mk(SYM,w,ord,nullptr,mx<mask(w)?mkConst(mx,w):nullptr); } // a bounded symbol carries its bound; the solver adds it to every query it is in

static void knownBits(Expr*e){
  u64 m=mask(e->w); u64 z=0,o=0; Expr*a=e->a,*b=e->b;
  switch(e->op){
  case CONST: o=e->val; z=~o; break;
  case AND: z=a->kz|b->kz; o=a->ko&b->ko; break;
  case OR: z=a->kz&b->kz; o=a->ko|b->ko; break;
  case XOR: z=(a->kz&b->kz)|(a->ko&b->ko); o=(a->kz&b->ko)|(a->ko&b->kz); break;
  case NOT: z=a->ko; o=a->kz; break;
  case SHL: if(b->op==CONST){ if(b->val>=e->w) z=m; else { z=(a->kz<<b->val)|mask(b->val); if(b->val==0) z=a->kz; o=a->ko<<b->val; } } break;
  case LSHR: if(b->op==CONST){ if(b->val>=e->w) z=m; else { z=((a->kz&m)>>b->val)|(~(m>>b->val)); o=(a->ko&m)>>b->val; } } break;
  case ASHR: if(b->op==CONST&&b->val<e->w){ u64 s=b->val; u64 hi=m&~(m>>s); z=(a->kz&m)>>s; o=(a->ko&m)>>s; u64 sb=1ull<<(e->w-1); if(a->kz&sb) z|=hi; if(a->ko&sb) o|=hi; } break;
  case EXTRACT: z=a->kz>>e->val; o=a->ko>>e->val; break;
  case CONCAT: z=(a->kz<<b->w)|(b->kz&mask(b->w)); o=(a->ko<<b->w)|b->ko; break;
  case ZEXT: z=(a->kz&mask(a->w))|~mask(a->w); o=a->ko; break;
  case SEXT: { u64 hi=m&~mask(a->w); z=a->kz&mask(a->w); o=a->ko; u64 sb=1ull<<(a->w-1); if(a->kz&sb) z|=hi; if(a->ko&sb) o|=hi; break; }
  case ITE: z=e->b->kz&e->c->kz; o=e->b->ko&e->c->ko; break;
  case ADD: case SUB: {
    // low bits exact while both known; high zero bits by range
    u64 bz=b->kz,bo=b->ko; u64 known=0,res=0; 
    unsigned i=0; u64 carry=(e->op==SUB)?1:0;
    for(;i<e->w;i++){ u64 bit=1ull<<i; if(!((a->kz|a->ko)&bit)||!((bz|bo)&bit)) break; u64 x=(a->ko&bit)?1:0,y=(bo&bit)?1:0; if(e->op==SUB)y^=1; u64 s=x+y+carry; if(s&1)res|=bit; known|=bit; carry=s>>1; }
    o=res; z=known&~res;
    if(e->op==ADD){ u64 ma=~a->kz&m, mb=~b->kz&m; u128 s=(u128)ma+mb; if(s<=m){ u64 t=(u64)s; unsigned hb=t?64-__builtin_clzll(t):0; z|=m&~mask(hb); if(hb==0) z=m; } }
    break; }
  case MUL: { u64 ma=~a->kz&m, mb=~b->kz&m; u128 s=(u128)ma*mb; if(s<=m){ u64 t=(u64)s; unsigned hb=t?64-__builtin_clzll(t):0; z|=hb?m&~mask(hb):m; }
    unsigned ta=(~a->kz&m)?__builtin_ctzll(~a->kz&m):e->w, tb=(~b->kz&m)?__builtin_ctzll(~b->kz&m):e->w; unsigned t=ta+tb; if(t>e->w)t=e->w; z|=mask(t)&(t?~0ull:0); break; }
  case UDIV: { u64 ma=~a->kz&m; if(b->op==CONST&&b->val){ u64 t=ma/b->val; unsigned hb=t?64-__builtin_clzll(t):0; z|=hb?m&~mask(hb):m; } break; }
  case UREM: { if(b->op==CONST&&b->val){ u64 t=b->val-1; u64 ma=~a->kz&m; if(ma<t)t=ma; unsigned hb=t?64-__builtin_clzll(t):0; z|=hb?m&~mask(hb):m; } break; }
  default: break;
  }
  e->kz=z&m; e->ko=o&m;
  // unsigned range; it tightens the known high bits and the other way round
  u64 lo=e->ko,hi=~e->kz&m; auto in=[&](u64 l,u64 h){ if(l>lo)lo=l; if(h<hi)hi=h; };
  switch(e->op){
  case SYM: if(b) in(0,b->val); break;
  case ADD: { u128 l=(u128)a->lo+b->lo,h=(u128)a->hi+b->hi; if(h<=m) in((u64)l,(u64)h); else if(l>m) in((u64)l&m,(u64)h&m);
    if(b->op==CONST&&a->op==SUB){ __int128 L=(__int128)a->a->lo-a->b->hi,H=(__int128)a->a->hi-a->b->lo; __int128 c=b->val; for(int i=0;i<2;i++,c-=(__int128)m+1) if(L+c>=0&&H+c<=(__int128)m) in((u64)(L+c),(u64)(H+c)); } break; }
  case SUB: if(a->lo>=b->hi) in(a->lo-b->hi,a->hi-b->lo); break;
  case MUL: { u128 h=(u128)a->hi*b->hi; if(h<=m) in(a->lo*b->lo,(u64)h); break; }
  case UDIV: if(b->lo) in(a->lo/b->hi,a->hi/b->lo); break;
  case UREM: if(b->hi) in(0,a->hi<b->hi-1?a->hi:b->hi-1); break;
  case LSHR: if(b->op==CONST&&b->val<e->w) in(a->lo>>b->val,a->hi>>b->val); break;
  case SHL: if(b->op==CONST&&b->val<e->w&&a->hi<=(m>>b->val)) in(a->lo<<b->val,a->hi<<b->val); break;
  case ZEXT: in(a->lo,a->hi); break;
  case SEXT: if(!(a->hi>>(a->w-1))) in(a->lo,a->hi); else if(a->lo>>(a->w-1)) in((u64)sext64(a->lo,a->w)&m,(u64)sext64(a->hi,a->w)&m); break;
  case EXTRACT: if(e->val==0&&a->hi<=m) in(a->lo,a->hi); break;
  case ITE: in(std::min(e->b->lo,e->c->lo),std::max(e->b->hi,e->c->hi)); break;
  default: break; }
  if(lo>hi){ lo=e->ko; hi=~e->kz&m; }
  u64 d=lo^hi; unsigned k=d?64-__builtin_clzll(d):0; u64 top=m&~mask(k); if(k==0) top=m; e->kz|=top&~lo; e->ko|=top&lo; e->lo=lo; e->hi=hi;
}
static double bd(u64 x){ double d; memcpy(&d,&x,8); return d; }
static u64 db(double d){ u64 x; memcpy(&x,&d,8); return x; }
static float bf(u64 x){ u32 y=(u32)x; float d; memcpy(&d,&y,4); return d; }
static u64 fb(float d){ u32 y; memcpy(&y,&d,4); return y; }
static double ld(u64 x,unsigned w){ return w==64?bd(x):(double)bf(x); }
static u64 st(double d,unsigned w){ return w==64?db(d):fb((float)d); }

u64 evalOp(Op op,u8 w,u8 aw,u64 a,u64 b,u64 c,u64 val,u8 bw){
  u64 m=mask(w);
  switch(op){
  case ADD: return (a+b)&m; case SUB: return (a-b)&m; case MUL: return (a*b)&m;
  case UDIV: return b?(a/b)&m:m; 
  case SDIV: { i64 x=sext64(a,w),y=sext64(b,w); if(y==0) return x<0?1:m; if(y==-1) return (u64)(-(u64)x)&m; return (u64)(x/y)&m; }
  case UREM: return b?a%b:a;
  case SREM: { i64 x=sext64(a,w),y=sext64(b,w); if(y==0) return a; if(y==-1) return 0; return (u64)(x%y)&m; }
  case AND: return a&b; case OR: return a|b; case XOR: return a^b; case NOT: return ~a&m;
  case SHL: return b>=w?0:(a<<b)&m; case LSHR: return b>=w?0:a>>b;
  case ASHR: { i64 x=sext64(a,w); return (u64)(x>>(b>=w?w-1:b))&m; }
  case EQ: return a==b; case ULT: return a<b; case ULE: return a<=b;
  case SLT: return sext64(a,aw)<sext64(b,aw); case SLE: return sext64(a,aw)<=sext64(b,aw);
  case ITE: return a?b:c;
  case EXTRACT: return (a>>val)&m; case CONCAT: return ((a<<bw)|b)&m;
  case ZEXT: return a; case SEXT: return (u64)sext64(a,aw)&m;
  case FADD: if(w==32) return fb(bf(a)+bf(b)); return db(bd(a)+bd(b));
  case FSUB: if(w==32) return fb(bf(a)-bf(b)); return db(bd(a)-bd(b));
  case FMUL: if(w==32) return fb(bf(a)*bf(b)); return db(bd(a)*bd(b));
  case FDIV: if(w==32) return fb(bf(a)/bf(b)); return db(bd(a)/bd(b));
  case FREM: if(w==32) return fb(fmodf(bf(a),bf(b))); return db(fmod(bd(a),bd(b)));
  case FLT: return ld(a,aw)<ld(b,aw); case FLE: return ld(a,aw)<=ld(b,aw); case FEQ: return ld(a,aw)==ld(b,aw);
  case FUNO: return ld(a,aw)!=ld(a,aw)||ld(b,aw)!=ld(b,aw);
  case FNEG: return a^(1ull<<(w-1)); case FABS: return a&~(1ull<<(w-1));
  case FSQRT: return st(sqrt(ld(a,w)),w); case FFLOOR: return st(floor(ld(a,w)),w); case FCEIL: return st(ceil(ld(a,w)),w);
  case FRINT: return st(nearbyint(ld(a,w)),w); case FTRUNCI: return st(trunc(ld(a,w)),w);
  case FPTOSI: { double d=ld(a,aw); if(!(d>=-9223372036854775808.0&&d<9223372036854775808.0)) return (1ull<<63)&m?(1ull<<(w-1)):(1ull<<(w-1))&m; i64 r=(i64)d; if(w<64&&(r<-(1ll<<(w-1))||r>=(1ll<<(w-1)))) return w==32?(1ull<<31):((u64)r&m); return (u64)r&m; }
  case FPTOUI: { double d=ld(a,aw); if(!(d>-1.0&&d<18446744073709551616.0)) return (1ull<<(w-1)); return (u64)d&m; }
  case SITOFP: { i64 x=sext64(a,aw); return w==64?db((double)x):fb((float)x); }
  case UITOFP: return w==64?db((double)a):fb((float)a);
  case FPEXT: return db((double)bf(a)); case FPTRUNC: return fb((float)bd(a));
  default: return 0;
  }
}
static inline bool isC(Expr*e){return e->op==CONST;}
static inline bool isC(Expr*e,u64 v){return e->op==CONST&&e->val==v;}

// write a sum that does not wrap as c*(sum of qt + qc) + (sum of rt + rc)
static bool splitSum(Expr*a,u64 c,std::vector<Expr*>&qt,std::vector<Expr*>&rt,u64&qc,u64&rc){
  u64 m=mask(a->w);
  switch(a->op){
  case CONST: qc+=a->val/c; rc+=a->val%c; if(rc>=c){ rc-=c; qc++; } return true;
  case ADD: if((u128)a->a->hi+a->b->hi>m) break; return splitSum(a->a,c,qt,rt,qc,rc)&&splitSum(a->b,c,qt,rt,qc,rc);
  case ZEXT: return splitSum(a->a,c,qt,rt,qc,rc);
  case EXTRACT: if(a->val==0&&a->a->hi<=m) return splitSum(a->a,c,qt,rt,qc,rc); break;
  case MUL: if(isC(a->b)&&(u128)a->a->hi*a->b->val<=m){ if(a->b->val%c==0){ Expr*q=mkBin(MUL,a->a,mkConst(a->b->val/c,a->w)); qt.push_back(q); return true; }
     if(a->a->op==ADD&&(u128)a->a->a->hi+a->a->b->hi<=mask(a->a->w)) return splitSum(mkBin(MUL,a->a->a,a->b),c,qt,rt,qc,rc)&&splitSum(mkBin(MUL,a->a->b,a->b),c,qt,rt,qc,rc); } break;
  case SHL: if(isC(a->b)&&a->b->val<a->w&&a->a->hi<=(m>>a->b->val)&&(1ull<<a->b->val)%c==0){ qt.push_back(mkBin(MUL,a->a,mkConst((1ull<<a->b->val)/c,a->w))); return true; } break;
  default: break; }
  rt.push_back(a); return true;
}
static Expr* narrowDiv(Op op,Expr*a,Expr*b){ // division by a constant on no more bits than the dividend can have
  if(!(b->op==CONST)||!b->val) return nullptr; u8 w=a->w; u64 ma=~a->kz&mask(w);
  if(ma<b->val) return op==UDIV?mkConst(0,w):a;
  u64 q0=a->lo/b->val,q1=a->hi/b->val; if(q0==q1||q0+1==q1){ Expr*hi=q0==q1?nullptr:mkCmp(ULE,mkConst(q1*b->val,w),a);
    if(op==UDIV) return hi?mkIte(hi,mkConst(q1,w),mkConst(q0,w)):mkConst(q0,w);
    Expr*r0=mkBin(SUB,a,mkConst(q0*b->val,w)); return hi?mkIte(hi,mkBin(SUB,a,mkConst(q1*b->val,w)),r0):r0; }
  { std::vector<Expr*> qt,rt; u64 qc=0,rc=0; if(splitSum(a,b->val,qt,rt,qc,rc)&&(qt.size()||qc)){ u128 rh=rc; for(Expr*e:rt) rh+=e->hi; if(rh<b->val){ Expr*s=mkConst(op==UDIV?qc:rc,w); for(Expr*e:op==UDIV?qt:rt) s=mkBin(ADD,mkZext(e,w),s); return s; } } }
  unsigned k=64-__builtin_clzll(ma); if(k>=w) return nullptr;
  return mkZext(mkBin(op,mkExtract(a,0,k),mkConst(b->val,k)),w); }
Expr* mkBin(Op op,Expr*a,Expr*b){
  u8 w=a->w; u64 m=mask(w);
  if(isC(a)&&isC(b)) return mkConst(evalOp(op,w,w,a->val,b->val,0,0),w);
  bool comm=op==ADD||op==MUL||op==AND||op==OR||op==XOR;
  if(comm){ if(isC(a)) std::swap(a,b); else if(!isC(b)&&a->id>b->id) std::swap(a,b); }
  // push through ite with constant branches
  if(isC(b)&&a->op==ITE&&isC(a->b)&&isC(a->c)) return mkIte(a->a,mkBin(op,a->b,b),mkBin(op,a->c,b));
  switch(op){
  case ADD:
    if(isC(b,0)) return a;
    if(isC(b)&&a->op==ADD&&isC(a->b)) return mkBin(ADD,a->a,mkConst(a->b->val+b->val,w));
    if(b->op==ADD&&isC(b->b)) return mkBin(ADD,mkBin(ADD,a,b->a),b->b);
    if(!isC(b)&&a->op==ADD&&isC(a->b)) return mkBin(ADD,mkBin(ADD,a->a,b),a->b);
    if(a->op==SUB&&a->b==b) return a->a;
    if(b->op==SUB&&b->b==a) return b->a;
    break;
  case SUB:
    if(isC(b)) return mkBin(ADD,a,mkConst(-b->val,w));
    if(a==b) return mkConst(0,w);
    if(a->op==ADD&&a->a==b) return a->b;
    if(a->op==ADD&&a->b==b) return a->a;
    if(a->op==ADD&&isC(a->b)) return mkBin(ADD,mkBin(SUB,a->a,b),a->b);
    if(b->op==ADD&&isC(b->b)) return mkBin(ADD,mkBin(SUB,a,b->a),mkConst(-b->b->val,w));
    if(a->op==ADD||b->op==ADD){ std::vector<Expr*> ta,tb; auto fl=[](Expr*e,std::vector<Expr*>&o){ std::vector<Expr*> st{e}; while(!st.empty()&&o.size()<12){ Expr*x=st.back(); st.pop_back(); if(x->op==ADD){ st.push_back(x->a); st.push_back(x->b); } else o.push_back(x); } return st.empty(); };
      if(fl(a,ta)&&fl(b,tb)){ bool ch=false; for(size_t i=0;i<tb.size();){ auto it=std::find(ta.begin(),ta.end(),tb[i]); if(it!=ta.end()){ ta.erase(it); tb.erase(tb.begin()+i); ch=true; } else i++; }
        if(ch){ Expr*x=mkConst(0,w),*y=mkConst(0,w); for(Expr*e:ta) x=mkBin(ADD,x,e); for(Expr*e:tb) y=mkBin(ADD,y,e); return mkBin(SUB,x,y); } } }
    break;
  case MUL:
    if(isC(b,0)) return b; if(isC(b,1)) return a;
    if(isC(b)&&a->op==ADD&&isC(a->b)) return mkBin(ADD,mkBin(MUL,a->a,b),mkConst(a->b->val*b->val,w));
    if(isC(b)&&a->op==MUL&&isC(a->b)) return mkBin(MUL,a->a,mkConst(a->b->val*b->val,w));
    if(isC(b)&&(b->val&(b->val-1))==0) return mkBin(SHL,a,mkConst(__builtin_ctzll(b->val),w));
    break;
  case UDIV: if(isC(b,1)) return a; if(isC(b)&&b->val&&(b->val&(b->val-1))==0) return mkBin(LSHR,a,mkConst(__builtin_ctzll(b->val),w));
    { Expr*n=narrowDiv(UDIV,a,b); if(n) return n; } break;
  case SDIV: if(isC(b,1)) return a; if(isC(b)&&(b->kz>>(w-1))&&(a->kz>>(w-1))&1) return mkBin(UDIV,a,b);
    if(isC(b)&&b->val&&(b->val&(b->val-1))==0&&!(b->val>>(w-1))){ unsigned k=__builtin_ctzll(b->val); Expr*bias=mkBin(LSHR,mkBin(ASHR,a,mkConst(w-1,w)),mkConst(w-k,w)); return mkBin(ASHR,mkBin(ADD,a,bias),mkConst(k,w)); } break;
  case UREM: if(isC(b,1)) return mkConst(0,w); if(isC(b)&&b->val&&(b->val&(b->val-1))==0) return mkBin(AND,a,mkConst(b->val-1,w)); { Expr*n=narrowDiv(UREM,a,b); if(n) return n; } break;
  case SREM: if(isC(b,1)) return mkConst(0,w); if(isC(b)&&(b->kz>>(w-1))&&(a->kz>>(w-1))&1) return mkBin(UREM,a,b);
    if(isC(b)&&b->val&&(b->val&(b->val-1))==0&&!(b->val>>(w-1))){ unsigned k=__builtin_ctzll(b->val); if((a->kz&(b->val-1))==b->val-1) return mkConst(0,w); Expr*bias=mkBin(LSHR,mkBin(ASHR,a,mkConst(w-1,w)),mkConst(w-k,w)); return mkBin(SUB,mkBin(AND,mkBin(ADD,a,bias),mkConst(b->val-1,w)),bias); } break;
  case AND:
    if(a==b) return a; if(isC(b,0)) return b; if(isC(b,m)) return a;
    if(isC(b)){ if(((~a->kz)&m&~b->val)==0) return a;
      if(a->op==AND&&isC(a->b)) return mkBin(AND,a->a,mkConst(a->b->val&b->val,w));
      if(a->op==ZEXT) return mkZext(mkBin(AND,a->a,mkConst(b->val,a->a->w)),w);
      // low mask -> zext(extract)
      if((b->val&(b->val+1))==0){ unsigned n=64-__builtin_clzll(b->val); if(n<w) return mkZext(mkExtract(a,0,n),w); } }
    if(w==1){ if(a->op==NOT&&a->a==b) return mkConst(0,1); if(b->op==NOT&&b->a==a) return mkConst(0,1); }
    break;
  case OR: if(a==b) return a; if(isC(b,0)) return a; if(isC(b,m)) return b;
    if(w==1){ if(a->op==NOT&&a->a==b) return mkConst(1,1); if(b->op==NOT&&b->a==a) return mkConst(1,1); }
    break;
  case XOR: if(a==b) return mkConst(0,w); if(isC(b,0)) return a; if(isC(b,m)) return mkNot(a); if(a->op==XOR&&isC(a->b)&&isC(b)) return mkBin(XOR,a->a,mkConst(a->b->val^b->val,w)); break;
  case SHL: if(isC(b,0)) return a; if(isC(b)&&b->val>=w) return mkConst(0,w);
    if(isC(b)&&a->op==SHL&&isC(a->b)) return (a->b->val+b->val>=w)?mkConst(0,w):mkBin(SHL,a->a,mkConst(a->b->val+b->val,w));
    if(isC(b)&&a->op==LSHR&&isC(a->b)&&a->b->val==b->val) return mkBin(AND,a->a,mkConst(~mask(b->val),w));
    break;
  case LSHR: if(isC(b,0)) return a; if(isC(b)&&b->val>=w) return mkConst(0,w);
    if(isC(b)) return mkZext(mkExtract(a,b->val,w-b->val),w);
    break;
  case ASHR: if(isC(b,0)) return a;
    if(isC(b)&&b->val<w) return mkSext(mkExtract(a,b->val,w-b->val),w);
    break;
  default: break;
  }
  return mk(op,w,0,a,b);
}
Expr* mkNot(Expr*a){
  if(isC(a)) return mkConst(~a->val,a->w);
  if(a->op==NOT) return a->a;
  if(a->op==ITE&&(isC(a->b)||isC(a->c))) return mkIte(a->a,mkNot(a->b),mkNot(a->c));
  if(a->w==1){ if(a->op==ULT) return mkCmp(ULE,a->b,a->a); if(a->op==ULE) return mkCmp(ULT,a->b,a->a);
    if(a->op==SLT) return mkCmp(SLE,a->b,a->a); if(a->op==SLE) return mkCmp(SLT,a->b,a->a); }
  return mk(NOT,a->w,0,a);
}
Expr* mkCmp(Op op,Expr*a,Expr*b){
  u8 w=a->w; u64 m=mask(w);
  if(isC(a)&&isC(b)) return mkConst(evalOp(op,1,w,a->val,b->val,0,0),1);
  if(op==EQ){
    if(a==b) return mkConst(1,1);
    if((a->kz&b->ko)||(a->ko&b->kz)||a->lo>b->hi||b->lo>a->hi) return mkConst(0,1);
    if(isC(a)) std::swap(a,b); else if(!isC(b)&&a->id>b->id) std::swap(a,b);
    if(w==1){ if(isC(b,1)) return a; if(isC(b,0)) return mkNot(a); }
    if(isC(b)){
      switch(a->op){
      case ZEXT: return (b->val>>a->a->w)?mkConst(0,1):mkCmp(EQ,a->a,mkConst(b->val,a->a->w));
      case SEXT: { u64 lo=b->val&mask(a->a->w); if(((u64)sext64(lo,a->a->w)&m)!=b->val) return mkConst(0,1); return mkCmp(EQ,a->a,mkConst(lo,a->a->w)); }
      case ADD: if(isC(a->b)) return mkCmp(EQ,a->a,mkConst(b->val-a->b->val,w)); break;
      case SUB: if(b->val==0) return mkCmp(EQ,a->a,a->b); if(isC(a->a)) return mkCmp(EQ,a->b,mkConst(a->a->val-b->val,w)); break;
      case XOR: if(isC(a->b)) return mkCmp(EQ,a->a,mkConst(b->val^a->b->val,w)); if(b->val==0) return mkCmp(EQ,a->a,a->b); break;
      case NOT: return mkCmp(EQ,a->a,mkConst(~b->val,w));
      case ITE: { Expr*t=mkCmp(EQ,a->b,b),*f=mkCmp(EQ,a->c,b); if(isC(t)||isC(f)) return mkIte(a->a,t,f); break; }
      case SHL: if(isC(a->b)){ unsigned s=a->b->val; if(b->val&mask(s)&(s?~0ull:0)) return mkConst(0,1); return mkCmp(EQ,mkExtract(a->a,0,w-s),mkConst(b->val>>s,w-s)); } break;
      case CONCAT: return mkBin(AND,mkCmp(EQ,a->a,mkConst(b->val>>a->b->w,a->a->w)),mkCmp(EQ,a->b,mkConst(b->val,a->b->w)));
      case OR: if(isC(a->b)) { // bits of a outside const
          if((a->b->val&~b->val)) return mkConst(0,1);
          if((a->a->kz&a->b->val)==a->b->val) return mkCmp(EQ,a->a,mkConst(b->val&~a->b->val,w)); } break;
      default: break; }
    } else {
      if(a->op==ZEXT&&b->op==ZEXT&&a->a->w==b->a->w) return mkCmp(EQ,a->a,b->a);
      if(a->op==SEXT&&b->op==SEXT&&a->a->w==b->a->w) return mkCmp(EQ,a->a,b->a);
      if(a->op==ADD&&b->op==ADD&&isC(a->b)&&a->b==b->b) return mkCmp(EQ,a->a,b->a);
    }
    return mk(EQ,1,0,a,b);
  }
  if(a==b) return mkConst(op==ULE||op==SLE,1);
  // same known sign -> unsigned
  if(op==SLT||op==SLE){ u64 sb=1ull<<(w-1);
    if((a->kz&sb)&&(b->kz&sb)) return mkCmp(op==SLT?ULT:ULE,a,b);
    if((a->ko&sb)&&(b->kz&sb)) return mkConst(1,1);
    if((a->kz&sb)&&(b->ko&sb)) return mkConst(0,1);
    if((a->ko&sb)&&(b->ko&sb)) return mkCmp(op==SLT?ULT:ULE,a,b);
    if(a->op==SEXT&&b->op==SEXT&&a->a->w==b->a->w) return mkCmp(op,a->a,b->a);
    if(a->op==SEXT&&isC(b)){ i64 c=sext64(b->val,w); unsigned n=a->a->w; i64 lo=-(1ll<<(n-1)),hi=(1ll<<(n-1))-1; if(c<lo) return mkConst(0,1); if(c>hi) return mkConst(1,1); return mkCmp(op,a->a,mkConst(c,n)); }
    if(b->op==SEXT&&isC(a)){ i64 c=sext64(a->val,w); unsigned n=b->a->w; i64 lo=-(1ll<<(n-1)),hi=(1ll<<(n-1))-1; if(c<lo) return mkConst(1,1); if(c>hi) return mkConst(0,1); return mkCmp(op,mkConst(c,n),b->a); }
  }
  if(op==ULT||op==ULE){
    u64 amin=a->lo,amax=a->hi,bmin=b->lo,bmax=b->hi;
    if(op==ULT){ if(amax<bmin) return mkConst(1,1); if(amin>=bmax) return mkConst(0,1); }
    else { if(amax<=bmin) return mkConst(1,1); if(amin>bmax) return mkConst(0,1); }
    if(a->op==ZEXT&&b->op==ZEXT&&a->a->w==b->a->w) return mkCmp(op,a->a,b->a);
    if(a->op==ZEXT&&isC(b)&&!(b->val>>a->a->w)) return mkCmp(op,a->a,mkConst(b->val,a->a->w));
    if(b->op==ZEXT&&isC(a)&&!(a->val>>b->a->w)) return mkCmp(op,mkConst(a->val,b->a->w),b->a);
    if(op==ULT&&isC(b,1)) return mkCmp(EQ,a,mkConst(0,w));
    if(op==ULE&&isC(b,0)) return mkCmp(EQ,a,mkConst(0,w));
    if(op==ULE&&isC(a)){ return mkCmp(ULT,mkConst(a->val-1,w),b); } // a>0 here (amax<=bmin handled 0)
  }
  if(isC(b)&&a->op==ITE&&isC(a->b)&&isC(a->c)) return mkIte(a->a,mkCmp(op,a->b,b),mkCmp(op,a->c,b));
  if(isC(a)&&b->op==ITE&&isC(b->b)&&isC(b->c)) return mkIte(b->a,mkCmp(op,a,b->b),mkCmp(op,a,b->c));
  return mk(op,1,0,a,b);
}
Expr* mkIte(Expr*c,Expr*a,Expr*b){
  if(isC(c)) return c->val?a:b;
  if(a==b) return a;
  if(c->op==NOT) return mkIte(c->a,b,a);
  if(a->w==1){ if(isC(a,1)&&isC(b,0)) return c; if(isC(a,0)&&isC(b,1)) return mkNot(c);
    if(isC(a,1)) return mkBin(OR,c,b); if(isC(a,0)) return mkBin(AND,mkNot(c),b);
    if(isC(b,0)) return mkBin(AND,c,a); if(isC(b,1)) return mkBin(OR,mkNot(c),a); }
  if(a->op==ITE&&a->a==c) a=a->b;
  if(b->op==ITE&&b->a==c) b=b->c;
  if(a==b) return a;
  return mk(ITE,a->w,0,c,a,b);
}
Expr* mkExtract(Expr*a,unsigned lo,unsigned w){
  if(lo==0&&w==a->w) return a;
  if(isC(a)) return mkConst(a->val>>lo,w);
  switch(a->op){
  case EXTRACT: return mkExtract(a->a,a->val+lo,w);
  case CONCAT: if(lo>=a->b->w) return mkExtract(a->a,lo-a->b->w,w); if(lo+w<=a->b->w) return mkExtract(a->b,lo,w); 
     return mkConcat(mkExtract(a->a,0,lo+w-a->b->w),mkExtract(a->b,lo,a->b->w-lo));
  case ZEXT: if(lo>=a->a->w) return mkConst(0,w); if(lo+w<=a->a->w) return mkExtract(a->a,lo,w); return mkZext(mkExtract(a->a,lo,a->a->w-lo),w);
  case SEXT: if(lo+w<=a->a->w) return mkExtract(a->a,lo,w); if(lo<a->a->w) return mkSext(mkExtract(a->a,lo,a->a->w-lo),w); return mkSext(mkExtract(a->a,a->a->w-1,1),w);
  case ITE: if((isC(a->b)||isC(a->c))) return mkIte(a->a,mkExtract(a->b,lo,w),mkExtract(a->c,lo,w)); break;
  case AND: case OR: case XOR: return mkBin(a->op,mkExtract(a->a,lo,w),mkExtract(a->b,lo,w));
  case NOT: return mkNot(mkExtract(a->a,lo,w));
  case ADD: case SUB: case MUL: if(lo==0) return mkBin(a->op,mkExtract(a->a,0,w),mkExtract(a->b,0,w)); break;
  case SHL: if(isC(a->b)){ unsigned s=a->b->val; if(lo>=s) return mkExtract(a->a,lo-s,w); if(lo+w<=s) return mkConst(0,w); return mkConcat(mkExtract(a->a,0,lo+w-s),mkConst(0,s-lo)); } break;
  default: break; }
  return mk(EXTRACT,w,lo,a);
}
Expr* mkConcat(Expr*h,Expr*l){
  if(isC(h)&&isC(l)) return mkConst((h->val<<l->w)|l->val,h->w+l->w);
  if(isC(h,0)) return mkZext(l,h->w+l->w);
  if(h->op==EXTRACT&&l->op==EXTRACT&&h->a==l->a&&h->val==l->val+l->w) return mkExtract(h->a,l->val,h->w+l->w);
  if(l->op==EXTRACT&&h->op==EXTRACT&&0) return nullptr;
  // extract(x) ++ concat(extract(x),..)
  if(l->op==CONCAT&&h->op==EXTRACT&&l->a->op==EXTRACT&&h->a==l->a->a&&h->val==l->a->val+l->a->w) return mkConcat(mkExtract(h->a,l->a->val,h->w+l->a->w),l->b);
  if(h->op==SYM||l->op==SYM||1){ // ext(x)[hi] ++ x(low part full)
    if(h->op==EXTRACT&&h->val==0&&0) return nullptr; }
  if(h->op==ZEXT) return mkZext(mkConcat(h->a,l),h->w+l->w);
  // sign-replicated: extracts of sext handled by mkExtract producing SEXT(bit)
  return mk(CONCAT,h->w+l->w,0,h,l);
}
Expr* mkZext(Expr*a,unsigned w){
  if(w==a->w) return a; if(isC(a)) return mkConst(a->val,w);
  if(a->op==ZEXT) return mkZext(a->a,w);
  if(a->op==ITE&&(isC(a->b)&&isC(a->c))) return mkIte(a->a,mkConst(a->b->val,w),mkConst(a->c->val,w));
  if(a->op==ADD&&isC(a->b)&&(u128)a->a->hi+a->b->val<=mask(a->w)) return mkBin(ADD,mkZext(a->a,w),mkConst(a->b->val,w));
  return mk(ZEXT,w,0,a);
}
Expr* mkSext(Expr*a,unsigned w){
  if(w==a->w) return a; if(isC(a)) return mkConst((u64)sext64(a->val,a->w),w);
  if(a->op==SEXT) return mkSext(a->a,w);
  if(a->op==ZEXT) return mkZext(a->a,w);
  if(a->kz>>(a->w-1)&1) return mkZext(a,w);
  if(a->op==ITE&&(isC(a->b)&&isC(a->c))) return mkIte(a->a,mkSext(a->b,w),mkSext(a->c,w));
  return mk(SEXT,w,0,a);
}
Expr* mkF(Op op,u8 w,Expr*a,Expr*b){
  if(isC(a)&&(!b||isC(b))) return mkConst(evalOp(op,w,a->w,a->val,b?b->val:0,0,0),w);
  if(op==FNEG) return mkBin(XOR,a,mkConst(1ull<<(w-1),w));
  if(op==FABS) return mkBin(AND,a,mkConst(~(1ull<<(w-1)),w));
  return mk(op,w,0,a,b);
}
struct EvalCache { std::vector<u32> stamp; std::vector<u64> val; u32 cur=0; };
static EvalCache ec;
static u64 ev(Expr*e,const std::vector<u64>&m){
  if(e->op==CONST) return e->val;
  if(e->op==SYM) return e->val<m.size()?m[e->val]&mask(e->w):0;
  if(ec.stamp[e->id]==ec.cur) return ec.val[e->id];
  u64 r;
  if(e->op==ITE) r=ev(e->a,m)?ev(e->b,m):ev(e->c,m);
  else r=evalOp(e->op,e->w,e->a->w,ev(e->a,m),e->b?ev(e->b,m):0,0,e->val,e->b?e->b->w:0);
  ec.stamp[e->id]=ec.cur; ec.val[e->id]=r; return r;
}
u64 evalExpr(Expr*e,const std::vector<u64>&m){
  if(e->op==CONST) return e->val;
  if(ec.stamp.size()<nExprs){ ec.stamp.resize(nExprs*2+64,0); ec.val.resize(nExprs*2+64); }
  if(++ec.cur==0){ std::fill(ec.stamp.begin(),ec.stamp.end(),0); ec.cur=1; }
  return ev(e,m);
}
const std::vector<u64>& support(Expr*e){
  if(e->sup) return *e->sup;
  auto*s=new std::vector<u64>;
  if(e->op==SYM){ s->resize(e->val/64+1,0); (*s)[e->val/64]|=1ull<<(e->val%64); }
  else { Expr*k[3]={e->a,e->b,e->c}; for(Expr*x:k) if(x&&x->op!=CONST){ auto&t=support(x); if(s->size()<t.size()) s->resize(t.size(),0); for(size_t i=0;i<t.size();i++)(*s)[i]|=t[i]; } }
  // share with child if equal
  Expr*k[3]={e->a,e->b,e->c}; for(Expr*x:k) if(x&&x->sup&&*x->sup==*s){ delete s; e->sup=x->sup; return *e->sup; }
  e->sup=s; return *s;
}
static Expr* sf(Expr*e,const std::vector<u8>&fx,const std::vector<u64>&m,std::unordered_map<Expr*,Expr*>&memo){
  if(e->op==CONST) return e;
  if(e->op==SYM) return (e->val<fx.size()&&fx[e->val])?mkConst(m[e->val],e->w):e;
  auto it=memo.find(e); if(it!=memo.end()) return it->second;
  bool any=false; auto&s=support(e); for(size_t i=0;i<s.size()&&!any;i++){ u64 b=s[i]; while(b){ unsigned k=__builtin_ctzll(b); b&=b-1; size_t o=i*64+k; if(o<fx.size()&&fx[o]){any=true;break;} } }
  Expr*r=e;
  if(any){
    Expr*a=e->a?sf(e->a,fx,m,memo):nullptr;
    if(e->op==ITE){ if(a->op==CONST) r=sf(a->val?e->b:e->c,fx,m,memo); else r=mkIte(a,sf(e->b,fx,m,memo),sf(e->c,fx,m,memo)); }
    else { Expr*b=e->b?sf(e->b,fx,m,memo):nullptr;
      switch(e->op){ case NOT: r=mkNot(a);break; case EXTRACT: r=mkExtract(a,e->val,e->w);break; case CONCAT: r=mkConcat(a,b);break;
        case ZEXT: r=mkZext(a,e->w);break; case SEXT: r=mkSext(a,e->w);break;
        case EQ: case ULT: case ULE: case SLT: case SLE: r=mkCmp(e->op,a,b);break;
        default: if(e->op>=FADD) r=mkF(e->op,e->w,a,b); else r=mkBin(e->op,a,b); } }
  }
  memo[e]=r; return r;
}
Expr* substFixed(Expr*e,const std::vector<u8>&fx,const std::vector<u64>&m){ std::unordered_map<Expr*,Expr*> memo; return sf(e,fx,m,memo); }
