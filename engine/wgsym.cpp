#include <sys/time.h>
#include <signal.h>
#include <sys/stat.h>
// wgsym: symbolic executor for LLVM IR, built for checking WhiteDB.
//   wgsym prog.bc -o outdir [-t seconds] [-j procs] [-i maxinstr-per-path] [-q solver-ms] [-a name=value ...]
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <unistd.h>
#include <signal.h>
#include <chrono>
#include <map>
#include <set>
#include <memory>
#include <list>
#include <atomic>
#include <fstream>
#include <sstream>
using namespace llvm;
using std::string; using std::vector; using std::shared_ptr;

static void startTicks();
static double now(){ return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static bool dieThrows=false; struct DecodeErr{string m;};
[[noreturn]] static void die(const string&s){ if(dieThrows) throw DecodeErr{s}; fprintf(stderr,"wgsym: %s\n",s.c_str()); _exit(3); }

// ---------------------------------------------------------------- values
struct Val { u64 v; Expr* e; };
static inline Val CV(u64 v){ return Val{v,nullptr}; }
static inline Val EV(Expr*e){ if(e->op==CONST) return Val{e->val,nullptr}; return Val{0,e}; }
static inline Expr* X(const Val&v,unsigned w){ return v.e?v.e:mkConst(v.v,w); }

// ---------------------------------------------------------------- memory
enum { PS=1024 };
struct Page { int rc; Expr** sym; u64 h; bool hv; u8 d[PS]; };
static Page* newPage(){ Page*p=(Page*)malloc(sizeof(Page)); p->rc=1; p->sym=nullptr; p->hv=false; return p; }
static void unrefPage(Page*p){ if(--p->rc==0){ free(p->sym); ::free(p);} }
static Page* clonePage(Page*p){ Page*n=newPage(); memcpy(n->d,p->d,PS); if(p->sym){ n->sym=(Expr**)malloc(PS*sizeof(Expr*)); memcpy(n->sym,p->sym,PS*sizeof(Expr*)); } return n; }
enum Kind:u8 { GLOBAL, STACK, HEAP };
struct Obj { int rc; u64 base,size; Kind kind; bool ro; const char*name; vector<Page*> pg; u64 ha=0,hb=0; bool hv=false,hs=false; };
static void unrefObj(Obj*o){ if(--o->rc==0){ for(Page*p:o->pg) unrefPage(p); delete o; } }
static Obj* cloneObj(Obj*o){ Obj*n=new Obj(*o); n->rc=1; for(Page*p:n->pg) p->rc++; return n; }
static Page *fillPageHeap,*fillPageZero;

// ---------------------------------------------------------------- decoded program
enum IOp:u8 { I_ALLOCA,I_LOAD,I_STORE,I_GEP,I_BIN,I_ICMP,I_FBIN,I_FCMP,I_CAST,I_SELECT,I_BR,I_CBR,I_SWITCH,I_CALL,I_RET,I_PHI,I_MOVE,I_UNREACH,I_RMW,I_CMPXCHG,I_NOP,I_INTR };
struct Edge { int target; vector<std::pair<int,int>> moves; };
struct FuncD;
struct Inst { IOp op; u8 sub,w,w2; int dst,a,b,c; u64 imm; int n; vector<std::pair<int,i64>> idx; vector<int> args; vector<u8> aw; vector<Edge> edges; vector<u64> cases; FuncD*callee=nullptr; const Instruction*I=nullptr; vector<std::pair<unsigned,unsigned>> lay; int bb=-1; vector<u64> byval; };
struct FuncD { string name; const Function*F; bool defined=false; bool decoded=false; vector<Inst> code; int nregs=0; vector<int> argSlots; int builtin=-1; u64 addr; int idx; vector<u8> argw; bool entered=false; int bb0=0,nbb=0; bool vararg=false; string err; };

struct Frame { FuncD*f; int pc; int retdst; vector<Val> r; vector<u64> allocas; vector<Val> va; };
struct Thread { vector<Frame> st; bool live=true; };
struct SymRec { string name; u8 w; };
struct State {
  vector<Thread> th; int cur=0; vector<Obj*> objs; u64 brk; u64 nsyms=0; shared_ptr<vector<SymRec>> syms;
  vector<Expr*> cs; vector<u64> model; vector<u8> fixed; u64 steps=0; int forks=0; bool silent=false;
  State(){}
  State(const State&o)=default;
  ~State(){ for(Obj*x:objs) unrefObj(x); }
};
static State* forkState(State*s){ State*n=new State(*s); for(Obj*o:n->objs) o->rc++; n->syms=std::make_shared<vector<SymRec>>(*s->syms); return n; }

// ---------------------------------------------------------------- shared between processes
enum { MAXBB=1<<17, MAXF=1<<14, MAXW=64, MAXV=64 };
struct Shared {
  std::atomic<int> active, maxw, stop, nviol, nproc; std::atomic<u64> paths, forks, instrs, queries, memo, unknowns, satc, unsatc, solverUs, asserts, assertsSym, memchecksSym, dropped, boundHits, unknownDrop, assertUnknown, crashed, assumeEnd, dedup, reachn[256], completed;
  std::atomic<u64> violHash[MAXV]; std::atomic<u8> bb[MAXBB]; std::atomic<u8> fn[MAXF];
  pid_t pids[MAXW]; char reachName[256][64]; std::atomic<int> nreach; std::atomic<int> lock;
  std::atomic<u64> sampleN; std::atomic<double> stopAt;
};
static Shared*S;
static string outdir; static double tlimit=60; static u64 maxInstr=200000000; static int maxViol=6; static unsigned maxEnum=4096;
static std::map<string,i64> params;
static Solver solver;
static std::unique_ptr<Module> M; static LLVMContext LC; static const DataLayout*DL;
static std::map<const Function*,FuncD*> funcs; static vector<FuncD*> flist; static std::map<u64,FuncD*> faddr;
static std::map<const GlobalVariable*,u64> gaddr; static vector<Obj*> globalObjs; static u64 brk0=0x100000;
static vector<Val> consts; static std::map<u64,int> constIdx;
static std::list<State*> work; static State*cur; static double deadline; static int nbbTotal=0;
static bool dedupOn=false; static std::set<std::pair<u64,u64>> seenStates;
static bool stopOnViol=true;

struct PathEnd { int why; };            // 0 normal, 1 error, 2 bound, 3 infeasible, 4 duplicate
static FuncD* getFunc(const Function*F);

static int cidx(u64 v){ auto it=constIdx.find(v); if(it!=constIdx.end()) return it->second; consts.push_back(CV(v)); int i=-(int)consts.size(); constIdx[v]=i; return i; }
static unsigned tw(Type*t){ if(t->isIntegerTy()) return t->getIntegerBitWidth(); if(t->isPointerTy()) return 64; if(t->isDoubleTy()) return 64; if(t->isFloatTy()) return 32; return 0; }
static unsigned nslots(Type*t){ if(t->isVoidTy()) return 0; if(auto*st=dyn_cast<StructType>(t)){ unsigned n=0; for(auto*e:st->elements()) n+=nslots(e); return n; } if(auto*at=dyn_cast<ArrayType>(t)) return at->getNumElements()*nslots(at->getElementType()); return 1; }
static void layout(Type*t,u64 off,vector<std::pair<unsigned,unsigned>>&out){ // (byte offset,width)
  if(auto*st=dyn_cast<StructType>(t)){ auto*sl=DL->getStructLayout(st); for(unsigned i=0;i<st->getNumElements();i++) layout(st->getElementType(i),off+sl->getElementOffset(i),out); return; }
  if(auto*at=dyn_cast<ArrayType>(t)){ u64 s=DL->getTypeAllocSize(at->getElementType()); for(unsigned i=0;i<at->getNumElements();i++) layout(at->getElementType(),off+i*s,out); return; }
  unsigned w=tw(t); if(!w||w>64){ string s; raw_string_ostream os(s); t->print(os); die("unsupported type "+os.str()); } out.push_back({(unsigned)off,w}); }

static u64 constVal(const Constant*c);
static u64 gepConst(const GEPOperator*g){ APInt off(64,0); if(!g->accumulateConstantOffset(*DL,off)) die("non-constant gep constant"); return constVal(cast<Constant>(g->getPointerOperand()))+off.getSExtValue(); }
static u64 constVal(const Constant*c){
  if(auto*i=dyn_cast<ConstantInt>(c)) return i->getValue().getLimitedValue()&mask(i->getBitWidth());
  if(isa<ConstantPointerNull>(c)) return 0;
  if(auto*f=dyn_cast<ConstantFP>(c)) return f->getValueAPF().bitcastToAPInt().getZExtValue();
  if(isa<UndefValue>(c)) return 0x5a5a5a5a5a5a5a5aull&mask(tw(c->getType())?tw(c->getType()):64);
  if(isa<ConstantAggregateZero>(c)) return 0;
  if(auto*g=dyn_cast<GlobalVariable>(c)) return gaddr[g];
  if(auto*f=dyn_cast<Function>(c)){ if(f->isDeclaration()&&f->hasExternalWeakLinkage()) return 0; return getFunc(f)->addr; }
  if(auto*a=dyn_cast<GlobalAlias>(c)) return constVal(a->getAliasee());
  if(auto*ce=dyn_cast<ConstantExpr>(c)){
    if(auto*g=dyn_cast<GEPOperator>(ce)) return gepConst(g);
    unsigned w=tw(ce->getType());
    switch(ce->getOpcode()){
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: return constVal(ce->getOperand(0))&mask(w);
    case Instruction::Trunc: return constVal(ce->getOperand(0))&mask(w);
    case Instruction::ZExt: return constVal(ce->getOperand(0));
    case Instruction::Sub: return (constVal(ce->getOperand(0))-constVal(ce->getOperand(1)))&mask(w);
    case Instruction::Add: return (constVal(ce->getOperand(0))+constVal(ce->getOperand(1)))&mask(w);
    case Instruction::ICmp: { u64 a=constVal(ce->getOperand(0)),b=constVal(ce->getOperand(1)); if(ce->getPredicate()==CmpInst::ICMP_EQ) return a==b; if(ce->getPredicate()==CmpInst::ICMP_NE) return a!=b; break; }
    default: break; }
  }
  string s; raw_string_ostream os(s); c->print(os); die("unsupported constant "+os.str());
}
static FuncD* getFunc(const Function*F){ auto it=funcs.find(F); if(it!=funcs.end()) return it->second; FuncD*d=new FuncD; d->F=F; d->name=F->getName().str(); d->idx=flist.size(); d->addr=0x10000+16*d->idx; d->defined=!F->isDeclaration(); flist.push_back(d); funcs[F]=d; faddr[d->addr]=d; return d; }

// object creation
static Obj* newObj(u64 base,u64 size,Kind k,const char*nm,Page*fill){ Obj*o=new Obj; o->rc=1;o->base=base;o->size=size;o->kind=k;o->ro=false;o->name=nm; o->pg.resize((size+PS-1)/PS); for(auto&p:o->pg){ p=fill; fill->rc++; } return o; }
static u64 bump(u64&brk,u64 size){ u64 b=(brk+15)&~15ull; if(size>=4096) b=(b+4095)&~4095ull; brk=b+size+64; return b; }
static u64 addObj(State*s,u64 size,Kind k,const char*nm,bool zero){ u64 b=bump(s->brk,size?size:1); Obj*o=newObj(b,size,k,nm,zero?fillPageZero:fillPageHeap); s->objs.push_back(o); return b; }
static int findIdx(State*s,u64 a){ auto&v=s->objs; int lo=0,hi=v.size(); while(lo<hi){ int m=(lo+hi)/2; if(v[m]->base<=a) lo=m+1; else hi=m; } return lo-1; }
static Obj* findObj(State*s,u64 a,u64 n){ int i=findIdx(s,a); if(i<0) return nullptr; Obj*o=s->objs[i]; if(a-o->base+n>o->size||a-o->base>o->size) return nullptr; return o; }
static Obj* wr(State*s,int i){ Obj*&o=s->objs[i]; if(o->rc>1){ Obj*n=cloneObj(o); o->rc--; o=n; } return o; }
static inline Page* wpage(Obj*o,size_t k){ o->hv=false; Page*&p=o->pg[k]; if(p->rc>1){ Page*n=clonePage(p); p->rc--; p=n; } p->hv=false; return p; }
static inline Expr* rdByteSym(Obj*o,u64 off){ Page*p=o->pg[off/PS]; return p->sym?p->sym[off%PS]:nullptr; }
static inline u8 rdByte(Obj*o,u64 off){ return o->pg[off/PS]->d[off%PS]; }
static void wrByte(Obj*o,u64 off,u8 v){ Page*p=wpage(o,off/PS); p->d[off%PS]=v; if(p->sym) p->sym[off%PS]=nullptr; }
static void wrByteSym(Obj*o,u64 off,Expr*e){ if(e->op==CONST){ wrByte(o,off,e->val); return; } Page*p=wpage(o,off/PS); if(!p->sym) p->sym=(Expr**)calloc(PS,sizeof(Expr*)); p->sym[off%PS]=e; }
static Val rdMem(Obj*o,u64 off,unsigned w){
  unsigned n=(w+7)/8; Page*p=o->pg[off/PS]; u64 po=off%PS;
  if(po+n<=PS){ bool anys=false; if(p->sym) for(unsigned i=0;i<n;i++) if(p->sym[po+i]){anys=true;break;}
    if(!anys){ u64 v=0; memcpy(&v,p->d+po,n); return CV(v&mask(w)); } }
  else { bool anys=false; for(unsigned i=0;i<n;i++) if(rdByteSym(o,off+i)) anys=true; if(!anys){ u64 v=0; for(unsigned i=0;i<n;i++) v|=(u64)rdByte(o,off+i)<<(8*i); return CV(v&mask(w)); } }
  Expr*r=nullptr; for(unsigned i=n;i-->0;){ Expr*b=rdByteSym(o,off+i); if(!b) b=mkConst(rdByte(o,off+i),8); r=r?mkConcat(r,b):b; }
  if(r->w>w) r=mkExtract(r,0,w); return EV(r);
}
static void wrMem(Obj*o,u64 off,unsigned w,Val v){
  unsigned n=(w+7)/8;
  if(!v.e){ u64 po=off%PS; if(po+n<=PS){ Page*p=wpage(o,off/PS); memcpy(p->d+po,&v.v,n); if(p->sym) for(unsigned i=0;i<n;i++) p->sym[po+i]=nullptr; } else for(unsigned i=0;i<n;i++) wrByte(o,off+i,v.v>>(8*i)); return; }
  Expr*e=v.e; if(e->w<n*8) e=mkZext(e,n*8); for(unsigned i=0;i<n;i++) wrByteSym(o,off+i,mkExtract(e,8*i,8));
}

// ---------------------------------------------------------------- reporting
static string where(State*s){ string r; auto&st=s->th[s->cur].st; int k=0; for(int i=(int)st.size()-1;i>=0&&k<8;i--,k++){ auto&f=st[i]; const Inst&in=f.f->code[f.pc]; unsigned line=0; if(in.I&&in.I->getDebugLoc()) line=in.I->getDebugLoc().getLine(); r+=(k?" < ":"")+f.f->name+":"+std::to_string(line); } return r; }
static void report(State*s,const string&kind,const string&msg,const vector<u64>&model){
  string loc=where(s); size_t h=std::hash<string>()(kind+(kind.compare(0,6,"memory")?msg:string())+loc.substr(0,loc.find(" < "))); if(!h)h=1;
  for(int i=0;i<MAXV;i++){ u64 e=S->violHash[i]; if(e==h) return; if(e==0){ u64 z=0; if(S->violHash[i].compare_exchange_strong(z,h)) { 
      int n=S->nviol++; if(n>=maxViol){ S->stop=1; return; }
      std::ofstream f(outdir+"/viol"+std::to_string(n)+".in"); f<<"# kind "<<kind<<"\n# msg "<<msg<<"\n# at "<<loc<<"\n";
      for(size_t k=0;k<s->nsyms;k++){ u64 v=k<model.size()?model[k]:0; char b[32]; snprintf(b,32,"%llx",(unsigned long long)(v&mask((*s->syms)[k].w))); f<<(*s->syms)[k].name<<" "<<b<<"\n"; }
      f.close(); if(stopOnViol){ double d=now()+8; double o=S->stopAt; if(o==0) S->stopAt=d; }
      return; } else { i--; } } }
}
static void sample(State*s,const char*why){ u64 n=S->sampleN++; if(n<4||(n<65536&&(n&(n-1))==0)){ std::ofstream f(outdir+"/sample"+std::to_string(n)+".in"); for(size_t k=0;k<s->nsyms;k++){ u64 v=k<s->model.size()?s->model[k]:0; char b[32]; snprintf(b,32,"%llx",(unsigned long long)(v&mask((*s->syms)[k].w))); f<<(*s->syms)[k].name<<" "<<b<<"\n"; } } }

// ---------------------------------------------------------------- constraints and decisions
static void noteFixed(State*s,Expr*c){
  if(c->op==AND&&c->w==1){ noteFixed(s,c->a); noteFixed(s,c->b); return; }
  Expr*sy=nullptr; u64 v=0;
  if(c->op==EQ&&c->a->op==SYM&&c->b->op==CONST){ sy=c->a; v=c->b->val; }
  else if(c->op==SYM){ sy=c; v=1; } else if(c->op==NOT&&c->a->op==SYM&&c->w==1){ sy=c->a; v=0; }
  if(sy){ if(s->fixed.size()<=sy->val) s->fixed.resize(sy->val+1,0); s->fixed[sy->val]=1; if(s->model.size()<=sy->val) s->model.resize(sy->val+1,0); s->model[sy->val]=v; }
}
static void addC(State*s,Expr*c){ if(c->op==CONST) return; s->cs.push_back(c); noteFixed(s,c); }
static Expr* simp(State*s,Expr*e){ if(e->op==CONST||s->fixed.empty()) return e; auto&sp=::support(e); bool any=false; for(size_t o=0;o<s->fixed.size()&&!any;o++) if(s->fixed[o]&&o/64<sp.size()&&(sp[o/64]>>(o%64)&1)) any=true; return any?substFixed(e,s->fixed,s->model):e; }
static bool evalB(State*s,Expr*c){ return evalExpr(c,s->model)!=0; }
// check satisfiability of path /\ c; on SAT fills m
static Res sat(State*s,Expr*c,vector<u64>&m){ if(c->op==CONST) { if(c->val){ m=s->model; return SAT;} return UNSAT; } if(evalB(s,c)){ m=s->model; return SAT; } m=s->model; return solver.check(s->cs,c,m); }
static void pushWork(State*n){ S->forks++; work.push_back(n); }
// branch: returns chosen side for cur; may push the other side (whose pc is set by caller through `other`)
struct Dec { bool side; State*other; };
static Dec decide(State*s,Expr*c){
  c=simp(s,c); if(c->op==CONST) return {c->val!=0,nullptr};
  bool mv=evalB(s,c); Expr*oc=mv?mkNot(c):c; vector<u64> m=s->model; Res r=solver.check(s->cs,oc,m);
  if(r==SAT){ State*n=forkState(s); n->model=m; addC(n,oc); addC(s,mv?c:mkNot(c)); return {mv,n}; }
  if(r==UNKNOWN) { S->unknownDrop++; addC(s,mv?c:mkNot(c)); }
  return {mv,nullptr};
}
// returns a concrete value of e on this path; other values are explored by forked states re-executing the current instruction
static u64 concretize(State*s,Val v,unsigned w,Val*reg=nullptr){
  if(!v.e) return v.v; Expr*e=simp(s,v.e); if(e->op==CONST){ if(reg) *reg=CV(e->val); return e->val; }
  u64 k=evalExpr(e,s->model); Expr*eq=mkCmp(EQ,e,mkConst(k,w)); vector<u64> m=s->model; Res r=solver.check(s->cs,mkNot(eq),m);
  if(r==SAT){ State*n=forkState(s); n->model=m; addC(n,mkNot(eq)); pushWork(n); }
  else if(r==UNKNOWN) S->unknownDrop++;
  addC(s,eq); if(reg) *reg=CV(k); return k;
}
static void memErr(State*s,const char*what,u64 addr,u64 n,const vector<u64>&m){ char b[160]; int i=findIdx(s,addr); const char*nm="?"; long long off=0; u64 sz=0; if(i>=0){ nm=s->objs[i]->name?s->objs[i]->name:"object"; off=addr-s->objs[i]->base; sz=s->objs[i]->size; } snprintf(b,160,"%s of %llu bytes at %#llx (offset %lld of %s[%llu])",what,(unsigned long long)n,(unsigned long long)addr,off,nm,(unsigned long long)sz); 
  // key without the address so duplicates collapse
  report(s,string("memory-")+what,b,m); throw PathEnd{1}; }

struct Addr { Obj*o; int oi; u64 off; Expr*soff; };
// resolve pointer for n-byte access; single object, offset concrete or symbolic (in bounds for all values)
static Addr resolve(State*s,Val p,u64 n,bool write,Val*reg){
  if(p.e){ Expr*e=simp(s,p.e); if(e->op==CONST) p=CV(e->val); else p.e=e; }
  if(!p.e){ int i=findIdx(s,p.v); if(i<0) memErr(s,write?"write":"read",p.v,n,s->model); Obj*o=s->objs[i]; u64 off=p.v-o->base; if(off+n>o->size||off>o->size) memErr(s,write?"write":"read",p.v,n,s->model); if(write&&o->ro) memErr(s,"write-to-constant",p.v,n,s->model); return {o,i,off,nullptr}; }
  S->memchecksSym++;
  u64 a0=evalExpr(p.e,s->model); int i=findIdx(s,a0); if(i<0) memErr(s,write?"write":"read",a0,n,s->model); Obj*o=s->objs[i];
  if(a0-o->base+n>o->size) memErr(s,write?"write":"read",a0,n,s->model);
  Expr*off=mkBin(SUB,p.e,mkConst(o->base,64)); Expr*inb=mkCmp(ULE,off,mkConst(o->size-n,64));
  vector<u64> m=s->model; Res r=solver.check(s->cs,mkNot(inb),m);
  if(r==SAT){ State*q=forkState(s); q->model=m; addC(q,mkNot(inb)); pushWork(q); } else if(r==UNKNOWN) S->unknownDrop++;
  addC(s,inb);
  // candidate offsets
  u64 nz=~off->kz; u64 cnt=0; bool small=o->size<=2048;
  u64 lim=write?64:1200;
  if(small){ for(u64 k=0;k+n<=o->size;k++) if(!(k&off->kz)&&(k&off->ko)==off->ko) cnt++; }
  (void)nz;
  if(small&&cnt<=lim) return {o,i,0,off};
  u64 c=concretize(s,p,64,reg); return {o,i,c-o->base,nullptr};
}
static Expr* iteTree(Obj*o,Expr*off,const vector<u64>&c,size_t lo,size_t hi,unsigned w){
  if(hi-lo==1) return X(rdMem(o,c[lo],w),w);
  size_t mid=(lo+hi)/2; Expr*l=iteTree(o,off,c,lo,mid,w),*r=iteTree(o,off,c,mid,hi,w); if(l==r) return l;
  return mkIte(mkCmp(ULT,off,mkConst(c[mid],64)),l,r);
}
static Val loadSym(State*s,const Addr&a,unsigned w){ vector<u64> c; u64 n=(w+7)/8; for(u64 k=0;k+n<=a.o->size;k++) if(!(k&a.soff->kz)&&(k&a.soff->ko)==a.soff->ko) c.push_back(k); return EV(iteTree(a.o,a.soff,c,0,c.size(),w)); }
static Val loadV(State*s,Val p,unsigned w,Val*reg){ Addr a=resolve(s,p,(w+7)/8,false,reg); return a.soff?loadSym(s,a,w):rdMem(a.o,a.off,w); }
static void storeV(State*s,Val p,unsigned w,Val v,Val*reg){ u64 n=(w+7)/8; Addr a=resolve(s,p,n,true,reg); Obj*o=wr(s,a.oi);
  if(!a.soff){ wrMem(o,a.off,w,v); return; }
  for(u64 k=0;k+n<=o->size;k++) if(!(k&a.soff->kz)&&(k&a.soff->ko)==a.soff->ko){ /* per-candidate conditional update */
    Expr*c=mkCmp(EQ,a.soff,mkConst(k,64)); Val old=rdMem(o,k,w); Expr*nv=mkIte(c,X(v,w),X(old,w)); wrMem(o,k,w,EV(nv)); }
}
static string readStr(State*s,u64 a){ string r; for(int k=0;k<400;k++){ Obj*o=findObj(s,a+k,1); if(!o) break; u8 c=rdByte(o,a+k-o->base); if(!c) break; r+=c; } return r; }
static void copyMem(State*s,u64 d,u64 src,u64 n){ if(!n) return; Addr sa=resolve(s,CV(src),n,false,nullptr); Addr da=resolve(s,CV(d),n,true,nullptr); Obj*so=sa.o; so->rc++; Obj*o=wr(s,da.oi);
  bool fwd=!(so->base==o->base&&d>src);
  // snapshot to allow overlap
  vector<u8> tmp(n); vector<Expr*> ts; bool anyS=false; for(u64 k=0;k<n;){ u64 off=sa.off+k; Page*p=so->pg[off/PS]; u64 po=off%PS; u64 len=std::min<u64>(n-k,PS-po); memcpy(&tmp[k],p->d+po,len); if(p->sym){ if(!anyS){ ts.assign(n,nullptr); anyS=true; } memcpy(&ts[k],p->sym+po,len*sizeof(Expr*)); } k+=len; } (void)fwd;
  for(u64 k=0;k<n;){ u64 off=da.off+k; Page*p=wpage(o,off/PS); u64 po=off%PS; u64 len=std::min<u64>(n-k,PS-po); memcpy(p->d+po,&tmp[k],len); if(p->sym) memset(p->sym+po,0,len*sizeof(Expr*)); if(anyS) for(u64 q=0;q<len;q++) if(ts[k+q]) wrByteSym(o,off+q,ts[k+q]); k+=len; }
  unrefObj(so);
}
static void setMem(State*s,u64 d,Val v,u64 n){ if(!n) return; Addr a=resolve(s,CV(d),n,true,nullptr); Obj*o=wr(s,a.oi); if(v.e){ Expr*b=mkExtract(v.e,0,8); for(u64 k=0;k<n;k++) wrByteSym(o,a.off+k,b); return; }
  for(u64 k=0;k<n;){ u64 off=a.off+k,po=off%PS; u64 len=std::min<u64>(n-k,PS-po); Page*p=wpage(o,off/PS); memset(p->d+po,(int)v.v,len); if(p->sym) memset(p->sym+po,0,len*sizeof(Expr*)); k+=len; } }
static void freeObj(State*s,u64 p){ if(!p) return; int i=findIdx(s,p); if(i<0||s->objs[i]->base!=p||s->objs[i]->kind!=HEAP){ memErr(s,"free",p,0,s->model); } unrefObj(s->objs[i]); s->objs.erase(s->objs.begin()+i); }
static Expr* newSym(State*s,const string&nm,unsigned w,u64 mx=~0ull){ u64 k=s->nsyms++; s->syms->push_back({nm,(u8)w}); if(s->model.size()<=k) s->model.resize(k+1,0); s->model[k]=0; return mkSym(k,w,mx); }

// ---------------------------------------------------------------- decoder
enum Bi { B_NONE=-1,B_ALLOC,B_FREE,B_MEMCPY,B_MEMSET,B_SYM,B_SYMV,B_RANGE,B_CHOOSE,B_ASSUME,B_ASSERT,B_REACH,B_CONC,B_EXIT,B_FAIL,B_ISSYM,B_PARAM,B_CONEW,B_COSWITCH,B_COSELF,B_PRINT,B_FLOOR,B_CEIL,B_SQRT,B_FABS,B_FMOD,B_DEDUP,B_OBJSIZE,B_SYMOF,B_TRUNC,B_VALID,B_COLIVE,B_FMTD,B_STRTOD };
static std::map<string,int> builtins={ {"ws__alloc",B_ALLOC},{"ws__free",B_FREE},{"ws_memcpy",B_MEMCPY},{"memcpy",B_MEMCPY},{"memmove",B_MEMCPY},{"memset",B_MEMSET},{"ws_sym",B_SYM},{"ws_u",B_SYMV},{"ws_range",B_RANGE},{"ws_choose",B_CHOOSE},{"ws_assume",B_ASSUME},{"ws__assert",B_ASSERT},{"ws_reach",B_REACH},{"ws_concretize",B_CONC},{"ws_exit",B_EXIT},{"ws__fail",B_FAIL},{"ws_issym",B_ISSYM},{"ws_param",B_PARAM},{"ws_co_new",B_CONEW},{"ws_co_switch",B_COSWITCH},{"ws_co_self",B_COSELF},{"ws_co_live",B_COLIVE},{"ws_print",B_PRINT},{"floor",B_FLOOR},{"ceil",B_CEIL},{"sqrt",B_SQRT},{"fabs",B_FABS},{"trunc",B_TRUNC},{"fmod",B_FMOD},{"ws_dedup",B_DEDUP},{"ws_objsize",B_OBJSIZE},{"ws_valid",B_VALID},{"ws__fmtd",B_FMTD},{"ws__strtod",B_STRTOD} };

static void decode(FuncD*d){
  d->decoded=true; const Function*F=d->F; std::map<const Value*,int> reg; int n=0;
  for(auto&a:F->args()){ reg[&a]=n; d->argSlots.push_back(n); d->argw.push_back(tw(a.getType())); n+=nslots(a.getType()); }
  d->vararg=F->isVarArg();
  for(auto&B:*F) for(auto&I:B) if(!I.getType()->isVoidTy()){ reg[&I]=n; n+=nslots(I.getType()); }
  int scratch=n; n+=1; d->nregs=n;
  auto op=[&](const Value*v)->int{ auto it=reg.find(v); if(it!=reg.end()) return it->second; if(auto*c=dyn_cast<Constant>(v)) return cidx(constVal(c)); if(isa<MetadataAsValue>(v)) return cidx(0); die("operand in "+d->name); };
  auto opSlot=[&](const Value*v,unsigned k)->int{ auto it=reg.find(v); if(it!=reg.end()) return it->second+k; const Constant*c=cast<Constant>(v); if(nslots(c->getType())==1&&!c->getType()->isAggregateType()) return cidx(constVal(c)); // aggregate constant
      if(isa<UndefValue>(c)||isa<ConstantAggregateZero>(c)) return cidx(0);
      unsigned acc=0; for(unsigned i=0;;i++){ Constant*e=c->getAggregateElement(i); if(!e) die("agg const"); unsigned q=nslots(e->getType()); if(k<acc+q){ if(q==1&&!e->getType()->isAggregateType()) return cidx(constVal(e)); die("nested agg const"); } acc+=q; } };
  std::map<const BasicBlock*,int> bstart; vector<std::pair<size_t,vector<const BasicBlock*>>> fix;
  d->bb0=nbbTotal; int bbi=0;
  for(auto&B:*F){
    bstart[&B]=d->code.size(); bool first=true; int thisbb=nbbTotal+bbi++;
    for(auto&I:B){
      if(isa<PHINode>(I)) continue;
      Inst in{}; in.I=&I; in.dst=I.getType()->isVoidTy()?-1:reg[&I]; in.w=tw(I.getType()); in.bb=first?thisbb:-1; in.n=0; first=false;
      switch(I.getOpcode()){
      case Instruction::Alloca: { auto&A=cast<AllocaInst>(I); in.op=I_ALLOCA; in.imm=DL->getTypeAllocSize(A.getAllocatedType()); in.a=op(A.getArraySize()); break; }
      case Instruction::Load: { in.op=I_LOAD; in.a=op(I.getOperand(0)); layout(I.getType(),0,in.lay); break; }
      case Instruction::Store: { in.op=I_STORE; in.a=op(I.getOperand(1)); const Value*v=I.getOperand(0); layout(v->getType(),0,in.lay); for(unsigned k=0;k<in.lay.size();k++) in.args.push_back(opSlot(v,k)); break; }
      case Instruction::GetElementPtr: { in.op=I_GEP; in.a=op(I.getOperand(0)); i64 off=0; auto&G=cast<GetElementPtrInst>(I);
        for(auto gi=gep_type_begin(G),ge=gep_type_end(G);gi!=ge;++gi){ const Value*ix=gi.getOperand(); if(auto*st=gi.getStructTypeOrNull()){ off+=DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); } else { i64 sz=DL->getTypeAllocSize(gi.getIndexedType()); if(auto*ci=dyn_cast<ConstantInt>(ix)) off+=sz*ci->getSExtValue(); else { in.idx.push_back({op(ix),sz}); in.aw.push_back(tw(ix->getType())); } } }
        in.imm=off; break; }
      case Instruction::Add: in.op=I_BIN;in.sub=ADD;goto bin; case Instruction::Sub: in.op=I_BIN;in.sub=SUB;goto bin; case Instruction::Mul: in.op=I_BIN;in.sub=MUL;goto bin;
      case Instruction::UDiv: in.op=I_BIN;in.sub=UDIV;goto bin; case Instruction::SDiv: in.op=I_BIN;in.sub=SDIV;goto bin; case Instruction::URem: in.op=I_BIN;in.sub=UREM;goto bin; case Instruction::SRem: in.op=I_BIN;in.sub=SREM;goto bin;
      case Instruction::And: in.op=I_BIN;in.sub=AND;goto bin; case Instruction::Or: in.op=I_BIN;in.sub=OR;goto bin; case Instruction::Xor: in.op=I_BIN;in.sub=XOR;goto bin;
      case Instruction::Shl: in.op=I_BIN;in.sub=SHL;goto bin; case Instruction::LShr: in.op=I_BIN;in.sub=LSHR;goto bin; case Instruction::AShr: in.op=I_BIN;in.sub=ASHR;goto bin;
      bin: in.a=op(I.getOperand(0)); in.b=op(I.getOperand(1)); if(in.w==0||in.w>64) die("int width in "+d->name); break;
      case Instruction::FAdd: in.op=I_FBIN;in.sub=FADD;goto fbin; case Instruction::FSub: in.op=I_FBIN;in.sub=FSUB;goto fbin; case Instruction::FMul: in.op=I_FBIN;in.sub=FMUL;goto fbin; case Instruction::FDiv: in.op=I_FBIN;in.sub=FDIV;goto fbin; case Instruction::FRem: in.op=I_FBIN;in.sub=FREM;goto fbin;
      fbin: in.a=op(I.getOperand(0)); in.b=op(I.getOperand(1)); if(!in.w) die("fp type in "+d->name); break;
      case Instruction::FNeg: in.op=I_FBIN; in.sub=FNEG; in.a=op(I.getOperand(0)); in.b=cidx(0); break;
      case Instruction::ICmp: in.op=I_ICMP; in.sub=cast<ICmpInst>(I).getPredicate(); in.a=op(I.getOperand(0)); in.b=op(I.getOperand(1)); in.w2=tw(I.getOperand(0)->getType()); break;
      case Instruction::FCmp: in.op=I_FCMP; in.sub=cast<FCmpInst>(I).getPredicate(); in.a=op(I.getOperand(0)); in.b=op(I.getOperand(1)); in.w2=tw(I.getOperand(0)->getType()); break;
      case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPExt: case Instruction::FPTrunc:
        in.op=I_CAST; in.a=op(I.getOperand(0)); in.w2=tw(I.getOperand(0)->getType()); if(!in.w||!in.w2) die("cast type in "+d->name); in.imm=I.getOpcode(); break;
      case Instruction::Freeze: in.op=I_MOVE; in.n=nslots(I.getType()); for(int k=0;k<in.n;k++) in.args.push_back(opSlot(I.getOperand(0),k)); break;
      case Instruction::Select: in.op=I_SELECT; in.a=op(I.getOperand(0)); in.b=op(I.getOperand(1)); in.c=op(I.getOperand(2)); if(!in.w) die("select type"); break;
      case Instruction::Br: { auto&b=cast<BranchInst>(I); in.op=b.isConditional()?I_CBR:I_BR; if(b.isConditional()) in.a=op(b.getCondition()); vector<const BasicBlock*> t; for(unsigned k=0;k<b.getNumSuccessors();k++) t.push_back(b.getSuccessor(k)); fix.push_back({d->code.size(),t}); break; }
      case Instruction::Switch: { auto&sw=cast<SwitchInst>(I); in.op=I_SWITCH; in.a=op(sw.getCondition()); in.w2=tw(sw.getCondition()->getType()); vector<const BasicBlock*> t{sw.getDefaultDest()}; for(auto&c:sw.cases()){ in.cases.push_back(c.getCaseValue()->getZExtValue()&mask(in.w2)); t.push_back(c.getCaseSuccessor()); } fix.push_back({d->code.size(),t}); break; }
      case Instruction::Ret: in.op=I_RET; if(I.getNumOperands()){ in.n=nslots(I.getOperand(0)->getType()); for(int k=0;k<in.n;k++) in.args.push_back(opSlot(I.getOperand(0),k)); } break;
      case Instruction::Unreachable: in.op=I_UNREACH; break;
      case Instruction::ExtractValue: { auto&e=cast<ExtractValueInst>(I); in.op=I_MOVE; Type*t=e.getAggregateOperand()->getType(); unsigned k=0; for(unsigned ix:e.indices()){ if(auto*st=dyn_cast<StructType>(t)){ for(unsigned q=0;q<ix;q++) k+=nslots(st->getElementType(q)); t=st->getElementType(ix);} else { auto*at=cast<ArrayType>(t); k+=ix*nslots(at->getElementType()); t=at->getElementType(); } } in.n=nslots(t); for(int q=0;q<in.n;q++) in.args.push_back(opSlot(e.getAggregateOperand(),k+q)); break; }
      case Instruction::InsertValue: { auto&e=cast<InsertValueInst>(I); in.op=I_MOVE; Type*t=e.getType(); unsigned k=0; for(unsigned ix:e.indices()){ if(auto*st=dyn_cast<StructType>(t)){ for(unsigned q=0;q<ix;q++) k+=nslots(st->getElementType(q)); t=st->getElementType(ix);} else { auto*at=cast<ArrayType>(t); k+=ix*nslots(at->getElementType()); t=at->getElementType(); } } in.n=nslots(e.getType()); unsigned m=nslots(t); for(int q=0;q<in.n;q++) in.args.push_back((unsigned)q>=k&&(unsigned)q<k+m?opSlot(e.getInsertedValueOperand(),q-k):opSlot(e.getAggregateOperand(),q)); break; }
      case Instruction::AtomicRMW: { auto&r=cast<AtomicRMWInst>(I); in.op=I_RMW; in.sub=r.getOperation(); in.a=op(r.getPointerOperand()); in.b=op(r.getValOperand()); break; }
      case Instruction::AtomicCmpXchg: { auto&r=cast<AtomicCmpXchgInst>(I); in.op=I_CMPXCHG; in.a=op(r.getPointerOperand()); in.b=op(r.getCompareOperand()); in.c=op(r.getNewValOperand()); in.w=tw(r.getNewValOperand()->getType()); break; }
      case Instruction::Fence: in.op=I_NOP; break;
      case Instruction::Call: { auto&c=cast<CallInst>(I); 
        if(c.isInlineAsm()){ in.op=I_NOP; break; }
        const Value*cv=c.getCalledOperand()->stripPointerCasts(); const Function*cf=dyn_cast<Function>(cv); if(!cf) if(auto*al=dyn_cast<GlobalAlias>(cv)) cf=dyn_cast<Function>(al->getAliasee()->stripPointerCasts());
        if(cf&&cf->isIntrinsic()){ auto id=cf->getIntrinsicID();
          switch(id){ case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::vaend: case Intrinsic::stackrestore: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::prefetch: in.op=I_NOP; break;
            default: in.op=I_INTR; in.imm=id; break; }
          if(in.op==I_NOP){ if(first) {} break; }
          for(auto&a:c.args()) { in.args.push_back(op(a)); in.aw.push_back(tw(a->getType())); }
          if(in.op==I_INTR&&c.getType()->isStructTy()) in.w=tw(c.getArgOperand(0)->getType());
          break; }
        in.op=I_CALL; if(cf) in.callee=getFunc(cf); else in.a=op(c.getCalledOperand());
        in.n=nslots(I.getType());
        unsigned ai=0; for(auto&a:c.args()){ unsigned q=nslots(a->getType()); u64 bv=0; if(c.isByValArgument(ai)) bv=DL->getTypeAllocSize(c.getParamByValType(ai)); for(unsigned k=0;k<q;k++){ in.args.push_back(opSlot(a,k)); in.aw.push_back(tw(a->getType())); in.byval.push_back(bv); } ai++; }
        break; }
      default: die(string("unsupported instruction ")+I.getOpcodeName()+" in "+d->name);
      }
      d->code.push_back(std::move(in));
    }
  }
  nbbTotal+=bbi; d->nbb=bbi; (void)scratch;
  // edges
  for(auto&f:fix){ Inst&in=d->code[f.first]; const BasicBlock*from=in.I->getParent(); for(auto*t:f.second){ Edge e; e.target=bstart[t]; for(auto&P:t->phis()){ const Value*v=P.getIncomingValueForBlock(from); unsigned q=nslots(P.getType()); for(unsigned k=0;k<q;k++) e.moves.push_back({reg[&P]+(int)k,opSlot(v,k)}); } in.edges.push_back(std::move(e)); } }
}

// ---------------------------------------------------------------- interpreter
static inline Val R(Frame&f,int i){ return i>=0?f.r[i]:consts[-i-1]; }
static inline Val* RP(Frame&f,int i){ return i>=0?&f.r[i]:nullptr; }
static void pushFrame(State*s,Thread&t,FuncD*f,const Val*args,size_t na,int retdst){
  if(!f->decoded) decode(f);
  if(!S->fn[f->idx]) S->fn[f->idx]=1;
  if(t.st.size()>400){ report(s,"stack","call depth above 400",s->model); throw PathEnd{1}; }
  t.st.emplace_back(); Frame&fr=t.st.back(); fr.f=f; fr.pc=0; fr.retdst=retdst; fr.r.assign(f->nregs,CV(0));
  size_t fixed=f->argSlots.size(); for(size_t i=0;i<na;i++){ if(i<fixed) fr.r[i]=args[i]; else fr.va.push_back(args[i]); }
}
static void popAllocas(State*s,Frame&f){ for(size_t k=f.allocas.size();k-->0;){ u64 b=f.allocas[k]; int i=findIdx(s,b); if(i>=0&&s->objs[i]->base==b){ unrefObj(s->objs[i]); s->objs.erase(s->objs.begin()+i); } } }
static inline void takeEdge(Frame&f,const Edge&e){ 
  size_t n=e.moves.size(); if(n==1) { f.r[e.moves[0].first]=R(f,e.moves[0].second); } else if(n){ Val tmp[64]; vector<Val> big; Val*t=tmp; if(n>64){ big.resize(n); t=big.data(); } for(size_t k=0;k<n;k++) t[k]=R(f,e.moves[k].second); for(size_t k=0;k<n;k++) f.r[e.moves[k].first]=t[k]; }
  f.pc=e.target; }
static Val binV(unsigned op,unsigned w,Val a,Val b){ if(!a.e&&!b.e) return CV(evalOp((Op)op,w,w,a.v,b.v,0,0)); return EV(mkBin((Op)op,X(a,w),X(b,w))); }
static Val icmpV(unsigned p,unsigned w,Val a,Val b){
  if(!a.e&&!b.e){ u64 x=a.v,y=b.v; i64 sx=sext64(x,w),sy=sext64(y,w); bool r; switch(p){ case ICmpInst::ICMP_EQ:r=x==y;break; case ICmpInst::ICMP_NE:r=x!=y;break; case ICmpInst::ICMP_UGT:r=x>y;break; case ICmpInst::ICMP_UGE:r=x>=y;break; case ICmpInst::ICMP_ULT:r=x<y;break; case ICmpInst::ICMP_ULE:r=x<=y;break; case ICmpInst::ICMP_SGT:r=sx>sy;break; case ICmpInst::ICMP_SGE:r=sx>=sy;break; case ICmpInst::ICMP_SLT:r=sx<sy;break; default:r=sx<=sy; } return CV(r); }
  Expr*x=X(a,w),*y=X(b,w); switch(p){ case ICmpInst::ICMP_EQ:return EV(mkCmp(EQ,x,y)); case ICmpInst::ICMP_NE:return EV(mkNot(mkCmp(EQ,x,y))); case ICmpInst::ICMP_UGT:return EV(mkCmp(ULT,y,x)); case ICmpInst::ICMP_UGE:return EV(mkCmp(ULE,y,x)); case ICmpInst::ICMP_ULT:return EV(mkCmp(ULT,x,y)); case ICmpInst::ICMP_ULE:return EV(mkCmp(ULE,x,y)); case ICmpInst::ICMP_SGT:return EV(mkCmp(SLT,y,x)); case ICmpInst::ICMP_SGE:return EV(mkCmp(SLE,y,x)); case ICmpInst::ICMP_SLT:return EV(mkCmp(SLT,x,y)); default:return EV(mkCmp(SLE,x,y)); } }
static Expr* fcmpE(unsigned p,Expr*a,Expr*b){
  switch(p){ case FCmpInst::FCMP_FALSE:return mkConst(0,1); case FCmpInst::FCMP_TRUE:return mkConst(1,1);
  case FCmpInst::FCMP_OEQ:return mkF(FEQ,1,a,b); case FCmpInst::FCMP_OGT:return mkF(FLT,1,b,a); case FCmpInst::FCMP_OGE:return mkF(FLE,1,b,a); case FCmpInst::FCMP_OLT:return mkF(FLT,1,a,b); case FCmpInst::FCMP_OLE:return mkF(FLE,1,a,b);
  case FCmpInst::FCMP_ONE:return mkBin(OR,mkF(FLT,1,a,b),mkF(FLT,1,b,a)); case FCmpInst::FCMP_ORD:return mkNot(mkF(FUNO,1,a,b)); case FCmpInst::FCMP_UNO:return mkF(FUNO,1,a,b);
  case FCmpInst::FCMP_UEQ:return mkBin(OR,mkF(FEQ,1,a,b),mkF(FUNO,1,a,b)); case FCmpInst::FCMP_UGT:return mkNot(mkF(FLE,1,a,b)); case FCmpInst::FCMP_UGE:return mkNot(mkF(FLT,1,a,b)); case FCmpInst::FCMP_ULT:return mkNot(mkF(FLE,1,b,a)); case FCmpInst::FCMP_ULE:return mkNot(mkF(FLT,1,b,a)); default:return mkNot(mkF(FEQ,1,a,b)); } }
static void ckAssert(State*s,Val c,const string&msg){
  S->asserts++; if(!c.e){ if(!(c.v&1)){ report(s,"assert",msg,s->model); throw PathEnd{1}; } return; }
  S->assertsSym++; Expr*e=simp(s,c.e); if(e->w>1) e=mkNot(mkCmp(EQ,e,mkConst(0,e->w))); if(e->op==CONST){ if(!e->val){ report(s,"assert",msg,s->model); throw PathEnd{1}; } return; }
  vector<u64> m; Res r=sat(s,mkNot(e),m); if(r==SAT) report(s,"assert",msg,m); else if(r==UNKNOWN) S->assertUnknown++;
  if(r==SAT){ vector<u64> m2; Res r2=sat(s,e,m2); if(r2!=SAT) throw PathEnd{1}; s->model=m2; addC(s,e); }
  else if(r==UNKNOWN){ vector<u64> m2; if(sat(s,e,m2)!=SAT) throw PathEnd{2}; s->model=m2; addC(s,e);} 
}
static void reach(const string&n){ int k=S->nreach; for(int i=0;i<k;i++) if(n==S->reachName[i]){ S->reachn[i]++; return; }
  int z=0; while(!S->lock.compare_exchange_weak(z,1)) z=0; k=S->nreach; int i=0; for(;i<k;i++) if(n==S->reachName[i]) break; if(i==k&&k<255){ strncpy(S->reachName[k],n.c_str(),63); S->nreach=k+1; } S->lock=0; S->reachn[i]++; }
static u64 h64(u64 h,u64 x){ h^=x+0x9E3779B97F4A7C15ull+(h<<6)+(h>>2); h*=0xff51afd7ed558ccdull; return h^(h>>33); }
static bool hashSym=false; // the hashed state holds expressions, whose numbering is private to the process
static u64 pageHash(Page*p){ if(p->hv) return p->h; u64 h=1469598103934665603ull; u64 x; for(int i=0;i<PS;i+=8){ memcpy(&x,p->d+i,8); h=(h^x)*0x9E3779B97F4A7C15ull; h^=h>>29; } if(p->sym) for(int i=0;i<PS;i++) if(p->sym[i]) h=h64(h,p->sym[i]->id*4099ull+i); p->h=h; p->hv=true; return h; }
static std::pair<u64,u64> stateHash(State*s){ u64 a=1,b=2; hashSym=false; for(Obj*o:s->objs){ if(!o->hv){ u64 x=h64(1,o->base),y=h64(2,o->size); bool hs=false; for(Page*p:o->pg){ u64 h=pageHash(p); if(p->sym) hs=true; x=h64(x,h); y=h64(y,h*31+7); } o->ha=x; o->hb=y; o->hs=hs; o->hv=true; } a=h64(a,o->ha); b=h64(b,o->hb); if(o->hs) hashSym=true; } for(auto&t:s->th){ a=h64(a,t.live); for(auto&f:t.st){ a=h64(a,(u64)f.f); a=h64(a,f.pc); b=h64(b,f.pc); for(auto&v:f.r){ if(v.e) hashSym=true; a=h64(a,v.e?v.e->id+77:v.v); b=h64(b,v.e?v.e->id*3+5:v.v+11);} } } a=h64(a,s->cur); a=h64(a,s->brk);
  for(auto*c:s->cs){ // constraints on symbols no longer relevant (fixed) are ignored
    Expr*e=c; bool relevant=true; if(e->op==EQ&&e->a->op==SYM&&e->b->op==CONST) relevant=false; if(relevant){ auto&sp=::support(e); bool all=true; for(size_t i=0;i<sp.size()&&all;i++){ u64 w=sp[i]; while(w){ unsigned k=__builtin_ctzll(w); w&=w-1; size_t o=i*64+k; if(o>=s->fixed.size()||!s->fixed[o]){all=false;break;} } } if(all) relevant=false; } if(relevant){ hashSym=true; a=h64(a,e->id); b=h64(b,e->id);} }
  return {a,b}; }

// states without expressions are remembered by all processes together (64-bit fingerprints, open addressing)
static const u64 SHT=1ull<<26; static std::atomic<u64>*sht;
static bool sharedInsert(const std::pair<u64,u64>&h){ u64 k=h64(h.first,h.second); if(!k) k=1; u64 i=(k*0x9E3779B97F4A7C15ull)>>38; for(int n=0;n<64;n++,i=(i+1)&(SHT-1)){ u64 v=sht[i].load(std::memory_order_relaxed); if(v==k) return false; if(v==0){ if(sht[i].compare_exchange_strong(v,k)) return true; if(v==k) return false; } } return seenStates.insert(h).second; }
static void doBuiltin(State*s,Thread&t,Frame&f,const Inst&in,FuncD*cf,vector<Val>&a){
  auto ret=[&](Val v){ if(in.dst>=0) f.r[in.dst]=v; };
  auto conc=[&](int k){ int ai=in.args[k]; return concretize(s,a[k],in.aw[k],RP(f,ai)); };
  switch(cf->builtin){
  case B_ALLOC: { u64 n=conc(0); int z=a.size()>1?conc(1):0; if(n>(1ull<<31)) { ret(CV(0)); break; } ret(CV(addObj(s,n,HEAP,"heap",z))); break; }
  case B_FREE: { u64 p=conc(0); freeObj(s,p); break; }
  case B_MEMCPY: { u64 n=conc(2); u64 d=conc(0); u64 q=conc(1); copyMem(s,d,q,n); ret(CV(d)); break; }
  case B_MEMSET: { u64 n=conc(2); u64 d=conc(0); Val v=a[1]; setMem(s,d,v.e?EV(mkExtract(v.e,0,8)):v,n); ret(CV(d)); break; }
  case B_SYM: { u64 p=conc(0),n=conc(1); string nm=readStr(s,conc(2)); for(u64 k=0;k<n;k++){ Addr ad=resolve(s,CV(p+k),1,true,nullptr); Obj*o=wr(s,ad.oi); wrByteSym(o,ad.off,newSym(s,nm+"["+std::to_string(k)+"]",8)); } break; }
  case B_SYMV: { u64 w=conc(0); string nm=readStr(s,conc(1)); Expr*e=newSym(s,nm,w); ret(EV(mkZext(e,64))); break; }
  case B_RANGE: { i64 lo=conc(0),hi=conc(1); string nm=readStr(s,conc(2)); u64 span=(u64)hi-(u64)lo; if(span==0){ newSym(s,nm,1); ret(CV(lo)); break; } unsigned w=64-__builtin_clzll(span); Expr*e=newSym(s,nm,w,span); ret(EV(mkBin(ADD,mkZext(e,64),mkConst(lo,64)))); break; }
  case B_CHOOSE: { // fully forked choice 0..n-1
    u64 n=conc(0); string nm=readStr(s,conc(1)); unsigned w=8; if(n>256) w=16; if(n>65536) w=32; Expr*e=newSym(s,nm,w); f.pc++; // successors continue after the call
    for(u64 k=n;k-->1;){ State*q=forkState(s); Expr*c=mkCmp(EQ,e,mkConst(k,w)); q->model[e->val]=k; addC(q,c); Frame&qf=q->th[q->cur].st.back(); if(in.dst>=0) qf.r[in.dst]=CV(k); pushWork(q); }
    addC(s,mkCmp(EQ,e,mkConst(0,w))); s->model[e->val]=0; ret(CV(0)); f.pc--; break; }
  case B_ASSUME: { Val c=a[0]; unsigned w=in.aw[0]; Expr*e=simp(s,X(c,w)); if(w>1) e=mkNot(mkCmp(EQ,e,mkConst(0,w))); e=simp(s,e); if(e->op==CONST){ if(!e->val) throw PathEnd{3}; break; } vector<u64> m; Res r=sat(s,e,m); if(r==UNSAT) throw PathEnd{3}; if(r==UNKNOWN){ S->unknownDrop++; throw PathEnd{2}; } s->model=m; addC(s,e); break; }
  case B_ASSERT: { Val c=a[0]; unsigned w=in.aw[0]; string msg=readStr(s,conc(1)); if(c.e) c=EV(mkNot(mkCmp(EQ,c.e,mkConst(0,w)))); else c=CV(c.v!=0); ckAssert(s,c,msg); break; }
  case B_FAIL: { string msg=readStr(s,conc(0)); S->asserts++; report(s,"assert",msg,s->model); throw PathEnd{1}; }
  case B_REACH: reach(readStr(s,conc(0))); break;
  case B_CONC: ret(CV(conc(0))); break;
  case B_EXIT: throw PathEnd{0};
  case B_ISSYM: ret(CV(a[0].e!=nullptr)); break;
  case B_PARAM: { string nm=readStr(s,conc(0)); i64 d=conc(1); auto it=params.find(nm); ret(CV(it==params.end()?d:it->second)); break; }
  case B_CONEW: { u64 fa=conc(0); Val arg=a[1]; FuncD*fd=faddr[fa]; int id=s->th.size(); f.pc++; s->th.emplace_back(); Thread&nt=s->th.back(); pushFrame(s,nt,fd,&arg,1,-1); Frame&me=s->th[s->cur].st.back(); me.pc--; if(in.dst>=0) me.r[in.dst]=CV(id); break; }
  case B_COSWITCH: { u64 k=conc(0); if(k>=s->th.size()||!s->th[k].live) { report(s,"engine","switch to dead coroutine",s->model); throw PathEnd{1}; } f.pc++; s->cur=k; // caller loop increments pc of frame f; undo
      f.pc--; break; }
  case B_COSELF: ret(CV(s->cur)); break;
  case B_COLIVE: { u64 k=conc(0); ret(CV(k<s->th.size()&&s->th[k].live)); break; }
  case B_PRINT: { string m=readStr(s,conc(0)); if(getenv("WGSYM_PRINT")){ fprintf(stderr,"[%d] %s",getpid(),m.c_str()); for(size_t k=1;k<a.size();k++){ if(a[k].e) fprintf(stderr," <sym:%llx>",(unsigned long long)evalExpr(a[k].e,s->model)); else fprintf(stderr," %llx",(unsigned long long)a[k].v); } fprintf(stderr,"\n"); } break; }
  case B_FLOOR: ret(EV(mkF(FFLOOR,64,X(a[0],64)))); break; case B_CEIL: ret(EV(mkF(FCEIL,64,X(a[0],64)))); break; case B_SQRT: ret(EV(mkF(FSQRT,64,X(a[0],64)))); break; case B_TRUNC: ret(EV(mkF(FTRUNCI,64,X(a[0],64)))); break;
  case B_FABS: ret(EV(mkF(FABS,64,X(a[0],64)))); break; case B_FMOD: { u64 x=conc(0),y=conc(1); ret(CV(evalOp(FREM,64,64,x,y,0,0))); break; }
  case B_DEDUP: { auto h=stateHash(s); if(!(hashSym?seenStates.insert(h).second:sharedInsert(h))){ S->dedup++; throw PathEnd{4}; } break; }
  case B_OBJSIZE: { u64 p=conc(0); int i=findIdx(s,p); ret(CV(i>=0&&p-s->objs[i]->base<=s->objs[i]->size?s->objs[i]->size-(p-s->objs[i]->base):0)); break; }
  case B_VALID: { u64 p=conc(0),n=conc(1); ret(CV(findObj(s,p,n)!=nullptr)); break; }
  case B_FMTD: { u64 o=conc(0),cap=conc(1); string sp=readStr(s,conc(2)); u64 b=conc(3); double d; memcpy(&d,&b,8); char t[600]; int n=snprintf(t,sizeof t,sp.c_str(),d); if(n>=(int)sizeof t) n=sizeof t-1; for(int k=0;k<n&&(u64)k<cap;k++) storeV(s,CV(o+k),8,CV((u8)t[k]),nullptr); ret(CV(n)); break; }
  case B_STRTOD: { u64 p=conc(0),n=conc(1); string t; bool again=false; for(u64 k=0;k<n;k++){ Val v=loadV(s,CV(p+k),8,nullptr); u64 c=concretize(s,v,8); if(v.e){ storeV(s,CV(p+k),8,CV(c),nullptr); } t+=(char)c; } (void)again; double d=strtod(t.c_str(),0); u64 b; memcpy(&b,&d,8); ret(CV(b)); break; }
  default: die("builtin");
  }
}

static void doIntr(State*s,Frame&f,const Inst&in){
  auto A=[&](int k){ return R(f,in.args[k]); };
  auto conc=[&](int k){ return concretize(s,A(k),in.aw[k],RP(f,in.args[k])); };
  unsigned w=in.w; Val r=CV(0);
  switch(in.imm){
  case Intrinsic::memcpy: case Intrinsic::memmove: { u64 n=conc(2),d=conc(0),q=conc(1); copyMem(s,d,q,n); return; }
  case Intrinsic::memset: { u64 n=conc(2),d=conc(0); setMem(s,d,A(1),n); return; }
  case Intrinsic::vastart: { u64 p=conc(0); size_t n=f.va.size(); u64 ar=addObj(s,n*8+8,STACK,"varargs",true); f.allocas.push_back(ar); int i=findIdx(s,ar); Obj*o=wr(s,i); for(size_t k=0;k<n;k++) wrMem(o,k*8,64,f.va[k].e&&f.va[k].e->w<64?EV(mkZext(f.va[k].e,64)):f.va[k]);
     storeV(s,CV(p),32,CV(48),nullptr); storeV(s,CV(p+4),32,CV(304),nullptr); storeV(s,CV(p+8),64,CV(ar),nullptr); storeV(s,CV(p+16),64,CV(0),nullptr); return; }
  case Intrinsic::vacopy: { u64 d=conc(0),q=conc(1); copyMem(s,d,q,24); return; }
  case Intrinsic::stacksave: case Intrinsic::returnaddress: case Intrinsic::frameaddress: r=CV(0); break;
  case Intrinsic::expect: r=A(0); break; case Intrinsic::is_constant: r=CV(0); break;
  case Intrinsic::objectsize: r=CV(~0ull); break;
  case Intrinsic::trap: report(s,"trap","trap",s->model); throw PathEnd{1};
  case Intrinsic::fabs: r=EV(mkF(FABS,w,X(A(0),w))); break; case Intrinsic::floor: r=EV(mkF(FFLOOR,w,X(A(0),w))); break; case Intrinsic::ceil: r=EV(mkF(FCEIL,w,X(A(0),w))); break; case Intrinsic::sqrt: r=EV(mkF(FSQRT,w,X(A(0),w))); break; case Intrinsic::trunc: r=EV(mkF(FTRUNCI,w,X(A(0),w))); break; case Intrinsic::rint: case Intrinsic::nearbyint: r=EV(mkF(FRINT,w,X(A(0),w))); break;
  case Intrinsic::fmuladd: r=EV(mkF(FADD,w,mkF(FMUL,w,X(A(0),w),X(A(1),w)),X(A(2),w))); break;
  case Intrinsic::abs: { Expr*x=X(A(0),w); r=EV(mkIte(mkCmp(SLT,x,mkConst(0,w)),mkBin(SUB,mkConst(0,w),x),x)); break; }
  case Intrinsic::smax: { Expr*x=X(A(0),w),*y=X(A(1),w); r=EV(mkIte(mkCmp(SLT,x,y),y,x)); break; } case Intrinsic::smin: { Expr*x=X(A(0),w),*y=X(A(1),w); r=EV(mkIte(mkCmp(SLT,x,y),x,y)); break; }
  case Intrinsic::umax: { Expr*x=X(A(0),w),*y=X(A(1),w); r=EV(mkIte(mkCmp(ULT,x,y),y,x)); break; } case Intrinsic::umin: { Expr*x=X(A(0),w),*y=X(A(1),w); r=EV(mkIte(mkCmp(ULT,x,y),x,y)); break; }
  case Intrinsic::bswap: { Expr*x=X(A(0),w); Expr*o=nullptr; for(unsigned k=0;k<w;k+=8){ Expr*b=mkExtract(x,k,8); o=o?mkConcat(o,b):b; } r=EV(o); break; }
  case Intrinsic::fshl: { Expr*x=X(A(0),w),*y=X(A(1),w); u64 sh=conc(2)%w; r=sh?EV(mkBin(OR,mkBin(SHL,x,mkConst(sh,w)),mkBin(LSHR,y,mkConst(w-sh,w)))):EV(x); break; }
  case Intrinsic::ctpop: { Expr*x=X(A(0),w); Expr*o=mkConst(0,w); for(unsigned k=0;k<w;k++) o=mkBin(ADD,o,mkZext(mkExtract(x,k,1),w)); r=EV(o); break; }
  case Intrinsic::ctlz: { u64 x=conc(0); r=CV(x?__builtin_clzll(x)-(64-w):w); break; } case Intrinsic::cttz: { u64 x=conc(0); r=CV(x?__builtin_ctzll(x):w); break; }
  case Intrinsic::umul_with_overflow: { Expr*x=X(A(0),w),*y=X(A(1),w); Expr*p=mkBin(MUL,x,y); Expr*ov=mkBin(AND,mkNot(mkCmp(EQ,x,mkConst(0,w))),mkNot(mkCmp(EQ,mkBin(UDIV,p,mkIte(mkCmp(EQ,x,mkConst(0,w)),mkConst(1,w),x)),y))); f.r[in.dst]=EV(p); f.r[in.dst+1]=EV(ov); return; }
  case Intrinsic::uadd_with_overflow: { Expr*x=X(A(0),w),*y=X(A(1),w); Expr*p=mkBin(ADD,x,y); f.r[in.dst]=EV(p); f.r[in.dst+1]=EV(mkCmp(ULT,p,x)); return; }
  case Intrinsic::usub_with_overflow: { Expr*x=X(A(0),w),*y=X(A(1),w); f.r[in.dst]=EV(mkBin(SUB,x,y)); f.r[in.dst+1]=EV(mkCmp(ULT,x,y)); return; }
  case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: { bool sub=in.imm==Intrinsic::ssub_with_overflow; Expr*x=X(A(0),w),*y=X(A(1),w); Expr*p=mkBin(sub?SUB:ADD,x,y); Expr*z=mkConst(0,w); Expr*sx=mkCmp(SLT,x,z),*sy=mkCmp(SLT,y,z),*sp=mkCmp(SLT,p,z); Expr*ov=sub?mkBin(AND,mkNot(mkCmp(EQ,sx,sy)),mkNot(mkCmp(EQ,sp,sx))):mkBin(AND,mkCmp(EQ,sx,sy),mkNot(mkCmp(EQ,sp,sx))); f.r[in.dst]=EV(p); f.r[in.dst+1]=EV(ov); return; }
  case Intrinsic::is_fpclass: { if(in.aw[0]!=64) die("is.fpclass of other than double"); u64 m=conc(1); Expr*x=X(A(0),64); Expr*ab=mkBin(AND,x,mkConst(0x7fffffffffffffffull,64)),*neg=mkCmp(SLT,x,mkConst(0,64)),*pos=mkNot(neg); const u64 INF=0x7ff0000000000000ull; Expr*o=mkConst(0,1); auto cls=[&](Expr*c,unsigned mm){ if((m&mm)==mm){ o=mkBin(OR,o,c); return; } };
    Expr*isinf=mkCmp(EQ,ab,mkConst(INF,64)),*iszero=mkCmp(EQ,ab,mkConst(0,64)),*issub=mkBin(AND,mkNot(iszero),mkCmp(ULT,ab,mkConst(0x0010000000000000ull,64))),*isnorm=mkBin(AND,mkNot(mkCmp(ULT,ab,mkConst(0x0010000000000000ull,64))),mkCmp(ULT,ab,mkConst(INF,64))); Expr*isq=mkNot(mkCmp(ULT,ab,mkConst(0x7ff8000000000000ull,64))),*iss=mkBin(AND,mkCmp(ULT,mkConst(INF,64),ab),mkNot(isq));
    cls(iss,1); cls(isq,2); cls(mkBin(AND,isinf,neg),4); cls(mkBin(AND,isnorm,neg),8); cls(mkBin(AND,issub,neg),0x10); cls(mkBin(AND,iszero,neg),0x20); cls(mkBin(AND,iszero,pos),0x40); cls(mkBin(AND,issub,pos),0x80); cls(mkBin(AND,isnorm,pos),0x100); cls(mkBin(AND,isinf,pos),0x200); r=EV(o); break; }
  default: die(string("unsupported intrinsic ")+Intrinsic::getBaseName(in.imm).str()+" in "+f.f->name);
  }
  if(in.dst>=0) f.r[in.dst]=r;
}

static u64 icnt=0;
static void runSlice(State*s,u64 budget){ // runs current state until budget instructions or PathEnd
  u64 n=0;
  for(;n<budget;n++){
    icnt++; Thread&t=s->th[s->cur]; Frame&f=t.st.back(); const Inst&in=f.f->code[f.pc];
    if(in.bb>=0&&!S->bb[in.bb]) S->bb[in.bb]=1;
    switch(in.op){
    case I_NOP: f.pc++; break;
    case I_BIN: { Val a=R(f,in.a),b=R(f,in.b);
      if(in.sub>=UDIV&&in.sub<=SREM){ if(!b.e){ if(b.v==0){ report(s,"div","division by zero",s->model); throw PathEnd{1}; } } else { Expr*z=mkCmp(EQ,b.e,mkConst(0,in.w)); Dec d=decide(s,z); if(d.other) pushWork(d.other); if(d.side){ report(s,"div","division by zero",s->model); throw PathEnd{1}; } } }
      f.r[in.dst]=binV(in.sub,in.w,a,b); f.pc++; break; }
    case I_ICMP: f.r[in.dst]=icmpV(in.sub,in.w2,R(f,in.a),R(f,in.b)); f.pc++; break;
    case I_CAST: { Val a=R(f,in.a); unsigned w=in.w,w2=in.w2; Val r;
      switch(in.imm){
      case Instruction::Trunc: case Instruction::ZExt: case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: if(!a.e) r=CV(a.v&mask(w)); else if(w<w2) r=EV(mkExtract(a.e,0,w)); else r=EV(mkZext(a.e,w)); break;
      case Instruction::SExt: if(!a.e) r=CV((u64)sext64(a.v,w2)&mask(w)); else r=EV(mkSext(a.e,w)); break;
      default: { Op o=in.imm==Instruction::FPToSI?FPTOSI:in.imm==Instruction::FPToUI?FPTOUI:in.imm==Instruction::SIToFP?SITOFP:in.imm==Instruction::UIToFP?UITOFP:in.imm==Instruction::FPExt?FPEXT:FPTRUNC; if(!a.e) r=CV(evalOp(o,w,w2,a.v,0,0,0)); else r=EV(mkF(o,w,a.e)); } }
      f.r[in.dst]=r; f.pc++; break; }
    case I_GEP: { Val a=R(f,in.a); bool sym=a.e; u64 off=in.imm; for(auto&p:in.idx){ if(R(f,p.first).e) sym=true; }
      if(!sym){ size_t k=0; for(auto&p:in.idx){ off+=(u64)sext64(R(f,p.first).v,in.aw[k++])*(u64)p.second; } f.r[in.dst]=CV(a.v+off); }
      else { Expr*e=X(a,64); size_t k=0; for(auto&p:in.idx){ unsigned w=in.aw[k++]; Expr*ix=X(R(f,p.first),w); if(w<64) ix=mkSext(ix,64); e=mkBin(ADD,e,mkBin(MUL,ix,mkConst(p.second,64))); } f.r[in.dst]=EV(mkBin(ADD,e,mkConst(off,64))); }
      f.pc++; break; }
    case I_LOAD: { Val p=R(f,in.a); if(in.lay.size()==1) f.r[in.dst]=loadV(s,p,in.lay[0].second,RP(f,in.a)); else { u64 q=concretize(s,p,64,RP(f,in.a)); for(size_t k=0;k<in.lay.size();k++) f.r[in.dst+k]=loadV(s,CV(q+in.lay[k].first),in.lay[k].second,nullptr); } f.pc++; break; }
    case I_STORE: { Val p=R(f,in.a); if(in.lay.size()==1) storeV(s,p,in.lay[0].second,R(f,in.args[0]),RP(f,in.a)); else { u64 q=concretize(s,p,64,RP(f,in.a)); for(size_t k=0;k<in.lay.size();k++) storeV(s,CV(q+in.lay[k].first),in.lay[k].second,R(f,in.args[k]),nullptr); } f.pc++; break; }
    case I_ALLOCA: { u64 c=concretize(s,R(f,in.a),64); u64 b=addObj(s,in.imm*c,STACK,f.f->name.c_str(),false); f.allocas.push_back(b); f.r[in.dst]=CV(b); f.pc++; break; }
    case I_BR: takeEdge(f,in.edges[0]); break;
    case I_CBR: { Val c=R(f,in.a); if(!c.e){ takeEdge(f,in.edges[c.v&1?0:1]); break; }
      Dec d=decide(s,c.e); if(d.other){ Frame&of=d.other->th[d.other->cur].st.back(); takeEdge(of,in.edges[d.side?1:0]); pushWork(d.other); }
      takeEdge(f,in.edges[d.side?0:1]); break; }
    case I_SWITCH: { Val c=R(f,in.a); if(!c.e){ size_t k=0; for(;k<in.cases.size();k++) if(in.cases[k]==c.v) break; takeEdge(f,in.edges[k<in.cases.size()?k+1:0]); break; }
      // fork over targets (cases grouped by destination)
      Expr*e=simp(s,c.e); if(e->op==CONST){ f.r[in.a]=CV(e->val); break; }
      u64 v=evalExpr(e,s->model); int mine=-1; 
      std::map<int,Expr*> cond; Expr*def=mkConst(1,1); vector<int> order; 
      for(size_t k=0;k<in.cases.size();k++){ Expr*q=mkCmp(EQ,e,mkConst(in.cases[k],in.w2)); if(in.cases[k]==v) mine=k+1; int key=k+1; for(size_t j=0;j<k;j++) if(in.edges[j+1].target==in.edges[k+1].target&&in.edges[j+1].moves==in.edges[k+1].moves){ key=j+1; break; } auto it=cond.find(key); if(it==cond.end()) cond[key]=q; else it->second=mkBin(OR,it->second,q); def=mkBin(AND,def,mkNot(q)); if(in.cases[k]==v) mine=key; }
      cond[0]=def; if(mine<0) mine=0;
      for(auto&p:cond) if(p.first!=mine){ vector<u64> m=s->model; Res r=solver.check(s->cs,p.second,m); if(r==SAT){ State*o=forkState(s); o->model=m; addC(o,p.second); takeEdge(o->th[o->cur].st.back(),in.edges[p.first]); pushWork(o); } else if(r==UNKNOWN) S->unknownDrop++; }
      addC(s,cond[mine]); takeEdge(f,in.edges[mine]); break; }
    case I_SELECT: { Val c=R(f,in.a),a=R(f,in.b),b=R(f,in.c); if(!c.e) f.r[in.dst]=c.v&1?a:b; else { Expr*ce=simp(s,c.e); if(ce->op==CONST) f.r[in.dst]=ce->val?a:b; else f.r[in.dst]=EV(mkIte(ce,X(a,in.w),X(b,in.w))); } f.pc++; break; }
    case I_FBIN: { Val a=R(f,in.a),b=R(f,in.b); if(!a.e&&!b.e) f.r[in.dst]=CV(evalOp((Op)in.sub,in.w,in.w,a.v,b.v,0,0)); else f.r[in.dst]=EV(in.sub==FNEG?mkF(FNEG,in.w,X(a,in.w)):mkF((Op)in.sub,in.w,X(a,in.w),X(b,in.w))); f.pc++; break; }
    case I_FCMP: { Val a=R(f,in.a),b=R(f,in.b); f.r[in.dst]=EV(fcmpE(in.sub,X(a,in.w2),X(b,in.w2))); f.pc++; break; }
    case I_MOVE: { Val tmp[64]; for(int k=0;k<in.n;k++) tmp[k]=R(f,in.args[k]); for(int k=0;k<in.n;k++) f.r[in.dst+k]=tmp[k]; f.pc++; break; }
    case I_RMW: { Val old=loadV(s,R(f,in.a),in.w,RP(f,in.a)); Val b=R(f,in.b); Val nv; switch(in.sub){ case AtomicRMWInst::Xchg:nv=b;break; case AtomicRMWInst::Add:nv=binV(ADD,in.w,old,b);break; case AtomicRMWInst::Sub:nv=binV(SUB,in.w,old,b);break; case AtomicRMWInst::And:nv=binV(AND,in.w,old,b);break; case AtomicRMWInst::Or:nv=binV(OR,in.w,old,b);break; case AtomicRMWInst::Xor:nv=binV(XOR,in.w,old,b);break; default: die("atomicrmw op"); } storeV(s,R(f,in.a),in.w,nv,RP(f,in.a)); f.r[in.dst]=old; f.pc++; break; }
    case I_CMPXCHG: { Val old=loadV(s,R(f,in.a),in.w,RP(f,in.a)); Val eq=icmpV(ICmpInst::ICMP_EQ,in.w,old,R(f,in.b)); Val nv; if(!eq.e) nv=eq.v?R(f,in.c):old; else nv=EV(mkIte(eq.e,X(R(f,in.c),in.w),X(old,in.w))); storeV(s,R(f,in.a),in.w,nv,RP(f,in.a)); f.r[in.dst]=old; f.r[in.dst+1]=eq; f.pc++; break; }
    case I_UNREACH: report(s,"unreachable","unreachable instruction executed",s->model); throw PathEnd{1};
    case I_INTR: doIntr(s,f,in); f.pc++; break;
    case I_CALL: {
      FuncD*cf=in.callee; if(!cf){ u64 a=concretize(s,R(f,in.a),64,RP(f,in.a)); auto it=faddr.find(a); if(it==faddr.end()){ report(s,"call","call through an invalid function pointer",s->model); throw PathEnd{1}; } cf=it->second; }
      vector<Val> a; a.reserve(in.args.size()); for(int k:in.args) a.push_back(R(f,k));
      if(cf->builtin==-1){ cf->builtin=-2; auto it=builtins.find(cf->name); if(it!=builtins.end()&&(!cf->defined||true)&&!(cf->defined&&(cf->name=="floor"))) cf->builtin=it->second; }
      if(cf->builtin>=0){ int curBefore=s->cur; int fi=s->th[s->cur].st.size()-1; doBuiltin(s,t,f,in,cf,a); s->th[curBefore].st[fi].pc++; break; }
      if(!cf->defined){ report(s,"extern","call to external function "+cf->name+" "+cf->err,s->model); throw PathEnd{5}; }
      for(size_t k=0;k<a.size();k++) if(in.byval[k]){ u64 src=concretize(s,a[k],64); u64 b=addObj(s,in.byval[k],STACK,"byval",false); f.allocas.push_back(b); copyMem(s,b,src,in.byval[k]); a[k]=CV(b); }
      f.pc++; pushFrame(s,t,cf,a.data(),a.size(),in.dst); break; }
    case I_RET: { Val rv[16]; for(int k=0;k<in.n&&k<16;k++) rv[k]=R(f,in.args[k]); int rd=f.retdst; int nn=in.n; popAllocas(s,f); t.st.pop_back();
      if(t.st.empty()){ t.live=false; if(s->cur==0) throw PathEnd{0}; s->cur=0; break; }
      Frame&p=t.st.back(); if(rd>=0) for(int k=0;k<nn;k++) p.r[rd+k]=rv[k]; break; }
    default: die("opcode");
    }
  }
  s->steps+=n;
  if(s->steps>maxInstr) throw PathEnd{2};
}
static void flushSolver(){ static u64 q=0,m=0,u=0,sc=0,us=0; static double sec=0; static u64 li=0; S->instrs+=icnt-li; li=icnt; S->queries+=solver.queries-q; S->memo+=solver.memoHits-m; S->unknowns+=solver.unknowns-u; S->satc+=solver.satc-sc; S->unsatc+=solver.unsatc-us; S->solverUs+=(u64)((solver.secs-sec)*1e6); q=solver.queries;m=solver.memoHits;u=solver.unknowns;sc=solver.satc;us=solver.unsatc;sec=solver.secs; }
static bool isChild=false;
static void maybeSplit(){ // give the oldest pending state to a new process
  while(!work.empty()){
    int a=S->active; if(a>=S->maxw) return; if(!S->active.compare_exchange_strong(a,a+1)) continue;
    S->nproc++; fflush(nullptr); flushSolver();
    pid_t p=fork(); if(p<0){ S->active--; return; }
    if(p==0){ isChild=true; startTicks(); State*mine=work.front(); work.clear(); cur=mine; throw PathEnd{100}; }
    State*g=work.front(); work.pop_front(); delete g;
  }
}
static bool timeUp(){ double t=now(); double sa=S->stopAt; return t>deadline||S->stop||(sa!=0&&t>sa); }
/* a query that ignores its time limit must not hold up the run */
static void onTick(int){ double t=now(); double sa=S->stopAt; if(t>deadline+8||(sa!=0&&t>sa+8)){ S->dropped++; S->active--; _exit(0); } }
static void startTicks(){ struct sigaction a; memset(&a,0,sizeof a); a.sa_handler=onTick; a.sa_flags=SA_RESTART; sigaction(SIGALRM,&a,nullptr); struct itimerval v; v.it_interval.tv_sec=1; v.it_interval.tv_usec=0; v.it_value=v.it_interval; setitimer(ITIMER_REAL,&v,nullptr); }
static void workLoop(){
  startTicks();
  for(;;){
    if(!cur){ if(work.empty()) return; cur=work.back(); work.pop_back(); }
    try{
      for(;;){ { static double last=0; if(!work.empty()&&S->active<S->maxw){ double t=now(); if(t-last>0.004){ last=t; maybeSplit(); last=now(); } } } runSlice(cur,1500); if(timeUp()){ S->dropped+=1+work.size(); return; }
        { static int cnt=0; if(++cnt%256==0){ flushSolver(); if(solver.memo.size()>200000) solver.memo.clear(); } } }
    } catch(PathEnd&pe){
      if(pe.why==100) continue; // fresh child with its own cur
      if(pe.why==0){ S->paths++; S->completed++; sample(cur,"completed"); } else if(pe.why==1) S->paths++; else if(pe.why==2){ S->boundHits++; if(getenv("WGSYM_PRINT")) fprintf(stderr,"BOUND %s\n",where(cur).c_str()); } else if(pe.why==3) S->assumeEnd++; else if(pe.why==5) S->boundHits++;
      delete cur; cur=nullptr;
    }
  }
}
int main(int argc,char**argv){
  string bc; int jobs=8; for(int i=1;i<argc;i++){ string a=argv[i]; if(a=="-o") outdir=argv[++i]; else if(a=="-t") tlimit=atof(argv[++i]); else if(a=="-j") jobs=atoi(argv[++i]); else if(a=="-i") maxInstr=strtoull(argv[++i],0,0); else if(a=="-q") solver.timeoutMs=atoi(argv[++i]); else if(a=="-k") stopOnViol=false; else if(a=="-a"){ string p=argv[++i]; auto k=p.find('='); params[p.substr(0,k)]=strtoll(p.c_str()+k+1,0,0);} else bc=a; }
  if(bc.empty()||outdir.empty()) die("usage"); mkdir(outdir.c_str(),0777);
  double t0=now(); deadline=t0+tlimit;
  S=(Shared*)mmap(0,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); 
  sht=(std::atomic<u64>*)mmap(0,SHT*8,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
  S->maxw=jobs; S->active=1; S->nproc=1;
  SMDiagnostic err; M=parseIRFile(bc,err,LC); if(!M) die("cannot read "+bc+": "+err.getMessage().str());
  DL=&M->getDataLayout();
  fillPageHeap=newPage(); memset(fillPageHeap->d,0xa5,PS); fillPageZero=newPage(); memset(fillPageZero->d,0,PS);
  for(auto&F:*M) getFunc(&F);
  // globals
  for(auto&G:M->globals()){ u64 sz=DL->getTypeAllocSize(G.getValueType()); gaddr[&G]=bump(brk0,sz?sz:1); }
  vector<std::pair<u64,const GlobalVariable*>> gs; for(auto&p:gaddr) gs.push_back({p.second,p.first}); std::sort(gs.begin(),gs.end());
  State*s=new State; s->syms=std::make_shared<vector<SymRec>>();
  for(auto&p:gs){ auto*G=p.second; u64 sz=DL->getTypeAllocSize(G->getValueType()); Obj*o=newObj(p.first,sz,GLOBAL,strdup(G->getName().str().c_str()),fillPageZero); s->objs.push_back(o);
    if(G->hasInitializer()){ std::vector<std::pair<const Constant*,u64>> st{{G->getInitializer(),0}}; while(!st.empty()){ auto [c,off]=st.back(); st.pop_back(); if(isa<ConstantAggregateZero>(c)||isa<UndefValue>(c)) continue; Type*t=c->getType();
        if(auto*cd=dyn_cast<ConstantDataSequential>(c)){ StringRef r=cd->getRawDataValues(); for(size_t k=0;k<r.size();k++) wrByte(o,off+k,(u8)r[k]); continue; }
        if(auto*sty=dyn_cast<StructType>(t)){ for(unsigned k=0;k<sty->getNumElements();k++) st.push_back({c->getAggregateElement(k),off+DL->getStructLayout(sty)->getElementOffset(k)}); continue; }
        if(auto*at=dyn_cast<ArrayType>(t)){ u64 es=DL->getTypeAllocSize(at->getElementType()); for(unsigned k=0;k<at->getNumElements();k++) st.push_back({c->getAggregateElement(k),off+k*es}); continue; }
        wrMem(o,off,tw(t),CV(constVal(c))); } }
    if(G->isConstant()) o->ro=true; }
  s->brk=brk0+0x10000;
  dieThrows=true; for(size_t i=0;i<flist.size();i++) if(flist[i]->defined){ try{ decode(flist[i]); }catch(DecodeErr&e){ flist[i]->defined=false; flist[i]->err=e.m; } } dieThrows=false;
  Function*mf=M->getFunction("ws_main"); if(!mf) die("no ws_main");
  s->th.emplace_back(); FuncD*md=getFunc(mf); pushFrame(s,s->th[0],md,nullptr,0,-1);
  cur=s;
  prctl(PR_SET_CHILD_SUBREAPER,1);
  fflush(nullptr); { pid_t p=fork(); if(p<0) die("fork"); if(p==0){ isChild=true; workLoop(); flushSolver(); S->active--; _exit(0); } }
  // parent: reap everything
  for(;;){ int st; pid_t p=waitpid(-1,&st,0); if(p<0) break; if(!(WIFEXITED(st)&&WEXITSTATUS(st)==0)){ S->crashed++; S->active--; } }
  double el=now()-t0;
  std::ofstream f(outdir+"/stats.json");
  f<<"{\"wall_s\":"<<el<<",\"exhausted\":"<<((S->dropped==0&&S->crashed==0&&S->boundHits==0&&S->unknownDrop==0)?"true":"false");
  auto put=[&](const char*n,u64 v){ f<<",\""<<n<<"\":"<<v; };
  put("paths",S->paths);put("completed",S->completed);put("forks",S->forks);put("instructions",S->instrs);put("queries",S->queries);put("sat",S->satc);put("unsat",S->unsatc);put("memo_hits",S->memo);put("unknown",S->unknowns);put("asserts",S->asserts);put("asserts_symbolic",S->assertsSym);put("memchecks_symbolic",S->memchecksSym);put("dropped",S->dropped);put("bound_hits",S->boundHits);put("unknown_drop",S->unknownDrop);put("assert_unknown",S->assertUnknown);put("crashed",S->crashed);put("assumed_away",S->assumeEnd);put("dedup",S->dedup);put("violations",S->nviol);put("processes",S->nproc);
  f<<",\"solver_s\":"<<S->solverUs/1e6;
  f<<",\"reach\":{"; for(int i=0;i<S->nreach;i++) f<<(i?",":"")<<"\""<<S->reachName[i]<<"\":"<<S->reachn[i]; f<<"}";
  f<<",\"functions\":["; bool first=true; for(auto*d:flist) if(S->fn[d->idx]&&d->defined){ f<<(first?"":",")<<"\""<<d->name<<"\""; first=false; } f<<"]}\n"; f.close();
  printf("wgsym: %.1fs paths=%llu forks=%llu instrs=%llu queries=%llu (%.1fs) viol=%d dropped=%llu bound=%llu unk=%llu/%llu crashed=%llu dedup=%llu\n",el,(unsigned long long)S->paths,(unsigned long long)S->forks,(unsigned long long)S->instrs,(unsigned long long)S->queries,S->solverUs/1e6,(int)S->nviol,(unsigned long long)S->dropped,(unsigned long long)S->boundHits,(unsigned long long)S->unknownDrop,(unsigned long long)S->assertUnknown,(unsigned long long)S->crashed,(unsigned long long)S->dedup);
  fflush(stdout); _exit(0);
}
