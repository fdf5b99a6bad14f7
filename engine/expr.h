// Bit-vector expression DAG: hash-consed, simplifying, with known-bits analysis and concrete evaluation.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <vector>
#include <unordered_map>
#include <string>
#include <algorithm>
#include <deque>
typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint8_t u8;
typedef unsigned __int128 u128;

enum Op : u8 { CONST, SYM, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
  EQ, ULT, ULE, SLT, SLE, NOT /*bitwise*/, ITE, EXTRACT, CONCAT, ZEXT, SEXT,
  FADD, FSUB, FMUL, FDIV, FREM, FLT, FLE, FEQ /* ordered */, FUNO, FNEG, FABS, FSQRT, FFLOOR, FCEIL, FRINT, FTRUNCI,
  FPTOSI, FPTOUI, SITOFP, UITOFP, FPEXT, FPTRUNC };

struct Expr { Op op; u8 w; u32 id; u64 val; Expr *a,*b,*c; u64 kz, ko, lo, hi; bool fp, dv; std::vector<u64>* sup; };

static inline u64 mask(unsigned w){ return w>=64?~0ull:((1ull<<w)-1); }
static inline i64 sext64(u64 v,unsigned w){ return w>=64?(i64)v:((i64)(v<<(64-w))>>(64-w)); }

struct EKey { Op op; u8 w; u64 val; Expr*a,*b,*c; bool operator==(const EKey&o)const{return op==o.op&&w==o.w&&val==o.val&&a==o.a&&b==o.b&&c==o.c;} };
struct EHash { size_t operator()(const EKey&k)const{ u64 h=k.op*0x9E3779B97F4A7C15ull+k.w; auto mx=[&](u64 x){h^=x+0x9E3779B97F4A7C15ull+(h<<6)+(h>>2);h*=0xff51afd7ed558ccdull;h^=h>>32;}; mx(k.val);mx((u64)k.a);mx((u64)k.b);mx((u64)k.c);return h; } };

Expr* mk(Op op,u8 w,u64 val=0,Expr*a=nullptr,Expr*b=nullptr,Expr*c=nullptr);
Expr* mkConst(u64 v,u8 w);
Expr* mkSym(u32 ord,u8 w,u64 max=~0ull);
Expr* mkBin(Op op,Expr*a,Expr*b);       // arithmetic/logic
Expr* mkCmp(Op op,Expr*a,Expr*b);       // -> width 1
Expr* mkNot(Expr*a);
Expr* mkIte(Expr*c,Expr*a,Expr*b);
Expr* mkExtract(Expr*a,unsigned lo,unsigned w);
Expr* mkConcat(Expr*hi,Expr*lo);
Expr* mkZext(Expr*a,unsigned w);
Expr* mkSext(Expr*a,unsigned w);
Expr* mkF(Op op,u8 w,Expr*a,Expr*b=nullptr);
u64 evalOp(Op op,u8 w,u8 aw,u64 a,u64 b,u64 c,u64 val,u8 bw=0);
u64 evalExpr(Expr*e,const std::vector<u64>&model);
const std::vector<u64>& support(Expr*e);
Expr* substFixed(Expr*e,const std::vector<u8>&fixed,const std::vector<u64>&model);
extern size_t nExprs;
