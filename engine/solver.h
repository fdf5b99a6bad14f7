#pragma once
#include "expr.h"
#include <z3.h>
enum Res { UNSAT=0, SAT=1, UNKNOWN=2 };
struct Solver {
  Z3_context ctx=nullptr; std::vector<Z3_ast> cache; size_t ncached=0;
  u64 queries=0, memoHits=0, unknowns=0, satc=0, unsatc=0; double secs=0; unsigned timeoutMs=20000;
  struct Memo{Res r; std::vector<std::pair<u32,u64>> m;};
  std::unordered_map<std::string,Memo> memo;
  std::unordered_map<Expr*,std::pair<Z3_ast,Z3_ast>> dvq; std::unordered_map<Expr*,std::vector<Z3_ast>> dvside; // quotient/remainder by constants as fresh unknowns
  Z3_ast divq(Expr*e,bool rem);
  void reset();
  Z3_ast tr(Expr*e);
  // is (/\ cs) /\ extra satisfiable?  On SAT, model entries (for symbols in the slice) are written over `model`.
  Res check(const std::vector<Expr*>&cs,Expr*extra,std::vector<u64>&model);
};
