// Configured message filters: generation, and their model after doc/filter.txt.
#pragma once
#include "world.hpp"

struct FExpr { enum Op { LEAF, NOT, AND, OR } op = LEAF; str var, oper, data; std::vector<FExpr> sub; };
struct FCmd { str cmd, arg, pat; int rc = 0; };
struct FFilter { FExpr e; std::vector<FCmd> cmds; };
struct FExec { str cmd; str file; int kind = 0; MM m; };
struct Filters {
  World &w; std::vector<FFilter> f; std::vector<FExec> expect, got; std::vector<str> logExpect; size_t logSeen = 0; int matches = 0, misses = 0;
  Filters(World &w) : w(w) {}
  void gen(const str &source);                     // fills cfg.filters, adds local areas; source: TOSSED or EXPORTED
  void attach(Model &m);
  bool eval(const FExpr &e, const MM &m, Model &md);
  void apply(Model &md, MM &m);
  void check(const str &tags);                     // external commands and log lines so far
  void checkFaulted(const Filters &loose, const std::set<str> &excused, const std::set<str> &skip);   // at least once each, always with the complete message
  str fileDiff(const FExec &e, const FExec &g);
private:
  FExpr leaf(bool net, bool echo); FExpr expr(int depth, bool net, bool echo); str render(const FExpr &e, bool nested);
};
