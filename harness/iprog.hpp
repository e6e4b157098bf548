// Programs in Pluto's own representation with arbitrary transformations, and a
// model of them in plain rows.
#pragma once
#include "prog.hpp"
#include <functional>
#include <pluto/matrix.h>
#include "constraints.h"
#include "math_support.h"
#include "ddg.h"
#include "pluto.h"
#include "program.h"

typedef std::vector<long> Vec;
struct MRow {
  Vec c;  // variables, then the constant
  bool eq = false;
};
typedef std::vector<MRow> Rows;
struct IStmt {
  int dim = 0;
  Rows dom;            // over iterators, parameters
  std::vector<Vec> T;  // one row per level, over iterators, parameters, 1
  std::vector<std::pair<std::string, std::vector<Vec>>> reads, writes;
};
struct IDep {
  int src = 0, dest = 0;
  Rows rows;  // over source iterators, target iterators, parameters
  PlutoDepType type = PLUTO_DEP_RAW;
};
struct IProg {
  int npar = 0, nlev = 0;
  std::vector<IStmt> st;
  std::vector<IDep> dep;
  std::string describe() const;
};
struct IOpts {
  int max_stmts = 3, max_dim = 3, max_par = 2, max_deps = 4, max_extra = 2;
  int min_deps = 0;
  bool full_rank = true;    // every statement's transformation has full column rank
  bool unimodular = false;  // loops are unit rows and scalars only
  bool legal = false;       // every dependence goes forward lexicographically
  bool accesses = false;
  bool accept_mixed = true;  // a level may be a loop for some statements and constant for others
  bool deps = true;
  bool outer_first = false;  // a statement's loops are the outermost levels that are not constant
};
IProg gen_iprog(pbt::Src &s, const IOpts &o);
PlutoProg *build_iprog(const IProg &p, PlutoContext *c);

std::string rows_str(const Rows &r);
isl_basic_set *rows_set(isl_ctx *ctx, const Rows &r, int nvars);
bool rows_empty(isl_ctx *ctx, const Rows &r, int nvars);
// The distance of a dependence at a level, over the dependence's variables.
MRow distance(const IProg &p, const IDep &d, int level);
MRow addc(MRow r, long k);  // adds k to the constant
MRow neg(MRow r);
Rows with(const Rows &a, const MRow &r);
Rows model_rows(const PlutoConstraints *c);  // of one element
