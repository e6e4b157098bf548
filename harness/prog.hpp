// Generated programs (static control parts) and the options given to Pluto.
#pragma once
#include "pbt.hpp"
#include <isl/aff.h>
#include <isl/constraint.h>
#include <isl/ctx.h>
#include <isl/flow.h>
#include <isl/ilp.h>
#include <isl/map.h>
#include <isl/options.h>
#include <isl/point.h>
#include <isl/set.h>
#include <isl/space.h>
#include <isl/union_map.h>
#include <isl/union_set.h>
#include <isl/val.h>
#include <pluto/pluto.h>
#include <array>
#include <string>
#include <vector>

struct Aff {
  std::vector<int> it, par;
  int c = 0;
  std::string str(const std::vector<std::string> &p) const;
  long eval(const std::vector<long> &i, const std::vector<long> &p) const;
  bool is_const() const;
};
struct Access {
  int arr;
  std::vector<Aff> idx;
};
struct GStmt {
  int dim;
  std::vector<std::string> disj;  // disjuncts, each a conjunction of isl constraints
  std::vector<int> beta;          // dim + 1 entries
  std::vector<Access> writes, reads;
};

struct ProgOpts {  // what the generator may produce
  int max_stmts = 6, max_dim = 3, max_par = 2, max_deps = 10;
  bool nonconvex = true;    // union domains
  bool divs = false;        // strided domains
  bool permute_params = true;
  bool accesses_only = false;  // dependences always from accesses
  bool allow_rand_deps = true;
  bool big_consts = false;
  bool zero_dim = true;
  bool scalars = true;
  bool stencil = false;     // statements of one dimensionality, uniform dependences forward in the outer loop
  bool chain = false;       // many small statements with explicit dependences
  bool big = false;         // up to 4 loops, 3 parameters, long distances, many small statements
  bool split_only = false;  // always one dependence per carrying level
};

struct GProg {
  int npar = 0;
  std::vector<std::string> par;
  std::vector<std::string> ctxcons;  // constraints on the parameters
  std::vector<int> adim;
  std::vector<GStmt> st;
  int maxdim = 0;
  int depmode = 0;  // 0 all memory-based, 1 value-based, 2 explicit
  bool split = false;  // one dependence per level that carries it
  std::vector<std::string> explicit_deps;
  bool permuted = false;  // dependences written with another parameter order
  bool with_accesses = true;

  std::string domains_str() const;
  std::string schedule_str() const;
  std::string accesses_str(bool writes) const;
  std::string describe() const;
};

GProg gen_prog(pbt::Src &s, const ProgOpts &o);
ProgOpts big_prog(pbt::Src &s);

// isl objects of a program.
struct IslProg {
  isl_ctx *ctx = nullptr;
  isl_union_set *dom = nullptr;
  isl_union_map *sched = nullptr, *reads = nullptr, *writes = nullptr;
  isl_union_map *deps = nullptr;  // what is given to Pluto
  int ndeps = 0;                  // number of basic maps in deps
  ~IslProg();
};
// false when isl gave up.
bool make_isl(const GProg &p, IslProg &o);

// Restricts isl's effort; counts from now on.
struct IslLimit {
  isl_ctx *ctx;
  IslLimit(isl_ctx *c, unsigned long ops);
  ~IslLimit();
  bool hit() const;
};

struct GOpts {
  int tile = 1, intratileopt = 1, diamondtile = 0, fulldiamondtile = 0, per_cc_obj = 0, parallel = 1, innerpar = 0;
  int multipar = 0, second_level_tile = 0, fuse = kSmartFuse, identity = 0, nodepbound = 0, coeff_bound = -1;
  int solver = 0, islsolve = 1;  // solver: 1 for glpk
  int lp = 0, dfp = 0, ilp = 0, lpcolour = 0, scc_cluster = 0, delayed_cut = 0, hybridcut = 0, flic = 0;
  int lastwriter = 0, rar = 0, isldepaccesswise = 1, isldepcoalesce = 0;
  int unrolljam = 1, ufactor = 8, prevector = 1, iss = 0;
  int find_tile_sizes = 0;
  long cache_size = 1048576;
  int data_element_size = 8;
  int silent = 1, debug = 0, moredebug = 0;
  int ft = -1, lt = -1;
  std::vector<int> tile_sizes;  // written to tile.sizes when non-empty
  std::string fst, precut;
  std::string describe() const;
  void apply(PlutoContext *c) const;  // fills the options, writes the files
};
struct OptOpts {
  bool dfp = true, tile = true, files = true, tss = false;
  bool core = false;  // only the options with which Pluto never gives up
  bool diamond = true, force_dfp = false, force_diamond = false;
  bool force_tile = false, force_parallel = false, small_tiles = true;
};
GOpts gen_opts(pbt::Src &s, const OptOpts &o);

// The relation "executed strictly before" of a union of schedules with a common
// range space: { [a] -> [b] : sched(a) lex< sched(b) }.
isl_union_map *lex_lt_of(isl_union_map *sched /* keep */);

// All points of a set at fixed parameter values.
bool enumerate(isl_set *s /* take */, std::vector<std::vector<long>> &out, size_t limit);
isl_set *fix_params(isl_set *s /* take */, const std::vector<std::string> &names, const std::vector<long> &vals);
isl_map *fix_params_map(isl_map *s /* take */, const std::vector<std::string> &names, const std::vector<long> &vals);

std::string to_str(isl_union_map *m);
std::string to_str(isl_union_set *m);
std::string to_str(isl_map *m);
std::string to_str(isl_set *m);

isl_stat collect_map(isl_map *m, void *user);  // user: std::vector<isl_map*>*
isl_stat collect_set(isl_set *m, void *user);
std::vector<isl_map *> maps_of(isl_union_map *m /* keep */);
std::vector<isl_set *> sets_of(isl_union_set *m /* keep */);
