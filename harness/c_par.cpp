// C05: a loop reported as parallel carries no dependence.
#include "api.hpp"
#include <cstdlib>
#include <cstring>
#include <set>
using namespace std;
using namespace pbt;

struct ParLoop {
  int depth;
  set<int> stmts;
};
// The loops printed after the last "parallel loops" line.
static bool parse_loops(const string &out, vector<ParLoop> &v) {
  size_t at = out.rfind("parallel loops");
  if (at == string::npos) return false;
  size_t b = out.rfind('\n', at);
  string head = out.substr(b == string::npos ? 0 : b + 1, at - (b == string::npos ? 0 : b + 1));
  size_t k = head.find(']');
  int n = atoi(head.c_str() + (k == string::npos ? 0 : k + 1));
  size_t pos = out.find('\n', at);
  while (pos != string::npos) {
    size_t e = out.find('\n', pos + 1);
    string line = out.substr(pos + 1, (e == string::npos ? out.size() : e) - pos - 1);
    pos = e;
    if (line.size() < 2 || line[0] != 't' || !isdigit(line[1])) continue;
    ParLoop l;
    l.depth = atoi(line.c_str() + 1) - 1;
    for (size_t q = 0; (q = line.find('S', q)) != string::npos; q++)
      if (q + 1 < line.size() && isdigit(line[q + 1])) l.stmts.insert(atoi(line.c_str() + q + 1) - 1);
    v.push_back(l);
  }
  return (int)v.size() == n;
}

static void parallel(Src &s, Result &r, const ProgOpts &po, const OptOpts &oo) {
  GProg p = gen_prog(s, po);
  GOpts o = gen_opts(s, oo);
  o.silent = 0;
  r.desc = p.describe() + o.describe();
  if (describe_only()) return;
  IslProg ip;
  if (!make_isl(p, ip)) { r.st = INCONCLUSIVE; return; }
  if (ip.ndeps > po.max_deps) { r.st = DISCARD; return; }
  isl_union_map *m;
  string out;
  {
    CaptureStdout cap;
    m = run_transform(p, ip, o);
    fflush(stdout);
    out = cap.text();
  }
  if (!m) { r.st = TRIVIAL; r.tag("null_schedule"); return; }
  vector<ParLoop> loops;
  if (!parse_loops(out, loops)) {
    r.fail("no report", "the parallel loops are not reported\n" + out.substr(out.size() > 1500 ? out.size() - 1500 : 0));
    isl_union_map_free(m);
    return;
  }
  IslLimit lim(ip.ctx, 30000000);
  string bad;
  vector<isl_map *> deps = maps_of(ip.deps);
  for (auto &l : loops) {
    if (l.stmts.empty()) bad = "a loop around no statement is reported";
    for (int q : l.stmts)
      if (q < 0 || q >= (int)p.st.size()) bad = "a loop around an unknown statement is reported";
    for (isl_map *d : deps) {
      int a = atoi(isl_map_get_tuple_name(d, isl_dim_in) + 2), b = atoi(isl_map_get_tuple_name(d, isl_dim_out) + 2);
      if (!l.stmts.count(a) || !l.stmts.count(b)) continue;
      isl_union_map *t = isl_union_map_from_map(isl_map_copy(d));
      t = isl_union_map_apply_domain(t, isl_union_map_copy(m));
      t = isl_union_map_apply_range(t, isl_union_map_copy(m));
      for (isl_map *x : maps_of(t)) {
        int n = isl_map_dim(x, isl_dim_in);
        if (l.depth < 0 || l.depth >= n) {
          bad = "a loop that does not exist is reported";
          isl_map_free(x);
          continue;
        }
        for (int k = 0; k < l.depth; k++) x = isl_map_equate(x, isl_dim_in, k, isl_dim_out, k);
        isl_map *lt = isl_map_order_lt(isl_map_copy(x), isl_dim_in, l.depth, isl_dim_out, l.depth);
        x = isl_map_order_gt(x, isl_dim_in, l.depth, isl_dim_out, l.depth);
        x = isl_map_union(x, lt);
        if (isl_map_is_empty(x) == isl_bool_false && bad.empty())
          bad = strf("t%d is reported as parallel, but carries the dependence ", l.depth + 1) + to_str(d);
        isl_map_free(x);
      }
      isl_union_map_free(t);
    }
  }
  for (isl_map *d : deps) isl_map_free(d);
  if (lim.hit()) r.st = INCONCLUSIVE;
  else if (!bad.empty()) {
    string cls = "parallel loop carries a dependence";
    if (p.st.size() > 1 && o.diamondtile) cls += " (diamond tiling of several statements)";
    else if (p.st.size() > 1 && mixed_fusion(p, ip, o)) cls += " (statements fused at unequal depths)";
    r.fail(cls, bad + "\nschedule: " + to_str(m));
  } else if (loops.empty() || ip.ndeps == 0) r.st = TRIVIAL;
  r.tag("parallel_loops", loops.size());
  isl_union_map_free(m);
}
static Reg p1("C05", "core", 6, 40, 10, [](Src &s, Result &r) {
  ProgOpts po;
  OptOpts oo;
  oo.core = oo.force_parallel = true;
  parallel(s, r, po, oo);
});
static Reg p2("C05", "wide", 3, 40, 10, [](Src &s, Result &r) {
  ProgOpts po;
  OptOpts oo;
  oo.dfp = oo.diamond = false;
  oo.force_parallel = true;
  parallel(s, r, po, oo);
});
static Reg p3("C05", "stencil~", 4, 40, 10, [](Src &s, Result &r) {
  ProgOpts po;
  po.stencil = true;
  OptOpts oo;
  oo.dfp = false;
  oo.force_parallel = true;
  parallel(s, r, po, oo);
});
static Reg p4("C05", "chain", 2, 40, 10, [](Src &s, Result &r) {
  ProgOpts po;
  po.chain = true;
  OptOpts oo;
  oo.core = oo.force_parallel = true;
  parallel(s, r, po, oo);
});
static Reg p5("C05", "big", 2, 40, 10, [](Src &s, Result &r) {
  OptOpts oo;
  oo.core = oo.force_parallel = true;
  ProgOpts po = big_prog(s);
  parallel(s, r, po, oo);
});
