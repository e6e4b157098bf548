// C01: a schedule is returned, and it respects every dependence.
#include "api.hpp"
using namespace std;
using namespace pbt;

static void legality(Src &s, Result &r, const ProgOpts &po, const OptOpts &oo) {
  GProg p = gen_prog(s, po);
  GOpts o = gen_opts(s, oo);
  r.desc = p.describe() + o.describe();
  if (describe_only()) return;
  IslProg ip;
  if (!make_isl(p, ip)) { r.st = INCONCLUSIVE; return; }
  if (ip.ndeps > po.max_deps) { r.st = DISCARD; return; }
  isl_union_map *m = run_transform(p, ip, o);
  if (!m) {
    r.tag("null_schedule");
    if (oo.core && p.split && p.st.size() == 1) r.fail("no schedule", "no schedule was returned");
    else r.st = TRIVIAL;
    return;
  }
  bool gave_up = false;
  string bad = illegal(ip, ip.deps, m, &gave_up);
  if (!bad.empty()) {
    // the known ways of failing have classes of their own (known_findings.json)
    string cls = "illegal schedule";
    if (p.st.size() > 1 && o.diamondtile) cls += " of several statements with diamond tiling";
    else if (p.st.size() > 1 && o.dfp) cls += " of several statements in the DFP framework";
    else if ((o.tile || o.parallel || o.intratileopt) && mixed_fusion(p, ip, o)) cls += " of statements fused at unequal depths";
    r.fail(cls, bad + "\nschedule: " + to_str(m));
  }
  else if (gave_up) r.st = INCONCLUSIVE;
  else if (ip.ndeps == 0) r.st = TRIVIAL;
  r.tag("deps", ip.ndeps);
  isl_union_map_free(m);
}

static Reg l1("C01", "core", 10, 40, 10, [](Src &s, Result &r) {
  ProgOpts po;
  OptOpts oo;
  oo.core = true;
  legality(s, r, po, oo);
});
static Reg l2("C01", "wide", 6, 40, 10, [](Src &s, Result &r) {
  ProgOpts po;
  OptOpts oo;
  oo.dfp = oo.diamond = false;
  legality(s, r, po, oo);
});
static Reg l3("C01", "diamond~", 3, 40, 10, [](Src &s, Result &r) {
  ProgOpts po;
  po.stencil = true;
  OptOpts oo;
  oo.dfp = false;
  oo.force_tile = oo.force_diamond = true;
  legality(s, r, po, oo);
});
static Reg l4("C01", "dfp~", 4, 40, 10, [](Src &s, Result &r) {
  ProgOpts po;
  po.split_only = true;
  OptOpts oo;
  oo.diamond = false;
  oo.force_dfp = true;
  legality(s, r, po, oo);
});
static Reg l5("C01", "chain", 5, 40, 10, [](Src &s, Result &r) {
  ProgOpts po;
  po.chain = true;
  OptOpts oo;
  oo.core = true;
  legality(s, r, po, oo);
});
static Reg l6("C01", "big", 3, 40, 10, [](Src &s, Result &r) {
  OptOpts oo;
  oo.core = true;
  ProgOpts po = big_prog(s);
  legality(s, r, po, oo);
});
