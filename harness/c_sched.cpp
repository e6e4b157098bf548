// C02: the schedule maps every instance to exactly one time of its own.
// C03: pluto_schedule keeps the meaning of the program.
#include "api.hpp"
#include "interp.hpp"
using namespace std;
using namespace pbt;

static void mapping(Src &s, Result &r, const ProgOpts &po, const OptOpts &oo) {
  GProg p = gen_prog(s, po);
  GOpts o = gen_opts(s, oo);
  r.desc = p.describe() + o.describe();
  if (describe_only()) return;
  IslProg ip;
  if (!make_isl(p, ip)) { r.st = INCONCLUSIVE; return; }
  if (ip.ndeps > po.max_deps) { r.st = DISCARD; return; }
  PlutoContext *c = pluto_context_alloc();
  o.apply(c);
  bool acc = p.with_accesses;
  isl_union_map *raw =
      pluto_transform(isl_union_set_copy(ip.dom), isl_union_map_copy(ip.deps), acc ? isl_union_map_copy(ip.reads) : NULL,
                      acc ? isl_union_map_copy(ip.writes) : NULL, c);
  pluto_context_free(c);
  if (!raw) { r.st = TRIVIAL; r.tag("null_schedule"); return; }
  isl_union_map *m = isl_union_map_intersect_domain(isl_union_map_copy(raw), isl_union_set_copy(ip.dom));
  IslLimit lim(ip.ctx, 20000000);
  isl_union_set *d = isl_union_map_domain(isl_union_map_copy(m));
  isl_bool total = isl_union_set_is_equal(d, ip.dom);
  isl_bool single = isl_union_map_is_single_valued(m);
  string text = "\nschedule: " + to_str(m);
  if (total == isl_bool_false) r.fail("not total", "some instances get no time" + text);
  if (single == isl_bool_false) r.fail("several times", "some instances get several times" + text);
  vector<isl_map *> ms = maps_of(m);
  if (ms.size() != p.st.size()) r.fail("missing statement", "not one schedule per statement" + text);
  int nout = -1;
  for (isl_map *x : ms) {
    int n = isl_map_dim(x, isl_dim_out);
    if (nout >= 0 && n != nout) r.fail("unequal dimensionality", "the times of the statements have unequal lengths" + text);
    nout = n;
    if (isl_map_is_injective(x) == isl_bool_false)
      r.fail("not injective", "two instances of one statement get the same time" + text);
    isl_map_free(x);
  }
  // the domains and parameters must come back under the caller's names
  isl_union_set *rd = isl_union_map_domain(isl_union_map_copy(raw));
  for (isl_set *x : sets_of(rd)) {
    const char *nm = isl_set_get_tuple_name(x);
    int id = nm && !strncmp(nm, "S_", 2) ? atoi(nm + 2) : -1;
    if (id < 0 || id >= (int)p.st.size() || (int)isl_set_dim(x, isl_dim_set) != p.st[id].dim)
      r.fail("unknown statement", "the schedule is for something else than the given statements: " + to_str(x));
    for (int i = 0; i < (int)isl_set_dim(x, isl_dim_param); i++) {
      const char *q = isl_set_get_dim_name(x, isl_dim_param, i);
      bool found = false;
      for (auto &n : p.par) found |= q && n == q;
      if (!found) r.fail("unknown parameter", strf("parameter %s was not given", q ? q : "(null)"));
    }
    isl_set_free(x);
  }
  isl_union_set_free(rd);
  bool hit = lim.hit() || total == isl_bool_error || single == isl_bool_error;
  if (!r.failed() && hit) r.st = INCONCLUSIVE;
  r.tag("time_dimensions", nout);
  isl_union_set_free(d);
  isl_union_map_free(m);
  isl_union_map_free(raw);
}
static Reg m1("C02", "core", 6, 40, 10, [](Src &s, Result &r) {
  ProgOpts po;
  po.divs = false;
  OptOpts oo;
  oo.core = true;
  mapping(s, r, po, oo);
});
static Reg m2("C02", "wide", 4, 40, 10, [](Src &s, Result &r) {
  ProgOpts po;
  OptOpts oo;
  oo.dfp = oo.diamond = false;
  mapping(s, r, po, oo);
});
static Reg m3("C02", "chain", 2, 40, 10, [](Src &s, Result &r) {
  ProgOpts po;
  po.chain = true;
  OptOpts oo;
  oo.core = true;
  mapping(s, r, po, oo);
});
static Reg m4("C02", "stencil~", 2, 40, 10, [](Src &s, Result &r) {
  ProgOpts po;
  po.stencil = true;
  OptOpts oo;
  oo.dfp = false;
  mapping(s, r, po, oo);
});

static Reg m5("C02", "big", 2, 40, 10, [](Src &s, Result &r) {
  OptOpts oo;
  oo.core = true;
  ProgOpts po = big_prog(s);
  mapping(s, r, po, oo);
});

static void meaning(Src &s, Result &r, const ProgOpts &po, const OptOpts &oo) {
  GProg p = gen_prog(s, po);
  GOpts o = gen_opts(s, oo);
  o.isldepcoalesce = s.chance(1, 3);
  vector<long> pv = gen_params(s, p, 3, 7);
  r.desc = p.describe() + o.describe();
  if (o.isldepcoalesce) r.desc += " isldepcoalesce=1";
  for (int i = 0; i < p.npar; i++) r.desc += strf(" %s=%ld", p.par[i].c_str(), pv[i]);
  if (describe_only()) return;
  IslProg ip;
  if (!make_isl(p, ip)) { r.st = INCONCLUSIVE; return; }
  if (ip.ndeps > po.max_deps) { r.st = DISCARD; return; }
  vector<Instance> before, after;
  string why;
  if (!instances(p, ip.sched, pv, 3000, before, &why)) { r.st = DISCARD; return; }
  isl_union_map *m = run_schedule(p, ip, o);
  if (!m) { r.st = TRIVIAL; r.tag("null_schedule"); return; }
  IslLimit lim(ip.ctx, 20000000);
  if (!instances(p, m, pv, 3000, after, &why)) {
    if (!why.empty()) r.fail("unknown statement", why);
    else if (after.size() > before.size() && !lim.hit()) r.fail("several times", "more times than instances\nschedule: " + to_str(m));
    else r.st = INCONCLUSIVE;
    isl_union_map_free(m);
    return;
  }
  string text = "\nschedule: " + to_str(m);
  isl_union_map_free(m);
  if (after.size() != before.size()) {
    r.fail("other instances", strf("%zu instances are executed, not %zu", after.size(), before.size()) + text);
    return;
  }
  Trace a, b, c;
  execute(p, before, pv, 0, a);
  execute(p, after, pv, 0, b);
  execute(p, after, pv, 1, c);
  string d = diff(a, b);
  if (d.empty()) d = diff(a, c);
  if (!d.empty()) {
    string cls = "other meaning";
    if (p.st.size() > 1 && o.diamondtile) cls += " of several statements with diamond tiling";
    else if (p.st.size() > 1 && (o.tile || o.parallel || o.intratileopt) && mixed_fusion_schedule(p, ip, o))
      cls += " of statements fused at unequal depths";
    r.fail(cls, d + text);
    return;
  }
  bool dep = ip.ndeps > 0;
  if (before.size() < 3 || !dep) r.st = TRIVIAL;
  r.tag("instances", before.size());
}
static Reg e1("C03", "core", 6, 40, 10, [](Src &s, Result &r) {
  ProgOpts po;
  po.max_stmts = 3;
  po.accesses_only = true;
  po.permute_params = false;
  OptOpts oo;
  oo.core = true;
  meaning(s, r, po, oo);
});
static Reg e2("C03", "strided", 3, 40, 10, [](Src &s, Result &r) {
  ProgOpts po;
  po.max_stmts = 3;
  po.accesses_only = true;
  po.permute_params = false;
  po.divs = true;
  OptOpts oo;
  oo.core = true;
  meaning(s, r, po, oo);
});
static Reg e3("C03", "stencil~", 3, 40, 10, [](Src &s, Result &r) {
  ProgOpts po;
  po.max_stmts = 3;
  po.accesses_only = true;
  po.permute_params = false;
  po.stencil = true;
  OptOpts oo;
  oo.dfp = false;
  meaning(s, r, po, oo);
});
static Reg e4("C03", "big", 2, 40, 10, [](Src &s, Result &r) {
  ProgOpts po = big_prog(s);
  po.chain = false;
  po.accesses_only = true;
  po.permute_params = false;
  OptOpts oo;
  oo.core = true;
  meaning(s, r, po, oo);
});
