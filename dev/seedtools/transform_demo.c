/* transform_demo FILE: runs pluto_transform on the program in FILE and checks,
 * with isl, that the returned schedule is single-valued, injective on every
 * statement and respects every dependence.
 * FILE: lines "key value"; keys: domain, deps, reads, writes and names of int options. */
#include <isl/aff.h>
#include <isl/map.h>
#include <isl/options.h>
#include <isl/set.h>
#include <isl/space.h>
#include <isl/union_map.h>
#include <isl/union_set.h>
#include <pluto/pluto.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static int bad;
static isl_union_map *sched;
static isl_stat check(isl_map *m, void *u) {
  isl_map *ge = isl_map_lex_ge(isl_space_domain(isl_map_get_space(m)));
  m = isl_map_intersect(m, ge);
  if (!isl_map_is_empty(m)) bad = 1;
  isl_map_free(m);
  return isl_stat_ok;
}
static isl_stat inj(isl_map *m, void *u) {
  if (!isl_map_is_injective(m)) { printf("not injective\n"); bad = 1; }
  isl_map_free(m);
  return isl_stat_ok;
}
int main(int argc, char **argv) {
  isl_ctx *ctx = isl_ctx_alloc();
  PlutoContext *c = pluto_context_alloc();
  PlutoOptions *o = c->options;
  o->isldepaccesswise = 0;
  o->silent = getenv("SHOW") == NULL;
  o->islsolve = 1;
  o->tile = o->parallel = o->intratileopt = o->diamondtile = 0;
  isl_union_set *dom = NULL;
  isl_union_map *deps = NULL, *reads = NULL, *writes = NULL;
  static char line[100000];
  FILE *f = fopen(argv[1], "r");
  if (!f) return 2;
  while (fgets(line, sizeof line, f)) {
    char *v = strchr(line, ' ');
    if (!v) continue;
    *v++ = 0;
    v[strcspn(v, "\n")] = 0;
    if (!strcmp(line, "domain")) dom = isl_union_set_read_from_str(ctx, v);
    else if (!strcmp(line, "deps")) deps = isl_union_map_read_from_str(ctx, v);
    else if (!strcmp(line, "reads")) reads = isl_union_map_read_from_str(ctx, v);
    else if (!strcmp(line, "writes")) writes = isl_union_map_read_from_str(ctx, v);
#define OPT(n) else if (!strcmp(line, #n)) o->n = atoi(v);
    OPT(tile) OPT(parallel) OPT(intratileopt) OPT(diamondtile) OPT(fulldiamondtile) OPT(second_level_tile) OPT(innerpar)
    OPT(multipar) OPT(identity) OPT(rar) OPT(flic) OPT(islsolve) OPT(per_cc_obj) OPT(nodepbound) OPT(coeff_bound) OPT(lastwriter)
    OPT(prevector) OPT(glpk) OPT(lp) OPT(dfp) OPT(ilp) OPT(find_tile_sizes)
    else if (!strcmp(line, "fuse"))
      o->fuse = !strcmp(v, "no") ? kNoFuse : !strcmp(v, "max") ? kMaximalFuse : kSmartFuse;
    else { fprintf(stderr, "unknown key %s\n", line); return 2; }
  }
  fclose(f);
  deps = isl_union_map_intersect_domain(deps, isl_union_set_copy(dom));
  deps = isl_union_map_intersect_range(deps, isl_union_set_copy(dom));
  sched = pluto_transform(isl_union_set_copy(dom), isl_union_map_copy(deps), reads, writes, c);
  if (!sched) { printf("no schedule\n"); return 3; }
  sched = isl_union_map_intersect_domain(sched, isl_union_set_copy(dom));
  if (getenv("SHOW")) isl_union_map_dump(sched);
  isl_union_set *ud = isl_union_map_domain(isl_union_map_copy(sched));
  if (!isl_union_set_is_equal(ud, dom)) { printf("not total\n"); bad = 1; }
  if (!isl_union_map_is_single_valued(sched)) { printf("not single-valued\n"); bad = 1; }
  isl_union_map_foreach_map(sched, &inj, NULL);
  int other = bad;
  bad = 0;
  isl_union_map *t = isl_union_map_apply_domain(isl_union_map_copy(deps), isl_union_map_copy(sched));
  t = isl_union_map_apply_range(t, isl_union_map_copy(sched));
  isl_union_map_foreach_map(t, &check, NULL);
  if (bad) printf("a dependence is not respected\n");
  return bad || other;
}
