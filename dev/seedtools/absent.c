/* The symbols that the sandbox's libpluto.so lacks. */
#include <isl/aff.h>
#include <isl/map.h>
#include <isl/options.h>
#include <isl/point.h>
#include <isl/set.h>
#include <isl/space.h>
#include <isl/val.h>
#include <constraints.h>
#include <isl_support.h>
#include <stdlib.h>
int64_t *pluto_constraints_lexmin_pip(const PlutoConstraints *cst, int negvar) {
  isl_ctx *ctx = isl_ctx_alloc();
  isl_options_set_on_error(ctx, ISL_ON_ERROR_CONTINUE);
  isl_basic_set *b = isl_basic_set_from_pluto_constraints(ctx, cst);
  int64_t *sol = NULL;
  if (!negvar) b = isl_basic_set_intersect(b, isl_basic_set_positive_orthant(isl_basic_set_get_space(b)));
  if (isl_basic_set_is_empty(b) == isl_bool_false) {
    int n = isl_basic_set_dim(b, isl_dim_set);
    isl_set *l = isl_basic_set_lexmin(isl_basic_set_copy(b));
    if (!l) l = isl_set_from_basic_set(isl_basic_set_copy(b));
    isl_point *p = isl_set_sample_point(l);
    sol = (int64_t *)malloc((n + 1) * sizeof(int64_t));
    for (int i = 0; i < n; i++) {
      isl_val *v = isl_point_get_coordinate_val(p, isl_dim_set, i);
      sol[i] = isl_val_get_num_si(v);
      isl_val_free(v);
    }
    isl_point_free(p);
  }
  isl_basic_set_free(b);
  isl_ctx_free(ctx);
  return sol;
}

static isl_map *one_out_dim(isl_map *map, unsigned pos) {
  isl_map *m = isl_map_copy(map);
  int n = isl_map_dim(m, isl_dim_out);
  m = isl_map_project_out(m, isl_dim_out, pos + 1, n - pos - 1);
  m = isl_map_project_out(m, isl_dim_out, 0, pos);
  return m;
}

isl_bool isl_map_dim_is_single_valued(isl_map *map, unsigned pos) {
  isl_map *m = one_out_dim(map, pos);
  isl_bool r = isl_map_is_single_valued(m);
  isl_map_free(m);
  return r;
}

isl_pw_aff *isl_pw_aff_from_map_dim(isl_map *map, int pos) {
  isl_map *m = one_out_dim(map, pos);
  isl_pw_multi_aff *pma = isl_pw_multi_aff_from_map(m);
  isl_pw_aff *pa = isl_pw_multi_aff_get_pw_aff(pma, 0);
  isl_pw_multi_aff_free(pma);
  return pa;
}

isl_basic_map *isl_basic_map_range_factor_domain(isl_basic_map *bmap) {
  isl_map *m = isl_map_range_factor_domain(isl_map_from_basic_map(bmap));
  return isl_map_simple_hull(m);
}
