/* Definitions for the symbols libpluto leaves undefined in this sandbox: three
 * functions of Pluto's own isl fork and the piplib-based lexmin. They are
 * written with the public isl API, so that the code that calls them (access
 * extraction, ISS, the wrapped-range dependence extraction) can be driven. */
#include <assert.h>
#include <stdlib.h>
#include <isl/aff.h>
#include <isl/map.h>
#include <isl/set.h>
#include <isl/space.h>
#include <isl/options.h>

static isl_map *one_out_dim(isl_map *map, unsigned pos) {
  isl_map *m = isl_map_copy(map);
  int n = isl_map_dim(m, isl_dim_out);
  m = isl_map_project_out(m, isl_dim_out, pos + 1, n - pos - 1);
  m = isl_map_project_out(m, isl_dim_out, 0, pos);
  return m;
}

isl_bool isl_map_dim_is_single_valued(isl_map *map, unsigned pos) {
  isl_map *m = one_out_dim(map, pos);
  isl_bool r = isl_map_is_single_valued(m);
  isl_map_free(m);
  return r;
}

isl_pw_aff *isl_pw_aff_from_map_dim(isl_map *map, int pos) {
  isl_map *m = one_out_dim(map, pos);
  isl_pw_multi_aff *pma = isl_pw_multi_aff_from_map(m);
  isl_pw_aff *pa = isl_pw_multi_aff_get_pw_aff(pma, 0);
  isl_pw_multi_aff_free(pma);
  return pa;
}

isl_basic_map *isl_basic_map_range_factor_domain(isl_basic_map *bmap) {
  isl_map *m = isl_map_range_factor_domain(isl_map_from_basic_map(bmap));
  return isl_map_simple_hull(m);
}
