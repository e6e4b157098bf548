/* Stand-in for piplib (absent from this sandbox), without parameters: an empty
 * list when there is no integer point; otherwise the lexicographic minimum when
 * it exists, and some point where a variable is unbounded below (piplib's big
 * parameter gives such a point as well). */
#include "piplib/piplib64.h"
#include <isl/constraint.h>
#include <isl/ctx.h>
#include <isl/options.h>
#include <isl/point.h>
#include <isl/set.h>
#include <isl/space.h>
#include <isl/val.h>
#include <stdlib.h>
PipOptions *pip_options_init(void) { return (PipOptions *)calloc(1, sizeof(PipOptions)); }
void pip_options_free(PipOptions *o) { free(o); }
PipMatrix *pip_matrix_alloc(unsigned r, unsigned c) {
  PipMatrix *m = (PipMatrix *)calloc(1, sizeof(PipMatrix));
  m->NbRows = r;
  m->NbColumns = c;
  m->p_Init = (Entier *)calloc((size_t)r * c + 1, sizeof(Entier));
  m->p = (Entier **)calloc(r + 1, sizeof(Entier *));
  for (unsigned i = 0; i < r; i++) m->p[i] = m->p_Init + (size_t)i * c;
  return m;
}
void pip_matrix_free(PipMatrix *m) {
  free(m->p_Init);
  free(m->p);
  free(m);
}
PipQuast *pip_solve(PipMatrix *m, PipMatrix *context, int bignum, PipOptions *o) {
  isl_ctx *ctx = isl_ctx_alloc();
  isl_options_set_on_error(ctx, ISL_ON_ERROR_CONTINUE);
  int n = m->NbColumns - 2;
  isl_space *sp = isl_space_set_alloc(ctx, 0, n);
  isl_basic_set *b = isl_basic_set_universe(isl_space_copy(sp));
  isl_local_space *ls = isl_local_space_from_space(isl_space_copy(sp));
  for (unsigned r = 0; r < m->NbRows; r++) {
    isl_constraint *c = m->p[r][0] ? isl_constraint_alloc_inequality(isl_local_space_copy(ls))
                                   : isl_constraint_alloc_equality(isl_local_space_copy(ls));
    for (int i = 0; i < n; i++)
      c = isl_constraint_set_coefficient_val(c, isl_dim_set, i, isl_val_int_from_si(ctx, m->p[r][i + 1]));
    c = isl_constraint_set_constant_val(c, isl_val_int_from_si(ctx, m->p[r][n + 1]));
    b = isl_basic_set_add_constraint(b, c);
  }
  if (!o->Urs_unknowns) b = isl_basic_set_intersect(b, isl_basic_set_positive_orthant(isl_space_copy(sp)));
  PipQuast *q = (PipQuast *)calloc(1, sizeof(PipQuast));
  if (isl_basic_set_is_empty(b) == isl_bool_false) {
    isl_set *l = isl_basic_set_lexmin(isl_basic_set_copy(b));
    if (!l) l = isl_set_from_basic_set(isl_basic_set_copy(b));
    isl_point *p = isl_set_sample_point(l);
    PipList **at = &q->list;
    for (int i = 0; i < n; i++) {
      isl_val *v = isl_point_get_coordinate_val(p, isl_dim_set, i);
      *at = (PipList *)calloc(1, sizeof(PipList));
      (*at)->vector = (PipVector *)calloc(1, sizeof(PipVector));
      (*at)->vector->nb_elements = 1;
      (*at)->vector->the_vector = (Entier *)calloc(1, sizeof(Entier));
      (*at)->vector->the_deno = (Entier *)calloc(1, sizeof(Entier));
      (*at)->vector->the_vector[0] = isl_val_get_num_si(v);
      (*at)->vector->the_deno[0] = 1;
      isl_val_free(v);
      at = &(*at)->next;
    }
    isl_point_free(p);
  }
  isl_local_space_free(ls);
  isl_space_free(sp);
  isl_basic_set_free(b);
  isl_ctx_free(ctx);
  return q;
}
void pip_quast_free(PipQuast *q) {
  PipList *l = q->list;
  while (l) {
    PipList *n = l->next;
    free(l->vector->the_vector);
    free(l->vector->the_deno);
    free(l->vector);
    free(l);
    l = n;
  }
  free(q);
}
