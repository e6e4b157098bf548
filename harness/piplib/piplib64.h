/* Stand-in for piplib (absent from this sandbox): the part of its interface
 * that lib/constraints.c uses, implemented with isl in standins_pip.c. */
#ifndef STANDIN_PIPLIB_H
#define STANDIN_PIPLIB_H
typedef long long Entier;
typedef struct { unsigned int NbRows, NbColumns; Entier **p; Entier *p_Init; int p_Init_size; } PipMatrix;
typedef struct { int nb_elements; Entier *the_vector; Entier *the_deno; } PipVector;
typedef struct pipnewparm { int rank; PipVector *vector; Entier deno; struct pipnewparm *next; } PipNewparm;
typedef struct piplist { PipVector *vector; struct piplist *next; } PipList;
typedef struct pipquast {
  PipNewparm *newparm;
  PipList *list;
  PipVector *condition;
  struct pipquast *next_then, *next_else, *father;
} PipQuast;
typedef struct { int Nq, Verbose, Simplify, Deepest_cut, Maximize, Urs_parms, Urs_unknowns, Compute_dual; } PipOptions;
#if defined(__cplusplus)
extern "C" {
#endif
PipOptions *pip_options_init(void);
void pip_options_free(PipOptions *);
PipMatrix *pip_matrix_alloc(unsigned, unsigned);
void pip_matrix_free(PipMatrix *);
PipQuast *pip_solve(PipMatrix *, PipMatrix *, int, PipOptions *);
void pip_quast_free(PipQuast *);
#if defined(__cplusplus)
}
#endif
#endif
