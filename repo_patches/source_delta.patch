From f856de7ad65d408d558549b862e4a781f1bd3bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:41:39 +0000
Subject: [PATCH 01/46] fix: crash on a statement without iterators in a
 program with parameters

extract_stmt wrote the parameter names into domain->names, which is only
allocated when the statement has at least one iterator.
---
 lib/plutolib.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/plutolib.c b/lib/plutolib.c
index db5221c..74ddf1f 100644
--- a/lib/plutolib.c
+++ b/lib/plutolib.c
@@ -178,7 +178,9 @@ static isl_stat extract_stmt(__isl_take isl_set *set, void *user) {
   for (int i = 0; i < npar; i++) {
     char *param = (char *)malloc(13);
     sprintf(param, "p%d", i);
-    stmt->domain->names[stmt->dim + i] = param;
+    pluto_constraints_set_names_range(stmt->domain, &param, stmt->dim + i, 0,
+                                      1);
+    free(param);
   }
 
   pluto_matrix_free(trans);
-- 
2.43.0


From 8474815085cd796de9f8fefaeb6af77ff245bf38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:40 +0000
Subject: [PATCH 02/46] fix: crash of the DFP framework with GLPK and --ilp

The scaling matrices exist only when LP relaxation is on (options->lp), as in
the Gurobi plugin; with an integer formulation they are NULL.
---
 lib/constraints.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/constraints.c b/lib/constraints.c
index bb8a334..dd578a7 100644
--- a/lib/constraints.c
+++ b/lib/constraints.c
@@ -1365,7 +1365,7 @@ int64_t *pluto_prog_constraints_lexmin_glpk(const PlutoConstraints *cst,
     return NULL;
   }
 
-  if (options->lp || options->dfp) {
+  if (options->lp) {
 
     fpsol = get_lp_solution_from_glpk_problem(lp);
     num_sols = glp_get_num_cols(lp);
-- 
2.43.0


From 0d52afc72e345562eb1f52cf2ce862c038dcacc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:38 +0000
Subject: [PATCH 03/46] fix: assertion failure on a union domain in a program
 with parameters

normalize_domains gathered the parameter context of every statement with
pluto_constraints_add, which accepts a single basic set.
---
 lib/pluto.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/pluto.c b/lib/pluto.c
index 7ccd33f..7e5b659 100644
--- a/lib/pluto.c
+++ b/lib/pluto.c
@@ -1163,6 +1163,9 @@ void normalize_domains(PlutoProg *prog) {
         pluto_constraints_alloc(prog->nstmts * npar, npar + 1, prog->context);
     pluto_constraints_set_names(param_context, prog->params);
     for (i = 0; i < prog->nstmts; i++) {
+      /* The context is a conjunction; a union of domains provides none */
+      if (prog->stmts[i]->domain->next != NULL)
+        continue;
       PlutoConstraints *copy = pluto_constraints_dup(prog->stmts[i]->domain);
       for (unsigned j = 0; j < prog->stmts[i]->dim_orig; j++) {
         fourier_motzkin_eliminate(copy, 0);
-- 
2.43.0


From 5a483a48e70c0dc4b96db7465dfd327aaffb4daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:28 +0000
Subject: [PATCH 04/46] fix: double free of the dependence distance matrix in
 the DFP framework

It is allocated only with lpcolour and clustering, but was freed with
lpcolour alone: a second call in the same process freed the first one's.
---
 lib/framework-dfp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/framework-dfp.c b/lib/framework-dfp.c
index 0a0d528..d14404b 100644
--- a/lib/framework-dfp.c
+++ b/lib/framework-dfp.c
@@ -2436,7 +2436,7 @@ int *rebuild_scc_cluster_fcg(PlutoProg *prog, int *colour, int c) {
   if (options->fuse == kTypedFuse) {
     pluto_matrix_free(par_preventing_adj_mat);
   }
-  if (options->lpcolour) {
+  if (options->lpcolour && options->scc_cluster) {
     pluto_matrix_free(dep_dist_mat);
   }
   prog->fcg = build_fusion_conflict_graph(prog, scc_colour, nvertices, c);
@@ -2846,7 +2846,7 @@ void find_permutable_dimensions_scc_based(int *colour, PlutoProg *prog) {
   if (options->fuse == kTypedFuse) {
     pluto_matrix_free(par_preventing_adj_mat);
   }
-  if (options->lpcolour) {
+  if (options->lpcolour && options->scc_cluster) {
     pluto_matrix_free(dep_dist_mat);
   }
   for (int i = 0; i < prog->ddg->num_sccs; i++) {
-- 
2.43.0


From bb460cadc88e03203a98842c9df6121f5d0bea11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:16 +0000
Subject: [PATCH 05/46] fix: illegal tiling of a band when a dependence is only
 partially satisfied

A dependence that no single hyperplane satisfies completely keeps
satisfied = false and satisfaction_level = -1, and was ignored when a
permutable band was looked for: loops along which it has a negative
component were tiled together.
---
 lib/polyloop.c | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/lib/polyloop.c b/lib/polyloop.c
index bdb8da7..11c7714 100644
--- a/lib/polyloop.c
+++ b/lib/polyloop.c
@@ -784,15 +784,15 @@ Band *pluto_get_permutable_band(Ploop *loop, const PlutoProg *prog) {
         continue;
       assert(dep->satvec != NULL);
       /* Dependences satisfied outer to the band don't matter */
-      if (dep->satisfaction_level < loop->depth)
-        continue;
-      /* Dependences not satisfied yet don't matter */
-      if (!dep->satisfied)
+      if (dep->satisfied && dep->satisfaction_level < loop->depth)
         continue;
       /* Dependences satisfied in previous scalar dimensions in the band
        * don't count as well (i.e., they can have negative components) */
-      if (pluto_is_depth_scalar(loop, dep->satisfaction_level))
+      if (dep->satisfied &&
+          pluto_is_depth_scalar(loop, dep->satisfaction_level))
         continue;
+      /* A dependence that no single level satisfies completely is satisfied
+       * by several levels together and matters at each of them */
       /* Rest of the dependences need to have non-negative components */
       if (pluto_stmt_is_member_of(prog->stmts[dep->src]->id, loop->stmts,
                                   loop->nstmts) &&
@@ -808,16 +808,12 @@ Band *pluto_get_permutable_band(Ploop *loop, const PlutoProg *prog) {
   } while (depth < prog->num_hyperplanes);
 
   /* Peel off scalar dimensions from the end */
-  while (pluto_is_depth_scalar(loop, depth - 1))
+  while (depth > loop->depth && pluto_is_depth_scalar(loop, depth - 1))
     depth--;
 
-  /* depth will always be at least loop->depth + 1 at this stage */
-
   int width = depth - loop->depth;
 
-  assert(width >= 1);
-
-  if (width == 1) {
+  if (width <= 1) {
     /* Trivial (single loop in band) */
     return NULL;
   } else {
-- 
2.43.0


From e0a2c5358dd529be7efcabd08d7c7276fc60a47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:50 +0000
Subject: [PATCH 06/46] fix: illegal wavefront across a scalar dimension of a
 band

A dependence satisfied at a scalar dimension in the middle of a permutable
band may have a negative component at a loop below it; adding that loop to
the wavefront made the dependence go backward.
---
 lib/tile.c | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/lib/tile.c b/lib/tile.c
index 9939b8a..fa21e62 100644
--- a/lib/tile.c
+++ b/lib/tile.c
@@ -401,10 +401,27 @@ bool pluto_create_tile_schedule_band(PlutoProg *prog, Band *band) {
       if (pluto_is_hyperplane_scalar(band->loop->stmts[j], depth))
         break;
     }
-    if (j == band->loop->nstmts) {
-      /* All of them are loops */
-      loop_depths[nloops++] = depth;
+    if (j < band->loop->nstmts)
+      continue;
+    /* All of them are loops. A dependence satisfied at a scalar dimension in
+     * the middle of the band can have a negative component here; such a loop
+     * can't be a part of the wavefront */
+    int i;
+    for (i = 0; i < prog->ndeps; i++) {
+      Dep *dep = prog->deps[i];
+      if (IS_RAR(dep->type))
+        continue;
+      if (dep->satisfied && dep->satisfaction_level < band->loop->depth)
+        continue;
+      if (pluto_stmt_is_member_of(prog->stmts[dep->src]->id, band->loop->stmts,
+                                  band->loop->nstmts) &&
+          pluto_stmt_is_member_of(prog->stmts[dep->dest]->id,
+                                  band->loop->stmts, band->loop->nstmts) &&
+          (dep->dirvec[depth] == DEP_MINUS || dep->dirvec[depth] == DEP_STAR))
+        break;
     }
+    if (i == prog->ndeps)
+      loop_depths[nloops++] = depth;
   }
 
   if (nloops <= 1) {
-- 
2.43.0


From f8cdcbd6562de8af715b7e164839c16f4ace29c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:01 +0000
Subject: [PATCH 07/46] fix: heap overflow and illegal schedules with
 --per-cc-obj

The constraint matrix is kept between levels, but it gets wider when a cut
creates more connected components; it was not reallocated.
---
 lib/framework.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/framework.cpp b/lib/framework.cpp
index 29467df..ab8d06f 100644
--- a/lib/framework.cpp
+++ b/lib/framework.cpp
@@ -399,6 +399,11 @@ PlutoConstraints *get_permutability_constraints(PlutoProg *prog) {
   if (options->per_cc_obj) {
     ncols += (npar + 1) * prog->ddg->num_ccs;
   }
+  /* The number of columns grows when more connected components come up. */
+  if (prog->globcst && prog->globcst->alloc_ncols < ncols) {
+    pluto_constraints_free(prog->globcst);
+    prog->globcst = NULL;
+  }
   if (!prog->globcst) {
     prog->globcst = pluto_constraints_alloc(total_cst_rows, ncols, context);
   }
-- 
2.43.0


From 6ba2847d6af8149d09ad338607ee7e8e2f6311fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:41 +0000
Subject: [PATCH 08/46] fix: assertion failure on a dependence between accesses
 of unequal strides

---
 lib/program.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/program.cpp b/lib/program.cpp
index 391f1f6..3ba6908 100644
--- a/lib/program.cpp
+++ b/lib/program.cpp
@@ -391,6 +391,8 @@ static isl_stat basic_map_extract_dep(__isl_take isl_basic_map *bmap,
   isl_space *space = isl_basic_map_get_space(bmap);
   if (isl_space_range_is_wrapping(space)) {
     bmap = isl_basic_map_range_factor_domain(bmap);
+    /* Dropping the array dimensions can introduce divs again */
+    bmap = isl_basic_map_remove_divs(bmap);
     isl_space_free(space);
     space = isl_basic_map_get_space(bmap);
   }
-- 
2.43.0


From 3a6068960074902c01b01411ace830a015275d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:41 +0000
Subject: [PATCH 09/46] fix: NULL dereference in pluto_schedule with
 --lastwriter and --isldepcoalesce

---
 lib/program.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/program.cpp b/lib/program.cpp
index 3ba6908..4327b34 100644
--- a/lib/program.cpp
+++ b/lib/program.cpp
@@ -691,8 +691,11 @@ void compute_deps_isl(__isl_keep isl_union_map *reads,
     *dep_waw = isl_union_map_coalesce(*dep_waw);
 
     if (options->lastwriter) {
-      *trans_dep_war = isl_union_map_coalesce(*trans_dep_war);
-      *trans_dep_waw = isl_union_map_coalesce(*trans_dep_waw);
+      /* The caller may not be interested in the transitive dependences */
+      if (trans_dep_war)
+        *trans_dep_war = isl_union_map_coalesce(*trans_dep_war);
+      if (trans_dep_waw)
+        *trans_dep_waw = isl_union_map_coalesce(*trans_dep_waw);
     }
   }
 }
-- 
2.43.0


From 5098caa62191ca6cc7a1c4983fa84f9abdb6e85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:40 +0000
Subject: [PATCH 10/46] fix: loops that carry dependences reported as parallel
 with --innerpar

---
 lib/tile.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/tile.c b/lib/tile.c
index fa21e62..942fe89 100644
--- a/lib/tile.c
+++ b/lib/tile.c
@@ -457,6 +457,9 @@ bool pluto_create_tile_schedule_band(PlutoProg *prog, Band *band) {
         }
       }
     }
+  } else {
+    /* No wavefront: the same loops satisfy the dependences as before */
+    return false;
   }
 
   IF_DEBUG(printf("[pluto_create_tile_schedule] Created tile schedule for "););
-- 
2.43.0


From 0c47aa7126606e3790dd9ffcc915755c5f60baef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:40 +0000
Subject: [PATCH 11/46] fix: heap overflow when copying constraints over ones
 with fewer, named dimensions

---
 lib/constraints.c | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/lib/constraints.c b/lib/constraints.c
index dd578a7..bf1f681 100644
--- a/lib/constraints.c
+++ b/lib/constraints.c
@@ -612,12 +612,7 @@ PlutoConstraints *pluto_constraints_copy_single(PlutoConstraints *dest,
 
   /* Resize above may not be needed; need to still free all names;
    * they will be reassigned */
-  if (dest->names) {
-    for (int i = 0; i < (int)dest->ncols - 1; i++) {
-      free(dest->names[i]);
-      dest->names[i] = NULL;
-    }
-  }
+  pluto_constraints_remove_names_single(dest);
 
   dest->nrows = src->nrows;
   dest->ncols = src->ncols;
-- 
2.43.0


From 385b53722bf6dabda00cf9975d8953596e0ff54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:40 +0000
Subject: [PATCH 12/46] fix: constraints lost when adding to each element of a
 list

---
 lib/constraints.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/constraints.c b/lib/constraints.c
index bf1f681..18a0b00 100644
--- a/lib/constraints.c
+++ b/lib/constraints.c
@@ -313,7 +313,8 @@ PlutoConstraints *pluto_constraints_add_to_each(PlutoConstraints *cst1,
   assert(cst1->ncols == cst2->ncols);
 
   if (cst1->nrows + cst2->nrows > cst1->alloc_nrows) {
-    pluto_constraints_resize(cst1, cst1->nrows + cst2->nrows, cst1->ncols);
+    pluto_constraints_resize_single(cst1, cst1->nrows + cst2->nrows,
+                                    cst1->ncols);
   } else {
     cst1->nrows = cst1->nrows + cst2->nrows;
   }
-- 
2.43.0


From 445a54d82f75be1976a4cbdfe0d6ef77737cf813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:40 +0000
Subject: [PATCH 13/46] fix: wrong constant bounds of a variable with a
 coefficient or an equality

---
 lib/constraints.c | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/lib/constraints.c b/lib/constraints.c
index 18a0b00..d714599 100644
--- a/lib/constraints.c
+++ b/lib/constraints.c
@@ -1947,14 +1947,20 @@ int pluto_constraints_get_const_lb(const PlutoConstraints *cnst, int pos,
   retval = 0;
   *lb = INT_MIN;
   for (i = 0; i < cst->nrows; i++) {
+    int64_t coeff = cst->val[i][0];
+    if (coeff == 0)
+      continue;
+    int64_t bound = -cst->val[i][cst->ncols - 1];
     if (cst->is_eq[i]) {
-      *lb = cst->val[i][cst->ncols - 1];
+      *lb = bound / coeff;
       retval = 1;
       break;
     }
-    if (!cst->is_eq[i] && cst->val[i][0] >= 1) {
+    if (coeff >= 1) {
       retval = 1;
-      *lb = PLMAX(*lb, -cst->val[i][cst->ncols - 1]);
+      /* coeff * x >= bound, and x is an integer */
+      bound = bound / coeff + (bound > 0 && bound % coeff != 0);
+      *lb = PLMAX(*lb, bound);
     }
   }
   pluto_constraints_free(cst);
@@ -1983,13 +1989,19 @@ int pluto_constraints_get_const_ub(const PlutoConstraints *cnst, int pos,
   retval = 0;
   *ub = LLONG_MAX;
   for (i = 0; i < cst->nrows; i++) {
+    int64_t coeff = -cst->val[i][0];
+    if (coeff == 0)
+      continue;
+    int64_t bound = cst->val[i][cst->ncols - 1];
     if (cst->is_eq[i]) {
-      *ub = cst->val[i][cst->ncols - 1];
+      *ub = bound / coeff;
       retval = 1;
       break;
     }
-    if (!cst->is_eq[i] && cst->val[i][0] <= -1) {
-      *ub = PLMIN(*ub, cst->val[i][cst->ncols - 1]);
+    if (coeff >= 1) {
+      /* coeff * x <= bound, and x is an integer */
+      bound = bound / coeff - (bound < 0 && bound % coeff != 0);
+      *ub = PLMIN(*ub, bound);
       retval = 1;
     }
   }
-- 
2.43.0


From 4ce69fa780346f77d313295d11a05fe3ac3b2943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:11 +0000
Subject: [PATCH 14/46] fix: truncated names and constants in printed affine
 functions

---
 lib/math_support.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/lib/math_support.c b/lib/math_support.c
index bb23abd..f2554cb 100644
--- a/lib/math_support.c
+++ b/lib/math_support.c
@@ -585,11 +585,8 @@ char *pluto_affine_function_sprint(int64_t *func, int ndims,
   char *var[ndims], *out;
   int j, n;
 
-  /* max 5 chars for var, 3 for coefficient + 1 if ndims is 0 + 1 null char */
-  n = 9 * ndims + 1 + 1;
-  out = (char *)malloc(n);
-  *out = '\0';
-
+  /* 21 chars for the constant + 1 null char */
+  n = 21 + 1;
   for (j = 0; j < ndims; j++) {
     if (vars && vars[j]) {
       var[j] = strdup(vars[j]);
@@ -597,16 +594,20 @@ char *pluto_affine_function_sprint(int64_t *func, int ndims,
       var[j] = (char *)malloc(5);
       sprintf(var[j], "x%d", j + 1);
     }
+    /* 21 chars for the sign and the coefficient */
+    n += 21 + strlen(var[j]);
   }
+  out = (char *)malloc(n);
+  *out = '\0';
 
   int first = 0;
   for (j = 0; j < ndims; j++) {
     if (func[j] == 1) {
       if (first)
         strcat(out, "+");
-      snprintf(out + strlen(out), 5, "%s", var[j]);
+      snprintf(out + strlen(out), n - strlen(out), "%s", var[j]);
     } else if (func[j] == -1) {
-      snprintf(out + strlen(out), 6, "-%s", var[j]);
+      snprintf(out + strlen(out), n - strlen(out), "-%s", var[j]);
     } else if (func[j] != 0) {
       if (func[j] >= 1) {
         snprintf(out + strlen(out), n - strlen(out), "%s%ld%s",
@@ -622,9 +623,9 @@ char *pluto_affine_function_sprint(int64_t *func, int ndims,
   if (func[ndims] >= 1) {
     if (first)
       strcat(out, "+");
-    snprintf(out + strlen(out), 3, "%ld", func[ndims]);
+    snprintf(out + strlen(out), n - strlen(out), "%ld", func[ndims]);
   } else if (func[ndims] <= -1) {
-    snprintf(out + strlen(out), 3, "%ld", func[ndims]);
+    snprintf(out + strlen(out), n - strlen(out), "%ld", func[ndims]);
   } else {
     /* 0 */
     if (!first)
-- 
2.43.0


From 5a8286613eb173efd1d0d311b3ecd8513ef55d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:11 +0000
Subject: [PATCH 15/46] fix: wrong rank of matrices with more columns than rows

---
 lib/math_support.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/math_support.c b/lib/math_support.c
index f2554cb..ead2bd9 100644
--- a/lib/math_support.c
+++ b/lib/math_support.c
@@ -455,7 +455,7 @@ PlutoMatrix *pluto_matrix_to_row_echelon(PlutoMatrix *mat) {
   int i, j, k, r, _lcm, factor1;
 
   r = 0;
-  for (i = 0; i < PLMIN(mat->ncols, mat->nrows); i++) {
+  for (i = 0; i < mat->ncols && r < mat->nrows; i++) {
     if (mat->val[r][i] == 0) {
       for (k = r + 1; k < mat->nrows; k++) {
         if (mat->val[k][i] != 0)
-- 
2.43.0


From 713656e246863139d617e054df5ab6a06249e796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:47 +0000
Subject: [PATCH 16/46] fix: entries truncated to 32 bits when interchanging
 matrix columns

---
 lib/math_support.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/math_support.c b/lib/math_support.c
index ead2bd9..88aa7a6 100644
--- a/lib/math_support.c
+++ b/lib/math_support.c
@@ -204,10 +204,10 @@ void pluto_matrix_interchange_rows(PlutoMatrix *mat, int r1, int r2) {
 }
 
 void pluto_matrix_interchange_cols(PlutoMatrix *mat, int c1, int c2) {
-  int tmp, i;
+  int i;
 
   for (i = 0; i < mat->nrows; i++) {
-    tmp = mat->val[i][c1];
+    int64_t tmp = mat->val[i][c1];
     mat->val[i][c1] = mat->val[i][c2];
     mat->val[i][c2] = tmp;
   }
-- 
2.43.0


From 2c0ae7748f2779e7c26ce64be839f9084ea0bd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:27 +0000
Subject: [PATCH 17/46] fix: truncated and unterminated names in printed
 constraints

---
 lib/constraints.c | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/lib/constraints.c b/lib/constraints.c
index d714599..440232a 100644
--- a/lib/constraints.c
+++ b/lib/constraints.c
@@ -849,13 +849,13 @@ void pluto_constraints_compact_print_single(FILE *fp,
           fprintf(fp, "%s%ld ", (cst->val[i][j] >= 0 && !first) ? "+" : "",
                   cst->val[i][j]);
       } else {
-        char var[6];
-        var[5] = '\0';
+        char buf[16];
+        const char *var = buf;
         if (cst->names) {
           assert(cst->names[j]);
-          strncpy(var, cst->names[j], 5);
+          var = cst->names[j];
         } else
-          sprintf(var, "c_%c", 'i' + j);
+          sprintf(buf, "c_%c", 'i' + j);
 
         if (cst->val[i][j] == 1) {
           fprintf(fp, "%s%s", first ? "" : "+", var);
@@ -914,12 +914,12 @@ void pluto_constraints_pretty_print(FILE *fp, const PlutoConstraints *cst) {
           fprintf(fp, "%s%ld ", (cst->val[i][j] >= 0) ? "+" : "",
                   cst->val[i][j]);
       } else {
-        char var[6];
-        var[5] = '\0';
+        char buf[16];
+        const char *var = buf;
         if (cst->names)
-          strncpy(var, cst->names[j], 5);
+          var = cst->names[j];
         else
-          sprintf(var, "c_%c", 'i' + j);
+          sprintf(buf, "c_%c", 'i' + j);
 
         if (cst->val[i][j] == 1) {
           fprintf(fp, "+%s ", var);
@@ -967,11 +967,12 @@ void pluto_constraints_cplex_print(FILE *fp, const PlutoConstraints *cst) {
         if (!first)
           fprintf(fp, "%s %ld\n", cst->is_eq[i] ? "=" : ">=", -cst->val[i][j]);
       } else {
-        char var[6];
+        char buf[16];
+        const char *var = buf;
         if (cst->names)
-          strncpy(var, cst->names[j], 5);
+          var = cst->names[j];
         else
-          snprintf(var, 6, "c_%d", j);
+          snprintf(buf, sizeof(buf), "c_%d", j);
 
         if (cst->val[i][j] == 1) {
           fprintf(fp, "+%s ", var);
-- 
2.43.0


From 09b628d982e0791b56720488eb662a0dec0afea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:27 +0000
Subject: [PATCH 18/46] fix: heap overflow when reading constraints with names
 of more than 5 characters

---
 lib/constraints.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/constraints.c b/lib/constraints.c
index 440232a..536d110 100644
--- a/lib/constraints.c
+++ b/lib/constraints.c
@@ -804,12 +804,14 @@ PlutoConstraints *pluto_constraints_read(FILE *fp, PlutoContext *context) {
     }
   }
 
-  if (fscanf(fp, "%d", &num) != EOF) {
+  if (fscanf(fp, "%d", &num) == 1) {
+    char name[256];
     if (num >= 1)
       cst->names = (char **)malloc(num * sizeof(char *));
     for (int i = 0; i < num; i++) {
-      cst->names[i] = (char *)malloc(6);
-      fscanf(fp, "%s", cst->names[i]);
+      name[0] = '\0';
+      fscanf(fp, "%255s", name);
+      cst->names[i] = strdup(name);
     }
   }
 
-- 
2.43.0


From 50a8fec5d45b30fd0db9e4817b93ba915d35fa18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:24 +0000
Subject: [PATCH 19/46] fix: crashes and missing parallel loops in the string
 interface

---
 lib/plutolib.c | 45 +++++++++++++++++++++++++++++++++------------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/lib/plutolib.c b/lib/plutolib.c
index 74ddf1f..f85d4c9 100644
--- a/lib/plutolib.c
+++ b/lib/plutolib.c
@@ -503,6 +503,10 @@ __isl_give isl_union_map *pluto_parallel_schedule_with_remapping(
     __isl_take isl_union_set *domains, __isl_take isl_union_map *dependences,
     Ploop ***ploops, unsigned *nploops, Remapping **remap,
     PlutoContext *context) {
+  *ploops = NULL;
+  *nploops = 0;
+  *remap = NULL;
+
   isl_ctx *ctx = isl_union_set_get_ctx(domains);
   isl_space *space = isl_union_set_get_space(domains);
 
@@ -515,6 +519,7 @@ __isl_give isl_union_map *pluto_parallel_schedule_with_remapping(
   if (pluto_schedule_prog(prog)) {
     /* Failure */
     pluto_prog_free(prog);
+    isl_space_free(space);
 
     if (!context->options->silent) {
       printf("[libpluto] failure, returning NULL schedules\n");
@@ -522,13 +527,19 @@ __isl_give isl_union_map *pluto_parallel_schedule_with_remapping(
     return NULL;
   }
 
+  if (context->options->parallel) {
+    *ploops = pluto_get_parallel_loops(prog, nploops);
+    if (!context->options->silent) {
+      pluto_loops_print(*ploops, *nploops);
+    }
+  }
+
   Remapping *remapping = pluto_get_remapping(prog);
   *remap = remapping;
 
   isl_union_map *schedules = pluto_schedules_to_isl(prog, space, ctx);
 
   pluto_prog_free(prog);
-  isl_space_free(space);
 
   return schedules;
 }
@@ -546,9 +557,9 @@ void pluto_schedule_str(const char *domains_str, const char *dependences_str,
                         char **schedules_str_buffer_ptr, char **p_loops,
                         Remapping **remapping_ptr, PlutoContext *context) {
   isl_ctx *ctx = isl_ctx_alloc();
-  Ploop **ploop;
+  Ploop **ploop = NULL;
   unsigned nploop = 0, i;
-  Remapping *remapping;
+  Remapping *remapping = NULL;
 
   isl_union_set *domains = isl_union_set_read_from_str(ctx, domains_str);
   isl_union_map *dependences =
@@ -559,11 +570,14 @@ void pluto_schedule_str(const char *domains_str, const char *dependences_str,
       domains, dependences, &ploop, &nploop, &remapping, context);
   *remapping_ptr = remapping;
 
-  if (context->options->parallel) {
-    if (!context->options->silent) {
-      pluto_loops_print(ploop, nploop);
-    }
+  if (schedule == NULL) {
+    // No schedule was found.
+    *schedules_str_buffer_ptr = NULL;
+    isl_ctx_free(ctx);
+    return;
+  }
 
+  if (context->options->parallel) {
     // NOTE: assuming max 4 digits
     // number of parallel loops
     char *str = (char *)(malloc(sizeof(char) * 5));
@@ -581,18 +595,18 @@ void pluto_schedule_str(const char *domains_str, const char *dependences_str,
       sprintf(str, "%d", ploop[i - 1]->depth + 1);
       strcat(p_loops[0], str);
     }
+    free(str);
+    pluto_loops_free(ploop, nploop);
   }
 
   isl_printer *printer = isl_printer_to_str(ctx);
-  isl_printer_print_union_map(printer, schedule);
+  printer = isl_printer_print_union_map(printer, schedule);
 
   *schedules_str_buffer_ptr = isl_printer_get_str(printer);
   assert(*schedules_str_buffer_ptr != NULL && "isl printer providing empty"
                                               " string");
 
   isl_printer_free(printer);
-  isl_union_set_free(domains);
-  isl_union_map_free(dependences);
   isl_union_map_free(schedule);
 
   isl_ctx_free(ctx);
@@ -608,8 +622,15 @@ void pluto_get_remapping_str(const char *domains_str,
 
   Remapping *remapping_l =
       pluto_schedule_and_get_remapping(domains, dependences, context);
-  *remapping = *remapping_l;
-  free(remapping_l);
+  if (remapping_l) {
+    *remapping = *remapping_l;
+    free(remapping_l);
+  } else {
+    // No schedule was found.
+    remapping->nstmts = 0;
+    remapping->stmt_inv_matrices = NULL;
+    remapping->stmt_divs = NULL;
+  }
   isl_ctx_free(ctx);
 };
 
-- 
2.43.0


From eece390a7558ba0efbcfac94ce0af0b370442617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:55 +0000
Subject: [PATCH 20/46] fix: disjuncts of a domain lost when appending
 constraints

---
 lib/constraints.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/constraints.c b/lib/constraints.c
index 536d110..85be952 100644
--- a/lib/constraints.c
+++ b/lib/constraints.c
@@ -1929,10 +1929,11 @@ int pluto_constraints_is_empty(const PlutoConstraints *cst) {
 PlutoConstraints *
 pluto_constraints_unionize_simple(PlutoConstraints *cst1,
                                   const PlutoConstraints *cst2) {
-  while (cst1->next != NULL) {
-    cst1 = cst1->next;
+  PlutoConstraints *last = cst1;
+  while (last->next != NULL) {
+    last = last->next;
   }
-  cst1->next = pluto_constraints_dup(cst2);
+  last->next = pluto_constraints_dup(cst2);
   return cst1;
 }
 
-- 
2.43.0


From 89687594a9c9798565431001cbbb73b31d03d372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:20 +0000
Subject: [PATCH 21/46] fix: incomplete transitive closure of the dependence
 graph

The intermediate vertex has to be that of the outermost loop.
---
 lib/ddg.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/ddg.c b/lib/ddg.c
index ad49d2f..259eb88 100644
--- a/lib/ddg.c
+++ b/lib/ddg.c
@@ -102,9 +102,9 @@ Graph *get_undirected_graph(const Graph *g) {
 /// Compute the transitive closure of the graph using Floyd-Warshall algorithm.
 void compute_transitive_closure(Graph *g) {
   int i, j, k;
-  for (i = 0; i < g->nVertices; i++) {
-    for (j = 0; j < g->nVertices; j++) {
-      for (k = 0; k < g->nVertices; k++) {
+  for (k = 0; k < g->nVertices; k++) {
+    for (i = 0; i < g->nVertices; i++) {
+      for (j = 0; j < g->nVertices; j++) {
         g->adj->val[i][j] =
             ((g->adj->val[i][j]) || (g->adj->val[i][k] && g->adj->val[k][j]));
       }
-- 
2.43.0


From 4addb36f90c31bf0bcb43d192a77ec53aa022d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:20 +0000
Subject: [PATCH 22/46] fix: connected component ids overwritten after the
 depth-first search

All but the last visited component got the id of another one.
---
 lib/pluto.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/lib/pluto.c b/lib/pluto.c
index 7e5b659..c9a863e 100644
--- a/lib/pluto.c
+++ b/lib/pluto.c
@@ -2004,9 +2004,7 @@ void ddg_compute_cc(PlutoProg *prog) {
       num_cc++;
       gU->vertices[i].cc_id = cc_id;
       dfs_vertex(gU, &gU->vertices[i], &time);
-      gU->vertices[i].cc_id = cc_id;
     }
-    gU->vertices[i].cc_id = cc_id;
     g->vertices[i].cc_id = gU->vertices[i].cc_id;
     stmt_id = g->vertices[i].id;
     assert(stmt_id == i);
-- 
2.43.0


From 1575907d6ba3f4c5e07b342e86ec63aa1b8f4fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:20 +0000
Subject: [PATCH 23/46] fix: subscripts of a multi-valued access in the wrong
 order

The zero row that stands for a subscript with several values was always
inserted before the other subscripts.
---
 lib/program.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/program.cpp b/lib/program.cpp
index 4327b34..dd9dd88 100644
--- a/lib/program.cpp
+++ b/lib/program.cpp
@@ -528,8 +528,8 @@ isl_basic_map_extract_access_func(__isl_take isl_basic_map *bmap, void *user) {
       isl_pw_aff_free(pw_aff);
     } else {
       // Multi-valued map for access function? Setting this to zero.
-      pluto_matrix_add_row(acc_mat, 0);
-      pluto_matrix_zero_row(acc_mat, 0);
+      pluto_matrix_add_row(acc_mat, acc_mat->nrows);
+      pluto_matrix_zero_row(acc_mat, acc_mat->nrows - 1);
     }
   }
   (*info->accs)[info->index] = (PlutoAccess *)malloc(sizeof(PlutoAccess));
-- 
2.43.0


From c19f12a123ba4fd275232d2b4de78171d8e55973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:45 +0000
Subject: [PATCH 24/46] fix: statements specified as not to be tiled were tiled

---
 lib/tile.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/lib/tile.c b/lib/tile.c
index 942fe89..68ad72d 100644
--- a/lib/tile.c
+++ b/lib/tile.c
@@ -247,6 +247,21 @@ void pluto_tile(PlutoProg *prog) {
   }
   pluto_loops_free(loops, nloops);
 
+  /* Leave out bands with statements that are not to be tiled (as specified
+   * through a .fst or .precut file) */
+  unsigned num_to_tile = 0;
+  for (i = 0; i < nbands; i++) {
+    for (j = 0; j < bands[i]->loop->nstmts; j++) {
+      if (!bands[i]->loop->stmts[j]->tile)
+        break;
+    }
+    if (j == bands[i]->loop->nstmts)
+      bands[num_to_tile++] = bands[i];
+    else
+      pluto_band_free(bands[i]);
+  }
+  nbands = num_to_tile;
+
   /* Now, we are ready to tile */
   if (options->lt >= 0 && options->ft >= 0) {
     /* User option specified tiling */
-- 
2.43.0


From facd3e32283b52948242b8a06ed65d2a36336be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:45 +0000
Subject: [PATCH 25/46] fix: warning about pipelined parallelism printed in
 silent mode

---
 lib/plutolib.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/plutolib.c b/lib/plutolib.c
index f85d4c9..ee82286 100644
--- a/lib/plutolib.c
+++ b/lib/plutolib.c
@@ -80,7 +80,7 @@ static int pluto_schedule_prog(PlutoProg *prog) {
 
     /* If the user hasn't supplied --tile and there is only pipelined
      * parallelism, we will warn the user */
-    if (retval) {
+    if (retval && !options->silent) {
       printf("[pluto] WARNING: pipelined parallelism exists and --tile is not "
              "used.\n");
       printf("[pluto] WARNING: use --tile for better parallelization \n");
-- 
2.43.0


From fa88769d6a6cfb33d6f415496919d78dbe476dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:45 +0000
Subject: [PATCH 26/46] fix: loop made innermost printed in silent mode

---
 lib/post_transform.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/post_transform.c b/lib/post_transform.c
index 7995386..29a1d3d 100644
--- a/lib/post_transform.c
+++ b/lib/post_transform.c
@@ -430,7 +430,7 @@ static bool make_parallel_loop_innermost(Band *band, unsigned num_tiled_levels,
   Ploop *best_loop = get_best_vectorizable_loop(par_loops, nploops, prog);
   if (best_loop && !pluto_loop_is_innermost(best_loop, prog)) {
     IF_DEBUG(printf("[pluto] intra_tile_opt: loop to be made innermost: "););
-    pluto_loop_print(best_loop);
+    IF_DEBUG(pluto_loop_print(best_loop););
 
     bool move_across_scalar_hyperplanes = true;
     pluto_make_innermost_loop(best_loop, innermost_loop_depth + 1,
-- 
2.43.0


From 482aec4646c369e7c3f1382f733402848f276e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:44 +0000
Subject: [PATCH 27/46] fix: loops in a band printed in silent mode

---
 lib/post_transform.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/post_transform.c b/lib/post_transform.c
index 29a1d3d..cc847d5 100644
--- a/lib/post_transform.c
+++ b/lib/post_transform.c
@@ -411,7 +411,7 @@ static bool make_parallel_loop_innermost(Band *band, unsigned num_tiled_levels,
   unsigned nloops;
   Ploop **loops = pluto_get_loops_under(band->loop->stmts, band->loop->nstmts,
                                         depth, prog, &nloops);
-  pluto_loops_print(loops, nloops);
+  IF_DEBUG(pluto_loops_print(loops, nloops););
   unsigned nploops = 0;
   Ploop **par_loops = (Ploop **)malloc(nloops * sizeof(Ploop *));
   unsigned innermost_loop_depth = band->loop->depth;
-- 
2.43.0


From 538576757d532c848077a901b3984c8e6c3769bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:58 +0000
Subject: [PATCH 28/46] fix: dangling name after removing a dimension of
 constraints with partial names

---
 lib/constraints.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/constraints.c b/lib/constraints.c
index 85be952..da90be6 100644
--- a/lib/constraints.c
+++ b/lib/constraints.c
@@ -1544,7 +1544,7 @@ void pluto_constraints_remove_dim(PlutoConstraints *cst, int pos) {
   }
 
   for (int j = pos; j < (int)cst->ncols - 1; j++) {
-    if (cst->names && j < (int)cst->ncols - 2 && cst->names[j + 1]) {
+    if (cst->names && j < (int)cst->ncols - 2) {
       cst->names[j] = cst->names[j + 1];
     }
   }
-- 
2.43.0


From d347609506fd372578fb8be1e7b6868ac63ca346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:58 +0000
Subject: [PATCH 29/46] fix: freed dependences kept when index set splitting
 leaves none

---
 lib/iss.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/lib/iss.c b/lib/iss.c
index 475b786..49a9265 100644
--- a/lib/iss.c
+++ b/lib/iss.c
@@ -377,12 +377,9 @@ void pluto_update_deps_after_iss(PlutoProg *prog, PlutoConstraints **cuts,
     pluto_dep_free(dep);
   }
 
-  if (num_iss_deps >= 1) {
-    free(prog->deps);
-
-    prog->deps = iss_deps;
-    prog->ndeps = num_iss_deps;
-  }
+  free(prog->deps);
+  prog->deps = iss_deps;
+  prog->ndeps = num_iss_deps;
 }
 
 /*
-- 
2.43.0


From 278972bbc2a4561d9b07b237523257e131dabd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:58 +0000
Subject: [PATCH 30/46] fix: kinds of levels and tiling mark lost when cloning
 a statement

---
 lib/program.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/program.cpp b/lib/program.cpp
index dd9dd88..4a992d0 100644
--- a/lib/program.cpp
+++ b/lib/program.cpp
@@ -2204,7 +2204,11 @@ Stmt *pluto_stmt_dup(const Stmt *stmt) {
 
   nstmt->dim_orig = stmt->dim_orig;
   nstmt->type = stmt->type;
+  nstmt->tile = stmt->tile;
 
+  for (unsigned i = 0; i < stmt->trans->nrows; i++) {
+    nstmt->hyp_types[i] = stmt->hyp_types[i];
+  }
   for (unsigned i = 0; i < stmt->dim; i++) {
     nstmt->iterators[i] = strdup(stmt->iterators[i]);
     nstmt->is_orig_loop[i] = stmt->is_orig_loop[i];
-- 
2.43.0


From 80973d2beab0cde5b3327f820c6c0cb0b4019d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:58 +0000
Subject: [PATCH 31/46] fix: out-of-bounds write and wrong bounds when
 strip-mining a loop

---
 lib/transforms.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/transforms.c b/lib/transforms.c
index afaecbf..d5be8f9 100644
--- a/lib/transforms.c
+++ b/lib/transforms.c
@@ -43,17 +43,17 @@ void pluto_stripmine(Stmt *stmt, int dim, int factor, char *supernode,
   pluto_constraints_add_inequality(domain);
   domain->val[domain->nrows - 1][0] = -factor;
   assert(stmt->trans->ncols == domain->ncols);
-  for (int i = 1; i < (int)stmt->trans->ncols - 1; i++) {
+  for (int i = 1; i < (int)stmt->trans->ncols; i++) {
     domain->val[domain->nrows - 1][i] = stmt->trans->val[dim + 1][i];
   }
 
   pluto_constraints_add_inequality(domain);
   domain->val[domain->nrows - 1][0] = factor;
   assert(stmt->trans->ncols == domain->ncols);
-  for (int i = 1; i < (int)stmt->trans->ncols - 1; i++) {
+  for (int i = 1; i < (int)stmt->trans->ncols; i++) {
     domain->val[domain->nrows - 1][i] = -stmt->trans->val[dim + 1][i];
   }
-  domain->val[domain->nrows - 1][stmt->trans->ncols] += factor;
+  domain->val[domain->nrows - 1][stmt->trans->ncols - 1] += factor - 1;
 }
 
 /// Interchange loops for a stmt.
-- 
2.43.0


From 80577bec23f8e1144948c4ebcf6398a8e65633c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:58 +0000
Subject: [PATCH 32/46] fix: automatic tile sizes read and written outside of
 the band's dimensions

---
 lib/tile_size_selection_model.cpp | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/lib/tile_size_selection_model.cpp b/lib/tile_size_selection_model.cpp
index 20c62a7..6d86f70 100644
--- a/lib/tile_size_selection_model.cpp
+++ b/lib/tile_size_selection_model.cpp
@@ -268,6 +268,8 @@ unsigned TileSizeSelectionModel::compute_tile_footprint_coefficient_for_access(
       unsigned loop_depth = depth + loops[j]->depth;
       IF_DEBUG2(printf("loop_depth: %d, loop[%d]->depth: %d\n", loop_depth, j,
                        loops[j]->depth););
+      if (loops[j]->depth - depth >= band->width)
+        continue;
       if (newAccMat->val[i][loops[j]->depth] >= 1) {
 
         if ((loops[j]->depth) - depth == vectorDim) {
@@ -446,19 +448,21 @@ static std::vector<bool> get_vectorizable_dimensions(Band *band,
     Ploop **loops = pluto_get_loops_under(band->loop->stmts, band->loop->nstmts,
                                           depth, prog, &nloops);
     Ploop *best_loop = get_best_vectorizable_loop(loops, nloops, prog);
+    if (!best_loop) {
+      pluto_loops_free(loops, nloops);
+      continue;
+    }
     if (options->debug) {
       printf("loop at depth %d considered for innermost tile_size\n",
              best_loop->depth);
       pluto_loop_print(best_loop);
     }
 
-    // Do not select outermost parallel loop
-    if (best_loop->depth - band->loop->depth == 0)
-      continue;
-    // Do not assign vector tile sizes to concurrent start dimensions.
-    if (prog->is_diamond_tiled && best_loop->depth - band->loop->depth <= 1)
-      continue;
-    vectorizableDims[best_loop->depth - depth] = true;
+    // Do not select outermost parallel loop or a loop inside of the band. Do
+    // not assign vector tile sizes to concurrent start dimensions.
+    unsigned dim = best_loop->depth - depth;
+    if (dim > 0 && dim < band->width && !(prog->is_diamond_tiled && dim <= 1))
+      vectorizableDims[dim] = true;
     pluto_loops_free(loops, nloops);
   }
   pluto_bands_free(ibands, num_fused_bands);
@@ -484,6 +488,9 @@ static std::vector<float> get_dimensional_reuse(Band *band, PlutoProg *prog) {
                                         depth, prog, &nloops);
 
   for (unsigned i = 0; i < nloops; i++) {
+    // Loops inside of the band are not tiled.
+    if (loops[i]->depth - depth >= band->width)
+      continue;
     dimReuse[loops[i]->depth - depth] = get_dimensional_reuse(loops[i]);
     // TODO: Use the following if we want to only consider distinct accesses.
     // To be experimented if this gives better results.
@@ -576,7 +583,7 @@ static std::vector<unsigned> find_tile_sizes(Band *band, PlutoProg *prog) {
       }
     }
 
-    if (parallel) {
+    if (parallel && loops[i]->depth - depth < band->width) {
       par_loop_depth = loops[i]->depth - depth;
       IF_DEBUG(printf("Parallel loop\n"););
       IF_DEBUG(pluto_loop_print(loops[i]););
@@ -585,7 +592,7 @@ static std::vector<unsigned> find_tile_sizes(Band *band, PlutoProg *prog) {
   pluto_loops_free(loops, nloops);
 
   IF_DEBUG(printf("Parallel dimension %d\n", par_loop_depth););
-  if (vectorizableDims[par_loop_depth])
+  if (par_loop_depth < vectorizableDims.size())
     vectorizableDims[par_loop_depth] = false;
 
   bool is_band_wavefront_parallel =
-- 
2.43.0


From 027d350658770ff30f2febe3a8bf440933191dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:58 +0000
Subject: [PATCH 33/46] fix: automatic tile sizes with a vanishing leading term
 or a small cache

---
 lib/tile_size_selection_model.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/tile_size_selection_model.cpp b/lib/tile_size_selection_model.cpp
index 6d86f70..c783496 100644
--- a/lib/tile_size_selection_model.cpp
+++ b/lib/tile_size_selection_model.cpp
@@ -115,7 +115,9 @@ unsigned TileSizeSelectionModel::solve_reuse_expression() {
   // Just a constant. return anything
   if (reuse_polynomial.size() < 2)
     return 0;
-  assert(reuse_polynomial.size() >= 2 and reuse_polynomial[0] < 0.0f);
+  // The cache can't even hold the part that is independent of the tile size.
+  if (reuse_polynomial[0] >= 0.0f)
+    return 0;
 
   // If quadratic, find the exact roots. Else approximate.
   if (reuse_polynomial.size() == 3) {
@@ -397,6 +399,12 @@ void TileSizeSelectionModel::construct_expression_for_tile_volume(
     pluto_access_free(acc);
   }
 
+  // Leading terms that vanish do not count.
+  while (!reuse_polynomial.empty() && reuse_polynomial.back() == 0.0f)
+    reuse_polynomial.pop_back();
+  if (reuse_polynomial.empty())
+    reuse_polynomial.resize(1);
+
   // f(\tau) - Cache_size = 0;
   reuse_polynomial[0] -= num_data_elements_in_cache;
 
-- 
2.43.0


From 28a1c25197b85c1a3a93048b839a62fc22abc0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:43 +0000
Subject: [PATCH 34/46] fix: out-of-bounds read and wrong iterator when looking
 for tile space loops

---
 lib/program.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/lib/program.cpp b/lib/program.cpp
index 4a992d0..f748927 100644
--- a/lib/program.cpp
+++ b/lib/program.cpp
@@ -218,16 +218,22 @@ static int64_t *pluto_check_supernode(const Stmt *stmt, unsigned pos,
   return tile_hyp;
 }
 
-/// Returns true if the input loop is a tile space loop.
+/// Returns true if the input loop is a tile space loop, i.e., if it is a
+/// function of supernode iterators alone.
 bool is_tile_space_loop(Ploop *loop, const PlutoProg *prog) {
-  int tile_size;
-  int64_t *tiling_hyp =
-      pluto_check_supernode(loop->stmts[0], loop->depth, &tile_size);
-  if (tiling_hyp == NULL) {
-    return false;
+  const Stmt *stmt = loop->stmts[0];
+  bool is_tile_space = false;
+  for (unsigned j = 0; j < stmt->dim; j++) {
+    if (stmt->trans->val[loop->depth][j] == 0)
+      continue;
+    int tile_size;
+    int64_t *tiling_hyp = pluto_check_supernode(stmt, j, &tile_size);
+    if (tiling_hyp == NULL)
+      return false;
+    free(tiling_hyp);
+    is_tile_space = true;
   }
-  free(tiling_hyp);
-  return true;
+  return is_tile_space;
 }
 
 static int is_skewed(int64_t *func, int len) {
-- 
2.43.0


From fba2e50a6d5a299248598ee2968747acdcf100f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:43 +0000
Subject: [PATCH 35/46] fix: unroll-and-jam proposed for loops outside the
 innermost permutable band

---
 lib/polyloop.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/polyloop.c b/lib/polyloop.c
index 11c7714..0a68931 100644
--- a/lib/polyloop.c
+++ b/lib/polyloop.c
@@ -576,7 +576,7 @@ bool is_unroll_jam_profitable(Ploop *loop, const PlutoProg *prog) {
 Ploop **pluto_get_unroll_jam_loops(const PlutoProg *prog,
                                    unsigned *num_ujloops) {
   unsigned num_ibands;
-  Band **ibands = pluto_get_innermost_permutable_bands(prog, 1, &num_ibands);
+  Band **ibands = pluto_get_innermost_permutable_bands(prog, 0, &num_ibands);
   unsigned num = 0;
   Ploop **ujloops = NULL;
   unsigned nloops = 0;
-- 
2.43.0


From 3c47b7a358f3da4dd078834690001db4740c43cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:43 +0000
Subject: [PATCH 36/46] fix: schedule coefficients truncated to 32 bits when
 converting to an isl map

---
 lib/constraints_isl.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/constraints_isl.c b/lib/constraints_isl.c
index 85b40c2..c84c9a2 100644
--- a/lib/constraints_isl.c
+++ b/lib/constraints_isl.c
@@ -225,7 +225,8 @@ isl_basic_map_from_pluto_constraints(isl_ctx *ctx, const PlutoConstraints *cst,
     }
 
     for (unsigned j = 0; j < cst->ncols; ++j) {
-      *m = isl_mat_set_element_si(*m, row, j, cst->val[i][j]);
+      *m = isl_mat_set_element_val(*m, row, j,
+                                   isl_val_int_from_si(ctx, cst->val[i][j]));
     }
   }
 
-- 
2.43.0


From 919c65364172ec57de65d5cba5a508c1ae5ac523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:04 +0000
Subject: [PATCH 37/46] fix: wrong gcd and lcm when the product exceeds 64 bits

---
 lib/math_support.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/math_support.c b/lib/math_support.c
index 88aa7a6..0b29326 100644
--- a/lib/math_support.c
+++ b/lib/math_support.c
@@ -389,9 +389,9 @@ void gaussian_eliminate(PlutoMatrix *mat, int start, int num_elim) {
 }
 
 int64_t lcm(int64_t a, int64_t b) {
-  if (a * b == 0)
+  if (a == 0 || b == 0)
     return 0;
-  return (a * b) / gcd(a, b);
+  return a / gcd(a, b) * b;
 }
 
 /* Assuming both args are not zero */
@@ -400,7 +400,7 @@ int64_t gcd(int64_t a, int64_t b) {
   b = llabs(b);
 
   /* If at least one of them is zero */
-  if (a * b == 0)
+  if (a == 0 || b == 0)
     return a + b;
 
   if (a == b)
-- 
2.43.0


From c224649b4f4ee1e0a04d5c95d102a42e3ddf8276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:04 +0000
Subject: [PATCH 38/46] fix: rank, elimination and row comparisons truncated to
 32 bits

---
 lib/math_support.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/lib/math_support.c b/lib/math_support.c
index 0b29326..4d9ccef 100644
--- a/lib/math_support.c
+++ b/lib/math_support.c
@@ -352,7 +352,7 @@ void pluto_matrix_normalize_row(PlutoMatrix *mat, int pos) {
 /* pos: 0-indexed */
 void gaussian_eliminate_var(PlutoMatrix *mat, int pos) {
   int r, r2, c;
-  int factor1, factor2;
+  int64_t factor1, factor2;
 
   for (r = 0; r < mat->nrows; r++) {
     if (mat->val[r][pos] != 0) {
@@ -452,7 +452,8 @@ PlutoMatrix *pluto_matrix_product(const PlutoMatrix *mat1,
 
 /* Converts matrix to row-echelon form in-place */
 PlutoMatrix *pluto_matrix_to_row_echelon(PlutoMatrix *mat) {
-  int i, j, k, r, _lcm, factor1;
+  int i, j, k, r;
+  int64_t _lcm, factor1;
 
   r = 0;
   for (i = 0; i < mat->ncols && r < mat->nrows; i++) {
@@ -491,11 +492,11 @@ unsigned pluto_matrix_get_rank(const PlutoMatrix *mat) {
 
   unsigned null = 0;
   for (unsigned i = 0; i < re->nrows; i++) {
-    int sum = 0;
-    for (unsigned j = 0; j < re->ncols; j++) {
-      sum += llabs(re->val[i][j]);
+    unsigned j = 0;
+    while (j < re->ncols && re->val[i][j] == 0) {
+      j++;
     }
-    if (sum == 0)
+    if (j == re->ncols)
       null++;
   }
   rank = re->nrows - null;
@@ -644,7 +645,8 @@ char *pluto_affine_function_sprint(int64_t *func, int ndims,
  */
 int pluto_vector_is_parallel(PlutoMatrix *mat1, int r1, PlutoMatrix *mat2,
                              int r2) {
-  int num, den, j;
+  int j;
+  int64_t num, den;
 
   assert(mat1->ncols == mat2->ncols);
 
@@ -675,7 +677,8 @@ int pluto_vector_is_parallel(PlutoMatrix *mat1, int r1, PlutoMatrix *mat2,
 
 int pluto_vector_is_normal(PlutoMatrix *mat1, int r1, PlutoMatrix *mat2,
                            int r2) {
-  int j, dot;
+  int j;
+  int64_t dot;
 
   assert(mat1->ncols == mat2->ncols);
 
-- 
2.43.0


From 3c8546f4067472e17357df9a41e2f538d62ff58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:45 +0000
Subject: [PATCH 39/46] fix: diamond tiling could lose a linearly independent
 hyperplane

---
 lib/pluto.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/lib/pluto.c b/lib/pluto.c
index c9a863e..9cb8ac0 100644
--- a/lib/pluto.c
+++ b/lib/pluto.c
@@ -2256,6 +2256,26 @@ bool pluto_diamond_tile(PlutoProg *prog) {
         cone_complement_hyps);
     pluto_matrix_free(conc_start_faces);
 
+    /* The new hyperplane has to be linearly independent of the ones that
+     * stay (the face may be a combination of these already). */
+    for (unsigned s = 0; s < band->loop->nstmts && conc_start_enabled_band;
+         s++) {
+      Stmt *stmt = band->loop->stmts[s];
+      unsigned num_ind = pluto_stmt_get_num_ind_hyps(stmt);
+      PlutoMatrix *trans = stmt->trans;
+      stmt->trans = pluto_matrix_dup(trans);
+      copy_hyperplane(stmt->trans->val[evict_pos],
+                      cone_complement_hyps[s]->val[0], trans->ncols);
+      if (pluto_stmt_get_num_ind_hyps(stmt) < num_ind) {
+        IF_DEBUG(printf("[pluto] Cone complement hyperplane is not linearly "
+                        "independent for S%d\n",
+                        stmt->id + 1););
+        conc_start_enabled_band = 0;
+      }
+      pluto_matrix_free(stmt->trans);
+      stmt->trans = trans;
+    }
+
     /* Re-arrange the transformation matrix if concurrent start
      * was found, store the replaced hyperplane so that it can be
      * put back for the right intra-tile order */
-- 
2.43.0


From 69244f16f3d9fe1fc12486dc4d9c2df64305c951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:35 +0000
Subject: [PATCH 40/46] fix: memory leaks in intra-tile optimization

---
 lib/post_transform.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/lib/post_transform.c b/lib/post_transform.c
index cc847d5..c2c374d 100644
--- a/lib/post_transform.c
+++ b/lib/post_transform.c
@@ -35,8 +35,11 @@ int has_spatial_reuse(Stmt *stmt, PlutoAccess *acc, int depth) {
   assert(depth <= (int)newacc->ncols - 1);
 
   /* Scalars */
-  if (newacc->nrows == 0)
+  if (newacc->nrows == 0) {
+    pluto_matrix_free(newacc);
+    free(divs);
     return 0;
+  }
 
   for (int i = 0; i < (int)newacc->nrows - 1; i++) {
     /* No spatial reuse when the func is varying at a non-innermost dim */
@@ -424,10 +427,13 @@ static bool make_parallel_loop_innermost(Band *band, unsigned num_tiled_levels,
     }
   }
   if (nploops == 0) {
+    free(par_loops);
+    pluto_loops_free(loops, nloops);
     return false;
   }
 
   Ploop *best_loop = get_best_vectorizable_loop(par_loops, nploops, prog);
+  bool made_innermost = false;
   if (best_loop && !pluto_loop_is_innermost(best_loop, prog)) {
     IF_DEBUG(printf("[pluto] intra_tile_opt: loop to be made innermost: "););
     IF_DEBUG(pluto_loop_print(best_loop););
@@ -435,9 +441,11 @@ static bool make_parallel_loop_innermost(Band *band, unsigned num_tiled_levels,
     bool move_across_scalar_hyperplanes = true;
     pluto_make_innermost_loop(best_loop, innermost_loop_depth + 1,
                               move_across_scalar_hyperplanes, prog);
-    return true;
+    made_innermost = true;
   }
-  return false;
+  free(par_loops);
+  pluto_loops_free(loops, nloops);
+  return made_innermost;
 }
 
 /// Optimize the intra-tile loop order for locality and vectorization.
-- 
2.43.0


From a63b48f25a2b9198ca59c228136f24b6ae0f7450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:35 +0000
Subject: [PATCH 41/46] fix: input dependences leaked by pluto_schedule

---
 lib/plutolib.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/plutolib.c b/lib/plutolib.c
index ee82286..650ed8e 100644
--- a/lib/plutolib.c
+++ b/lib/plutolib.c
@@ -441,6 +441,9 @@ __isl_give isl_union_map *pluto_schedule(__isl_take isl_union_map *schedules,
   compute_deps_isl(reads, writes, schedules, empty, &dep_raw, &dep_war,
                    &dep_waw, &dep_rar, NULL, NULL, options);
   isl_union_map_free(empty);
+  /* Input dependences aren't used. */
+  if (options->rar)
+    isl_union_map_free(dep_rar);
 
   isl_union_map *dependences = isl_union_map_union(dep_raw, dep_war);
   dependences = isl_union_map_union(dependences, dep_waw);
-- 
2.43.0


From 084b1c0eb390da622d52558665bb9438356baff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:35 +0000
Subject: [PATCH 42/46] fix: dependence satisfaction, parameter array and
 codegen context leaked

---
 lib/program.cpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/lib/program.cpp b/lib/program.cpp
index f748927..2c0bfb7 100644
--- a/lib/program.cpp
+++ b/lib/program.cpp
@@ -336,12 +336,8 @@ void pluto_dep_free(Dep *dep) {
   pluto_constraints_free(dep->dpolytope);
   pluto_constraints_free(dep->bounding_poly);
   pluto_constraints_free(dep->depsat_poly);
-  if (dep->dirvec) {
-    free(dep->dirvec);
-  }
-  if (dep->dirvec) {
-    free(dep->satvec);
-  }
+  free(dep->dirvec);
+  free(dep->satvec);
   pluto_constraints_free(dep->cst);
   pluto_constraints_free(dep->bounding_cst);
   free(dep);
@@ -713,10 +709,13 @@ int read_codegen_context_from_file(PlutoConstraints *codegen_context) {
   if (fp) {
     IF_DEBUG(printf("[Pluto] Reading from codegen.context\n"););
     PlutoConstraints *cc = pluto_constraints_read(fp, context);
+    fclose(fp);
     if (cc && cc->ncols == codegen_context->ncols) {
       pluto_constraints_add(codegen_context, cc);
+      pluto_constraints_free(cc);
       return 0;
     }
+    pluto_constraints_free(cc);
     IF_DEBUG(printf("[WARNING] Failed to read from codegen.context\n"););
   }
 
@@ -815,9 +814,7 @@ void pluto_prog_free(PlutoProg *prog) {
   for (int i = 0; i < prog->npar; i++) {
     free(prog->params[i]);
   }
-  if (prog->npar >= 1) {
-    free(prog->params);
-  }
+  free(prog->params);
 
   /* Statements */
   for (unsigned i = 0; i < prog->nstmts; i++) {
-- 
2.43.0


From 87bce45d771da55682ebfb060a4223cd2f4a8ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:35 +0000
Subject: [PATCH 43/46] fix: memory leaked when no transformation is found;
 .fst and .precut left open

---
 lib/pluto.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/pluto.c b/lib/pluto.c
index 9cb8ac0..b7642f9 100644
--- a/lib/pluto.c
+++ b/lib/pluto.c
@@ -899,6 +899,7 @@ bool precut(PlutoProg *prog, Graph *ddg, int depth) {
       printf("You have an .fst in your directory that is invalid for this "
              "source\n");
       printf("No fusion/distribution forced\n");
+      fclose(cutFp);
       return false;
     }
 
@@ -1017,6 +1018,7 @@ bool precut(PlutoProg *prog, Graph *ddg, int depth) {
         dep_satisfaction_update(prog, prog->num_hyperplanes - 1);
         ddg_update(ddg, prog);
       }
+      fclose(precut);
       return true;
     }
 
@@ -1808,11 +1810,16 @@ int pluto_auto_transform(PlutoProg *prog) {
                    "transformation (if they exist)\n");
             /* Restore original ones */
             for (i = 0; i < nstmts; i++) {
+              pluto_matrix_free(stmts[i]->trans);
+              free(stmts[i]->hyp_types);
               stmts[i]->trans = orig_trans[i];
               stmts[i]->hyp_types = orig_hyp_types[i];
-              prog->num_hyperplanes = orig_num_hyperplanes;
-              prog->hProps = orig_hProps;
             }
+            free(prog->hProps);
+            prog->num_hyperplanes = orig_num_hyperplanes;
+            prog->hProps = orig_hProps;
+            free(orig_trans);
+            free(orig_hyp_types);
             return 1;
           }
         }
-- 
2.43.0


From 57e04cd64dbdee3a4191ffb2a6c12130690f373e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:19 +0000
Subject: [PATCH 44/46] fix: union and projection through isl were called
 without an isl context

pluto_constraints_union_isl and pluto_constraints_project_out_isl passed a
NULL isl_ctx on (and the latter lost its result).
---
 lib/constraints_isl.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/lib/constraints_isl.c b/lib/constraints_isl.c
index c84c9a2..eae3d1d 100644
--- a/lib/constraints_isl.c
+++ b/lib/constraints_isl.c
@@ -41,12 +41,14 @@ void pluto_constraints_project_out_isl(PlutoConstraints *cst, int start,
   int end = start + num - 1;
   assert(start >= 0 && end <= (int)cst->ncols - 2);
 
-  PlutoContext *context = cst->context;
-  isl_set *set = isl_set_from_pluto_constraints(cst, NULL);
+  isl_ctx *ctx = isl_ctx_alloc();
+  isl_set *set = isl_set_from_pluto_constraints(cst, ctx);
   set = isl_set_project_out(set, isl_dim_set, start, num);
-  pluto_constraints_free(cst);
-  cst = isl_set_to_pluto_constraints(set, context);
+  PlutoConstraints *projected = isl_set_to_pluto_constraints(set, cst->context);
+  pluto_constraints_copy(cst, projected);
+  pluto_constraints_free(projected);
   isl_set_free(set);
+  isl_ctx_free(ctx);
 }
 
 /* start: 0-indexed */
@@ -405,13 +407,15 @@ int64_t *pluto_constraints_lexmin_isl(const PlutoConstraints *cst, int negvar) {
 
 PlutoConstraints *pluto_constraints_union_isl(const PlutoConstraints *cst1,
                                               const PlutoConstraints *cst2) {
-  isl_set *set1 = isl_set_from_pluto_constraints(cst1, NULL);
-  isl_set *set2 = isl_set_from_pluto_constraints(cst2, NULL);
+  isl_ctx *ctx = isl_ctx_alloc();
+  isl_set *set1 = isl_set_from_pluto_constraints(cst1, ctx);
+  isl_set *set2 = isl_set_from_pluto_constraints(cst2, ctx);
   isl_set *set3 = isl_set_union(set1, set2);
 
   PlutoConstraints *ucst = isl_set_to_pluto_constraints(set3, cst1->context);
 
   isl_set_free(set3);
+  isl_ctx_free(ctx);
 
   return ucst;
 }
-- 
2.43.0


From ab2b2551e2ffb4a8cbb214babdff9087d1987ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:19 +0000
Subject: [PATCH 45/46] fix: get_const_bound_difference leaked when the
 variable does not appear

---
 lib/program.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/program.cpp b/lib/program.cpp
index 2c0bfb7..616d02d 100644
--- a/lib/program.cpp
+++ b/lib/program.cpp
@@ -1518,8 +1518,10 @@ int get_const_bound_difference(const PlutoConstraints *cnst, int depth) {
       break;
   }
   /* Variable doesn't appear */
-  if (r == cst->nrows)
+  if (r == cst->nrows) {
+    pluto_constraints_free(cst);
     return -1;
+  }
 
   /* Scale rows so that the coefficient of depth var is the same */
   _lcm = 1;
-- 
2.43.0


From 6e463e47779473bedbf2e3c0d16e2b01c4589f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:18 +0000
Subject: [PATCH 46/46] fix: matrices of the fusion conflict graph leaked when
 it is rebuilt

---
 lib/framework-dfp.c | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/lib/framework-dfp.c b/lib/framework-dfp.c
index d14404b..5c669f6 100644
--- a/lib/framework-dfp.c
+++ b/lib/framework-dfp.c
@@ -1071,6 +1071,16 @@ void add_must_distribute_edges(Graph *fcg, PlutoProg *prog) {
   graph_free(transitive_ddg);
 }
 
+/// Frees the matrices that accompany the fusion conflict graph.
+static void free_fcg_matrices(const PlutoOptions *options) {
+  if (options->fuse == kTypedFuse) {
+    pluto_matrix_free(par_preventing_adj_mat);
+  }
+  if (options->lpcolour && options->scc_cluster) {
+    pluto_matrix_free(dep_dist_mat);
+  }
+}
+
 /// Build the fusion conflict graph for a given program. The current colour is
 /// used to rebuild FCG for the current level. This is needed in case we are
 /// separating out construction of FCG for permute preventing dependence and
@@ -2433,12 +2443,7 @@ int *rebuild_scc_cluster_fcg(PlutoProg *prog, int *colour, int c) {
                                               is_stencil);
     free(is_stencil);
   }
-  if (options->fuse == kTypedFuse) {
-    pluto_matrix_free(par_preventing_adj_mat);
-  }
-  if (options->lpcolour && options->scc_cluster) {
-    pluto_matrix_free(dep_dist_mat);
-  }
+  free_fcg_matrices(options);
   prog->fcg = build_fusion_conflict_graph(prog, scc_colour, nvertices, c);
 
   /* These two have to be reset in the clustered apporoach as
@@ -2606,6 +2611,7 @@ int *colour_fcg_scc_based(int c, int *colour, PlutoProg *prog) {
           prev_scc = -1;
           continue;
         } else {
+          free_fcg_matrices(options);
           prog->fcg =
               build_fusion_conflict_graph(prog, colour, fcg->nVertices, c);
         }
@@ -2700,6 +2706,7 @@ int *colour_fcg_scc_based(int c, int *colour, PlutoProg *prog) {
         pluto_print_dep_directions(prog);
 
         prog->fcg_colour_time += rtclock() - t_start;
+        free_fcg_matrices(options);
         prog->fcg =
             build_fusion_conflict_graph(prog, colour, fcg->nVertices, c);
 
@@ -2843,12 +2850,7 @@ void find_permutable_dimensions_scc_based(int *colour, PlutoProg *prog) {
   IF_DEBUG(pluto_print_colours(colour, prog););
 
   free(colour);
-  if (options->fuse == kTypedFuse) {
-    pluto_matrix_free(par_preventing_adj_mat);
-  }
-  if (options->lpcolour && options->scc_cluster) {
-    pluto_matrix_free(dep_dist_mat);
-  }
+  free_fcg_matrices(options);
   for (int i = 0; i < prog->ddg->num_sccs; i++) {
     free(prog->ddg->sccs[i].vertices);
   }
-- 
2.43.0

