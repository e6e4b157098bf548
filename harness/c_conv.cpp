// C11: conversions between isl's sets, maps and values and Pluto's constraints.
#include "prog.hpp"
#include <cstdlib>
#include <climits>
#include <cstring>
#include <pluto/matrix.h>
#include "constraints.h"
#include "isl_support.h"
#include "math_support.h"
#include <gmp.h>
#include <isl/val_gmp.h>
using namespace std;
using namespace pbt;

static long big(Src &s) {
  switch (s.weighted({6, 2, 2, 1})) {
  case 0: return s.signed_(4);
  case 1: return s.signed_(1000);
  case 2: {
    long b = 1L << s.range(20, 61);
    return (s.chance(1, 2) ? -1 : 1) * (b + s.signed_(2));
  }
  default: {
    long b = (long)(((uint64_t)s.draw(1u << 31) << 31) | s.draw(1u << 31));
    return s.chance(1, 2) ? -b : b;
  }
  }
}
static string term(long c, const string &v) {
  string t = c < 0 ? " - " : " + ";
  t += strf("%lu", c < 0 ? 0UL - (unsigned long)c : (unsigned long)c);
  return v.empty() ? t : t + "*" + v;
}
// The set of the rows, written for isl's own parser.
static string rows_text(const PlutoConstraints *c, const vector<string> &dims) {
  string t;
  for (unsigned i = 0; i < c->nrows; i++) {
    if (i) t += " and ";
    string e = "0";
    for (unsigned j = 0; j < c->ncols; j++) e += term(c->val[i][j], j + 1 < c->ncols ? dims[j] : "");
    t += e + (c->is_eq[i] ? " = 0" : " >= 0");
  }
  return t.empty() ? "1 = 1" : t;
}
// Substituting equalities can take isl beyond 64 bits, which no conversion keeps.
static bool saturated(const PlutoConstraints *c) {
  for (; c; c = c->next)
    for (unsigned i = 0; i < c->nrows; i++)
      for (unsigned j = 0; j < c->ncols; j++)
        if (c->val[i][j] == LLONG_MAX || c->val[i][j] <= -LLONG_MAX) return true;
  return false;
}
static string tup(const vector<string> &d) {
  string t = "[";
  for (size_t i = 0; i < d.size(); i++) t += (i ? ", " : "") + d[i];
  return t + "]";
}

static void to_isl(Src &s, Result &r) {
  PlutoContext *c = pluto_context_alloc();
  isl_ctx *ctx = isl_ctx_alloc();
  isl_options_set_on_error(ctx, ISL_ON_ERROR_CONTINUE);
  int nv = s.range(1, 4), len = s.range(1, 4);
  vector<string> dims;
  for (int i = 0; i < nv; i++) dims.push_back(strf("x%d", i));
  PlutoConstraints *first = nullptr, **at = &first;
  string text = "{ ";
  for (int k = 0; k < len; k++) {
    int n = s.range(0, 4);
    bool wide = s.chance(1, 2);
    PlutoConstraints *q = pluto_constraints_alloc(n, nv + 1, c);
    q->nrows = n;
    for (int i = 0; i < n; i++) {
      q->is_eq[i] = wide ? 0 : s.chance(1, 4);
      for (int j = 0; j <= nv; j++) q->val[i][j] = s.chance(2, 3) ? (wide ? big(s) : s.signed_(9)) : 0;
    }
    text += (k ? "; " : "") + tup(dims) + " : " + rows_text(q, dims);
    *at = q;
    at = &q->next;
  }
  text += " }";
  r.desc = text;
  isl_set *want = isl_set_read_from_str(ctx, text.c_str());
  isl_set *got = isl_set_from_pluto_constraints(first, ctx);
  IslLimit lim(ctx, 2000000);
  isl_bool eq = isl_set_is_equal(got, want);
  if (eq == isl_bool_false && !lim.hit()) r.fail("to isl", "the isl set is " + to_str(got) + "\nfor " + text);
  // and back, without losing a disjunct or a digit
  if (eq == isl_bool_true) {
    PlutoConstraints *back = isl_set_to_pluto_constraints(got, c);
    string t2 = "{ ";
    int n2 = 0;
    for (PlutoConstraints *q = back; q; q = q->next) {
      if ((int)q->ncols != nv + 1) r.fail("dimensions", strf("%u columns, not %d", q->ncols, nv + 1));
      else t2 += (n2++ ? "; " : "") + tup(dims) + " : " + rows_text(q, dims);
    }
    t2 += " }";
    if (!r.failed()) {
      isl_set *b = isl_set_read_from_str(ctx, t2.c_str());
      eq = isl_set_is_equal(b, want);
      bool divs = false;
      isl_set_free(b);
      (void)divs;
      if (eq == isl_bool_false && saturated(back)) r.st = DISCARD;
      else if (eq == isl_bool_false && !lim.hit()) r.fail("back from isl", "the constraints are " + t2 + "\nfor " + text);
    }
    pluto_constraints_free(back);
  }
  if (!r.failed() && (eq == isl_bool_error || lim.hit())) r.st = INCONCLUSIVE;
  isl_set_free(got);
  isl_set_free(want);
  pluto_constraints_free(first);
  isl_ctx_free(ctx);
  pluto_context_free(c);
}
static Reg v1("C11", "constraints", 3, 100, 10, to_isl);

// From isl: sets with parameters, and basic maps.
static void from_isl(Src &s, Result &r) {
  PlutoContext *c = pluto_context_alloc();
  isl_ctx *ctx = isl_ctx_alloc();
  isl_options_set_on_error(ctx, ISL_ON_ERROR_CONTINUE);
  bool map = s.chance(1, 2);
  int np = s.range(0, 2), n1 = s.range(1, 3), n2 = map ? s.range(1, 3) : 0;
  vector<string> par, a, b, all;
  for (int i = 0; i < np; i++) par.push_back(strf("N%d", i));
  for (int i = 0; i < n1; i++) a.push_back(strf("i%d", i));
  for (int i = 0; i < n2; i++) b.push_back(strf("o%d", i));
  all = a;
  all.insert(all.end(), b.begin(), b.end());
  all.insert(all.end(), par.begin(), par.end());
  int len = map ? 1 : s.range(1, 4);
  string body;
  for (int k = 0; k < len; k++) {
    body += (k ? "; " : "") + (map ? "S" + tup(a) + " -> T" + tup(b) : "S" + tup(a)) + " : ";
    int n = s.range(1, 4);
    for (int i = 0; i < n; i++) {
      string e = "0";
      for (auto &v : all)
        if (s.chance(1, 2)) e += term(s.chance(1, 8) ? big(s) : (long)s.signed_(3), v);
      e += term(s.chance(1, 8) ? big(s) : (long)s.signed_(9), "");
      body += (i ? " and " : "") + e + (s.chance(1, 4) ? " = 0" : " >= 0");
    }
  }
  string text = tup(par) + " -> { " + body + " }";
  r.desc = text;
  IslLimit lim(ctx, 2000000);
  PlutoConstraints *got = nullptr;
  isl_set *want = nullptr;  // over [in, out, par]
  bool skip = false;
  if (map) {
    isl_map *m = isl_map_read_from_str(ctx, text.c_str());
    m = isl_map_coalesce(m);
    if (isl_map_n_basic_map(m) != 1) skip = true;
    else {
      isl_basic_map *bm = nullptr;
      isl_map_foreach_basic_map(m, [](isl_basic_map *x, void *u) { *(isl_basic_map **)u = x; return isl_stat_ok; }, &bm);
      bm = isl_basic_map_remove_divs(bm);
      got = isl_basic_map_to_pluto_constraints(bm, c);
      isl_map *mm = isl_map_from_basic_map(bm);
      mm = isl_map_reset_tuple_id(isl_map_reset_tuple_id(mm, isl_dim_in), isl_dim_out);
      mm = isl_map_move_dims(mm, isl_dim_in, n1, isl_dim_out, 0, n2);
      mm = isl_map_move_dims(mm, isl_dim_in, n1 + n2, isl_dim_param, 0, np);
      want = isl_map_domain(mm);
    }
    isl_map_free(m);
  } else {
    isl_set *st = isl_set_read_from_str(ctx, text.c_str());
    st = isl_set_remove_divs(st);
    got = isl_set_to_pluto_constraints(st, c);
    st = isl_set_reset_tuple_id(st);
    want = isl_set_move_dims(st, isl_dim_set, n1, isl_dim_param, 0, np);
  }
  if (!skip) {
    string t = "{ ";
    int n = 0;
    for (PlutoConstraints *q = got; q; q = q->next) {
      if (q->ncols != all.size() + 1) r.fail("dimensions", strf("%u columns, not %zu: ", q->ncols, all.size() + 1) + text);
      else t += (n++ ? "; " : "") + tup(all) + " : " + rows_text(q, all);
    }
    t += " }";
    if (!r.failed()) {
      isl_set *g = isl_set_read_from_str(ctx, t.c_str());
      isl_bool eq = isl_set_is_equal(g, want);
      if (eq == isl_bool_false && saturated(got)) r.st = DISCARD;
      else if (eq == isl_bool_false && !lim.hit()) r.fail(map ? "from an isl map" : "from an isl set", "the constraints are " + t + "\nfor " + text);
      else if (eq == isl_bool_error) r.st = INCONCLUSIVE;
      isl_set_free(g);
    }
  } else r.st = DISCARD;
  isl_set_free(want);
  pluto_constraints_free(got);
  isl_ctx_free(ctx);
  pluto_context_free(c);
}
static Reg v2("C11", "isl", 3, 100, 10, from_isl);

static void values(Src &s, Result &r) {
  PlutoContext *c = pluto_context_alloc();
  isl_ctx *ctx = isl_ctx_alloc();
  int rows = s.range(1, 3), cols = s.range(1, 4);
  isl_mat *m = isl_mat_alloc(ctx, rows, cols);
  vector<vector<long>> v(rows, vector<long>(cols));
  for (auto &x : v)
    for (long &y : x) y = big(s);
  r.desc = "values";
  for (int i = 0; i < rows; i++)
    for (int j = 0; j < cols; j++) {
      r.desc += strf(" %ld", v[i][j]);
      isl_val *w = isl_val_int_from_si(ctx, v[i][j]);
      long long back = isl_val_get_num_ll(w);
      if (back != v[i][j]) r.fail("value from isl", strf("%ld becomes %lld", v[i][j], back));
      mpz_t z;
      mpz_init(z);
      mpz_set_sll(z, v[i][j]);
      if (mpz_cmp_si(z, v[i][j])) r.fail("value to gmp", strf("%ld is not kept", v[i][j]));
      mpz_clear(z);
      m = isl_mat_set_element_val(m, i, j, w);
    }
  PlutoMatrix *p = pluto_matrix_from_isl_mat(m, c);
  if ((int)p->nrows != rows || (int)p->ncols != cols) r.fail("matrix from isl", "wrong size");
  else
    for (int i = 0; i < rows; i++)
      for (int j = 0; j < cols; j++)
        if (p->val[i][j] != v[i][j]) r.fail("matrix from isl", strf("%ld becomes %ld", v[i][j], (long)p->val[i][j]));
  pluto_matrix_free(p);
  isl_mat_free(m);
  isl_ctx_free(ctx);
  pluto_context_free(c);
}
static Reg v3("C11", "values", 1, 200, 10, values);

// Affine maps to transformation matrices.
static void funcs(Src &s, Result &r) {
  PlutoContext *c = pluto_context_alloc();
  isl_ctx *ctx = isl_ctx_alloc();
  int np = s.range(0, 2), n1 = s.range(1, 3), n2 = s.range(1, 4);
  vector<string> par, a, b;
  for (int i = 0; i < np; i++) par.push_back(strf("N%d", i));
  for (int i = 0; i < n1; i++) a.push_back(strf("i%d", i));
  vector<vector<long>> f;
  for (int i = 0; i < n2; i++) {
    vector<long> row;
    string e = "0";
    for (int j = 0; j < n1 + np; j++) {
      long v = s.chance(1, 2) ? (s.chance(1, 10) ? s.signed_(100000) : s.signed_(3)) : 0;
      row.push_back(v);
      e += term(v, j < n1 ? a[j] : par[j - n1]);
    }
    row.push_back(s.chance(1, 10) ? s.signed_(100000) : s.signed_(5));
    e += term(row.back(), "");
    f.push_back(row);
    b.push_back(e);
  }
  string text = tup(par) + " -> { S" + tup(a) + " -> " + tup(b) + " }";
  r.desc = text;
  isl_map *m = isl_map_read_from_str(ctx, text.c_str());
  PlutoMatrix *p = isl_map_to_pluto_func(m, n1, np, c);
  if ((int)p->nrows != n2 || (int)p->ncols != n1 + np + 1) r.fail("function", "wrong size for " + text);
  else
    for (int i = 0; i < n2; i++)
      for (int j = 0; j <= n1 + np; j++)
        if (p->val[i][j] != f[i][j]) r.fail("function", strf("row %d, column %d is %ld for ", i, j, (long)p->val[i][j]) + text);
  pluto_matrix_free(p);
  isl_map_free(m);
  isl_ctx_free(ctx);
  pluto_context_free(c);
}
static Reg v4("C11", "functions", 1, 200, 10, funcs);

// Constraints to a relation: its columns are the range, the domain, the parameters.
static void to_map(Src &s, Result &r) {
  PlutoContext *c = pluto_context_alloc();
  isl_ctx *ctx = isl_ctx_alloc();
  isl_options_set_on_error(ctx, ISL_ON_ERROR_CONTINUE);
  int np = s.range(0, 2), n1 = s.range(0, 3), n2 = s.range(0, 3), n = s.range(0, 4);
  vector<string> par, a, b, all;
  for (int i = 0; i < n2; i++) b.push_back(strf("o%d", i)), all.push_back(b.back());
  for (int i = 0; i < n1; i++) a.push_back(strf("i%d", i)), all.push_back(a.back());
  for (int i = 0; i < np; i++) par.push_back(strf("N%d", i)), all.push_back(par.back());
  bool wide = s.chance(1, 2);
  PlutoConstraints *q = pluto_constraints_alloc(n + 1, n1 + n2 + np + 1, c);
  q->nrows = n;
  for (int i = 0; i < n; i++) {
    q->is_eq[i] = wide ? s.chance(1, 8) : s.chance(1, 3);
    for (unsigned j = 0; j < q->ncols; j++) q->val[i][j] = s.chance(2, 3) ? (wide ? big(s) : s.signed_(9)) : 0;
  }
  string text = tup(par) + " -> { " + tup(a) + " -> " + tup(b) + " : " + rows_text(q, all) + " }";
  r.desc = text;
  isl_map *want = isl_map_read_from_str(ctx, text.c_str());
  isl_basic_map *bm = isl_basic_map_from_pluto_constraints(ctx, q, n1, n2, np);
  isl_map *got = isl_map_from_basic_map(bm);
  for (int i = 0; i < np; i++) got = isl_map_set_dim_name(got, isl_dim_param, i, par[i].c_str());
  IslLimit lim(ctx, 2000000);
  isl_bool eq = isl_map_is_equal(got, want);
  if (lim.hit() || eq == isl_bool_error) r.st = INCONCLUSIVE;
  else if (eq == isl_bool_false) r.fail("to an isl map", "the map is " + to_str(got) + "\nfor " + text);
  isl_map_free(got);
  isl_map_free(want);
  pluto_constraints_free(q);
  isl_ctx_free(ctx);
  pluto_context_free(c);
}
static Reg v5("C11", "relations", 1, 200, 10, to_map);
