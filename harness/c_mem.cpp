// C26: a call gives back all the memory it took.
#include "api.hpp"
#include <algorithm>
#include <cstdio>
#include <cstring>
#include <map>
#include <set>
#include <pluto/matrix.h>
#include <pluto/pluto.h>
#include "constraints.h"
#include "math_support.h"
#include "program.h"
using namespace std;
using namespace pbt;
extern "C" size_t __sanitizer_get_current_allocated_bytes();
extern "C" int __lsan_do_recoverable_leak_check();

extern "C" void pluto_constraints_project_out_isl(PlutoConstraints *, int, int);

namespace {
enum Api { TRANSFORM, SCHEDULE, STRING, REMAPPING };
// One call from nothing to nothing: nothing is left of what it was given, of
// what it returned, or of the contexts.
bool once(const GProg &p, const ProgOpts &po, const GOpts &o, Api api, string &what) {
  isl_ctx *ctx;
  bool ok;
  what = "";
  {
    IslProg ip;
    ok = make_isl(p, ip) && ip.ndeps <= po.max_deps;
    ctx = ip.ctx;
    if (ok && api <= SCHEDULE) {
      isl_union_map *m = api == SCHEDULE ? run_schedule(p, ip, o) : run_transform(p, ip, o);
      if (m) what = "schedule";
      isl_union_map_free(m);
    } else if (ok) {
      string dom = to_str(ip.dom), deps = to_str(ip.deps);
      PlutoContext *c = pluto_context_alloc();
      o.apply(c);
      if (api == REMAPPING) {
        Remapping rm;
        memset(&rm, 0, sizeof rm);
        pluto_get_remapping_str(dom.c_str(), deps.c_str(), c, &rm);
        if (rm.nstmts) what = "schedule";
        pluto_remapping_free(rm);
      } else {
        char *text = NULL, *loops = NULL;
        Remapping *rm = NULL;
        pluto_schedule_str(dom.c_str(), deps.c_str(), &text, &loops, &rm, c);
        if (text) what = "schedule";
        free(text);
        free(loops);
        if (rm) pluto_remapping_free(*rm), free(rm);
      }
      pluto_context_free(c);
    }
  }
  isl_ctx_free(ctx);
  return ok;
}
void check(Result &r, const GProg &p, const ProgOpts &po, const GOpts &o, Api api) {
  static const char *names[] = {" (pluto_transform)", " (pluto_schedule)", " (pluto_schedule_str)", " (pluto_get_remapping_str)"};
  r.desc = p.describe() + o.describe() + names[api];
  if (describe_only()) return;
  CaptureStdout cap;
  string what;
  bool ok = once(p, po, o, api, what);
  if (!ok) { r.st = DISCARD; return; }
  size_t v[4], grown = SIZE_MAX;
  v[0] = __sanitizer_get_current_allocated_bytes();
  // The first calls may still fill caches: only what every further call adds counts.
  for (int i = 1; i < 4; i++) {
    once(p, po, o, api, what);
    v[i] = __sanitizer_get_current_allocated_bytes();
    grown = min(grown, v[i] > v[i - 1] ? v[i] - v[i - 1] : 0);
    if (!grown) break;
  }
  if (what.empty()) r.tag("without a schedule");
  if (grown) {
    if (getenv("PBT_LSAN")) __lsan_do_recoverable_leak_check();
    r.fail("memory not given back", strf("%zu bytes per call", grown));
  }
}
void any(Src &s, Result &r, ProgOpts po, bool diamond, bool str) {
  GProg p = gen_prog(s, po);
  OptOpts oo;
  oo.diamond = diamond;
  oo.tss = s.chance(1, 8);
  GOpts o = gen_opts(s, oo);
  o.silent = !s.chance(1, 4);
  Api api = str ? (s.chance(1, 4) ? REMAPPING : STRING) : p.depmode != 2 && s.chance(1, 3) ? SCHEDULE : TRANSFORM;
  if (str) p.with_accesses = false;
  check(r, p, po, o, api);
}
void files(Src &s, Result &r) {
  ProgOpts po;
  po.max_stmts = 4;
  GProg p = gen_prog(s, po);
  OptOpts oo;
  oo.core = true;
  GOpts o = gen_opts(s, oo);
  int n = p.st.size();
  set<int> tops;
  for (auto &t : p.st) tops.insert(t.beta[0]);
  map<int, int> g;
  int k = 0;
  for (int b : tops) {
    if (b != *tops.begin() && s.chance(2, 3)) k++;
    g[b] = k;
  }
  if (s.chance(2, 3)) {
    o.fst = to_string(s.chance(1, 8) ? n + 1 : k + 1) + "\n";  // too many groups are refused
    for (int i = 0; i <= k; i++) {
      string l;
      int c = 0;
      for (int j = 0; j < n; j++)
        if (g[p.st[j].beta[0]] == i) l += to_string(j) + " ", c++;
      o.fst += strf("%d\n%s\n%d\n", c, l.c_str(), s.chance(1, 3) ? 0 : s.range(1, 3));
    }
  } else {
    o.tile = 0;
    o.precut = strf("%d\n1\n", n);
    for (int j = 0; j < n; j++) {
      o.precut += strf("1 %d\n0", 1 + p.st[j].dim + p.npar + 1);
      for (int x = 0; x < p.st[j].dim + p.npar; x++) o.precut += " 0";
      o.precut += strf(" %d\n0\n1\n", p.st[j].beta[0]);
    }
  }
  check(r, p, po, o, TRANSFORM);
}
// Histories of operations on systems of constraints and matrices.
struct Step {
  int op;
  vector<long> v;
};
PlutoConstraints *system_of(PlutoContext *c, const vector<long> &v, int nv, int at) {
  int n = 1 + v[at % v.size()] % 3;
  n = n < 1 ? 1 : n;
  PlutoConstraints *q = pluto_constraints_alloc(n + 2 * nv, nv + 1, c);
  for (int i = 0; i < n; i++) {
    pluto_constraints_add_constraint(q, v[(at + i) % v.size()] == 1);
    for (int j = 0; j <= nv; j++) q->val[i][j] = v[(at + 3 * i + j) % v.size()];
  }
  for (int j = 0; j < nv; j++) {
    pluto_constraints_add_lb(q, j, -4);
    pluto_constraints_add_ub(q, j, 4);
  }
  return q;
}
const char *op_names[] = {"dup", "intersection", "union", "union_isl", "difference", "subtract", "unionize", "intersect_isl", "project_out",
                          "project_out_isl", "simplify", "is_empty", "are_equal", "lexmin", "lexmin_isl", "const bounds", "image", "matrices",
                          "add_dim, remove_dim", "isl set", "select_row", "farkas", "copy", "add_to_each", "matrix algebra", "inequalities", "names", "extent", "project_out of all"};
void step(PlutoContext *c, PlutoConstraints **a, const Step &t, isl_ctx *ctx) {
  int nv = (*a)->ncols - 1;
  PlutoConstraints *b = system_of(c, t.v, nv, 1), *x = NULL;
  switch (t.op) {
  case 0: x = pluto_constraints_dup(*a); break;
  case 1: x = pluto_constraints_intersection(*a, b); break;
  case 2: x = pluto_constraints_union(*a, b); break;
  case 3: x = pluto_constraints_union_isl(*a, b); break;
  case 4: x = pluto_constraints_difference(*a, b); break;
  case 5: pluto_constraints_subtract(*a, b); break;
  case 6: *a = pluto_constraints_unionize(*a, b); break;
  case 7: pluto_constraints_intersect_isl(*a, b); break;
  case 8:
    x = pluto_constraints_dup_single(*a);
    pluto_constraints_project_out(x, t.v[0] >= 0 ? 0 : nv - 1, 1);
    break;
  case 9:
    x = pluto_constraints_dup_single(*a);
    pluto_constraints_project_out_isl_single(&x, 0, 1);
    break;
  case 10: pluto_constraints_simplify(*a); break;
  case 11: pluto_constraints_is_empty(*a); break;
  case 12: pluto_constraints_are_equal(*a, b); break;
  case 13: free(pluto_constraints_lexmin(b, t.v[0] > 0)); break;
  case 14: free(pluto_constraints_lexmin_isl(b, t.v[0] > 0)); break;
  case 15: {
    int64_t z;
    pluto_constraints_get_const_lb(*a, 0, &z);
    pluto_constraints_get_const_ub(*a, 0, &z);
    break;
  }
  case 16: {
    PlutoMatrix *f = pluto_matrix_alloc(nv, nv + 1, c);
    for (int i = 0; i < nv; i++)
      for (int j = 0; j <= nv; j++) f->val[i][j] = t.v[(i + j) % t.v.size()];
    x = pluto_constraints_image(b, f);
    pluto_matrix_free(f);
    break;
  }
  case 17: {
    PlutoMatrix *f = pluto_constraints_to_matrix(b), *e = pluto_constraints_extract_equalities(b), *h = pluto_matrix_identity(nv + 2, c);
    PlutoMatrix *g = pluto_matrix_product(f, h);
    pluto_matrix_get_rank(f);
    x = pluto_constraints_from_matrix(g);
    for (PlutoMatrix *m : {f, e, g, h}) pluto_matrix_free(m);
    break;
  }
  case 18:
    pluto_constraints_add_dim(b, 0, t.v[0] > 0 ? "x" : NULL);
    pluto_constraints_add_dim(b, nv, NULL);
    pluto_constraints_remove_dim(b, t.v[0] > 0 ? 0 : nv);
    pluto_constraints_remove_row(b, 0);
    break;
  case 19: {
    isl_set *w = isl_set_from_pluto_constraints(*a, ctx);
    x = isl_set_to_pluto_constraints(w, c);
    isl_set_free(w);
    break;
  }
  case 20:
    x = pluto_constraints_select_row(b, 0);
    pluto_constraints_negate_constraint(x, 0);
    break;
  case 21: {
    PlutoMatrix *f = pluto_matrix_alloc(nv + 1, nv + 2, c);
    pluto_matrix_set(f, 0);
    for (int i = 0; i <= nv; i++) f->val[i][i] = 1;
    x = farkas_lemma_affine(b, f);
    pluto_matrix_free(f);
    break;
  }
  case 22:
    x = pluto_constraints_alloc(1, 1, c);
    pluto_constraints_copy(x, *a);
    break;
  case 23: pluto_constraints_add_to_each(*a, b); break;
  case 24: {
    PlutoMatrix *f = pluto_matrix_alloc(nv, nv, c);
    for (int i = 0; i < nv; i++)
      for (int j = 0; j < nv; j++) f->val[i][j] = i == j ? 1 : j > i ? t.v[(i + j) % t.v.size()] : 0;
    PlutoMatrix *g = pluto_matrix_inverse(f), *h = pluto_matrix_dup(f);
    pluto_matrix_add_row(f, 0);
    pluto_matrix_add_col(f, 0);
    pluto_matrix_remove_row(f, 0);
    pluto_matrix_remove_col(f, 0);
    pluto_matrix_add(f, h);
    gaussian_eliminate(f, 0, nv);
    for (PlutoMatrix *m : {f, g, h}) pluto_matrix_free(m);
    break;
  }
  case 25:
    x = pluto_constraints_to_pure_inequalities_single(b);
    free(concat("a", "b"));
    break;
  case 26: {
    vector<string> nm;
    for (int i = 0; i < nv; i++) nm.push_back(strf("v%d", i));
    vector<char *> q;
    for (auto &z : nm) q.push_back((char *)z.c_str());
    pluto_constraints_set_names(b, q.data());
    x = pluto_constraints_dup(b);
    pluto_constraints_remove_names_single(b);
    break;
  }
  case 27: get_const_bound_difference(t.v[0] > 0 ? *a : b, 0); break;
  case 28:
    x = pluto_constraints_dup(*a);
    pluto_constraints_project_out_isl(x, 0, 1);
    break;
  }
  pluto_constraints_free(x);
  pluto_constraints_free(b);
}
void objects(Src &s, Result &r) {
  int nv = s.range(1, 3);
  vector<Step> st;
  int n = s.range(1, 6);
  for (int i = 0; i < n; i++) {
    Step t;
    t.op = s.draw(29);
    for (int j = 0; j < 12; j++) t.v.push_back(s.chance(1, 2) ? s.signed_(2) : 0);
    st.push_back(t);
  }
  r.desc = strf("%d variables:", nv);
  for (auto &t : st) {
    r.desc += string(" ") + op_names[t.op] + "(";
    for (long x : t.v) r.desc += strf(" %ld", x);
    r.desc += " )";
  }
  if (describe_only()) return;
  auto run = [&] {
    PlutoContext *c = pluto_context_alloc();
    c->options->silent = 1;
    isl_ctx *ctx = isl_ctx_alloc();
    PlutoConstraints *a = system_of(c, st[0].v, nv, 0);
    for (auto &t : st) {
      if (pluto_constraints_num_in_list(a) > 6) break;
      step(c, &a, t, ctx);
    }
    pluto_constraints_free(a);
    isl_ctx_free(ctx);
    pluto_context_free(c);
  };
  run();
  size_t grown = SIZE_MAX, v = __sanitizer_get_current_allocated_bytes();
  for (int i = 0; i < 12 && grown; i++) {
    run();
    size_t w = __sanitizer_get_current_allocated_bytes();
    grown = min(grown, w > v ? w - v : 0);
    v = w;
  }
  if (grown) {
    if (getenv("PBT_LSAN")) __lsan_do_recoverable_leak_check();
    r.fail("memory not given back", strf("%zu bytes", grown));
  }
}
}  // namespace

static Reg m0("C26", "objects~", 2, 40, 20, objects);
static Reg m1("C26", "transform~", 4, 40, 20, [](Src &s, Result &r) {
  ProgOpts po;
  po.max_stmts = 4;
  any(s, r, po, s.chance(1, 4), false);
});
static Reg m2("C26", "stencil~", 1, 40, 20, [](Src &s, Result &r) {
  ProgOpts po;
  po.stencil = true;
  any(s, r, po, s.chance(2, 3), false);
});
static Reg m3("C26", "string~", 1, 40, 20, [](Src &s, Result &r) {
  ProgOpts po;
  po.max_stmts = 3;
  any(s, r, po, s.chance(1, 4), true);
});
static Reg m4("C26", "files~", 1, 40, 20, [](Src &s, Result &r) { files(s, r); });
