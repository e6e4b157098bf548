// C08: the string interface and the remapping to the original iterators.
#include "api.hpp"
#include "interp.hpp"
#include <cstdlib>
#include <cstring>
#include <set>
#include <pluto/matrix.h>
extern "C" {
void pluto_matrix_free(PlutoMatrix *);
}
using namespace std;
using namespace pbt;

static string mat_str(const PlutoMatrix *m, const int *divs) {
  string t;
  for (unsigned i = 0; i < m->nrows; i++) {
    for (unsigned j = 0; j < m->ncols; j++) t += strf(" %ld", (long)m->val[i][j]);
    t += strf("  / %d\n", divs[i]);
  }
  return t;
}

// Every instance of the schedule leads back to its own iterators.
static bool check_remap(Result &r, const GProg &p, isl_union_map *m, const Remapping &rm, const vector<long> &pv) {
  if (rm.nstmts != p.st.size()) {
    r.fail("remapping: statements", strf("%u statements are remapped, not %zu", rm.nstmts, p.st.size()));
    return true;
  }
  bool any = false;
  for (isl_map *x : maps_of(m)) {
    int id = atoi(isl_map_get_tuple_name(x, isl_dim_in) + 2), nt = isl_map_dim(x, isl_dim_out), dim = p.st[id].dim;
    const PlutoMatrix *q = rm.stmt_inv_matrices[id];
    const int *divs = rm.stmt_divs[id];
    isl_map *f = fix_params_map(isl_map_copy(x), p.par, pv);
    vector<vector<long>> pts;
    isl_set *w = isl_set_flatten(isl_map_wrap(f));
    bool ok = enumerate(w, pts, 4000);
    if (!ok) {
      isl_map_free(x);
      continue;
    }
    if ((int)q->ncols != nt + p.npar + 1 || (int)q->nrows < dim + p.npar + 1) {
      r.fail("remapping: shape", strf("S_%d: %u x %u for %d time dimensions\n", id, q->nrows, q->ncols, nt) + to_str(x));
      isl_map_free(x);
      continue;
    }
    int sn = (int)q->nrows - dim - p.npar - 1;
    for (auto &v : pts) {
      vector<long> in(v.begin() + dim, v.end());
      in.insert(in.end(), pv.begin(), pv.end());
      in.push_back(1);
      vector<long> want(v.begin(), v.begin() + dim);
      want.insert(want.end(), pv.begin(), pv.end());
      want.push_back(1);
      for (unsigned i = 0; i < q->nrows; i++) {
        long sum = 0;
        for (unsigned j = 0; j < q->ncols; j++) sum += q->val[i][j] * in[j];
        if (divs[i] < 1 || sum % divs[i] || ((int)i >= sn && sum / divs[i] != want[i - sn])) {
          string t;
          for (long z : v) t += strf(" %ld", z);
          r.fail("remapping", strf("S_%d, iterators and time%s: row %u gives %ld / %d\n", id, t.c_str(), i, sum, divs[i]) + mat_str(q, divs) + to_str(x));
          break;
        }
        any = true;
      }
      if (r.failed()) break;
    }
    isl_map_free(x);
  }
  return any;
}

static void strings(Src &s, Result &r, const ProgOpts &po, const OptOpts &oo) {
  GProg p = gen_prog(s, po);
  GOpts o = gen_opts(s, oo);
  vector<long> pv = gen_params(s, p, 3, 6);
  bool only_remap = s.chance(1, 4);
  o.silent = !s.chance(1, 4);
  p.with_accesses = false;
  r.desc = p.describe() + o.describe() + (only_remap ? " (remapping only)" : "");
  for (int i = 0; i < p.npar; i++) r.desc += strf(" %s=%ld", p.par[i].c_str(), pv[i]);
  if (describe_only()) return;
  IslProg ip;
  if (!make_isl(p, ip)) { r.st = INCONCLUSIVE; return; }
  if (ip.ndeps > po.max_deps) { r.st = DISCARD; return; }
  CaptureStdout cap;
  isl_union_map *m = run_transform(p, ip, o);
  string dom = to_str(ip.dom), deps = to_str(ip.deps);
  PlutoContext *c = pluto_context_alloc();
  o.apply(c);
  bool any = false;
  if (only_remap) {
    Remapping rm;
    memset(&rm, 0xff, sizeof rm);
    pluto_get_remapping_str(dom.c_str(), deps.c_str(), c, &rm);
    if (!m) {
      if (rm.nstmts) r.fail("remapping without a schedule", "no schedule was found, yet there is a remapping");
    } else any = check_remap(r, p, m, rm, pv);
    pluto_remapping_free(rm);
  } else {
    char *text = NULL, *loops = NULL;
    Remapping *rm = NULL;
    pluto_schedule_str(dom.c_str(), deps.c_str(), &text, &loops, &rm, c);
    if (!text != !m) r.fail("schedule or not", m ? "no schedule through the string interface" : "a schedule only through the string interface");
    else if (text) {
      IslLimit lim(ip.ctx, 20000000);
      isl_union_map *t = isl_union_map_read_from_str(ip.ctx, text);
      if (!t && !lim.hit()) r.fail("unreadable schedule", text);
      if (t) t = isl_union_map_intersect_domain(t, isl_union_set_copy(ip.dom));
      isl_bool eq = isl_union_map_is_equal(t, m);
      if (eq == isl_bool_false)
        r.fail("other schedule", string("through the string interface: ") + text + "\notherwise: " + to_str(m));
      isl_union_map_free(t);
      if (!rm) r.fail("no remapping", text);
      else any = check_remap(r, p, m, *rm, pv);
      if (!o.parallel) {
        if (loops) r.fail("parallel loops not asked for", loops);
      } else if (!loops) r.fail("no parallel loops", "the list of parallel loops is missing");
      else {
        // n,d1,...,dn: at each of these depths some statement's instances are not ordered
        vector<long> v;
        char *e = loops;
        while (*e) {
          char *b = e;
          v.push_back(strtol(b, &e, 10));
          if (e == b) break;
          if (*e == ',') e++;
        }
        string bad;
        if (*e || v.empty() || v[0] != (long)v.size() - 1) bad = "malformed list";
        r.tag("parallel_loops", v.size() - 1);
        for (size_t i = 1; i < v.size() && bad.empty(); i++) {
          bool found = false;
          for (isl_map *x : maps_of(m)) {
            int nt = isl_map_dim(x, isl_dim_out);
            isl_map_free(x);
            if (v[i] < 1 || v[i] > nt) { bad = "no such depth"; continue; }
          }
          if (!bad.empty()) break;
          for (isl_map *x : maps_of(m)) {
            string nm = isl_map_get_tuple_name(x, isl_dim_in);
            bool carried = false;
            for (isl_map *d : maps_of(ip.deps)) {
              if (nm == isl_map_get_tuple_name(d, isl_dim_in) && nm == isl_map_get_tuple_name(d, isl_dim_out)) {
                isl_map *t = isl_map_apply_range(isl_map_apply_domain(isl_map_copy(d), isl_map_copy(x)), isl_map_copy(x));
                for (int k = 0; k < v[i] - 1; k++) t = isl_map_equate(t, isl_dim_in, k, isl_dim_out, k);
                isl_map *l = isl_map_order_lt(isl_map_copy(t), isl_dim_in, v[i] - 1, isl_dim_out, v[i] - 1);
                isl_map *g = isl_map_order_gt(t, isl_dim_in, v[i] - 1, isl_dim_out, v[i] - 1);
                t = isl_map_union(l, g);
                carried |= isl_map_is_empty(t) == isl_bool_false;
                isl_map_free(t);
              }
              isl_map_free(d);
            }
            found |= !carried;
            isl_map_free(x);
          }
          if (!found) bad = strf("every statement's loop at depth %ld carries a dependence", v[i]);
        }
        if (!bad.empty() && !lim.hit()) r.fail("parallel loops", bad + ": " + loops + "\nschedule: " + text);
      }
      if (!r.failed() && (eq == isl_bool_error || lim.hit())) r.st = INCONCLUSIVE;
    }
    if (rm) pluto_remapping_free(*rm);
    free(rm);
    free(loops);
    if (text) pluto_schedules_strbuf_free(text);
  }
  pluto_context_free(c);
  if (r.st == OK && !any) r.st = TRIVIAL;
  if (m) isl_union_map_free(m);
}
static Reg s1("C08", "core", 5, 40, 10, [](Src &s, Result &r) {
  ProgOpts po;
  po.permute_params = false;
  OptOpts oo;
  oo.core = true;
  strings(s, r, po, oo);
});
static Reg s2("C08", "wide", 3, 40, 10, [](Src &s, Result &r) {
  ProgOpts po;
  OptOpts oo;
  oo.dfp = oo.diamond = false;
  strings(s, r, po, oo);
});
static Reg s3("C08", "stencil~", 2, 40, 10, [](Src &s, Result &r) {
  ProgOpts po;
  po.stencil = true;
  OptOpts oo;
  oo.dfp = false;
  strings(s, r, po, oo);
});
static Reg s4("C08", "big", 1, 40, 10, [](Src &s, Result &r) {
  OptOpts oo;
  oo.core = true;
  ProgOpts po = big_prog(s);
  strings(s, r, po, oo);
});
