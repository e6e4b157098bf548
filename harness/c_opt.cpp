// C24: the loops chosen keep dependences as short as any other choice would.
#include "api.hpp"
#include <algorithm>
#include <isl/ilp.h>
#include <isl/lp.h>
#include <set>
using namespace std;
using namespace pbt;

namespace {
typedef vector<long> Vec;
struct D {
  int src, dest;
  isl_basic_set *b;      // source, target
  isl_basic_set *valid;  // for parameter values at which all statements run
};
// The rows of a statement's schedule: iterators, parameters, 1.
bool rows_of(isl_map *x, vector<Vec> &out) {
  int n = isl_map_dim(x, isl_dim_out), d = isl_map_dim(x, isl_dim_in), np = isl_map_dim(x, isl_dim_param);
  for (int l = 0; l < n; l++) {
    isl_map *y = isl_map_project_out(isl_map_copy(x), isl_dim_out, l + 1, n - l - 1);
    y = isl_map_project_out(y, isl_dim_out, 0, l);
    isl_pw_multi_aff *pma = isl_pw_multi_aff_from_map(y);
    if (!pma) return false;
    isl_pw_aff *pa = isl_pw_multi_aff_get_pw_aff(pma, 0);
    isl_pw_multi_aff_free(pma);
    struct U { Vec v; int n, d, np; bool ok; } u = {{}, 0, d, np, true};
    isl_pw_aff_foreach_piece(pa, [](isl_set *st, isl_aff *a, void *q) {
      U *u = (U *)q;
      u->n++;
      auto get = [&](isl_val *v) {
        if (!isl_val_is_int(v)) u->ok = false;
        u->v.push_back(isl_val_get_num_si(v));
        isl_val_free(v);
      };
      if (isl_aff_dim(a, isl_dim_div)) u->ok = false;
      for (int i = 0; i < u->d; i++) get(isl_aff_get_coefficient_val(a, isl_dim_in, i));
      for (int i = 0; i < u->np; i++) get(isl_aff_get_coefficient_val(a, isl_dim_param, i));
      get(isl_aff_get_constant_val(a));
      isl_set_free(st);
      isl_aff_free(a);
      return isl_stat_ok;
    }, &u);
    isl_pw_aff_free(pa);
    if (!u.ok || u.n != 1) return false;
    out.push_back(u.v);
  }
  return true;
}
// The distance of a dependence for two rows (iterators, parameters, 1).
isl_aff *distance(isl_basic_set *b, const Vec &a, const Vec &c, int ds, int dd, int np) {
  isl_aff *f = isl_aff_zero_on_domain(isl_local_space_from_space(isl_basic_set_get_space(b)));
  for (int i = 0; i < ds; i++) f = isl_aff_set_coefficient_si(f, isl_dim_in, i, -a[i]);
  for (int i = 0; i < dd; i++) f = isl_aff_set_coefficient_si(f, isl_dim_in, ds + i, c[i]);
  for (int i = 0; i < np; i++) f = isl_aff_set_coefficient_si(f, isl_dim_param, i, c[dd + i] - a[ds + i]);
  return isl_aff_set_constant_si(f, c[dd + np] - a[ds + np]);
}
// Rational extremes, rounded up; false if there is none.
bool extreme(isl_basic_set *b, isl_aff *f, bool max, long &v) {
  isl_val *m = max ? isl_basic_set_max_lp_val(b, f) : isl_basic_set_min_lp_val(b, f);
  bool ok = m && isl_val_is_rat(m);
  if (ok) {
    m = max ? isl_val_ceil(m) : isl_val_floor(m);
    v = isl_val_get_num_si(m);
  }
  isl_val_free(m);
  return ok;
}
struct Par { vector<D> d; ~Par() { for (auto &x : d) isl_basic_set_free(x.b), isl_basic_set_free(x.valid); } };
}  // namespace

static void shortest(Src &s, Result &r, const ProgOpts &po) {
  GProg p = gen_prog(s, po);
  OptOpts oo;
  oo.core = true;
  oo.files = false;
  GOpts o = gen_opts(s, oo);
  o.tile = o.parallel = o.intratileopt = o.diamondtile = o.per_cc_obj = o.nodepbound = o.iss = o.identity = 0;
  o.coeff_bound = -1;
  o.solver = o.lp = o.dfp = 0;  // glpk weighs distances against coefficients
  o.tile_sizes.clear();
  int tries = 8 + (int)s.draw(24);
  vector<long> pick;
  for (int i = 0; i < 64; i++) pick.push_back(s.draw(16));
  r.desc = p.describe() + o.describe();
  if (describe_only()) return;
  IslProg ip;
  if (!make_isl(p, ip)) { r.st = INCONCLUSIVE; return; }
  if (ip.ndeps > po.max_deps) { r.st = DISCARD; return; }
  PlutoContext *c = pluto_context_alloc();
  o.apply(c);
  isl_union_map *m = pluto_transform(isl_union_set_copy(ip.dom), isl_union_map_copy(ip.deps), NULL, NULL, c);
  pluto_context_free(c);
  if (!m) { r.st = TRIVIAL; return; }
  int n = p.st.size(), np = 0;
  vector<vector<Vec>> T(n);
  bool ok = true;
  for (isl_map *x : maps_of(m)) {
    int id = atoi(isl_map_get_tuple_name(x, isl_dim_in) + 2);
    np = isl_map_dim(x, isl_dim_param);
    ok = ok && rows_of(x, T[id]);
    isl_map_free(x);
  }
  string text = "\nschedule: " + to_str(m);
  isl_union_map_free(m);
  if (!ok || T[0].empty()) { r.st = TRIVIAL; return; }
  int L = T[0].size();
  auto loop = [&](int q, int l) {
    for (int i = 0; i < p.st[q].dim; i++)
      if (T[q][l][i]) return true;
    return false;
  };
  // Parameter values at which every statement has an instance.
  isl_set *ctx = nullptr;
  for (isl_set *x : sets_of(ip.dom)) {
    x = isl_set_params(x);
    ctx = ctx ? isl_set_intersect(ctx, x) : x;
  }
  for (int i = 0; i < np; i++) ctx = isl_set_lower_bound_si(ctx, isl_dim_param, i, 0);
  Par all;
  for (isl_map *x : maps_of(ip.deps)) {
    int a = atoi(isl_map_get_tuple_name(x, isl_dim_in) + 2), c = atoi(isl_map_get_tuple_name(x, isl_dim_out) + 2);
    struct U { Par *p; int a, c; isl_set *ctx; } u = {&all, a, c, ctx};
    isl_map_foreach_basic_map(x, [](isl_basic_map *b, void *q) {
      U *u = (U *)q;
      b = isl_basic_map_remove_divs(b);
      auto flat = [](isl_basic_map *b) { return isl_basic_set_flatten(isl_basic_map_wrap(b)); };
      isl_map *v = isl_map_intersect_params(isl_map_from_basic_map(isl_basic_map_copy(b)), isl_set_copy(u->ctx));
      u->p->d.push_back({u->a, u->c, flat(b), nullptr});
      // a convex superset will not do: look at each part
      v = isl_map_compute_divs(v);
      isl_map_foreach_basic_map(v, [](isl_basic_map *b, void *q) {
        U *u = (U *)q;
        u->p->d.push_back({u->a, u->c, nullptr, isl_basic_set_flatten(isl_basic_map_wrap(b))});
        return isl_stat_ok;
      }, q);
      isl_map_free(v);
      return isl_stat_ok;
    }, &u);
    isl_map_free(x);
  }
  isl_set_free(ctx);
  // Levels before the first loop; dependences they satisfy do not count.
  int first = 0;
  auto scalar = [&](int l) {
    for (int q = 0; q < n; q++) {
      if (loop(q, l)) return false;
      for (int i = 0; i < np; i++)
        if (T[q][l][p.st[q].dim + i]) return false;
    }
    return true;
  };
  while (first < L && scalar(first)) first++;
  if (first == L) { r.st = TRIVIAL; return; }
  vector<bool> live(all.d.size(), true);
  int nl = 0;
  for (size_t k = 0; k < all.d.size(); k++) {
    for (int l = 0; l < first; l++)
      if (T[all.d[k].dest][l].back() > T[all.d[k].src][l].back()) live[k] = false;
    nl += live[k] && all.d[k].b;
  }
  if (!nl) { r.st = TRIVIAL; return; }
  // The longest distance of a choice of rows on parts of the dependences.
  auto legal_bound = [&](const vector<Vec> &h, long &bound) {
    bound = 0;
    for (size_t k = 0; k < all.d.size(); k++) {
      const D &d = all.d[k];
      if (!live[k] || !d.b) continue;
      isl_aff *f = distance(d.b, h[d.src], h[d.dest], p.st[d.src].dim, p.st[d.dest].dim, np);
      long lo = 0, hi = 0;
      bool good = extreme(d.b, f, false, lo) && lo >= 0 && extreme(d.b, f, true, hi);
      isl_aff_free(f);
      if (!good) return false;
      bound = max(bound, hi);
    }
    return true;
  };
  // The distance at a level on the parts; -1 if without limit.
  auto reached = [&](int l) {
    long w = 0;
    for (size_t k = 0; k < all.d.size(); k++) {
      const D &d = all.d[k];
      if (!live[k] || !d.valid) continue;
      isl_aff *f = distance(d.valid, T[d.src][l], T[d.dest][l], p.st[d.src].dim, p.st[d.dest].dim, np);
      isl_val *v = isl_basic_set_max_val(d.valid, f);
      isl_aff_free(f);
      if (v && isl_val_is_int(v)) w = max(w, isl_val_get_num_si(v));
      else if (v && isl_val_is_infty(v)) w = 1L << 40;
      isl_val_free(v);
    }
    return w;
  };
  bool several = false;
  for (int q = 1; q < n; q++) several |= true;
  int done = 0, feasible = 0;
  for (int l = first; l < L && !r.failed(); l++) {
    if (l > first) {
      // Further loops: a single statement whose earlier loops are original ones.
      if (several) break;
      int nz = 0;
      for (int i = 0; i < p.st[0].dim; i++) nz += T[0][l - 1][i] != 0;
      long sum = 0;
      for (int i = 0; i < p.st[0].dim; i++) sum += labs(T[0][l - 1][i]);
      if (nz != 1 || sum != 1) break;
      if (!loop(0, l)) break;
    }
    long w = reached(l);
    set<int> used;
    for (int k = first; k < l; k++)
      for (int i = 0; i < p.st[0].dim; i++)
        if (T[0][k][i]) used.insert(i);
    for (int t = 0; t < tries && !r.failed(); t++) {
      vector<Vec> h(n);
      bool nontrivial = true;
      for (int q = 0; q < n; q++) {
        Vec v(p.st[q].dim + np + 1, 0);
        int x = pick[(t * 7 + q * 3) % 64], y = pick[(t * 11 + q * 5 + 1) % 64];
        bool some = false;
        if (p.st[q].dim) {
          if (t % 4 < 3) v[several && t % 4 < 2 ? min((int)(t % p.st[q].dim), p.st[q].dim - 1) : x % p.st[q].dim] = 1;
          if (t % 2) v[y % p.st[q].dim] += 1 + (x & 1);
          for (int i = 0; i < p.st[q].dim; i++) some |= v[i] && (l == first || !used.count(i));
          if (!some) nontrivial = false;
        }
        v.back() = several && t >= 3 ? (y / 4) % 3 : 0;
        h[q] = v;
      }
      if (!nontrivial) continue;
      long b;
      done++;
      if (!legal_bound(h, b)) continue;
      feasible++;
      if (w > b) {
        string z;
        for (auto &v : h) {
          z += " (";
          for (size_t i = 0; i < v.size(); i++) z += strf("%s%ld", i ? "," : "", v[i]);
          z += ")";
        }
        r.fail("longer distances", strf("level %d has distances up to %ld where%s has up to %ld", l, w, z.c_str(), b) + text);
      }
    }
  }
  r.tag("choices", done);
  r.tag("feasible", feasible);
  if (!r.failed() && !feasible) r.st = TRIVIAL;
}

static Reg o1("C24", "programs", 3, 40, 10, [](Src &s, Result &r) {
  ProgOpts po;
  po.max_stmts = 4;
  shortest(s, r, po);
});
static Reg o2("C24", "single", 4, 40, 10, [](Src &s, Result &r) {
  ProgOpts po;
  po.max_stmts = 1;
  shortest(s, r, po);
});
static Reg o3("C24", "stencil", 2, 40, 10, [](Src &s, Result &r) {
  ProgOpts po;
  po.max_stmts = 3;
  po.stencil = true;
  shortest(s, r, po);
});
static Reg o4("C24", "big", 1, 40, 10, [](Src &s, Result &r) {
  ProgOpts po = big_prog(s);
  shortest(s, r, po);
});
