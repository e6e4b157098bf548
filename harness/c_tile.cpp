// C06: tiles are boxes of the asked sizes over the untiled schedule.
#include "api.hpp"
#include <cstdlib>
#include <cstring>
#include <set>
using namespace std;
using namespace pbt;

// A time dimension as a sum of terms floor(floor(u[dim] / d1) / d2).
struct Term {
  int dim;
  long d1, d2;
};
typedef vector<Term> Expr;  // empty: 0
typedef vector<Expr> Shape;

static long fdiv(long a, long b) { return a >= 0 ? a / b : -((-a + b - 1) / b); }
static long eval(const Expr &e, const vector<long> &u) {
  long v = 0;
  for (auto &t : e) v += fdiv(fdiv(u[t.dim], t.d1), t.d2);
  return v;
}
static string str(const Shape &sh, int n, const vector<string> &par) {
  string t = "[";
  for (size_t i = 0; i < par.size(); i++) t += (i ? ", " : "") + par[i];
  t += "] -> { [";
  for (int i = 0; i < n; i++) t += strf("%su%d", i ? ", " : "", i);
  t += "] -> [";
  for (size_t i = 0; i < sh.size(); i++) {
    if (i) t += ", ";
    if (sh[i].empty()) t += "0";
    for (size_t k = 0; k < sh[i].size(); k++) {
      auto &x = sh[i][k];
      if (k) t += " + ";
      if (x.d1 == 1 && x.d2 == 1) t += strf("u%d", x.dim);
      else if (x.d2 == 1) t += strf("floor(u%d/%ld)", x.dim, x.d1);
      else t += strf("floor(floor(u%d/%ld)/%ld)", x.dim, x.d1, x.d2);
    }
  }
  return t + "] }";
}

static isl_map *of_stmt(isl_union_map *m, int id) {
  for (isl_map *x : maps_of(m)) {
    if (atoi(isl_map_get_tuple_name(x, isl_dim_in) + 2) == id) return x;
    isl_map_free(x);
  }
  return NULL;
}
// A point of the image with coordinates of some size, all parameters fixed.
static bool sample(isl_map *both, const GProg &p, long val, bool max, vector<long> &out) {
  vector<long> pv(p.npar, val);
  isl_map *f = fix_params_map(isl_map_copy(both), p.par, pv);
  isl_set *w = isl_set_flatten(isl_map_wrap(f));
  if (isl_set_is_bounded(w) != isl_bool_true) {
    isl_set_free(w);
    return false;
  }
  w = max ? isl_set_lexmax(w) : isl_set_lexmin(w);
  vector<vector<long>> pts;
  if (!enumerate(w, pts, 2) || pts.empty()) return false;
  out = pts[0];
  return true;
}

static void shapes(int n, int n2, const vector<bool> &scalar, const GOpts &o, vector<Shape> &all, vector<array<int, 2>> &band) {
  int levels = o.tile ? 1 + o.second_level_tile : 0;
  for (int a = 0; a <= n; a++)
    for (int w = 0; a + w <= n; w++) {
      if (w == 0 && a > 0) continue;
      if (n + w * levels > n2) continue;
      vector<int> sc;
      for (int k = 0; k < w; k++)
        if (scalar[a + k]) sc.push_back(k);
      if (sc.size() > 4) continue;
      int combos = 1;
      for (size_t q = 0; levels && q < sc.size(); q++) combos *= 3;
      for (int mask = 0; mask < combos; mask++) {
        // a dimension that is constant here: not a loop (0), a loop for another
        // statement, which takes a size (1), or a loop of one iteration (2)
        vector<int> kind(w, 2);
        for (int q = 0, m = mask; q < (int)sc.size(); q++, m /= 3) kind[sc[q]] = m % 3;
        vector<long> size(w, 32), ratio(w, 8);
        size_t c = 0;
        for (int k = 0; k < w; k++) {
          bool takes = kind[k];
          if (takes && !o.tile_sizes.empty() && c < o.tile_sizes.size()) size[k] = o.tile_sizes[c];
          c += takes;
        }
        if (!o.tile_sizes.empty() && o.second_level_tile)
          for (int k = 0; k < w; k++)
            if (c + k < o.tile_sizes.size()) ratio[k] = o.tile_sizes[c + k];
        Shape s;
        for (int k = 0; k < a; k++) s.push_back({{k, 1, 1}});
        for (int l = levels; l >= 1; l--)
          for (int k = 0; k < w; k++) {
            if (kind[k] < 2) s.push_back({{a + k, 1, 1}});
            else s.push_back({{a + k, size[k], l == 2 ? ratio[k] : 1}});
          }
        for (int k = a; k < n; k++) s.push_back({{k, 1, 1}});
        while ((int)s.size() < n2) s.push_back({});
        // a loop moved inward among those inside the tiles
        vector<Shape> moved = {s};
        if (o.intratileopt) {
          int b = a + w * levels;
          for (int i = b; i < b + n - a; i++)
            for (int j = i + 1; j < b + n - a; j++) {
              Shape t = s;
              Expr e = t[i];
              t.erase(t.begin() + i);
              t.insert(t.begin() + j, e);
              moved.push_back(t);
            }
        }
        for (auto &t : moved) {
          all.push_back(t);
          band.push_back({a, w});
          // a wavefront: the first loop plus others of the band
          if (o.parallel && !o.innerpar && w >= 2) {
            vector<int> oth;
            for (int k = 1; k < w; k++)
              oth.push_back(k);
            for (int m = 1; m < 1 << oth.size(); m++) {
              if (!o.multipar && (m & (m - 1))) continue;
              Shape x = t;
              for (size_t q = 0; q < oth.size(); q++)
                if (m >> q & 1) x[a].insert(x[a].end(), t[a + oth[q]].begin(), t[a + oth[q]].end());
              all.push_back(x);
              band.push_back({a, w});
            }
          }
        }
      }
    }
}

static void tiles(Src &s, Result &r, const ProgOpts &po, const OptOpts &oo, bool second) {
  GProg p = gen_prog(s, po);
  GOpts o = gen_opts(s, oo);
  if (second) o.second_level_tile = o.tile;
  if (o.second_level_tile && !o.tile_sizes.empty())
    while (o.tile_sizes.size() < 24) o.tile_sizes.push_back(2 + (int)s.draw(4));
  bool defaults = o.tile_sizes.empty();
  r.desc = p.describe() + o.describe();
  if (describe_only()) return;
  IslProg ip;
  if (!make_isl(p, ip)) { r.st = INCONCLUSIVE; return; }
  if (ip.ndeps > po.max_deps) { r.st = DISCARD; return; }
  GOpts plain = o;
  plain.tile = plain.parallel = plain.intratileopt = plain.second_level_tile = 0;
  isl_union_map *u = run_transform(p, ip, plain), *v = run_transform(p, ip, o);
  if (!u || !v) {
    if (!u != !v) r.fail("schedule or not", u ? "no schedule with tiling, one without" : "a schedule only with tiling");
    else r.st = TRIVIAL;
    isl_union_map_free(u);
    isl_union_map_free(v);
    return;
  }
  IslLimit lim(ip.ctx, 30000000);
  bool tiled = false;
  int wide = 0;
  for (size_t id = 0; id < p.st.size() && !r.failed(); id++) {
    isl_map *mu = of_stmt(u, id), *mv = of_stmt(v, id);
    if (!mu || !mv) {
      isl_map_free(mu);
      isl_map_free(mv);
      continue;
    }
    int dim = p.st[id].dim, n = isl_map_dim(mu, isl_dim_out), n2 = isl_map_dim(mv, isl_dim_out);
    string text = strf("S_%zu\nuntiled: ", id) + to_str(mu) + "\ntiled: " + to_str(mv);
    vector<bool> scalar;
    for (int k = 0; k < n; k++) {
      isl_set *rg = isl_map_range(isl_map_copy(mu));
      rg = isl_set_project_out(rg, isl_dim_set, k + 1, n - k - 1);
      rg = isl_set_project_out(rg, isl_dim_set, 0, k);
      isl_val *c = isl_set_plain_get_val_if_fixed(rg, isl_dim_set, 0);
      scalar.push_back(c && isl_val_is_int(c) == isl_bool_true);
      isl_val_free(c);
      isl_set_free(rg);
    }
    isl_map *both = isl_map_flat_range_product(isl_map_copy(mu), isl_map_copy(mv));
    vector<vector<long>> pts;
    for (long val : {0L, 7L, 40L, 150L, 1000L})
      for (int mx = 0; mx < 2; mx++) {
        vector<long> x;
        if (sample(both, p, val, mx, x)) pts.push_back(x);
      }
    isl_map_free(both);
    vector<Shape> all;
    vector<array<int, 2>> band;
    shapes(n, n2, scalar, o, all, band);
    bool found = false, unknown = pts.empty();
    string tried;
    for (size_t c = 0; c < all.size() && !found && !unknown; c++) {
      bool ok = true;
      for (auto &x : pts) {
        vector<long> uu(x.begin() + dim, x.begin() + dim + n);
        for (int k = 0; k < n2 && ok; k++) ok = eval(all[c][k], uu) == x[dim + n + k];
      }
      if (!ok) continue;
      string t = str(all[c], n, p.par);
      isl_map *f = isl_map_read_from_str(ip.ctx, t.c_str());
      isl_map *e = isl_map_apply_range(isl_map_copy(mu), f);
      isl_bool eq = isl_map_is_equal(e, mv);
      isl_map_free(e);
      if (eq == isl_bool_true) {
        found = true;
        int loops = 0;
        for (int k = 0; k < band[c][1]; k++) loops += !scalar[band[c][0] + k];
        if (o.tile && loops) tiled = true;
        wide = max(wide, loops);
        // A single nest: the wavefront is the sum of two tile loops, or of all when asked for.
        int a = band[c][0], w = band[c][1];
        if (p.st.size() == 1 && o.tile && o.parallel && !o.innerpar && w >= 2 && loops == w) {
          size_t need = o.multipar ? w : 2;
          bool enough = all[c][a].size() >= need;
          for (size_t c2 = c + 1; c2 < all.size() && !enough; c2++) {
            if (band[c2] != band[c] || all[c2][a].size() < need) continue;
            isl_map *e2 = isl_map_apply_range(isl_map_copy(mu), isl_map_read_from_str(ip.ctx, str(all[c2], n, p.par).c_str()));
            enough = isl_map_is_equal(e2, mv) != isl_bool_false;
            isl_map_free(e2);
          }
          // unless the first one is parallel as it is
          bool carries = false;
          for (isl_map *d : maps_of(ip.deps)) {
            isl_map *t2 = isl_map_apply_range(isl_map_apply_domain(d, isl_map_copy(mv)), isl_map_copy(mv));
            for (int k = 0; k < a; k++) t2 = isl_map_equate(t2, isl_dim_in, k, isl_dim_out, k);
            t2 = isl_map_order_lt(t2, isl_dim_in, a, isl_dim_out, a);
            carries |= isl_map_is_empty(t2) == isl_bool_false;
            isl_map_free(t2);
          }
          if (!enough && (all[c][a].size() > 1 || carries) && !lim.hit())
            r.fail("wavefront", strf("of %zu tile loops, not %zu\n", all[c][a].size(), need) + text);
          r.tag("single wavefronts");
        }
      } else if (eq == isl_bool_error) unknown = true;
      else tried += t + "\n";
    }
    if (lim.hit()) unknown = true;
    if (!found && !unknown)
      r.fail(o.tile ? "tiles" : "loops", "the schedule is not the untiled one with tiles of the asked sizes\n" + text + (tried.empty() ? "" : "\nclose, but not for all parameters: " + tried));
    if (unknown && !r.failed()) r.st = INCONCLUSIVE;
    // A nest that no dependence keeps from being tiled is tiled.
    if (r.st == OK && o.tile && p.st.size() == 1 && !tiled) {
      int loops = 0;
      bool neg = false;
      for (int k = 0; k < n; k++) {
        if (scalar[k]) continue;
        loops++;
        for (isl_map *d : maps_of(ip.deps)) {
          isl_map *t = isl_map_apply_range(isl_map_apply_domain(isl_map_copy(d), isl_map_copy(mu)), isl_map_copy(mu));
          isl_map *g = isl_map_order_gt(t, isl_dim_in, k, isl_dim_out, k);
          neg |= isl_map_is_empty(g) != isl_bool_true;
          isl_map_free(g);
          isl_map_free(d);
        }
      }
      if (loops >= 2 && !neg && !lim.hit()) r.fail("not tiled", "nothing keeps the loops from being tiled\n" + text);
    }
    isl_map_free(mu);
    isl_map_free(mv);
  }
  // Two tiled loops always leave some parallelism.
  if (r.st == OK && p.st.size() == 1 && o.parallel && !o.innerpar && tiled && wide >= 2) {
    CaptureStdout cap;
    GOpts loud = o;
    loud.silent = 0;
    isl_union_map_free(run_transform(p, ip, loud));
    fflush(stdout);
    string t = cap.text();
    size_t at = t.rfind(" parallel loops");
    size_t b = at == string::npos ? at : t.rfind(' ', at - 1);
    if (b == string::npos || atoi(t.c_str() + b) < 1)
      r.fail("no parallel loop", "no parallel loop is reported for a band of several tiled loops\n" + to_str(v));
    r.tag("wavefronts");
  }
  r.tag(defaults ? "default_sizes" : "given_sizes");
  if (tiled) r.tag(o.second_level_tile ? "tiled_twice" : "tiled");
  if (r.st == OK && !tiled && o.tile) r.st = TRIVIAL;
  isl_union_map_free(u);
  isl_union_map_free(v);
}
static Reg t1("C06", "single", 4, 40, 10, [](Src &s, Result &r) {
  ProgOpts po;
  po.max_stmts = 1;
  OptOpts oo;
  oo.core = oo.force_tile = true;
  tiles(s, r, po, oo, false);
});
static Reg t2("C06", "several", 4, 40, 10, [](Src &s, Result &r) {
  ProgOpts po;
  OptOpts oo;
  oo.core = true;
  tiles(s, r, po, oo, false);
});
static Reg t3("C06", "two levels", 3, 40, 10, [](Src &s, Result &r) {
  ProgOpts po;
  po.max_stmts = 3;
  OptOpts oo;
  oo.core = oo.force_tile = true;
  tiles(s, r, po, oo, true);
});
static Reg t4("C06", "stencil", 2, 40, 10, [](Src &s, Result &r) {
  ProgOpts po;
  po.stencil = true;
  OptOpts oo;
  oo.dfp = oo.diamond = false;
  tiles(s, r, po, oo, false);
});
static Reg t5("C06", "big", 2, 40, 10, [](Src &s, Result &r) {
  OptOpts oo;
  oo.core = oo.force_tile = true;
  ProgOpts po = big_prog(s);
  tiles(s, r, po, oo, s.chance(1, 3));
});
