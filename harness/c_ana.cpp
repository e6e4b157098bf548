// C18: analyses of transformed programs (dependence directions and satisfaction).
// C19: loops, parallel loops and permutable bands of a transformed program.
// C20: transformed domains, inverse transformations and transformed accesses.
#include "iprog.hpp"
#include "transforms.h"
#include "post_transform.h"
#include <algorithm>
#include <set>
using namespace std;
using namespace pbt;

static int nvars(const IProg &p, const IDep &d) { return p.st[d.src].dim + p.st[d.dest].dim + p.npar; }

static void dirs(Src &s, Result &r) {
  PlutoContext *c = pluto_context_alloc();
  c->options->silent = 1;
  isl_ctx *ctx = isl_ctx_alloc();
  IOpts o;
  o.full_rank = false;
  o.legal = s.chance(1, 3);
  o.min_deps = 1, o.max_deps = 4;
  IProg p = gen_iprog(s, o);
  r.desc = p.describe();
  PlutoProg *g = build_iprog(p, c);
  int L = p.nlev, checked = 0;
  vector<vector<char>> want(p.dep.size());
  vector<int> lev(p.dep.size(), -1), plev(p.dep.size(), -1), psat(p.dep.size(), 0);
  vector<vector<int>> pvec(p.dep.size());
  for (size_t k = 0; k < p.dep.size(); k++) {
    const IDep &d = p.dep[k];
    int nv = nvars(p, d);
    Rows rest = d.rows;  // what no level has satisfied so far
    for (int l = 0; l < L; l++) {
      MRow dist = distance(p, d, l);
      bool pos = !rows_empty(ctx, with(d.rows, addc(dist, -1)), nv);
      bool ng = !rows_empty(ctx, with(d.rows, addc(neg(dist), -1)), nv);
      want[k].push_back(pos ? ng ? '*' : '+' : ng ? '-' : '0');
      bool all = rows_empty(ctx, with(d.rows, neg(dist)), nv);
      if (all && lev[k] < 0) lev[k] = l;
      checked += pos || ng;
      if (!psat[k]) {
        bool some = !rows_empty(ctx, with(rest, addc(dist, -1)), nv);
        pvec[k].push_back(some);
        if (some) plev[k] = l;
        rest.push_back(neg(dist));
        psat[k] = rows_empty(ctx, rest, nv);
      } else
        pvec[k].push_back(0);
    }
  }
  for (size_t k = 0; k < p.dep.size() && !r.failed(); k++)
    for (int l = 0; l < L; l++) {
      char got = (char)get_dep_direction(g->deps[k], g, l);
      if (got != want[k][l]) r.fail("direction", strf("dependence %zu level %d: %c instead of %c", k, l, got, want[k][l]));
      bool t = dep_satisfaction_test(g->deps[k], g, l);
      bool w = rows_empty(ctx, with(p.dep[k].rows, neg(distance(p, p.dep[k], l))), nvars(p, p.dep[k]));
      if (t != w) r.fail("satisfied at", strf("dependence %zu level %d: %d instead of %d", k, l, t, w));
    }
  // In a random order, repeatedly: results must not depend on what was computed before.
  int n = s.range(1, 3);
  for (int i = 0; i < n && !r.failed(); i++) {
    if (s.chance(1, 2)) {
      pluto_compute_dep_directions(g);
      pluto_compute_dep_satisfaction(g);
      for (size_t k = 0; k < p.dep.size(); k++) {
        Dep *d = g->deps[k];
        for (int l = 0; l < L; l++)
          if ((char)d->dirvec[l] != want[k][l]) r.fail("direction vector", strf("dependence %zu level %d: %c instead of %c", k, l, (char)d->dirvec[l], want[k][l]));
        if (d->satisfied != (lev[k] >= 0)) r.fail("satisfied", strf("dependence %zu", k));
        if (d->satisfaction_level != lev[k]) r.fail("satisfaction level", strf("dependence %zu: %d instead of %d", k, d->satisfaction_level, lev[k]));
        if (d->type == PLUTO_DEP_RAR) continue;
        for (int l = 0; l < L; l++) {
          int w = want[k][l] != '0' && (lev[k] < 0 || l <= lev[k]);
          if (d->satvec[l] != w) r.fail("satisfaction vector", strf("dependence %zu level %d: %d instead of %d", k, l, d->satvec[l], w));
        }
      }
    } else {
      int num = pluto_compute_dep_satisfaction_precise(g), w = 0;
      for (size_t k = 0; k < p.dep.size(); k++) {
        Dep *d = g->deps[k];
        if (d->satisfied != (bool)psat[k]) r.fail("precisely satisfied", strf("dependence %zu", k));
        if (d->satisfaction_level != plev[k]) r.fail("precise level", strf("dependence %zu: %d instead of %d", k, d->satisfaction_level, plev[k]));
        for (int l = 0; l < L; l++)
          if (!d->satvec[l] != !pvec[k][l]) r.fail("precise vector", strf("dependence %zu level %d: %d instead of %d", k, l, d->satvec[l], pvec[k][l]));
        if (d->type != PLUTO_DEP_RAR) w += psat[k];
      }
      if (num != w) r.fail("number satisfied", strf("%d instead of %d", num, w));
    }
  }
  // The kinds of levels.
  if (!r.failed() && s.chance(1, 2)) {
    pluto_detect_hyperplane_types_stmtwise(g);
    pluto_detect_hyperplane_types(g);
    for (int l = 0; l < L; l++) {
      bool any = false;
      for (size_t i = 0; i < p.st.size(); i++) {
        bool loop = false;
        for (int j = 0; j < p.st[i].dim; j++) loop |= p.st[i].T[l][j] != 0;
        any |= loop;
        if ((g->stmts[i]->hyp_types[l] == H_SCALAR) == loop) r.fail("kind of a level", strf("statement %zu level %d", i, l));
      }
      if ((g->hProps[l].type == H_SCALAR) == any) r.fail("kind of a level", strf("level %d", l));
    }
  }
  r.st = r.failed() ? FAIL : checked ? OK : TRIVIAL;
  pluto_prog_free(g);
  pluto_context_free(c);
  isl_ctx_free(ctx);
}
static Reg d1("C18", "directions", 1, 100, 20, dirs);

// ---- loops -------------------------------------------------------------------
typedef pair<int, set<int>> Loop;  // depth, statements
static bool is_loop(const IProg &p, int st, int l) {
  for (int j = 0; j < p.st[st].dim; j++)
    if (p.st[st].T[l][j]) return true;
  return false;
}
static void loops_of(const IProg &p, const vector<int> &g, int l, multiset<Loop> &out) {
  if (l >= p.nlev || g.empty()) return;
  set<int> in;
  for (int i : g)
    if (is_loop(p, i, l)) in.insert(i);
  if (!in.empty()) {
    out.insert({l, in});
    return loops_of(p, g, l + 1, out);
  }
  map<long, vector<int>> parts;
  for (int i : g) parts[p.st[i].T[l].back()].push_back(i);
  for (auto &x : parts) loops_of(p, x.second, l + 1, out);
}
static set<int> ids(Stmt **st, unsigned n) {
  set<int> x;
  for (unsigned i = 0; i < n; i++) x.insert(st[i]->id);
  return x;
}
static string lstr(const Loop &l) {
  string t = strf("level %d {", l.first);
  for (int x : l.second) t += strf(" S%d", x);
  return t + " }";
}
static string lstr(const multiset<Loop> &m) {
  string t;
  for (auto &x : m) t += lstr(x) + " ";
  return t;
}

static void loops(Src &s, Result &r) {
  PlutoContext *c = pluto_context_alloc();
  c->options->silent = 1;
  isl_ctx *ctx = isl_ctx_alloc();
  IOpts o;
  o.max_stmts = 4;
  o.max_deps = 5;
  o.legal = true;
  o.max_extra = 3;
  o.accept_mixed = s.chance(1, 4);
  IProg p = gen_iprog(s, o);
  bool precise = s.chance(1, 6);
  for (size_t k = p.dep.size(); k-- && precise;)  // an empty dependence has no level
    if (rows_empty(ctx, p.dep[k].rows, nvars(p, p.dep[k]))) p.dep.erase(p.dep.begin() + k);
  r.desc = p.describe();
  PlutoProg *g = build_iprog(p, c);
  pluto_detect_hyperplane_types_stmtwise(g);
  pluto_detect_hyperplane_types(g);
  pluto_compute_dep_directions(g);
  if (precise) pluto_compute_dep_satisfaction_precise(g);
  else pluto_compute_dep_satisfaction(g);
  int L = p.nlev;
  vector<int> all;
  for (size_t i = 0; i < p.st.size(); i++) all.push_back(i);
  multiset<Loop> want, got;
  loops_of(p, all, 0, want);
  unsigned n;
  Ploop **lp = pluto_get_all_loops(g, &n);
  for (unsigned i = 0; i < n; i++) {
    Loop x(lp[i]->depth, ids(lp[i]->stmts, lp[i]->nstmts));
    if (x.second.size() != lp[i]->nstmts) r.fail("loops", "a statement twice in a loop");
    got.insert(x);
  }
  if (got != want) r.fail("loops", lstr(got) + "instead of " + lstr(want));
  // A dependence instance is carried at the first level where its ends differ.
  auto carried = [&](const IDep &d, int l) {  // some instance equal outside l and apart at l
    Rows q = d.rows;
    for (int k = 0; k < l; k++) {
      MRow m = distance(p, d, k);
      m.eq = true;
      q.push_back(m);
    }
    MRow m = distance(p, d, l);
    return !rows_empty(ctx, with(q, addc(m, -1)), nvars(p, d)) || !rows_empty(ctx, with(q, addc(neg(m), -1)), nvars(p, d));
  };
  auto inside = [&](const IDep &d, const set<int> &x) { return d.type != PLUTO_DEP_RAR && x.count(d.src) && x.count(d.dest); };
  vector<set<int>> satlev;  // levels which satisfy every instance that is left
  // What the satisfaction vectors call parallel: no component before complete satisfaction.
  auto parallel = [&](const Loop &x, bool &sound) {
    bool par = true;
    sound = true;
    for (size_t k = 0; k < p.dep.size(); k++) {
      const IDep &d = p.dep[k];
      if (!inside(d, x.second)) continue;
      if (carried(d, x.first)) sound = false;
      int first = -1;
      for (int l = 0; l < L && first < 0; l++)
        if (rows_empty(ctx, with(d.rows, neg(distance(p, d, l))), nvars(p, d))) first = l;
      MRow m = distance(p, d, x.first);
      bool comp = !rows_empty(ctx, with(d.rows, addc(m, -1)), nvars(p, d)) || !rows_empty(ctx, with(d.rows, addc(neg(m), -1)), nvars(p, d));
      if (comp && (first < 0 || first >= x.first)) par = false;
    }
    return par;
  };
  multiset<Loop> pgot;
  int npar = 0;
  for (unsigned i = 0; i < n && !r.failed(); i++) {
    Loop x(lp[i]->depth, ids(lp[i]->stmts, lp[i]->nstmts));
    bool sound, w = parallel(x, sound);
    bool is = pluto_loop_is_parallel(g, lp[i]);
    if (is && !sound) r.fail("parallel", lstr(x) + " carries a dependence");
    if (!precise && w != is) r.fail("parallel", lstr(x) + strf(": %d instead of %d", is, w));
    if (is) pgot.insert(x);
    npar += is;
    bool inner = true;
    for (int q : x.second)
      for (int l = x.first + 1; l < L; l++) inner &= !is_loop(p, q, l);
    if ((bool)pluto_loop_is_innermost(lp[i], g) != inner) r.fail("innermost", lstr(x));
  }
  // Parallel loops, and those not inside another one.
  if (!r.failed()) {
    unsigned np;
    Ploop **pl = pluto_get_parallel_loops(g, &np);
    multiset<Loop> pg;
    for (unsigned i = 0; i < np; i++) pg.insert({pl[i]->depth, ids(pl[i]->stmts, pl[i]->nstmts)});
    if (pg != pgot) r.fail("parallel loops", lstr(pg) + "instead of " + lstr(pgot));
    pluto_loops_free(pl, np);
    unsigned nd;
    Ploop **dl = pluto_get_dom_parallel_loops(g, &nd);
    multiset<Loop> dg, dw;
    for (unsigned i = 0; i < nd; i++) dg.insert({dl[i]->depth, ids(dl[i]->stmts, dl[i]->nstmts)});
    pluto_loops_free(dl, nd);
    // A loop is inside another if it is deeper and they share the constants of the outer levels.
    for (auto &a : pgot) {
      bool dom = false;
      for (auto &b : pgot)
        if (b.first < a.first) {
          bool in = true;
          int x = *a.second.begin(), y = *b.second.begin();
          for (int l = 0; l <= b.first; l++)
            if (!is_loop(p, x, l) && !is_loop(p, y, l) && p.st[x].T[l].back() != p.st[y].T[l].back()) in = false;
          dom |= in;
        }
      if (!dom) dw.insert(a);
    }
    if (!o.accept_mixed && dg != dw) r.fail("outermost parallel loops", lstr(dg) + "instead of " + lstr(dw));
  }
  // Permutable bands.
  auto band_ok = [&](const Band *b, const char *what) {
    set<int> st = ids(b->loop->stmts, b->loop->nstmts);
    int d0 = b->loop->depth, w = b->width;
    string name = strf("%s: levels %d..%d of", what, d0, d0 + w - 1);
    for (int x : st) name += strf(" S%d", x);
    if (w < 2 || d0 + w > L) return r.fail("band", name + " has the wrong width");
    if (!want.count({d0, st})) return r.fail("band", name + " is not at a loop");
    bool last = false;
    for (int x : st) last |= is_loop(p, x, d0 + w - 1);
    if (!last) return r.fail("band", name + " ends in a constant level");
    for (size_t k = 0; k < p.dep.size(); k++) {
      const IDep &d = p.dep[k];
      if (!inside(d, st)) continue;
      // Instances not ordered outside the band, nor by one of its constant levels, may not go backwards.
      Rows q = d.rows;
      for (int l = 0; l < d0; l++) {
        MRow m = distance(p, d, l);
        m.eq = true;
        q.push_back(m);
      }
      for (int l = d0; l < d0 + w; l++) {
        bool scalar = true;
        for (int x : st) scalar &= !is_loop(p, x, l);
        MRow m = distance(p, d, l);
        if (scalar) {
          m.eq = true;
          q.push_back(m);
        } else if (!rows_empty(ctx, with(q, addc(neg(m), -1)), nvars(p, d)))
          return r.fail("band", name + strf(": dependence %zu goes backwards at level %d", k, l));
      }
    }
  };
  int nbands = 0;
  if (!r.failed()) {
    unsigned nb;
    Band **b = pluto_get_outermost_permutable_bands(g, &nb);
    set<pair<Loop, int>> seen;
    for (unsigned i = 0; i < nb && !r.failed(); i++) {
      band_ok(b[i], "outermost band");
      Loop x(b[i]->loop->depth, ids(b[i]->loop->stmts, b[i]->loop->nstmts));
      seen.insert({x, (int)b[i]->width});
    }
    nbands = nb;
    // Two adjacent loops that all dependences permit to interchange lie in some band.
    for (unsigned i = 0; i < n && !r.failed() && !precise; i++) {
      Loop x(lp[i]->depth, ids(lp[i]->stmts, lp[i]->nstmts));
      if (x.first + 1 >= L || !want.count({x.first + 1, x.second})) continue;
      bool ok = true;
      for (auto &d : p.dep)
        if (inside(d, x.second))
          for (int l = x.first; l <= x.first + 1; l++) {
            bool outer = false;
            for (int k = 0; k < x.first; k++) outer |= rows_empty(ctx, with(d.rows, neg(distance(p, d, k))), nvars(p, d));
            ok &= outer || rows_empty(ctx, with(d.rows, addc(neg(distance(p, d, l)), -1)), nvars(p, d));
          }
      if (!ok) continue;
      bool in = false;
      for (auto &q : seen)
        in |= q.first.first <= x.first && includes(q.first.second.begin(), q.first.second.end(), x.second.begin(), x.second.end());
      if (!in) r.fail("missing band", lstr(x) + " and the next level");
    }
    pluto_bands_free(b, nb);
    unsigned ni;
    Band **ib = pluto_get_innermost_permutable_bands(g, 0, &ni);
    for (unsigned i = 0; i < ni && !r.failed(); i++) {
      band_ok(ib[i], "innermost band");
      for (unsigned k = 0; k < ib[i]->loop->nstmts; k++)
        for (int l = ib[i]->loop->depth + ib[i]->width; l < L; l++)
          if (is_loop(p, ib[i]->loop->stmts[k]->id, l)) r.fail("innermost band", "a loop lies inside it");
    }
    pluto_bands_free(ib, ni);
  }
  r.tag("parallel loops", npar);
  r.tag("bands", nbands);
  r.st = r.failed() ? FAIL : n ? OK : TRIVIAL;
  pluto_loops_free(lp, n);
  pluto_prog_free(g);
  pluto_context_free(c);
  isl_ctx_free(ctx);
}
static Reg d2("C19", "loops", 1, 100, 30, loops);

// ---- transformed domains and accesses ---------------------------------------
static long dot(const Vec &r, const Vec &x) {
  long t = r.back();
  for (size_t i = 0; i + 1 < r.size(); i++) t += r[i] * x[i];
  return t;
}
static void remap(Src &s, Result &r) {
  PlutoContext *c = pluto_context_alloc();
  c->options->silent = 1;
  isl_ctx *ctx = isl_ctx_alloc();
  IOpts o;
  o.deps = false;
  o.accesses = true;
  o.max_stmts = 2;
  o.unimodular = s.chance(1, 2);
  IProg p = gen_iprog(s, o);
  r.desc = p.describe();
  PlutoProg *g = build_iprog(p, c);
  int L = p.nlev, pts = 0;
  // Points of the iteration and parameter space, in and out of the domain.
  vector<Vec> sample;
  for (int k = 0; k < 12; k++) {
    Vec x;
    for (int j = 0; j < 4 + p.npar; j++) x.push_back(s.signed_(7));
    sample.push_back(x);
  }
  pluto_detect_hyperplane_types_stmtwise(g);
  for (size_t i = 0; i < p.st.size() && !r.failed(); i++) {
    const IStmt &t = p.st[i];
    Stmt *st = g->stmts[i];
    if (t.dim > L) continue;
    int *divs = nullptr;
    PlutoMatrix *m = pluto_stmt_get_remapping(st, &divs);
    if ((int)m->nrows != t.dim + p.npar + 1 || (int)m->ncols != L + p.npar + 1) {
      r.fail("shape", "of the inverse transformation");
      break;
    }
    auto time = [&](const Vec &v) {  // levels, parameters
      Vec x(v.begin() + 4 - t.dim, v.end()), y;
      for (int l = 0; l < L; l++) y.push_back(dot(t.T[l], x));
      for (int j = 0; j < p.npar; j++) y.push_back(x[t.dim + j]);
      return y;
    };
    auto at = [&](const Vec &v) { return Vec(v.begin() + 4 - t.dim, v.end()); };
    auto rowv = [](PlutoMatrix *q, int k) { return Vec(q->val[k], q->val[k] + q->ncols); };
    for (auto &v : sample) {
      Vec y = time(v), x = at(v);
      for (int j = 0; j < t.dim + p.npar; j++) {
        if (divs[j] <= 0 || dot(rowv(m, j), y) != x[j] * divs[j])
          r.fail("inverse", strf("S%zu variable %d: %ld / %d instead of %ld", i, j, dot(rowv(m, j), y), divs[j], x[j]));
      }
      if (dot(rowv(m, t.dim + p.npar), y) != divs[t.dim + p.npar]) r.fail("inverse", "constant");
      pts++;
    }
    pluto_matrix_free(m);
    free(divs);
    auto access = [&](PlutoAccess *a, const vector<Vec> &f) {
      int *dv = nullptr;
      PlutoMatrix *q = pluto_get_new_access_func(a->mat, st, &dv);
      if (q->nrows != f.size() || (int)q->ncols != L + p.npar + 1) r.fail("shape", "of an access");
      else
        for (auto &v : sample)
          for (size_t k = 0; k < f.size(); k++)
            if (dv[k] <= 0 || dot(rowv(q, k), time(v)) != dot(f[k], at(v)) * dv[k])
              r.fail("access", strf("S%zu index %zu: %ld / %d instead of %ld", i, k, dot(rowv(q, k), time(v)), dv[k], dot(f[k], at(v))));
      pluto_matrix_free(q);
      free(dv);
    };
    for (int k = 0; k < st->nreads && !r.failed(); k++) access(st->reads[k], t.reads[k].second);
    for (int k = 0; k < st->nwrites && !r.failed(); k++) access(st->writes[k], t.writes[k].second);
    // The transformed domain: an image of the domain; exactly that if the loops are unimodular.
    if (r.failed()) break;
    PlutoConstraints *nd = pluto_get_new_domain(st);
    if ((int)nd->ncols != L + p.npar + 1) {
      r.fail("shape", "of the transformed domain");
    } else {
      Rows img;  // levels, iterators, parameters
      for (auto &q : t.dom) {
        MRow x;
        x.eq = q.eq;
        x.c.assign(L, 0);
        x.c.insert(x.c.end(), q.c.begin(), q.c.end());
        img.push_back(x);
      }
      for (int l = 0; l < L; l++) {
        MRow x;
        x.eq = true;
        x.c.assign(L, 0);
        x.c[l] = -1;
        x.c.insert(x.c.end(), t.T[l].begin(), t.T[l].end());
        img.push_back(x);
      }
      isl_set *want = isl_set_from_basic_set(rows_set(ctx, img, L + t.dim + p.npar));
      want = isl_set_project_out(want, isl_dim_set, L, t.dim);
      isl_set *got = isl_set_from_basic_set(rows_set(ctx, model_rows(nd), L + p.npar));
      if (isl_set_is_subset(want, got) != isl_bool_true) r.fail("domain", strf("S%zu: points are missing", i));
      if (o.unimodular && isl_set_is_subset(got, want) != isl_bool_true) r.fail("domain", strf("S%zu: points too many", i));
      isl_set_free(want);
      isl_set_free(got);
    }
    pluto_constraints_free(nd);
    // The schedule relation itself is exact.
    PlutoConstraints *sc = pluto_stmt_get_schedule(st);
    for (auto &v : sample) {
      Vec y = time(v), x = at(v), z(y.begin(), y.begin() + L);
      z.insert(z.end(), x.begin(), x.end());
      int off = (int)s.draw(L + 1), by = 1 + (int)s.draw(2);
      for (int wrong = 0; wrong < 2; wrong++) {
        if (wrong && off == L) continue;
        if (wrong) z[off] += by;
        bool in = true;
        for (auto &q : model_rows(sc)) {
          long e = dot(q.c, z);
          in &= q.eq ? e == 0 : e >= 0;
        }
        if (in == (bool)wrong) r.fail("schedule", strf("S%zu", i));
      }
    }
    pluto_constraints_free(sc);
  }
  r.st = r.failed() ? FAIL : pts ? OK : TRIVIAL;
  pluto_prog_free(g);
  pluto_context_free(c);
  isl_ctx_free(ctx);
}
static Reg d3("C20", "remap", 1, 100, 20, remap);
