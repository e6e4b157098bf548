// C25: diamond tiling lets all tiles along a face start together.
#include "api.hpp"
#include <algorithm>
#include <isl/lp.h>
using namespace std;
using namespace pbt;

namespace {
typedef vector<long> Vec;
struct D {
  int src, dest;
  isl_basic_set *b;  // source, target
};
// The rows of a statement's schedule: iterators, parameters, 1.
bool rows_of(isl_map *x, vector<Vec> &out) {
  int n = isl_map_dim(x, isl_dim_out), d = isl_map_dim(x, isl_dim_in), np = isl_map_dim(x, isl_dim_param);
  for (int l = 0; l < n; l++) {
    isl_map *y = isl_map_project_out(isl_map_copy(x), isl_dim_out, l + 1, n - l - 1);
    y = isl_map_project_out(y, isl_dim_out, 0, l);
    isl_pw_multi_aff *pma = isl_pw_multi_aff_from_map(y);
    if (!pma) return false;
    isl_pw_aff *pa = isl_pw_multi_aff_get_pw_aff(pma, 0);
    isl_pw_multi_aff_free(pma);
    struct U { Vec v; int n, d, np; bool ok; } u = {{}, 0, d, np, true};
    isl_pw_aff_foreach_piece(pa, [](isl_set *st, isl_aff *a, void *q) {
      U *u = (U *)q;
      u->n++;
      auto get = [&](isl_val *v) {
        if (!isl_val_is_int(v)) u->ok = false;
        u->v.push_back(isl_val_get_num_si(v));
        isl_val_free(v);
      };
      if (isl_aff_dim(a, isl_dim_div)) u->ok = false;
      for (int i = 0; i < u->d; i++) get(isl_aff_get_coefficient_val(a, isl_dim_in, i));
      for (int i = 0; i < u->np; i++) get(isl_aff_get_coefficient_val(a, isl_dim_param, i));
      get(isl_aff_get_constant_val(a));
      isl_set_free(st);
      isl_aff_free(a);
      return isl_stat_ok;
    }, &u);
    isl_pw_aff_free(pa);
    if (!u.ok || u.n != 1) return false;
    out.push_back(u.v);
  }
  return true;
}
typedef vector<vector<Vec>> Sched;  // statement, level
bool sched_of(const GProg &p, isl_union_map *m, Sched &T) {
  T.assign(p.st.size(), {});
  bool ok = true;
  for (isl_map *x : maps_of(m)) {
    int id = atoi(isl_map_get_tuple_name(x, isl_dim_in) + 2);
    ok = ok && rows_of(x, T[id]);
    isl_map_free(x);
  }
  for (auto &t : T) ok = ok && !t.empty() && t.size() == T[0].size();
  return ok;
}
// Whether the distance of a dependence is at least `at` everywhere.
bool at_least(const D &d, const Vec &a, const Vec &c, int ds, int dd, int np, long at) {
  isl_aff *f = isl_aff_zero_on_domain(isl_local_space_from_space(isl_basic_set_get_space(d.b)));
  for (int i = 0; i < ds; i++) f = isl_aff_set_coefficient_si(f, isl_dim_in, i, -a[i]);
  for (int i = 0; i < dd; i++) f = isl_aff_set_coefficient_si(f, isl_dim_in, ds + i, c[i]);
  for (int i = 0; i < np; i++) f = isl_aff_set_coefficient_si(f, isl_dim_param, i, c[dd + i] - a[ds + i]);
  f = isl_aff_set_constant_si(f, c[dd + np] - a[ds + np] - at);
  // no point below
  isl_basic_set *neg = isl_basic_set_intersect(isl_basic_set_copy(d.b), isl_aff_neg_basic_set(f));
  bool e = isl_basic_set_is_empty(neg) == isl_bool_true;
  isl_basic_set_free(neg);
  return e;
}
string vstr(const Vec &v) {
  string t = "(";
  for (size_t i = 0; i < v.size(); i++) t += strf(i ? " %ld" : "%ld", v[i]);
  return t + ")";
}
// The iterator j with k e_j = v for a positive k; -1 if there is none.
int single(const Vec &v, int dim) {
  int j = -1;
  for (int i = 0; i < dim; i++)
    if (v[i]) {
      if (j >= 0 || v[i] < 0) return -1;
      j = i;
    }
  return j;
}
}  // namespace

static void diamond(Src &s, Result &r, bool one) {
  ProgOpts po;
  po.stencil = true;
  GProg p;
  if (one && s.chance(1, 2)) {  // a symmetric one
    p.npar = 2;
    p.par = {"T", "N"};
    int d = s.range(2, 3);
    p.maxdim = d;
    GStmt g;
    g.dim = d;
    g.beta.assign(d + 1, 0);
    string c = "0 <= i0 < T";
    for (int x = 1; x < d; x++) c += strf(" and %d <= i%d < N", s.range(0, 1), x);
    g.disj = {c};
    p.adim = {d};
    Access w;
    w.arr = 0;
    for (int x = 0; x < d; x++) {
      Aff f;
      f.it.assign(d, 0), f.par.assign(2, 0);
      f.it[x] = 1;
      w.idx.push_back(f);
    }
    g.writes = {w};
    for (int x = 1; x < d; x++)
      for (int q : {-1, 1}) {
        Access a = w;
        a.idx[0].c = -1;
        a.idx[x].c = q;
        g.reads.push_back(a);
        if (d > 2 && s.chance(1, 4)) {
          a.idx[3 - x].c = s.signed_(1);
          g.reads.push_back(a);
        }
      }
    p.st = {g};
    p.depmode = s.draw(2);
  } else {
    if (one) po.max_stmts = 1;
    p = gen_prog(s, po);
  }
  if (one && p.st.size() > 1) { r.st = DISCARD; return; }
  if (!one && s.chance(1, 3)) {  // another nest before it
    int a = p.adim.size(), pd = p.st[0].dim;
    p.adim.push_back(1);
    GStmt g;
    g.dim = 1;
    g.beta.assign(2, 0);
    g.disj = {"0 <= i0 < 9"};
    Access w;
    w.arr = a;
    Aff f;
    f.it = {1}, f.par.assign(p.npar, 0);
    w.idx = {f};
    g.writes = {w};
    for (auto &x : p.st) x.beta[0]++;
    if (s.chance(2, 3)) {
      w.idx[0].it.assign(pd, 0);
      w.idx[0].it[pd - 1] = 1;
      p.st[0].reads.push_back(w);
    }
    p.st.insert(p.st.begin(), g);
  }
  GOpts o;
  o.tile = o.parallel = o.intratileopt = 0;
  o.isldepaccesswise = 0;
  o.fuse = s.chance(1, 2) ? kSmartFuse : kMaximalFuse;
  o.islsolve = !s.chance(1, 6);
  o.diamondtile = 0;
  o.fulldiamondtile = s.chance(1, 4);
  vector<int> sizes;
  if (s.chance(2, 3))
    for (int i = 0; i < 4; i++) sizes.push_back(s.range(2, 40));
  r.desc = p.describe() + o.describe();
  for (int x : sizes) r.desc += strf(" %d", x);
  if (describe_only()) return;
  IslProg ip;
  if (!make_isl(p, ip)) { r.st = INCONCLUSIVE; return; }
  if (ip.ndeps > po.max_deps) { r.st = DISCARD; return; }
  // The guaranteed case: one step back in time, one step to either side of every dimension.
  bool sure = p.st.size() == 1 && p.depmode != 2;
  if (sure) {
    const GStmt &g = p.st[0];
    for (int x = 1; x < g.dim; x++) {
      bool lo = false, hi = false;
      for (auto &a : g.reads) {
        bool straight = true;  // only along this dimension: otherwise some loop may be parallel, and needs no concurrent start
        for (int y = 1; y < g.dim; y++) straight &= y == x || a.idx[y].c == 0;
        lo |= straight && a.idx[x].c == -1, hi |= straight && a.idx[x].c == 1;
      }
      sure &= lo && hi;
    }
    for (auto &a : g.reads)
      for (int x = 0; x < g.dim; x++) sure &= x ? abs(a.idx[x].c) <= 1 : a.idx[x].c == -1;
    for (int x = 1; x < g.dim && p.npar == 0; x++) sure = false;  // the domain may be too small for a dependence
  }
  int np = p.npar, n = p.st.size();
  isl_union_map *m0 = run_transform(p, ip, o);
  o.diamondtile = 1;
  isl_union_map *m1 = m0 ? run_transform(p, ip, o) : nullptr;
  Sched A, B;
  if (!m0) r.st = TRIVIAL;
  else if (!m1 && n > 1) r.st = TRIVIAL;  // no further loops around the new ones
  else if (!m1) r.fail("no schedule", "with diamond tiling, though there is one without");
  else if (!sched_of(p, m0, A) || !sched_of(p, m1, B) || A[0].size() != B[0].size()) {
    if (n == 1 && sched_of(p, m0, A)) r.fail("levels", "not those of the loops without diamond tiling\nschedule: " + to_str(m1));
    else r.st = TRIVIAL;
  } else {
    string text = "\nwithout: " + to_str(m0) + "\nwith: " + to_str(m1);
    int L = A[0].size(), e = -1;
    vector<D> deps;
    for (isl_map *x : maps_of(ip.deps)) {
      struct U { vector<D> *d; int a, b; } u = {&deps, atoi(isl_map_get_tuple_name(x, isl_dim_in) + 2), atoi(isl_map_get_tuple_name(x, isl_dim_out) + 2)};
      x = isl_map_align_params(x, isl_union_set_get_space(ip.dom));
      isl_map_foreach_basic_map(x, [](isl_basic_map *b, void *q) {
        U *u = (U *)q;
        u->d->push_back({u->a, u->b, isl_basic_set_flatten(isl_basic_map_wrap(b))});
        return isl_stat_ok;
      }, &u);
      isl_map_free(x);
    }
    auto loop = [&](const Sched &T, int q, int l) {
      for (int i = 0; i < p.st[q].dim; i++)
        if (T[q][l][i]) return true;
      return false;
    };
    bool differ = false;
    for (int l = 0; l < L; l++)
      for (int q = 0; q < n; q++)
        if (A[q][l] != B[q][l]) {
          differ = true;
          if (n == 1 && e >= 0 && e != l) r.fail("levels", "more than one loop is replaced" + text);
          e = l;
        }
    if (!differ) {
      if (sure) r.fail("no concurrent start", "for a symmetric stencil" + text);
      else r.st = TRIVIAL;
      r.tag("no concurrent start");
    } else {
      r.tag("concurrent start");
      bool band = n == 1 && L == p.st[0].dim;
      for (auto &d : deps)
        for (int l = 0; l < L && band; l++) band &= at_least(d, A[0][l], A[0][l], L, L, np, 0);
      for (int q = 0; q < n && !r.failed(); q++) {
        int eq = -1;
        for (int l = 0; l < L; l++)
          if (A[q][l] != B[q][l] && (loop(A, q, l) || loop(B, q, l))) {
            if (eq >= 0) r.fail("levels", strf("more than one loop of S_%d is replaced", q) + text);
            eq = l;
          }
        if (eq < 0 || r.failed()) continue;
        // The new row lies opposite to others: together they enclose a face.
        vector<int> others;
        for (int l = 0; l < L; l++)
          if (l != eq && loop(A, q, l)) others.push_back(l);
        int dim = p.st[q].dim;
        int face = -1;
        auto self = [&](int j) {  // every dependence of the statement on itself crosses the face
          Vec f(dim + np + 1, 0);
          f[j] = 1;
          for (auto &d : deps)
            if (d.src == q && d.dest == q && !at_least(d, f, f, dim, dim, np, 1)) return false;
          return true;
        };
        auto good = [&](const Vec &v) {
          int j = single(v, dim);
          if (j < 0 || !self(j)) return;
          face = j;
        };
        const long M = 24;
        bool all = o.fulldiamondtile && n == 1 && band;  // the face lies between all loops
        if (all && others.size() > 2) continue;
        auto scan = [&](int a, int b) {
          for (long k = 1; k <= M; k++)
            for (long k2 = 1; k2 <= (b >= 0 ? M : 1) && face < 0; k2++) {
              Vec v = B[q][eq];
              for (int i = 0; i < dim; i++) v[i] += k * A[q][a][i] + (b >= 0 ? k2 * A[q][b][i] : 0);
              good(v);
            }
        };
        if (!all || others.size() < 2)
          for (int a : others) scan(a, -1);
        if (o.fulldiamondtile)
          for (size_t a = 0; a < others.size(); a++)
            for (size_t b = a + 1; b < others.size(); b++) scan(others[a], others[b]);
        if (face < 0 && o.fulldiamondtile && others.size() > 2) continue;
        if (face < 0)
          r.fail("no face", strf("S_%d: no face that its dependences cross lies between the new loop %s and the others", q, vstr(B[q][eq]).c_str()) + text);
      }
      // The new loops may be tiled with the others: no dependence of a tiled
      // nest goes backward along them.
      for (auto &d : deps) {
        if (r.failed()) break;
        bool apart = false, changed = false;
        int first = -1;
        for (int l = 0; l < L; l++) {
          if (!loop(A, d.src, l) && !loop(A, d.dest, l) && first < 0) apart |= A[d.src][l].back() != A[d.dest][l].back();
          else if (first < 0) first = l;
          changed |= A[d.src][l] != B[d.src][l] && A[d.dest][l] != B[d.dest][l];
        }
        if (apart || !changed) continue;
        for (int l = first; l < L && !r.failed(); l++) {
          if (A[d.src][l] == B[d.src][l] || !loop(B, d.src, l) || !loop(B, d.dest, l)) continue;
          if (!at_least(d, B[d.src][l], B[d.dest][l], p.st[d.src].dim, p.st[d.dest].dim, np, 0))
            r.fail("backward", strf("the new loop reverses a dependence S_%d -> S_%d", d.src, d.dest) + text);
        }
      }
      // Tiled: the tile numbers are those of the new loops, the order inside is
      // that without diamond tiling.
      // The changed statements and those around are one band: the same levels
      // are loops for all, and no dependence inside goes backward along any.
      int q0 = 0, F = 0;
      for (int q = n - 1; q >= 0; q--)
        for (int l = 0; l < L; l++)
          if (A[q][l] != B[q][l] && loop(B, q, l)) q0 = q;
      int W = p.st[q0].dim;
      while (F < L && !loop(A, q0, F)) F++;
      bool nest = W > 0 && F + W <= L;
      vector<bool> in(n, true);
      for (int q = 0; q < n && nest; q++) {
        for (int l = 0; l < F; l++) {
          nest &= A[q][l] == B[q][l] || loop(A, q, l);
          in[q] = in[q] && !loop(A, q, l) && A[q][l].back() == A[q0][l].back();
        }
        if (!in[q] || !nest) continue;
        nest = p.st[q].dim == W;
        for (int l = 0; l < L && nest; l++) nest = loop(A, q, l) == (l >= F && l < F + W) && loop(B, q, l) == loop(A, q, l);
      }
      for (auto &d : deps)
        for (int l = F; l < F + W && nest; l++)
          nest = !in[d.src] || !in[d.dest] || (at_least(d, A[d.src][l], A[d.dest][l], W, W, np, 0) && at_least(d, B[d.src][l], B[d.dest][l], W, W, np, 0));
      if (!r.failed() && nest) {
        o.tile = 1;
        o.tile_sizes = sizes;
        isl_union_map *m2 = run_transform(p, ip, o);
        if (!m2) r.fail("no schedule", "tiled");
        else {
          string t;
          for (int i = 0; i < np; i++) t += (i ? "," : "[") + p.par[i];
          if (np) t += "] -> ";
          t += "{ ";
          for (int q = 0; q < n; q++) {
            if (!in[q]) continue;
            t += strf(t.back() == ']' ? "; S_%d[" : "S_%d[", q);
            for (int i = 0; i < W; i++) t += strf(i ? ",i%d" : "i%d", i);
            t += "] -> [";
            for (int k = 0; k < F + 2 * W; k++) {  // not the positions inside
              bool tile = k >= F && k < F + W;
              const Vec &v = k < F + W ? B[q][k] : A[q][k - W];
              string f;
              for (int i = 0; i < W; i++) f += strf("%+ldi%d", v[i], i);
              for (int i = 0; i < np; i++) f += strf("%+ld", v[W + i]) + p.par[i];
              f += strf("%+ld", v[W + np]);
              t += (k ? ", " : "") + (tile ? "floor((" + f + strf(")/%d)", sizes.empty() ? 32 : sizes[k - F]) : f);
            }
            t += "]";
          }
          t += " }";
          isl_union_map *w = isl_union_map_read_from_str(ip.ctx, t.c_str());
          w = isl_union_map_intersect_domain(w, isl_union_set_copy(ip.dom));
          string full = to_str(m2);
          m2 = isl_union_map_intersect_domain(m2, isl_union_map_domain(isl_union_map_copy(w)));
          isl_union_map *cut = isl_union_map_empty(isl_union_map_get_space(m2));
          for (isl_map *x : maps_of(m2)) {
            int k = isl_map_dim(x, isl_dim_out);
            if (k > F + 2 * W) x = isl_map_project_out(x, isl_dim_out, F + 2 * W, k - F - 2 * W);
            cut = isl_union_map_union(cut, isl_union_map_from_map(x));
          }
          isl_union_map_free(m2);
          m2 = cut;
          isl_bool eq = isl_union_map_is_equal(w, m2);
          if (eq == isl_bool_false) r.fail("tiles", "not the tiles of the new loops around the original order" + text + "\ntiled: " + full);
          r.tag("tiled");
          if (n > 1) r.tag("tiled, several statements");
          isl_union_map_free(w);
          isl_union_map_free(m2);
        }
      }
    }
    for (auto &d : deps) isl_basic_set_free(d.b);
  }
  isl_union_map_free(m0);
  isl_union_map_free(m1);
}
static Reg d1("C25", "single", 3, 40, 10, [](Src &s, Result &r) { diamond(s, r, true); });
static Reg d2("C25", "several~", 1, 40, 10, [](Src &s, Result &r) { diamond(s, r, false); });
