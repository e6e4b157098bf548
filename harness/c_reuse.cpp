// C23: reuse of data along loops, and the loops proposed for vectorisation,
// parallel bands and unroll-and-jam.
#include "iprog.hpp"
#include "transforms.h"
#include "post_transform.h"
#include <algorithm>
#include <set>
using namespace std;
using namespace pbt;
extern "C" {
// not in a header
#define WEAK __attribute__((weak))
unsigned get_num_spatial_accesses(Ploop *loop) WEAK;
Ploop **pluto_get_innermost_loops(PlutoProg *prog, int *nloops) WEAK;
void pluto_band_free(Band *band) WEAK;
Ploop **pluto_get_outermost_loops(const PlutoProg *prog, int *ndploops) WEAK;
}

typedef pair<int, set<int>> Loop;  // level, statements
namespace {
int nvars(const IProg &p, const IDep &d) { return p.st[d.src].dim + p.st[d.dest].dim + p.npar; }
bool is_loop(const IProg &p, int st, int l) {
  for (int j = 0; j < p.st[st].dim; j++)
    if (p.st[st].T[l][j]) return true;
  return false;
}
void loops_of(const IProg &p, const set<int> &g, int l, set<Loop> &out) {
  if (l >= p.nlev || g.empty()) return;
  set<int> in;
  for (int i : g)
    if (is_loop(p, i, l)) in.insert(i);
  if (!in.empty()) {
    out.insert({l, in});
    return loops_of(p, g, l + 1, out);
  }
  map<long, set<int>> parts;
  for (int i : g) parts[p.st[i].T[l].back()].insert(i);
  for (auto &x : parts) loops_of(p, x.second, l + 1, out);
}
string lstr(const Loop &l) {
  string t = strf("level %d {", l.first);
  for (int x : l.second) t += strf(" S%d", x);
  return t + " }";
}
string lstr(const set<Loop> &m) {
  string t;
  for (auto &x : m) t += lstr(x) + " ";
  return t;
}
Loop loop_of(const Ploop *l) {
  Loop x;
  x.first = l->depth;
  for (unsigned i = 0; i < l->nstmts; i++) x.second.insert(l->stmts[i]->id);
  return x;
}

// A statement's iterators as functions of the levels, parameters and 1; the
// loops of a statement are unimodular.
vector<Vec> inverse(const IProg &p, const IStmt &t) {
  vector<int> lev;
  vector<Vec> a;  // iterators | levels, parameters, 1
  int w = p.nlev + p.npar + 1;
  for (int l = 0; l < p.nlev; l++) {
    bool any = false;
    for (int j = 0; j < t.dim; j++) any |= t.T[l][j] != 0;
    if (!any) continue;
    Vec r(t.dim + w, 0);
    for (int j = 0; j < t.dim; j++) r[j] = t.T[l][j];
    r[t.dim + l] = 1;
    for (int j = 0; j <= p.npar; j++) r[t.dim + p.nlev + j] = -t.T[l][t.dim + j];
    a.push_back(r);
  }
  if ((int)a.size() != t.dim) return {};
  for (int j = 0; j < t.dim; j++) {
    for (;;) {  // Euclid on column j
      int best = -1;
      for (int i = j; i < t.dim; i++)
        if (a[i][j] && (best < 0 || labs(a[i][j]) < labs(a[best][j]))) best = i;
      if (best < 0) return {};
      swap(a[j], a[best]);
      bool done = true;
      for (int i = j + 1; i < t.dim; i++) {
        long f = a[i][j] / a[j][j];
        for (size_t k = 0; k < a[i].size(); k++) a[i][k] -= f * a[j][k];
        done &= !a[i][j];
      }
      if (done) break;
    }
    if (labs(a[j][j]) != 1) return {};
    if (a[j][j] < 0)
      for (auto &x : a[j]) x = -x;
    for (int i = 0; i < t.dim; i++)
      if (i != j && a[i][j]) {
        long f = a[i][j];
        for (size_t k = 0; k < a[i].size(); k++) a[i][k] -= f * a[j][k];
      }
  }
  vector<Vec> inv;
  for (auto &r : a) inv.push_back(Vec(r.begin() + t.dim, r.end()));
  return inv;
}
typedef pair<string, vector<Vec>> Acc;
Acc at_levels(const IProg &p, const IStmt &t, const vector<Vec> &inv, const Acc &a) {
  Acc b;
  b.first = a.first;
  for (auto &f : a.second) {
    Vec r(p.nlev + p.npar + 1, 0);
    for (int j = 0; j < t.dim; j++)
      for (size_t k = 0; k < r.size(); k++) r[k] += f[j] * inv[j][k];
    for (int j = 0; j <= p.npar; j++) r[p.nlev + j] += f[t.dim + j];
    b.second.push_back(r);
  }
  return b;
}
bool invariant(const Acc &a, int l) {
  for (auto &f : a.second)
    if (f[l]) return false;
  return true;
}
bool spatial(const Acc &a, int l) {
  for (size_t k = 0; k + 1 < a.second.size(); k++)
    if (a.second[k][l]) return false;
  return a.second.size() && a.second.back()[l] >= 1 && a.second.back()[l] <= 4;
}
}  // namespace

static void reuse(Src &s, Result &r) {
  PlutoContext *c = pluto_context_alloc();
  c->options->silent = 1;
  isl_ctx *ctx = isl_ctx_alloc();
  IOpts o;
  o.max_stmts = 3;
  o.max_deps = 3;
  o.legal = true;
  o.unimodular = true;
  o.accesses = true;
  o.accept_mixed = false;
  bool tiled = o.outer_first = s.chance(1, 3);
  IProg p = gen_iprog(s, o);
  // More accesses, some the same as others.
  for (auto &t : p.st) {
    int n = s.range(0, 3);
    for (int k = 0; k < n; k++) {
      Acc a;
      if (!t.reads.empty() && s.chance(1, 3)) a = t.reads[s.draw(t.reads.size())];
      else {
        int nd = s.range(0, 3);
        a.first = string(1, (char)('A' + nd));
        for (int q = 0; q < nd; q++) {
          Vec f(t.dim + p.npar + 1, 0);
          if (t.dim && s.chance(4, 5)) f[s.draw(t.dim)] = s.chance(1, 3) ? s.range(-1, 6) : 1;
          f.back() = s.signed_(2);
          a.second.push_back(f);
        }
      }
      (s.chance(1, 4) ? t.writes : t.reads).push_back(a);
    }
  }
  int uf = s.chance(1, 2) ? 8 : s.range(1, 12);
  c->options->ufactor = uf;
  c->options->unrolljam = 1;
  r.desc = p.describe() + strf("\nunroll factor %d%s", uf, tiled ? " tiled" : "");
  PlutoProg *g = build_iprog(p, c);
  pluto_detect_hyperplane_types_stmtwise(g);
  pluto_detect_hyperplane_types(g);
  pluto_compute_dep_directions(g);
  pluto_compute_dep_satisfaction(g);
  vector<vector<bool>> tile_it(p.st.size());  // iterators that count tiles
  if (tiled) {
    pluto_tile(g);
    p.nlev = g->num_hyperplanes;
    for (size_t i = 0; i < p.st.size(); i++) {
      IStmt &t = p.st[i];
      Stmt *q = g->stmts[i];
      int add = (int)q->dim - t.dim;
      for (unsigned j = 0; j < q->dim; j++) tile_it[i].push_back((int)j < add);
      t.dim = q->dim;
      t.dom = model_rows(q->domain);
      t.T.clear();
      for (unsigned l = 0; l < q->trans->nrows; l++) t.T.push_back(Vec(q->trans->val[l], q->trans->val[l] + q->trans->ncols));
      for (auto v : {&t.reads, &t.writes})
        for (auto &a : *v)
          for (auto &f : a.second) f.insert(f.begin(), add, 0);
    }
    for (size_t k = 0; k < p.dep.size(); k++) p.dep[k].rows = model_rows(g->deps[k]->dpolytope);
    if (getenv("PBT_DESCRIBE")) r.desc += "\ntiled: " + p.describe();
  } else
    for (size_t i = 0; i < p.st.size(); i++) tile_it[i].assign(p.st[i].dim, false);
  int L = p.nlev, nst = p.st.size();
  vector<vector<Vec>> inv;
  vector<vector<Acc>> acc(nst);
  bool ok = true;
  for (int i = 0; i < nst; i++) {
    inv.push_back(inverse(p, p.st[i]));
    ok &= inv[i].size() == (size_t)p.st[i].dim;
    if (!ok) break;
    for (auto v : {&p.st[i].reads, &p.st[i].writes})
      for (auto &a : *v) acc[i].push_back(at_levels(p, p.st[i], inv[i], a));
  }
  if (!ok) {
    r.fail("transformation", "loops of a statement are no longer unimodular");
    goto end;
  }
  {
    set<int> all;
    for (int i = 0; i < nst; i++) all.insert(i);
    set<Loop> want;
    loops_of(p, all, 0, want);
    auto inner = [&](const Loop &x) {
      for (int q : x.second)
        for (int l = x.first + 1; l < L; l++)
          if (is_loop(p, q, l)) return false;
      return true;
    };
    auto inside = [&](const IDep &d, const set<int> &x) { return d.type != PLUTO_DEP_RAR && x.count(d.src) && x.count(d.dest); };
    auto zero = [&](const IDep &d, int l) {
      MRow m = distance(p, d, l);
      return rows_empty(ctx, with(d.rows, addc(m, -1)), nvars(p, d)) && rows_empty(ctx, with(d.rows, addc(neg(m), -1)), nvars(p, d));
    };
    auto counts = [&](const Loop &x, unsigned &a, unsigned &sp, unsigned &in) {
      a = sp = in = 0;
      for (int q : x.second)
        for (auto &f : acc[q]) a++, sp += spatial(f, x.first), in += invariant(f, x.first);
    };
    unsigned n;
    Ploop **lp = pluto_get_all_loops(g, &n);
    vector<bool> vec(n);
    for (unsigned i = 0; i < n && !r.failed(); i++) {
      Loop x = loop_of(lp[i]);
      unsigned a, sp, in;
      counts(x, a, sp, in);
      if (get_num_accesses(lp[i]) != a) r.fail("accesses", lstr(x) + strf(": %u instead of %u", get_num_accesses(lp[i]), a));
      if (get_num_invariant_accesses(lp[i]) != in)
        r.fail("temporal reuse", lstr(x) + strf(": %u instead of %u", get_num_invariant_accesses(lp[i]), in));
      if (get_num_spatial_accesses && get_num_spatial_accesses(lp[i]) != sp)
        r.fail("spatial reuse", lstr(x) + strf(": %u instead of %u", get_num_spatial_accesses(lp[i]), sp));
      vec[i] = pluto_loop_is_vectorizable(lp[i], g);
      bool par = pluto_loop_is_parallel(g, lp[i]);
      bool w = par && a && a == sp + in;
      if (vec[i] != w) r.fail("vectorizable", lstr(x) + strf(": %d instead of %d", (int)vec[i], w));
      set<Acc> u;
      unsigned ui = 0;
      for (int q : x.second)
        for (auto &f : acc[q]) u.insert(f);
      for (auto &f : u) ui += invariant(f, x.first);
      unsigned gu = get_num_unique_accesses_in_stmts(lp[i]->stmts, lp[i]->nstmts, g);
      unsigned gi = get_num_invariant_accesses_in_stmts(lp[i]->stmts, lp[i]->nstmts, x.first, g);
      if (gu != u.size()) r.fail("distinct accesses", lstr(x) + strf(": %u instead of %zu", gu, u.size()));
      if (gi != ui) r.fail("distinct invariant accesses", lstr(x) + strf(": %u instead of %u", gi, ui));
    }
    // The loop preferred as the innermost one: no other is better in every way.
    if (!r.failed() && n) {
      vector<Ploop *> sub;
      vector<unsigned> id;
      for (unsigned i = 0; i < n; i++)
        if (s.chance(3, 4)) sub.push_back(lp[i]), id.push_back(i);
      if (!sub.empty()) {
        Ploop *b = get_best_vectorizable_loop(sub.data(), sub.size(), g);
        size_t k = find(sub.begin(), sub.end(), b) - sub.begin();
        if (k == sub.size()) r.fail("best loop", "none of those given");
        else {
          unsigned a, sp, in;
          counts(loop_of(b), a, sp, in);
          for (size_t q = 0; q < sub.size(); q++) {
            unsigned a2, sp2, in2;
            counts(loop_of(sub[q]), a2, sp2, in2);
            if (sub[q]->nstmts == b->nstmts && a == a2 && sp2 >= sp && in2 >= in && vec[id[q]] >= vec[id[k]] &&
                (sp2 > sp || in2 > in || vec[id[q]] > vec[id[k]]))
              r.fail("best loop", lstr(loop_of(b)) + " is worse than " + lstr(loop_of(sub[q])));
          }
        }
      }
    }
    // Innermost and outermost loops.
    if (!r.failed()) {
      int ni = 0, no = 0;
      set<Loop> gi, wi, go;
      Ploop **il = pluto_get_innermost_loops ? pluto_get_innermost_loops(g, &ni) : nullptr;
      for (int i = 0; i < ni; i++) gi.insert(loop_of(il[i]));
      for (auto &x : want)
        if (inner(x)) wi.insert(x);
      if (pluto_get_innermost_loops && (gi != wi || (size_t)ni != wi.size())) r.fail("innermost loops", lstr(gi) + "instead of " + lstr(wi));
      if (il) pluto_loops_free(il, ni);
      Ploop **ol = pluto_get_outermost_loops ? pluto_get_outermost_loops(g, &no) : nullptr;
      for (int i = 0; i < no; i++) go.insert(loop_of(ol[i]));
      bool uniform = true;  // a level is a loop for all statements or for none
      for (int l = 0; l < L; l++)
        for (int q = 1; q < nst; q++) uniform &= is_loop(p, q, l) == is_loop(p, 0, l);
      for (auto &x : want) {
        bool around = false, dom = false;  // a proposed loop encloses some of x
        for (auto &y : go)
          for (int q : y.second) around |= y.first <= x.first && x.second.count(q);
        for (auto &y : want) dom |= y.first < x.first && includes(y.second.begin(), y.second.end(), x.second.begin(), x.second.end());
        if (ol && !around && uniform) r.fail("outermost loops", lstr(x) + " is not within any of " + lstr(go));
        if (dom && go.count(x)) r.fail("outermost loops", lstr(x) + " is within another loop");
      }
      for (auto &x : go)
        if (!want.count(x)) r.fail("outermost loops", lstr(x) + " is not a loop");
      free(ol);
    }
    // Parallel bands: no instance that the outer levels leave together moves along it.
    for (unsigned i = 0; i < n && !r.failed(); i++) {
      int split;
      Loop x = loop_of(lp[i]);
      Band *b = pluto_get_parallel_band(lp[i], g, &split);
      string name = strf("levels %d..%d of ", x.first, x.first + b->width - 1) + lstr(x);
      if (b->width < 0 || x.first + b->width > L) r.fail("parallel band", name + " has the wrong width");
      else
        for (auto &d : p.dep) {
          if (!inside(d, x.second)) continue;
          Rows q = d.rows;
          for (int l = 0; l < x.first; l++) {
            MRow m = distance(p, d, l);
            m.eq = true;
            q.push_back(m);
          }
          for (int l = x.first; l < x.first + b->width; l++) {
            MRow m = distance(p, d, l);
            if (!rows_empty(ctx, with(q, addc(m, -1)), nvars(p, d)) || !rows_empty(ctx, with(q, addc(neg(m), -1)), nvars(p, d)))
              r.fail("parallel band", name + strf(" carries a dependence at level %d", l));
          }
        }
      if (!r.failed()) {  // all distances are zero further on
        for (int k = x.first + b->width; k < L; k++) {
          bool z = true;
          for (auto &d : p.dep) z &= !inside(d, x.second) || zero(d, k);
          if (!z) break;
          bool loop = false;
          for (int q : x.second) loop |= is_loop(p, q, k);
          if (loop) r.fail("parallel band", name + strf(" could include level %d", k));
        }
      }
      if (pluto_band_free) pluto_band_free(b);
    }
    // Unroll-and-jam.
    unsigned nuj = 0;
    if (!r.failed()) {
      Ploop **uj = pluto_get_unroll_jam_loops(g, &nuj);
      multiset<Loop> got;
      for (unsigned i = 0; i < nuj; i++) got.insert(loop_of(uj[i]));
      pluto_loops_free(uj, nuj);
      auto profitable = [&](const Loop &x) {
        unsigned a = 0, t = 0;
        set<Loop> under;
        loops_of(p, x.second, x.first, under);
        for (auto &y : under) {
          if (!inner(y)) continue;
          int md = 0;
          for (int q : y.second) md = max(md, p.st[q].dim);
          set<Acc> u;
          for (int q : y.second)
            if (p.st[q].dim == md)
              for (auto &f : acc[q]) u.insert(f);
          unsigned ui = 0;
          for (auto &f : u) ui += invariant(f, x.first);
          a = max(a, (unsigned)u.size()), t = max(t, ui);
        }
        return t && (long)a * uf - (long)t * (uf - 1) <= 32;
      };
      auto tile_loop = [&](const Loop &x) {
        for (int q : x.second)
          for (int j = 0; j < p.st[q].dim; j++)
            if (p.st[q].T[x.first][j] && !tile_it[q][j]) return false;
        return true;
      };
      // An iterator z with T z <= f <= T z + T - 1 for some f of the others.
      auto counts_tiles = [&](int q, int j) {
        for (auto &m : p.st[q].dom)
          for (auto &m2 : p.st[q].dom) {
            if (m.c[j] < 2 || m.c.back() != m.c[j] - 1 || m2.c.back()) continue;
            MRow z = neg(m);
            z.c.back() = 0;
            if (z.c == m2.c) return true;
          }
        return false;
      };
      auto clear_tile_loop = [&](const Loop &x) {
        for (int q : x.second)
          for (int j = 0; j < p.st[q].dim; j++)
            if (p.st[q].T[x.first][j] && !(tile_it[q][j] && counts_tiles(q, j))) return false;
        return true;
      };
      for (auto &x : got) {
        bool is = false;  // all or some of the statements of a loop
        for (auto &y : want) is |= y.first == x.first && includes(y.second.begin(), y.second.end(), x.second.begin(), x.second.end());
        if (!is) r.fail("unroll-and-jam", lstr(x) + " is not a loop");
        else if (inner(x)) r.fail("unroll-and-jam", lstr(x) + " is innermost");
        else if (!profitable(x)) r.fail("unroll-and-jam", lstr(x) + " has no reuse or needs too many registers");
        else if (clear_tile_loop(x)) r.fail("unroll-and-jam", lstr(x) + " runs over tiles");
        // tiling statements fused at unequal depths misaligns their levels (known finding of C01)
        bool uneven = false;
        for (int q : x.second)
          for (int l = 0; l < L; l++) uneven |= tiled && is_loop(p, q, l) != is_loop(p, *x.second.begin(), l);
        for (size_t k = 0; k < p.dep.size() && !r.failed() && !uneven; k++) {
          const IDep &d = p.dep[k];
          if (!inside(d, x.second)) continue;
          Rows q = d.rows;
          for (int l = 0; l < x.first; l++) {
            MRow m = distance(p, d, l);
            m.eq = true;
            q.push_back(m);
          }
          q.push_back(addc(distance(p, d, x.first), -1));
          q.push_back(addc(neg(distance(p, d, x.first)), uf - 1));
          int last = x.first;  // the copies of the innermost loops' bodies keep their order
          for (int l = x.first + 1; l < L; l++)
            for (int y : {d.src, d.dest})
              if (is_loop(p, y, l)) last = l;
          for (int l = x.first + 1; l <= last; l++) {
            MRow m = distance(p, d, l);
            if (!rows_empty(ctx, with(q, addc(neg(m), -1)), nvars(p, d))) {
              r.fail("unroll-and-jam", lstr(x) + strf(" reverses dependence %zu at level %d", k, l));
              break;
            }
            m.eq = true;
            q.push_back(m);
          }
        }
      }
      for (auto &x : want) {
        if (r.failed() || inner(x) || tile_loop(x) || !profitable(x) || got.count(x)) continue;
        bool perm = true;
        for (int q : x.second)  // an iterator with a single value looks like one that counts tiles
          for (auto &m : p.st[q].dom)
            for (auto &m2 : p.st[q].dom) perm &= neg(m).c != m2.c && !m.eq;
        for (auto &d : p.dep)
          for (int l = x.first; l < L; l++)
            perm &= !inside(d, x.second) || rows_empty(ctx, with(d.rows, addc(neg(distance(p, d, l)), -1)), nvars(p, d));
        if (perm) r.fail("unroll-and-jam", lstr(x) + " is permutable and has reuse but is not proposed");
      }
    }
    r.tag("unroll-and-jam", nuj);
    r.st = r.failed() ? FAIL : n ? OK : TRIVIAL;
    pluto_loops_free(lp, n);
  }
end:
  if (r.failed()) r.st = FAIL;
  pluto_prog_free(g);
  pluto_context_free(c);
  isl_ctx_free(ctx);
}
static Reg d1("C23", "reuse", 1, 100, 30, reuse);
