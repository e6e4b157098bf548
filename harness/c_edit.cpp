// C21: editing statements, loops, parameters and dependences of a program.
// C09: index set splitting.
#include "iprog.hpp"
extern "C" {
#include "transforms.h"
}
#include <algorithm>
#include <set>
#include <cmath>
#include <isl/aff.h>
#include <isl/ilp.h>
#include <isl/lp.h>
#include <isl/val.h>
using namespace std;
using namespace pbt;

namespace {
struct MStmt : IStmt {
  vector<string> names;
  vector<int> hyp;
  vector<char> orig;
  string text;
};
struct Model {
  vector<string> par;
  vector<MStmt> st;
  vector<IDep> dep;
  vector<int> levels;  // kinds of the program's levels, -1: not claimed
};
void ins(Vec &v, int at) { v.insert(v.begin() + at, 0); }
void ins(Rows &r, int at) {
  for (auto &x : r) ins(x.c, at);
}
void ins(vector<Vec> &r, int at) {
  for (auto &x : r) ins(x, at);
}
void del(Vec &v, int at) { v.erase(v.begin() + at); }
isl_set *set_of(isl_ctx *ctx, const PlutoConstraints *c) {
  isl_set *s = nullptr;
  for (; c; c = c->next) {
    isl_set *x = isl_set_from_basic_set(rows_set(ctx, model_rows(c), c->ncols - 1));
    s = s ? isl_set_union(s, x) : x;
  }
  return s;
}
bool same_set(isl_ctx *ctx, const Rows &m, int nv, const PlutoConstraints *c) {
  isl_set *a = isl_set_from_basic_set(rows_set(ctx, m, nv)), *b = set_of(ctx, c);
  bool eq = isl_set_is_equal(a, b) == isl_bool_true;
  isl_set_free(a);
  isl_set_free(b);
  return eq;
}
bool same_mat(const vector<Vec> &a, const PlutoMatrix *m, size_t w) {
  if (!m || m->nrows != a.size() || m->ncols != w) return false;
  for (size_t i = 0; i < a.size(); i++)
    for (size_t j = 0; j < w; j++)
      if (a[i][j] != m->val[i][j]) return false;
  return true;
}
string mat_str(const PlutoMatrix *m) {
  string t;
  for (unsigned i = 0; i < m->nrows; i++) {
    t += "(";
    for (unsigned j = 0; j < m->ncols; j++) t += strf(j ? " %ld" : "%ld", (long)m->val[i][j]);
    t += ")";
  }
  return t;
}
string vec_str(const vector<Vec> &a) {
  string t;
  for (auto &r : a) {
    t += "(";
    for (size_t j = 0; j < r.size(); j++) t += strf(j ? " %ld" : "%ld", r[j]);
    t += ")";
  }
  return t;
}
// Compares the program with the model; empty when they agree.
string differs(isl_ctx *ctx, const PlutoProg *g, const Model &m) {
  if (g->nstmts != m.st.size()) return strf("%u statements instead of %zu", g->nstmts, m.st.size());
  if (g->npar != (int)m.par.size()) return strf("%d parameters instead of %zu", g->npar, m.par.size());
  for (size_t i = 0; i < m.par.size(); i++)
    if (m.par[i] != g->params[i]) return "parameter " + m.par[i] + " is called " + g->params[i];
  if (g->num_hyperplanes != m.levels.size()) return strf("%u levels instead of %zu", g->num_hyperplanes, m.levels.size());
  for (size_t l = 0; l < m.levels.size(); l++)
    if (m.levels[l] >= 0 && (int)g->hProps[l].type != m.levels[l]) return strf("level %zu is of kind %d instead of %d", l, (int)g->hProps[l].type, m.levels[l]);
  for (size_t i = 0; i < m.st.size(); i++) {
    const MStmt &t = m.st[i];
    const Stmt *q = g->stmts[i];
    string at = strf("S%zu: ", i);
    size_t w = t.dim + m.par.size() + 1;
    if (q->id != (int)i) return at + strf("has the number %d", q->id);
    if ((int)q->dim != t.dim) return at + strf("%d loops instead of %d", q->dim, t.dim);
    if (g->nvar < t.dim) return at + strf("more loops than the program's maximum %d", g->nvar);
    if (t.text != q->text) return at + "text " + q->text;
    for (int d = 0; d < t.dim; d++) {
      if (t.names[d] != q->iterators[d]) return at + strf("loop %d is called %s instead of ", d, q->iterators[d]) + t.names[d];
      if (t.orig[d] != q->is_orig_loop[d]) return at + strf("loop %d: original loop or not", d);
    }
    if (q->domain->ncols != w) return at + strf("the domain has %u columns instead of %zu", q->domain->ncols, w);
    if (!same_set(ctx, t.dom, w - 1, q->domain)) return at + "domain " + rows_str(model_rows(q->domain)) + " instead of " + rows_str(t.dom);
    if (!same_mat(t.T, q->trans, w)) return at + "transformation " + mat_str(q->trans) + " instead of " + vec_str(t.T);
    for (size_t l = 0; l < t.hyp.size(); l++)
      if (t.hyp[l] >= 0 && t.hyp[l] != (int)q->hyp_types[l]) return at + strf("level %zu is of kind %d instead of %d", l, (int)q->hyp_types[l], t.hyp[l]);
    if (q->nreads != (int)t.reads.size() || q->nwrites != (int)t.writes.size()) return at + "number of accesses";
    for (int k = 0; k < q->nreads; k++)
      if (t.reads[k].first != q->reads[k]->name || !same_mat(t.reads[k].second, q->reads[k]->mat, w))
        return at + strf("read %d is %s", k, q->reads[k]->name) + mat_str(q->reads[k]->mat) + " instead of " + t.reads[k].first + vec_str(t.reads[k].second);
    for (int k = 0; k < q->nwrites; k++)
      if (t.writes[k].first != q->writes[k]->name || !same_mat(t.writes[k].second, q->writes[k]->mat, w))
        return at + strf("write %d is %s", k, q->writes[k]->name) + mat_str(q->writes[k]->mat) + " instead of " + t.writes[k].first + vec_str(t.writes[k].second);
  }
  if (g->ndeps != (int)m.dep.size()) return strf("%d dependences instead of %zu", g->ndeps, m.dep.size());
  for (size_t i = 0; i < m.dep.size(); i++) {
    const IDep &d = m.dep[i];
    const Dep *q = g->deps[i];
    string at = strf("dependence %zu: ", i);
    if (q->src != d.src || q->dest != d.dest || q->type != d.type) return at + strf("from S%d to S%d type %d", q->src, q->dest, (int)q->type);
    size_t w = m.st[d.src].dim + m.st[d.dest].dim + m.par.size() + 1;
    if (q->dpolytope->ncols != w) return at + strf("%u columns instead of %zu", q->dpolytope->ncols, w);
    if (!same_set(ctx, d.rows, w - 1, q->dpolytope)) return at + rows_str(model_rows(q->dpolytope)) + " instead of " + rows_str(d.rows);
  }
  return "";
}
void add_loop(Model &m, int i, int pos, const string &name, bool orig) {
  MStmt &t = m.st[i];
  for (auto &d : m.dep) {
    int sd = m.st[d.src].dim;
    if (d.dest == i) ins(d.rows, sd + pos);
    if (d.src == i) ins(d.rows, pos);
  }
  ins(t.dom, pos), ins(t.T, pos);
  for (auto &a : t.reads) ins(a.second, pos);
  for (auto &a : t.writes) ins(a.second, pos);
  t.names.insert(t.names.begin() + pos, name);
  t.orig.insert(t.orig.begin() + pos, orig);
  t.dim++;
}
bool unused(const Model &m, int i, int d) {
  const MStmt &t = m.st[i];
  for (auto &r : t.dom) if (r.c[d]) return false;
  for (auto &r : t.T) if (r[d]) return false;
  for (auto *l : {&t.reads, &t.writes})
    for (auto &a : *l)
      for (auto &r : a.second) if (r[d]) return false;
  for (auto &x : m.dep)
    for (auto &r : x.rows) {
      if (x.src == i && r.c[d]) return false;
      if (x.dest == i && r.c[m.st[x.src].dim + d]) return false;
    }
  return true;
}
void remove_loop(Model &m, int i, int pos) {
  MStmt &t = m.st[i];
  for (auto &d : m.dep)
    for (auto &r : d.rows) {
      if (d.dest == i) del(r.c, m.st[d.src].dim + pos);
      if (d.src == i) del(r.c, pos);
    }
  for (auto &r : t.dom) del(r.c, pos);
  for (auto &r : t.T) del(r, pos);
  for (auto *l : {&t.reads, &t.writes})
    for (auto &a : *l)
      for (auto &r : a.second) del(r, pos);
  t.names.erase(t.names.begin() + pos);
  t.orig.erase(t.orig.begin() + pos);
  t.dim--;
}
void add_level(MStmt &t, int pos, int kind, int npar) {
  t.T.insert(t.T.begin() + pos, Vec(t.dim + npar + 1, 0));
  t.hyp.insert(t.hyp.begin() + pos, kind);
}
void pad(Model &m) {
  size_t n = 0;
  for (auto &t : m.st) n = max(n, t.T.size());
  for (auto &t : m.st)
    while (t.T.size() < n) add_level(t, t.T.size(), H_SCALAR, m.par.size());
  while (m.levels.size() < n) m.levels.push_back(H_SCALAR);
}
bool even(const Model &m) {
  for (auto &t : m.st)
    if (t.T.size() != m.levels.size()) return false;
  return true;
}
bool constant(const MStmt &t, int l) {
  for (int d = 0; d < t.dim; d++)
    if (t.T[l][d]) return false;
  return true;
}
Model model_of(const IProg &p, const PlutoProg *g) {
  Model m;
  for (int i = 0; i < p.npar; i++) m.par.push_back(strf("p%d", i));
  for (size_t i = 0; i < p.st.size(); i++) {
    MStmt t;
    (IStmt &)t = p.st[i];
    for (int d = 0; d < t.dim; d++) t.names.push_back(strf("i%d", d)), t.orig.push_back(1);
    for (size_t l = 0; l < t.T.size(); l++) t.hyp.push_back((int)g->stmts[i]->hyp_types[l]);
    t.text = strf("S%zu", i);
    m.st.push_back(t);
  }
  m.dep = p.dep;
  for (unsigned l = 0; l < g->num_hyperplanes; l++) m.levels.push_back(g->hProps[l].type);
  return m;
}
}  // namespace

static void edits(Src &s, Result &r) {
  IOpts io;
  io.accesses = true;
  io.max_deps = 3;
  IProg p = gen_iprog(s, io);
  PlutoContext *c = pluto_context_alloc();
  c->options->silent = 1;
  PlutoProg *g = build_iprog(p, c);
  Model m = model_of(p, g);
  r.desc = p.describe();
  isl_ctx *ctx = isl_ctx_alloc();
  bool real = !getenv("PBT_DESCRIBE");  // otherwise for the description only
  int steps = s.range(1, 8), done = 0;
  for (int k = 0; k < steps && !r.failed(); k++) {
    int op = s.weighted({3, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 3, 1, 2});
    int n = m.st.size(), np = m.par.size();
    if (!n && op != 9) continue;
    int i = n ? (int)s.draw(n) : 0;
    MStmt *t = n ? &m.st[i] : nullptr;
    Stmt *q = n && real ? g->stmts[i] : nullptr;
    string what;
    bool done_op = true;
    if (op == 0) {
      if (t->dim >= 5) continue;
      int pos = s.draw(t->dim + 1), tp = s.chance(1, 2) ? -1 : (int)s.draw(t->T.size() + 1);
      string nm = strf("n%d", k);
      PlutoHypType ty = s.chance(1, 2) ? H_LOOP : H_TILE_SPACE_LOOP;
      what = strf("add loop %s of S%d at %d, level %d kind %d", nm.c_str(), i, pos, tp, (int)ty);
      r.desc += "\n" + what;
      if (real) pluto_stmt_add_dim(q, pos, tp, nm.c_str(), ty, g);
      add_loop(m, i, pos, nm, true);
      if (tp >= 0) {
        add_level(*t, tp, ty, np);
        t->T[tp][pos] = 1;
      }
      g->nvar = max(g->nvar, t->dim);
    } else if (op == 1) {
      int d = -1;
      for (int x = 0; x < t->dim; x++)
        if (unused(m, i, x)) d = x;
      if (d < 0) continue;
      what = strf("remove loop %d of S%d", d, i);
      r.desc += "\n" + what;
      if (real) pluto_stmt_remove_dim(q, d, g);
      remove_loop(m, i, d);
    } else if (op == 2) {
      if (t->dim >= 5) continue;
      int pos = s.draw(t->dim + 1), val = s.signed_(3);
      what = strf("sink S%d at %d with value %d", i, pos, val);
      r.desc += "\n" + what;
      string nm = strf("d%d", t->dim);
      if (real) pluto_sink_statement(q, pos, val, g);
      add_loop(m, i, pos, nm, false);
      MRow row;
      row.c.assign(t->dim + np + 1, 0);
      row.c[pos] = 1, row.c.back() = -val, row.eq = true;
      t->dom.push_back(row);
      g->nvar = max(g->nvar, t->dim);
    } else if (op == 3) {
      int pos = s.draw(t->T.size() + 1);
      what = strf("sink the transformation of S%d at %d", i, pos);
      r.desc += "\n" + what;
      if (real) pluto_sink_transformation(q, pos);
      add_level(*t, pos, H_SCALAR, np);
    } else if (op == 4) {
      int pos = s.draw(t->T.size() + 1);
      PlutoHypType ty = s.chance(1, 2) ? H_LOOP : H_SCALAR;
      what = strf("add a level of kind %d at %d of S%d", (int)ty, pos, i);
      r.desc += "\n" + what;
      if (real) pluto_stmt_add_hyperplane(q, ty, pos);
      add_level(*t, pos, ty, np);
    } else if (op == 5) {
      if (t->T.size() < 2) continue;
      int a = s.draw(t->T.size()), b = s.draw(t->T.size());
      what = strf("interchange levels %d and %d of S%d", a, b, i);
      r.desc += "\n" + what;
      if (real) pluto_stmt_loop_interchange(q, a, b);
      swap(t->T[a], t->T[b]);
      if (t->hyp[a] != t->hyp[b]) t->hyp[a] = t->hyp[b] = -1;
    } else if (op == 6) {
      if (!even(m) || m.levels.size() < 2) continue;
      int a = s.draw(m.levels.size()), b = s.draw(m.levels.size());
      what = strf("interchange levels %d and %d", a, b);
      r.desc += "\n" + what;
      if (real) pluto_interchange(g, a, b);
      swap(m.levels[a], m.levels[b]);
      for (auto &x : m.st) {
        swap(x.T[a], x.T[b]);
        if (x.hyp[a] != x.hyp[b]) x.hyp[a] = x.hyp[b] = -1;
      }
    } else if (op == 7) {
      if (np >= 4) continue;
      int pos = s.draw(np + 1);
      string nm = strf("q%d", k);
      what = "add parameter " + nm + strf(" at %d", pos);
      r.desc += "\n" + what;
      if (real) pluto_prog_add_param(g, nm.c_str(), pos);
      for (auto &d : m.dep) ins(d.rows, m.st[d.src].dim + m.st[d.dest].dim + pos);
      for (auto &x : m.st) {
        ins(x.dom, x.dim + pos), ins(x.T, x.dim + pos);
        for (auto *l : {&x.reads, &x.writes})
          for (auto &a : *l) ins(a.second, x.dim + pos);
      }
      m.par.insert(m.par.begin() + pos, nm);
    } else if (op == 8) {
      if (!even(m)) continue;
      int pos = s.draw(m.levels.size() + 1);
      if (s.chance(1, 2)) {
        what = strf("separate S%d at %d", i, pos);
        r.desc += "\n" + what;
        if (real) pluto_separate_stmt(g, q, pos);
        for (auto &x : m.st) add_level(x, pos, H_SCALAR, np);
        t->T[pos].back() = 1;
      } else {
        int off = s.range(0, 3), num = 0;
        vector<Stmt *> l;
        what = strf("separate, from %d on,", off);
        for (auto &x : m.st) add_level(x, pos, H_SCALAR, np);
        for (int x = 0; x < n; x++)
          if (s.chance(1, 2)) {
            what += strf(" S%d", x);
            l.push_back(real ? g->stmts[x] : nullptr);
            m.st[x].T[pos].back() = off + 1 + num++;
          }
        what += strf(" at %d", pos);
        r.desc += "\n" + what;
        if (real) pluto_separate_stmts(g, l.data(), num, pos, off);
      }
      m.levels.insert(m.levels.begin() + pos, H_SCALAR);
    } else if (op == 9) {
      if (!n || n >= 6) continue;
      what = strf("copy S%d", i);
      r.desc += "\n" + what;
      if (real) pluto_add_given_stmt(g, pluto_stmt_dup(q));
      MStmt x = *t;
      m.st.push_back(x);
      pad(m);
    } else if (op == 10) {
      bool used = false;
      for (auto &d : m.dep) used |= d.src == i || d.dest == i;
      if (used) continue;
      what = strf("remove S%d", i);
      r.desc += "\n" + what;
      if (real) pluto_remove_stmt(g, i);
      m.st.erase(m.st.begin() + i);
      for (auto &d : m.dep) d.src -= d.src > i, d.dest -= d.dest > i;
    } else if (op == 11) {
      if (m.dep.empty() || m.dep.size() >= 6) continue;
      int d = s.draw(m.dep.size());
      what = strf("copy dependence %d", d);
      r.desc += "\n" + what;
      if (real) {
        g->deps = (Dep **)realloc(g->deps, (g->ndeps + 1) * sizeof(Dep *));
        g->deps[g->ndeps] = pluto_dep_dup(g->deps[d]);
        g->ndeps++;
      }
      m.dep.push_back(m.dep[d]);
    } else if (op == 12) {
      // a loop made innermost
      if (!even(m)) continue;
      int L = m.levels.size(), at = s.draw(L);
      vector<Stmt *> l;
      vector<int> ids;
      for (int x = 0; x < n; x++)
        if (!constant(m.st[x], at) && s.chance(3, 4)) l.push_back(real ? g->stmts[x] : nullptr), ids.push_back(x);
      if (ids.empty()) continue;
      bool across = s.chance(1, 2);
      int last = at + 1 + (int)s.draw(L - at);
      what = strf("make level %d innermost of", at);
      for (int x : ids) what += strf(" S%d", x);
      what += across ? strf(" down to %d", last) : " up to a constant level";
      r.desc += "\n" + what;
      int to = last - 1;
      if (!across) {
        to = L - 1;
        for (int x : ids)
          for (int d = at; d < L; d++)
            if (constant(m.st[x], d)) { to = min(to, d - 1); break; }
      }
      Ploop *lp = pluto_loop_alloc();
      lp->depth = at;
      lp->nstmts = l.size();
      lp->stmts = (Stmt **)malloc(l.size() * sizeof(Stmt *));
      for (size_t x = 0; x < l.size(); x++) lp->stmts[x] = l[x];
      if (real) pluto_make_innermost_loop(lp, last, across, g);
      pluto_loop_free(lp);
      for (int x : ids) {
        MStmt &y = m.st[x];
        for (int d = at; d < to; d++) swap(y.T[d], y.T[d + 1]);
        bool same = true;
        for (int d = at; d <= to; d++) same &= y.hyp[d] == y.hyp[at];
        if (!same)
          for (int d = at; d <= to; d++) y.hyp[d] = -1;
      }
    } else if (op == 13) {
      int pos = s.draw(m.levels.size() + 1);
      PlutoHypType ty = s.chance(1, 2) ? H_LOOP : H_SCALAR;
      what = strf("add a level of kind %d at %d of all", (int)ty, pos);
      if (!even(m)) continue;
      r.desc += "\n" + what;
      for (int x = 0; x < n; x++) real ? pluto_stmt_add_hyperplane(g->stmts[x], ty, pos) : (void)0, add_level(m.st[x], pos, ty, np);
      if (real) pluto_prog_add_hyperplane(g, pos, ty);
      m.levels.insert(m.levels.begin() + pos, ty);
    } else {
      if (t->T.empty() || t->dim >= 5) continue;
      int at = s.draw(t->T.size()), f = s.range(2, 5);
      what = strf("strip-mine level %d of S%d by %d", at, i, f);
      r.desc += "\n" + what;
      string nm = strf("z%d", k);
      if (real) pluto_stripmine(q, at, f, (char *)nm.c_str(), g);
      add_loop(m, i, 0, nm, true);
      add_level(*t, at, H_TILE_SPACE_LOOP, np);
      t->T[at][0] = 1;
      MRow a;
      a.c = t->T[at + 1];
      MRow b = neg(a);
      a.c[0] -= f, b.c[0] += f, b.c.back() += f - 1;
      t->dom.push_back(a), t->dom.push_back(b);
      g->nvar = max(g->nvar, t->dim);
    }
    if (!done_op) continue;
    done++;
    string d = real ? differs(ctx, g, m) : "";
    if (!d.empty()) r.fail("edit", "after \"" + what + "\": " + d);
    r.tag("edits");
  }
  if (!done && !r.failed()) r.st = TRIVIAL;
  pluto_prog_free(g);
  pluto_context_free(c);
  isl_ctx_free(ctx);
}
static Reg e1("C21", "edits", 1, 60, 5, edits);

// ---------------------------------------------------------------- splitting
namespace {
// Statements of one depth in one nest, with dependences of a statement on itself
// that are short, unbounded, mirrored or periodic.
IProg gen_split(Src &s) {
  IProg p;
  p.npar = s.range(0, 2);
  int dim = s.range(1, 3), n = s.range(1, 2), np = p.npar;
  bool fused = !s.chance(1, 12);
  p.nlev = 2 * dim + 1;
  int w = dim + np + 1;
  Rows dom;
  vector<long> lo(dim), hic(dim);
  vector<int> hip(dim);
  for (int d = 0; d < dim; d++) {
    lo[d] = s.range(0, 1), hic[d] = np && s.chance(4, 5) ? s.signed_(1) : s.range(6, 30);
    hip[d] = np ? (int)s.draw(np + 1) - 1 : -1;
    if (hip[d] < 0) hic[d] = labs(hic[d]) + 8;
  }
  for (int i = 0; i < n; i++) {
    IStmt t;
    t.dim = dim;
    for (int d = 0; d < dim; d++) {
      MRow a, b;
      a.c.assign(w, 0), b.c.assign(w, 0);
      a.c[d] = 1, a.c[w - 1] = -lo[d];
      b.c[d] = -1, b.c[w - 1] = hic[d];
      if (hip[d] >= 0) b.c[dim + hip[d]] = s.chance(1, 8) ? 2 : 1;
      t.dom.push_back(a), t.dom.push_back(b);
    }
    for (int l = 0; l < p.nlev; l++) {
      Vec r(w, 0);
      if (l % 2) r[l / 2] = 1;
      else if (l == 2 * dim || (!fused && l == 0)) r[w - 1] = i;
      t.T.push_back(r);
    }
    if (s.chance(1, 2)) t.writes.push_back({"A", {Vec(w, 0)}});
    if (s.chance(1, 2)) {
      Vec r(w, 0);
      r[s.draw(dim)] = 1;
      t.reads.push_back({"B", {r}});
    }
    p.st.push_back(t);
  }
  int nd = s.range(1, 4);
  for (int k = 0; k < nd; k++) {
    IDep e;
    e.src = s.draw(n), e.dest = s.chance(3, 4) ? e.src : (int)s.draw(n);
    static const PlutoDepType ty[] = {PLUTO_DEP_RAW, PLUTO_DEP_WAR, PLUTO_DEP_WAW};
    e.type = ty[s.draw(3)];
    int dw = 2 * dim + np + 1;
    for (int side = 0; side < 2; side++)
      for (auto &r : p.st[side ? e.dest : e.src].dom) {
        MRow m;
        m.c.assign(dw, 0);
        for (int j = 0; j < dim; j++) m.c[side * dim + j] = r.c[j];
        for (int j = 0; j <= np; j++) m.c[2 * dim + j] = r.c[dim + j];
        e.rows.push_back(m);
      }
    for (int d = 0; d < dim; d++) {
      MRow m;
      m.c.assign(dw, 0);
      m.eq = true;
      int kind = s.weighted({4, 4, 3, 1, 1});
      if (kind == 0) {  // a constant distance
        m.c[d] = -1, m.c[dim + d] = 1, m.c[dw - 1] = -s.signed_(2);
      } else if (kind == 1) {  // mirrored: s + t = extent + constant
        m.c[d] = 1, m.c[dim + d] = 1, m.c[dw - 1] = -(lo[d] + hic[d] + s.signed_(2));
        if (hip[d] >= 0) m.c[2 * dim + hip[d]] = s.chance(1, 6) ? -2 : -1;
      } else if (kind == 2) {  // from one end to the other
        m.c[d] = 1, m.c[dw - 1] = -lo[d];
        e.rows.push_back(m);
        m.c.assign(dw, 0);
        m.c[dim + d] = 1, m.c[dw - 1] = -(hic[d] + s.signed_(1));
        if (hip[d] >= 0) m.c[2 * dim + hip[d]] = -1;
      } else if (kind == 3) {  // at least
        m.eq = false, m.c[d] = -1, m.c[dim + d] = 1, m.c[dw - 1] = -1;
      } else {
        continue;
      }
      e.rows.push_back(m);
    }
    p.dep.push_back(e);
  }
  return p;
}
// Checks that the statements of g are pieces of those of m (told apart by their texts),
// and the dependences pieces of m's between the right ones.
string pieces_differ(isl_ctx *ctx, const PlutoProg *g, const Model &m) {
  int np = m.par.size();
  vector<int> of(g->nstmts, -1);
  vector<isl_set *> dom(g->nstmts);
  vector<isl_set *> whole;
  string res;
  for (auto &t : m.st) whole.push_back(isl_set_from_basic_set(rows_set(ctx, t.dom, t.dim + np)));
  for (unsigned i = 0; i < g->nstmts; i++) {
    for (size_t k = 0; k < m.st.size(); k++)
      if (m.st[k].text == g->stmts[i]->text) of[i] = k;
    dom[i] = set_of(ctx, g->stmts[i]->domain);
  }
  auto bad = [&](const string &x) { if (res.empty()) res = x; };
  // everything but the domains and the dependences
  Model want = m;
  want.st.clear(), want.dep.clear();
  for (unsigned i = 0; i < g->nstmts && res.empty(); i++) {
    if (of[i] < 0) { bad(strf("S%u is no piece of a statement", i)); break; }
    want.st.push_back(m.st[of[i]]);
    want.st.back().dom = model_rows(g->stmts[i]->domain);
    if ((int)g->stmts[i]->domain->ncols != want.st.back().dim + np + 1 || g->stmts[i]->domain->next) bad(strf("S%u: shape of the domain", i));
  }
  for (int i = 0; i < g->ndeps && res.empty(); i++) {
    const Dep *d = g->deps[i];
    if (d->src < 0 || d->dest < 0 || d->src >= (int)g->nstmts || d->dest >= (int)g->nstmts) { bad(strf("dependence %d from S%d to S%d", i, d->src, d->dest)); break; }
    IDep e;
    e.src = d->src, e.dest = d->dest, e.type = d->type, e.rows = model_rows(d->dpolytope);
    want.dep.push_back(e);
  }
  if (res.empty()) bad(differs(ctx, g, want));
  // the pieces of a statement are disjoint and make it up
  for (size_t k = 0; k < m.st.size() && res.empty(); k++) {
    isl_set *u = isl_set_empty(isl_set_get_space(whole[k]));
    for (unsigned i = 0; i < g->nstmts; i++)
      if (of[i] == (int)k) {
        isl_set *x = isl_set_intersect(isl_set_copy(u), isl_set_copy(dom[i]));
        if (isl_set_is_empty(x) != isl_bool_true) bad(strf("pieces of %s overlap", m.st[k].text.c_str()));
        isl_set_free(x);
        u = isl_set_union(u, isl_set_copy(dom[i]));
      }
    if (isl_set_is_equal(u, whole[k]) != isl_bool_true) bad(strf("the pieces of %s are not its iterations", m.st[k].text.c_str()));
    isl_set_free(u);
  }
  // every dependence stays, between the pieces its ends lie in
  for (int i = 0; i < g->ndeps && res.empty(); i++) {
    const Dep *d = g->deps[i];
    isl_set *e = set_of(ctx, d->dpolytope);
    int sd = m.st[of[d->src]].dim, dd = m.st[of[d->dest]].dim;
    isl_set *a = isl_set_insert_dims(isl_set_copy(dom[d->src]), isl_dim_set, sd, dd);
    isl_set *b = isl_set_insert_dims(isl_set_copy(dom[d->dest]), isl_dim_set, 0, sd);
    if (isl_set_is_subset(e, a) != isl_bool_true) bad(strf("dependence %d leaves from outside of S%d", i, d->src));
    if (isl_set_is_subset(e, b) != isl_bool_true) bad(strf("dependence %d arrives outside of S%d", i, d->dest));
    isl_set_free(e), isl_set_free(a), isl_set_free(b);
  }
  for (size_t k = 0; k < m.dep.size() && res.empty(); k++) {
    const IDep &x = m.dep[k];
    int w = m.st[x.src].dim + m.st[x.dest].dim + np;
    isl_set *orig = isl_set_from_basic_set(rows_set(ctx, x.rows, w));
    // those of the same kind and ends together
    for (size_t l = 0; l < m.dep.size(); l++)
      if (l != k && m.dep[l].src == x.src && m.dep[l].dest == x.dest && m.dep[l].type == x.type)
        orig = isl_set_union(orig, isl_set_from_basic_set(rows_set(ctx, m.dep[l].rows, w)));
    isl_set *u = isl_set_empty(isl_set_get_space(orig));
    for (int i = 0; i < g->ndeps; i++)
      if (of[g->deps[i]->src] == x.src && of[g->deps[i]->dest] == x.dest && g->deps[i]->type == x.type)
        u = isl_set_union(u, set_of(ctx, g->deps[i]->dpolytope));
    if (isl_set_is_equal(u, orig) != isl_bool_true)
      bad(strf("dependence %zu (S%d to S%d) is not what its pieces make up: %s", k, x.src, x.dest,
               isl_set_is_subset(orig, u) == isl_bool_true ? "too many" : "lost"));
    isl_set_free(u), isl_set_free(orig);
  }
  for (int i = 0; i < g->ndeps && res.empty(); i++) {
    bool any = false;
    for (auto &x : m.dep) any |= of[g->deps[i]->src] == x.src && of[g->deps[i]->dest] == x.dest && g->deps[i]->type == x.type;
    if (!any) bad(strf("dependence %d is no piece of one", i));
  }
  for (auto *x : whole) isl_set_free(x);
  for (auto *x : dom) isl_set_free(x);
  return res;
}
// Dependences have names, as those computed have.
void name_deps(PlutoProg *g) {
  for (int i = 0; i < g->ndeps; i++) {
    Dep *d = g->deps[i];
    vector<string> n;
    for (unsigned k = 0; k < g->stmts[d->src]->dim; k++) n.push_back(strf("i%u", k));
    for (unsigned k = 0; k < g->stmts[d->dest]->dim; k++) n.push_back(strf("i%u'", k));
    for (int k = 0; k < g->npar; k++) n.push_back(g->params[k]);
    vector<char *> q;
    for (auto &x : n) q.push_back((char *)x.c_str());
    pluto_constraints_set_names_range(d->dpolytope, q.data(), 0, 0, q.size());
  }
}
// The greatest value of an affine function over a set's rational points; false if unbounded.
bool max_of(isl_ctx *ctx, const Rows &rows, int nv, const MRow &f, double &v) {
  isl_basic_set *b = rows_set(ctx, rows, nv);
  isl_aff *a = isl_aff_zero_on_domain(isl_local_space_from_space(isl_basic_set_get_space(b)));
  for (int j = 0; j < nv; j++) a = isl_aff_set_coefficient_si(a, isl_dim_in, j, (int)f.c[j]);
  a = isl_aff_set_constant_si(a, (int)f.c[nv]);
  isl_val *x = isl_basic_set_max_lp_val(b, a);
  bool ok = x && isl_val_is_rat(x) == isl_bool_true;
  if (ok) v = isl_val_get_d(x);
  bool none = x && isl_val_is_nan(x) == isl_bool_true;
  if (none) ok = true, v = -1e9;
  isl_val_free(x), isl_aff_free(a), isl_basic_set_free(b);
  return ok;
}
}  // namespace

// Twice the distance of the middles of some dependences from h.i = v(p), at most.
static double middle_dist(isl_ctx *ctx, const IProg &p, const Vec &hv, function<bool(int)> which) {
  int np = p.npar, dim = p.st[0].dim;
  double most = 0;
  for (size_t e = 0; e < p.dep.size(); e++) {
    if (!which(e)) continue;
    for (int sg : {1, -1}) {
      MRow f;
      for (int side = 0; side < 2; side++)
        for (int j = 0; j < dim; j++) f.c.push_back(sg * hv[j]);
      for (int j = 0; j <= np; j++) f.c.push_back(2 * sg * hv[dim + j]);
      double v;
      if (!max_of(ctx, p.dep[e].rows, 2 * dim + np, f, v)) return 1e9;
      most = max(most, v);
    }
  }
  return most;
}
// 1: is to be split, 0: is not to be, -1: not claimed.
static int to_split(isl_ctx *ctx, const IProg &p, bool fused) {
  int np = p.npar, dim = p.st[0].dim, nd = p.dep.size();
  if (!fused) return -1;
  bool all_short = true;
  int res = 0;
  for (int j = 0; j < dim; j++) {
    vector<char> far(nd, 0);
    bool any = false;
    for (int e = 0; e < nd; e++) {
      if (p.dep[e].src != p.dep[e].dest) continue;
      MRow f;
      f.c.assign(2 * dim + np + 1, 0);
      f.c[j] = -1, f.c[dim + j] = 1;
      double a, b;
      bool ka = max_of(ctx, p.dep[e].rows, 2 * dim + np, f, a), kb = max_of(ctx, p.dep[e].rows, 2 * dim + np, neg(f), b);
      if (!ka || !kb || a > 6 || b > 6) far[e] = 1, any = true;
      else if (a < -1e8 || a > 4 || b > 4) return -1;
    }
    if (!any) continue;
    all_short = false;
    Vec v(dim + np + 1, 0);
    function<void(int)> rec = [&](int k) {
      if (res == 1) return;
      if (k == dim + np) {
        bool zero = true;
        for (int q = 0; q < dim; q++) zero &= !v[q];
        if (zero) return;
        for (long cst : {0, 4, 8, 16})
          if (v[k] = -cst, middle_dist(ctx, p, v, [&](int e) { return far[e]; }) <= 5) res = 1;
        return;
      }
      for (int q = 0; q <= 1; q++) v[k] = k < dim ? q : -q, rec(k + 1);
    };
    rec(0);
  }
  return res ? 1 : all_short ? 0 : -1;
}

static void iss(Src &s, Result &r) {
  IProg p = gen_split(s);
  r.desc = p.describe();
  if (getenv("PBT_DESCRIBE")) return;
  PlutoContext *c = pluto_context_alloc();
  c->options->silent = 1;
  PlutoProg *g = build_iprog(p, c);
  Model m = model_of(p, g);
  isl_ctx *ctx = isl_ctx_alloc();
  name_deps(g);
  pluto_iss_dep(g);
  string d = pieces_differ(ctx, g, m);
  if (!d.empty()) r.fail("split", d);
  else if (g->nstmts == m.st.size()) {
    // nothing split, nothing changed
    d = differs(ctx, g, m);
    if (!d.empty()) r.fail("unsplit", d);
    else r.st = TRIVIAL;
  } else r.tag(strf("pieces %zu", g->nstmts / m.st.size()));
  if (!r.failed()) {
    bool fused = true;
    for (auto &t : p.st) fused &= t.T[0] == p.st[0].T[0];
    int want = to_split(ctx, p, fused);
    if (want == 1 && g->nstmts == m.st.size()) r.fail("not split", "long dependences with a cut close to their middles, not split");
    if (want == 0 && g->nstmts != m.st.size()) r.fail("needless", "split with no long dependence");
    if (want >= 0) r.tag(want ? "to be split" : "not to be split");
  }
  pluto_prog_free(g);
  pluto_context_free(c);
  isl_ctx_free(ctx);
}
static Reg e2("C09", "split", 1, 60, 5, iss);

// Splitting one statement at given cuts.
static void given(Src &s, Result &r) {
  IOpts io;
  io.accesses = true;
  io.max_deps = 4;
  IProg p = gen_iprog(s, io);
  int i = s.draw(p.st.size());
  const IStmt &t = p.st[i];
  int w = t.dim + p.npar + 1;
  vector<Rows> cuts = {{}};
  int nc = s.range(1, 2);
  for (int k = 0; k < nc; k++) {
    MRow h;
    h.c.assign(w, 0);
    for (int j = 0; j < w - 1; j++)
      if (s.chance(1, 2)) h.c[j] = s.signed_(2);
    h.c[w - 1] = s.signed_(5);
    vector<Rows> next;
    for (auto &x : cuts) next.push_back(with(x, h)), next.push_back(with(x, addc(neg(h), -1)));
    cuts = next;
  }
  r.desc = p.describe() + strf("\nsplit S%d at", i);
  for (auto &x : cuts) r.desc += " " + rows_str(x);
  if (getenv("PBT_DESCRIBE")) return;
  PlutoContext *c = pluto_context_alloc();
  c->options->silent = 1;
  PlutoProg *g = build_iprog(p, c);
  Model m = model_of(p, g);
  isl_ctx *ctx = isl_ctx_alloc();
  vector<PlutoConstraints *> cc;
  for (auto &x : cuts) {
    PlutoConstraints *q = pluto_constraints_alloc(x.size(), w, c);
    for (auto &row : x) {
      pluto_constraints_add_inequality(q);
      for (int j = 0; j < w; j++) q->val[q->nrows - 1][j] = row.c[j];
    }
    cc.push_back(q);
  }
  name_deps(g);
  pluto_iss(g->stmts[i], cc.data(), cc.size(), g);
  pluto_remove_stmt(g, i);
  string d = pieces_differ(ctx, g, m);
  if (!d.empty()) r.fail("split", d);
  for (auto *q : cc) pluto_constraints_free(q);
  pluto_prog_free(g);
  pluto_context_free(c);
  isl_ctx_free(ctx);
}
static Reg e3("C09", "given cuts", 1, 60, 5, given);

// The cut lies close to the middle of every dependence, as close as possible.
static void middle(Src &s, Result &r) {
  IProg p = gen_split(s);
  int np = p.npar, dim = p.st[0].dim;
  r.desc = p.describe();
  if (getenv("PBT_DESCRIBE")) return;
  PlutoContext *c = pluto_context_alloc();
  c->options->silent = 1;
  PlutoProg *g = build_iprog(p, c);
  isl_ctx *ctx = isl_ctx_alloc();
  name_deps(g);
  vector<const PlutoConstraints *> doms;
  for (int i = 0; i < g->ndeps; i++) doms.push_back(g->deps[i]->dpolytope);
  PlutoConstraints *h = pluto_find_iss(doms.data(), doms.size(), np, NULL);
  auto dist = [&](const Vec &hv) { return middle_dist(ctx, p, hv, [](int) { return true; }); };
  double got = 1e9;
  if (h) {
    Vec v;
    bool zero = true, neg = false;
    if (h->nrows != 1 || (int)h->ncols != dim + np + 1 || !h->is_eq[0]) r.fail("shape", "the cut is no hyperplane");
    else {
      for (unsigned j = 0; j < h->ncols; j++) v.push_back(h->val[0][j]);
      for (int j = 0; j < dim; j++) zero &= !v[j], neg |= v[j] < 0;
      got = dist(v);
      if (zero || neg) r.fail("hyperplane", "the cut " + vec_str({v}) + " is not between iterations");
      else if (got > 5) r.fail("far", "the cut " + vec_str({v}) + strf(" is %g from twice the middle", got));
    }
    pluto_constraints_free(h);
  }
  // a closer one, among small ones; an empty dependence admits of every cut, but not in Farkas' form
  bool empty = false;
  for (auto &e : p.dep) {
    double v;
    MRow f;
    f.c.assign(2 * dim + np + 1, 0);
    max_of(ctx, e.rows, 2 * dim + np, f, v);
    empty |= v < -1e8;
  }
  if (!r.failed() && !empty) {
    Vec v(dim + np + 1, 0);
    function<void(int)> rec = [&](int j) {
      if (r.failed()) return;
      if (j == dim + np) {
        bool zero = true;
        for (int k = 0; k < dim; k++) zero &= !v[k];
        if (zero) return;
        for (long cst : {0, 1, 2, 4, 8}) {
          v[j] = -cst;
          double x = dist(v);
          double m = ceil(x - 1e-9);
          if (m <= 5 && m < ceil(got - 1e-9)) r.fail("closer", "the cut " + vec_str({v}) + strf(" is %g from twice the middles, the one found %g", x, got));
        }
        return;
      }
      for (int k = 0; k <= 1; k++) v[j] = j < dim ? k : -k, rec(j + 1);
    };
    rec(0);
  }
  if (!r.failed()) r.tag(got < 1e8 ? "cut" : "no cut");
  pluto_prog_free(g);
  pluto_context_free(c);
  isl_ctx_free(ctx);
}
static Reg e4("C09", "middle", 1, 20, 5, middle);
