#include "iprog.hpp"
#include <algorithm>
#include <cstring>
#include <isl/mat.h>
using namespace std;
using namespace pbt;

string rows_str(const Rows &r) {
  string t = "{";
  for (auto &x : r) {
    t += " [";
    for (size_t i = 0; i < x.c.size(); i++) t += strf(i ? " %ld" : "%ld", x.c[i]);
    t += x.eq ? "]=0" : "]>=0";
  }
  return t + " }";
}
static string vec_str(const Vec &v) {
  string t = "(";
  for (size_t i = 0; i < v.size(); i++) t += strf(i ? " %ld" : "%ld", v[i]);
  return t + ")";
}
string IProg::describe() const {
  string t = strf("npar=%d levels=%d", npar, nlev);
  for (size_t i = 0; i < st.size(); i++) {
    t += strf("\nS%zu dim=%d dom=", i, st[i].dim) + rows_str(st[i].dom) + " T=";
    for (auto &r : st[i].T) t += vec_str(r);
    for (auto &a : st[i].writes) {
      t += " write " + a.first;
      for (auto &r : a.second) t += vec_str(r);
    }
    for (auto &a : st[i].reads) {
      t += " read " + a.first;
      for (auto &r : a.second) t += vec_str(r);
    }
  }
  for (auto &d : dep) t += strf("\ndep S%d->S%d type %d ", d.src, d.dest, (int)d.type) + rows_str(d.rows);
  return t;
}
MRow addc(MRow r, long k) {
  r.c.back() += k;
  return r;
}
MRow neg(MRow r) {
  for (auto &x : r.c) x = -x;
  return r;
}
Rows with(const Rows &a, const MRow &r) {
  Rows b = a;
  b.push_back(r);
  return b;
}
isl_basic_set *rows_set(isl_ctx *ctx, const Rows &r, int nv) {
  int ne = 0;
  for (auto &x : r) ne += x.eq;
  isl_mat *e = isl_mat_alloc(ctx, ne, nv + 1), *q = isl_mat_alloc(ctx, r.size() - ne, nv + 1);
  int a = 0, b = 0;
  for (auto &x : r) {
    for (int j = 0; j <= nv; j++)
      if (x.eq) e = isl_mat_set_element_si(e, a, j, (int)x.c[j]);
      else q = isl_mat_set_element_si(q, b, j, (int)x.c[j]);
    (x.eq ? a : b)++;
  }
  return isl_basic_set_from_constraint_matrices(isl_space_set_alloc(ctx, 0, nv), e, q, isl_dim_set, isl_dim_div,
                                                isl_dim_param, isl_dim_cst);
}
bool rows_empty(isl_ctx *ctx, const Rows &r, int nv) {
  isl_basic_set *b = rows_set(ctx, r, nv);
  bool e = isl_basic_set_is_empty(b) == isl_bool_true;
  isl_basic_set_free(b);
  return e;
}
MRow distance(const IProg &p, const IDep &d, int l) {
  const IStmt &a = p.st[d.src], &b = p.st[d.dest];
  MRow r;
  for (int j = 0; j < a.dim; j++) r.c.push_back(-a.T[l][j]);
  for (int j = 0; j < b.dim; j++) r.c.push_back(b.T[l][j]);
  for (int j = 0; j <= p.npar; j++) r.c.push_back(b.T[l][b.dim + j] - a.T[l][a.dim + j]);
  return r;
}
Rows model_rows(const PlutoConstraints *c) {
  Rows r;
  for (unsigned i = 0; i < c->nrows; i++) {
    MRow m;
    m.eq = c->is_eq[i];
    for (unsigned j = 0; j < c->ncols; j++) m.c.push_back(c->val[i][j]);
    r.push_back(m);
  }
  return r;
}

IProg gen_iprog(Src &s, const IOpts &oo) {
  IProg p;
  IOpts o = oo;
  // now and then more of everything, and larger numbers
  bool big = s.chance(1, 8);
  if (big) o.max_dim += o.max_dim >= 2, o.max_par++, o.max_stmts += o.max_stmts > 1 ? 2 : 0, o.max_deps += o.max_deps > 0;
  auto shift = [&](int n) { return (long)(big && s.chance(1, 5) ? s.signed_(s.chance(1, 2) ? 1000 : 30) : s.signed_(n)); };
  p.npar = s.range(0, o.max_par);
  int n = s.range(1, o.max_stmts);
  for (int i = 0; i < n; i++) {
    IStmt t;
    t.dim = s.chance(1, 12) ? 0 : s.range(1, o.max_dim);
    int w = t.dim + p.npar + 1;
    for (int d = 0; d < t.dim; d++) {
      MRow lo, hi;
      lo.c.assign(w, 0), hi.c.assign(w, 0);
      lo.c[d] = 1, hi.c[d] = -1;
      if (d && s.chance(1, 5)) lo.c[s.draw(d)] -= 1, lo.c[w - 1] = s.signed_(1);
      else lo.c[w - 1] = s.signed_(2);
      int k = s.weighted({3, 3, 1});
      if (k == 0 && p.npar) hi.c[t.dim + s.draw(p.npar)] = 1, hi.c[w - 1] = s.signed_(2);
      else if (k == 2 && d) hi.c[s.draw(d)] += 1, hi.c[w - 1] = s.range(0, 2);
      else hi.c[w - 1] = s.range(0, 6);
      if (s.chance(1, 10)) {
        hi.eq = true;
        t.dom.push_back(hi);
      } else {
        t.dom.push_back(lo), t.dom.push_back(hi);
      }
    }
    p.st.push_back(t);
  }
  // The levels: loops in a random order of dimensions, with scalar levels between.
  int maxdim = 0;
  for (auto &t : p.st) maxdim = max(maxdim, t.dim);
  int extra = s.range(0, o.max_extra);
  p.nlev = maxdim + extra;
  if (!p.nlev) p.nlev = 1;
  vector<bool> scalar(p.nlev, false);
  for (int k = 0; k < p.nlev - maxdim; k++) {
    int at = (int)s.draw(p.nlev);
    while (scalar[at]) at = (at + 1) % p.nlev;
    scalar[at] = true;
  }
  for (auto &t : p.st) {
    int w = t.dim + p.npar + 1;
    vector<int> perm(t.dim);
    for (int d = 0; d < t.dim; d++) perm[d] = d;
    for (int d = 0; d + 1 < t.dim; d++) swap(perm[d], perm[d + s.draw(t.dim - d)]);
    int next = 0, left = maxdim;
    for (int l = 0; l < p.nlev; l++) {
      Vec r(w, 0);
      if (scalar[l]) {
        r[w - 1] = s.range(0, 2);
        if (o.accept_mixed && t.dim && s.chance(1, 12)) r[s.draw(t.dim)] = 1;
        if (!o.unimodular && p.npar && s.chance(1, 40)) r[t.dim + s.draw(p.npar)] = 1;
      } else {
        bool take = next < t.dim && (left <= t.dim - next || o.outer_first || s.chance(2, 3));
        left--;
        if (take) {
          r[perm[next]] = o.unimodular ? 1 : (s.chance(1, 8) ? -1 : 1) * (s.chance(1, 5) ? s.range(2, 4) : 1);
          if (!o.unimodular || s.chance(1, 3))  // skewing by earlier loops keeps it unimodular
            for (int e = 0; e < next; e++)
              if (s.chance(1, 4)) r[perm[e]] += s.signed_(o.unimodular ? 1 : 2);
          if (s.chance(1, 3)) r[w - 1] = shift(3);
          if (p.npar && s.chance(1, 8)) r[t.dim + s.draw(p.npar)] = s.signed_(1);
          next++;
        } else if (s.chance(1, 3)) {
          r[w - 1] = s.signed_(2);
        }
      }
      t.T.push_back(r);
    }
    if (!o.full_rank && t.dim && s.chance(1, 4)) t.T[s.draw(p.nlev)] = Vec(w, 0);
  }
  if (o.accesses) {
    for (auto &t : p.st) {
      auto acc = [&]() {
        pair<string, vector<Vec>> a;
        int arr = s.range(0, big ? 3 : 2);
        a.first = string(1, (char)('A' + arr));
        for (int k = 0; k < arr; k++) {
          Vec r(t.dim + p.npar + 1, 0);
          if (t.dim && s.chance(4, 5)) r[s.draw(t.dim)] = s.chance(1, 6) ? 2 : 1;
          if (t.dim && s.chance(1, 5)) r[s.draw(t.dim)] += s.signed_(2);
          if (p.npar && s.chance(1, 8)) r[t.dim + s.draw(p.npar)] = s.signed_(1);
          r.back() = s.chance(1, 2) ? shift(3) : 0;
          a.second.push_back(r);
        }
        return a;
      };
      int nr = s.range(0, 2), nw = s.range(0, 1);
      for (int k = 0; k < nr; k++) t.reads.push_back(acc());
      for (int k = 0; k < nw; k++) t.writes.push_back(acc());
    }
  }
  if (!o.deps) return p;
  int nd = s.range(o.min_deps, o.max_deps);
  for (int k = 0; k < nd; k++) {
    IDep d;
    d.src = s.draw(n), d.dest = s.draw(n);
    static const PlutoDepType ty[] = {PLUTO_DEP_RAW, PLUTO_DEP_WAR, PLUTO_DEP_WAW, PLUTO_DEP_RAR};
    d.type = ty[s.weighted({5, 2, 2, 1})];
    const IStmt &a = p.st[d.src], &b = p.st[d.dest];
    int w = a.dim + b.dim + p.npar + 1;
    for (auto &r : a.dom) {
      MRow m;
      m.eq = r.eq;
      m.c.assign(w, 0);
      for (int j = 0; j < a.dim; j++) m.c[j] = r.c[j];
      for (int j = 0; j <= p.npar; j++) m.c[a.dim + b.dim + j] = r.c[a.dim + j];
      d.rows.push_back(m);
    }
    for (auto &r : b.dom) {
      MRow m;
      m.eq = r.eq;
      m.c.assign(w, 0);
      for (int j = 0; j < b.dim; j++) m.c[a.dim + j] = r.c[j];
      for (int j = 0; j <= p.npar; j++) m.c[a.dim + b.dim + j] = r.c[b.dim + j];
      d.rows.push_back(m);
    }
    // How the two iterations are related.
    for (int j = 0; j < min(a.dim, b.dim); j++) {
      int kind = s.weighted({5, 2, 2});
      MRow m;
      m.c.assign(w, 0);
      m.c[j] = -1, m.c[a.dim + j] = 1;
      m.c[w - 1] = -shift(2);
      if (s.chance(1, 10)) m.c[s.draw(w - 1)] += s.signed_(1);
      if (kind == 0) m.eq = true;
      if (kind == 2) continue;
      d.rows.push_back(m);
    }
    if (s.chance(1, 8)) {
      MRow m;
      m.c.assign(w, 0);
      for (int j = 0; j < w; j++) m.c[j] = s.chance(1, 2) ? s.signed_(2) : 0;
      d.rows.push_back(m);
    }
    if (o.legal) {
      int carry = (int)s.draw(p.nlev);
      bool same = s.chance(1, 2);
      for (int l = 0; l < carry; l++) {
        MRow m = distance(p, d, l);
        m.eq = same;
        d.rows.push_back(m);
      }
      d.rows.push_back(addc(distance(p, d, carry), -1));
    }
    p.dep.push_back(d);
  }
  return p;
}

static PlutoConstraints *to_cst(const Rows &r, int w, PlutoContext *c) {
  PlutoConstraints *q = pluto_constraints_alloc(r.size() + 1, w, c);
  q->nrows = r.size();
  for (size_t i = 0; i < r.size(); i++) {
    q->is_eq[i] = r[i].eq;
    for (int j = 0; j < w; j++) q->val[i][j] = r[i].c[j];
  }
  return q;
}
static PlutoMatrix *to_mat(const vector<Vec> &m, int w, PlutoContext *c) {
  PlutoMatrix *q = pluto_matrix_alloc(m.size(), w, c);
  for (size_t i = 0; i < m.size(); i++)
    for (int j = 0; j < w; j++) q->val[i][j] = m[i][j];
  return q;
}
static PlutoAccess *to_acc(const pair<string, vector<Vec>> &a, int w, PlutoContext *c) {
  PlutoAccess *x = (PlutoAccess *)malloc(sizeof *x);
  x->sym_id = a.first[0];
  x->name = strdup(a.first.c_str());
  x->mat = to_mat(a.second, w, c);
  return x;
}
PlutoProg *build_iprog(const IProg &p, PlutoContext *c) {
  PlutoProg *g = pluto_prog_alloc(c);
  for (int i = 0; i < p.npar; i++) pluto_prog_add_param(g, strf("p%d", i).c_str(), i);
  for (size_t i = 0; i < p.st.size(); i++) {
    const IStmt &t = p.st[i];
    int w = t.dim + p.npar + 1;
    PlutoConstraints *dom = to_cst(t.dom, w, c);
    PlutoMatrix *T = to_mat(t.T, w, c);
    vector<string> names;
    vector<char *> it;
    for (int d = 0; d < t.dim; d++) names.push_back(strf("i%d", d));
    for (auto &x : names) it.push_back((char *)x.c_str());
    pluto_add_stmt(g, dom, T, it.data(), strf("S%zu", i).c_str(), ORIG);
    Stmt *q = g->stmts[i];
    for (int d = 0; d < t.dim; d++) q->is_orig_loop[d] = true;
    q->scc_id = q->cc_id = 0;
    q->nreads = t.reads.size(), q->nwrites = t.writes.size();
    q->reads = (PlutoAccess **)malloc((q->nreads + 1) * sizeof(PlutoAccess *));
    q->writes = (PlutoAccess **)malloc((q->nwrites + 1) * sizeof(PlutoAccess *));
    for (int k = 0; k < q->nreads; k++) q->reads[k] = to_acc(t.reads[k], w, c);
    for (int k = 0; k < q->nwrites; k++) q->writes[k] = to_acc(t.writes[k], w, c);
    pluto_constraints_free(dom);
    pluto_matrix_free(T);
  }
  g->ndeps = p.dep.size();
  g->deps = (Dep **)malloc((g->ndeps + 1) * sizeof(Dep *));
  for (size_t i = 0; i < p.dep.size(); i++) {
    const IDep &m = p.dep[i];
    Dep *d = pluto_dep_alloc();
    d->id = i;
    d->src = m.src, d->dest = m.dest;
    d->type = m.type;
    d->skipdep = false;
    d->dpolytope = to_cst(m.rows, p.st[m.src].dim + p.st[m.dest].dim + p.npar + 1, c);
    d->bounding_poly = pluto_constraints_dup(d->dpolytope);
    g->deps[i] = d;
  }
  return g;
}
