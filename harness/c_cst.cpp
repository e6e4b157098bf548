// C10: operations on systems of constraints compute the sets they say.
// C12: Farkas elimination and lexicographic minimisation.
#include "pbt.hpp"
#include <cstdlib>
#include <cstring>
#include <limits>
#include <set>
#include <pluto/matrix.h>
#include <pluto/pluto.h>
#include "constraints.h"
#include "math_support.h"
using namespace std;
using namespace pbt;
typedef __int128 Big;

struct CRow {
  bool eq;
  vector<long> v;  // coefficients, constant last
};
typedef vector<CRow> Poly;
typedef vector<Poly> PList;

static string pstr(const PList &l) {
  string s;
  for (auto &p : l) {
    s += "{";
    for (auto &r : p) {
      s += " [";
      for (long x : r.v) s += strf(" %ld", x);
      s += r.eq ? " ]=0" : " ]>=0";
    }
    s += " }";
  }
  return s;
}
static long eval(const CRow &r, const vector<long> &x) {
  long s = r.v.back();
  for (size_t i = 0; i < x.size(); i++) s += r.v[i] * x[i];
  return s;
}
static bool in(const Poly &p, const vector<long> &x) {
  for (auto &r : p) {
    long e = eval(r, x);
    if (r.eq ? e != 0 : e < 0) return false;
  }
  return true;
}
static bool in(const PList &l, const vector<long> &x) {
  for (auto &p : l)
    if (in(p, x)) return true;
  return false;
}
// Whether a system with the given rows (inequalities over nv variables, constant
// last) has a rational solution: plain Fourier-Motzkin.
static Big gcdb(Big a, Big b) {
  if (a < 0) a = -a;
  if (b < 0) b = -b;
  while (b) {
    Big t = a % b;
    a = b;
    b = t;
  }
  return a;
}
static bool feasible(vector<vector<Big>> rows, int nv) {
  for (int k = nv - 1; k >= 0; k--) {
    vector<vector<Big>> lo, up, rest;
    for (auto &r : rows) (r[k] > 0 ? lo : r[k] < 0 ? up : rest).push_back(r);
    for (auto &a : lo)
      for (auto &b : up) {
        vector<Big> c(a.size());
        Big g = 0;
        for (size_t j = 0; j < a.size(); j++) {
          c[j] = a[j] * -b[k] + b[j] * a[k];
          g = gcdb(g, c[j]);
        }
        if (g > 1)
          for (auto &x : c) x /= g;
        rest.push_back(c);
      }
    rows.swap(rest);
  }
  for (auto &r : rows)
    if (r[nv] < 0) return false;
  return true;
}
// Whether p has a rational point whose coordinates outside [start, start+num) are x.
static bool in_shadow(const Poly &p, int start, int num, const vector<long> &x) {
  vector<vector<Big>> rows;
  for (auto &r : p) {
    vector<Big> q(num + 1, 0);
    Big c = r.v.back();
    int k = 0;
    for (int j = 0; j < (int)r.v.size() - 1; j++)
      if (j >= start && j < start + num) q[j - start] = r.v[j];
      else c += (Big)r.v[j] * x[k++];
    q[num] = c;
    rows.push_back(q);
    if (r.eq) {
      for (auto &y : q) y = -y;
      rows.push_back(q);
    }
  }
  return feasible(rows, num);
}
static bool in_shadow(const PList &l, int start, int num, const vector<long> &x) {
  for (auto &p : l)
    if (in_shadow(p, start, num, x)) return true;
  return false;
}

static Poly gen_poly(Src &s, int nv, int maxrows, bool boxed, int B = 4) {
  Poly p;
  int n = s.range(boxed ? 0 : 1, maxrows);
  for (int i = 0; i < n; i++) {
    CRow r;
    r.eq = s.chance(1, 4);
    for (int j = 0; j < nv; j++) r.v.push_back(s.chance(1, 2) ? s.signed_(3) : 0);
    r.v.push_back(s.signed_(6));
    p.push_back(r);
  }
  if (boxed)
    for (int j = 0; j < nv; j++)
      for (int u = 0; u < 2; u++) {
        CRow r;
        r.eq = false;
        r.v.assign(nv + 1, 0);
        r.v[j] = u ? -1 : 1;
        r.v[nv] = B;
        p.push_back(r);
      }
  return p;
}
// Moves constants so that a chosen point is inside.
static void plant(Src &s, Poly &p, int nv) {
  vector<long> x;
  for (int j = 0; j < nv; j++) x.push_back(s.signed_(2));
  for (auto &r : p) {
    long e = eval(r, x);
    if (r.eq) r.v[nv] -= e;
    else if (e < 0) r.v[nv] += -e + s.range(0, 2);
  }
}
static PList gen_list(Src &s, int nv, int maxrows, int maxlen, bool boxed) {
  PList l;
  int n = s.range(1, maxlen);
  for (int i = 0; i < n; i++) {
    l.push_back(gen_poly(s, nv, maxrows, boxed));
    if (s.chance(1, 2)) plant(s, l.back(), nv);
  }
  return l;
}
static PlutoConstraints *real(const PList &l, int nv, PlutoContext *c, Src *s = nullptr) {
  PlutoConstraints *first = nullptr, **at = &first;
  for (auto &p : l) {
    // spare rows and columns are allocated now and then
    int er = s ? s->weighted({3, 1, 1}) : 0, ec = s ? s->weighted({3, 1, 1}) : 0;
    PlutoConstraints *q = pluto_constraints_alloc((int)p.size() + er, nv + 1 + ec, c);
    q->ncols = nv + 1;
    for (auto &r : p) {
      q->is_eq[q->nrows] = r.eq;
      for (int j = 0; j <= nv; j++) q->val[q->nrows][j] = r.v[j];
      q->nrows++;
    }
    *at = q;
    at = &q->next;
  }
  return first;
}
static PList model(const PlutoConstraints *c) {
  PList l;
  for (; c; c = c->next) {
    Poly p;
    for (unsigned i = 0; i < c->nrows; i++) {
      CRow r;
      r.eq = c->is_eq[i];
      for (unsigned j = 0; j < c->ncols; j++) r.v.push_back(c->val[i][j]);
      p.push_back(r);
    }
    l.push_back(p);
  }
  return l;
}
static bool points(int nv, function<bool(const vector<long> &)> f) {
  int B = nv <= 2 ? 6 : nv == 3 ? 4 : nv == 4 ? 2 : 1;
  vector<long> x(nv, -B);
  while (true) {
    if (!f(x)) return false;
    int i = 0;
    while (i < nv && ++x[i] > B) x[i++] = -B;
    if (i == nv) return true;
  }
}
static string xstr(const vector<long> &x) {
  string s = "(";
  for (size_t i = 0; i < x.size(); i++) s += strf("%s%ld", i ? "," : "", x[i]);
  return s + ")";
}

// What a step promises about the set of a system, for every integer point.
struct Expect {
  int nv;
  function<bool(const vector<long> &)> in;
};
static bool same(Result &r, const string &op, const PList &got, const Expect &e, const string &hist) {
  string bad;
  for (auto &p : got)
    for (auto &q : p)
      if ((int)q.v.size() != e.nv + 1) bad = strf("a row has %zu columns, not %d", q.v.size(), e.nv + 1);
  if (bad.empty())
    points(e.nv, [&](const vector<long> &x) {
      bool a = in(got, x), b = e.in(x);
      if (a == b) return true;
      bad = xstr(x) + (a ? " is in the result and must not be" : " must be in the result and is not");
      return false;
    });
  if (bad.empty()) return true;
  r.fail(op, bad + "\nafter" + hist + "\nthe result is " + pstr(got));
  return false;
}

static void algebra(Src &s, Result &r, bool boxed) {
  PlutoContext *c = pluto_context_alloc();
  c->options->islsolve = s.chance(1, 4) ? 0 : 1;
  int nv = s.range(1, 4);
  PList L = gen_list(s, nv, 4, 3, boxed);
  PlutoConstraints *A = real(L, nv, c, &s);
  bool named = s.chance(1, 3);
  vector<string> names;
  auto set_names = [&](PlutoConstraints *q) {
    vector<char *> n;
    for (auto &x : names) n.push_back((char *)x.c_str());
    pluto_constraints_set_names(q, n.data());
  };
  if (named) {
    for (int i = 0; i < nv; i++) names.push_back(strf("v%d", i));
    for (PlutoConstraints *q = A; q; q = q->next) set_names(q);
  }
  string hist = " starting from " + pstr(L);
  int steps = s.range(1, 8), done = 0, fresh = 0;
  set<int> used;
  for (int st = 0; st < steps && !r.failed(); st++) {
    int op = (int)s.draw(34);
    PList M = model(A);
    nv = (int)A->ncols - 1;
    long big = 0, nrow = 0;
    for (auto &p : M)
      for (auto &q : p) {
        nrow++;
        for (long x : q.v) big = max(big, labs(x));
      }
    if (big > 2000 || nrow > 60) break;
    bool single = A->next == NULL;
    Expect e{nv, nullptr};
    string name;
    int pos = nv ? (int)s.draw(nv) : 0;
    auto operand = [&](int maxlen) {
      PList B = gen_list(s, nv, 3, maxlen, boxed);
      hist += " with " + pstr(B);
      return B;
    };
    auto log = [&](const string &n) {
      name = n;
      hist += strf("; %s", n.c_str());
    };
    bool checked = false;
    auto kept = [&](const PlutoConstraints *b, const PList &B) {
      if (pstr(model(b)) != pstr(B)) r.fail(name + ": operand", "the operand is changed into " + pstr(model(b)) + "\nafter" + hist);
    };
    switch (op) {
    case 0: case 1: {
      CRow q;
      q.eq = op == 1 && s.chance(1, 2);
      for (int j = 0; j < nv; j++) q.v.push_back(s.signed_(3));
      q.v.push_back(s.signed_(6));
      log("add constraint");
      hist += pstr({{q}});
      pluto_constraints_add_constraint(A, q.eq);
      for (PlutoConstraints *p = A; p; p = p->next)
        for (int j = 0; j <= nv; j++) p->val[p->nrows - 1][j] = q.v[j];
      e.in = [=](const vector<long> &x) { return in(M, x) && in(Poly{q}, x); };
      break;
    }
    case 2: case 3: case 4: {
      if (!nv) continue;
      long b = s.signed_(5);
      log(op == 2 ? "add lower bound" : op == 3 ? "add upper bound" : "fix a variable");
      hist += strf(" x%d %ld", pos, b);
      if (op == 2) pluto_constraints_add_lb(A, pos, b);
      if (op == 3) pluto_constraints_add_ub(A, pos, b);
      if (op == 4) pluto_constraints_set_var(A, pos, b);
      e.in = [=](const vector<long> &x) {
        return in(M, x) && (op == 2 ? x[pos] >= b : op == 3 ? x[pos] <= b : x[pos] == b);
      };
      break;
    }
    case 5: {
      if (!single || M[0].empty()) continue;
      int k = (int)s.draw((uint32_t)M[0].size());
      log("remove row");
      hist += strf(" %d", k);
      pluto_constraints_remove_row(A, k);
      PList N = M;
      N[0].erase(N[0].begin() + k);
      e.in = [=](const vector<long> &x) { return in(N, x); };
      break;
    }
    case 6: {
      if (nv >= 5) continue;
      int k = (int)s.draw(nv + 1);
      log("add dimension");
      hist += strf(" at %d", k);
      string nm = strf("n%d", fresh++);
      pluto_constraints_add_dim(A, k, named ? nm.c_str() : NULL);
      if (named) names.insert(names.begin() + k, nm);
      e.nv = nv + 1;
      e.in = [=](const vector<long> &x) {
        vector<long> y = x;
        y.erase(y.begin() + k);
        return in(M, y);
      };
      break;
    }
    case 7: {
      if (nv < 2) continue;
      log("remove dimension");
      hist += strf(" %d", pos);
      pluto_constraints_remove_dim(A, pos);
      if (named) names.erase(names.begin() + pos);
      e.nv = nv - 1;
      e.in = [=](const vector<long> &x) {
        vector<long> y = x;
        y.insert(y.begin() + pos, 0);
        return in(M, y);
      };
      break;
    }
    case 8: {
      if (nv < 1) continue;
      int k = (int)s.draw(nv);
      log("interchange columns");
      hist += strf(" %d %d", pos, k);
      pluto_constraints_interchange_cols(A, pos, k);
      e.in = [=](const vector<long> &x) {
        vector<long> y = x;
        swap(y[pos], y[k]);
        return in(M, y);
      };
      break;
    }
    case 9:
      log("simplify");
      pluto_constraints_simplify(A);
      named = false;
      for (PlutoConstraints *q = A; q; q = q->next) pluto_constraints_remove_names_single(q);
      e.in = [=](const vector<long> &x) { return in(M, x); };
      break;
    case 10: case 11: {
      if (nv < 2) continue;
      bool smart = op == 11;
      // Gaussian elimination needs an equality in every element
      if (smart && !single) continue;
      log(smart ? "eliminate variable (with equalities)" : "eliminate variable");
      hist += strf(" %d", pos);
      if (smart) fourier_motzkin_eliminate_smart(A, pos);
      else fourier_motzkin_eliminate(A, pos);
      named = false;
      for (PlutoConstraints *q = A; q; q = q->next) pluto_constraints_remove_names_single(q);
      e.nv = nv - 1;
      e.in = [=](const vector<long> &x) { return in_shadow(M, pos, 1, x); };
      break;
    }
    case 12: {
      if (!single || nv < 2) continue;
      bool has = false;
      for (auto &q : M[0]) has |= q.eq && q.v[pos];
      if (!has) continue;
      log("Gaussian elimination");
      hist += strf(" %d", pos);
      pluto_constraints_gaussian_eliminate(A, pos);
      if (named) names.erase(names.begin() + pos);
      e.nv = nv - 1;
      e.in = [=](const vector<long> &x) { return in_shadow(M, pos, 1, x); };
      break;
    }
    case 13: {
      if (nv < 2) continue;
      int num = s.range(0, min(3, nv - 1)), start = (int)s.draw(nv - num + 1);
      log("project out");
      hist += strf(" %d from %d", num, start);
      pluto_constraints_project_out(A, start, num);
      if (num) named = false;
      e.nv = nv - num;
      e.in = [=](const vector<long> &x) { return in_shadow(M, start, num, x); };
      break;
    }
    case 14: {
      if (!single) continue;
      PList B = operand(1);
      log("add constraints");
      PlutoConstraints *b = real(B, nv, c, &s);
      pluto_constraints_add(A, b);
      kept(b, B);
      pluto_constraints_free(b);
      e.in = [=](const vector<long> &x) { return in(M, x) && in(B, x); };
      break;
    }
    case 15: {
      PList B = operand(1);
      log("add constraints to each");
      PlutoConstraints *b = real(B, nv, c, &s);
      pluto_constraints_add_to_each(A, b);
      kept(b, B);
      pluto_constraints_free(b);
      e.in = [=](const vector<long> &x) { return in(M, x) && in(B, x); };
      break;
    }
    case 16: case 17: {
      if (!nv) continue;
      PList B = operand(2);
      bool isl = op == 17;
      log(isl ? "intersect (isl)" : "intersect");
      PlutoConstraints *b = real(B, nv, c, &s);
      if (isl) pluto_constraints_intersect_isl(A, b);
      else pluto_constraints_intersect(A, b);
      kept(b, B);
      pluto_constraints_free(b);
      named = false;
      e.in = [=](const vector<long> &x) { return in(M, x) && in(B, x); };
      break;
    }
    case 18: {
      if (!nv) continue;
      PList B = operand(2);
      // Polylib wants no empty element in a list
      bool empty = false;
      for (auto &p : M) empty |= !in_shadow(p, 0, nv, {});
      for (auto &p : B) empty |= !in_shadow(p, 0, nv, {});
      if (empty) continue;
      log("subtract");
      PlutoConstraints *b = real(B, nv, c, &s);
      pluto_constraints_subtract(A, b);
      kept(b, B);
      pluto_constraints_free(b);
      named = false;
      e.in = [=](const vector<long> &x) { return in(M, x) && !in(B, x); };
      break;
    }
    case 19: case 20: {
      if (!nv || M.size() > 4) continue;
      PList B = operand(2);
      log(op == 19 ? "unite" : "append");
      PlutoConstraints *b = real(B, nv, c, &s);
      PlutoConstraints *whole = op == 19 ? pluto_constraints_unionize(A, b) : pluto_constraints_unionize_simple(A, b);
      if (pstr(model(whole)) != pstr(model(A))) r.fail(name + ": result", "the result " + pstr(model(whole)) + " is not the united set\nafter" + hist);
      kept(b, B);
      pluto_constraints_free(b);
      named = false;
      for (PlutoConstraints *q = A; q; q = q->next) pluto_constraints_remove_names_single(q);
      e.in = [=](const vector<long> &x) { return in(M, x) || in(B, x); };
      break;
    }
    case 21: {
      log("duplicate");
      PlutoConstraints *d = pluto_constraints_dup(A);
      pluto_constraints_free(A);
      A = d;
      e.in = [=](const vector<long> &x) { return in(M, x); };
      break;
    }
    case 22: {
      log("copy over another system");
      int nw = s.range(1, 4);
      PList B = gen_list(s, nw, 4, 3, boxed);
      hist += " " + pstr(B);
      PlutoConstraints *d = real(B, nw, c, &s);
      if (s.chance(1, 3)) {
        vector<string> keep = names;
        names.clear();
        for (int i = 0; i < nw; i++) names.push_back("old");
        for (PlutoConstraints *q = d; q; q = q->next) set_names(q);
        names = keep;
      }
      pluto_constraints_copy(d, A);
      pluto_constraints_free(A);
      A = d;
      e.in = [=](const vector<long> &x) { return in(M, x); };
      break;
    }
    case 23: {
      if (!single) continue;
      log("to inequalities");
      PlutoConstraints *d = pluto_constraints_to_pure_inequalities_single(A);
      pluto_constraints_free(A);
      A = d;
      for (unsigned i = 0; i < A->nrows; i++)
        if (A->is_eq[i]) r.fail(name, "an equality is left\nafter" + hist);
      e.in = [=](const vector<long> &x) { return in(M, x); };
      break;
    }
    case 24: {
      if (!single) continue;
      log("to a matrix and back");
      PlutoMatrix *m = pluto_constraints_to_matrix(A);
      PlutoConstraints *d = pluto_constraints_from_matrix(m);
      pluto_matrix_free(m);
      pluto_constraints_free(A);
      A = d;
      named = false;
      e.in = [=](const vector<long> &x) { return in(M, x); };
      break;
    }
    case 25: {
      if (!boxed) continue;
      log("emptiness");
      bool any = false;
      for (auto &p : M)
        if (p.size()) any |= !points(nv, [&](const vector<long> &x) { return !in(p, x); });
      // points() covers the box of every boxed system up to 3 variables
      if (nv > 3) continue;
      // edits above may have dropped the box
      bool bounded = true;
      for (auto &p : M)
        for (int j = 0; j < nv; j++) {
          bool lo = false, hi = false;
          for (auto &q : p) {
            bool only = true;
            for (int k = 0; k < nv; k++) only &= k == j || !q.v[k];
            if (!only || labs(q.v[nv]) > 4) continue;
            lo |= q.v[j] >= 1 || (q.eq && q.v[j]);
            hi |= q.v[j] <= -1 || (q.eq && q.v[j]);
          }
          bounded &= lo && hi;
        }
      if (!bounded) continue;
      bool got = pluto_constraints_is_empty(A);
      if (got == any) r.fail(name, strf("a set that is %sempty is reported as %sempty", any ? "not " : "", got ? "" : "not ") + "\nafter" + hist);
      checked = true;
      break;
    }
    case 26: {
      if (!single || !nv) continue;
      log("half spaces");
      // h = 0, h >= 0, h <= -1 partition the points
      PlutoConstraints *h = pluto_constraints_alloc(1, nv + 1, c);
      h->nrows = 1;
      h->is_eq[0] = 1;
      CRow q;
      q.eq = false;
      for (int j = 0; j < nv; j++) q.v.push_back(s.signed_(3));
      q.v.push_back(s.signed_(6));
      for (int j = 0; j <= nv; j++) h->val[0][j] = q.v[j];
      bool neg = s.chance(1, 2);
      PlutoConstraints *half = neg ? pluto_hyperplane_get_negative_half_space(h) : pluto_hyperplane_get_non_negative_half_space(h);
      pluto_constraints_add(A, half);
      pluto_constraints_free(half);
      pluto_constraints_free(h);
      hist += strf(" %s", neg ? "negative" : "non-negative") + pstr({{q}});
      e.in = [=](const vector<long> &x) { return in(M, x) && (eval(q, x) < 0) == neg; };
      break;
    }
    case 27: {
      if (nv > 3) continue;
      int k = s.range(1, 2);
      log("add leading dimensions");
      hist += strf(" %d", k);
      pluto_constraints_add_leading_dims(A, k);
      named = false;
      for (PlutoConstraints *q = A; q; q = q->next) pluto_constraints_remove_names_single(q);
      e.nv = nv + k;
      e.in = [=](const vector<long> &x) { return in(M, vector<long>(x.begin() + k, x.end())); };
      break;
    }
    case 28: {
      if (!single || M[0].empty()) continue;
      int k = (int)s.draw((uint32_t)M[0].size());
      log("negate row");
      hist += strf(" %d", k);
      pluto_constraints_negate_row(A, k);
      PList N = M;
      for (long &v : N[0][k].v) v = -v;
      e.in = [=](const vector<long> &x) { return in(N, x); };
      break;
    }
    case 29: {
      if (!single || M[0].empty()) continue;
      int k = (int)s.draw((uint32_t)M[0].size());
      log("select row");
      hist += strf(" %d", k);
      PlutoConstraints *d = pluto_constraints_select_row(A, k);
      kept(A, M);
      pluto_constraints_free(A);
      A = d;
      named = false;
      PList N = {{M[0][k]}};
      e.in = [=](const vector<long> &x) { return in(N, x); };
      break;
    }
    case 30: {
      if (!single) continue;
      log("keep equalities");
      PlutoMatrix *m = pluto_constraints_extract_equalities(A);
      kept(A, M);
      PlutoConstraints *d = pluto_constraints_from_equalities(m);
      pluto_matrix_free(m);
      pluto_constraints_free(A);
      A = d;
      named = false;
      PList N(1);
      for (auto &q : M[0])
        if (q.eq) N[0].push_back(q);
      e.in = [=](const vector<long> &x) { return in(N, x); };
      break;
    }
    case 31: {
      if (!nv || M.size() > 4) continue;
      PList B = operand(2);
      int what = (int)s.draw(4);
      if (what == 1) {
        bool empty = false;
        for (auto &p : M) empty |= !in_shadow(p, 0, nv, {});
        for (auto &p : B) empty |= !in_shadow(p, 0, nv, {});
        if (empty) continue;
      }
      log(what == 0 ? "intersection" : what == 1 ? "difference" : what == 2 ? "union" : "union through isl");
      PlutoConstraints *b = real(B, nv, c, &s);
      PlutoConstraints *d = what == 0   ? pluto_constraints_intersection(A, b)
                            : what == 1 ? pluto_constraints_difference(A, b)
                            : what == 2 ? pluto_constraints_union(A, b)
                                        : pluto_constraints_union_isl(A, b);
      kept(A, M);
      kept(b, B);
      pluto_constraints_free(b);
      pluto_constraints_free(A);
      A = d;
      named = false;
      for (PlutoConstraints *q = A; q; q = q->next) pluto_constraints_remove_names_single(q);
      e.in = [=](const vector<long> &x) { return what == 0 ? in(M, x) && in(B, x) : what == 1 ? in(M, x) && !in(B, x) : in(M, x) || in(B, x); };
      break;
    }
    case 32: {
      if (!single || !nv) continue;
      log("shift dimension");
      PlutoMatrix *m = pluto_matrix_alloc(1, nv + 1, c);
      vector<long> f;
      for (int j = 0; j <= nv; j++) f.push_back(j == pos ? 0 : s.signed_(2)), m->val[0][j] = f[j], hist += strf(" %ld", f[j]);
      hist += strf(" at %d", pos);
      pluto_constraints_shift_dim(A, pos, m);
      pluto_matrix_free(m);
      e.in = [=](const vector<long> &x) {
        vector<long> y = x;
        long v = f[nv];
        for (int j = 0; j < nv; j++) v += f[j] * x[j];
        y[pos] -= v;
        return in(M, y);
      };
      break;
    }
    case 33: {
      log("resize");
      // room for more, then the same shape: nothing is lost
      unsigned nr = A->nrows, nc = A->ncols;
      if (!single) continue;
      int grow = s.range(0, 3);
      pluto_constraints_resize_single(A, nr + grow, nc + s.range(0, 2));
      pluto_constraints_resize_single(A, nr, nc);
      e.in = [=](const vector<long> &x) { return in(M, x); };
      break;
    }
    }
    done++;
    used.insert(op);
    if (!checked) {
      if (!same(r, name, model(A), e, hist)) break;
      if (named)
        for (PlutoConstraints *q = A; q; q = q->next)
          for (int j = 0; j < (int)q->ncols - 1; j++)
            if (!q->names || !q->names[j] || names[j] != q->names[j])
              r.fail(name + ": names", strf("dimension %d is called %s, not %s", j, q->names && q->names[j] ? q->names[j] : "(null)", names[j].c_str()) + "\nafter" + hist);
    }
  }
  pluto_constraints_free(A);
  pluto_context_free(c);
  r.desc = hist;
  r.tag("operations", done);
  if (!done && !r.failed()) r.st = TRIVIAL;
}
static Reg a1("C10", "boxed", 3, 200, 10, [](Src &s, Result &r) { algebra(s, r, true); });
static Reg a2("C10", "open", 3, 200, 10, [](Src &s, Result &r) { algebra(s, r, false); });

// Equality of sets, images, constant bounds.
static void queries(Src &s, Result &r) {
  PlutoContext *c = pluto_context_alloc();
  c->options->islsolve = s.chance(1, 4) ? 0 : 1;
  int nv = s.range(1, 3);
  PList L = gen_list(s, nv, 3, 2, true);
  PlutoConstraints *A = real(L, nv, c, &s);
  int what = (int)s.draw(3);
  r.desc = pstr(L);
  if (what == 0) {
    PList M = L;
    int how = (int)s.draw(4);
    if (how == 0) M = gen_list(s, nv, 3, 2, true);
    if (how == 1 && M.size() > 1) swap(M[0], M[1]);
    if (how == 2) M[0].push_back(M[0][s.draw((uint32_t)M[0].size())]);
    if (how == 3) M[0][s.draw((uint32_t)M[0].size())].v[nv] += 1;
    bool empty = false;
    for (auto &p : M) empty |= !in_shadow(p, 0, nv, {});
    for (auto &p : L) empty |= !in_shadow(p, 0, nv, {});
    if (empty) {  // Polylib wants no empty element in a list
      r.st = DISCARD;
      pluto_constraints_free(A);
      pluto_context_free(c);
      return;
    }
    PlutoConstraints *B = real(M, nv, c, &s);
    bool eq = points(nv, [&](const vector<long> &x) { return in(L, x) == in(M, x); });
    // a constant moved outward may leave the enumerated box
    if (nv == 3 || !eq || how != 3) {
      bool got = pluto_constraints_are_equal(A, B);
      bool edge = nv == 3 && how == 3;
      if (!edge && got != eq) r.fail("equality", strf("%s sets are reported as %s: ", eq ? "equal" : "different", got ? "equal" : "different") + pstr(L) + " and " + pstr(M));
    } else r.st = TRIVIAL;
    r.desc += " equal to " + pstr(M);
    pluto_constraints_free(B);
  } else if (what == 1) {
    int nw = s.range(1, 3);
    vector<vector<long>> f;
    PlutoMatrix *m = pluto_matrix_alloc(nw + 1, nv + 1, c);
    pluto_matrix_set(m, 0);
    for (int i = 0; i < nw; i++) {
      f.push_back({});
      for (int j = 0; j <= nv; j++) {
        f[i].push_back(s.signed_(1));
        m->val[i][j] = f[i][j];
      }
    }
    m->val[nw][nv] = 1;
    r.desc += " image under";
    for (auto &x : f) r.desc += " " + xstr(x);
    PlutoConstraints *I = pluto_constraints_image(A, m);
    PList got = model(I);
    Poly p = L[0];
    points(nw, [&](const vector<long> &y) {
      // is there a rational x in p with f(x) = y?
      vector<vector<Big>> rows;
      auto add = [&](const vector<long> &v, bool eq) {
        vector<Big> q(v.begin(), v.end());
        rows.push_back(q);
        if (eq) {
          for (auto &z : q) z = -z;
          rows.push_back(q);
        }
      };
      for (auto &q : p) add(q.v, q.eq);
      for (int i = 0; i < nw; i++) {
        vector<long> v = f[i];
        v[nv] -= y[i];
        add(v, true);
      }
      bool want = feasible(rows, nv), is = in(got, y);
      if (want == is) return true;
      r.fail("image", xstr(y) + (is ? " is in the image and must not be" : " must be in the image and is not") + ": " + r.desc + "\ngives " + pstr(got));
      return false;
    });
    pluto_constraints_free(I);
    pluto_matrix_free(m);
  } else {
    int pos = (int)s.draw(nv);
    int64_t lb = 0, ub = 0;
    int hl = pluto_constraints_get_const_lb(A, pos, &lb), hu = pluto_constraints_get_const_ub(A, pos, &ub);
    r.desc += strf(" bounds of %d", pos);
    bool any = false;
    points(nv, [&](const vector<long> &x) {
      if (!in(L, x)) return true;
      any = true;
      if (hl && x[pos] < lb) r.fail("constant bound", strf("the lower bound %ld of dimension %d does not hold for ", (long)lb, pos) + xstr(x) + ": " + r.desc);
      if (hu && x[pos] > ub) r.fail("constant bound", strf("the upper bound %ld of dimension %d does not hold for ", (long)ub, pos) + xstr(x) + ": " + r.desc);
      return true;
    });
    if (!any) r.st = r.failed() ? FAIL : TRIVIAL;
    else if (!hl && L.size() == 1) r.fail("constant bound", "no constant lower bound is found: " + r.desc);
    else if (!hu && L.size() == 1) r.fail("constant bound", "no constant upper bound is found: " + r.desc);
  }
  pluto_constraints_free(A);
  pluto_context_free(c);
}
static Reg a3("C10", "queries", 2, 200, 10, queries);

// ---- C12 ----
struct SRow {
  vector<Big> v;
  bool strict;
};
static bool feasible_strict(vector<SRow> rows, int nv) {
  for (int k = nv - 1; k >= 0; k--) {
    vector<SRow> lo, up, rest;
    for (auto &r : rows) (r.v[k] > 0 ? lo : r.v[k] < 0 ? up : rest).push_back(r);
    for (auto &a : lo)
      for (auto &b : up) {
        SRow c{vector<Big>(a.v.size()), a.strict || b.strict};
        Big g = 0;
        for (size_t j = 0; j < a.v.size(); j++) {
          c.v[j] = a.v[j] * -b.v[k] + b.v[j] * a.v[k];
          g = gcdb(g, c.v[j]);
        }
        if (g > 1)
          for (auto &x : c.v) x /= g;
        rest.push_back(c);
      }
    rows.swap(rest);
  }
  for (auto &r : rows)
    if (r.v[nv] < 0 || (r.strict && r.v[nv] == 0)) return false;
  return true;
}
static void farkas(Src &s, Result &r) {
  PlutoContext *c = pluto_context_alloc();
  int nv = s.range(1, 3), nc = s.range(1, 4);
  Poly p = gen_poly(s, nv, 4, s.chance(1, 3), 4);
  if (s.chance(1, 2)) {  // like a dependence: an equality between variables
    CRow q;
    q.eq = true;
    for (int j = 0; j <= nv; j++) q.v.push_back(s.signed_(1));
    p.push_back(q);
  }
  if (s.chance(9, 10)) plant(s, p, nv);
  r.desc = "domain " + pstr({p}) + " form";
  PlutoMatrix *phi = pluto_matrix_alloc(nv + 1, nc + 1, c);
  vector<vector<long>> f(nv + 1);
  for (int i = 0; i <= nv; i++) {
    for (int j = 0; j <= nc; j++) {
      long x = s.chance(1, 2) ? s.signed_(2) : 0;
      f[i].push_back(x);
      phi->val[i][j] = x;
    }
    r.desc += " " + xstr(f[i]);
  }
  if (!in_shadow(p, 0, nv, {})) {
    r.st = DISCARD;
    pluto_matrix_free(phi);
    pluto_context_free(c);
    return;
  }
  PlutoConstraints *d = real({p}, nv, c);
  PlutoConstraints *F = farkas_lemma_affine(d, phi);
  PList got = model(F);
  long inside = 0, outside = 0;
  if ((int)F->ncols != nc + 1) r.fail("Farkas: dimensions", strf("%u columns, not %d", F->ncols, nc + 1));
  else
    points(nc, [&](const vector<long> &x) {
      vector<SRow> rows;
      for (auto &q : p) {
        SRow w{vector<Big>(q.v.begin(), q.v.end()), false};
        rows.push_back(w);
        if (q.eq) {
          for (auto &z : w.v) z = -z;
          rows.push_back(w);
        }
      }
      SRow neg{{}, true};  // the form is negative
      for (int i = 0; i <= nv; i++) {
        Big v = f[i][nc];
        for (int j = 0; j < nc; j++) v += (Big)f[i][j] * x[j];
        neg.v.push_back(-v);
      }
      rows.push_back(neg);
      bool want = !feasible_strict(rows, nv), is = in(got, x);
      (want ? inside : outside)++;
      if (want == is) return true;
      r.fail("Farkas", strf("with the coefficients %s the form is %snon-negative on the domain, but the result says otherwise: ", xstr(x).c_str(), want ? "" : "not ") + r.desc + "\ngives " + pstr(got));
      return false;
    });
  if (!r.failed() && (!inside || !outside)) r.st = TRIVIAL;
  pluto_constraints_free(F);
  pluto_constraints_free(d);
  pluto_matrix_free(phi);
  pluto_context_free(c);
}
static Reg f1("C12", "farkas", 3, 100, 10, farkas);

static void lexmin(Src &s, Result &r) {
  PlutoContext *c = pluto_context_alloc();
  int how = (int)s.draw(5);
  int nv = s.range(1, 4);
  int B = nv <= 3 ? 4 : 2;
  Poly p = gen_poly(s, nv, 4, true, B);
  bool neg = how < 3 && s.chance(1, 2);
  if (s.chance(1, 2)) plant(s, p, nv);
  // isl, pip, the dispatching function; glpk twice
  r.desc = pstr({p}) + (neg ? " any sign" : " non-negative") + strf(" solver %d", how);
  PlutoConstraints *d = real({p}, nv, c, &s);
  vector<long> best;
  vector<long> w;
  PlutoMatrix *obj = nullptr;
  long bestv = 0;
  if (how >= 3) {
    obj = pluto_matrix_alloc(1, nv, c);
    for (int j = 0; j < nv; j++) {
      w.push_back(s.range(0, 5));
      obj->val[0][j] = w[j];
      r.desc += strf(" %ld", w[j]);
    }
  }
  vector<long> x(nv, -B);
  while (true) {
    bool ok = in(p, x);
    if (!neg)
      for (long v : x) ok &= v >= 0;
    if (ok && how < 3 && (best.empty() || x < best)) best = x;
    if (ok && how >= 3) {
      long v = 0;
      for (int j = 0; j < nv; j++) v += w[j] * x[j];
      if (best.empty() || v < bestv) best = x, bestv = v;
    }
    int i = 0;
    while (i < nv && ++x[i] > B) x[i++] = -B;
    if (i == nv) break;
  }
  vector<long> got;
  bool none = true;
  if (how < 3) {
    c->options->islsolve = how == 2 ? s.chance(1, 2) : 1;
    int64_t *sol = how == 0   ? pluto_constraints_lexmin_isl(d, neg)
                   : how == 1 ? pluto_constraints_lexmin_pip(d, neg)
                              : pluto_constraints_lexmin(d, neg);
    if (sol) got.assign(sol, sol + nv), none = false;
    free(sol);
  } else if (how == 3) {
    int64_t *sol = pluto_prog_constraints_lexmin_glpk(d, obj, NULL, NULL, 0, 0);
    if (sol) got.assign(sol, sol + nv), none = false;
    free(sol);
  } else {
    c->options->ilp = 1;
    double *sol = pluto_fcg_constraints_lexmin_glpk(d, obj);
    if (sol) {
      none = false;
      for (int j = 0; j < nv; j++) got.push_back((long)(sol[j] + (sol[j] < 0 ? -0.5 : 0.5)));
    }
    free(sol);
  }
  string t = none ? "no solution" : xstr(got), want = best.empty() ? "there is none" : xstr(best);
  if (none != best.empty()) r.fail("solution", t + " was found, but " + want + ": " + r.desc);
  else if (!none && how < 3 && got != best) r.fail("lexicographic minimum", t + " was found, the minimum is " + want + ": " + r.desc);
  else if (!none && how >= 3) {
    long v = 0;
    bool ok = in(p, got);
    for (int j = 0; j < nv; j++) v += w[j] * got[j], ok &= got[j] >= 0;
    if (!ok) r.fail("solution", t + " is not a solution: " + r.desc);
    else if (v != bestv) r.fail("minimum", t + strf(" has the cost %ld, the minimum is %ld for ", v, bestv) + want + ": " + r.desc);
  }
  if (none && !r.failed()) r.tag("infeasible");
  r.tag(strf("solver_%d", how));
  pluto_matrix_free(obj);
  pluto_constraints_free(d);
  pluto_context_free(c);
}
static Reg f2("C12", "minimum", 3, 100, 10, lexmin);
