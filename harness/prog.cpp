#include "prog.hpp"
#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>

using namespace std;
using pbt::Src;
using pbt::strf;

string Aff::str(const vector<string> &p) const {
  string s;
  auto add = [&](int k, const string &v) {
    if (!k) return;
    if (k > 0 && !s.empty()) s += " + ";
    if (k < 0) s += s.empty() ? "-" : " - ";
    if (abs(k) != 1) s += to_string(abs(k)) + "*";
    s += v;
  };
  for (size_t i = 0; i < it.size(); i++) add(it[i], "i" + to_string(i));
  for (size_t i = 0; i < par.size(); i++) add(par[i], p[i]);
  if (c || s.empty()) {
    if (s.empty()) s = to_string(c);
    else s += c > 0 ? " + " + to_string(c) : " - " + to_string(-c);
  }
  return s;
}
long Aff::eval(const vector<long> &i, const vector<long> &p) const {
  long v = c;
  for (size_t k = 0; k < it.size() && k < i.size(); k++) v += it[k] * i[k];
  for (size_t k = 0; k < par.size() && k < p.size(); k++) v += par[k] * p[k];
  return v;
}
bool Aff::is_const() const {
  for (int k : it) if (k) return false;
  return true;
}

static string tup(const string &name, int dim, const char *v = "i") {
  string s = name + "[";
  for (int i = 0; i < dim; i++) s += (i ? "," : "") + string(v) + to_string(i);
  return s + "]";
}
static string params(const vector<string> &p) {
  if (p.empty()) return "";
  string s = "[";
  for (size_t i = 0; i < p.size(); i++) s += (i ? "," : "") + p[i];
  return s + "] -> ";
}

string GProg::domains_str() const {
  string s = params(par) + "{ ";
  for (size_t k = 0; k < st.size(); k++)
    for (size_t d = 0; d < st[k].disj.size(); d++) {
      if (k || d) s += "; ";
      s += tup("S_" + to_string(k), st[k].dim);
      string c = st[k].disj[d];
      for (auto &x : ctxcons) c += (c.empty() ? "" : " and ") + x;
      if (!c.empty()) s += " : " + c;
    }
  return s + " }";
}
string GProg::schedule_str() const {
  string s = params(par) + "{ ";
  for (size_t k = 0; k < st.size(); k++) {
    if (k) s += "; ";
    s += tup("S_" + to_string(k), st[k].dim) + " -> [";
    for (int l = 0; l <= maxdim; l++) {
      if (l) s += ",";
      s += l < (int)st[k].beta.size() ? to_string(st[k].beta[l]) : "0";
      if (l < maxdim) s += l < st[k].dim ? ",i" + to_string(l) : ",0";
    }
    s += "]";
  }
  return s + " }";
}
string GProg::accesses_str(bool w) const {
  string s = params(par) + "{ ";
  bool f = true;
  for (size_t k = 0; k < st.size(); k++)
    for (auto &a : w ? st[k].writes : st[k].reads) {
      if (!f) s += "; ";
      f = false;
      s += tup("S_" + to_string(k), st[k].dim) + " -> A" + to_string(a.arr) + "[";
      for (size_t x = 0; x < a.idx.size(); x++) s += (x ? ", " : "") + a.idx[x].str(par);
      s += "]";
    }
  return s + " }";
}
string GProg::describe() const {
  string s = "domains: " + domains_str() + "\norder: " + schedule_str() + "\n";
  if (depmode != 2 || with_accesses) s += "reads: " + accesses_str(false) + "\nwrites: " + accesses_str(true) + "\n";
  s += "dependences: ";
  if (depmode == 0) s += "all memory-based ones";
  if (depmode == 1) s += "value-based (last writer)";
  if (depmode == 2) {
    for (auto &d : explicit_deps) s += "\n  " + d;
    s += "\n  (restricted to the domains and the order)";
  }
  if (split) s += "\none dependence per level that carries it";
  if (permuted) s += "\nparameters of the dependences in the opposite order";
  return s + "\n";
}

static Aff zero_aff(int dim, int npar) {
  Aff a;
  a.it.assign(dim, 0);
  a.par.assign(npar, 0);
  return a;
}

namespace {
struct Gen {
  Src &s;
  const ProgOpts &o;
  GProg p;
  int left;
  Gen(Src &s, const ProgOpts &o) : s(s), o(o) {}

  // Upper bound of loop `d` given d outer iterators.
  string loop_cons(int d) {
    string v = "i" + to_string(d), lo, hi;
    // lower
    switch (d == 0 ? s.weighted({6, 2, 1}) : s.weighted({6, 2, 1, 3})) {
      case 0: lo = "0"; break;
      case 1: lo = "1"; break;
      case 2: lo = p.npar > 1 && s.chance(1, 3) ? p.par[p.npar - 1] : to_string(s.signed_(3)); break;
      case 3: lo = "i" + to_string(s.draw(d)); if (s.chance(1, 3)) lo += " + 1"; break;
    }
    vector<int> w = {p.npar ? 6 : 0, 1, d ? 2 : 0, d && p.npar ? 1 : 0};
    if (!p.npar) w[1] = 5;
    switch (s.weighted(w)) {
      case 0: {
        hi = p.par[s.draw(p.npar)];
        int c = s.signed_(2);
        if (c) hi += c > 0 ? " + " + to_string(c) : " - " + to_string(-c);
        break;
      }
      case 1: hi = to_string(o.big_consts && s.chance(1, 6) ? s.range(20, 400) : s.range(2, 7)); break;
      case 2: hi = "i" + to_string(s.draw(d)) + " + " + to_string(s.range(1, 3)); break;
      case 3: hi = p.par[s.draw(p.npar)] + " - i" + to_string(s.draw(d)); break;
    }
    return lo + " <= " + v + " < " + hi;
  }
  int shift(int n) { return o.big && s.chance(1, 6) ? s.signed_(s.chance(1, 3) ? 500 : 20) : s.signed_(n); }
  Aff index(int dim) {
    Aff a = zero_aff(dim, p.npar);
    if (dim == 0) {
      a.c = s.range(0, 2);
      return a;
    }
    switch (s.weighted({10, 2, 1, 1, 1})) {
      case 0:
        a.it[s.draw(dim)] = 1;
        a.c = shift(2);
        break;
      case 1:
        a.it[s.draw(dim)] += 1;
        a.it[s.draw(dim)] += s.chance(1, 3) ? -1 : 1;
        a.c = s.signed_(1);
        break;
      case 2:
        a.c = s.range(0, 2);
        break;
      case 3:
        a.it[s.draw(dim)] = -1;
        if (p.npar) a.par[s.draw(p.npar)] = 1;
        a.c = s.signed_(1);
        break;
      case 4:
        a.it[s.draw(dim)] = 2;
        if (s.chance(1, 2)) a.it[s.draw(dim)] += 1;
        a.c = s.signed_(1);
        break;
    }
    return a;
  }
  Access access(int dim) {
    Access a;
    a.arr = s.draw(p.adim.size());
    int ad = p.adim[a.arr];
    // aligned accesses A[i0+c0][i1+c1] are the common form
    if (dim >= 1 && s.chance(1, 2)) {
      int off = dim > ad ? s.draw(dim - ad + 1) : 0;
      for (int x = 0; x < ad; x++) {
        Aff f = zero_aff(dim, p.npar);
        if (off + x < dim) f.it[off + x] = 1;
        f.c = shift(1);
        a.idx.push_back(f);
      }
      return a;
    }
    for (int x = 0; x < ad; x++) a.idx.push_back(index(dim));
    return a;
  }
  void leaf(int depth, const vector<string> &cons, const vector<int> &beta) {
    GStmt g;
    g.dim = depth;
    g.beta = beta;
    string c;
    for (auto &x : cons) c += (c.empty() ? "" : " and ") + x;
    // a guard
    if (depth && s.chance(1, 10)) {
      Aff a = index(depth);
      string e = a.str(p.par);
      switch (s.weighted({3, 1})) {
        case 0: c += " and " + e + " >= " + to_string(s.range(0, 2)); break;
        case 1: c += " and " + e + " = " + to_string(s.range(0, 2)); break;
      }
    }
    if (o.divs && depth && s.chance(1, 4))
      c += strf(" and i%d mod %d = %d", s.draw(depth), 2 + (int)s.draw(2), (int)s.draw(2));
    if (o.nonconvex && depth && s.chance(1, 12)) {
      int n = s.range(2, 3);
      int d = s.draw(depth);
      // disjoint or overlapping pieces of the domain
      int cut = s.range(1, 3);
      g.disj.push_back(c + strf(" and i%d < %d", d, cut));
      if (n == 3) {
        g.disj.push_back(c + strf(" and i%d = %d", d, cut + 1));
        g.disj.push_back(c + strf(" and i%d > %d", d, cut + 2));
      } else {
        g.disj.push_back(c + strf(" and i%d > %d", d, cut));
      }
    } else {
      g.disj.push_back(c);
    }
    int nw = s.weighted({1, 9, 1});
    nw = nw == 0 ? 1 : nw == 1 ? 1 : 2;
    for (int i = 0; i < nw; i++) g.writes.push_back(access(depth));
    int nr = s.weighted({2, 4, 3, 1});
    for (int i = 0; i < nr; i++) {
      if (s.chance(1, 5)) {
        g.reads.push_back(g.writes[0]);
      } else {
        g.reads.push_back(access(depth));
      }
    }
    p.st.push_back(g);
    left--;
  }
  void body(int depth, const vector<string> &cons, const vector<int> &beta) {
    int pos = 0;
    do {
      vector<int> b = beta;
      b.push_back(pos++);
      bool loop = depth < o.max_dim && (depth == 0 ? (!o.zero_dim || !s.chance(1, 12)) : s.chance(depth == 1 || o.big ? 3 : 1, 4));
      if (loop) {
        vector<string> c = cons;
        c.push_back(loop_cons(depth));
        body(depth + 1, c, b);
      } else {
        leaf(depth, cons, b);
      }
    } while (left > 0 && (depth == 0 || s.chance(1, 2)));
  }
  string rand_dep() {
    int a = s.draw(p.st.size()), b = s.draw(p.st.size());
    if (a > b && s.chance(2, 3)) swap(a, b);
    int da = p.st[a].dim, db = p.st[b].dim;
    string t = "S_" + to_string(b) + "[", c;
    int kind = s.weighted({6, 2, 1});
    for (int x = 0; x < db; x++) {
      string e;
      Aff f = zero_aff(da, p.npar);
      if (da == 0) f.c = s.range(0, 3);
      else if (kind == 0) {
        if (x < da) f.it[x] = 1;
        f.c = shift(2);
      } else f = index(da);
      if (kind == 2 && s.chance(1, 2)) {
        e = "o" + to_string(x);
        if (s.chance(1, 2)) c += (c.empty() ? "" : " and ") + e + " >= " + f.str(p.par);
      } else e = f.str(p.par);
      t += (x ? "," : "") + e;
    }
    t += "]";
    string cond = c.empty() ? "" : " : " + c;
    return tup("S_" + to_string(a), da) + " -> " + t + cond;
  }
  void stencil() {
    int d = o.big ? s.range(3, 4) : s.range(2, 3), n = s.weighted({3, 2, 1}) + 1;
    string c;
    for (int x = 0; x < d; x++) {
      string hi = p.npar ? p.par[x == 0 ? 0 : p.npar - 1] : to_string(s.range(4, 9));
      c += (x ? " and " : "") + strf("%d <= i%d < %s", s.range(0, 1), x, hi.c_str());
    }
    p.adim.assign(n, d);
    for (int k = 0; k < n; k++) {
      GStmt g;
      g.dim = d;
      g.beta.assign(d + 1, 0);
      g.beta[s.chance(1, 4) ? d : 1] = k;
      if (k && g.beta[1] < p.st[k - 1].beta[1]) g.beta[1] = p.st[k - 1].beta[1] + 1;
      g.disj.push_back(c);
      Access w;
      w.arr = k;
      for (int x = 0; x < d; x++) {
        Aff f = zero_aff(d, p.npar);
        f.it[x] = 1;
        w.idx.push_back(f);
      }
      g.writes.push_back(w);
      int nr = s.range(1, 3);
      for (int i = 0; i < nr; i++) {
        Access a = w;
        a.arr = s.draw(n);
        a.idx[0].c = a.arr < k && s.chance(1, 2) ? 0 : -s.range(1, 2);
        for (int x = 1; x < d; x++) a.idx[x].c = shift(2);
        g.reads.push_back(a);
      }
      p.st.push_back(g);
    }
    left = 0;
  }
  // Many small statements, one after the other, with explicit dependences.
  void chain() {
    int n = o.big ? s.range(7, 12) : s.range(3, 6);
    string hi = p.npar ? p.par[0] : to_string(s.range(3, 9));
    for (int k = 0; k < n; k++) {
      GStmt g;
      g.dim = s.weighted({6, 3, 1}) + 1;
      g.beta.assign(g.dim + 1, 0);
      g.beta[0] = k;
      string c;
      for (int x = 0; x < g.dim; x++) c += (x ? " and " : "") + strf("0 <= i%d < %s", x, hi.c_str());
      g.disj.push_back(c);
      Access w;
      w.arr = s.draw(p.adim.size());
      for (int x = 0; x < p.adim[w.arr]; x++) {
        Aff f = zero_aff(g.dim, p.npar);
        f.it[x % g.dim] = 1;
        w.idx.push_back(f);
      }
      g.writes.push_back(w);
      p.st.push_back(g);
    }
    left = 0;
    int nd = s.range(n - 1, n + 2);
    for (int q = 0; q < nd; q++) {
      int a = q + 1 < n ? q : s.draw(n), b = q + 1 < n && !s.chance(1, 5) ? q + 1 : s.draw(n);
      if (a > b) swap(a, b);
      int da = p.st[a].dim, db = p.st[b].dim;
      string t = "S_" + to_string(b) + "[";
      int kind = s.weighted({4, 3, 1, 1});
      for (int x = 0; x < db; x++) {
        string v = "i" + to_string(x), e;
        if (x >= da || kind == 1) e = "o" + to_string(x);
        else if (kind == 0) e = v + strf(" + %d", s.signed_(2));
        else if (kind == 2) e = "i" + to_string(da - 1 - x);
        else e = hi + " - 1 - " + v;
        t += (x ? "," : "") + e;
      }
      p.explicit_deps.push_back(tup("S_" + to_string(a), da) + " -> " + t + "]");
    }
  }
  GProg run() {
    p.npar = o.big ? s.weighted({1, 2, 3, 3}) : s.weighted({1, 5, 2});
    if (p.npar > o.max_par) p.npar = o.max_par;
    static const vector<vector<string>> names = {{"N", "M", "K"}, {"M", "N", "A"}, {"n", "a", "z"}, {"T", "N", "Nx"}};
    auto nm = names[s.draw(names.size())];
    for (int i = 0; i < p.npar; i++) p.par.push_back(nm[i]);
    for (int i = 0; i < p.npar; i++)
      if (s.chance(1, 4)) p.ctxcons.push_back(p.par[i] + " >= " + to_string(s.range(1, 4)));
    int na = s.weighted({4, 3, 1}) + 1;
    for (int i = 0; i < na; i++) p.adim.push_back(s.weighted({o.scalars ? 1 : 0, 5, 4, 1}));
    left = s.weighted({4, 4, 3, 2, 1, 1}) + 1;
    if (left > o.max_stmts) left = o.max_stmts;
    if (o.stencil) stencil();
    if (o.chain) chain();
    // each top-level call creates at least one statement, `left` bounds them
    int top = 0;
    while (left > 0) {
      vector<int> b = {top++};
      bool loop = !(o.zero_dim && s.chance(1, 15));
      if (loop) {
        vector<string> c = {loop_cons(0)};
        body(1, c, b);
      } else leaf(0, {}, b);
    }
    for (auto &g : p.st) p.maxdim = max(p.maxdim, g.dim);
    // statement numbers need not follow the textual order
    if (p.st.size() > 1 && s.chance(1, 5)) {
      int a = s.draw(p.st.size()), b = s.draw(p.st.size());
      swap(p.st[a], p.st[b]);
    }
    if (o.chain) p.depmode = 2, p.with_accesses = s.chance(1, 2);
    else p.depmode = o.accesses_only ? 0 : s.weighted({5, 3, o.allow_rand_deps ? 4 : 0});
    if (o.chain) {
    } else if (p.depmode == 2) {
      int n = s.range(1, 4);
      for (int i = 0; i < n; i++) p.explicit_deps.push_back(rand_dep());
      p.with_accesses = s.chance(1, 2);
    } else p.with_accesses = !o.accesses_only ? !s.chance(1, 4) : true;
    p.split = o.split_only || s.chance(2, 3);
    p.permuted = o.permute_params && p.npar >= 2 && s.chance(1, 6);
    return p;
  }
};
}  // namespace

ProgOpts big_prog(Src &s) {
  ProgOpts po;
  po.big = true;
  po.max_dim = 4, po.max_par = 3, po.max_stmts = 3, po.max_deps = 14;
  po.split_only = true;
  switch (s.weighted({3, 1, 1})) {
    case 1: po.chain = true; break;
    case 2: po.stencil = true; break;
  }
  return po;
}
GProg gen_prog(Src &s, const ProgOpts &o) {
  Gen g(s, o);
  return g.run();
}

IslProg::~IslProg() {
  isl_union_set_free(dom);
  isl_union_map_free(sched);
  isl_union_map_free(reads);
  isl_union_map_free(writes);
  isl_union_map_free(deps);
}

isl_union_map *lex_lt_of(isl_union_map *sched) {
  return isl_union_map_lex_lt_union_map(isl_union_map_copy(sched), isl_union_map_copy(sched));
}

static isl_stat count_bmaps(isl_map *m, void *u) {
  *(int *)u += isl_map_n_basic_map(m);
  isl_map_free(m);
  return isl_stat_ok;
}

bool make_isl(const GProg &p, IslProg &o) {
  o.ctx = isl_ctx_alloc();
  isl_options_set_on_error(o.ctx, ISL_ON_ERROR_CONTINUE);
  o.dom = isl_union_set_read_from_str(o.ctx, p.domains_str().c_str());
  o.sched = isl_union_map_intersect_domain(isl_union_map_read_from_str(o.ctx, p.schedule_str().c_str()),
                                           isl_union_set_copy(o.dom));
  o.reads = isl_union_map_intersect_domain(isl_union_map_read_from_str(o.ctx, p.accesses_str(false).c_str()),
                                           isl_union_set_copy(o.dom));
  o.writes = isl_union_map_intersect_domain(isl_union_map_read_from_str(o.ctx, p.accesses_str(true).c_str()),
                                            isl_union_set_copy(o.dom));
  if (!o.dom || !o.sched || !o.reads || !o.writes) return false;
  // Statements with empty domains do not exist for Pluto's callers.
  if (isl_union_set_n_set(o.dom) != (int)p.st.size() || isl_union_set_is_empty(o.dom)) return false;
  for (isl_set *d : sets_of(o.dom)) {
    bool e = isl_set_is_empty(d);
    isl_set_free(d);
    if (e) return false;
  }
  IslLimit lim(o.ctx, 4000000);
  if (p.depmode == 2) {
    o.deps = isl_union_map_empty(isl_union_set_get_space(o.dom));
    for (auto &d : p.explicit_deps) {
      string str = params(p.par) + "{ " + d + " }";
      o.deps = isl_union_map_union(o.deps, isl_union_map_read_from_str(o.ctx, str.c_str()));
    }
    o.deps = isl_union_map_intersect_domain(o.deps, isl_union_set_copy(o.dom));
    o.deps = isl_union_map_intersect_range(o.deps, isl_union_set_copy(o.dom));
    o.deps = isl_union_map_intersect(o.deps, lex_lt_of(o.sched));
  } else if (p.depmode == 0) {
    isl_union_map *all = isl_union_map_union(isl_union_map_copy(o.reads), isl_union_map_copy(o.writes));
    isl_union_map *wa = isl_union_map_apply_range(isl_union_map_copy(o.writes),
                                                  isl_union_map_reverse(isl_union_map_copy(all)));
    isl_union_map *aw = isl_union_map_apply_range(all, isl_union_map_reverse(isl_union_map_copy(o.writes)));
    o.deps = isl_union_map_intersect(isl_union_map_union(wa, aw), lex_lt_of(o.sched));
  } else {
    // flow from the last write; output and anti from all pairs
    isl_union_access_info *ai = isl_union_access_info_from_sink(isl_union_map_copy(o.reads));
    ai = isl_union_access_info_set_must_source(ai, isl_union_map_copy(o.writes));
    ai = isl_union_access_info_set_schedule_map(ai, isl_union_map_copy(o.sched));
    isl_union_flow *fl = isl_union_access_info_compute_flow(ai);
    o.deps = isl_union_flow_get_must_dependence(fl);
    isl_union_flow_free(fl);
    isl_union_map *all = isl_union_map_union(isl_union_map_copy(o.reads), isl_union_map_copy(o.writes));
    isl_union_map *aw = isl_union_map_apply_range(all, isl_union_map_reverse(isl_union_map_copy(o.writes)));
    aw = isl_union_map_intersect(aw, lex_lt_of(o.sched));
    o.deps = isl_union_map_union(o.deps, aw);
  }
  o.deps = isl_union_map_coalesce(o.deps);
  if (p.split && o.deps) {
    // One disjunct per level of the original order that carries it.
    int len = 2 * p.maxdim + 1;
    isl_union_map *parts = nullptr;
    for (int l = 0; l < len; l++) {
      isl_space *sp = isl_space_set_alloc(o.ctx, 0, len);
      isl_map *m = isl_map_universe(isl_space_map_from_set(sp));
      for (int k = 0; k < l; k++) m = isl_map_equate(m, isl_dim_in, k, isl_dim_out, k);
      m = isl_map_order_lt(m, isl_dim_in, l, isl_dim_out, l);
      isl_union_map *rel = isl_union_map_apply_range(isl_union_map_copy(o.sched), isl_union_map_from_map(m));
      rel = isl_union_map_apply_range(rel, isl_union_map_reverse(isl_union_map_copy(o.sched)));
      rel = isl_union_map_coalesce(isl_union_map_intersect(rel, isl_union_map_copy(o.deps)));
      parts = parts ? isl_union_map_union(parts, rel) : rel;
    }
    isl_union_map_free(o.deps);
    o.deps = parts;
  }
  o.deps = isl_union_map_detect_equalities(o.deps);
  if (p.permuted && o.deps) {
    isl_union_map *m = isl_union_map_read_from_str(
        o.ctx, ("[" + (p.par.size() > 2 ? p.par[2] + "," : string()) + p.par[1] + "," + p.par[0] + "] -> { }").c_str());
    isl_space *sp = isl_union_map_get_space(m);
    isl_union_map_free(m);
    // isl_union_map_align_params puts the parameters of the given space first
    o.deps = isl_union_map_align_params(o.deps, sp);
  }
  if (!o.deps || lim.hit()) return false;
  isl_union_map_foreach_map(o.deps, count_bmaps, &o.ndeps);
  return true;
}

IslLimit::IslLimit(isl_ctx *c, unsigned long ops) : ctx(c) {
  isl_ctx_reset_operations(c);
  isl_ctx_set_max_operations(c, ops);
}
IslLimit::~IslLimit() {
  isl_ctx_set_max_operations(ctx, 0);
  isl_ctx_reset_error(ctx);
}
bool IslLimit::hit() const { return isl_ctx_last_error(ctx) == isl_error_quota; }

static const char *fusename[] = {"nofuse", "maxfuse", "smartfuse", "typedfuse", "hybridfuse"};
string GOpts::describe() const {
  string s = "options:";
  auto f = [&](const char *n, long v, long d) {
    if (v != d) s += strf(" %s=%ld", n, v);
  };
  s += string(" ") + fusename[fuse];
  f("tile", tile, 0);
  f("parallel", parallel, 0);
  f("intratileopt", intratileopt, 0);
  f("diamondtile", diamondtile, 0);
  f("fulldiamondtile", fulldiamondtile, 0);
  f("per_cc_obj", per_cc_obj, 0);
  f("innerpar", innerpar, 0);
  f("multipar", multipar, 0);
  f("second_level_tile", second_level_tile, 0);
  f("identity", identity, 0);
  f("nodepbound", nodepbound, 0);
  f("coeff_bound", coeff_bound, -1);
  if (solver) s += " glpk";
  if (!islsolve) s += solver ? " (piplib stand-in)" : " pip (stand-in)";
  f("lp", lp, 0);
  f("dfp", dfp, 0);
  f("ilp", ilp, 0);
  f("lpcolour", lpcolour, 0);
  f("scc_cluster", scc_cluster, 0);
  f("delayed_cut", delayed_cut, 0);
  f("hybridcut", hybridcut, 0);
  f("flic", flic, 0);
  f("lastwriter", lastwriter, 0);
  f("rar", rar, 0);
  f("isldepaccesswise", isldepaccesswise, 1);
  f("isldepcoalesce", isldepcoalesce, 0);
  f("unrolljam", unrolljam, 1);
  f("ufactor", ufactor, 8);
  f("prevector", prevector, 1);
  f("iss", iss, 0);
  f("find_tile_sizes", find_tile_sizes, 0);
  if (find_tile_sizes) s += strf(" cache_size=%ld data_element_size=%d", cache_size, data_element_size);
  f("silent", silent, 1);
  f("debug", debug, 0);
  f("moredebug", moredebug, 0);
  f("ft", ft, -1);
  f("lt", lt, -1);
  if (!tile_sizes.empty()) {
    s += " tile.sizes=";
    for (int x : tile_sizes) s += to_string(x) + ",";
  }
  if (!fst.empty()) s += " .fst=<" + fst + ">";
  if (!precut.empty()) s += " .precut=<" + precut + ">";
  return s + "\n";
}
void GOpts::apply(PlutoContext *c) const {
  PlutoOptions *o = c->options;
  o->tile = tile;
  o->intratileopt = intratileopt;
  o->diamondtile = diamondtile;
  o->fulldiamondtile = fulldiamondtile;
  o->per_cc_obj = per_cc_obj;
  o->parallel = parallel;
  o->innerpar = innerpar;
  o->multipar = multipar;
  o->second_level_tile = second_level_tile;
  o->fuse = (FusionType)fuse;
  o->identity = identity;
  o->nodepbound = nodepbound;
  o->coeff_bound = coeff_bound;
  o->islsolve = islsolve;
  o->glpk = solver == 1;
  o->pipsolve = !islsolve && !solver;
  o->gurobi = 0;
  o->lp = lp;
  o->dfp = dfp;
  o->ilp = ilp;
  o->lpcolour = lpcolour;
  o->scc_cluster = scc_cluster;
  o->delayed_cut = delayed_cut;
  o->hybridcut = hybridcut;
  o->flic = flic;
  o->lastwriter = lastwriter;
  o->rar = rar;
  o->isldepaccesswise = isldepaccesswise;
  o->isldepcoalesce = isldepcoalesce;
  o->unrolljam = unrolljam;
  o->ufactor = ufactor;
  o->prevector = prevector;
  o->iss = iss;
  o->find_tile_sizes = find_tile_sizes;
  o->cache_size = cache_size;
  o->data_element_size = data_element_size;
  o->silent = silent;
  o->debug = debug;
  o->moredebug = moredebug;
  o->ft = ft;
  o->lt = lt;
  remove("tile.sizes");
  remove(".fst");
  remove(".precut");
  if (!tile_sizes.empty()) {
    ofstream f("tile.sizes");
    for (int x : tile_sizes) f << x << "\n";
  }
  if (!fst.empty()) ofstream(".fst") << fst;
  if (!precut.empty()) ofstream(".precut") << precut;
}

// Combinations the command-line driver admits, normalised the way it does.
GOpts gen_opts(Src &s, const OptOpts &o) {
  GOpts g;
  g.tile = o.force_tile ? 1 : o.tile ? s.chance(1, 2) : 0;
  g.parallel = o.force_parallel ? 1 : s.chance(1, 2);
  g.fuse = (int[]){kSmartFuse, kMaximalFuse, kNoFuse}[s.weighted({3, 2, 2})];
  g.intratileopt = s.chance(1, 2);
  if (g.tile) {
    g.diamondtile = o.force_diamond ? 1 : !o.core && o.diamond && s.chance(1, 2);
    if (g.diamondtile && s.chance(1, 3)) g.fulldiamondtile = 1;
    if (s.chance(1, 5)) g.second_level_tile = 1;
    if (o.small_tiles && s.chance(3, 4)) {
      int n = 12 * (1 + g.second_level_tile);
      // one size per line, as many as any band may need
      int base = s.range(2, 4);
      bool same = s.chance(1, 2);
      for (int i = 0; i < n; i++) g.tile_sizes.push_back(same ? base : s.range(1, 5));
    }
    if (o.tss && !g.second_level_tile && s.chance(1, 2)) {
      g.find_tile_sizes = 1;
      g.tile_sizes.clear();
      g.cache_size = (long[]){1048576, 32768, 4096, 512, 33554432}[s.draw(5)];
      g.data_element_size = (int[]){8, 4, 16}[s.draw(3)];
    }
  }
  if (s.chance(1, 6)) g.innerpar = 1;
  if (g.parallel && s.chance(1, 4)) g.multipar = 1;
  if (!o.core && !g.diamondtile && s.chance(1, 8)) g.per_cc_obj = 1;
  if (!o.core && s.chance(1, 10)) g.nodepbound = 1;
  if (!o.core && s.chance(1, 8)) g.coeff_bound = s.range(1, 4);
  if (!o.core && s.chance(1, 6) && !g.diamondtile) g.flic = 1;
  if (s.chance(1, 3)) g.lastwriter = 1;
  if (s.chance(1, 8)) g.rar = 1;
  g.isldepaccesswise = 0;  // library callers name no access numbers
  if (s.chance(1, 10)) g.prevector = 0;
  g.solver = s.weighted({3, 1});
  g.islsolve = g.solver ? 0 : !s.chance(1, 8);
  if (o.force_dfp || (!o.core && o.dfp && s.chance(1, 4))) {
    g.nodepbound = 0;
    g.dfp = 1;
    g.ilp = s.chance(1, 3);
    if (s.chance(1, 3)) g.fuse = kTypedFuse;
    if (g.fuse == kTypedFuse && s.chance(1, 3)) g.hybridcut = 1;
    if (s.chance(1, 6)) g.delayed_cut = 1;
    if (s.chance(1, 3)) g.scc_cluster = 1;
    if (s.chance(1, 3)) g.lpcolour = 1;
    g.per_cc_obj = 0;
  } else if (!o.core && s.chance(1, 10)) {
    g.lp = 1;
    g.per_cc_obj = 0;
  }
  if (g.dfp && !g.ilp) g.lp = 1;
  if (g.lp || g.dfp) {
    g.solver = 1;
    g.islsolve = s.chance(1, 2);
  }
  if (g.fuse == kTypedFuse) g.scc_cluster = 1;
  if (g.dfp) g.lastwriter = 1;
  return g;
}

isl_stat collect_map(isl_map *m, void *u) {
  ((vector<isl_map *> *)u)->push_back(m);
  return isl_stat_ok;
}
isl_stat collect_set(isl_set *m, void *u) {
  ((vector<isl_set *> *)u)->push_back(m);
  return isl_stat_ok;
}
vector<isl_map *> maps_of(isl_union_map *m) {
  vector<isl_map *> v;
  isl_union_map_foreach_map(m, collect_map, &v);
  return v;
}
vector<isl_set *> sets_of(isl_union_set *m) {
  vector<isl_set *> v;
  isl_union_set_foreach_set(m, collect_set, &v);
  return v;
}

isl_set *fix_params(isl_set *s, const vector<string> &names, const vector<long> &vals) {
  for (size_t i = 0; i < names.size(); i++) {
    int k = isl_set_find_dim_by_name(s, isl_dim_param, names[i].c_str());
    if (k >= 0) s = isl_set_fix_si(s, isl_dim_param, k, vals[i]);
  }
  return isl_set_project_out(s, isl_dim_param, 0, isl_set_dim(s, isl_dim_param));
}
isl_map *fix_params_map(isl_map *s, const vector<string> &names, const vector<long> &vals) {
  for (size_t i = 0; i < names.size(); i++) {
    int k = isl_map_find_dim_by_name(s, isl_dim_param, names[i].c_str());
    if (k >= 0) s = isl_map_fix_si(s, isl_dim_param, k, vals[i]);
  }
  return isl_map_project_out(s, isl_dim_param, 0, isl_map_dim(s, isl_dim_param));
}

namespace {
struct EnumCtx {
  vector<vector<long>> *out;
  size_t limit;
};
isl_stat on_point(isl_point *p, void *u) {
  EnumCtx *e = (EnumCtx *)u;
  isl_space *sp = isl_point_get_space(p);
  int n = isl_space_dim(sp, isl_dim_set);
  isl_space_free(sp);
  vector<long> v(n);
  for (int i = 0; i < n; i++) {
    isl_val *x = isl_point_get_coordinate_val(p, isl_dim_set, i);
    v[i] = isl_val_get_num_si(x);
    isl_val_free(x);
  }
  isl_point_free(p);
  e->out->push_back(v);
  return e->out->size() > e->limit ? isl_stat_error : isl_stat_ok;
}
}  // namespace
bool enumerate(isl_set *s, vector<vector<long>> &out, size_t limit) {
  EnumCtx e = {&out, limit};
  isl_bool b = isl_set_is_bounded(s);
  if (b != isl_bool_true) {
    isl_set_free(s);
    return false;
  }
  isl_stat r = isl_set_foreach_point(s, on_point, &e);
  isl_set_free(s);
  return r == isl_stat_ok;
}

string to_str(isl_union_map *m) {
  char *c = isl_union_map_to_str(m);
  string s = c ? c : "(null)";
  free(c);
  return s;
}
string to_str(isl_union_set *m) {
  char *c = isl_union_set_to_str(m);
  string s = c ? c : "(null)";
  free(c);
  return s;
}
string to_str(isl_map *m) {
  char *c = isl_map_to_str(m);
  string s = c ? c : "(null)";
  free(c);
  return s;
}
string to_str(isl_set *m) {
  char *c = isl_set_to_str(m);
  string s = c ? c : "(null)";
  free(c);
  return s;
}
