// C04: dependences and access functions computed from a program.
#include "interp.hpp"
#include "iprog.hpp"
#include <algorithm>
#include <set>
using namespace std;
using namespace pbt;

typedef vector<long> V;
struct End {  // one end of a dependence
  int st = 0;
  string tag;  // "r0", "w1", ... or empty
  V it;
  bool operator<(const End &o) const { return tie(st, tag, it) < tie(o.st, o.tag, o.it); }
};
typedef pair<End, End> Pair;
typedef set<Pair> Pairs;

static string str(const End &e) {
  string t = "S_" + to_string(e.st) + (e.tag.empty() ? "" : "_" + e.tag) + "[";
  for (size_t i = 0; i < e.it.size(); i++) t += (i ? "," : "") + to_string(e.it[i]);
  return t + "]";
}
static string str(const Pair &p) { return str(p.first) + " -> " + str(p.second); }
static bool parse(const char *nm, End &e) {
  if (!nm || strncmp(nm, "S_", 2)) return false;
  char *q;
  e.st = strtol(nm + 2, &q, 10);
  if (*q == '_') e.tag = q + 1;
  return *q == '_' || !*q;
}

// The pairs of a relation, the array part of wrapped ranges dropped.
static bool pairs_of(const GProg &p, isl_union_map *u, const V &pv, Pairs &out, Result &r) {
  bool ok = true;
  for (isl_map *m : maps_of(u)) {
    if (!ok) { isl_map_free(m); continue; }
    if (isl_map_range_is_wrapping(m)) m = isl_map_range_factor_domain(m);
    End a, b;
    if (!parse(isl_map_get_tuple_name(m, isl_dim_in), a) || !parse(isl_map_get_tuple_name(m, isl_dim_out), b)) {
      r.fail("unknown statement", to_str(m));
      isl_map_free(m);
      ok = false;
      continue;
    }
    int n = isl_map_dim(m, isl_dim_in);
    m = fix_params_map(m, p.par, pv);
    m = isl_map_set_tuple_name(isl_map_set_tuple_name(m, isl_dim_in, NULL), isl_dim_out, NULL);
    vector<V> pts;
    if (!enumerate(isl_set_flatten(isl_map_wrap(m)), pts, 20000)) { ok = false; continue; }
    for (auto &q : pts) {
      a.it.assign(q.begin(), q.begin() + n);
      b.it.assign(q.begin() + n, q.end());
      out.insert({a, b});
    }
  }
  return ok;
}
static Pairs untag(const Pairs &p) {
  Pairs o;
  for (Pair q : p) {
    q.first.tag = q.second.tag = "";
    o.insert(q);
  }
  return o;
}
static void subset(const Pairs &a, const Pairs &b, Result &r, const string &cls, const string &msg) {
  for (auto &x : a)
    if (!b.count(x)) {
      r.fail(cls, msg + ": " + str(x));
      return;
    }
}
static string tagname(int st, bool w, int k) { return strf("S_%d_%c%d", st, w ? 'w' : 'r', k); }

// Statements in Pluto's representation: names and accesses, domains do not matter.
static PlutoProg *bare(const GProg &p, PlutoContext *c) {
  PlutoProg *g = pluto_prog_alloc(c);
  for (int i = 0; i < p.npar; i++) pluto_prog_add_param(g, p.par[i].c_str(), i);
  for (size_t i = 0; i < p.st.size(); i++) {
    const GStmt &t = p.st[i];
    int w = t.dim + p.npar + 1;
    PlutoConstraints *dom = pluto_constraints_alloc(1, w, c);
    PlutoMatrix *T = pluto_matrix_alloc(0, w, c);
    vector<string> names, all;
    vector<char *> it, an;
    for (int d = 0; d < t.dim; d++) names.push_back(strf("i%d", d));
    all = names;
    for (auto &x : p.par) all.push_back(x);
    for (auto &x : names) it.push_back((char *)x.c_str());
    for (auto &x : all) an.push_back((char *)x.c_str());
    if (!an.empty()) pluto_constraints_set_names(dom, an.data());
    pluto_add_stmt(g, dom, T, it.data(), strf("S%zu", i).c_str(), ORIG);
    if (!an.empty() && !g->stmts[i]->domain->names) pluto_constraints_set_names(g->stmts[i]->domain, an.data());
    pluto_constraints_free(dom);
    pluto_matrix_free(T);
  }
  return g;
}
static PlutoAccess *acc_of(const GProg &p, const GStmt &t, const Access &a, PlutoContext *c) {
  PlutoAccess *x = (PlutoAccess *)malloc(sizeof *x);
  x->sym_id = a.arr;
  x->name = strdup(("A" + to_string(a.arr)).c_str());
  x->mat = pluto_matrix_alloc(a.idx.size(), t.dim + p.npar + 1, c);
  for (size_t i = 0; i < a.idx.size(); i++) {
    for (int j = 0; j < t.dim; j++) x->mat->val[i][j] = a.idx[i].it[j];
    for (int j = 0; j < p.npar; j++) x->mat->val[i][t.dim + j] = a.idx[i].par[j];
    x->mat->val[i][t.dim + p.npar] = a.idx[i].c;
  }
  return x;
}
static void set_accs(PlutoProg *g, const GProg &p, PlutoContext *c) {
  for (size_t i = 0; i < p.st.size(); i++) {
    const GStmt &t = p.st[i];
    Stmt *q = g->stmts[i];
    q->nreads = t.reads.size(), q->nwrites = t.writes.size();
    q->reads = (PlutoAccess **)malloc((q->nreads + 1) * sizeof(PlutoAccess *));
    q->writes = (PlutoAccess **)malloc((q->nwrites + 1) * sizeof(PlutoAccess *));
    for (int k = 0; k < q->nreads; k++) q->reads[k] = acc_of(p, t, t.reads[k], c);
    for (int k = 0; k < q->nwrites; k++) q->writes[k] = acc_of(p, t, t.writes[k], c);
  }
}

// Every pair of the relation lies in an extracted dependence between the right
// statements (and accesses), and nothing else does.
static void extraction(const GProg &p, isl_union_map *rel, const Pairs &want, PlutoDepType type, bool tagged, const V &pv,
                       const vector<Instance> &inst, PlutoContext *c, Result &r) {
  int n = 0;
  bool exact = true;
  for (isl_map *m : maps_of(rel)) {
    n += isl_map_n_basic_map(m);
    bool wr = isl_map_range_is_wrapping(m);
    if (wr) m = isl_map_range_factor_domain(m);
    isl_map_foreach_basic_map(m, [](isl_basic_map *b, void *u) {
      if (isl_basic_map_dim(b, isl_dim_div) > 0) *(bool *)u = false;
      isl_basic_map_free(b);
      return isl_stat_ok;
    }, &exact);
    isl_map_free(m);
  }
  PlutoProg *g = bare(p, c);
  set_accs(g, p, c);
  int first = 2;  // numbering goes on where it stopped
  vector<Dep *> deps;
  for (int i = 0; i < n + first; i++) deps.push_back(pluto_dep_alloc());
  int got = extract_deps_from_isl_union_map(rel, deps.data(), first, g->stmts, type, c);
  if (got != n) r.fail("number extracted", strf("%d dependences instead of %d", got, n));
  else {
    auto inside = [&](Dep *d, const V &a, const V &b) {
      V x = a;
      x.insert(x.end(), b.begin(), b.end());
      x.insert(x.end(), pv.begin(), pv.end());
      x.push_back(1);
      PlutoConstraints *q = d->dpolytope;
      if (q->ncols != x.size()) return false;
      for (unsigned i = 0; i < q->nrows; i++) {
        long v = 0;
        for (unsigned j = 0; j < q->ncols; j++) v += (long)q->val[i][j] * x[j];
        if (q->is_eq[i] ? v != 0 : v < 0) return false;
      }
      return true;
    };
    auto tag_of = [&](Dep *d, bool src) {
      Stmt *t = g->stmts[src ? d->src : d->dest];
      PlutoAccess *a = src ? d->src_acc : d->dest_acc;
      for (int k = 0; k < t->nreads; k++)
        if (t->reads[k] == a) return strf("r%d", k);
      for (int k = 0; k < t->nwrites; k++)
        if (t->writes[k] == a) return strf("w%d", k);
      return string("?");
    };
    Pairs have;
    for (int i = first; i < n + first && !r.failed(); i++) {
      Dep *d = deps[i];
      if (d->id != i) r.fail("number", strf("%d instead of %d", d->id, i));
      if (d->src < 0 || d->src >= (int)p.st.size() || d->dest < 0 || d->dest >= (int)p.st.size()) {
        r.fail("statement", strf("%d -> %d", d->src, d->dest));
        break;
      }
      string ts, td;
      PlutoDepType ty = type;
      if (tagged) {
        ts = tag_of(d, true), td = tag_of(d, false);
        if (type == PLUTO_DEP_WAR && ts[0] == 'w') ty = PLUTO_DEP_WAW;
      } else if (d->src_acc || d->dest_acc)
        r.fail("accesses", "set although not known");
      if (d->type != ty) r.fail("type", strf("%d instead of %d", d->type, ty));
      if (pluto_constraints_are_equal(d->dpolytope, d->bounding_poly) != 1) r.fail("bounding polyhedron", strf("of dependence %d", i));
      for (auto &a : inst)
        if (a.stmt == d->src)
          for (auto &b : inst)
            if (b.stmt == d->dest && inside(d, a.it, b.it)) have.insert({{a.stmt, ts, a.it}, {b.stmt, td, b.it}});
    }
    subset(want, have, r, "lost", "not in any extracted dependence");
    if (exact) subset(have, want, r, "invented", "in an extracted dependence only");
    r.tag("extracted_dependences", n);
  }
}

static void deps(Src &s, Result &r) {
  ProgOpts po;
  po.accesses_only = true;
  po.permute_params = false;
  po.max_stmts = 3;
  po.max_dim = 2;
  po.divs = s.chance(1, 4);
  GProg p = gen_prog(s, po);
  V pv = gen_params(s, p, 2, 6);
  bool tagged = s.chance(1, 2), last = s.chance(1, 2), rar = s.chance(1, 2), coal = s.chance(1, 3);
  r.desc = p.describe() + strf("tagged=%d lastwriter=%d rar=%d isldepcoalesce=%d", tagged, last, rar, coal);
  for (int i = 0; i < p.npar; i++) r.desc += strf(" %s=%ld", p.par[i].c_str(), pv[i]);

  p.depmode = 0;
  IslProg ip;
  if (!make_isl(p, ip)) { r.st = INCONCLUSIVE; return; }
  vector<Instance> in;
  string why;
  if (!instances(p, ip.sched, pv, 120, in, &why)) { r.st = DISCARD; return; }
  sort(in.begin(), in.end(), [](const Instance &a, const Instance &b) { return a.time < b.time; });
  for (size_t i = 1; i < in.size(); i++)
    if (in[i].time == in[i - 1].time) { r.st = DISCARD; return; }

  // The model: for every cell the accesses in the order of execution.
  struct Ev { int inst; bool w; End e; };
  map<V, vector<Ev>> cells;
  for (size_t i = 0; i < in.size(); i++)
    for (int w = 0; w < 2; w++) {
      auto &l = w ? p.st[in[i].stmt].writes : p.st[in[i].stmt].reads;
      for (size_t k = 0; k < l.size(); k++) {
        V cell = {l[k].arr};
        for (auto &f : l[k].idx) cell.push_back(f.eval(in[i].it, pv));
        cells[cell].push_back({(int)i, (bool)w, {in[i].stmt, tagged ? strf("%c%zu", w ? 'w' : 'r', k) : "", in[i].it}});
      }
    }
  // isl loses dependences on the last of several simultaneous sources.
  if (tagged && last)
    for (auto &c : cells)
      for (size_t i = 0; i < c.second.size(); i++)
        for (size_t j = 0; j < i; j++)
          if (c.second[i].inst == c.second[j].inst && c.second[i].w == c.second[j].w) { r.st = DISCARD; return; }
  Pairs all[2][2], lastp[2][2], need[2][2];  // [source writes][target writes]; lastp: nothing masks it
  for (auto &c : cells)
    for (auto &b : c.second)
      for (auto &a : c.second) {
        if (a.inst >= b.inst) continue;
        all[a.w][b.w].insert({a.e, b.e});
        bool masked = false, rmasked = false, own = false;
        for (auto &x : c.second) {
          masked |= x.w && x.inst > a.inst && x.inst < b.inst;
          rmasked |= !x.w && x.inst > a.inst && x.inst < b.inst;
          own |= x.w && x.inst == a.inst;
        }
        if (!a.w && !b.w) masked = rmasked;
        if (masked) continue;
        lastp[a.w][b.w].insert({a.e, b.e});
        if (a.w || !b.w || !own) need[a.w][b.w].insert({a.e, b.e});
      }

  isl_union_map *rd, *wr, *sc;
  if (tagged) {
    isl_space *sp = isl_union_set_get_space(ip.dom);
    rd = isl_union_map_empty(isl_space_copy(sp));
    wr = isl_union_map_empty(isl_space_copy(sp));
    sc = isl_union_map_empty(sp);
    for (size_t i = 0; i < p.st.size(); i++)
      for (int w = 0; w < 2; w++) {
        auto &l = w ? p.st[i].writes : p.st[i].reads;
        for (size_t k = 0; k < l.size(); k++) {
          GProg q = p;  // with this access only
          for (auto &t : q.st) t.reads.clear(), t.writes.clear();
          (w ? q.st[i].writes : q.st[i].reads).push_back(l[k]);
          isl_union_map *a = isl_union_map_intersect_domain(isl_union_map_read_from_str(ip.ctx, q.accesses_str(w).c_str()),
                                                            isl_union_set_copy(ip.dom));
          string nm = tagname(i, w, k);
          for (isl_map *m : maps_of(a)) {
            m = isl_map_set_tuple_name(m, isl_dim_in, nm.c_str());
            (w ? wr : rd) = isl_union_map_union(w ? wr : rd, isl_union_map_from_map(m));
          }
          isl_union_map_free(a);
          for (isl_map *m : maps_of(ip.sched)) {
            if (string(isl_map_get_tuple_name(m, isl_dim_in)) == "S_" + to_string(i))
              sc = isl_union_map_union(sc, isl_union_map_from_map(isl_map_set_tuple_name(m, isl_dim_in, nm.c_str())));
            else
              isl_map_free(m);
          }
        }
      }
  } else {
    rd = isl_union_map_copy(ip.reads);
    wr = isl_union_map_copy(ip.writes);
    sc = isl_union_map_copy(ip.sched);
  }
  PlutoContext *c = pluto_context_alloc();
  c->options->silent = 1;
  c->options->lastwriter = last;
  c->options->rar = rar;
  c->options->isldepcoalesce = coal;
  c->options->isldepaccesswise = tagged;
  isl_union_map *em = isl_union_map_empty(isl_union_set_get_space(ip.dom));
  isl_union_map *raw = NULL, *war = NULL, *waw = NULL, *rr = NULL, *twar = NULL, *twaw = NULL;
  IslLimit lim(ip.ctx, 20000000);
  bool want_trans = s.chance(3, 4);
  compute_deps_isl(rd, wr, sc, em, &raw, &war, &waw, &rr, want_trans ? &twar : NULL, want_trans ? &twaw : NULL, c->options);
  if (lim.hit() || !raw || !war || !waw || (rar && !rr)) { r.st = INCONCLUSIVE; return; }
  if (!rar && rr) r.fail("unasked", "read-after-read dependences although not asked for");
  Pairs gr, ga, gw, gx;
  bool ok = pairs_of(p, raw, pv, gr, r) && pairs_of(p, war, pv, ga, r) && pairs_of(p, waw, pv, gw, r) &&
            (!rar || pairs_of(p, rr, pv, gx, r));
  if (lim.hit() || !ok) {
    if (!r.failed()) r.st = INCONCLUSIVE;
    return;
  }
  auto same = [&](const Pairs &got, const Pairs &want, const char *what) {
    subset(want, got, r, string("missing ") + what, "not found");
    subset(got, want, r, string("wrong ") + what, "not a dependence");
  };
  size_t total = all[1][0].size() + all[0][1].size() + all[1][1].size();
  if (!last) {
    same(gr, all[1][0], "flow dependence");
    same(ga, all[0][1], "anti dependence");
    same(gw, all[1][1], "output dependence");
    if (rar) same(gx, all[0][0], "input dependence");
  } else {
    auto upto = [&](const Pairs &got, Pairs lo, const Pairs &hi, const char *what) {
      subset(untag(lo), untag(got), r, string("missing ") + what, "not found");
      subset(got, hi, r, string("wrong ") + what, "not a dependence, or not the last");
    };
    upto(gr, need[1][0], lastp[1][0], "flow dependence");
    Pairs hi = lastp[0][1];
    hi.insert(lastp[1][1].begin(), lastp[1][1].end());
    upto(ga, need[0][1], hi, "anti dependence");
    // isl reports an output dependence among the others when a read happens at the same time
    Pairs both = gw;
    both.insert(ga.begin(), ga.end());
    upto(both, need[1][1], hi, "output dependence");
    subset(gw, lastp[1][1], r, "wrong output dependence", "not a dependence, or not the last");
    if (rar) upto(gx, need[0][0], lastp[0][0], "input dependence");
    // Together they order every conflict.
    map<pair<int, V>, int> id;
    for (size_t i = 0; i < in.size(); i++) id[{in[i].stmt, in[i].it}] = i;
    size_t n = in.size();
    vector<vector<char>> reach(n, vector<char>(n, 0));
    for (auto *q : {&gr, &ga, &gw})
      for (auto &x : *q) {
        auto a = id.find({x.first.st, x.first.it}), b = id.find({x.second.st, x.second.it});
        if (a != id.end() && b != id.end()) reach[a->second][b->second] = 1;
      }
    for (size_t k = 0; k < n; k++)
      for (size_t i = 0; i < n; i++)
        if (reach[i][k])
          for (size_t j = 0; j < n; j++) reach[i][j] |= reach[k][j];
    for (auto *q : {&all[1][0], &all[0][1], &all[1][1]})
      for (auto &x : *q)
        if (!reach[id[{x.first.st, x.first.it}]][id[{x.second.st, x.second.it}]])
          r.fail("unordered", "no chain of dependences from " + str(x));
    if (want_trans) {
      Pairs ta, tw;
      if (!twar || !twaw) r.fail("no transitive dependences", "although asked for");
      else if (pairs_of(p, twar, pv, ta, r) && pairs_of(p, twaw, pv, tw, r)) {
        same(ta, all[0][1], "transitive anti dependence");
        same(tw, all[1][1], "transitive output dependence");
      }
    }
  }
  if (!r.failed()) extraction(p, raw, gr, PLUTO_DEP_RAW, tagged, pv, in, c, r);
  if (!r.failed()) extraction(p, war, ga, PLUTO_DEP_WAR, tagged, pv, in, c, r);
  if (!r.failed()) extraction(p, waw, gw, PLUTO_DEP_WAW, tagged, pv, in, c, r);
  if (!r.failed() && rar) extraction(p, rr, gx, PLUTO_DEP_RAR, tagged, pv, in, c, r);
  r.tag("pairs", total);
  if (!total && !r.failed()) r.st = TRIVIAL;
  for (isl_union_map *x : {rd, wr, sc, em, raw, war, waw, rr, twar, twaw}) isl_union_map_free(x);
  pluto_context_free(c);
}
static Reg d1("C04", "dependences", 5, 60, 10, deps);

// Access functions read off access relations.
static void accesses(Src &s, Result &r) {
  GProg p;
  p.npar = s.range(0, 2);
  for (int i = 0; i < p.npar; i++) p.par.push_back(strf("N%d", i));
  p.st.resize(1);
  GStmt &t = p.st[0];
  t.dim = s.range(0, 3);
  t.disj = {""};
  typedef vector<vector<long>> M;
  vector<pair<string, M>> want[2];
  string text[2];
  bool multi = false;
  string in = "S_0[";
  for (int j = 0; j < t.dim; j++) in += strf("%si%d", j ? "," : "", j);
  in += "]";
  string par;
  for (int i = 0; i < p.npar; i++) par += (i ? ", " : "") + p.par[i];
  par = "[" + par + "] -> ";
  for (int w = 0; w < 2; w++) {
    int n = s.range(0, 3);
    for (int k = 0; k < n; k++) {
      string arr = strf("A%d", s.range(0, 3));
      int nd = atoi(arr.c_str() + 1);  // the number of dimensions goes with the name
      nd = nd == 0 ? 2 : nd - 1;
      M m;
      string out, cons;
      for (int d = 0; d < nd; d++) {
        Aff a;
        a.it.assign(t.dim, 0), a.par.assign(p.npar, 0);
        for (auto &x : a.it) x = s.chance(1, 2) ? s.signed_(3) : 0;
        for (auto &x : a.par) x = s.chance(1, 4) ? s.signed_(3) : 0;
        a.c = s.signed_(20);
        vector<long> row;
        bool any = s.chance(1, 8);
        if (any) {  // a range of elements
          multi = true;
          row.assign(t.dim + p.npar + 1, 0);
          cons += strf("%s%d <= o%d and o%d <= %d", cons.empty() ? "" : " and ", 0, d, d, 5);
        } else {
          for (int x : a.it) row.push_back(x);
          for (int x : a.par) row.push_back(x);
          row.push_back(a.c);
          cons += strf("%so%d = ", cons.empty() ? "" : " and ", d) + a.str(p.par);
        }
        out += strf("%so%d", d ? "," : "", d);
        m.push_back(row);
      }
      text[w] += (text[w].empty() ? "" : "; ") + in + " -> " + arr + "[" + out + "]" + (cons.empty() ? "" : " : " + cons);
      want[w].push_back({arr, m});
    }
  }
  r.desc = "reads: " + par + "{ " + text[0] + " }\nwrites: " + par + "{ " + text[1] + " }";
  if (want[0].empty() && want[1].empty()) r.st = TRIVIAL;

  isl_ctx *ctx = isl_ctx_alloc();
  PlutoContext *c = pluto_context_alloc();
  c->options->silent = 1;
  PlutoProg *g = bare(p, c);
  isl_union_map *u[2];
  for (int w = 0; w < 2; w++) u[w] = isl_union_map_read_from_str(ctx, (par + "{ " + text[w] + " }").c_str());
  Stmt *q = g->stmts[0];
  extract_accesses_for_pluto_stmt(q, u[0], u[1], c);
  for (int w = 0; w < 2; w++) {
    sort(want[w].begin(), want[w].end());
    want[w].erase(unique(want[w].begin(), want[w].end()), want[w].end());
    vector<pair<string, M>> got;
    int n = w ? q->nwrites : q->nreads;
    for (int k = 0; k < n; k++) {
      PlutoAccess *a = w ? q->writes[k] : q->reads[k];
      if (!a) { r.fail("missing", "an access is not set"); break; }
      M m;
      for (unsigned i = 0; i < a->mat->nrows; i++) {
        vector<long> row;
        for (unsigned j = 0; j < a->mat->ncols; j++) row.push_back(a->mat->val[i][j]);
        m.push_back(row);
      }
      got.push_back({a->name, m});
    }
    sort(got.begin(), got.end());
    got.erase(unique(got.begin(), got.end()), got.end());
    if (got != want[w]) {
      string t;
      for (auto &x : got) {
        t += "\n" + x.first;
        for (auto &row : x.second) {
          t += " (";
          for (long v : row) t += " " + to_string(v);
          t += " )";
        }
      }
      r.fail(multi ? "access with ranges" : "access", string(w ? "writes" : "reads") + " come out as" + t);
    }
  }
  r.tag("accesses", want[0].size() + want[1].size());
  for (auto *x : u) isl_union_map_free(x);
  pluto_context_free(c);
  isl_ctx_free(ctx);
}
static Reg d2("C04", "accesses", 2, 200, 10, accesses);
