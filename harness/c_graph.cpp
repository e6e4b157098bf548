// C14: dependence graphs.
#include "iprog.hpp"
#include <algorithm>
#include <set>
extern "C" unsigned cut_scc_dim_based(PlutoProg *prog, Graph *ddg) __attribute__((weak));  // not in a header
using namespace std;
using namespace pbt;
typedef vector<vector<long>> Adj;

static Adj closure(const Adj &a) {  // by search from each vertex
  int n = a.size();
  Adj r(n, vector<long>(n, 0));
  for (int s = 0; s < n; s++) {
    vector<int> todo;
    for (int j = 0; j < n; j++)
      if (a[s][j]) r[s][j] = 1, todo.push_back(j);
    while (!todo.empty()) {
      int v = todo.back();
      todo.pop_back();
      for (int j = 0; j < n; j++)
        if (a[v][j] && !r[s][j]) r[s][j] = 1, todo.push_back(j);
    }
  }
  return r;
}
static string astr(const Adj &a) {
  string t = strf("%zu vertices:", a.size());
  for (size_t i = 0; i < a.size(); i++)
    for (size_t j = 0; j < a.size(); j++)
      if (a[i][j]) t += strf(" %zu->%zu(%ld)", i, j, a[i][j]);
  return t;
}
static bool equal(const PlutoMatrix *m, const Adj &a, bool zero_one) {
  if (m->nrows != a.size() || m->ncols != a.size()) return false;
  for (size_t i = 0; i < a.size(); i++)
    for (size_t j = 0; j < a.size(); j++)
      if (zero_one ? !m->val[i][j] != !a[i][j] : m->val[i][j] != a[i][j]) return false;
  return true;
}
static Adj gen_adj(Src &s, int n) {
  Adj a(n, vector<long>(n, 0));
  int e = s.range(0, 2 * n);
  for (int k = 0; k < e; k++) a[s.draw(n)][s.draw(n)] += 1;
  if (s.chance(1, 4)) {  // a path through the vertices in a random order
    vector<int> p(n);
    for (int i = 0; i < n; i++) p[i] = i;
    for (int i = 0; i + 1 < n; i++) swap(p[i], p[i + s.draw(n - i)]);
    for (int i = 0; i + 1 < n; i++) a[p[i]][p[i + 1]] += 1;
  }
  return a;
}

static void check_sccs(Result &r, const Adj &a, const vector<int> &id, int num, const char *what, bool topological) {
  int n = a.size();
  Adj c = closure(a);
  set<int> ids(id.begin(), id.end());
  if ((int)ids.size() != num || *ids.begin() != 0 || *ids.rbegin() != num - 1)
    return r.fail("numbering", strf("%s: the components are not numbered 0..%d", what, num - 1));
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++) {
      bool same = i == j || (c[i][j] && c[j][i]);
      if (same != (id[i] == id[j])) return r.fail("components", strf("%s: vertices %d and %d", what, i, j));
      if (topological && a[i][j] && id[i] > id[j])
        return r.fail("order", strf("%s: edge %d->%d from component %d to %d", what, i, j, id[i], id[j]));
    }
}

static void graphs(Src &s, Result &r) {
  PlutoContext *c = pluto_context_alloc();
  int n = s.range(1, 9);
  Adj a = gen_adj(s, n);
  r.desc = astr(a);
  Graph *g = graph_alloc(n, c);
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++) g->adj->val[i][j] = a[i][j];
  Adj t(n, vector<long>(n)), u = t;
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++) t[j][i] = a[i][j], u[i][j] = a[i][j] || a[j][i];

  Graph *gt = graph_transpose(g);
  if (!equal(gt->adj, t, false)) r.fail("transpose", "not the transposed graph");
  Graph *gu = get_undirected_graph(g);
  if (!equal(gu->adj, u, true)) r.fail("undirected", "not the undirected graph");
  if (!equal(g->adj, a, false)) r.fail("modified", "the graph was modified");
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++)
      if (is_adjacent(g, i, j) != (bool)u[i][j]) r.fail("adjacent", strf("%d and %d", i, j));
  // Depth-first numbering: intervals nest, and no edge leads from a finished vertex to a later one.
  dfs(g);
  set<int> times;
  for (int i = 0; i < n; i++) {
    Vertex &v = g->vertices[i];
    if (v.id != i || v.vn < 1 || v.fn <= v.vn || v.fn > 2 * n) r.fail("dfs", strf("vertex %d has times %d and %d", i, v.vn, v.fn));
    times.insert(v.vn), times.insert(v.fn);
    for (int j = 0; j < n; j++) {
      Vertex &w = g->vertices[j];
      if (a[i][j] && v.fn < w.vn) r.fail("dfs", strf("edge %d->%d to a vertex visited after its source was finished", i, j));
      if (i != j && v.vn < w.vn && w.vn < v.fn && v.fn < w.fn) r.fail("dfs", strf("times of %d and %d cross", i, j));
    }
  }
  if ((int)times.size() != 2 * n) r.fail("dfs", "times are not distinct");
  // Strongly connected components from those times.
  Graph *gs = graph_transpose(g);
  dfs_for_scc(gs);
  vector<int> id;
  for (int i = 0; i < n; i++) id.push_back(gs->vertices[i].scc_id);
  if (!r.failed()) check_sccs(r, a, id, gs->num_sccs, "dfs_for_scc", true);
  Adj cl = closure(a);
  compute_transitive_closure(g);
  if (!r.failed() && !equal(g->adj, cl, true)) r.fail("closure", "not the transitive closure");
  int edges = 0;
  for (auto &x : a)
    for (long y : x) edges += y != 0;
  r.st = r.failed() ? FAIL : edges ? OK : TRIVIAL;
  r.tag("edges", edges);
  graph_free(gs), graph_free(gu), graph_free(gt), graph_free(g);
  pluto_context_free(c);
}
static Reg g1("C14", "graph", 2, 500, 10, graphs);

// The graph of a program: edges from its unsatisfied dependences, components, cuts.
static void ddg(Src &s, Result &r) {
  PlutoContext *c = pluto_context_alloc();
  c->options->silent = 1;
  int n = s.range(1, 7);
  IProg p;
  p.npar = s.range(0, 1);
  bool eq_dims = s.chance(1, 2);
  int nvar = s.range(1, 3);
  for (int i = 0; i < n; i++) {
    IStmt t;
    t.dim = nvar;  // as inside the scheduler: all statements have the same width
    for (int d = 0; d < t.dim; d++) {
      MRow lo, hi;
      lo.c.assign(t.dim + p.npar + 1, 0), hi.c = lo.c;
      lo.c[d] = 1, hi.c[d] = -1, hi.c.back() = 5;
      t.dom.push_back(lo), t.dom.push_back(hi);
    }
    p.st.push_back(t);
  }
  Adj a = gen_adj(s, n);
  vector<bool> sat;
  vector<array<int, 3>> edges;
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++)
      for (int k = 0; k < a[i][j]; k++) {
        IDep d;
        d.src = i, d.dest = j;
        d.type = (PlutoDepType)s.weighted({4, 2, 2, 2});
        int w = 2 * nvar + p.npar + 1;
        for (int side = 0; side < 2; side++)
          for (auto &row : p.st[side ? j : i].dom) {
            MRow m;
            m.c.assign(w, 0);
            for (int x = 0; x < nvar; x++) m.c[side * nvar + x] = row.c[x];
            m.c.back() = row.c.back();
            d.rows.push_back(m);
          }
        p.dep.push_back(d);
        sat.push_back(s.chance(1, 5));
      }
  PlutoProg *g = build_iprog(p, c);
  vector<int> dims;
  for (int i = 0; i < n; i++) {
    dims.push_back(eq_dims ? nvar : s.range(0, nvar));
    g->stmts[i]->dim_orig = dims[i];
  }
  auto current = [&]() {
    Adj m(n, vector<long>(n, 0));
    for (int k = 0; k < g->ndeps; k++)
      if (g->deps[k]->type != PLUTO_DEP_RAR && !g->deps[k]->satisfied) m[p.dep[k].src][p.dep[k].dest]++;
    return m;
  };
  for (int k = 0; k < g->ndeps; k++) g->deps[k]->satisfied = sat[k];
  Adj m = current();
  r.desc = astr(m) + " dims";
  for (int d : dims) r.desc += strf(" %d", d);
  g->ddg = ddg_create(g);
  if (!equal(g->ddg->adj, m, false)) r.fail("create", "the edges are not the unsatisfied dependences");
  auto components = [&](const char *when) {
    ddg_compute_scc(g);
    ddg_compute_cc(g);
    vector<int> id, cc;
    Adj u(n, vector<long>(n)), mm = current();
    for (int i = 0; i < n; i++) {
      id.push_back(g->ddg->vertices[i].scc_id), cc.push_back(g->ddg->vertices[i].cc_id);
      if (g->stmts[i]->scc_id != id[i] || g->stmts[i]->cc_id != cc[i]) r.fail("stmt ids", strf("%s: statement %d", when, i));
      for (int j = 0; j < n; j++) u[i][j] = mm[i][j] || mm[j][i];
    }
    if (!r.failed()) check_sccs(r, mm, id, g->ddg->num_sccs, when, true);
    if (!r.failed()) check_sccs(r, u, cc, g->ddg->num_ccs, (string(when) + " (undirected)").c_str(), false);
    for (int k = 0; k < g->ddg->num_sccs && !r.failed(); k++) {
      Scc &q = g->ddg->sccs[k];
      int size = 0, md = -1;
      for (int i = 0; i < n; i++)
        if (id[i] == k) size++, md = max(md, dims[i]);
      if (q.size != size || (int)q.max_dim != md || q.id != k)
        r.fail("scc data", strf("%s: component %d has size %d, dimension %u, id %d instead of %d, %d", when, k, q.size, q.max_dim, q.id, size, md));
    }
    compute_scc_vertices(g->ddg);
    for (int k = 0; k < g->ddg->num_sccs && !r.failed(); k++) {
      set<int> want, got;
      for (int i = 0; i < n; i++)
        if (id[i] == k) want.insert(i);
      got.insert(g->ddg->sccs[k].vertices, g->ddg->sccs[k].vertices + g->ddg->sccs[k].size);
      if (want != got) r.fail("scc vertices", strf("%s: component %d", when, k));
    }
    free_scc_vertices(g->ddg);
    for (int x = 0; x < g->ddg->num_sccs && !r.failed(); x++)
      for (int y = 0; y < g->ddg->num_sccs; y++) {
        bool want = false;
        for (int i = 0; i < n; i++)
          for (int j = 0; j < n; j++) want |= id[i] == x && id[j] == y && mm[i][j];
        if ((bool)ddg_sccs_direct_connected(g->ddg, g, x, y) != want) r.fail("connected", strf("%s: components %d and %d", when, x, y));
      }
  };
  if (!r.failed()) components("initially");
  // Some more dependences are satisfied.
  if (!r.failed() && s.chance(1, 2)) {
    for (int k = 0; k < g->ndeps; k++)
      if (s.chance(1, 3)) g->deps[k]->satisfied = !g->deps[k]->satisfied;
    ddg_update(g->ddg, g);
    r.desc += " then " + astr(current());
    if (!equal(g->ddg->adj, current(), false)) r.fail("update", "the edges are not the unsatisfied dependences");
    if (!r.failed()) components("after an update");
  }
  // Cuts: a scalar level that satisfies exactly the dependences it separates.
  if (!r.failed() && s.chance(2, 3)) {
    int nc = s.range(1, 3);
    for (int k = 0; k < nc && !r.failed(); k++) {
      vector<bool> was;
      for (int i = 0; i < g->ndeps; i++) was.push_back(g->deps[i]->satisfied);
      vector<int> scc;
      for (int i = 0; i < n; i++) scc.push_back(g->stmts[i]->scc_id);
      int before = g->num_hyperplanes, num = g->ddg->num_sccs;
      int kind = num > 1 ? s.range(0, cut_scc_dim_based ? 2 : 1) : 0, x = 0, y = 0;
      if (kind == 1) {
        x = s.draw(num), y = s.draw(num - 1);
        if (y >= x) y++;
        if (x > y) swap(x, y);
      }
      unsigned got = kind == 2 ? cut_scc_dim_based(g, g->ddg) : kind ? cut_between_sccs(g, g->ddg, x, y) : cut_all_sccs(g, g->ddg);
      r.desc += kind == 2 ? string(" cut dims") : kind ? strf(" cut %d|%d", x, y) : string(" cut all");
      int added = g->num_hyperplanes - before;
      if (added != 0 && added != 1) return r.fail("cut", "not one level added");
      unsigned sat_now = 0;
      for (int i = 0; i < n; i++)
        if ((int)g->stmts[i]->trans->nrows != g->num_hyperplanes) return r.fail("cut", "levels of the statements differ");
      vector<long> v(n, 0);
      if (added)
        for (int i = 0; i < n; i++) {
          PlutoMatrix *T = g->stmts[i]->trans;
          for (unsigned j = 0; j + 1 < T->ncols; j++)
            if (T->val[T->nrows - 1][j]) return r.fail("cut", "the added level is not a constant");
          v[i] = T->val[T->nrows - 1][T->ncols - 1];
        }
      for (int i = 0; i < g->ndeps; i++) {
        const IDep &d = p.dep[i];
        bool want = was[i] || (added && v[d.src] < v[d.dest]);
        bool gone = kind == 2 && !added && d.type == PLUTO_DEP_RAR;  // the level was taken back
        if (g->deps[i]->satisfied != want && !gone) r.fail("cut satisfaction", strf("dependence %d S%d->S%d", i, d.src, d.dest));
        if (!was[i] && want && d.type != PLUTO_DEP_RAR) sat_now++;
        if (added && !was[i] && d.type != PLUTO_DEP_RAR && v[d.src] > v[d.dest])
          r.fail("cut order", strf("the cut reverses dependence %d S%d->S%d", i, d.src, d.dest));
      }
      if (got != sat_now) r.fail("cut count", strf("%u reported, %u satisfied", got, sat_now));
      if (!kind && num > 1)  // all components apart
        for (int i = 0; i < n; i++)
          for (int j = 0; j < n; j++)
            if ((scc[i] == scc[j]) != (v[i] == v[j])) r.fail("cut all", strf("statements %d and %d", i, j));
      if (kind == 2) {  // a change of depth separates, if it separates a dependence
        vector<int> run(num, 0), depth(num, 0);
        for (int i = 0; i < n; i++) depth[scc[i]] = max(depth[scc[i]], dims[i]);
        for (int i = 1; i < num; i++) run[i] = run[i - 1] + (depth[i] != depth[i - 1]);
        bool need = false;
        for (int i = 0; i < g->ndeps; i++)
          need |= !was[i] && p.dep[i].type != PLUTO_DEP_RAR && run[scc[p.dep[i].src]] < run[scc[p.dep[i].dest]];
        if (need != (added == 1)) r.fail("cut dims", need ? "no level added" : "a level added that separates no dependence");
        for (int i = 0; added && i < n; i++)
          for (int j = 0; j < n; j++)
            if ((run[scc[i]] < run[scc[j]]) != (v[i] < v[j])) r.fail("cut dims", strf("statements %d and %d", i, j));
      }
      if (kind == 1 && added)
        for (int i = 0; i < n; i++)
          for (int j = 0; j < n; j++)
            if (scc[i] == x && scc[j] == y && x < y && v[i] >= v[j]) r.fail("cut between", strf("statements %d and %d are not separated", i, j));
      if (!r.failed() && !equal(g->ddg->adj, current(), false)) r.fail("cut graph", "the edges are not the unsatisfied dependences");
      if (!r.failed() && s.chance(1, 2)) components("after a cut");
    }
  }
  int e = 0;
  for (auto &x : m)
    for (long y : x) e += y != 0;
  r.st = r.failed() ? FAIL : e ? OK : TRIVIAL;
  r.tag("sccs", g->ddg->num_sccs);
  pluto_prog_free(g);
  pluto_context_free(c);
}
static Reg g2("C14", "dependences", 2, 200, 20, ddg);
