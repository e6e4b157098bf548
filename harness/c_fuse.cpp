// C07: the fusion structure asked for is the one that comes out.
#include "api.hpp"
#include <algorithm>
#include <set>
using namespace std;
using namespace pbt;

namespace {
struct Dim {
  bool fixed = false;
  long v = 0;
};
// Per statement, which entries of the time are the same for all instances.
bool dims_of(const GProg &p, isl_union_map *m, vector<vector<Dim>> &out) {
  out.assign(p.st.size(), {});
  for (isl_map *x : maps_of(m)) {
    const char *nm = isl_map_get_tuple_name(x, isl_dim_in);
    int id = nm ? atoi(nm + 2) : -1;
    if (id >= 0 && id < (int)p.st.size()) {
      for (int d = 0; d < (int)isl_map_dim(x, isl_dim_out); d++) {
        Dim q;
        isl_val *v = isl_map_plain_get_val_if_fixed(x, isl_dim_out, d);
        if (v && isl_val_is_int(v) == isl_bool_true) q.fixed = true, q.v = isl_val_get_num_si(v);
        isl_val_free(v);
        out[id].push_back(q);
      }
    }
    isl_map_free(x);
  }
  for (auto &x : out)
    if (x.empty() || x.size() != out[0].size()) return false;
  return true;
}
// Whether two statements are inside a common loop.
bool share(const vector<Dim> &a, const vector<Dim> &b) {
  for (size_t d = 0; d < a.size(); d++) {
    if (!a[d].fixed || !b[d].fixed) return true;
    if (a[d].v != b[d].v) return false;
  }
  return false;
}
int first_difference(const vector<Dim> &a, const vector<Dim> &b) {  // +1: a first
  for (size_t d = 0; d < a.size(); d++) {
    if (!a[d].fixed || !b[d].fixed) return 0;
    if (a[d].v != b[d].v) return a[d].v < b[d].v ? 1 : -1;
  }
  return 0;
}
// Whether some entry of the time is not an affine function: a tile number.
bool rounds(isl_map *x) {
  bool found = false;
  int n = isl_map_dim(x, isl_dim_out);
  for (int d = 0; d < n && !found; d++) {
    isl_map *y = isl_map_project_out(isl_map_copy(x), isl_dim_out, d + 1, n - d - 1);
    y = isl_map_project_out(y, isl_dim_out, 0, d);
    isl_pw_multi_aff *pma = isl_pw_multi_aff_from_map(y);
    isl_pw_aff *pa = isl_pw_multi_aff_get_pw_aff(pma, 0);
    isl_pw_multi_aff_free(pma);
    isl_pw_aff_foreach_piece(pa, [](isl_set *st, isl_aff *a, void *u) {
      for (int i = 0; i < (int)isl_aff_dim(a, isl_dim_div); i++) {
        isl_val *v = isl_aff_get_coefficient_val(a, isl_dim_div, i);
        if (v && !isl_val_is_zero(v)) *(bool *)u = true;
        isl_val_free(v);
      }
      isl_set_free(st);
      isl_aff_free(a);
      return isl_stat_ok;
    }, &found);
    isl_pw_aff_free(pa);
  }
  return found;
}
bool ready(const GProg &p, IslProg &ip, const ProgOpts &po, Result &r) {
  if (!make_isl(p, ip)) { r.st = INCONCLUSIVE; return false; }
  if (ip.ndeps > po.max_deps) { r.st = DISCARD; return false; }
  return true;
}
void legal(const GProg &p, const IslProg &ip, const GOpts &o, isl_union_map *m, Result &r) {
  bool gave = false;
  string bad = illegal(ip, ip.deps, m, &gave);
  if (!bad.empty() && mixed_fusion(p, ip, o)) { r.st = INCONCLUSIVE; return; }  // see C01
  if (!bad.empty()) r.fail("illegal", bad + "\nschedule: " + to_str(m));
}
}  // namespace

// Without fusion, or by depth: smart fusion keeps apart what is joined by a
// dependence, is not in a cycle and has components of unequal depth.
static void nofuse(Src &s, Result &r, bool dfp, bool smart = false) {
  ProgOpts po;
  po.chain = s.chance(1, 3);
  GProg p = gen_prog(s, po);
  OptOpts oo;
  oo.core = !dfp;
  oo.force_dfp = dfp;
  oo.diamond = false;
  GOpts o = gen_opts(s, oo);
  o.fuse = smart ? kSmartFuse : kNoFuse;
  r.desc = p.describe() + o.describe();
  if (describe_only()) return;
  IslProg ip;
  if (!ready(p, ip, po, r)) return;
  int n = p.st.size();
  vector<vector<char>> reach(n, vector<char>(n, 0));
  for (isl_map *m : maps_of(ip.deps)) {
    if (isl_map_is_empty(m) != isl_bool_true)
      reach[atoi(isl_map_get_tuple_name(m, isl_dim_in) + 2)][atoi(isl_map_get_tuple_name(m, isl_dim_out) + 2)] = 1;
    isl_map_free(m);
  }
  auto direct = reach;
  for (int k = 0; k < n; k++)
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++) reach[i][j] |= reach[i][k] && reach[k][j];
  auto depth = [&](int i) {
    int d = p.st[i].dim;
    for (int j = 0; j < n; j++)
      if (reach[i][j] && reach[j][i]) d = max(d, p.st[j].dim);
    return d;
  };
  isl_union_map *m = run_transform(p, ip, o);
  if (!m) { r.st = TRIVIAL; return; }
  vector<vector<Dim>> d;
  int pairs = 0;
  if (dims_of(p, m, d))
    for (int i = 0; i < n; i++)
      for (int j = 0; j < i; j++) {
        if (reach[i][j] && reach[j][i]) continue;
        if (smart && ((!direct[i][j] && !direct[j][i]) || depth(i) == depth(j))) continue;
        pairs++;
        if (share(d[i], d[j]))
          r.fail("fused", strf("S_%d and S_%d share a loop although %s\nschedule: ", j, i,
                               smart ? "their components have unequal depth" : "no cycle of dependences joins them") + to_str(m));
        int o1 = first_difference(d[i], d[j]);
        if ((reach[i][j] && o1 < 0) || (reach[j][i] && o1 > 0)) r.fail("order", strf("S_%d, S_%d\nschedule: ", i, j) + to_str(m));
      }
  r.tag("separated_pairs", pairs);
  if (!pairs && !r.failed()) r.st = TRIVIAL;
  isl_union_map_free(m);
}
static Reg f1("C07", "nofuse", 4, 40, 10, [](Src &s, Result &r) { nofuse(s, r, false); });
static Reg f8("C07", "depths", 2, 40, 10, [](Src &s, Result &r) { nofuse(s, r, false, true); });
static Reg f2("C07", "nofuse dfp~", 2, 40, 10, [](Src &s, Result &r) { nofuse(s, r, true); });

// A partition given in a file, at the places where the original order is cut.
static void given(Src &s, Result &r, bool rows) {
  ProgOpts po;
  po.max_stmts = 5;
  po.chain = s.chance(1, 2);
  GProg p = gen_prog(s, po);
  OptOpts oo;
  oo.core = true;
  GOpts o = gen_opts(s, oo);
  if (o.fuse == kNoFuse) o.fuse = kMaximalFuse;
  if (rows) o.tile = 0, o.tile_sizes.clear(), o.parallel = 0, o.second_level_tile = 0, o.intratileopt = 0;
  if (!o.tile_sizes.empty()) for (auto &x : o.tile_sizes) x = max(x, 2);
  int n = p.st.size();
  vector<int> grp(n), tile;
  set<int> tops;
  for (auto &t : p.st) tops.insert(t.beta[0]);
  map<int, int> g;
  int k = 0;
  for (int b : tops) {
    if (b != *tops.begin() && s.chance(2, 3)) k++;
    g[b] = k;
  }
  for (int i = 0; i < n; i++) grp[i] = g[p.st[i].beta[0]];
  for (int i = 0; i <= k; i++) tile.push_back(s.chance(1, 2) ? s.range(1, 3) : 0);
  bool loop = s.chance(1, 2), only = s.chance(1, 3);
  if (!rows) {
    o.fst = to_string(k + 1) + "\n";
    for (int i = 0; i <= k; i++) {
      int c = count(grp.begin(), grp.end(), i);
      o.fst += to_string(c) + "\n";
      for (int j = 0; j < n; j++)
        if (grp[j] == i) o.fst += to_string(j) + " ";
      o.fst += strf("\n%d\n", tile[i]);
    }
  } else {
    // the position of the outermost nest, and possibly its loop
    int nr = only && tops.size() == 1 ? 1 : 1 + loop;
    o.precut = strf("%d\n1\n", n);
    for (int j = 0; j < n; j++) {
      int dim = p.st[j].dim, cols = 1 + dim + p.npar + 1;
      o.precut += strf("%d %d\n", nr, cols);
      for (int q = 0; q < nr; q++) {
        bool lp = nr == 2 ? q == 1 : only && tops.size() == 1;
        o.precut += "0";
        for (int x = 0; x < dim; x++) o.precut += lp && x == 0 ? " 1" : " 0";
        for (int x = 0; x < p.npar; x++) o.precut += " 0";
        o.precut += strf(" %d\n", lp ? 0 : p.st[j].beta[0]);
      }
      o.precut += strf("0\n%d\n", tile[0]);
    }
    loop = nr == 2 || (only && tops.size() == 1);
    only = nr == 1 && loop;
  }
  r.desc = p.describe() + o.describe();
  if (describe_only()) return;
  IslProg ip;
  if (!ready(p, ip, po, r)) return;
  isl_union_map *m = run_transform(p, ip, o);
  if (!m) { r.st = TRIVIAL; return; }
  vector<vector<Dim>> d;
  if (!dims_of(p, m, d)) r.fail("lengths", to_str(m));
  else if (!rows) {
    int pairs = 0;
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++)
        if (grp[i] < grp[j]) {
          pairs++;
          if (share(d[i], d[j]) || first_difference(d[i], d[j]) != 1)
            r.fail("not as asked", strf("S_%d and S_%d are of the groups %d and %d\nschedule: ", i, j, grp[i], grp[j]) + to_str(m));
        }
    if (!pairs && !r.failed()) r.st = TRIVIAL;
    for (isl_map *x : maps_of(m)) {
      int id = atoi(isl_map_get_tuple_name(x, isl_dim_in) + 2);
      bool div = !tile[grp[id]] && rounds(x);
      if (div && !tile[grp[id]]) r.fail("tiled", strf("S_%d is not to be tiled\n", id) + to_str(m));
      isl_map_free(x);
    }
    r.tag("separated_pairs", pairs);
  } else {
    // the first rows of the times are the ones given
    for (isl_map *x : maps_of(m)) {
      int id = atoi(isl_map_get_tuple_name(x, isl_dim_in) + 2), dim = p.st[id].dim;
      string want = "{ S_" + to_string(id) + "[";
      for (int q = 0; q < dim; q++) want += strf("%si%d", q ? "," : "", q);
      want += "] -> [";
      int nr = 0;
      if (!only) want += to_string(p.st[id].beta[0]), nr++;
      if (loop) want += string(nr++ ? "," : "") + (dim ? "i0" : to_string(only ? 0 : 0));
      want += "] }";
      isl_map *w = isl_map_read_from_str(ip.ctx, want.c_str());
      isl_map *got = isl_map_project_out(isl_map_copy(x), isl_dim_out, nr, isl_map_dim(x, isl_dim_out) - nr);
      if (isl_map_is_subset(got, w) == isl_bool_false) r.fail("other rows", "instead of " + want + "\nschedule: " + to_str(m));
      isl_map_free(w);
      isl_map_free(got);
      isl_map_free(x);
    }
  }
  if (!r.failed()) legal(p, ip, o, m, r);
  isl_union_map_free(m);
}
static Reg f3("C07", "partition file", 4, 40, 10, [](Src &s, Result &r) { given(s, r, false); });
static Reg f4("C07", "partial transformation file", 3, 40, 10, [](Src &s, Result &r) { given(s, r, true); });

// All loops can be fused as they stand: they are. With unequal depths, the
// outer ones under maximal fusion.
static void fusable(Src &s, Result &r, bool uneven) {
  GProg p;
  p.npar = 1;
  p.par = {"N"};
  p.ctxcons = {"N >= 4"};
  int n = s.range(2, 5), dim = s.range(1, 3);
  p.maxdim = dim;
  p.depmode = 2;
  p.with_accesses = false;
  p.adim = {1};
  for (int i = 0; i < n; i++) {
    GStmt t;
    t.dim = uneven ? s.range(1, dim) : dim;
    t.beta.assign(dim + 1, 0);
    t.beta[s.chance(1, 2) ? 0 : s.draw(dim + 1)] = i;
    string c;
    for (int d = 0; d < t.dim; d++) c += strf("%s%d <= i%d < N%s", d ? " and " : "", s.range(0, 1), d, s.chance(1, 4) ? " + 1" : "");
    t.disj = {c};
    p.st.push_back(t);
  }
  int nd = s.range(1, 2 * n);
  for (int k = 0; k < nd; k++) {
    int a = s.draw(n), b = s.draw(n);
    vector<int> v;
    bool zero = true;
    int common = min(p.st[a].dim, p.st[b].dim);
    for (int d = 0; d < common; d++) {
      v.push_back(s.range(0, 2));
      zero &= !v.back();
    }
    if (zero && a >= b) {
      if (a == b) v[s.draw(common)] = 1;
      else swap(a, b);
    }
    string x = strf("S_%d[", a), y = strf("S_%d[", b);
    for (int d = 0; d < p.st[a].dim; d++) x += strf("%si%d", d ? "," : "", d);
    for (int d = 0; d < p.st[b].dim; d++) y += d < common ? strf("%si%d+%d", d ? "," : "", d, v[d]) : strf(",o%d", d);
    p.explicit_deps.push_back(x + "] -> " + y + "]");
  }
  // any order will do here: the dependences are given as they are
  GOpts o;
  o.tile = o.parallel = o.intratileopt = 0;
  o.fuse = uneven || s.chance(1, 2) ? kMaximalFuse : kSmartFuse;
  if (uneven)
    for (auto &t : p.st) dim = min(dim, t.dim);
  o.isldepaccesswise = 0;
  o.solver = s.weighted({3, 1});
  o.islsolve = o.solver ? 0 : !s.chance(1, 8);
  r.desc = "domains: " + p.domains_str() + "\ndependences:";
  for (auto &d : p.explicit_deps) r.desc += "\n  " + d;
  r.desc += "\n" + o.describe();
  if (describe_only()) return;
  IslProg ip;
  ip.ctx = isl_ctx_alloc();
  ip.dom = isl_union_set_read_from_str(ip.ctx, p.domains_str().c_str());
  ip.deps = isl_union_map_empty(isl_union_set_get_space(ip.dom));
  for (auto &d : p.explicit_deps)
    ip.deps = isl_union_map_union(ip.deps, isl_union_map_read_from_str(ip.ctx, ("[N] -> { " + d + " }").c_str()));
  ip.deps = isl_union_map_intersect_range(isl_union_map_intersect_domain(ip.deps, isl_union_set_copy(ip.dom)), isl_union_set_copy(ip.dom));
  isl_union_map *m = run_transform(p, ip, o);
  if (!m) r.fail("no schedule", "although the program can be fused as it stands");
  else {
    vector<vector<Dim>> d;
    if (!dims_of(p, m, d)) r.fail("lengths", to_str(m));
    else {
      int loops = 0;
      for (size_t l = 0; l < d[0].size() && loops < dim; l++) {
        bool all = true, none = true;
        for (auto &x : d) {
          all &= !x[l].fixed;
          none &= x[l].fixed;
        }
        if (all) loops++;
        else {
          bool eq = none;
          for (auto &x : d) eq &= x[l].fixed && x[l].v == d[0][l].v;
          if (!eq) {
            r.fail("not fused", strf("before loop %d of %d\nschedule: ", loops, dim) + to_str(m));
            break;
          }
        }
      }
      if (loops < dim) r.fail("not fused", to_str(m));
    }
    legal(p, ip, o, m, r);
    isl_union_map_free(m);
  }
}
static Reg f5("C07", "fusable", 4, 40, 10, [](Src &s, Result &r) { fusable(s, r, false); });
static Reg f9("C07", "uneven", 2, 40, 10, [](Src &s, Result &r) { fusable(s, r, true); });
