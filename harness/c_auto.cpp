// C22: automatically chosen tile sizes.
#include "api.hpp"
#include <algorithm>
#include <set>
using namespace std;
using namespace pbt;

namespace {
// The denominators of the tile numbers, per statement and level of the time.
bool sizes_of(isl_union_map *m, map<int, map<int, set<long>>> &out) {
  bool ok = true;
  for (isl_map *x : maps_of(m)) {
    int id = atoi(isl_map_get_tuple_name(x, isl_dim_in) + 2), n = isl_map_dim(x, isl_dim_out);
    for (int d = 0; d < n; d++) {
      isl_map *y = isl_map_project_out(isl_map_copy(x), isl_dim_out, d + 1, n - d - 1);
      y = isl_map_project_out(y, isl_dim_out, 0, d);
      isl_pw_multi_aff *pma = isl_pw_multi_aff_from_map(y);
      if (!pma) { ok = false; continue; }
      isl_pw_aff *pa = isl_pw_multi_aff_get_pw_aff(pma, 0);
      isl_pw_multi_aff_free(pma);
      set<long> ds;
      isl_pw_aff_foreach_piece(pa, [](isl_set *st, isl_aff *a, void *u) {
        for (int i = 0; i < (int)isl_aff_dim(a, isl_dim_div); i++) {
          isl_val *v = isl_aff_get_coefficient_val(a, isl_dim_div, i);
          if (v && !isl_val_is_zero(v)) {
            isl_aff *q = isl_aff_get_div(a, i);
            isl_val *den = isl_aff_get_denominator_val(q);
            ((set<long> *)u)->insert(isl_val_get_num_si(den));
            isl_val_free(den);
            isl_aff_free(q);
          }
          isl_val_free(v);
        }
        isl_set_free(st);
        isl_aff_free(a);
        return isl_stat_ok;
      }, &ds);
      isl_pw_aff_free(pa);
      out[id][d] = ds;
    }
    isl_map_free(x);
  }
  return ok;
}
size_t length(isl_union_map *m) {
  size_t n = 0;
  for (isl_map *x : maps_of(m)) {
    n = max(n, (size_t)isl_map_dim(x, isl_dim_out));
    isl_map_free(x);
  }
  return n;
}
}  // namespace

// Rectangular nests whose arrays are indexed by some of the loops only.
static GProg gen_reuse(Src &s) {
  GProg p;
  p.npar = 1;
  p.par = {"N"};
  p.ctxcons = {"N >= 4"};
  GStmt t;
  int dim = t.dim = p.maxdim = s.range(2, 4);
  t.beta.assign(dim + 1, 0);
  string c;
  for (int d = 0; d < dim; d++) c += strf("%s0 <= i%d < N", d ? " and " : "", d);
  t.disj = {c};
  auto acc = [&](int arr) {
    Access a;
    a.arr = arr;
    for (int d = 0; d < dim; d++)
      if (s.chance(1, 2)) {
        Aff f;
        f.it.assign(dim, 0), f.par.assign(1, 0);
        f.it[d] = 1;
        f.c = s.chance(1, 4) ? s.signed_(1) : 0;
        a.idx.push_back(f);
      }
    p.adim.push_back(a.idx.size());
    return a;
  };
  t.writes.push_back(acc(0));
  int n = s.range(1, 3);
  for (int k = 1; k <= n; k++) t.reads.push_back(acc(k));
  if (s.chance(1, 2)) t.reads.push_back(t.writes[0]);
  p.st.push_back(t);
  return p;
}
static void chosen(Src &s, Result &r, bool stencil, bool reuse = false) {
  ProgOpts po;
  po.max_stmts = s.chance(1, 2) ? 1 : 3;
  po.stencil = stencil;
  GProg p = reuse ? gen_reuse(s) : gen_prog(s, po);
  if (p.depmode == 2) p.depmode = 0;
  p.with_accesses = true;
  OptOpts oo;
  oo.core = oo.force_tile = true;
  GOpts o = gen_opts(s, oo);
  o.tile_sizes.clear();
  o.second_level_tile = 0;
  o.parallel = s.chance(1, 3);
  o.find_tile_sizes = 1;
  o.cache_size = (long[]){1048576, 32768, 4096, 512, 33554432}[s.draw(5)];
  o.data_element_size = (int[]){8, 4, 1, 16}[s.draw(4)];
  o.ufactor = s.range(2, 9);
  long mul = (long[]){2, 4, o.cache_size > 1048576 ? 8 : 64}[s.draw(3)];
  r.desc = p.describe() + o.describe() + strf(" (and %ld times the cache)", mul);
  if (!p.with_accesses) { r.st = DISCARD; return; }
  if (describe_only()) return;
  IslProg ip;
  if (!make_isl(p, ip)) { r.st = INCONCLUSIVE; return; }
  if (ip.ndeps > po.max_deps) { r.st = DISCARD; return; }
  isl_union_map *m = run_transform(p, ip, o);
  if (!m) { r.st = TRIVIAL; return; }
  bool gave = false;
  string bad = illegal(ip, ip.deps, m, &gave);
  if (!bad.empty() && mixed_fusion(p, ip, o)) { r.st = INCONCLUSIVE; return; }
  if (!bad.empty()) r.fail("illegal", bad + "\nschedule: " + to_str(m));
  map<int, map<int, set<long>>> sz, other;
  sizes_of(m, sz);
  set<long> per[64];
  int nt = 0, last = -1, first = -1;
  for (auto &a : sz)
    for (auto &b : a.second)
      for (long x : b.second) {
        nt++;
        per[b.first & 63].insert(x);
        if (first < 0 || b.first < first) first = b.first;
        last = max(last, b.first);
        bool ok = false;  // a loop with a coefficient k shows the size divided by k
        for (long k = 1; k <= 4; k++) ok |= x * k == 32 || x * k == 512 || x * k % o.ufactor == 0;
        if (!ok)
          r.fail("not a multiple", strf("a tile size of %ld with an unroll factor of %d\n", x, o.ufactor) + to_str(m));
        r.tag(x == 32 ? "size_32" : x == 512 ? "size_512" : "other_size");
      }
  if (!nt) { r.st = r.failed() ? r.st : TRIVIAL; isl_union_map_free(m); return; }
  // Twice the cache with elements of twice the size is the same.
  GOpts o2 = o;
  o2.cache_size *= 2, o2.data_element_size *= 2;
  isl_union_map *m2 = run_transform(p, ip, o2);
  if (!m2 || isl_union_map_is_equal(m, m2) == isl_bool_false)
    r.fail("another element size", o2.describe() + ":\n" + (m2 ? to_str(m2) : "(none)") + "\ninstead of\n" + to_str(m));
  isl_union_map_free(m2);
  // A larger cache does not make tiles smaller.
  o2 = o;
  o2.cache_size *= mul;
  m2 = run_transform(p, ip, o2);
  if (!m2) r.fail("larger cache", "no schedule");
  else {
    sizes_of(m2, other);
    for (auto &a : sz)
      for (auto &b : a.second) {
        auto &c = other[a.first][b.first];
        if (b.second.size() != 1 || c.size() != 1) continue;
        if (*c.begin() < *b.second.begin())
          r.fail("larger cache", strf("S_%d level %d: size %ld with %ld bytes, %ld with %ld\n", a.first, b.first, *b.second.begin(), o.cache_size,
                                      *c.begin(), o2.cache_size) + to_str(m));
        r.tag(*c.begin() > *b.second.begin() ? "larger" : "equal");
      }
  }
  isl_union_map_free(m2);
  // The same sizes given in a file lead to the same schedule.
  bool one = !o.parallel && p.st.size() == 1;
  vector<int> given;
  for (int d = first; d <= last && one; d++) {
    one = per[d].size() == 1 && *per[d].begin() < 1000000000;
    if (one) given.push_back(*per[d].begin());
  }
  if (one) {  // as many tile loops as there are
    o2 = o;
    o2.tile = o2.find_tile_sizes = 0;
    m2 = run_transform(p, ip, o2);
    one = m2 && length(m2) + given.size() == length(m);
    isl_union_map_free(m2);
  }
  if (one) {
    o2 = o;
    o2.find_tile_sizes = 0;
    string shown;
    bool same = false;
    int combos = 1;
    for (size_t k = 0; k < given.size(); k++) combos *= 3;
    for (int c = 0; c < combos && !same; c++) {
      o2.tile_sizes = given;
      for (int k = 0, x = c; k < (int)given.size(); k++, x /= 3) o2.tile_sizes[k] *= 1 + x % 3;
      m2 = run_transform(p, ip, o2);
      same = m2 && isl_union_map_is_equal(m, m2) != isl_bool_false;
      if (!c) shown = m2 ? to_str(m2) : "(none)";
      isl_union_map_free(m2);
    }
    if (!same) r.fail("not those sizes", "chosen:\n" + to_str(m) + "\nthe same sizes in a file:\n" + shown);
    r.tag("compared_with_file");
  }
  isl_union_map_free(m);
}
static Reg a1("C22", "chosen", 3, 40, 10, [](Src &s, Result &r) { chosen(s, r, false); });
static Reg a2("C22", "chosen stencil", 3, 40, 10, [](Src &s, Result &r) { chosen(s, r, true); });
static Reg a3("C22", "chosen reuse", 5, 40, 10, [](Src &s, Result &r) { chosen(s, r, false, true); });
