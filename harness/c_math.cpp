// C13: matrix operations are exact.  C17: what is printed reads back the same.
#include "pbt.hpp"
#include <cstdlib>
#include <cstring>
#include <pluto/matrix.h>
#include <pluto/pluto.h>
#include "constraints.h"
#include "math_support.h"
using namespace std;
using namespace pbt;
typedef __int128 Big;
typedef vector<vector<long>> Mat;

static string mstr(const Mat &m) {
  string s = "[";
  for (auto &r : m) {
    s += " [";
    for (long x : r) s += strf(" %ld", x);
    s += " ]";
  }
  return s + " ]";
}
static PlutoMatrix *real(const Mat &m, int nc, PlutoContext *c, Src *s = nullptr) {
  int er = s ? s->weighted({3, 1, 1}) : 0, ec = s ? s->weighted({3, 1, 1}) : 0;
  PlutoMatrix *p = pluto_matrix_alloc((int)m.size() + er, nc + ec, c);
  p->nrows = (int)m.size();
  p->ncols = nc;
  for (size_t i = 0; i < m.size(); i++)
    for (int j = 0; j < nc; j++) p->val[i][j] = m[i][j];
  return p;
}
static Mat model(const PlutoMatrix *p) {
  Mat m;
  for (int i = 0; i < (int)p->nrows; i++) m.push_back(vector<long>(p->val[i], p->val[i] + p->ncols));
  return m;
}
// Fraction-free elimination; the rank.
static int rank_of(const Mat &a, int nc) {
  vector<vector<Big>> m;
  for (auto &r : a) m.push_back(vector<Big>(r.begin(), r.end()));
  int rk = 0;
  for (int c = 0; c < nc && rk < (int)m.size(); c++) {
    int p = -1;
    for (int i = rk; i < (int)m.size(); i++)
      if (m[i][c] != 0) { p = i; break; }
    if (p < 0) continue;
    swap(m[p], m[rk]);
    for (int i = rk + 1; i < (int)m.size(); i++) {
      if (m[i][c] == 0) continue;
      Big f = m[i][c], g = m[rk][c], d = 0;
      for (int j = 0; j < nc; j++) {
        m[i][j] = m[i][j] * g - m[rk][j] * f;
        Big x = m[i][j] < 0 ? -m[i][j] : m[i][j], y = d;
        while (x) { Big t = y % x; y = x; x = t; }
        d = y;
      }
      if (d > 1)
        for (auto &x : m[i]) x /= d;
    }
    rk++;
  }
  return rk;
}
static Mat gen_mat(Src &s, int nr, int nc, int m) {
  Mat a(nr, vector<long>(nc));
  for (auto &r : a)
    for (long &x : r) x = s.chance(1, 2) ? s.signed_(m) : 0;
  // dependent rows
  if (nr >= 2 && s.chance(1, 2)) {
    int i = (int)s.draw(nr), j = (int)s.draw(nr), k = (int)s.draw(nr);
    long f = s.signed_(2), g = s.signed_(2);
    if (i != j && i != k)
      for (int c = 0; c < nc; c++) a[i][c] = f * a[j][c] + g * a[k][c];
  }
  return a;
}

static void edits(Src &s, Result &r) {
  PlutoContext *c = pluto_context_alloc();
  int nr = s.range(1, 5), nc = s.range(1, 5);
  // now and then entries that need 64 bits
  bool wide = s.chance(1, 4);
  auto val = [&]() -> long { return wide && s.chance(1, 3) ? (1L << s.range(31, 60)) + s.signed_(3) : s.signed_(9); };
  Mat m(nr, vector<long>(nc));
  for (auto &x : m)
    for (long &y : x) y = val();
  PlutoMatrix *p = real(m, nc, c, &s);
  string hist = " starting from " + mstr(m);
  int steps = s.range(1, 10), done = 0;
  for (int st = 0; st < steps && !r.failed(); st++) {
    nr = (int)m.size();
    int op = (int)s.draw(17);
    int a = nr ? (int)s.draw(nr) : 0, b = nr ? (int)s.draw(nr) : 0, x = nc ? (int)s.draw(nc) : 0, y = nc ? (int)s.draw(nc) : 0;
    const char *name = "";
    switch (op) {
    case 0: {
      name = "add row";
      int q = (int)s.draw(nr + 1);
      pluto_matrix_add_row(p, q);
      m.insert(m.begin() + q, vector<long>(nc, 0));
      break;
    }
    case 1: {
      name = "add column";
      int q = (int)s.draw(nc + 1);
      pluto_matrix_add_col(p, q);
      for (auto &w : m) w.insert(w.begin() + q, 0);
      nc++;
      break;
    }
    case 2:
      if (!nr) continue;
      name = "remove row";
      pluto_matrix_remove_row(p, a);
      m.erase(m.begin() + a);
      break;
    case 3:
      if (nc < 2) continue;
      name = "remove column";
      pluto_matrix_remove_col(p, x);
      for (auto &w : m) w.erase(w.begin() + x);
      nc--;
      break;
    case 4:
      if (!nr) continue;
      name = "interchange rows";
      pluto_matrix_interchange_rows(p, a, b);
      swap(m[a], m[b]);
      break;
    case 5:
      name = "interchange columns";
      pluto_matrix_interchange_cols(p, x, y);
      for (auto &w : m) swap(w[x], w[y]);
      break;
    case 6:
      name = "move column";
      pluto_matrix_move_col(p, x, y);
      for (auto &w : m) {
        long v = w[x];
        w.erase(w.begin() + x);
        w.insert(w.begin() + y, v);
      }
      break;
    case 7:
      if (!nr) continue;
      name = "negate row";
      pluto_matrix_negate_row(p, a);
      for (long &v : m[a]) v = -v;
      break;
    case 8:
      name = "negate";
      pluto_matrix_negate(p);
      for (auto &w : m)
        for (long &v : w) v = -v;
      break;
    case 9: {
      name = "append rows";
      Mat q(s.range(1, 3), vector<long>(nc));
      for (auto &w : q)
        for (long &v : w) v = val();
      PlutoMatrix *pq = real(q, nc, c, &s);
      pluto_matrix_add(p, pq);
      pluto_matrix_free(pq);
      m.insert(m.end(), q.begin(), q.end());
      break;
    }
    case 10: {
      name = "duplicate";
      PlutoMatrix *d = pluto_matrix_dup(p);
      bool eq = are_pluto_matrices_equal(p, d);
      if (!eq) r.fail("equal", "a duplicate is not equal\nafter" + hist);
      pluto_matrix_free(p);
      p = d;
      break;
    }
    case 11:
      if (!nr) continue;
      name = "zero row";
      pluto_matrix_zero_row(p, a);
      for (long &v : m[a]) v = 0;
      break;
    case 12:
      name = "zero column";
      pluto_matrix_zero_col(p, x);
      for (auto &w : m) w[x] = 0;
      break;
    case 13:
      name = "reverse rows";
      pluto_matrix_reverse_rows(p);
      m = Mat(m.rbegin(), m.rend());
      break;
    case 14: {
      if (wide) continue;
      name = "product";
      int k = s.range(1, 4);
      Mat q = gen_mat(s, nc, k, 5);
      PlutoMatrix *pq = real(q, k, c, &s), *res = pluto_matrix_product(p, pq);
      Mat n(nr, vector<long>(k, 0));
      long mx = 0;
      for (int i = 0; i < nr; i++)
        for (int j = 0; j < k; j++) {
          for (int t = 0; t < nc; t++) n[i][j] += m[i][t] * q[t][j];
          mx = max(mx, labs(n[i][j]));
        }
      hist += " by " + mstr(q);
      pluto_matrix_free(pq);
      pluto_matrix_free(p);
      p = res;
      m = n;
      nc = k;
      if (mx > 1000000) st = steps;
      break;
    }
    case 15: {
      name = "identity product";
      PlutoMatrix *id = pluto_matrix_identity(nc, c), *res = pluto_matrix_product(p, id);
      pluto_matrix_free(id);
      pluto_matrix_free(p);
      p = res;
      break;
    }
    case 16: {
      if (!nr) continue;
      name = "compare";
      Mat q = m;
      q[a][x] += 1;
      PlutoMatrix *pq = real(q, nc, c, &s);
      if (are_pluto_matrices_equal(p, pq)) r.fail("equal", "different matrices are equal\nafter" + hist);
      pluto_matrix_free(pq);
      break;
    }
    }
    done++;
    hist += strf("; %s %d %d %d %d", name, a, b, x, y);
    Mat g = model(p);
    if (!r.failed() && ((int)p->ncols != nc || g != m)) r.fail(name, "the result is " + mstr(g) + ", not " + mstr(m) + "\nafter" + hist);
  }
  pluto_matrix_free(p);
  pluto_context_free(c);
  r.desc = hist;
  r.tag("operations", done);
  if (!done && !r.failed()) r.st = TRIVIAL;
}
static Reg m1("C13", "edits", 2, 200, 10, edits);

static void linear(Src &s, Result &r) {
  PlutoContext *c = pluto_context_alloc();
  int nr = s.range(1, 5), nc = s.range(1, 5);
  Mat m;
  bool wide = s.chance(1, 3);
  if (wide) {  // at most two rows with products of less than 62 bits
    nr = min(nr, 2);
    int b0 = s.range(2, 55), b1 = 57 - b0;
    m.assign(nr, vector<long>(nc));
    for (int i = 0; i < nr; i++)
      for (long &x : m[i])
        if (s.chance(2, 3)) x = (s.chance(1, 2) ? -1 : 1) * ((1L << s.range(0, i ? b1 : b0)) + s.range(0, 1));
    if (nr == 2 && b1 <= 27 && s.chance(1, 3)) {
      long f = 1L << s.range(0, 55 - 2 * b1);
      for (int j = 0; j < nc; j++) m[0][j] = m[1][j] * f;
    }
  } else
    m = gen_mat(s, nr, nc, 4);
  PlutoMatrix *p = real(m, nc, c, &s);
  r.desc = mstr(m);
  int rk = rank_of(m, nc), got = (int)pluto_matrix_get_rank(p);
  if (rk != got) r.fail("rank", strf("the rank is %d, not %d: ", rk, got) + mstr(m));
  if (model(p) != m) r.fail("rank", "the matrix changed: " + mstr(m));
  // elimination of columns from the equalities given by the rows
  int what = (int)s.draw(3);
  if (what == 0 && nc >= 2) {
    int num = wide ? 1 : s.range(1, nc - 1), start = (int)s.draw(nc - num + 1);
    PlutoMatrix *q = pluto_matrix_dup(p);
    gaussian_eliminate(q, start, num);
    Mat g = model(q), full;
    r.desc += strf(" eliminate %d from %d", num, start);
    Mat cols(nr);
    for (int i = 0; i < nr; i++) cols[i].assign(m[i].begin() + start, m[i].begin() + start + num);
    int want = rk - rank_of(cols, num);
    if ((int)q->ncols != nc - num) r.fail("eliminate", "wrong number of columns: " + r.desc);
    else {
      if (rank_of(g, nc - num) != want) r.fail("eliminate", strf("the rank is %d, not %d: ", rank_of(g, nc - num), want) + r.desc + "\ngives " + mstr(g));
      full = m;
      for (auto row : g) {
        row.insert(row.begin() + start, num, 0);
        full.push_back(row);
      }
      if (rank_of(full, nc) != rk) r.fail("eliminate", "not a combination of the rows: " + r.desc + "\ngives " + mstr(g));
    }
    pluto_matrix_free(q);
  } else if (what == 1) {
    int a = (int)s.draw(nr), b = (int)s.draw(nr);
    if (wide && a == b) b = nr - 1 - a;
    if (wide && nr == 1) m[0].assign(nc, 1), fill(p->val[0], p->val[0] + nc, 1);
    r.desc += strf(" rows %d %d", a, b);
    Big dot = 0;
    bool support = true;
    for (int j = 0; j < nc; j++) {
      dot += (Big)m[a][j] * m[b][j];
      support &= !m[a][j] == !m[b][j];
    }
    bool par = support && rank_of(Mat{m[a], m[b]}, nc) <= 1;
    if (!!pluto_vector_is_parallel(p, a, p, b) != par) r.fail("parallel", strf("the rows are %sparallel: ", par ? "" : "not ") + r.desc);
    if (!!pluto_vector_is_normal(p, a, p, b) != (dot == 0)) r.fail("normal", strf("the rows are %snormal: ", dot == 0 ? "" : "not ") + r.desc);
    int64_t *ml = min_lexical(p->val[a], p->val[b], nc);
    Mat two = {vector<long>(ml, ml + nc)};
    if (two[0] != min(m[a], m[b])) r.fail("lexical minimum", "wrong row: " + r.desc);
  } else {
    bool wide = s.chance(1, 2);
    auto val = [&](int bits) { return (s.chance(1, 2) ? -1 : 1) * (s.chance(1, 2) ? 1L << s.range(0, bits) : (long)(((uint64_t)s.draw(1u << 30) << 32 | s.draw(1u << 30)) >> (62 - bits))); };
    long a = wide ? val(61) : s.signed_(2000), b = wide ? val(61) : s.signed_(2000);
    if (wide && s.chance(1, 2)) {  // a common factor
      long g = labs(val(30));
      a = val(30) * g, b = val(30) * g;
    }
    long x = labs(a), y = labs(b);
    while (y) { long t = x % y; x = y; y = t; }
    r.desc += strf(" gcd %ld %ld", a, b);
    if (gcd(a, b) != x) r.fail("gcd", strf("gcd(%ld, %ld) = %ld", a, b, (long)gcd(a, b)));
    Big l = x ? (Big)(a / x) * b : 0;
    if (l < 0) l = -l;
    if (l >> 62 == 0 && labs(lcm(a, b)) != (long)l) r.fail("lcm", strf("lcm(%ld, %ld) = %ld", a, b, (long)lcm(a, b)));
  }
  pluto_matrix_free(p);
  pluto_context_free(c);
}
static Reg m2("C13", "linear", 3, 300, 10, linear);

// ---- C17 ----
// Parses a sum of terms [sign][coefficient]name and [sign]constant.
static bool parse_affine(const string &t, const vector<string> &vars, vector<long> &f) {
  f.assign(vars.size() + 1, 0);
  size_t i = 0;
  if (t.empty()) return false;
  while (i < t.size()) {
    long sg = 1, n = 1;
    bool sign = false, num = false;
    if (t[i] == '+' || t[i] == '-') sg = t[i] == '-' ? -1 : 1, i++, sign = true;
    if (!sign && i) return false;
    size_t b = i;
    unsigned long v = 0;
    while (i < t.size() && isdigit(t[i])) v = v * 10 + (t[i++] - '0'), num = true;
    if (num) n = (long)v;
    b = i;
    while (i < t.size() && t[i] != '+' && t[i] != '-') i++;
    string name = t.substr(b, i - b);
    if (name.empty()) {
      if (!num) return false;
      f[vars.size()] += sg * n;
      continue;
    }
    size_t k = 0;
    while (k < vars.size() && vars[k] != name) k++;
    if (k == vars.size()) return false;
    f[k] += sg * n;
  }
  return true;
}
static long wide(Src &s) {
  switch (s.weighted({6, 2, 1})) {
  case 0: return s.signed_(3);
  case 1: return s.signed_(999);
  default: return (s.chance(1, 2) ? -1 : 1) * ((1L << s.range(10, 60)) + s.range(0, 9));
  }
}
static string read_all(FILE *f) {
  string t;
  rewind(f);
  char b[4096];
  size_t n;
  while ((n = fread(b, 1, sizeof b, f)) > 0) t.append(b, n);
  return t;
}
static void printing(Src &s, Result &r) {
  PlutoContext *c = pluto_context_alloc();
  int what = (int)s.draw(4);
  if (what <= 1) {
    int nd = s.range(0, 5);
    bool named = s.chance(2, 3);
    vector<string> vars;
    vector<const char *> cv;
    static const char *pool[] = {"i", "j", "k", "N", "tile", "outer_iter", "a_rather_long_parameter_name", "t1"};
    for (int i = 0; i < nd; i++) vars.push_back(named ? strf("%s_%c", pool[s.draw(8)], 'a' + i) : strf("x%d", i + 1));
    for (auto &v : vars) cv.push_back(v.c_str());
    vector<int64_t> f;
    vector<long> want;
    for (int i = 0; i <= nd; i++) {
      long v = s.chance(2, 3) ? wide(s) : 0;
      f.push_back(v);
      want.push_back(v);
    }
    r.desc = what ? "print" : "sprint";
    for (int i = 0; i <= nd; i++) r.desc += strf(" %ld%s", want[i], i < nd ? vars[i].c_str() : "");
    string t;
    if (what) {
      FILE *fp = tmpfile();
      pluto_affine_function_print(fp, f.data(), nd, named ? cv.data() : NULL);
      t = read_all(fp);
      fclose(fp);
    } else {
      char *o = pluto_affine_function_sprint(f.data(), nd, named ? cv.data() : NULL);
      t = o;
      free(o);
    }
    vector<long> got;
    if (!parse_affine(t, vars, got) || got != want) r.fail("affine function", "printed as \"" + t + "\": " + r.desc);
  } else if (what == 2) {
    int nr = s.range(0, 4), nc = s.range(1, 4);
    Mat m(nr, vector<long>(nc));
    for (auto &x : m)
      for (long &y : x) y = wide(s);
    PlutoMatrix *p = real(m, nc, c, &s);
    r.desc = "matrix " + mstr(m);
    FILE *fp = tmpfile();
    pluto_matrix_print(fp, p);
    string t = read_all(fp);
    rewind(fp);
    PlutoMatrix *q = pluto_matrix_input(fp, c);
    if ((int)q->ncols != nc || model(q) != m) r.fail("matrix", "printed as\n" + t + r.desc);
    fclose(fp);
    pluto_matrix_free(q);
    pluto_matrix_free(p);
  } else {
    int nr = s.range(1, 5), nc = s.range(1, 5);
    PlutoConstraints *p = pluto_constraints_alloc(nr, nc, c);
    p->nrows = nr;
    r.desc = "constraints";
    for (int i = 0; i < nr; i++) {
      p->is_eq[i] = s.chance(1, 3);
      for (int j = 0; j < nc; j++) p->val[i][j] = wide(s), r.desc += strf(" %ld", (long)p->val[i][j]);
      r.desc += p->is_eq[i] ? " = 0" : " >= 0";
    }
    FILE *fp = tmpfile();
    pluto_constraints_print_polylib(fp, p);
    string t = read_all(fp);
    rewind(fp);
    PlutoConstraints *q = pluto_constraints_read(fp, c);
    bool ok = q && q->nrows == p->nrows && q->ncols == p->ncols;
    for (int i = 0; ok && i < nr; i++) {
      ok &= !q->is_eq[i] == !p->is_eq[i];
      for (int j = 0; j < nc; j++) ok &= q->val[i][j] == p->val[i][j];
    }
    if (!ok) r.fail("constraints", "printed as\n" + t + r.desc);
    fclose(fp);
    pluto_constraints_free(q);
    pluto_constraints_free(p);
  }
  pluto_context_free(c);
}
static Reg q1("C17", "values", 2, 200, 10, printing);

// Constraint systems in each of the textual forms, lists included.
static void texts(Src &s, Result &r) {
  PlutoContext *c = pluto_context_alloc();
  int form = (int)s.draw(5);  // compact, pretty, cplex, rows, names read
  static const char *form_name[] = {"compact", "pretty", "cplex", "rows", "names"};
  int nl = form == 0 || form == 3 ? s.range(1, 3) : 1;
  int nv = s.range(1, 5);
  bool named = s.chance(2, 3);
  static const char *pool[] = {"i", "j", "k", "N", "tile", "outer_iter", "a_rather_long_parameter_name", "t1"};
  vector<string> vars;
  for (int i = 0; i < nv; i++)
    vars.push_back(named ? strf("%s_%c", pool[s.draw(8)], 'a' + i) : form == 2 ? strf("c_%d", i) : strf("c_%c", 'i' + i));
  vector<pair<bool, vector<long>>> want;
  PlutoConstraints *p = NULL, *last = NULL;
  r.desc = form_name[form];
  for (int l = 0; l < nl; l++) {
    int nr = s.range(1, 4);
    PlutoConstraints *q = pluto_constraints_alloc(nr + s.draw(3), nv + 1 + s.draw(3), c);
    q->nrows = nr;
    q->ncols = nv + 1;
    for (int i = 0; i < nr; i++) {
      q->is_eq[i] = s.chance(1, 3);
      vector<long> v;
      bool zero = true;
      for (int j = 0; j <= nv; j++) {
        v.push_back(s.chance(2, 3) ? wide(s) : 0);
        zero &= j == nv || !v[j];
      }
      // this form has no constraint without variables
      if (form == 2 && zero) v[0] = 1;
      r.desc += "{";
      for (int j = 0; j <= nv; j++) q->val[i][j] = v[j], r.desc += strf(" %ld%s", v[j], j < nv ? vars[j].c_str() : "");
      r.desc += q->is_eq[i] ? " = 0}" : " >= 0}";
      want.push_back({q->is_eq[i] != 0, v});
    }
    if (named) {
      vector<char *> cv;
      for (auto &v : vars) cv.push_back((char *)v.c_str());
      pluto_constraints_set_names_range(q, cv.data(), 0, 0, nv);
    }
    if (last) last->next = q;
    else p = q;
    last = q;
  }
  FILE *fp = tmpfile();
  if (form == 4) {
    // written by us in the documented format, with the names after it
    fprintf(fp, "%d %d\n", p->nrows, p->ncols + 1);
    for (unsigned i = 0; i < p->nrows; i++) {
      fprintf(fp, "%d", p->is_eq[i] ? 0 : 1);
      for (unsigned j = 0; j < p->ncols; j++) fprintf(fp, " %ld", (long)p->val[i][j]);
      fprintf(fp, "\n");
    }
    if (named) {
      fprintf(fp, "%d\n", nv);
      for (auto &v : vars) fprintf(fp, "%s ", v.c_str());
    }
    rewind(fp);
    PlutoConstraints *q = pluto_constraints_read(fp, c);
    bool ok = q && q->nrows == p->nrows && q->ncols == p->ncols && !q->names == !named;
    for (unsigned i = 0; ok && i < q->nrows; i++) {
      ok &= !q->is_eq[i] == !p->is_eq[i];
      for (unsigned j = 0; j < q->ncols; j++) ok &= q->val[i][j] == p->val[i][j];
    }
    for (int i = 0; ok && named && i < nv; i++) ok &= vars[i] == q->names[i];
    if (!ok) r.fail("reading constraints", r.desc);
    pluto_constraints_free(q);
  } else {
    if (form == 0) pluto_constraints_compact_print(fp, p);
    if (form == 1) pluto_constraints_pretty_print(fp, p);
    if (form == 2) pluto_constraints_cplex_print(fp, p);
    if (form == 3) pluto_constraints_print(fp, p);
    string t = read_all(fp);
    vector<pair<bool, vector<long>>> got;
    bool ok = true;
    size_t b = 0;
    while (b < t.size()) {
      size_t e = t.find('\n', b);
      if (e == string::npos) e = t.size();
      string l = t.substr(b, e - b);
      b = e + 1;
      size_t q = l.find('=');
      if (q == string::npos || l[0] == '[') continue;
      bool eq = !(q && l[q - 1] == '>');
      string rhs = l.substr(q + (l[q + 1] == '=' ? 2 : 1)), lhs = l.substr(0, eq ? q : q - 1);
      vector<long> f;
      if (form == 3) {
        const char *x = lhs.c_str();
        char *y;
        for (;;) {
          long v = strtol(x, &y, 10);
          if (y == x) break;
          f.push_back(v);
          x = y;
        }
      } else {
        string k;
        for (char ch : lhs)
          if (!isspace(ch)) k += ch;
        ok &= parse_affine(k, vars, f);
      }
      long v = strtol(rhs.c_str(), NULL, 10);
      if (f.size()) f.back() -= v;
      got.push_back({eq, f});
    }
    if (!ok || got != want) r.fail(strf("constraints, %s", form_name[form]), "printed as\n" + t + r.desc);
  }
  fclose(fp);
  pluto_constraints_free(p);
  pluto_context_free(c);
}
static Reg q2("C17", "texts", 2, 200, 10, texts);
