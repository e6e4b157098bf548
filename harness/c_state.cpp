// C15: what comes out depends on the program and the options only.
// C16: what is printed is what was done, and printing changes nothing.
#include "api.hpp"
#include "interp.hpp"
#include <algorithm>
#include <pthread.h>
using namespace std;
using namespace pbt;

namespace {
string text_of(isl_union_map *m) {
  if (!m) return "(none)";
  vector<string> v;
  for (isl_map *x : maps_of(m)) {
    v.push_back(to_str(x));
    isl_map_free(x);
  }
  sort(v.begin(), v.end());
  string t;
  for (auto &x : v) t += x + "\n";
  return t;
}
isl_union_map *call(const GProg &p, const IslProg &ip, PlutoContext *c, bool sched) {
  if (sched)
    return pluto_schedule(isl_union_map_copy(ip.sched), isl_union_map_copy(ip.reads), isl_union_map_copy(ip.writes), c);
  bool acc = p.with_accesses;
  return pluto_transform(isl_union_set_copy(ip.dom), isl_union_map_copy(ip.deps), acc ? isl_union_map_copy(ip.reads) : NULL,
                         acc ? isl_union_map_copy(ip.writes) : NULL, c);
}
string once(const GProg &p, const IslProg &ip, const GOpts &o, bool sched) {
  PlutoContext *c = pluto_context_alloc();
  o.apply(c);
  isl_union_map *m = call(p, ip, c, sched);
  string t = text_of(m);
  isl_union_map_free(m);
  pluto_context_free(c);
  return t;
}
OptOpts choices(Src &s) {
  OptOpts oo;
  oo.core = s.chance(1, 2);
  oo.diamond = s.chance(1, 4);
  return oo;
}
}  // namespace

static void history(Src &s, Result &r) {
  ProgOpts po;
  po.max_stmts = 4;
  int n = s.range(2, 3);
  vector<GProg> p;
  vector<GOpts> o;
  vector<bool> sched;
  for (int i = 0; i < n; i++) {
    po.stencil = s.chance(1, 4);
    p.push_back(gen_prog(s, po));
    o.push_back(gen_opts(s, choices(s)));
    if (i && s.chance(1, 3)) o[i] = o[0];
    sched.push_back(p[i].depmode != 2 && !o[i].dfp && s.chance(1, 3));
    r.desc += strf("program %d:\n", i) + p[i].describe() + o[i].describe() + (sched[i] ? " (pluto_schedule)\n" : "\n");
  }
  int steps = s.range(3, 6);
  vector<int> seq;
  for (int i = 0; i < steps; i++) seq.push_back(s.draw(n));
  seq.push_back(0);
  vector<int> how;
  for (int x : seq) {
    how.push_back(s.weighted({2, 2, 1}));
    r.desc += strf("%d%s ", x, (const char *[]){"", "(same context)", "(own isl context)"}[how.back()]);
  }
  if (describe_only()) return;
  vector<IslProg> ip(n);
  for (int i = 0; i < n; i++) {
    if (!make_isl(p[i], ip[i])) { r.st = INCONCLUSIVE; return; }
    if (ip[i].ndeps > po.max_deps) { r.st = DISCARD; return; }
  }
  vector<string> want(n);
  vector<PlutoContext *> own(n, nullptr);
  for (size_t k = 0; k < seq.size() && !r.failed(); k++) {
    int i = seq[k];
    string got;
    if (how[k] == 1) {
      if (!own[i]) own[i] = pluto_context_alloc();
      o[i].apply(own[i]);
      isl_union_map *m = call(p[i], ip[i], own[i], sched[i]);
      got = text_of(m);
      isl_union_map_free(m);
    } else if (how[k] == 2) {
      IslProg q;
      if (!make_isl(p[i], q)) continue;
      got = once(p[i], q, o[i], sched[i]);
    } else
      got = once(p[i], ip[i], o[i], sched[i]);
    if (want[i].empty()) want[i] = got;
    else if (got != want[i])
      r.fail("another result", strf("step %zu: program %d first gave\n", k, i) + want[i] + "and now\n" + got);
  }
  for (auto *c : own)
    if (c) pluto_context_free(c);
}
static Reg s1("C15", "history~", 4, 30, 20, history);

// The options are the caller's: a call leaves them as they were, so that the
// context can be used for the next program without setting them again.
static void reuse(Src &s, Result &r) {
  ProgOpts po;
  po.max_stmts = 4;
  GProg p[2];
  po.stencil = s.chance(1, 4);
  for (auto &x : p) x = gen_prog(s, po);
  GOpts o = gen_opts(s, choices(s));
  bool sc = p[0].depmode != 2 && p[1].depmode != 2 && !o.dfp && s.chance(1, 3);
  r.desc = "first program:\n" + p[0].describe() + "second program:\n" + p[1].describe() + o.describe() + (sc ? " (pluto_schedule)" : "");
  if (describe_only()) return;
  IslProg ip[2];
  for (int i = 0; i < 2; i++) {
    if (!make_isl(p[i], ip[i])) { r.st = INCONCLUSIVE; return; }
    if (ip[i].ndeps > po.max_deps) { r.st = DISCARD; return; }
  }
  string want = once(p[1], ip[1], o, sc);
  PlutoContext *c = pluto_context_alloc();
  o.apply(c);
  PlutoOptions before = *c->options;
  isl_union_map_free(call(p[0], ip[0], c, sc));
  if (memcmp(&before, c->options, sizeof before)) r.tag("options_changed");
  isl_union_map *m = call(p[1], ip[1], c, sc);
  string got = text_of(m);
  isl_union_map_free(m);
  pluto_context_free(c);
  if (got != want) r.fail("context remembers", "on its own\n" + want + "after the other program\n" + got);
}
static Reg s2("C15", "reused context~", 3, 30, 20, reuse);

namespace {
struct Job {
  const GProg *p;
  const GOpts *o;
  string got;
  bool ok = true;
  PlutoContext *c = nullptr;
};
void *work(void *v) {
  Job *j = (Job *)v;
  IslProg ip;
  if (!make_isl(*j->p, ip)) { j->ok = false; return nullptr; }
  isl_union_map *m = call(*j->p, ip, j->c, false);
  j->got = text_of(m);
  isl_union_map_free(m);
  return nullptr;
}
}  // namespace
static void threads(Src &s, Result &r) {
  ProgOpts po;
  po.max_stmts = 3;
  int n = s.range(2, 3);
  vector<GProg> p;
  vector<GOpts> o;
  OptOpts oo;
  oo.core = s.chance(1, 2);
  oo.dfp = false;
  for (int i = 0; i < n; i++) {
    po.stencil = s.chance(1, 4);
    p.push_back(gen_prog(s, po));
    o.push_back(gen_opts(s, oo));
    o[i].solver = 0;
    o[i].islsolve = 1;
    o[i].lp = 0;
    o[i].tile_sizes.clear();  // a file, common to all
    r.desc += strf("thread %d:\n", i) + p[i].describe() + o[i].describe() + "\n";
  }
  if (describe_only()) return;
  vector<string> want(n);
  for (int i = 0; i < n; i++) {
    IslProg ip;
    if (!make_isl(p[i], ip)) { r.st = INCONCLUSIVE; return; }
    if (ip.ndeps > po.max_deps) { r.st = DISCARD; return; }
    want[i] = once(p[i], ip, o[i], false);
  }
  vector<Job> j(n);
  vector<pthread_t> t(n);
  for (int i = 0; i < n; i++) {
    j[i].p = &p[i], j[i].o = &o[i];
    j[i].c = pluto_context_alloc();
    o[i].apply(j[i].c);
  }
  for (int i = 0; i < n; i++) pthread_create(&t[i], nullptr, work, &j[i]);
  for (int i = 0; i < n; i++) pthread_join(t[i], nullptr);
  for (int i = 0; i < n; i++) {
    if (j[i].ok && j[i].got != want[i]) r.fail("threads", strf("thread %d: alone\n", i) + want[i] + "together\n" + j[i].got);
    pluto_context_free(j[i].c);
  }
}
static Reg s3("C15", "threads~", 3, 20, 20, threads);

// ---- C16
namespace {
struct Parser {  // of printed affine functions with integer divisions
  const string &s;
  const map<string, long> &env;
  size_t i = 0;
  bool unknown = false, bad = false;
  Parser(const string &s, const map<string, long> &env) : s(s), env(env) {}
  char c() { return i < s.size() ? s[i] : 0; }
  long number() {
    long v = 0;
    while (isdigit(c())) v = v * 10 + (s[i++] - '0');
    return v;
  }
  long factor(long k = 1) {
    long v = 0;
    if (c() == '(') {
      i++;
      v = sum();
      if (c() != ')') bad = true;
      else i++;
    } else if (isalpha(c()) || c() == '_') {
      string n;
      while (isalnum(c()) || c() == '_' || c() == '?') n += s[i++];
      auto f = env.find(n);
      if (f == env.end()) unknown = true;
      else v = f->second;
      v *= k, k = 1;  // 3i/3 is (3i)/3
    } else
      bad = true;
    while (c() == '/') {
      i++;
      long d = number();
      if (d <= 0) bad = true;
      else v = v >= 0 ? v / d : -((-v + d - 1) / d);
    }
    return k * v;
  }
  // A leading sign belongs to the numerator: -i/32 is (-i)/32.
  long term(long sign = 1) {
    if (isdigit(c())) {
      long k = sign * number();
      if (isalpha(c()) || c() == '(' || c() == '_') return factor(k);
      return k;
    }
    return factor(sign);
  }
  long sum() {
    long v = 0;
    int sign = 1;
    if (c() == '-') sign = -1, i++;
    v = c() == '-' ? (i++, sign * term(-1)) : term(sign);
    while (!bad && (c() == '+' || c() == '-')) {
      sign = s[i++] == '-' ? -1 : 1;
      long in = c() == '-' ? (i++, -1) : 1;
      v += sign * term(in);
    }
    return v;
  }
};
}  // namespace
map<int, vector<string>> printed_schedules(const string &out);

// Whether the text has lines of the report: transformations, loops, counts.
// (Diagnoses of a transformation that could not be found may appear.)
static bool reports(const string &t) {
  for (const char *k : {"T(S", "{loop with", "loop types", "--> ", "Number of", "number of", "After ", "dimensionality", "arallel loops", "intra_tile"})
    if (t.find(k) != string::npos) return true;
  return false;
}
static void report(Src &s, Result &r, const ProgOpts &po, const OptOpts &oo) {
  GProg p = gen_prog(s, po);
  GOpts o = gen_opts(s, oo);
  vector<long> pv = gen_params(s, p, 3, 6);
  r.desc = p.describe() + o.describe();
  for (int i = 0; i < p.npar; i++) r.desc += strf(" %s=%ld", p.par[i].c_str(), pv[i]);
  if (describe_only()) return;
  IslProg ip;
  if (!make_isl(p, ip)) { r.st = INCONCLUSIVE; return; }
  if (ip.ndeps > po.max_deps) { r.st = DISCARD; return; }
  string out;
  isl_union_map *m;
  {
    CaptureStdout cap;
    GOpts o2 = o;
    o2.silent = 0;
    m = run_transform(p, ip, o2);
    fflush(stdout);
    out = cap.text();
  }
  if (!m) { r.st = TRIVIAL; return; }
  // The last transformation printed for a statement is the one returned.
  auto rows = printed_schedules(out);
  vector<Instance> inst;
  string why;
  IslLimit lim(ip.ctx, 20000000);
  if (!instances(p, m, pv, 2000, inst, &why)) { r.st = INCONCLUSIVE; return; }
  int checked = 0, unknown = 0;
  for (size_t i = 0; i < p.st.size(); i++)
    if (!rows.count(i + 1)) r.fail("not reported", strf("no transformation is printed for statement %zu\n", i + 1) + out.substr(0, 2000));
  for (auto &x : inst) {
    if (r.failed()) break;
    auto &v = rows[x.stmt + 1];
    if (v.size() != x.time.size()) {
      r.fail("number of levels", strf("statement %d: %zu printed, %zu returned\n", x.stmt + 1, v.size(), x.time.size()) + out.substr(0, 3000));
      break;
    }
    map<string, long> env;
    for (size_t d = 0; d < x.it.size(); d++) env["i" + to_string(d)] = x.it[d];
    for (int d = 0; d < p.npar; d++) env[p.par[d]] = pv[d];
    for (size_t l = 0; l < v.size(); l++) {
      Parser q(v[l], env);
      long got = q.sum();
      if (q.bad || q.i != v[l].size()) {
        r.fail("unreadable", "'" + v[l] + "'");
        break;
      }
      if (q.unknown) { unknown++; continue; }
      checked++;
      if (got != x.time[l]) {
        string at;
        for (long y : x.it) at += " " + to_string(y);
        r.fail("another transformation", strf("statement %d level %zu: '%s' is %ld at (%s ), the returned schedule has %ld\n", x.stmt + 1, l,
                                              v[l].c_str(), got, at.c_str(), x.time[l]) + to_str(m));
        break;
      }
    }
  }
  r.tag("printed_levels", checked);
  r.tag("levels_with_unknown_names", unknown);
  // Counts at the top of the report.
  auto count = [&](const char *label, long want) {
    size_t at = out.find(label);
    if (at == string::npos) return;
    long v = atol(out.c_str() + at + strlen(label));
    if (v != want) r.fail("count", strf("%s%ld instead of %ld", label, v, want));
  };
  long loops = 0;
  for (auto &t : p.st) loops += t.dim;
  count("Number of statements: ", p.st.size());
  count("Total number of loops: ", loops);
  count("Maximum domain dimensionality: ", p.maxdim);
  count("Number of parameters: ", p.npar);
  // Neither silence nor verbosity changes the result.
  string want = text_of(m);
  for (int level = 0; level < 3 && !r.failed(); level++) {
    CaptureStdout cap;
    GOpts o2 = o;
    o2.silent = level == 0;
    o2.debug = level == 1;
    o2.moredebug = level == 2;
    isl_union_map *m2 = run_transform(p, ip, o2);
    fflush(stdout);
    string t = text_of(m2);
    isl_union_map_free(m2);
    if (t != want) r.fail("verbosity", strf("with %s:\n", level == 0 ? "silent" : level == 1 ? "debug" : "moredebug") + t + "instead of\n" + want);
    if (level == 0 && reports(cap.text())) r.fail("not silent", cap.text().substr(0, 500));
  }
  isl_union_map_free(m);
  if (!r.failed() && !checked) r.st = TRIVIAL;
}
static Reg r1("C16", "report", 4, 40, 20, [](Src &s, Result &r) {
  ProgOpts po;
  po.max_stmts = 4;
  OptOpts oo;
  oo.core = true;
  report(s, r, po, oo);
});
static Reg r2("C16", "report wide~", 3, 40, 20, [](Src &s, Result &r) {
  ProgOpts po;
  po.max_stmts = 4;
  po.stencil = s.chance(1, 2);
  OptOpts oo;
  report(s, r, po, oo);
});
