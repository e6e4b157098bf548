#include "interp.hpp"
#include <algorithm>
using namespace std;
using namespace pbt;

vector<long> gen_params(Src &s, const GProg &p, int lo, int hi) {
  vector<long> v;
  for (int i = 0; i < p.npar; i++) v.push_back(s.range(lo, hi));
  return v;
}

bool instances(const GProg &p, isl_union_map *sched, const vector<long> &pv, size_t limit, vector<Instance> &out,
               string *why) {
  bool ok = true;
  for (isl_map *m : maps_of(sched)) {
    if (!ok) { isl_map_free(m); continue; }
    const char *nm = isl_map_get_tuple_name(m, isl_dim_in);
    int id = nm ? atoi(nm + 2) : -1;
    int nin = isl_map_dim(m, isl_dim_in);
    if (!nm || strncmp(nm, "S_", 2) || id < 0 || id >= (int)p.st.size() || p.st[id].dim != nin) {
      *why = "a schedule for an unknown statement: " + to_str(m);
      isl_map_free(m);
      ok = false;
      continue;
    }
    m = fix_params_map(m, p.par, pv);
    m = isl_map_set_tuple_name(m, isl_dim_in, NULL);
    isl_set *w = isl_set_flatten(isl_map_wrap(m));
    vector<vector<long>> pts;
    if (!enumerate(w, pts, limit)) { ok = false; continue; }
    for (auto &q : pts) {
      Instance x;
      x.stmt = id;
      x.it.assign(q.begin(), q.begin() + nin);
      x.time.assign(q.begin() + nin, q.end());
      out.push_back(x);
    }
    if (out.size() > limit) ok = false;
  }
  return ok;
}

static uint64_t mixh(uint64_t h, uint64_t x) {
  h ^= x + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdULL;
  return h ^ (h >> 32);
}

void execute(const GProg &p, vector<Instance> v, const vector<long> &pv, int ties, Trace &t) {
  sort(v.begin(), v.end(), [&](const Instance &a, const Instance &b) {
    if (a.time != b.time) return a.time < b.time;
    if (a.stmt != b.stmt) return ties ? a.stmt > b.stmt : a.stmt < b.stmt;
    return ties ? a.it > b.it : a.it < b.it;
  });
  auto cell = [&](const Access &a, const vector<long> &it) {
    vector<long> k = {a.arr};
    for (auto &f : a.idx) k.push_back(f.eval(it, pv));
    return k;
  };
  for (auto &x : v) {
    const GStmt &g = p.st[x.stmt];
    uint64_t h = 1000 + x.stmt;
    for (long i : x.it) h = mixh(h, i);
    for (auto &r : g.reads) {
      vector<long> k = cell(r, x.it);
      auto f = t.mem.find(k);
      uint64_t val = 7;
      if (f == t.mem.end())
        for (long i : k) val = mixh(val, i);
      else val = f->second;
      h = mixh(h, val);
    }
    t.value[{x.stmt, x.it}] = h;
    for (size_t w = 0; w < g.writes.size(); w++) t.mem[cell(g.writes[w], x.it)] = mixh(h, w);
  }
}

static string vec(const vector<long> &v) {
  string s;
  for (long x : v) s += (s.empty() ? "" : ",") + to_string(x);
  return "[" + s + "]";
}
string diff(const Trace &a, const Trace &b) {
  if (a.value.size() != b.value.size())
    return strf("%zu instances executed instead of %zu", b.value.size(), a.value.size());
  for (auto &x : a.value) {
    auto f = b.value.find(x.first);
    if (f == b.value.end()) return "S_" + to_string(x.first.first) + vec(x.first.second) + " is not executed";
    if (f->second != x.second)
      return "S_" + to_string(x.first.first) + vec(x.first.second) + " reads another value than in the original order";
  }
  if (a.mem != b.mem) {
    for (auto &x : a.mem) {
      auto f = b.mem.find(x.first);
      if (f == b.mem.end() || f->second != x.second) return "the final value of array cell " + vec(x.first) + " differs";
    }
    return "other array cells are written";
  }
  return "";
}
