#include "api.hpp"
#include <cstdlib>
#include <map>
#include <sstream>
using namespace std;
using namespace pbt;

bool describe_only() { return getenv("PBT_DESCRIBE") != nullptr; }

isl_union_map *run_transform(const GProg &p, const IslProg &ip, const GOpts &o) {
  PlutoContext *c = pluto_context_alloc();
  o.apply(c);
  if (getenv("PBT_STDOUT")) {
    c->options->silent = 0;
    c->options->debug = getenv("PBT_DEBUG") != nullptr;
  }
  bool acc = p.with_accesses;
  isl_union_map *m =
      pluto_transform(isl_union_set_copy(ip.dom), isl_union_map_copy(ip.deps), acc ? isl_union_map_copy(ip.reads) : NULL,
                      acc ? isl_union_map_copy(ip.writes) : NULL, c);
  pluto_context_free(c);
  if (m) m = isl_union_map_intersect_domain(m, isl_union_set_copy(ip.dom));
  return m;
}
isl_union_map *run_schedule(const GProg &p, const IslProg &ip, const GOpts &o) {
  PlutoContext *c = pluto_context_alloc();
  o.apply(c);
  if (getenv("PBT_STDOUT")) {
    c->options->silent = 0;
    c->options->debug = getenv("PBT_DEBUG") != nullptr;
  }
  isl_union_map *m = pluto_schedule(isl_union_map_copy(ip.sched), isl_union_map_copy(ip.reads),
                                    isl_union_map_copy(ip.writes), c);
  pluto_context_free(c);
  return m;
}

string illegal(const IslProg &ip, isl_union_map *deps, isl_union_map *sched, bool *gave_up) {
  IslLimit lim(ip.ctx, 30000000);
  string bad;
  for (isl_map *d : maps_of(deps)) {
    isl_union_map *t = isl_union_map_from_map(isl_map_copy(d));
    t = isl_union_map_apply_domain(t, isl_union_map_copy(sched));
    t = isl_union_map_apply_range(t, isl_union_map_copy(sched));
    if (isl_union_map_is_empty(t) == isl_bool_false) {
      for (isl_map *m : maps_of(t)) {
        isl_map *ge = isl_map_lex_ge(isl_space_domain(isl_map_get_space(m)));
        isl_map *x = isl_map_intersect(m, ge);
        isl_bool e = isl_map_is_empty(x);
        if (e == isl_bool_false && bad.empty()) {
          isl_basic_map *b = isl_map_sample(isl_map_copy(x));
          isl_map *sm = isl_map_from_basic_map(b);
          bad = "dependence " + to_str(d) + "\nwith times that do not increase, e.g. " + to_str(sm);
          isl_map_free(sm);
        }
        if (e == isl_bool_error) *gave_up = true;
        isl_map_free(x);
      }
    }
    isl_union_map_free(t);
    isl_map_free(d);
  }
  if (lim.hit()) {
    *gave_up = true;
    return "";
  }
  return bad;
}

// The last printed form of every statement's schedule: one entry per level.
map<int, vector<string>> printed_schedules(const string &out) {
  map<int, vector<string>> r;
  size_t at = 0;
  while ((at = out.find("T(S", at)) != string::npos) {
    int id = atoi(out.c_str() + at + 3);
    size_t b = out.find(": (", at), e = out.find('\n', at);
    at += 3;
    if (b == string::npos || e == string::npos || b > e) continue;
    string body = out.substr(b + 3, out.rfind(')', e) - b - 3);
    vector<string> v;
    stringstream ss(body);
    string x;
    while (getline(ss, x, ',')) {
      x.erase(0, x.find_first_not_of(' '));
      v.push_back(x);
    }
    r[id] = v;
  }
  return r;
}
static bool is_number(const string &x) {
  return !x.empty() && x.find_first_not_of("-0123456789") == string::npos;
}
static bool mixed(const vector<vector<string>> &ms, size_t d) {
  if (ms.size() < 2) return false;
  map<string, vector<vector<string>>> groups;
  size_t nconst = 0;
  for (auto &m : ms) {
    if (d >= m.size()) return false;
    if (is_number(m[d])) nconst++;
    groups[m[d]].push_back(m);
  }
  if (nconst == ms.size()) {
    for (auto &g : groups)
      if (mixed(g.second, d + 1)) return true;
    return false;
  }
  return nconst ? true : mixed(ms, d + 1);
}
static bool mixed_of(const string &text) {
  vector<vector<string>> v;
  for (auto &x : printed_schedules(text)) v.push_back(x.second);
  return mixed(v, 0);
}
bool mixed_fusion(const GProg &p, const IslProg &ip, const GOpts &o) {
  CaptureStdout cap;
  GOpts o2 = o;
  o2.silent = 0;
  isl_union_map_free(run_transform(p, ip, o2));
  fflush(stdout);
  return mixed_of(cap.text());
}
bool mixed_fusion_schedule(const GProg &p, const IslProg &ip, const GOpts &o) {
  CaptureStdout cap;
  GOpts o2 = o;
  o2.silent = 0;
  isl_union_map_free(run_schedule(p, ip, o2));
  fflush(stdout);
  return mixed_of(cap.text());
}
