// A small property-based testing engine: choice-sequence generation with
// integrated shrinking, process isolation, replay files.
#pragma once
#include <cstdint>
#include <cstdio>
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <vector>

namespace pbt {

// Every random decision of a generator goes through draw(); a case is its
// sequence of draws, and 0 is the simplest value of every draw.
struct Src {
  std::vector<uint32_t> rec;
  size_t pos = 0;
  bool replay = false;
  uint64_t st = 0;
  uint64_t next() {
    uint64_t z = (st += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  uint32_t draw(uint32_t n);  // uniform in [0, n)
  // [lo, hi], with lo the simplest.
  int range(int lo, int hi) { return lo + (int)draw((uint32_t)(hi - lo + 1)); }
  // [-m, m], with 0 the simplest and then 1, -1, 2, ...
  int signed_(int m) {
    int d = (int)draw(2 * m + 1);
    return (d & 1) ? (d + 1) / 2 : -(d / 2);
  }
  // true with probability num/den; false is the simplest.
  bool chance(int num, int den) { return (int)draw(den) >= den - num; }
  template <class T> const T &pick(const std::vector<T> &v) {
    return v[draw((uint32_t)v.size())];
  }
  // Weighted index; index 0 is the simplest.
  int weighted(const std::vector<int> &w) {
    int s = 0;
    for (int x : w) s += x;
    int d = (int)draw(s);
    for (size_t i = 0; i < w.size(); i++) {
      if (d < w[i]) return (int)i;
      d -= w[i];
    }
    return 0;
  }
};

enum Status { OK = 0, TRIVIAL = 1, DISCARD = 2, INCONCLUSIVE = 3, FAIL = 4, CRASH = 5, TIMEOUT = 6 };

struct Result {
  Status st = OK;
  std::string cls;   // class of the failure: what shrinking preserves
  std::string msg;   // details
  std::string desc;  // the input, readable
  std::string key;   // what makes the case distinct (defaults to desc)
  std::map<std::string, long> tags;  // counters for the evidence
  void fail(const std::string &c, const std::string &m) {
    if (st == FAIL) return;
    st = FAIL;
    cls = c;
    msg = m;
  }
  bool failed() const { return st == FAIL; }
  void tag(const std::string &t, long n = 1) { tags[t] += n; }
};

typedef std::function<void(Src &, Result &)> Fn;
struct Scenario {
  std::string prop, name;
  Fn fn;
  int weight;      // share of the property's cases
  int batch;       // cases per process
  double timeout;  // seconds per case
  double cost;     // relative cost (unused by the engine, for documentation)
};
std::vector<Scenario> &registry();
struct Reg {
  Reg(const char *prop, const char *name, int weight, int batch, double timeout, Fn fn) {
    registry().push_back({prop, name, fn, weight, batch, timeout, 1});
  }
};

// Redirects fd 1 to a file for the lifetime, and returns what was written.
struct CaptureStdout {
  int saved;
  FILE *f;
  CaptureStdout();
  ~CaptureStdout();
  std::string text();
};

std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
}  // namespace pbt
