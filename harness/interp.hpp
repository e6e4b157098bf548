// Executes a generated program at concrete parameter values, in a given order.
#pragma once
#include "prog.hpp"
#include <cstdint>
#include <cstring>
#include <map>
struct Instance {
  int stmt;
  std::vector<long> it, time;
};
// The instances with their times; false when there are too many or isl gave up,
// with *why set when the schedule itself is broken (not single-valued, ...).
bool instances(const GProg &p, isl_union_map *sched /* keep */, const std::vector<long> &pv, size_t limit,
               std::vector<Instance> &out, std::string *why);
struct Trace {
  std::map<std::pair<int, std::vector<long>>, uint64_t> value;  // of every instance
  std::map<std::vector<long>, uint64_t> mem;                    // (array, subscripts)
};
// ties: 0 by statement upward, 1 downward.
void execute(const GProg &p, std::vector<Instance> v, const std::vector<long> &pv, int ties, Trace &t);
std::string diff(const Trace &a, const Trace &b);
std::vector<long> gen_params(pbt::Src &s, const GProg &p, int lo, int hi);
