// What the checks that only use the public interface share.
#pragma once
#include "prog.hpp"
// Runs pluto_transform on the program (no mention of the scheduling order, only
// domains, dependences and possibly accesses). The schedules are restricted to
// the domains. Null when Pluto returned NULL.
isl_union_map *run_transform(const GProg &p, const IslProg &ip, const GOpts &o);
isl_union_map *run_schedule(const GProg &p, const IslProg &ip, const GOpts &o);
// Empty: every dependence goes forward in time. Otherwise a description of what
// does not. *gave_up is set when isl could not tell.
std::string illegal(const IslProg &ip, isl_union_map *deps, isl_union_map *sched, bool *gave_up);
bool describe_only();

// Whether the schedule places, in one loop, statements for which the loop is a
// real one and statements for which it is a constant.
bool mixed_fusion(const GProg &p, const IslProg &ip, const GOpts &o);
bool mixed_fusion_schedule(const GProg &p, const IslProg &ip, const GOpts &o);
