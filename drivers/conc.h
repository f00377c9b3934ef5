// Interface between the instrumented operations (concops.cc) and the
// uninstrumented runtime (concrt.cc).
#pragma once
#include <string>

namespace rt {
extern thread_local int ignore;  // >0: accesses are not observed, allocations are ordinary
struct Ignore {
  Ignore() { ++ignore; }
  ~Ignore() { --ignore; }
};
}  // namespace rt

// executes call i (text `line`) in the current world; returns the JSON result
std::string conc_exec(long i, const std::string& line);
void conc_new_world();
void conc_drop_world();

// the operations are used with accesses to the threads' stacks observed
extern bool conc_watch_stacks;

// adds an event (JSON) to the history, between two scheduling points
void rt_event(const std::string& e);
void rt_point();
