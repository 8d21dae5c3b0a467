// Controlled scheduling of real threads, see sched.cpp.
#ifndef SCHED_HPP
#define SCHED_HPP
#include <cstddef>
#include <vector>

namespace sched {

enum Mode {
  PLAIN = 0,      // keep running until blocked
  RANDOM = 1,     // random choice at every synchronization
  PRIORITY = 2,   // random priorities with a few changes
  PREFIX = 3      // follow the given choices, then PLAIN
};

struct Point { int enabled, chosen, current; };   // current: choice that does not preempt, -1 if none

struct Report {
  long steps;
  int races;                     // pairs of unordered accesses seen in this run
  std::vector<Point> points;
};

bool available();
// starts a run; stutter: conditions may be signalled spuriously
void begin(Mode mode, unsigned long seed, bool stutter, const std::vector<int>& prefix);
Report end();
int self();                      // number of the current thread
void onDeadlock(void (*f)(const char*));
}
#endif
