// Stand-in for sched.cpp: threads are scheduled by the operating system.
#include "sched.hpp"
#include <atomic>
namespace sched {
bool available() { return false; }
void begin(Mode, unsigned long, bool, const std::vector<int>&) {}
Report end() { return Report(); }
int self()
{
  static std::atomic<int> next(0);
  thread_local int id = next++;
  return id;
}
void onDeadlock(void (*)(const char*)) {}
}
