// Pieces of work on the thread pool of the library, under many schedules.
//   pool RESULT WORKERS TASKS FAILING(bitmask) END MODE RUNS SEED BOUND
// END: get   all results are fetched, then the pool is destroyed
//      drop  the pool is destroyed, then the results are fetched
//      group results are fetched until the first failure, then the pool is destroyed
//      meet  like get, but no piece ends before as many as there are workers have started
//      two   a second batch is handed over after the first one is fetched
// MODE: os, random, priority or all (every schedule with at most BOUND preemptions)
// Every distinct sequence of events is written once, with its number of occurrences.
#include <cstdio>
#include <unistd.h>
#include <cstdlib>
#include <algorithm>
#include <condition_variable>
#include <map>
#include <mutex>
#include <sstream>
#include <stdexcept>
#include <string>
#include "sched.hpp"
#include "lib/ThreadPool.hpp"
using std::string;

static std::mutex logMutex;
static std::ostringstream events;
static string config;
static const char* resultPath;
static int base;

__attribute__((no_sanitize("thread")))
static void note(const char* op, int i, int val = 0)
{
  int w = sched::self();
  std::unique_lock<std::mutex> l(logMutex, std::defer_lock);
  if (!sched::available()) l.lock();
  else w -= w ? base : 0;
  events << ",{\"op\":\"" << op << "\",\"i\":" << i << ",\"w\":" << w << ",\"val\":" << val << "}";
}

static void dead(const char* why)
{
  FILE* f = fopen(resultPath, "a");
  fprintf(f, "%s%s,{\"op\":\"stuck\",\"i\":0,\"w\":0,\"val\":0}],\"times\":1,\"why\":\"%s\"}\n", config.c_str(), events.str().c_str(), why);
  fclose(f);
  _exit(0);
}

// how many pieces have to be started before one of them ends
static int together, started;
static std::mutex meeting;
static std::condition_variable met;

static int piece(int i, bool fails)
{
  note("start", i);
  if (together) {
    std::unique_lock<std::mutex> l(meeting);
    started++;
    met.notify_all();
    while (started < together) met.wait(l);
  }
  note("end", i, fails ? -1 : 100 + i);
  if (fails) throw std::runtime_error("piece fails");
  return 100 + i;
}

static bool fetch(std::vector<std::future<int>>& r, int i)
{
  try {
    int v = r[i].get();
    note("got", i, v);
    return true;
  }
  catch (std::future_error&) { note("got", i, -2); }
  catch (std::exception&) { note("got", i, -1); }
  return false;
}

static void once(int workers, int tasks, int failing, const string& how)
{
  std::vector<std::future<int>> r;
  started = 0;
  together = how == "meet" ? std::min(workers, tasks) : 0;
  {
    ThreadPool pool(workers);
    int first = how == "two" ? tasks / 2 : tasks;
    for (int i = 0; i < tasks; i++) {
      if (how == "two" && i == first) for (int j = 0; j < first; j++) fetch(r, j);
      note("give", i);
      bool f = i < 31 && (failing >> i & 1);
      r.emplace_back(pool.enqueue(piece, i, f));
    }
    if (how == "get" || how == "meet" || how == "two") for (int i = how == "two" ? first : 0; i < tasks; i++) fetch(r, i);
    if (how == "group") for (int i = 0; i < tasks; i++) if (!fetch(r, i)) break;
  }
  note("gone", 0);
  if (how == "drop") for (int i = 0; i < tasks; i++) fetch(r, i);
}

int main(int argc, char** argv)
{
  if (argc < 10) return 64;
  resultPath = argv[1];
  int workers = atoi(argv[2]), tasks = atoi(argv[3]), failing = atoi(argv[4]);
  string how = argv[5], mode = argv[6];
  long runs = atol(argv[7]), seed = atol(argv[8]);
  int bound = atoi(argv[9]);
  config = string("{\"G\":1,\"workers\":") + argv[2] + ",\"tasks\":" + argv[3] + ",\"failing\":" + argv[4] +
           ",\"how\":\"" + how + "\",\"ev\":[{\"op\":\"pool\",\"i\":" + argv[3] + ",\"w\":" + argv[2] + ",\"val\":0}";
  sched::onDeadlock(dead);
  std::map<string, long> seen;
  std::vector<int> prefix;
  long n = 0;
  bool more = true;
  for (; n < runs && more; n++) {
    events.str("");
    bool all = mode == "all";
    sched::begin(all ? sched::PREFIX : mode == "priority" ? sched::PRIORITY : sched::RANDOM, seed * 100003 + n,
                 !all && n % 3 == 2, prefix);
    once(workers, tasks, failing, how);
    sched::Report rep = sched::end();
    seen[events.str()]++;
    if (all) {
      // the next schedule within the bound, in depth-first order
      std::vector<sched::Point>& p = rep.points;
      std::vector<int> cost(p.size() + 1, 0);
      for (size_t i = 0; i < p.size(); i++)
        cost[i + 1] = cost[i] + (p[i].current >= 0 && p[i].chosen != p[i].current);
      more = false;
      for (int i = (int) p.size() - 1; i >= 0 && !more; i--) {
        // alternatives are tried in the order: continue, then 0, 1, ...
        std::vector<int> order;
        int deflt = p[i].current >= 0 ? p[i].current : 0;
        order.push_back(deflt);
        for (int c = 0; c < p[i].enabled; c++) if (c != deflt) order.push_back(c);
        size_t at = 0;
        while (order[at] != p[i].chosen) at++;
        if (at + 1 < order.size()) {
          int c = order[at + 1];
          if (cost[i] + (p[i].current >= 0 && c != p[i].current) > bound) continue;
          prefix.clear();
          for (int j = 0; j < i; j++) prefix.push_back(p[j].chosen);
          prefix.push_back(c);
          more = true;
        }
      }
    }
  }
  FILE* f = fopen(resultPath, "a");
  for (auto& s : seen) fprintf(f, "%s%s],\"times\":%ld}\n", config.c_str(), s.first.c_str(), s.second);
  fprintf(f, "{\"runs\":%ld,\"complete\":%s}\n", n, mode == "all" && !more ? "true" : "false");
  fclose(f);
  return 0;
}
