// Controlled scheduler: the threads of the program under test run as
// coroutines on one OS thread; every pthread operation is a scheduling point;
// all interleavings within the bounds are enumerated by stateless depth-first
// search.  The library is compiled with -fsanitize=thread and this file
// provides the run-time, so that every memory access is checked for data races
// (vector clocks), use after free and accesses to freed blocks on every
// explored schedule.
#ifndef VP_SCHED_H__
#define VP_SCHED_H__
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sched {

struct Config {
  int preemptions = 2;     // maximal number of preemptive switches (-1: unbounded)
  int spurious = 0;        // maximal number of spurious wakeups
  long max_schedules = -1; // cap (reported), -1 none
  int max_steps = 20000;   // horizon of one execution
  bool leaks = true;       // blocks left allocated are an error
};

struct Result {
  uint64_t schedules = 0, steps = 0;
  bool failed = false, capped = false;
  std::string key, msg;       // first failure
  std::vector<int> choices;   // its schedule
  uint64_t max_depth = 0;
};

// Explores body (run as thread 0).  after() runs on the plain stack once all
// threads are done; return "" if the execution was right, else what was wrong.
// stuck() is asked when no thread can run: return true if that is legitimate.
Result explore(const Config& cfg, const std::function<void()>& body,
               const std::function<std::string()>& after,
               const std::function<bool()>& stuck = nullptr);

// usable inside body
int spawn(const std::function<void()>& fn);   // returns thread id
void join(int tid);
void yield_point();                            // an extra scheduling point
void violation(const std::string& key, const std::string& msg);
uint64_t clock();                              // number of scheduling steps so far
int self();
bool blocked_now(int tid);
// memory not subject to leak accounting (harness data)
// harness bookkeeping: accesses and allocations are not tracked in between
struct Quiet { Quiet(); ~Quiet(); };
void ignore_begin();
void ignore_end();
}
#endif
