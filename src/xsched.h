// Controlled scheduler: exhaustive exploration of the thread interleavings of
// real, unmodified code.
//
// The library under test is compiled with -fsanitize=thread but linked with
// the runtime in xsched.cc instead of libtsan.  One thread runs at a time; at
// every synchronisation operation (atomic operation on a location that two
// threads use, lock, condition variable, join, once, guard, futex) the
// runtime decides who goes on, and Explore() enumerates all the decisions up
// to a preemption bound, one forked process per schedule.  On every schedule
// the runtime checks for data races (vector clocks that honour the memory
// orders in the code), use after release, double release, leaks, deadlock and
// non-termination, and the scenario compares its results with those of the
// same operations alone.
#pragma once
#include <cstddef>
#include <cstdint>

namespace sched {

struct Config {
  int preemptions{2};    // per schedule
  // If not negative: bound the delays instead (every deviation from running the
  // current thread, then the next enabled one in round-robin order, costs one
  // delay per thread skipped), which also limits the choices at blocking points.
  int delays{-1};
  int spurious{0};       // spurious wakeups per schedule
  long max_schedules{0};  // 0: no limit
  long max_steps{20000};
  bool leaks{true};
  // A thread that yields after finding nothing to do goes on only once another
  // thread has written to a synchronisation location; when all threads wait
  // like that, nothing can ever happen again and "livelock" is reported.
  bool fair_spin{false};
  // Whether adding to or subtracting from an atomic on the heap (a reference
  // count) is a scheduling point.  If not, it still orders accesses.
  bool counts{true};
  // Of the schedules, only those whose first deviation from the first choice is
  // at a position congruent to `shard` (and the default one in shard 0).
  int shard{0}, shards{1};
  bool keep_shared{false};  // start from the shared locations of the last call
};

struct Run {
  const char* out;   // what the scenario reported through Out()
  size_t out_len;
  const char* fail;  // nullptr, or what the runtime detected
  const char* msg;
  const char* schedule;
};

struct Stats {
  long schedules{0};
  long steps{0};      // scheduling points passed, over all schedules
  long choices{0};    // decisions with more than one option
  long accesses{0};   // memory accesses checked
  long shared{0};     // synchronisation locations found to be shared
  int restarts{0};
  int max_depth{0};
  bool complete{true};
};

// Runs body(arg) once per schedule.  `on` is called after every schedule and
// returns false to stop.
Stats Explore(const Config& cfg, void (*body)(void*), void* arg,
              bool (*on)(void*, const Run&), void* on_arg);

// Called by the body: threads created between Begin and End are controlled.
// WaitAll blocks until every other thread has finished.
void Begin();
void WaitAll();
void End();
bool Active();
int Self();             // index of the calling thread; 0 is the scenario's main thread
bool Joining(int thread);  // that thread is blocked in a join
void Point();           // an extra scheduling point (all threads that call it conflict)
void Out(const char* text, size_t n);
// The scenario itself found something wrong: ends this schedule.
void Failure(const char* kind, const char* msg);
// Runs f(arg) in the calling thread without tracking accesses (harness bookkeeping).
struct Untracked {
  Untracked();
  ~Untracked();
};
}  // namespace sched
