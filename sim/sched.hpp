// Deterministic thread scheduler.
//
// The world and the library are compiled with -fsanitize=thread, but linked
// with this run-time instead of ThreadSanitizer's: every memory access, atomic
// operation and pthread call of the instrumented code comes here.  Real threads
// exist (so thread_local storage, its destructors and stacks are real), but
// only the one holding the baton runs; who gets it next is drawn from the
// choice stream.
#pragma once
#include <cstddef>
#include <cstdint>

namespace sim {

struct SchedStats {
  uint64_t accesses = 0;      // instrumented memory accesses
  uint64_t switches = 0;
  uint64_t preemptions = 0;   // switches that were not caused by blocking
  uint64_t threads = 0;       // created so far
  uint64_t max_live = 0;
  uint64_t schedule = 0;      // hash of (who ran, for how many sync operations)
};
extern SchedStats sched_stats;

struct SchedFaults {
  /// Bit i: the i-th thread creation from now on fails with EAGAIN.
  uint64_t creation_fails = 0;
  uint64_t creations = 0, creation_failures = 0;
  bool spurious_wakeups = false;
};
extern SchedFaults sched_faults;

/// Takes over scheduling; draws the policy of this run.
/// `span`: roughly how many accesses one thread makes.
void sched_begin(uint64_t span);
/// Index of the calling thread: 0 for the main thread, -1 if unknown.
int sched_self();
/// Threads that were created and have not finished.
int sched_live();
/// A decision point in the middle of a world's own code.
void sched_yield_point();
/// From now on the running thread is only preempted when it blocks, until the
/// object is destroyed; its accesses are not checked for races.  For the
/// harness's own shared state.
struct Quiet {
  Quiet();
  ~Quiet();
};
/// Heap bytes allocated by thread `t` that nobody has freed.
int64_t sched_heap_live(int t);
/// Heap bytes thread `t` allocated altogether.
int64_t sched_heap_total(int t);

}  // namespace sim
