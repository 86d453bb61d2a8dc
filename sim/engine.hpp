// Deterministic-simulation engine: choice stream, run log, violations.
//
// A run is a pure function of its choice stream.  Every decision of a run
// (problem, workload, fault, schedule) is drawn with choose(); 0 is always the
// simplest alternative, which is what minimisation moves towards.
#pragma once

#include <cstdarg>
#include <cstdint>
#include <cstring>
#include <initializer_list>
#include <string>
#include <vector>

namespace sim {

/// What a world (one property's simulated system) tells the driver.
struct WorldInfo {
  const char* property;
  const char* rule;            // how runs are made, what makes one non-trivial
  const char* real_components;
  const char* stub_components;
  const char* state_measure;   // what sig() hashes
  uint64_t quick_runs;
  uint64_t thorough_runs;
};
extern const WorldInfo world;

/// Executes one run (defined by the world).
void run_world();

// ---- choices -------------------------------------------------------------
uint64_t choose(uint64_t n);
/// True with probability num/den; choice 0 means false.
inline bool chance(unsigned num, unsigned den) { return choose(den) + num >= den && num > 0; }
/// lo + choose(hi-lo+1)
inline int range(int lo, int hi) { return lo + static_cast<int>(choose(hi - lo + 1)); }
template <typename T>
T pick(std::initializer_list<T> l) { return *(l.begin() + choose(l.size())); }
template <typename C>
auto& pick_from(C& c) { return c[choose(c.size())]; }

// ---- recording -----------------------------------------------------------
/// Mixes an observation into the run's event-log hash.
void log(uint64_t v);
inline void logd(double d) { uint64_t u; std::memcpy(&u, &d, 8); log(u); }
void log_bytes(const void* p, size_t n);
/// Adds to the counter `name` (fault kinds that fired, probes that were hit).
void count(const char* name, uint64_t by = 1);
/// Records a reached state for the distinct-state measure.
void sig(uint64_t s);
/// Appends to the human-readable schedule and fault trace.
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void nontrivial();
void add_sim_time(double seconds);
/// Reports a violation of the world's property and ends the run.
[[noreturn]] void fail(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
/// Ends the run as uninteresting.
[[noreturn]] void discard(const char* why);
/// Reports an error of the harness itself (exit code 2 of the check).
[[noreturn]] void harness_error(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
/// True when executed by --replay/minimisation with notes kept.
uint64_t run_seed();

inline uint64_t mix64(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  h ^= h >> 32;
  return h;
}

}  // namespace sim
