// The simulated environment: clocks, disk, standard output, heap.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>

namespace sim {

// ---- clocks --------------------------------------------------------------
/// Simulated monotonic time (ns).  Moves only through advance() and by
/// tick_ns per read.
struct Clock {
  bool active = false;      // false: clock_gettime reads 1 s, constant
  int64_t mono_ns = 1'000'000'000;
  int64_t wall_ns = 1'700'000'000'000'000'000;
  int64_t tick_ns = 0;      // added by every read of either clock
  uint64_t mono_reads = 0, wall_reads = 0;
  /// The process stalls right before the monotonic read with this number.
  std::vector<std::pair<uint64_t, int64_t>> stall_at_read;
  void reset_reads() { mono_reads = wall_reads = 0; }
};
extern Clock clk;
void advance_ns(int64_t ns);              // both clocks
void jump_wall_ns(int64_t ns);            // wall clock only
inline void advance(double s) { advance_ns(static_cast<int64_t>(s * 1e9)); }

// ---- simulated disk (files named *.spy) -----------------------------------
struct DiskFile {
  std::string name;
  std::string data;       // what reached the disk
  bool open_failed = false;
  bool closed = false;
  int write_calls = 0, write_failures = 0;
  int fd = -1;
};
struct Disk {
  bool active = false;
  std::vector<DiskFile> files;   // in order of opening
  // faults
  std::vector<bool> open_fails;  // by order of opening
  int64_t space = -1;            // bytes until ENOSPC, over all files (-1: unlimited)
  int64_t eio_after = -1;        // bytes until EIO
  bool short_writes = false;     // writes are cut short (choose())
  bool eintr = false;            // writes are sometimes interrupted (choose())
  bool close_fails = false;      // fclose reports an error
  int max_open = 0;
};
extern Disk disk;
const DiskFile* disk_file(const char* name);

// ---- standard output -------------------------------------------------------
struct Out {
  enum Mode { NORMAL, SLOW, FAIL, FULL_AFTER, SHORT } mode = NORMAL;
  int64_t stall_ns = 0;     // simulated time per write (SLOW)
  int64_t capacity = 0;     // FULL_AFTER
  uint64_t bytes = 0, writes = 0, failures = 0;
  std::string captured;     // first 1 MB
  bool capture = false;
};
extern Out out;
/// Replaces stdout by the simulated stream.  Buffering: 0 none, 1 line, 2 full.
void install_stdout(int buffering);
/// Clears a broken stdout stream and installs a fresh one.

// ---- heap ------------------------------------------------------------------
struct Heap {
  bool active = false;
  unsigned char fill = 0;    // pattern written into fresh allocations
  unsigned char poison = 0;  // pattern written into freed blocks
  size_t pad = 0;            // extra bytes per allocation (moves placement)
  uint64_t allocs = 0;
  // failing allocations (while armed)
  bool armed = false;
  uint64_t seen = 0;          // allocations since arming
  uint64_t fail_from = ~0ull, fail_count = 0;  // which of them fail
  size_t fail_size = ~0ull;   // those of at least this size fail, too
  uint64_t failures = 0;
};
extern Heap heap;
/// From here on this process allocates from an arena at a fixed address.
void arena_begin();

}  // namespace sim
