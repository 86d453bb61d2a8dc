// Interposes the C library at the points where Sleipnir meets its environment.
#include "seams.hpp"

#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#include "engine.hpp"

namespace sim {
Clock clk;
Disk disk;
Out out;
Heap heap;
void (*heap_alloc_hook)(void*, size_t) = nullptr;
void (*heap_free_hook)(void*) = nullptr;

void advance_ns(int64_t ns) {
  clk.mono_ns += ns;
  clk.wall_ns += ns;
  add_sim_time(ns * 1e-9);
}
void jump_wall_ns(int64_t ns) { clk.wall_ns += ns; }

const DiskFile* disk_file(const char* name) {
  const DiskFile* f = nullptr;
  for (auto& d : disk.files)
    if (d.name == name) f = &d;
  return f;
}

namespace {
bool is_spy(const char* p) {
  size_t n = strlen(p);
  return n > 4 && !strcmp(p + n - 4, ".spy");
}
DiskFile* by_fd(int fd) {
  for (auto& d : disk.files)
    if (d.fd == fd && !d.closed && !d.open_failed) return &d;
  return nullptr;
}
/// Registers the opening of a simulated file; returns false on injected failure.
DiskFile* sim_open(const char* name, const char* mode) {
  size_t i = disk.files.size();
  const char* base = strrchr(name, '/');
  std::string old;
  if (mode[0] != 'w')
    if (auto* f = disk_file(base ? base + 1 : name)) old = f->data;
  disk.files.push_back({});
  DiskFile& d = disk.files.back();
  d.name = base ? base + 1 : name;
  d.data = old;
  if (i < disk.open_fails.size() && disk.open_fails[i]) {
    d.open_failed = true;
    count("fault: open fails");
    return nullptr;
  }
  return &d;
}
/// The simulator itself always has memory.
struct Quiet {
  bool armed = heap.armed;
  Quiet() { heap.armed = false; }
  ~Quiet() { heap.armed = armed; }
};
ssize_t sim_write(DiskFile& d, const void* p, size_t n) {
  Quiet quiet;
  d.write_calls++;
  log(n);
  if (disk.eintr && chance(1, 3)) {
    count("fault: write EINTR");
    errno = EINTR;
    return -1;
  }
  size_t k = n;
  if (disk.short_writes && n > 1 && chance(1, 2)) {
    k = 1 + choose(n - 1);
    if (k < n) count("fault: short write");
  }
  int64_t total = 0;
  for (auto& f : disk.files) total += f.data.size();
  if (disk.eio_after >= 0 && total + static_cast<int64_t>(k) > disk.eio_after) {
    int64_t room = disk.eio_after - total;
    if (room <= 0) {
      count("fault: write EIO");
      d.write_failures++;
      errno = EIO;
      return -1;
    }
    k = room;
  }
  if (disk.space >= 0 && total + static_cast<int64_t>(k) > disk.space) {
    int64_t room = disk.space - total;
    if (room <= 0) {
      count("fault: write ENOSPC");
      d.write_failures++;
      errno = ENOSPC;
      return -1;
    }
    k = room;
  }
  d.data.append(static_cast<const char*>(p), k);
  return k;
}

ssize_t out_write(void*, const char* p, size_t n) {
  Quiet quiet;
  out.writes++;
  switch (out.mode) {
    case Out::NORMAL:
      break;
    case Out::SLOW:
      advance_ns(out.stall_ns);
      count("fault: stdout stalls");
      break;
    case Out::FAIL:
      out.failures++;
      count("fault: stdout EIO");
      errno = EIO;
      return 0;
    case Out::FULL_AFTER:
      if (static_cast<int64_t>(out.bytes + n) > out.capacity) {
        int64_t room = out.capacity - static_cast<int64_t>(out.bytes);
        if (room <= 0) {
          out.failures++;
          count("fault: stdout ENOSPC");
          errno = ENOSPC;
          return 0;
        }
        n = room;
      }
      break;
    case Out::SHORT:
      if (n > 1) {
        n = n / 2;
        count("fault: stdout short write");
      }
      break;
  }
  out.bytes += n;
  if (out.capture && out.captured.size() < (1u << 20)) out.captured.append(p, n);
  return n;
}
int out_close(void*) { return 0; }
}  // namespace

void install_stdout(int buffering) {
  cookie_io_functions_t io{};
  io.write = out_write;
  io.close = out_close;
  FILE* f = fopencookie(nullptr, "w", io);
  if (!f) harness_error("fopencookie failed");
  setvbuf(f, nullptr, buffering == 0 ? _IONBF : buffering == 1 ? _IOLBF : _IOFBF, 4096);
  stdout = f;
}
}  // namespace sim

static bool heap_fails(size_t n) {
  using namespace sim;
  if (!heap.armed) return false;
  uint64_t i = heap.seen++;
  if ((i < heap.fail_from || i - heap.fail_from >= heap.fail_count) && n < heap.fail_size) return false;
  ++heap.failures;
  errno = ENOMEM;
  return true;
}

// ---- interposed symbols ----------------------------------------------------
extern "C" {

int clock_gettime(clockid_t id, struct timespec* ts) {
  using namespace sim;
  bool mono = id == CLOCK_MONOTONIC || id == CLOCK_MONOTONIC_RAW || id == CLOCK_MONOTONIC_COARSE || id == CLOCK_BOOTTIME;
  if (clk.active) {
    clk.mono_ns += clk.tick_ns;
    clk.wall_ns += clk.tick_ns;
    if (mono) {
      for (auto& [at, ns] : clk.stall_at_read)
        if (at == clk.mono_reads) {
          count("fault: stall inside the solver");
          advance_ns(ns);
        }
      clk.mono_reads++;
    }
    else clk.wall_reads++;
  }
  int64_t t = mono ? clk.mono_ns : clk.wall_ns;
  ts->tv_sec = t / 1'000'000'000;
  ts->tv_nsec = t % 1'000'000'000;
  return 0;
}
int gettimeofday(struct timeval* tv, void*) {
  timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
time_t time(time_t* t) {
  timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (t) *t = ts.tv_sec;
  return ts.tv_sec;
}

typedef FILE* (*fopen_t)(const char*, const char*);
static FILE* real_fopen(const char* p, const char* m) {
  static fopen_t f = reinterpret_cast<fopen_t>(dlsym(RTLD_NEXT, "fopen"));
  return f(p, m);
}
static FILE* sim_fopen(const char* path, const char* mode) {
  using namespace sim;
  if (disk.active && is_spy(path)) {
    if (heap_fails(552)) return nullptr;  // a FILE
    Quiet quiet;
    DiskFile* d = sim_open(path, mode);
    if (!d) {
      errno = EACCES;
      return nullptr;
    }
    FILE* f = real_fopen("/dev/null", mode);
    if (!f) harness_error("cannot open /dev/null");
    disk.files.back().fd = fileno(f);
    int n = 0;
    for (auto& x : disk.files) n += x.fd >= 0 && !x.closed;
    if (n > disk.max_open) disk.max_open = n;
    return f;
  }
  return real_fopen(path, mode);
}
FILE* fopen(const char* path, const char* mode) { return sim_fopen(path, mode); }
FILE* fopen64(const char* path, const char* mode) { return sim_fopen(path, mode); }

ssize_t write(int fd, const void* p, size_t n) {
  using namespace sim;
  if (disk.active)
    if (auto* d = by_fd(fd)) return sim_write(*d, p, n);
  return syscall(SYS_write, fd, p, n);
}
ssize_t writev(int fd, const struct iovec* v, int cnt) {
  using namespace sim;
  if (disk.active)
    if (auto* d = by_fd(fd)) {
      Quiet quiet;
      std::string all;
      for (int i = 0; i < cnt; ++i) all.append(static_cast<const char*>(v[i].iov_base), v[i].iov_len);
      return sim_write(*d, all.data(), all.size());
    }
  return syscall(SYS_writev, fd, v, cnt);
}
int fclose(FILE* f) {
  static auto real = reinterpret_cast<int (*)(FILE*)>(dlsym(RTLD_NEXT, "fclose"));
  bool fails = false;
  if (sim::disk.active && f) {
    sim::Quiet quiet;
    if (auto* d = sim::by_fd(fileno(f))) {
      d->closed = true;
      d->fd = -1;
      if (sim::disk.close_fails) {
        sim::count("fault: close EIO");
        fails = true;
      }
    }
  }
  int r = real(f);
  if (fails) {
    errno = EIO;
    return EOF;
  }
  return r;
}

// ---- heap ----
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
}

// Runs allocate from an arena of their own: at a fixed address, empty at the
// start of every run, so that placement - and with it the effect of a stray
// access - is the same whichever process executes the run.  Every block has a
// guard word on either side, checked when it is given back.
namespace {
constexpr uintptr_t ARENA = 0x100000000000;
constexpr size_t ARENA_SIZE = 4ull << 30;
constexpr uint64_t LIVE = 0x5a17e1b10c4a11fe, DEAD = 0xdeadb10cdeadb10c;
struct Head {
  uint64_t size;    // requested
  uint32_t cls;
  uint32_t back;    // from the payload to the start of the block
  uint64_t pad;
  uint64_t guard;
};
static_assert(sizeof(Head) == 32);
bool arena_on = false;
uintptr_t arena_top = ARENA;
void* arena_free[256];
int arena_lock = 0;
struct Lock {
  Lock() {
    while (__atomic_exchange_n(&arena_lock, 1, __ATOMIC_ACQUIRE)) {
    }
  }
  ~Lock() { __atomic_store_n(&arena_lock, 0, __ATOMIC_RELEASE); }
};
/// Size classes: multiples of 16 up to 1024, then four per power of two.
uint32_t class_of(size_t n) {
  if (n <= 1024) return (n + 15) / 16;
  int e = 63 - __builtin_clzll(n - 1);  // 2^e <= n-1 < 2^(e+1)
  uint32_t q = ((n - 1) >> (e - 2)) & 3;
  return 65 + (e - 10) * 4 + q;
}
size_t class_size(uint32_t c) {
  if (c <= 64) return c * 16;
  c -= 65;
  return (size_t{4 + c % 4 + 1} << (c / 4 + 10)) >> 2;
}
bool in_arena(const void* p) {
  auto a = reinterpret_cast<uintptr_t>(p);
  return a >= ARENA && a < ARENA + ARENA_SIZE;
}
Head* head(void* p) { return static_cast<Head*>(p) - 1; }
void* arena_alloc(size_t n, size_t align) {
  if (n > ARENA_SIZE) {
    errno = ENOMEM;
    return nullptr;
  }
  size_t need = n + sizeof(Head) + sizeof(uint64_t) + (align > 16 ? align : 0);
  uint32_t c = class_of(need);
  char* b;
  {
    Lock l;
    b = static_cast<char*>(arena_free[c]);
    if (b) {
      memcpy(&arena_free[c], b, sizeof(void*));
    } else {
      size_t s = class_size(c);
      if (s > ARENA + ARENA_SIZE - arena_top) {
        errno = ENOMEM;
        return nullptr;
      }
      b = reinterpret_cast<char*>(arena_top);
      arena_top += s;
    }
  }
  auto a = reinterpret_cast<uintptr_t>(b) + sizeof(Head);
  if (align > 16) a = (a + align - 1) & ~(align - 1);
  auto* p = reinterpret_cast<char*>(a);
  *head(p) = {n, c, static_cast<uint32_t>(p - b), 0, LIVE};
  memcpy(p + n, &LIVE, sizeof LIVE);
  return p;
}
/// Ends the run if the block's surroundings were written to.
void arena_check(void* p, const char* what) {
  Head* h = head(p);
  if (h->guard == DEAD) sim::fail("heap", "%s of a block that was given back already", what);
  if (h->guard != LIVE) sim::fail("heap", "%s of a block whose header was overwritten", what);
  if (memcmp(static_cast<char*>(p) + h->size, &LIVE, sizeof LIVE))
    sim::fail("heap", "a block of %zu bytes was written past its end", static_cast<size_t>(h->size));
}
void arena_release(void* p) {
  arena_check(p, "release");
  Head* h = head(p);
  uint32_t c = h->cls;
  char* b = static_cast<char*>(p) - h->back;
  h->guard = DEAD;
  Lock l;
  memcpy(b, &arena_free[c], sizeof(void*));
  arena_free[c] = b;
}
void* raw_alloc(size_t n, size_t align = 16) {
  if (arena_on) return arena_alloc(n, align);
  return align > 16 ? __libc_memalign(align, n) : __libc_malloc(n);
}
void raw_free(void* p) {
  if (!in_arena(p)) __libc_free(p);
  else arena_release(p);
}
size_t raw_size(void* p);
// Unseen by the race detector, which watches memcpy().
void raw_copy(void* d, const void* s, size_t n) { asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); }
void raw_set(void* d, unsigned char v, size_t n) { asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(v) : "memory"); }
}  // namespace

namespace sim {
void arena_begin() {
  void* a = mmap(reinterpret_cast<void*>(ARENA), ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (a != reinterpret_cast<void*>(ARENA)) harness_error("cannot map the arena");
  arena_on = true;
}
}  // namespace sim

extern "C" {
// Expressions that are gone must not be looked at any more.
void sim_pool_freed(void* p, size_t n) {
  if (arena_on) raw_set(p, 0xdb, n);
}
size_t malloc_usable_size(void* p) {
  static auto real = reinterpret_cast<size_t (*)(void*)>(dlsym(RTLD_NEXT, "malloc_usable_size"));
  if (!p) return 0;
  return in_arena(p) ? head(p)->size : real(p);
}
void* malloc(size_t n) {
  using namespace sim;
  if (heap_fails(n)) return nullptr;
  if (!heap.active) {
    void* p = raw_alloc(n);
    if (heap_alloc_hook) heap_alloc_hook(p, n);
    return p;
  }
  heap.allocs++;
  void* p = raw_alloc(n + heap.pad);
  if (p) memset(p, heap.fill, raw_size(p));
  return p;
}
void free(void* p) {
  using namespace sim;
  if (!p) return;
  if (heap_free_hook) heap_free_hook(p);
  if (heap.active && heap.poison) memset(p, heap.poison, raw_size(p));
  raw_free(p);
}
void* calloc(size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n) || heap_fails(n)) return nullptr;
  void* p;
  if (arena_on) {
    p = arena_alloc(n, 16);
    if (p) raw_set(p, 0, n);
  } else {
    p = __libc_calloc(a, b);
  }
  if (sim::heap_alloc_hook) sim::heap_alloc_hook(p, n);
  return p;
}
void* realloc(void* p, size_t n) {
  using namespace sim;
  if (!p) return malloc(n);
  if (heap_fails(n)) return nullptr;
  size_t old = raw_size(p), want = n + (heap.active ? heap.pad : 0);
  if (heap_alloc_hook) heap_free_hook(p);
  void* q;
  if (!arena_on && !in_arena(p)) {
    q = __libc_realloc(p, want);
    if (!q) return q;
  } else {
    q = raw_alloc(want);
    if (!q) return q;
    raw_copy(q, p, old < want ? old : want);
    raw_free(p);
  }
  if (heap_alloc_hook) heap_alloc_hook(q, n);
  if (heap.active) {
    size_t now = raw_size(q);
    size_t keep = old < n ? old : n;
    if (now > keep && keep == old) memset(static_cast<char*>(q) + keep, heap.fill, now - keep);
  }
  return q;
}
static void* sim_memalign(size_t a, size_t n) {
  using namespace sim;
  if (heap_fails(n)) return nullptr;
  void* p = raw_alloc(heap.active ? n + heap.pad : n, a);
  if (p && heap.active) memset(p, heap.fill, raw_size(p));
  if (heap_alloc_hook) heap_alloc_hook(p, n);
  return p;
}
void* memalign(size_t a, size_t n) { return sim_memalign(a, n); }
void* aligned_alloc(size_t a, size_t n) { return sim_memalign(a, n); }
int posix_memalign(void** out, size_t a, size_t n) {
  *out = sim_memalign(a, n);
  return *out ? 0 : ENOMEM;
}
}
namespace {
size_t raw_size(void* p) { return malloc_usable_size(p); }
}  // namespace
