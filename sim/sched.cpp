// See sched.hpp.  Compiled without instrumentation.
#include "sched.hpp"

#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <limits.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <map>
#include <unordered_map>
#include <vector>

#include "engine.hpp"
#include "seams.hpp"

namespace sim {
SchedStats sched_stats;
SchedFaults sched_faults;
// seams.cpp calls these if they are set
extern void (*heap_alloc_hook)(void*, size_t);
extern void (*heap_free_hook)(void*);

namespace {
using Clk = uint32_t;
constexpr int MAXT = 224;
int num_threads = 0;
struct VC {
  Clk c[MAXT] = {};
  void join(const VC& o) {
    for (int i = 0; i < num_threads; ++i) c[i] = std::max(c[i], o.c[i]);
  }
};

enum State { RUNNABLE, BLOCKED, FINISHED };
struct Thread {
  int id = 0;
  int go = 0;  // futex word: the baton
  State state = RUNNABLE;
  const void* waits_on = nullptr;  // what it is blocked on
  int64_t deadline = -1;           // simulated ns, or -1
  bool timed_out = false;
  bool woken = false;
  pthread_t handle{};
  pid_t tid = 0;
  bool joined = false, detached = false;
  void* (*fn)(void*) = nullptr;
  void* arg = nullptr;
  int quiet = 0;
  uint64_t prio = 0;
  VC vc;
  int64_t heap_live = 0, heap_total = 0;
};

bool active = false;      // scheduling is in force
bool tracking = false;    // more than one thread is alive
Thread* threads[MAXT];
int current = 0;
int live = 1;
pid_t leaving = 0;        // a finished thread that may not have left the kernel yet
pthread_key_t exit_key;
thread_local Thread* me = nullptr;
thread_local int in_rt = 0;  // inside the run-time

struct Rt {
  Rt() { ++in_rt; }
  ~Rt() { --in_rt; }
};

// policy
enum Policy { RANDOM, PRIORITY } policy = RANDOM;
int gap_bits = 10;        // preemption gaps up to 2^gap_bits accesses
int sync_bits = 5;        // ... and up to 2^sync_bits synchronizing operations
uint64_t sync_gap = 0;    // synchronizing operations until the next switch (0: none planned)
uint64_t gap = 0;         // accesses until the next preemption (0: none planned)
uint64_t fairness = 0;    // accesses since the last switch
uint64_t low_prio = 1u << 20;
uint64_t slice = 0;       // sync operations in this slice
constexpr uint64_t FAIR_LIMIT = 3'000'000;

long raw(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
void sleep_until_go(Thread* t) {
  while (__atomic_load_n(&t->go, __ATOMIC_ACQUIRE) == 0) raw(SYS_futex, (long)&t->go, FUTEX_WAIT_PRIVATE, 0);
  __atomic_store_n(&t->go, 0, __ATOMIC_RELAXED);
}
void await_leaving() {
  // the previous thread's stack and heap cache are gone before anyone else moves
  if (leaving) {
    pid_t pid = getpid();
    while (raw(SYS_tgkill, pid, leaving, 0) == 0) raw(SYS_sched_yield);
    leaving = 0;
  }
}

void plan_gap() {
  // 0: no preemption before the next blocking or synchronizing operation
  uint64_t k = choose(gap_bits + 1);
  gap = k == 0 ? 0 : (1ull << (k - 1)) + choose(1ull << (k - 1));
  if (policy == RANDOM) {
    k = choose(sync_bits + 1);
    sync_gap = k == 0 ? 0 : (1ull << (k - 1)) + choose(1ull << (k - 1));
  }
}

void hand_over(Thread* to) {
  Thread* self = me;
  sched_stats.switches++;
  sched_stats.schedule = mix64(sched_stats.schedule, slice * 64 + to->id);
  log(0x5000 + to->id);
  slice = 0;
  fairness = 0;
  current = to->id;
  __atomic_store_n(&to->go, 1, __ATOMIC_RELEASE);
  raw(SYS_futex, (long)&to->go, FUTEX_WAKE_PRIVATE, 1);
  if (self && self->state != FINISHED) {
    sleep_until_go(self);
    await_leaving();
  }
}

/// Threads that may run next.  A thread in a timed wait may run: its time is up.
int candidates(Thread** out, bool with_timed) {
  int n = 0;
  for (int i = 0; i < num_threads; ++i) {
    Thread* t = threads[i];
    if (t->state == RUNNABLE) out[n++] = t;
    else if (with_timed && t->state == BLOCKED && t->deadline >= 0) out[n++] = t;
  }
  return n;
}
void expire(Thread* t) {
  if (t->state != BLOCKED) return;
  if (t->deadline > clk.mono_ns) advance_ns(t->deadline - clk.mono_ns);
  t->timed_out = true;
  t->state = RUNNABLE;
  t->waits_on = nullptr;
  count("sched: timed wait expired");
}
void deadlock() {
  std::string s;
  for (int i = 0; i < num_threads; ++i)
    if (threads[i]->state == BLOCKED) s += (s.empty() ? "" : ", ") + std::to_string(i);
  fail("deadlock", "no thread can run: thread(s) %s wait for each other or for something nobody will do", s.c_str());
}

Thread* pick_next(bool must_switch) {
  Thread* c[MAXT];
  int n = candidates(c, false);
  if (must_switch) {
    int k = 0;
    for (int i = 0; i < n; ++i)
      if (c[i] != me) c[k++] = c[i];
    n = k;
  }
  if (n == 0) {
    // only waiting for time to pass
    Thread* best = nullptr;
    for (int i = 0; i < num_threads; ++i) {
      Thread* t = threads[i];
      if (t->state == BLOCKED && t->deadline >= 0 && (!best || t->deadline < best->deadline)) best = t;
    }
    if (best) {
      expire(best);
      return best;
    }
    if (must_switch && me->state == RUNNABLE) return me;
    deadlock();
  }
  if (policy == PRIORITY) {
    Thread* best = c[0];
    for (int i = 1; i < n; ++i)
      if (c[i]->prio > best->prio) best = c[i];
    return best;
  }
  // 0: keep running, or the next thread in order
  int self = 0;
  for (int i = 0; i < n; ++i)
    if (c[i] == me) self = i;
  if (me->state != RUNNABLE || must_switch) {
    self = 0;
    for (int i = 0; i < n; ++i)
      if (c[i]->id > me->id) {
        self = i;
        break;
      }
  }
  return c[(self + choose(n)) % n];
}

/// The running thread gives up the baton (or not).
void reschedule(bool must_switch) {
  Thread* next = pick_next(must_switch);
  bool voluntary = me->state != RUNNABLE;
  if (next != me) {
    if (!voluntary) sched_stats.preemptions++;
    plan_gap();
    hand_over(next);
  } else if (next == me) {
    plan_gap();
  }
}

/// Before an operation other threads can observe.
void sync_point() {
  if (!active || !me || me->quiet) return;
  Rt rt;
  slice++;
  if (live == 1 || num_threads == 1) return;
  if (policy == PRIORITY) {
    Thread* next = pick_next(false);
    if (next != me) {
      sched_stats.preemptions++;
      hand_over(next);
    }
    return;
  }
  if (sync_gap && --sync_gap == 0) reschedule(true);
}

void preempt() {
  gap = 0;
  if (me->quiet || live == 1) return;
  Rt rt;
  if (policy == PRIORITY) {
    me->prio = --low_prio;
    plan_gap();
    Thread* next = pick_next(false);
    if (next != me) {
      sched_stats.preemptions++;
      hand_over(next);
    }
    return;
  }
  reschedule(true);
}
void unfair() {
  // nobody runs forever while others can
  fairness = 0;
  if (me->quiet || live == 1) return;
  Rt rt;
  if (policy == PRIORITY) me->prio = --low_prio;
  Thread* c[MAXT];
  int n = candidates(c, true);
  Thread* next = me;
  for (int i = 0; i < n; ++i)
    if (c[i]->id > me->id) {
      next = c[i];
      break;
    }
  if (next == me)
    for (int i = 0; i < n; ++i)
      if (c[i] != me) {
        next = c[i];
        break;
      }
  if (next != me) {
    expire(next);
    sched_stats.preemptions++;
    hand_over(next);
  }
}

/// Blocks the calling thread; returns when it was woken or timed out.
void block_on(const void* what, int64_t deadline) {
  Thread* t = me;
  t->state = BLOCKED;
  t->waits_on = what;
  t->deadline = deadline;
  t->timed_out = false;
  t->woken = false;
  Thread* next = pick_next(false);
  if (next != t) {
    plan_gap();
    hand_over(next);
  }
  t->deadline = -1;
}
/// Wakes up to n threads blocked on `what`.
int wake(const void* what, int n) {
  int k = 0;
  while (k < n) {
    Thread* c[MAXT];
    int m = 0;
    for (int i = 0; i < num_threads; ++i)
      if (threads[i]->state == BLOCKED && threads[i]->waits_on == what) c[m++] = threads[i];
    if (!m) break;
    Thread* t = n >= m - k && n == INT_MAX ? c[0] : c[choose(m)];
    t->state = RUNNABLE;
    t->waits_on = nullptr;
    t->woken = true;
    ++k;
  }
  return k;
}

// ---- happens-before --------------------------------------------------------
struct AddrHash {
  size_t operator()(const void* p) const { return mix64(1, reinterpret_cast<uintptr_t>(p)); }
};
std::unordered_map<const void*, VC, AddrHash>* sync_vars;
bool fences_used = false;
VC fence_vc;

VC& sync_var(const void* p) { return (*sync_vars)[p]; }
void acquire(const void* p) {
  auto it = sync_vars->find(p);
  if (it != sync_vars->end()) me->vc.join(it->second);
}
void release(const void* p) {
  sync_var(p).join(me->vc);
  me->vc.c[me->id]++;
}
void release_store(const void* p) {
  sync_var(p) = me->vc;
  me->vc.c[me->id]++;
}

// ---- shadow memory ----------------------------------------------------------
struct Slot {
  Clk clk;
  uint8_t tid, mask, write, valid;
  uint32_t pc;  // offset from the executable's base
};
struct Cell {
  Slot s[4];
  // round robin replacement
};
struct Page {
  Cell cell[512];
  uint8_t rr[512];
};
std::unordered_map<uintptr_t, Page*>* pages;
uintptr_t cache_id[64];
Page* cache_page[64];
uintptr_t exe_base = 0;

Page* page_of(uintptr_t id, bool create) {
  size_t h = id & 63;
  if (cache_id[h] == id && cache_page[h]) return cache_page[h];
  auto it = pages->find(id);
  Page* p;
  if (it == pages->end()) {
    if (!create) return nullptr;
    p = static_cast<Page*>(mmap(nullptr, sizeof(Page), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    if (p == MAP_FAILED) harness_error("no memory for shadow pages");
    (*pages)[id] = p;
  } else {
    p = it->second;
  }
  cache_id[h] = id;
  cache_page[h] = p;
  return p;
}
std::string where(uint32_t pc) {
  Dl_info i;
  if (dladdr(reinterpret_cast<void*>(exe_base + pc), &i) && i.dli_sname) {
    int st = 0;
    char* d = abi::__cxa_demangle(i.dli_sname, nullptr, nullptr, &st);
    std::string s = d ? d : i.dli_sname;
    free(d);
    if (s.size() > 160) s = s.substr(0, 160) + "...";
    return s;
  }
  char b[32];
  snprintf(b, sizeof b, "+0x%x", pc);
  return b;
}
[[noreturn]] void report_race(const Slot& old, int size, bool write, uint32_t pc) {
  ++in_rt;
  fail("data race", "thread %d %s %d bytes in %s, unordered with thread %d, which %s them in %s", me->id, write ? "writes" : "reads", size, where(pc).c_str(), old.tid,
       old.write ? "writes" : "reads", where(old.pc).c_str());
}

inline void check_granule(uintptr_t g, uint8_t mask, int size, bool write, uint32_t pc) {
  Page* p = page_of(g >> 9, true);
  size_t ci = g & 511;
  Cell& c = p->cell[ci];
  Slot now{me->vc.c[me->id], static_cast<uint8_t>(me->id), mask, write, 1, pc};
  int place = -1;
  for (int i = 0; i < 4; ++i) {
    Slot& s = c.s[i];
    if (!s.valid) {
      if (place < 0) place = i;
      continue;
    }
    if (s.tid == now.tid) {
      if (s.clk == now.clk && s.mask == mask && s.write >= now.write) return;
      if ((s.mask & ~mask) == 0 && s.write <= now.write) {
        if (place >= 0) c.s[place].valid = c.s[place].valid;  // keep
        s.valid = 0;
        if (place < 0) place = i;
      }
      continue;
    }
    bool ordered = s.clk <= me->vc.c[s.tid];
    if ((s.mask & mask) && (s.write || write) && !ordered) report_race(s, size, write, pc);
    // an ordered access that this one covers is of no more use
    if (ordered && (s.mask & ~mask) == 0 && (write || !s.write)) {
      s.valid = 0;
      if (place < 0) place = i;
    }
  }
  if (place < 0) place = p->rr[ci]++ & 3;
  c.s[place] = now;
}
void check_range(uintptr_t a, size_t n, bool write, uint32_t pc) {
  if (!n) return;
  uintptr_t g = a >> 3, last = (a + n - 1) >> 3;
  for (; g <= last; ++g) {
    uint8_t mask = 0xff;
    if (g == a >> 3) mask &= 0xff << (a & 7);
    if (g == last) mask &= 0xff >> (7 - ((a + n - 1) & 7));
    check_granule(g, mask, n, write, pc);
  }
}
void clear_range(uintptr_t a, size_t n) {
  if (!n) return;
  uintptr_t g = a >> 3, last = (a + n - 1) >> 3;
  while (g <= last) {
    Page* p = page_of(g >> 9, false);
    if (!p) {
      g = ((g >> 9) + 1) << 9;
      continue;
    }
    memset(&p->cell[g & 511], 0, sizeof(Cell));
    ++g;
  }
}

inline bool watching() { return active && me && !in_rt; }

inline void access(const volatile void* a, size_t n, bool write, void* pc) {
  if (!active || !me || in_rt) return;
  if (me->quiet) return;
  if (!tracking) return;
  sched_stats.accesses++;
  if (gap && --gap == 0) preempt();
  else if (++fairness > FAIR_LIMIT) unfair();
  Rt rt;
  uint32_t off = static_cast<uint32_t>(reinterpret_cast<uintptr_t>(pc) - exe_base);
  uintptr_t p = reinterpret_cast<uintptr_t>(a);
  if ((p & 7) + n <= 8) check_granule(p >> 3, static_cast<uint8_t>(((1u << n) - 1) << (p & 7)), n, write, off);
  else check_range(p, n, write, off);
}

// ---- heap --------------------------------------------------------------------
struct Owner {
  int tid;
  size_t n;
};
std::unordered_map<void*, Owner, AddrHash>* owners;
uintptr_t exceptions[64];
int num_exceptions = 0;

void on_alloc(void* p, size_t) {
  if (!active || !me || in_rt || me->quiet || !p) return;
  Rt rt;
  size_t n = malloc_usable_size(p);
  (*owners)[p] = {me->id, n};
  me->heap_live += n;
  me->heap_total += n;
  if (tracking) {
    clear_range(reinterpret_cast<uintptr_t>(p), n);
  }
}
void on_free(void* p) {
  if (!active || !me || in_rt || !p) return;
  Rt rt;
  auto it = owners->find(p);
  if (it == owners->end()) return;
  size_t n = it->second.n;
  threads[it->second.tid]->heap_live -= n;
  owners->erase(it);
  if (!tracking) return;
  uintptr_t a = reinterpret_cast<uintptr_t>(p);
  bool exception = false;
  for (int i = 0; i < num_exceptions; ++i)
    if (exceptions[i] >= a && exceptions[i] < a + n) {
      exception = true;
      exceptions[i--] = exceptions[--num_exceptions];
    }
  if (!exception && !me->quiet) {
    // freeing counts as writing; the block's tail beyond the request is nobody's
    uint32_t off = static_cast<uint32_t>(reinterpret_cast<uintptr_t>(__builtin_return_address(0)) - exe_base);
    check_range(a, n, true, off);
  }
  clear_range(a, n);
  if (sync_vars->size()) {
    // synchronization objects die with their memory
    if (n <= 4096)
      for (uintptr_t q = a; q < a + n; q += 4) sync_vars->erase(reinterpret_cast<void*>(q));
  }
}

// ---- threads -------------------------------------------------------------------
template <typename F>
F real(const char* name) {
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}

void forget_stack() {
  pthread_attr_t a;
  void* lo = nullptr;
  size_t n = 0;
  if (pthread_getattr_np(pthread_self(), &a) == 0) {
    pthread_attr_getstack(&a, &lo, &n);
    pthread_attr_destroy(&a);
    // thread-local storage lies right above the stack
    uintptr_t b = reinterpret_cast<uintptr_t>(lo);
    for (uintptr_t pg = b >> 12; pg <= (b + n + 16384) >> 12; ++pg) {
      auto it = pages->find(pg);
      if (it != pages->end()) memset(it->second, 0, sizeof(Page));
    }
  }
}
void thread_exit(void*) {
  Thread* t = me;
  if (!t) return;
  ++in_rt;
  sched_stats.schedule = mix64(sched_stats.schedule, 0xe0 + t->id);
  release(t);
  t->state = FINISHED;
  live--;
  tracking = live > 1;
  wake(t, INT_MAX);
  Thread* next;
  {
    Thread* c[MAXT];
    int n = candidates(c, false);
    if (n == 0) {
      Thread* best = nullptr;
      for (int i = 0; i < num_threads; ++i) {
        Thread* q = threads[i];
        if (q->state == BLOCKED && q->deadline >= 0 && (!best || q->deadline < best->deadline)) best = q;
      }
      if (!best) deadlock();
      expire(best);
      next = best;
    } else if (policy == PRIORITY) {
      next = c[0];
      for (int i = 1; i < n; ++i)
        if (c[i]->prio > next->prio) next = c[i];
    } else {
      next = c[choose(n)];
    }
  }
  plan_gap();
  leaving = t->tid;
  me = nullptr;
  sched_stats.switches++;
  log(0x5000 + next->id);
  slice = 0;
  fairness = 0;
  current = next->id;
  __atomic_store_n(&next->go, 1, __ATOMIC_RELEASE);
  raw(SYS_futex, (long)&next->go, FUTEX_WAKE_PRIVATE, 1);
}
void* trampoline(void* p) {
  ++in_rt;
  Thread* t = static_cast<Thread*>(p);
  t->tid = raw(SYS_gettid);
  sleep_until_go(t);
  await_leaving();
  me = t;
  forget_stack();
  pthread_setspecific(exit_key, t);
  --in_rt;
  return t->fn(t->arg);
}
Thread* by_handle(pthread_t h) {
  for (int i = num_threads - 1; i >= 0; --i)
    if (threads[i]->handle == h && !threads[i]->joined && threads[i]->id != 0) return threads[i];
  return nullptr;
}

struct Mutex {
  int owner = -1;
  int depth = 0;
};
std::unordered_map<const void*, Mutex, AddrHash>* mutexes;
struct RwLock {
  int writer = -1;
  int readers = 0;
};
std::unordered_map<const void*, RwLock, AddrHash>* rwlocks;
struct Once {
  int state = 0;  // 0 new, 1 running, 2 done
};
std::unordered_map<const void*, Once, AddrHash>* onces;
std::unordered_map<const void*, Once, AddrHash>* guards;

int64_t deadline_of(clockid_t id, const timespec* t) {
  if (!t) return -1;
  int64_t ns = t->tv_sec * 1'000'000'000ll + t->tv_nsec;
  if (id == CLOCK_REALTIME) ns = clk.mono_ns + (ns - clk.wall_ns);
  return std::max<int64_t>(ns, 0);
}

int mutex_lock(pthread_mutex_t* m, int64_t deadline, bool try_only) {
  sync_point();
  Rt rt;
  for (;;) {
    Mutex& x = (*mutexes)[m];
    int kind = m->__data.__kind & 3;
    if (x.owner == -1) {
      x.owner = me->id;
      x.depth = 1;
      acquire(m);
      return 0;
    }
    if (x.owner == me->id) {
      if (kind == PTHREAD_MUTEX_RECURSIVE) {
        x.depth++;
        return 0;
      }
      if (kind == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
    }
    if (try_only) return EBUSY;
    block_on(m, deadline);
    if (me->timed_out) return ETIMEDOUT;
  }
}
int mutex_unlock(pthread_mutex_t* m) {
  {
    Rt rt;
    Mutex& x = (*mutexes)[m];
    if (x.owner != me->id) return EPERM;
    if (--x.depth > 0) return 0;
    x.owner = -1;
    release(m);
    wake(m, INT_MAX);
  }
  sync_point();
  return 0;
}
int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, int64_t deadline) {
  sync_point();
  int depth;
  {
    Rt rt;
    Mutex& x = (*mutexes)[m];
    depth = x.depth;
    x.owner = -1;
    x.depth = 0;
    release(m);
    wake(m, INT_MAX);
    if (sched_faults.spurious_wakeups && chance(1, 8)) {
      count("fault: spurious wakeup");
      reschedule(true);
    } else {
      block_on(c, deadline);
    }
  }
  bool late = me->timed_out;
  me->timed_out = false;
  Rt rt;
  for (;;) {
    Mutex& x = (*mutexes)[m];
    if (x.owner == -1) {
      x.owner = me->id;
      x.depth = depth;
      acquire(m);
      break;
    }
    block_on(m, -1);
  }
  return late ? ETIMEDOUT : 0;
}

long futex(uint32_t* addr, int op, uint32_t val, const timespec* timeout) {
  int cmd = op & FUTEX_CMD_MASK;
  if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
    sync_point();
    Rt rt;
    if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) {
      errno = EAGAIN;
      return -1;
    }
    int64_t d = -1;
    if (timeout) {
      int64_t ns = timeout->tv_sec * 1'000'000'000ll + timeout->tv_nsec;
      if (cmd == FUTEX_WAIT) d = clk.mono_ns + ns;
      else d = deadline_of((op & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC, timeout);
    }
    if (sched_faults.spurious_wakeups && chance(1, 8)) {
      count("fault: spurious wakeup");
      reschedule(true);
      errno = EINTR;
      return -1;
    }
    block_on(addr, d);
    if (me->timed_out) {
      me->timed_out = false;
      errno = ETIMEDOUT;
      return -1;
    }
    return 0;
  }
  if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
    int k;
    {
      Rt rt;
      k = wake(addr, static_cast<int>(val));
    }
    sync_point();
    return k;
  }
  harness_error("futex operation %d is not simulated", op);
}

bool mine() { return active && me && !in_rt; }
}  // namespace

// ---- public ---------------------------------------------------------------------
void sched_begin(uint64_t span) {
  sync_vars = new std::unordered_map<const void*, VC, AddrHash>;
  pages = new std::unordered_map<uintptr_t, Page*>;
  owners = new std::unordered_map<void*, Owner, AddrHash>;
  mutexes = new std::unordered_map<const void*, Mutex, AddrHash>;
  rwlocks = new std::unordered_map<const void*, RwLock, AddrHash>;
  onces = new std::unordered_map<const void*, Once, AddrHash>;
  guards = new std::unordered_map<const void*, Once, AddrHash>;
  Dl_info i;
  if (dladdr(reinterpret_cast<void*>(&sched_begin), &i)) exe_base = reinterpret_cast<uintptr_t>(i.dli_fbase);
  pthread_key_create(&exit_key, thread_exit);
  // one processor is all a baton needs
  int cpu = sched_getcpu();
  if (cpu >= 0) {
    unsigned long mask[16] = {};
    mask[cpu / 64] = 1ul << (cpu % 64);
    raw(SYS_sched_setaffinity, 0, sizeof mask, (long)mask);
  }
  mallopt(M_ARENA_MAX, 1);
  threads[0] = new Thread;
  num_threads = 1;
  me = threads[0];
  me->vc.c[0] = 1;
  me->handle = pthread_self();
  me->tid = raw(SYS_gettid);
  policy = choose(3) == 2 ? PRIORITY : RANDOM;
  sync_bits = pick({4, 2, 6, 8});
  gap_bits = 4;
  while ((1ull << gap_bits) < span) gap_bits++;
  gap_bits = std::max(4, gap_bits - static_cast<int>(choose(4)) * 3);
  sched_faults.spurious_wakeups = chance(1, 4);
  heap_alloc_hook = on_alloc;
  heap_free_hook = on_free;
  active = true;
}
int sched_self() { return me ? me->id : -1; }
int sched_live() { return live - 1; }
void sched_yield_point() { sync_point(); }
Quiet::Quiet() {
  if (me) me->quiet++;
}
Quiet::~Quiet() {
  if (me) me->quiet--;
}
int64_t sched_heap_live(int t) { return threads[t]->heap_live; }
int64_t sched_heap_total(int t) { return threads[t]->heap_total; }
}  // namespace sim

// ---- pthreads ---------------------------------------------------------------------
using namespace sim;
// no guards: these run inside the guards themselves
#define REAL(name, ...)                   \
  using F_##name = __VA_ARGS__;           \
  static F_##name f = nullptr;            \
  if (!f) f = real<F_##name>(#name)
extern "C" {

int pthread_create(pthread_t* h, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
  REAL(pthread_create, int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*));
  if (!mine()) return f(h, a, fn, arg);
  sync_point();
  ++in_rt;
  uint64_t i = sched_faults.creations++;
  if (i < 64 && (sched_faults.creation_fails >> i & 1)) {
    sched_faults.creation_failures++;
    count("fault: thread creation EAGAIN");
    --in_rt;
    return EAGAIN;
  }
  if (num_threads == MAXT) harness_error("too many threads");
  Thread* t = new Thread;
  t->id = num_threads;
  t->fn = fn;
  t->arg = arg;
  me->vc.c[me->id]++;
  t->vc = me->vc;
  t->vc.c[t->id] = 1;
  me->vc.c[me->id]++;
  if (policy == PRIORITY) t->prio = (1u << 20) + 1 + choose(1000);
  if (a) {
    int d = 0;
    pthread_attr_getdetachstate(a, &d);
    t->detached = d == PTHREAD_CREATE_DETACHED;
  }
  threads[num_threads++] = t;
  if (num_threads == 2 && policy == PRIORITY) me->prio = (1u << 20) + 1 + choose(1000);
  int rc = f(&t->handle, a, trampoline, t);
  if (rc) harness_error("pthread_create failed: %d", rc);
  *h = t->handle;
  live++;
  tracking = true;
  sched_stats.threads++;
  sched_stats.max_live = std::max<uint64_t>(sched_stats.max_live, live - 1);
  if (live == 2) plan_gap();
  --in_rt;
  sync_point();
  return 0;
}
int pthread_join(pthread_t h, void** ret) {
  REAL(pthread_join, int (*)(pthread_t, void**));
  if (!mine()) return f(h, ret);
  sync_point();
  ++in_rt;
  Thread* t = by_handle(h);
  if (!t || t == me) {
    --in_rt;
    return t ? EDEADLK : ESRCH;
  }
  while (t->state != FINISHED) block_on(t, -1);
  acquire(t);
  t->joined = true;
  int rc = f(h, ret);
  --in_rt;
  return rc;
}
int pthread_detach(pthread_t h) {
  REAL(pthread_detach, int (*)(pthread_t));
  if (mine()) {
    sync_point();
    Thread* t = by_handle(h);
    if (t) {
      t->detached = true;
      t->joined = true;
    }
  }
  return f(h);
}
int pthread_mutex_lock(pthread_mutex_t* m) {
  REAL(pthread_mutex_lock, int (*)(pthread_mutex_t*));
  return mine() ? mutex_lock(m, -1, false) : f(m);
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  REAL(pthread_mutex_trylock, int (*)(pthread_mutex_t*));
  return mine() ? mutex_lock(m, -1, true) : f(m);
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* t) {
  REAL(pthread_mutex_timedlock, int (*)(pthread_mutex_t*, const timespec*));
  return mine() ? mutex_lock(m, deadline_of(CLOCK_REALTIME, t), false) : f(m, t);
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t id, const timespec* t) {
  REAL(pthread_mutex_clocklock, int (*)(pthread_mutex_t*, clockid_t, const timespec*));
  return mine() ? mutex_lock(m, deadline_of(id, t), false) : f(m, id, t);
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  REAL(pthread_mutex_unlock, int (*)(pthread_mutex_t*));
  if (!mine() || !mutexes->count(m)) return f(m);
  return mutex_unlock(m);
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
  REAL(pthread_mutex_destroy, int (*)(pthread_mutex_t*));
  if (mine()) {
    mutexes->erase(m);
    sync_vars->erase(m);
    return 0;
  }
  return f(m);
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
  REAL(pthread_rwlock_wrlock, int (*)(pthread_rwlock_t*));
  if (!mine()) return f(m);
  sync_point();
  Rt rt;
  for (;;) {
    RwLock& x = (*rwlocks)[m];
    if (x.writer == -1 && x.readers == 0) {
      x.writer = me->id;
      acquire(m);
      acquire(reinterpret_cast<char*>(m) + 4);
      return 0;
    }
    block_on(m, -1);
  }
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
  REAL(pthread_rwlock_rdlock, int (*)(pthread_rwlock_t*));
  if (!mine()) return f(m);
  sync_point();
  Rt rt;
  for (;;) {
    RwLock& x = (*rwlocks)[m];
    if (x.writer == -1) {
      x.readers++;
      acquire(m);
      return 0;
    }
    block_on(m, -1);
  }
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) {
  REAL(pthread_rwlock_trywrlock, int (*)(pthread_rwlock_t*));
  if (!mine()) return f(m);
  sync_point();
  Rt rt;
  RwLock& x = (*rwlocks)[m];
  if (x.writer != -1 || x.readers) return EBUSY;
  x.writer = me->id;
  acquire(m);
  acquire(reinterpret_cast<char*>(m) + 4);
  return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) {
  REAL(pthread_rwlock_tryrdlock, int (*)(pthread_rwlock_t*));
  if (!mine()) return f(m);
  sync_point();
  Rt rt;
  RwLock& x = (*rwlocks)[m];
  if (x.writer != -1) return EBUSY;
  x.readers++;
  acquire(m);
  return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
  REAL(pthread_rwlock_unlock, int (*)(pthread_rwlock_t*));
  if (!mine()) return f(m);
  {
    Rt rt;
    RwLock& x = (*rwlocks)[m];
    if (x.writer == me->id) {
      x.writer = -1;
      release(m);
    } else {
      x.readers--;
      release(reinterpret_cast<char*>(m) + 4);
    }
    wake(m, INT_MAX);
  }
  sync_point();
  return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  REAL(pthread_cond_wait, int (*)(pthread_cond_t*, pthread_mutex_t*));
  return mine() ? cond_wait(c, m, -1) : f(c, m);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) {
  REAL(pthread_cond_timedwait, int (*)(pthread_cond_t*, pthread_mutex_t*, const timespec*));
  return mine() ? cond_wait(c, m, deadline_of(CLOCK_REALTIME, t)) : f(c, m, t);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t id, const timespec* t) {
  REAL(pthread_cond_clockwait, int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*));
  return mine() ? cond_wait(c, m, deadline_of(id, t)) : f(c, m, id, t);
}
int pthread_cond_signal(pthread_cond_t* c) {
  REAL(pthread_cond_signal, int (*)(pthread_cond_t*));
  if (!mine()) return f(c);
  {
    Rt rt;
    wake(c, 1);
  }
  sync_point();
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  REAL(pthread_cond_broadcast, int (*)(pthread_cond_t*));
  if (!mine()) return f(c);
  {
    Rt rt;
    wake(c, INT_MAX);
  }
  sync_point();
  return 0;
}
int pthread_cond_destroy(pthread_cond_t* c) {
  REAL(pthread_cond_destroy, int (*)(pthread_cond_t*));
  return mine() ? 0 : f(c);
}
int sem_wait(sem_t* s) {
  REAL(sem_wait, int (*)(sem_t*));
  if (!mine()) return f(s);
  sync_point();
  Rt rt;
  unsigned* v = reinterpret_cast<unsigned*>(s);
  while (*v == 0) block_on(s, -1);
  --*v;
  acquire(s);
  return 0;
}
int sem_trywait(sem_t* s) {
  REAL(sem_trywait, int (*)(sem_t*));
  if (!mine()) return f(s);
  sync_point();
  Rt rt;
  unsigned* v = reinterpret_cast<unsigned*>(s);
  if (*v == 0) {
    errno = EAGAIN;
    return -1;
  }
  --*v;
  acquire(s);
  return 0;
}
int sem_post(sem_t* s) {
  REAL(sem_post, int (*)(sem_t*));
  if (!mine()) return f(s);
  {
    Rt rt;
    ++*reinterpret_cast<unsigned*>(s);
    release(s);
    wake(s, 1);
  }
  sync_point();
  return 0;
}
int pthread_once(pthread_once_t* o, void (*fn)()) {
  REAL(pthread_once, int (*)(pthread_once_t*, void (*)()));
  if (!mine()) return f(o, fn);
  sync_point();
  for (;;) {
    {
      Rt rt;
      Once& x = (*onces)[o];
      if (*o == 2) {
        acquire(o);
        return 0;
      }
      if (x.state == 1) {
        block_on(o, -1);
        continue;
      }
      x.state = 1;
      acquire(o);
    }
    break;
  }
  struct Undo {
    pthread_once_t* o;
    bool done = false;
    ~Undo() {
      Rt rt;
      onces->erase(o);  // the flag itself says whether it is done
      if (done) *o = 2;  // so the flag means the same once its memory is reused
      release(o);
      wake(o, INT_MAX);
    }
  } undo{o};
  fn();
  undo.done = true;
  return 0;
}

int __cxa_guard_acquire(long long* g) {
  REAL(__cxa_guard_acquire, int (*)(long long*));
  if (!mine()) return f(g);
  sync_point();
  Rt rt;
  for (;;) {
    if (*reinterpret_cast<unsigned char*>(g) & 1) {
      acquire(g);
      return 0;
    }
    Once& x = (*guards)[g];
    if (x.state == 1) {
      block_on(g, -1);
      continue;
    }
    x.state = 1;
    acquire(g);
    return 1;
  }
}
void __cxa_guard_release(long long* g) {
  REAL(__cxa_guard_release, void (*)(long long*));
  if (!mine() || !guards->count(g)) return f(g);
  Rt rt;
  guards->erase(g);
  *reinterpret_cast<unsigned char*>(g) = 1;
  release(g);
  wake(g, INT_MAX);
}
void __cxa_guard_abort(long long* g) {
  REAL(__cxa_guard_abort, void (*)(long long*));
  if (!mine() || !guards->count(g)) return f(g);
  Rt rt;
  guards->erase(g);
  release(g);
  wake(g, INT_MAX);
}
void* __cxa_allocate_exception(size_t n) throw() {
  REAL(__cxa_allocate_exception, void* (*)(size_t));
  void* p = f(n);
  // their reference counts live in uninstrumented code
  if (active && num_exceptions < 64) exceptions[num_exceptions++] = reinterpret_cast<uintptr_t>(p);
  return p;
}

int sched_yield() {
  if (!mine() || me->quiet) return raw(SYS_sched_yield);
  Rt rt;
  if (live > 1) {
    if (policy == PRIORITY) me->prio = --low_prio;
    reschedule(true);
  }
  return 0;
}
int clock_nanosleep(clockid_t id, int flags, const timespec* t, timespec*) {
  int64_t ns = t->tv_sec * 1'000'000'000ll + t->tv_nsec;
  if (flags & TIMER_ABSTIME) ns = deadline_of(id, t) - clk.mono_ns;
  if (ns < 0) ns = 0;
  if (!mine()) {
    advance_ns(ns);
    return 0;
  }
  Rt rt;
  block_on(&me->go, clk.mono_ns + ns);
  me->timed_out = false;
  return 0;
}
int nanosleep(const timespec* t, timespec* rem) { return clock_nanosleep(CLOCK_MONOTONIC, 0, t, rem); }
int usleep(useconds_t us) {
  timespec t{static_cast<time_t>(us / 1000000), static_cast<long>(us % 1000000) * 1000};
  return clock_nanosleep(CLOCK_MONOTONIC, 0, &t, nullptr);
}
int get_nprocs() {
  static int n = 0;
  if (!active) return 4;
  if (!n) n = pick({4, 1, 2, 16});
  return n;
}
int get_nprocs_conf() { return get_nprocs(); }

long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_futex && mine()) return futex(reinterpret_cast<uint32_t*>(a), static_cast<int>(b), static_cast<uint32_t>(c), reinterpret_cast<const timespec*>(d));
  long r = raw(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096) {
    errno = static_cast<int>(-r);
    return -1;
  }
  return r;
}

// ---- instrumentation ----------------------------------------------------------------
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define PC __builtin_return_address(0)
#define RW(N)                                                          \
  void __tsan_read##N(void* a) { access(a, N, false, PC); }            \
  void __tsan_write##N(void* a) { access(a, N, true, PC); }            \
  void __tsan_unaligned_read##N(void* a) { access(a, N, false, PC); }  \
  void __tsan_unaligned_write##N(void* a) { access(a, N, true, PC); }  \
  void __tsan_volatile_read##N(void* a) { access(a, N, false, PC); }   \
  void __tsan_volatile_write##N(void* a) { access(a, N, true, PC); }   \
  void __tsan_unaligned_volatile_read##N(void* a) { access(a, N, false, PC); } \
  void __tsan_unaligned_volatile_write##N(void* a) { access(a, N, true, PC); }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
void __tsan_read_range(void* a, unsigned long n) { access(a, n, false, PC); }
void __tsan_write_range(void* a, unsigned long n) { access(a, n, true, PC); }
void __tsan_vptr_update(void** a, void* v) {
  if (*a != v) access(a, 8, true, PC);
}
void __tsan_vptr_read(void** a) { access(a, 8, false, PC); }

// block operations of instrumented code (linked with --wrap)
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) {
  access(s, n, false, PC);
  access(d, n, true, PC);
  return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n) {
  access(s, n, false, PC);
  access(d, n, true, PC);
  return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int v, size_t n) {
  access(d, n, true, PC);
  return __real_memset(d, v, n);
}
}

// ---- atomics ------------------------------------------------------------------------
namespace {
bool acquires(int mo) { return fences_used || (mo != __ATOMIC_RELAXED && mo != __ATOMIC_RELEASE); }
bool releases(int mo) { return fences_used || mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
void atomic_event(const volatile void* a) {
  if (tracking && me && !me->quiet) {
    sched_stats.accesses++;
    sync_point();
    // nobody yields in a loop of atomics alone, either
    if (active && !in_rt && me && ++fairness > FAIR_LIMIT / 100) unfair();
  }
}
template <typename T>
T a_load(const volatile T* a, int mo) {
  if (!mine()) return __atomic_load_n(a, __ATOMIC_SEQ_CST);
  atomic_event(a);
  Rt rt;
  T v = __atomic_load_n(a, __ATOMIC_SEQ_CST);
  if (acquires(mo)) acquire(const_cast<T*>(a));
  return v;
}
template <typename T>
void a_store(volatile T* a, T v, int mo) {
  if (!mine()) return __atomic_store_n(a, v, __ATOMIC_SEQ_CST);
  atomic_event(a);
  Rt rt;
  if (releases(mo)) release_store(const_cast<T*>(a));
  else sync_vars->erase(const_cast<T*>(a));  // a relaxed store publishes nothing
  __atomic_store_n(a, v, __ATOMIC_SEQ_CST);
}
template <typename T, typename F>
T a_rmw(volatile T* a, int mo, F f) {
  if (!mine()) return f();
  atomic_event(a);
  Rt rt;
  if (acquires(mo)) acquire(const_cast<T*>(a));
  T r = f();
  if (releases(mo)) release(const_cast<T*>(a));
  return r;
}
template <typename T>
int a_cas(volatile T* a, T* expected, T v, int mo, int fmo) {
  if (!mine()) return __atomic_compare_exchange_n(a, expected, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
  atomic_event(a);
  Rt rt;
  int ok = __atomic_compare_exchange_n(a, expected, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
  if (acquires(ok ? mo : fmo)) acquire(const_cast<T*>(a));
  if (ok && releases(mo)) release(const_cast<T*>(a));
  return ok;
}
}  // namespace
extern "C" {
#define ATOMIC(B, T)                                                                                                       \
  T __tsan_atomic##B##_load(const volatile T* a, int mo) { return a_load<T>(a, mo); }                                      \
  void __tsan_atomic##B##_store(volatile T* a, T v, int mo) { a_store<T>(a, v, mo); }                                      \
  T __tsan_atomic##B##_exchange(volatile T* a, T v, int mo) { return a_rmw<T>(a, mo, [&] { return __atomic_exchange_n(a, v, 5); }); }   \
  T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int mo) { return a_rmw<T>(a, mo, [&] { return __atomic_fetch_add(a, v, 5); }); }   \
  T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int mo) { return a_rmw<T>(a, mo, [&] { return __atomic_fetch_sub(a, v, 5); }); }   \
  T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int mo) { return a_rmw<T>(a, mo, [&] { return __atomic_fetch_and(a, v, 5); }); }   \
  T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int mo) { return a_rmw<T>(a, mo, [&] { return __atomic_fetch_or(a, v, 5); }); }     \
  T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int mo) { return a_rmw<T>(a, mo, [&] { return __atomic_fetch_xor(a, v, 5); }); }   \
  T __tsan_atomic##B##_fetch_nand(volatile T* a, T v, int mo) { return a_rmw<T>(a, mo, [&] { return __atomic_fetch_nand(a, v, 5); }); } \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* e, T v, int mo, int fmo) { return a_cas<T>(a, e, v, mo, fmo); }      \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* e, T v, int mo, int fmo) { return a_cas<T>(a, e, v, mo, fmo); }        \
  T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T e, T v, int mo, int fmo) {                                    \
    a_cas<T>(a, &e, v, mo, fmo);                                                                                           \
    return e;                                                                                                              \
  }
ATOMIC(8, uint8_t)
ATOMIC(16, uint16_t)
ATOMIC(32, uint32_t)
ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) {
  if (!mine()) return;
  atomic_event(nullptr);
  Rt rt;
  fences_used = true;
  me->vc.join(fence_vc);
  fence_vc.join(me->vc);
  me->vc.c[me->id]++;
}
void __tsan_atomic_signal_fence(int) {}
}
