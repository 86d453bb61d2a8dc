// C01, C02: multistart under a simulated thread scheduler.
#include <algorithm>
#include <cmath>
#include <memory>
#include <numeric>
#include <set>
#include <stdexcept>
#include <thread>
#include <vector>

#include <Eigen/Core>
#include <sleipnir/autodiff/variable.hpp>
#include <sleipnir/optimization/multistart.hpp>
#include <sleipnir/optimization/problem.hpp>

#include "engine.hpp"
#include "sched.hpp"
#include "seams.hpp"

namespace sim {

#ifdef WORLD_C01
#define PROPERTY "C01"
constexpr bool FAULTS = false;
#else
#define PROPERTY "C02"
constexpr bool FAULTS = true;
#endif

const WorldInfo world = {
    PROPERTY,
#ifdef WORLD_C01
    "each run draws a list of 1 to 40 guesses, some equal, of one of 4 types with statuses, costs and run times (scripted, sleeping, or real solves), and calls multistart under 2 to 4 different seeded "
    "schedules and list orders, sometimes nested; non-trivial: at least two solves overlapped; distinct = distinct event-log hashes",
#else
    "each run draws a list of 1 to 40 guesses, some equal, of one of 4 types and calls multistart under a seeded schedule in which solves throw, guesses throw while being copied, and thread creation "
    "fails at any point, sometimes nested; non-trivial: a fault fired or at least two solves overlapped; distinct = distinct event-log hashes",
#endif
    "multistart, function_ref, libstdc++ futures and threads, Problem and solvers in some solves",
    "thread scheduler, pthread and futex primitives, clocks, thread creation failures",
    "hash of the schedule (who ran, for how many synchronizing operations) and of the list of statuses",
    6000, 600000};

namespace {
using slp::ExitStatus;

struct Boom : std::runtime_error {
  int id;
  explicit Boom(int i) : std::runtime_error("boom"), id(i) {}
};
struct CopyBoom {};

struct Script {
  int id;
  ExitStatus status;
  double cost;
  int work;        // accesses
  int pause;       // simulated ms slept half way
  bool throws;
  int real;        // 0: scripted, else a real solve
  int nested;      // guesses of a nested multistart
};
struct Call {
  int script;
  int thread;
  bool ended;
  ExitStatus status;
  double cost;
  uint64_t result;  // hash of the variables it returned
};

// The harness's own record, touched only under Quiet.
struct Record {
  std::vector<Call> calls;
  int in_flight = 0, overlap = 0;
};
Record* rec = nullptr;   // of the multistart under test
int copies_left = -1;    // copies until one throws

uint64_t bits(double d) {
  uint64_t u;
  std::memcpy(&u, &d, 8);
  return u;
}

// ---- four kinds of decision variables -----------------------------------------
struct Plain {
  int id;
  double v[3];
  bool operator==(const Plain&) const = default;
};
struct Heavy {
  std::vector<double> v;
  std::string name;
  Heavy() = default;
  explicit Heavy(std::vector<double> x, std::string n) : v(std::move(x)), name(std::move(n)) {}
  Heavy(const Heavy& o) : v(o.v), name(o.name) { fault(); }
  Heavy(Heavy&& o) noexcept = default;
  Heavy& operator=(const Heavy& o) {
    v = o.v;
    name = o.name;
    return *this;
  }
  Heavy& operator=(Heavy&&) noexcept = default;
  bool operator==(const Heavy&) const = default;
  static void fault() {
    if (copies_left < 0 || sched_self() != 0) return;
    Quiet q;
    if (copies_left-- == 0) {
      count("fault: copying a guess throws");
      throw CopyBoom();
    }
  }
};
using Vec = Eigen::VectorXd;
using Shared = std::shared_ptr<const std::vector<double>>;

template <typename D>
D guess_of(int id);
template <>
Plain guess_of(int id) { return {id, {id + 0.25, id * 2.0, -1.0 * id}}; }
template <>
Heavy guess_of(int id) { return Heavy({id + 0.25, id * 2.0}, "guess number " + std::to_string(id) + " with a long name"); }
template <>
Vec guess_of(int id) {
  Vec v(3);
  v << id + 0.25, id * 2.0, id;
  return v;
}
template <>
Shared guess_of(int id) { return std::make_shared<const std::vector<double>>(std::vector<double>{id + 0.25, id * 1.0}); }
int id_of(const Plain& p) {
  if (p.v[0] != p.id + 0.25 || p.v[1] != p.id * 2.0 || p.v[2] != -1.0 * p.id) return -1;
  return p.id;
}
int id_of(const Heavy& p) {
  if (p.v.size() != 2 || p.v[1] != (p.v[0] - 0.25) * 2) return -1;
  int id = static_cast<int>(p.v[0]);
  return p.name == "guess number " + std::to_string(id) + " with a long name" ? id : -1;
}
int id_of(const Vec& p) { return p.size() == 3 && p[0] == p[2] + 0.25 && p[1] == 2 * p[2] ? static_cast<int>(p[2]) : -1; }
int id_of(const Shared& p) { return p && p->size() == 2 && (*p)[0] == (*p)[1] + 0.25 ? static_cast<int>((*p)[1]) : -1; }
/// The variables a solve returns: the guess moved elsewhere.
Plain result_of(const Plain& p, double s) { return {p.id, {p.v[0] + s, s, p.v[2]}}; }
Heavy result_of(const Heavy& p, double s) { return Heavy({p.v[0] + s, s, p.v[1]}, p.name + "!"); }
Vec result_of(const Vec& p, double s) { return (p.array() + s).matrix(); }
Shared result_of(const Shared& p, double s) { return std::make_shared<const std::vector<double>>(std::vector<double>{(*p)[0] + s, s}); }
uint64_t hash_of(const Plain& p) { return mix64(mix64(mix64(p.id, bits(p.v[0])), bits(p.v[1])), bits(p.v[2])); }
uint64_t hash_of(const Heavy& p) {
  uint64_t h = p.v.size();
  for (double d : p.v) h = mix64(h, bits(d));
  for (char c : p.name) h = mix64(h, c);
  return h;
}
uint64_t hash_of(const Vec& p) {
  uint64_t h = p.size();
  for (double d : p) h = mix64(h, bits(d));
  return h;
}
uint64_t hash_of(const Shared& p) {
  uint64_t h = p ? p->size() : 1234567;
  if (p)
    for (double d : *p) h = mix64(h, bits(d));
  return h;
}

double busy(int n) {
  // scripted work: memory traffic the scheduler can interrupt
  volatile double cell = 0;
  for (int i = 0; i < n; ++i) cell = cell + 1;
  return cell;
}

/// A real solve: two local minima, one deeper.
std::pair<ExitStatus, std::pair<double, double>> real_solve(int kind, int id) {
  slp::Problem<double> p;
  auto x = p.decision_variable();
  x.set_value(kind == 2 ? -2.0 + id * 0.5 : 1.5 - id * 0.5);
  slp::Variable<double> J = slp::pow(x, 4) - 3.0 * slp::pow(x, 2) + 0.5 * x;
  p.minimize(J);
  if (kind == 3) p.subject_to(x * x >= 16.0 + id);
  if (kind == 4) {
    p.subject_to(x >= 1.0);
    p.subject_to(x <= -1.0);
  }
  slp::Options o;
  o.max_iterations = kind == 5 ? 1 : 100;
  auto s = p.solve(o);
  return {s, {J.value(), x.value()}};
}

template <typename D, typename Sc>
using Res = slp::MultistartResult<Sc, D>;

template <typename D, typename Sc>
Res<D, Sc> script_solve(const std::vector<Script>& scripts, const D& g, const std::vector<int>& speed) {
  size_t me;
  const Script* s;
  {
    Quiet q;
    int id = id_of(g);
    if (id < 0 || id >= static_cast<int>(scripts.size())) fail("guess", "a solve got a damaged guess");
    s = &scripts[id];
    me = rec->calls.size();
    rec->calls.push_back({id, sched_self(), false, ExitStatus::SUCCESS, 0, 0});
    rec->in_flight++;
    rec->overlap = std::max(rec->overlap, rec->in_flight);
  }
  ExitStatus st = s->status;
  double cost = s->cost, where = s->id;
  busy(s->work * speed[s->id] / 2);
  if (s->pause) std::this_thread::sleep_for(std::chrono::milliseconds(s->pause * speed[s->id]));
  sched_yield_point();
  if (s->real) {
    auto [rs, rv] = real_solve(s->real, s->id);
    st = rs;
    cost = rv.first;
    where = rv.second;
    if (std::isnan(cost) && st == ExitStatus::SUCCESS) cost = 1e300;
  }
  if (s->nested) {
    // a multistart of its own
    std::vector<Plain> l;
    for (int i = 0; i < s->nested; ++i) l.push_back(guess_of<Plain>(i));
    auto inner = [&](const Plain& p) -> Res<Plain, double> {
      busy(20 * (1 + (p.id * 7 + s->id) % 3));
      return {p.id == s->nested / 2 ? ExitStatus::SUCCESS : ExitStatus::LOCALLY_INFEASIBLE, -1.0 * p.id, p};
    };
    auto r = slp::multistart<double, Plain>(inner, l);
    Quiet q;
    if (r.status != ExitStatus::SUCCESS || r.variables.id != s->nested / 2 || id_of(r.variables) != r.variables.id) fail("nested", "a nested multistart returned the wrong result");
  }
  busy(s->work * speed[s->id] / 2);
  {
    Quiet q;
    if (id_of(g) != s->id) fail("guess", "the guess of solve %d changed during the solve", s->id);
  }
  Res<D, Sc> r{st, static_cast<Sc>(cost), result_of(g, where)};
  Quiet q;
  Call& c = rec->calls[me];
  c.ended = true;
  c.status = st;
  c.cost = r.cost;
  c.result = hash_of(r.variables);
  rec->in_flight--;
  if (s->throws) {
    count("fault: a solve throws");
    throw Boom(s->id);
  }
  return r;
}

struct Outcome {
  bool threw = false;
  ExitStatus status = ExitStatus::SUCCESS;
  double cost = 0;
  uint64_t variables = 0;
};

const char* order_name(int o) { return o == 0 ? "list order" : o == 1 ? "reversed" : "rotated"; }

template <typename D, typename Sc>
Outcome call(const std::vector<Script>& scripts, const std::vector<int>& order, const std::vector<int>& speed, int form, int fail_copy) {
  std::vector<D> guesses;
  for (size_t i = 0; i < order.size(); ++i)
    if (i && order[i] == order[i - 1]) guesses.push_back(D(guesses.back()));
    else guesses.push_back(guess_of<D>(order[i]));
  Record r;
  rec = &r;
  uint64_t creations = sched_faults.creations, failures = sched_faults.creation_failures;
  (void)creations;
  int base_live = sched_live();
  (void)base_live;
  int copies_before = fail_copy;
  Outcome o;
  bool copy_threw = false, sys_threw = false;
  int boom = -1;
  auto solve = [&](const D& g) -> Res<D, Sc> { return script_solve<D, Sc>(scripts, g, speed); };
  auto counted = [solve, n = 0](const D& g) { return solve(g); };
  struct Functor {
    decltype(solve)* f;
    Res<D, Sc> operator()(const D& g) const { return (*f)(g); }
  };
  copies_left = copies_before;
  try {
    std::span<const D> span{guesses};
    Res<D, Sc> got = form == 0 ? slp::multistart<Sc, D>(solve, span) : form == 1 ? slp::multistart<Sc, D>(Functor{&solve}, span) : slp::multistart<Sc, D>(counted, span);
    copies_left = -1;
    o.status = got.status;
    o.cost = got.cost;
    o.variables = hash_of(got.variables);
  } catch (const Boom& b) {
    copies_left = -1;
    o.threw = true;
    boom = b.id;
  } catch (const CopyBoom&) {
    copies_left = -1;
    o.threw = true;
    copy_threw = true;
  } catch (const std::system_error&) {
    copies_left = -1;
    o.threw = true;
    sys_threw = true;
  }
  Quiet q;
  failures = sched_faults.creation_failures - failures;
  // no solve is still running
  if (r.in_flight) fail("returned early", "multistart returned while %d solves were still running", r.in_flight);
  std::multiset<int> listed(order.begin(), order.end()), seen;
  std::set<int> used;
  for (auto& c : r.calls) {
    if (!c.ended) fail("returned early", "multistart returned before solve %d ended", c.script);
    seen.insert(c.script);
    if (seen.count(c.script) > listed.count(c.script)) fail("called twice", "guess %d was solved %zu times, but it is in the list %zu times", c.script, seen.count(c.script), listed.count(c.script));
    if (c.thread <= 0) fail("thread", "guess %d was solved on the calling thread", c.script);
    if (!used.insert(c.thread).second) fail("thread", "two guesses were solved on thread %d", c.thread);
  }
  bool thrower = false;
  for (int id : order) thrower |= scripts[id].throws;
  if (failures == 0 && !copy_threw && seen.size() != order.size()) fail("lost guess", "%zu of %zu guesses were solved", seen.size(), order.size());
  if (!o.threw) {
    if (failures) fail("error lost", "a thread could not be created, but multistart returned normally");
    if (thrower) fail("error lost", "a solve threw, but multistart returned normally");
  } else {
    if (boom >= 0 && !(boom < static_cast<int>(scripts.size()) && scripts[boom].throws && seen.count(boom))) fail("wrong error", "multistart threw something no solve threw");
    if (sys_threw && !failures) fail("spurious error", "multistart threw a system_error without a failed thread creation");
    if (!thrower && !failures && !copy_threw) fail("spurious error", "multistart threw although nothing failed");
  }
  if (!o.threw) {
    // the best of the results, unaltered
    bool produced = false, any = false;
    double best = 0;
    for (auto& c : r.calls) {
      if (c.status == ExitStatus::SUCCESS && (!any || c.cost < best)) {
        best = c.cost;
        any = true;
      }
      produced |= c.status == o.status && bits(c.cost) == bits(o.cost) && c.result == o.variables;
    }
    if (!produced) fail("not a result", "multistart returned status %d, cost %.17g and variables that no solve returned together", static_cast<int>(o.status), o.cost);
    if (any && o.status != ExitStatus::SUCCESS) fail("failed result", "multistart returned a failed result (status %d) although a solve succeeded", static_cast<int>(o.status));
    if (any && best < o.cost) fail("worse result", "multistart returned cost %.17g although a solve succeeded with %.17g", o.cost, best);
  }
  if (r.overlap >= 2) nontrivial();
  if (r.overlap >= 2) count("runs with overlapping solves");
  if (failures || thrower || copy_threw) nontrivial();
  log(o.threw);
  log(static_cast<int>(o.status) + 100);
  logd(o.cost);
  log(o.variables);
  rec = nullptr;
  return o;
}

template <typename D, typename Sc>
void experiment() {
  int n = FAULTS ? range(1, 8) : range(1, 10);
  bool use_long = chance(1, 16);
  if (use_long) n = range(9, 40);
  std::vector<Script> scripts;
  bool use_real = chance(1, 4), use_nested = !use_long && chance(1, 8), use_pause = chance(1, 3);
  for (int i = 0; i < n; ++i) {
    Script s{};
    s.id = i;
    s.status = pick({ExitStatus::SUCCESS, ExitStatus::SUCCESS, ExitStatus::LOCALLY_INFEASIBLE, ExitStatus::TIMEOUT, ExitStatus::MAX_ITERATIONS_EXCEEDED, ExitStatus::CALLBACK_REQUESTED_STOP,
                     ExitStatus::DIVERGING_ITERATES, ExitStatus::FACTORIZATION_FAILED, ExitStatus::GLOBALLY_INFEASIBLE});
    s.cost = pick({0.0, 1.0, -1.0, 2.5, -3.0, 1e9, -1e9, 1e-9, -HUGE_VAL, HUGE_VAL, -0.0});
    if (s.status != ExitStatus::SUCCESS && chance(1, 5)) s.cost = NAN;  // e.g. a nonfinite initial guess
    s.work = pick({4, 0, 30, 200});
    s.pause = use_pause ? pick({0, 1, 5}) : 0;
    s.throws = FAULTS && chance(1, 6);
    s.real = use_real && chance(1, 2) ? range(1, 5) : 0;
    s.nested = use_nested && chance(1, 3) ? range(1, 4) : 0;
    scripts.push_back(s);
    note("guess %d: status %d, cost %g, work %d, pause %d%s%s%s", i, static_cast<int>(s.status), s.cost, s.work, s.pause, s.throws ? ", throws" : "", s.real ? ", real solve" : "", s.nested ? ", nested" : "");
  }
  std::vector<int> order(n), speed(n, 1);
  std::iota(order.begin(), order.end(), 0);
  if (chance(1, 5)) {
    // equal guesses
    for (int k = range(1, 3); k > 0; --k) order[choose(n)] = choose(n);
    if (chance(1, 2)) std::sort(order.begin(), order.end());
    note("equal guesses in the list");
    count("lists with equal guesses");
  }
  uint64_t list = n;
  for (auto& s : scripts) list = mix64(list, static_cast<int>(s.status) * 2 + s.throws);
  int form = choose(3);
  if (!FAULTS) {
    Outcome first = call<D, Sc>(scripts, order, speed, form, -1);
    sig(mix64(sched_stats.schedule, list));
    // Ties: the list decides which of the equally good results it is, the schedule doesn't.
    int rounds = range(1, 3);
    for (int k = 0; k < rounds; ++k) {
      for (auto& v : speed) v = pick({1, 0, 3, 10});
      int o = choose(3);
      std::vector<int> other = order;
      if (o == 1) std::reverse(other.begin(), other.end());
      if (o == 2) std::rotate(other.begin(), other.begin() + n / 2, other.end());
      Outcome again = call<D, Sc>(scripts, other, speed, form, -1);
      sig(mix64(sched_stats.schedule, list));
      note("again, %s: status %d, cost %g", order_name(o), static_cast<int>(again.status), again.cost);
      bool same = again.status == first.status && (again.cost == first.cost || (std::isnan(again.cost) && std::isnan(first.cost))) && (o != 0 || again.variables == first.variables);
      // without any success, only the schedule is excluded as an influence
      if (first.status != ExitStatus::SUCCESS && o != 0) same = again.status != ExitStatus::SUCCESS;
      if (!same)
        fail("schedule decides", "status %d, cost %g, variables %llx in one schedule, status %d, cost %g, variables %llx in another (%s)", static_cast<int>(first.status), first.cost,
             (unsigned long long)first.variables, static_cast<int>(again.status), again.cost, (unsigned long long)again.variables, order_name(o));
    }
  } else {
    int rounds = range(1, 3);
    for (int k = 0; k < rounds; ++k) {
      sched_faults.creation_fails = 0;
      sched_faults.creations = 0;
      if (!use_nested && chance(1, 4)) sched_faults.creation_fails = 1ull << choose(n);
      if (sched_faults.creation_fails && chance(1, 3)) sched_faults.creation_fails |= 1ull << choose(n);
      int copy = chance(1, 5) ? static_cast<int>(choose(2 * n)) : -1;
      if (sched_faults.creation_fails) note("thread creations failing: mask %llx", (unsigned long long)sched_faults.creation_fails);
      if (copy >= 0) note("copy %d on the calling thread throws", copy);
      call<D, Sc>(scripts, order, speed, form, copy);
      sched_faults.creation_fails = 0;
      sig(mix64(sched_stats.schedule, list));
      for (auto& v : speed) v = pick({1, 0, 3, 10});
      for (auto& s : scripts) s.throws = chance(1, 8);
    }
  }
}
}  // namespace

void run_world() {
  install_stdout(2);
  clk.active = true;
  int kind = choose(4), single = choose(4);
  sched_begin(2000);
  note("decision variables of kind %d%s", kind, single == 3 ? ", float" : "");
  switch (kind) {
    case 0: single == 3 ? experiment<Plain, float>() : experiment<Plain, double>(); break;
    case 1: experiment<Heavy, double>(); break;
    case 2: experiment<Vec, double>(); break;
    default: experiment<Shared, double>(); break;
  }
  count("threads", sched_stats.threads);
  count("context switches", sched_stats.switches);
  count("preemptions", sched_stats.preemptions);
  count("memory accesses watched", sched_stats.accesses);
}
}  // namespace sim
