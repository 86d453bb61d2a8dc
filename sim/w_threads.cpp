// C03: independent problems on different threads, under a simulated scheduler.
#include <algorithm>
#include <optional>
#include <stdexcept>
#include <thread>
#include <vector>

#include <sleipnir/autodiff/gradient.hpp>
#include <sleipnir/autodiff/hessian.hpp>
#include <sleipnir/autodiff/jacobian.hpp>
#include <sleipnir/autodiff/variable_matrix.hpp>
#include <sleipnir/optimization/multistart.hpp>
#include <sleipnir/optimization/ocp.hpp>

#include "model.hpp"
#include "sched.hpp"

namespace sim {

const WorldInfo world = {
    "C03",
    "each run draws a workload (1 to 4 jobs of 8 kinds: solves, aborted solves, derivatives, expression churn, matrices, OCPs, nested multistarts) for each of 2 to 5 threads, runs every "
    "workload alone, then all of them at once under a seeded preemptive schedule; every memory access is checked for happens-before races, results are compared bit for bit, heap blocks are "
    "counted; non-trivial: threads overlapped and were preempted; distinct = distinct event-log hashes",
    "expression pool, autodiff, Problem, newton, sqp, interior_point, OCP, multistart, libstdc++ threads, thread-local storage and its destructors",
    "thread scheduler, pthread and futex primitives, clocks, standard output",
    "hash of the schedule (who ran, for how many synchronizing operations)",
    1200, 120000};

namespace {
struct Boom {};

enum Kind { SOLVE, ABORT, DERIVE, CHURN, MATRIX, OCPJOB, MULTI, PRINT, KINDS };
const char* const kind_names[KINDS] = {"solve", "aborted solve", "derivatives", "churn", "matrices", "OCP", "multistart", "solve with diagnostics"};
struct Job {
  Kind kind;
  Spec spec;
  int style = 0, limit = 0, at = 0, size = 0;
  uint64_t seed = 0;
};
struct Rng {
  uint64_t s;
  uint64_t operator()(uint64_t n) {
    s = mix64(s, 0x1234567);
    return (s >> 8) % n;
  }
};

using Obs = std::vector<uint64_t>;
void put(Obs& o, double d) {
  uint64_t u;
  std::memcpy(&u, &d, 8);
  o.push_back(std::isnan(d) ? 0x7ff8 : u);
}
void put(Obs& o, const SpMat& m) {
  o.push_back(m.rows() * 1000 + m.cols());
  for (int k = 0; k < m.outerSize(); ++k)
    for (SpMat::InnerIterator i{m, k}; i; ++i) {
      o.push_back(i.row() * 1000 + i.col());
      put(o, i.value());
    }
}
void put(Obs& o, const MatX& m) {
  o.push_back(m.rows() * 1000 + m.cols());
  for (int i = 0; i < m.size(); ++i) put(o, m.data()[i]);
}

void solve_job(const Job& j, Obs& o) {
  Built b = build(j.spec, j.style);
  slp::Options opt;
  opt.max_iterations = j.limit;
  opt.diagnostics = j.kind == PRINT;
  int n = 0;
  b.p->add_callback([&](const Info& i) -> bool {
    if (j.kind == ABORT && n++ == j.at) throw Boom();
    o.push_back(i.iteration);
    for (double d : to_std(i.x)) put(o, d);
    for (double d : to_std(i.s)) put(o, d);
    for (double d : to_std(i.y)) put(o, d);
    for (double d : to_std(i.z)) put(o, d);
    put(o, SpMat(i.H));
    put(o, SpMat(i.A_e));
    put(o, SpMat(i.A_i));
    return false;
  });
  try {
    o.push_back(1000 + static_cast<int>(b.p->solve(opt)));
  } catch (const Boom&) {
    o.push_back(4242);
  }
  for (double d : b.get()) put(o, d);
  for (auto& v : b.node) put(o, v.value());
}

void derive_job(const Job& j, Obs& o) {
  Built b = build(j.spec, j.style);
  slp::VariableMatrix<double> x(b.x.size(), 1);
  for (size_t i = 0; i < b.x.size(); ++i) x[i, 0] = b.x[i];
  V f = j.spec.cost >= 0 ? b.node[j.spec.cost] : b.node.back();
  slp::Gradient<double> g(f, x);
  slp::Hessian<double> h(f, x);
  slp::VariableMatrix<double> c(j.spec.eq.size() + j.spec.ineq.size() + 1, 1);
  int r = 0;
  for (int e : j.spec.eq) c[r++, 0] = b.node[e];
  for (int e : j.spec.ineq) c[r++, 0] = b.node[e];
  c[r, 0] = f;
  slp::Jacobian<double> a(c, x);
  Rng rng{j.seed};
  for (int k = 0; k < 3; ++k) {
    put(o, f.value());
    put(o, MatX(SpMat(g.value())));
    put(o, SpMat(h.value()));
    put(o, SpMat(a.value()));
    for (auto& v : b.x) v.set_value(v.value() + 0.125 * static_cast<double>(rng(9)) - 0.5);
  }
  if (j.size % 2) {
    // symbolic derivatives, used and differentiated again
    slp::VariableMatrix<double> gs = g.get(), hs = h.get(), as = a.get();
    for (auto* m : {&gs, &hs, &as}) put(o, m->value());
    V e = (x.T() * hs * x)[0, 0] + gs[rng(gs.rows()), 0] + as[rng(as.rows()), rng(as.cols())];
    put(o, e.value());
    put(o, SpMat(slp::Jacobian<double>(gs, x).value()));
    put(o, MatX(SpMat(slp::Gradient<double>(e, x).value())));
  }
}

void churn_job(const Job& j, Obs& o) {
  // many expressions, freed out of order
  Rng rng{j.seed};
  std::vector<V> pool;
  std::vector<V> leaves(4);
  for (size_t i = 0; i < leaves.size(); ++i) leaves[i].set_value(0.5 + i);
  for (int i = 0; i < j.size; ++i) {
    V a = pool.empty() || rng(2) ? leaves[rng(4)] : pool[rng(pool.size())];
    V b = pool.empty() || rng(2) ? leaves[rng(4)] : pool[rng(pool.size())];
    switch (rng(14)) {
      case 5: pool.push_back(exp(-a * a) + cosh(b / 64.0)); break;
      case 6: pool.push_back(slp::max(a, b) - slp::min(a, 1.5)); break;
      case 7: pool.push_back(slp::pow(abs(a) + 0.25, b / 8.0)); break;
      case 8: pool.push_back(sqrt(abs(a) + 1.0) / (1.0 + b * b)); break;
      case 9: pool.push_back(slp::atan2(a, b + 2.0) + cbrt(a)); break;
      case 10: pool.push_back(log(1.0 + a * a) + log10(2.0 + b * b)); break;
      case 11: pool.push_back(erf(a) * sign(b) + cos(a)); break;
      case 12: pool.push_back(asin(tanh(a)) - acos(tanh(b)) + tan(a / 16.0) + sinh(b / 64.0)); break;
      case 13: pool.push_back(slp::hypot(a, b, V(1.5)) - a); break;
      case 0: pool.push_back(a + b * 0.5); break;
      case 1: pool.push_back(sin(a) * b); break;
      case 2: pool.push_back(a - b); break;
      case 3: pool.push_back(tanh(a) + slp::hypot(b, a)); break;
      default: pool.push_back(atan(a) * atan(b)); break;
    }
    if (pool.size() > 40) {
      size_t k = rng(pool.size());
      put(o, pool[k].value());
      pool.erase(pool.begin() + k);
    }
    if (i % 16 == 0) leaves[rng(4)].set_value(static_cast<double>(rng(100)) * 0.05);
  }
  if (!pool.empty()) {
    slp::VariableMatrix<double> x(4, 1);
    for (int i = 0; i < 4; ++i) x[i, 0] = leaves[i];
    put(o, MatX(slp::Gradient<double>(pool.back(), x).value()));
  }
}

void matrix_job(const Job& j, Obs& o) {
  Rng rng{j.seed};
  int n = 1 + rng(6);
  slp::VariableMatrix<double> a(n, n), b(n, 2);
  for (int i = 0; i < n; ++i)
    for (int k = 0; k < n; ++k) a[i, k] = V(static_cast<double>(rng(9)) * 0.25 + (i == k ? 5 : 0));
  for (int i = 0; i < n; ++i)
    for (int k = 0; k < 2; ++k) {
      b[i, k].set_value(static_cast<double>(rng(9)) * 0.5 - 2);
    }
  auto c = slp::solve(a, b);
  put(o, c.value());
  put(o, (a * c - b).value());
  auto t = a.T() * a + b * b.T();
  put(o, t.value());
  V s = t.block(0, 0, 1, 1)[0, 0] + b[0, 0] * c[0, 1] + slp::block<double>({{a, b}})[0, n];
  put(o, MatX(slp::Gradient<double>(s, b[0, 0]).value()));
  {
    slp::VariableMatrix<double> w = a;
    w.block(0, 0, n, 1) *= 2.0;
    w.row(n - 1) += 1.5;
    w.T();
    put(o, (w + slp::VariableMatrix<double>::one(n, n) - slp::VariableMatrix<double>::zero(n, n)).value());
    V z(1.0);
    V q = (b.T() * slp::VariableMatrix<double>::one(n, 1))[1, 0] * z;
    put(o, q.value());
    auto le = b <= 1.5;
    auto eq = b.col(0) == slp::VariableMatrix<double>::zero(n, 1);
    auto bd = slp::bounds(-1.0, b.col(1), 2.0);
    o.push_back(static_cast<bool>(le) * 4 + static_cast<bool>(eq) * 2 + static_cast<bool>(bd));
    for (auto* l : {&le.constraints, &bd.constraints})
      for (auto& e : *l) put(o, e.value());
  }
  put(o, t.cwise_transform([](const V& v) { return v * v + 1.0; }).value());
}

void ocp_job(const Job& j, Obs& o) {
  Rng rng{j.seed};
  auto tr = static_cast<slp::TranscriptionMethod>(rng(3));
  auto ts = static_cast<slp::TimestepMethod>(rng(3));
  auto f = [](const slp::VariableMatrix<double>& x, const slp::VariableMatrix<double>& u) -> slp::VariableMatrix<double> { return -0.5 * x + u; };
  slp::function_ref<slp::VariableMatrix<double>(const slp::VariableMatrix<double>&, const slp::VariableMatrix<double>&)> fr = f;
  slp::OCP<double> p(1, 1, std::chrono::duration<double>(0.125), 2, fr, slp::DynamicsType::EXPLICIT_ODE, ts, tr);
  if (tr == slp::TranscriptionMethod::SINGLE_SHOOTING) p.X()[0, 0].set_value(0.5);
  else p.constrain_initial_state(0.5);
  p.set_upper_input_bound(2.0);
  p.set_lower_input_bound(-2.0);
  if (ts != slp::TimestepMethod::FIXED) {
    p.set_min_timestep(std::chrono::duration<double>(0.0625));
    p.set_max_timestep(std::chrono::duration<double>(0.25));
  }
  V J = 0.0;
  for (int k = 0; k < 3; ++k) {
    V e = p.X()[0, k] - 1.0;
    J += e * e + 0.01 * p.U()[0, k] * p.U()[0, k];
  }
  p.minimize(J);
  slp::Options opt;
  opt.max_iterations = 6;
  o.push_back(static_cast<int>(p.solve(opt)) + 50);
  put(o, p.X().value());
  put(o, p.U().value());
  put(o, p.dt().value());
}

void multi_job(const Job& j, Obs& o) {
  struct Guess {
    double x;
  };
  auto solve = [&](const Guess& g) -> slp::MultistartResult<double, Guess> {
    slp::Problem<double> p;
    auto x = p.decision_variable();
    x.set_value(g.x);
    V J = slp::pow(x, 4) - 3.0 * slp::pow(x, 2) + 0.5 * x;
    p.minimize(J);
    slp::Options opt;
    opt.max_iterations = 8;
    auto s = p.solve(opt);
    return {s, J.value(), Guess{x.value()}};
  };
  std::vector<Guess> l;
  for (int i = 0; i < 1 + j.size % 3; ++i) l.push_back({1.5 - 3.0 * (i % 2)});
  auto r = slp::multistart<double, Guess>(solve, l);
  o.push_back(static_cast<int>(r.status) + 50);
  put(o, r.cost);
  put(o, r.variables.x);
}

void perform(const std::vector<Job>& w, int passes, Obs& o) {
  for (int p = 0; p < passes; ++p)
    for (auto& j : w) {
      o.push_back(0x10000 + j.kind);
      switch (j.kind) {
        case SOLVE: case ABORT: case PRINT: solve_job(j, o); break;
        case DERIVE: derive_job(j, o); break;
        case CHURN: churn_job(j, o); break;
        case MATRIX: matrix_job(j, o); break;
        case OCPJOB: ocp_job(j, o); break;
        default: multi_job(j, o); break;
      }
    }
}

std::vector<Job> gen_workload(bool multi_ok) {
  std::vector<Job> w;
  int n = pick({1, 2, 1, 3});
  for (int i = 0; i < n; ++i) {
    Job j;
    j.kind = static_cast<Kind>(choose(KINDS));
    if (j.kind == MULTI && !multi_ok) j.kind = SOLVE;
    j.seed = 1 + choose(1 << 20);
    if (j.kind == SOLVE || j.kind == ABORT || j.kind == DERIVE || j.kind == PRINT) {
      GenOptions g;
      g.max_n = 3;
      g.nonfinite = chance(1, 6);
      j.spec = gen_problem(g);
      j.style = choose(3);
      j.limit = range(2, 8);
      j.at = choose(4);
    }
    j.size = j.kind == CHURN ? pick({40, 150, 500}) : range(0, 5);
    note("  %s %s (size %d, at most %d iterations)", kind_names[j.kind], j.spec.family.c_str(), j.size, j.limit);
    w.push_back(std::move(j));
  }
  return w;
}
}  // namespace

void run_world() {
  install_stdout(2);
  clk.active = true;
  int n = range(2, 5);
  bool main_works = chance(1, 3);
  int passes = chance(1, 4) ? 2 : 1;
  std::vector<std::vector<Job>> work;
  for (int i = 0; i < n; ++i) {
    note("thread %d:", i);
    work.push_back(gen_workload(i < 2));
  }
  bool solo_first = chance(1, 2);
  bool stagger = chance(1, 3);
  sched_begin(400000);
  std::vector<Obs> solo(n), together(n);
  auto alone = [&] {
    for (int i = 0; i < n; ++i) {
      std::thread t([&, i] { perform(work[i], passes, solo[i]); });
      t.join();
    }
  };
  if (solo_first) alone();
  int first = static_cast<int>(sched_stats.threads) + 1;
  uint64_t before = sched_stats.preemptions;
  std::vector<int> ids(n, -1);
  {
    std::vector<std::thread> ts;
    for (int i = main_works ? 1 : 0; i < n; ++i) {
      int pause = stagger ? static_cast<int>(choose(4)) : 0;
      ts.emplace_back([&, i, pause] {
        ids[i] = sched_self();
        if (pause) std::this_thread::sleep_for(std::chrono::milliseconds(pause));
        perform(work[i], passes, together[i]);
      });
    }
    if (main_works) {
      // the main thread's expressions live as long as the process
      perform(work[0], passes, together[0]);
    }
    for (auto& t : ts) t.join();
  }
  uint64_t preempted = sched_stats.preemptions - before;
  (void)first;
  sched_stats.schedule = mix64(sched_stats.schedule, preempted);
  std::vector<int64_t> leak(n, 0);
  for (int i = 0; i < n; ++i)
    if (ids[i] > 0) leak[i] = sched_heap_live(ids[i]);
  if (!solo_first) alone();
  Quiet q;
  for (int i = 0; i < n; ++i) {
    log(together[i].size());
    for (uint64_t v : together[i]) log(v);
    if (together[i] != solo[i]) {
      size_t k = 0;
      while (k < together[i].size() && k < solo[i].size() && together[i][k] == solo[i][k]) ++k;
      fail("influence", "thread %d: observation %zu of %zu differs from the same workload running alone (%zu observations)", i, k, together[i].size(), solo[i].size());
    }
    if (ids[i] > 0) {
      // what it still owns besides its results
      int64_t mine = together[i].capacity() ? static_cast<int64_t>(together[i].capacity()) * 8 + 64 : 0;
      count("threads whose heap was balanced");
      if (leak[i] > mine) fail("leak", "thread %d left %lld bytes of the %lld it allocated", i, (long long)(leak[i] - mine), (long long)sched_heap_total(ids[i]));
    }
  }
  if (preempted) nontrivial();
  sig(sched_stats.schedule);
  count("threads", sched_stats.threads);
  count("context switches", sched_stats.switches);
  count("preemptions", sched_stats.preemptions);
  count("memory accesses watched", sched_stats.accesses);
}
}  // namespace sim
