// C13: a solve is a function of the problem, the values it starts from and the
// options - not of the environment it runs in or of who is watching.
//
// A solve in a quiet environment is the reference; the same solve is repeated
// under drawn environments (clock behaviour, heap contents and placement,
// standard output that stalls or breaks, diagnostics, spy files on a failing
// disk, passive callbacks, earlier work in the process) and compared bit for
// bit.
#include <sleipnir/autodiff/gradient.hpp>
#include <sleipnir/autodiff/hessian.hpp>

#include "model.hpp"

namespace sim {

const WorldInfo world = {
    "C13",
    "each run draws a problem, a way to state it (Problem, or user functions handed to the solver entry points with or without multiplier outputs) and options, "
    "solves it in a quiet environment and again in up to 4 drawn environments; non-trivial: an environment differed from the quiet one and the solve made at "
    "least two iterations; distinct = distinct event-log hashes",
    "Problem, autodiff, newton, sqp, interior_point, feasibility restoration, diagnostics, profilers, spy, print wrappers",
    "clocks, heap contents, disk and stdout (simulated); user functions of the direct variant (reference model)",
    "(solve's shape, set of environment changes)",
    24000, 1500000};

namespace {
struct Env {
  bool diagnostics = false, spy = false, no_trace = false;
  int passive = 0;         // passive callbacks
  bool evaluating = false; // passive callbacks evaluate expressions
  int64_t tick = 0;
  int64_t every_call = 0;
  int64_t wall_jump = 0;
  int out_mode = 0;
  int64_t out_arg = 0;
  bool heap_on = false;
  unsigned char fill = 0, poison = 0;
  int pad = 0;
  int earlier = 0;         // earlier work
  bool disk_fails = false;
  uint64_t code() const {
    return diagnostics | spy << 1 | no_trace << 2 | (passive > 0) << 3 | evaluating << 4 | (tick > 0) << 5 | (every_call > 0) << 6 | (wall_jump != 0) << 7 |
           out_mode << 8 | heap_on << 11 | (earlier > 0) << 12 | disk_fails << 13;
  }
  std::string str() const {
    char b[256];
    snprintf(b, sizeof b, "diagnostics=%d spy=%d untraced=%d passive=%d%s tick=%lld call=%lld wall=%lld stdout=%d/%lld heap=%d/%02x/%02x/%d earlier=%d disk_fails=%d", diagnostics,
             spy, no_trace, passive, evaluating ? "+eval" : "", (long long)tick, (long long)every_call, (long long)wall_jump, out_mode, (long long)out_arg, heap_on, fill, poison, pad,
             earlier, disk_fails);
    return b;
  }
};

Env gen_env(bool direct) {
  Env e;
  auto flip = [](int k) { return chance(1, k); };
  if (flip(2)) e.diagnostics = true;
  if (!direct && flip(4)) {
    e.spy = true;
    e.disk_fails = chance(1, 2);
  }
  if (flip(3)) e.passive = range(1, 3);
  if (!direct && e.passive && flip(2)) e.evaluating = true;
  if (flip(6)) {
    e.no_trace = true;
    e.passive = 0;
    e.evaluating = false;
  }
  if (flip(3)) e.tick = pick<int64_t>({1, 1000000, 7777777777});
  if (flip(3)) e.every_call = pick<int64_t>({1, 100000000, 3600000000000});
  if (flip(3)) e.wall_jump = pick<int64_t>({-1000000000, 1000000000, -86400000000000, -1700000000000000000 / 2});
  if (e.diagnostics && flip(2)) {
    e.out_mode = range(1, 4);
    e.out_arg = pick<int64_t>({0, 1, 40, 300, 2000});
  }
  if (flip(2)) {
    e.heap_on = true;
    e.fill = pick<unsigned char>({0xff, 0x00, 0x7f, 0x41, 0x3f});
    e.poison = pick<unsigned char>({0x00, 0xff, 0x7f, 0xdd});
    e.pad = pick({0, 16, 48, 4096});
  }
  if (flip(3)) e.earlier = range(1, 3);
  return e;
}

struct Subject {
  Spec spec;
  bool direct = false, duals = false;
  int style = 0;
  Solver which = Solver::NEWTON;

  DirectTrace run(slp::Options o, const Env& e) {
    clk.active = true;
    clk.tick_ns = e.tick;
    o.diagnostics = e.diagnostics;
    disk.active = true;
    disk.files.clear();
    disk.space = disk.eio_after = -1;
    disk.open_fails.clear();
    if (e.disk_fails) {
      if (e.pad & 16) disk.open_fails = {true, false, true};
      else disk.space = 20 + e.fill;
    }
    // earlier work in the process
    std::vector<V> keep;
    for (int k = 0; k < e.earlier; ++k) {
      slp::Problem<double> q;
      auto v = q.decision_variable(2 + k);
      V f = 0.0;
      for (int i = 0; i < 2 + k; ++i) f = f + slp::pow(v[i] - i * 1.5, 2.0) + slp::sin(v[i]);
      q.minimize(f);
      if (k) q.subject_to(v[0] >= v[1]);
      slp::Options oq;
      oq.max_iterations = 4;
      q.solve(oq);
      keep.push_back(f);
    }
    heap.fill = e.fill;
    heap.poison = e.poison;
    heap.pad = e.pad;
    heap.active = e.heap_on;
    out.mode = static_cast<Out::Mode>(e.out_mode);
    out.stall_ns = 1000000;
    out.capacity = e.out_arg;
    out.bytes = out.writes = 0;
    DirectTrace t;
    auto env_hook = [&](int, const Info&) -> bool {
      if (e.every_call) advance_ns(e.every_call);
      if (e.wall_jump) jump_wall_ns(e.wall_jump);
      return false;
    };
    if (direct) {
      Direct d{&spec, {}, {}};
      t = direct_solve(d, which, o, spec.x0, env_hook, true, duals);
    } else {
      Built b = build(spec, style);
      for (int k = 0; k < e.passive; ++k) {
        b.p->add_persistent_callback([&, k](const Info& i) -> bool {
          if (e.evaluating) {
            // observe expressions and derivatives
            if (spec.cost >= 0) b.node[spec.cost].value();
            for (int c : spec.eq) b.node[c].value();
            if (k == 1 && spec.cost >= 0) {
              slp::VariableMatrix<double> xs(spec.n);
              for (int q = 0; q < spec.n; ++q) xs[q] = b.x[q];
              slp::Gradient<double> g{b.node[spec.cost], xs};
              g.value();
              if (i.iteration % 3 == 0) {
                slp::Hessian<double, Eigen::Lower> h{b.node[spec.cost], xs};
                h.value();
              }
            }
          }
          return false;
        });
      }
      if (e.no_trace) {
        try {
          t.status = static_cast<int>(b.p->solve(o, e.spy));
        } catch (const std::exception& x) {
          t.threw = true;
          t.what = x.what();
        } catch (...) {
          t.threw = true;
        }
        t.final_x = b.get();
      } else {
        static_cast<Trace&>(t) = traced_solve(b, o, env_hook, true, e.spy);
      }
    }
    heap.active = false;
    out.mode = Out::NORMAL;
    clk.tick_ns = 0;
    clearerr(stdout);
    return t;
  }
};
}  // namespace

void run_world() {
  install_stdout(choose(3));
  Subject s;
  GenOptions go;
  go.nonfinite = true;
  s.spec = gen_problem(go);
  s.direct = chance(1, 3);
  s.duals = s.direct && chance(1, 2);
  s.style = choose(2);
  s.which = natural_solver(s.spec);
  slp::Options o;
  o.tolerance = pick({1e-8, 1e-5, 1e-10});
  o.max_iterations = pick({150, 12, 40});
  o.feasible_ipm = chance(1, 5);
  note("problem %s", s.spec.str().c_str());
  note("%s tol=%g max_iterations=%d feasible_ipm=%d", s.direct ? s.duals ? "direct with multipliers" : "direct" : "Problem", o.tolerance, o.max_iterations, o.feasible_ipm);
  DirectTrace ref = s.run(o, Env{});
  log_trace(ref);
  if (ref.threw) fail("throws", "the quiet solve threw: %s", ref.what.c_str());
  count((std::string("reference ") + status_name(ref.status)).c_str());
  for (int k = range(1, 4); k > 0; --k) {
    Env e = gen_env(s.direct);
    if (s.direct) e.no_trace = false;
    note("environment: %s", e.str().c_str());
    DirectTrace t = s.run(o, e);
    log_trace(t);
    note(" -> %zu callbacks, %s (reference %zu, %s)", t.calls.size(), t.threw ? t.what.c_str() : status_name(t.status), ref.calls.size(), status_name(ref.status));
    if (e.diagnostics) count("fault: diagnostics on");
    if (e.spy) count(e.disk_fails ? "fault: spy on a failing disk" : "fault: spy on");
    if (e.passive) count("fault: passive callbacks");
    if (e.evaluating) count("fault: callbacks evaluate expressions");
    if (e.tick || e.every_call) count("fault: monotonic clock moves");
    if (e.wall_jump) count("fault: wall clock jumps");
    if (e.heap_on) count("fault: heap filled with garbage");
    if (e.earlier) count("fault: earlier work in the process");
    if (e.out_mode && out.writes) count(e.out_mode == 1 ? "fault: stdout stalls" : e.out_mode == 4 ? "fault: stdout writes short" : "fault: stdout fails");
    if (e.code() && ref.calls.size() >= 2) nontrivial();
    if (t.threw) fail("throws", "the solve threw under %s: %s", e.str().c_str(), t.what.c_str());
    if (t.status != ref.status) fail("status", "%s instead of %s under %s", status_name(t.status), status_name(ref.status), e.str().c_str());
    if (!e.no_trace) {
      std::string d = diff_calls(t, ref, std::min(t.calls.size(), ref.calls.size()), true);
      if (!d.empty()) fail("history", "%s under %s", d.c_str(), e.str().c_str());
      if (t.calls.size() != ref.calls.size()) fail("history", "%zu instead of %zu iterations under %s", t.calls.size(), ref.calls.size(), e.str().c_str());
    }
    if (!same_bits(t.final_x, ref.final_x)) fail("iterate", "variables %s instead of %s under %s", vec_str(t.final_x).c_str(), vec_str(ref.final_x).c_str(), e.str().c_str());
    if (s.duals && (!same_bits(t.s, ref.s) || !same_bits(t.y, ref.y) || !same_bits(t.z, ref.z) || !same_bits(t.mu, ref.mu) || t.iterations != ref.iterations))
      fail("multipliers", "s, y, z, mu or the iteration count differ under %s: y %s vs %s, z %s vs %s", e.str().c_str(), vec_str(t.y).c_str(), vec_str(ref.y).c_str(),
           vec_str(t.z).c_str(), vec_str(ref.z).c_str());
    sig(mix64(shape(ref, s.spec.n), e.code()));
  }
}
}  // namespace sim
