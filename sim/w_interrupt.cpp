// C04 (timeouts), C05 (iteration limits), C06 (stop requests): interrupted
// solves are compared with the same solve left alone.
//
// The solver, its user functions and its callbacks run against the simulated
// clock; the uninterrupted run is the reference history, and the interruption
// (deadline, limit or stop) strikes at any point of it, including inside
// feasibility restoration.
#include "model.hpp"

#if defined(WORLD_C04)
#define PROP "C04"
#elif defined(WORLD_C05)
#define PROP "C05"
#else
#define PROP "C06"
#endif

namespace sim {

const WorldInfo world = {
    PROP,
    "each run draws a problem (random nonlinear, convex QP, classics, infeasible/unbounded, badly scaled), a way to state it "
    "(Problem, or user functions handed to newton/sqp/interior_point), options, a fault plan and up to four interruptions; a run is "
    "non-trivial when at least one interruption struck a solve in progress; distinct = distinct event-log hashes",
    "Problem, autodiff, newton, sqp, interior_point, feasibility restoration, filter, regularized LDLT, profilers, printing",
    "monotonic and wall clock (simulated), stdout (discarded by the simulated stream), user functions of the direct variant (reference model)",
    "(solver variant, exit status, number of callbacks, positions where restoration began and ended, interruption point)",
#if defined(WORLD_C04)
    60000, 3000000
#else
    120000, 6000000
#endif
};

namespace {
constexpr int64_t UNIT = 1'000'000'000 / 1024 / 8 * 8;  // stalls are multiples of this

struct Stalls {
  std::vector<std::pair<int, int64_t>> at_call;  // callback index -> ns
  std::vector<std::pair<int, int64_t>> at_eval;  // evaluation index -> ns (direct)
  std::vector<std::pair<uint64_t, int64_t>> at_read;
  std::vector<std::pair<int, int64_t>> wall_jump;  // callback index -> wall clock jump
  int64_t every_call = 0;
};

struct Subject {
  Spec spec;
  bool direct = false;
  int style = 0;
  Solver which = Solver::NEWTON;
  int last_evals = 0;
  bool scribble = false;  // callbacks leave other values in the decision variables

  Trace run(const slp::Options& o, const Stalls& st, const Hook& hook) {
    clk.active = true;
    clk.reset_reads();
    clk.stall_at_read = st.at_read;
    auto stall = [&](int k, const Info& i) -> bool {
      if (st.every_call) advance_ns(st.every_call);
      for (auto& [at, ns] : st.at_call)
        if (at == k) {
          advance_ns(ns);
          count("fault: callback stalls");
        }
      for (auto& [at, ns] : st.wall_jump)
        if (at == k) {
          jump_wall_ns(ns);
          count(ns < 0 ? "fault: wall clock jumps back" : "fault: wall clock jumps forward");
        }
      return hook ? hook(k, i) : false;
    };
    Trace t;
    if (direct) {
      Direct d{&spec, {}, {}};
      d.before = [&](Eval, int k, const std::vector<double>&) {
        for (auto& [at, ns] : st.at_eval)
          if (at == k) {
            advance_ns(ns);
            count("fault: user function stalls");
          }
      };
      t = direct_solve(d, which, o, spec.x0, stall);
      last_evals = d.evals;
    } else {
      Built b = build(spec, style);
      t = traced_solve(b, o, [&](int k, const Info& i) -> bool {
        bool stop = stall(k, i);
        if (scribble) {
          for (size_t j = 0; j < b.x.size(); ++j) b.x[j].set_value(j % 2 ? -7.25 : i.x[j] + 1.0);
          count("fault: callback assigns decision variables");
        }
        return stop;
      });
    }
    clk.stall_at_read.clear();
    return t;
  }
};

std::vector<double> prefix(const std::vector<double>& v, int n) { return {v.begin(), v.begin() + std::min<size_t>(n, v.size())}; }

/// The decision variables the uninterrupted solve had when `done` callbacks
/// had been made and their iterations finished.
std::vector<double> reached(const Trace& ref, size_t done, int n) {
  return done < ref.calls.size() ? prefix(ref.calls[done].x, n) : ref.final_x;
}

void check_prefix(const char* cls, const Trace& t, const Trace& ref, size_t k, const char* what) {
  if (t.calls.size() > ref.calls.size() || k > ref.calls.size())
    fail(cls, "%s: %zu callbacks, the uninterrupted solve makes %zu", what, t.calls.size(), ref.calls.size());
  std::string d = diff_calls(t, ref, k, false);
  if (!d.empty()) fail(cls, "%s: history differs from the uninterrupted solve: %s", what, d.c_str());
}

/// Draws an index into the history, biased to the ends and to restoration.
size_t interesting(const Trace& ref, int n) {
  size_t N = ref.calls.size();
  std::vector<size_t> r, edge;
  for (size_t i = 0; i < N; ++i) {
    bool a = in_restoration(ref, i, n), b = i > 0 && in_restoration(ref, i - 1, n);
    if (a) r.push_back(i);
    if (a != b) edge.push_back(i);
  }
  switch (choose(5)) {
    case 0: return std::min<size_t>(choose(3), N - 1);
    case 1: return N - 1 - std::min<size_t>(choose(3), N - 1);
    case 2:
      if (!r.empty()) return r[choose(r.size())];
      return choose(N);
    case 3:
      if (!edge.empty()) {
        size_t e = edge[choose(edge.size())];
        return std::min(N - 1, e + choose(2));
      }
      return choose(N);
    default: return choose(N);
  }
}

slp::Options gen_options() {
  slp::Options o;
  o.tolerance = pick({1e-8, 1e-6, 1e-4, 1e-10});
  o.max_iterations = 160;
  o.feasible_ipm = chance(1, 5);
  o.diagnostics = chance(1, 10);
  return o;
}
}  // namespace

void run_world() {
  install_stdout(2);
  Subject s;
  GenOptions go;
  go.nonfinite = true;
  s.spec = gen_problem(go);
  s.direct = chance(1, 3);
  s.style = choose(2);
  s.which = natural_solver(s.spec);
  slp::Options o = gen_options();
  note("problem %s", s.spec.str().c_str());
  note("%s tol=%g feasible_ipm=%d diagnostics=%d", s.direct ? "direct" : "Problem", o.tolerance, o.feasible_ipm, o.diagnostics);
  const int n = s.spec.n;

  Trace ref = s.run(o, {}, {});
  int evals = s.last_evals;
  log_trace(ref);
  if (ref.threw) fail("throws", "the uninterrupted solve threw: %s", ref.what.c_str());
  if (ref.status == ST_STOP) fail("stop-without-request", "CALLBACK_REQUESTED_STOP although no callback requested it");
  if (ref.status == ST_TIMEOUT) fail("timeout-without-limit", "TIMEOUT with the default infinite timeout");
  count((std::string("reference ") + status_name(ref.status)).c_str());
  note("reference: %zu callbacks, %s", ref.calls.size(), status_name(ref.status));
  if (ref.calls.empty()) return;
  for (size_t i = 0; i < ref.calls.size(); ++i)
    if (in_restoration(ref, i, n)) {
      count("probe: solve with restoration");
      break;
    }

  const int interruptions = range(1, 4);
  for (int q = 0; q < interruptions; ++q) {
    s.scribble = !s.direct && chance(1, 4);
    if (s.scribble) note("callbacks assign decision variables");
#if defined(WORLD_C05)
    size_t at = interesting(ref, n);
    int k = std::min(o.max_iterations, std::max(1, ref.calls[at].iteration + static_cast<int>(choose(3))));
    slp::Options ok = o;
    ok.max_iterations = k;
    Trace t = s.run(ok, {}, {});
    log_trace(t);
    size_t m = 0;
    while (m < ref.calls.size() && ref.calls[m].iteration < k) m++;
    note("max_iterations=%d -> %zu callbacks, %s", k, t.calls.size(), status_name(t.status));
    if (t.threw) fail("throws", "limited solve threw: %s", t.what.c_str());
    // Counted without trusting the iteration numbers shown: apart from the
    // repeated one on entry to restoration, every call is a new iteration.
    size_t work = 0;
    for (size_t i = 0; i < t.calls.size(); ++i)
      if (!(in_restoration(t, i, n) && (i == 0 || !in_restoration(t, i - 1, n)))) work++;
    if (work > static_cast<size_t>(k))
      fail("over-limit", "max_iterations=%d: %zu iterations ran (%zu callbacks; the last shows iteration %d)", k, work, t.calls.size(), t.calls.back().iteration);
    if (t.calls.size() > m)
      fail("over-limit", "max_iterations=%d: %zu callbacks instead of at most %zu (last iteration %d)", k, t.calls.size(), m,
           t.calls.back().iteration);
    check_prefix("limit-changes-history", t, ref, t.calls.size(), "limited solve");
    if (t.calls.size() < m) fail("under-limit", "max_iterations=%d: stopped after %zu of %zu callbacks with %s", k, t.calls.size(), m, status_name(t.status));
    bool cut = m < ref.calls.size();
    int last = ref.calls.back().iteration;
    if (cut) {
      nontrivial();
      count(in_restoration(ref, m - 1, n) ? "fault: limit strikes in restoration" : "fault: limit strikes in a normal iteration");
      if (t.status != ST_MAXIT)
        fail("limit-status", "max_iterations=%d cut the solve short (reference: %d iterations) but it returned %s", k, last + 1, status_name(t.status));
    } else if (k > last + 1) {
      if (t.status != ref.status)
        fail("limit-status", "max_iterations=%d is larger than the %d iterations needed but the status is %s instead of %s", k, last + 1,
             status_name(t.status), status_name(ref.status));
    } else if (t.status != ST_MAXIT && t.status != ref.status) {
      fail("limit-status", "max_iterations=%d: %s instead of MAX_ITERATIONS_EXCEEDED or %s", k, status_name(t.status), status_name(ref.status));
    }
    auto want = reached(ref, m, n);
    if (!same_bits(t.final_x, want))
      fail("limit-iterate", "max_iterations=%d (%s): variables hold %s instead of the iterate reached %s", k, status_name(t.status),
           vec_str(t.final_x).c_str(), vec_str(want).c_str());
    sig(mix64(mix64(shape(ref, n), k), s.direct * 4 + static_cast<int>(s.which)));
#elif defined(WORLD_C06)
    size_t at = interesting(ref, n);
    if (s.direct || chance(1, 2)) {
      Trace t = s.run(o, {}, [&](int k, const Info&) { return k == static_cast<int>(at); });
      log_trace(t);
      note("stop at callback %zu (iteration %d%s) -> %zu callbacks, %s", at, ref.calls[at].iteration,
           in_restoration(ref, at, n) ? ", restoration" : "", t.calls.size(), status_name(t.status));
      nontrivial();
      count(in_restoration(ref, at, n) ? "fault: stop in restoration" : "fault: stop in a normal iteration");
      if (t.threw) fail("throws", "stopped solve threw: %s", t.what.c_str());
      if (t.calls.size() > at + 1) fail("stop-ignored", "%zu callbacks ran after the stop request (status %s)", t.calls.size() - at - 1, status_name(t.status));
      check_prefix("stop-changes-history", t, ref, t.calls.size(), "stopped solve");
      if (t.calls.size() < at + 1) fail("stop-early", "only %zu of %zu callbacks ran", t.calls.size(), at + 1);
      if (t.status != ST_STOP) fail("stop-status", "a stop was requested at callback %zu (iteration %d%s) but solve() returned %s", at,
                                    ref.calls[at].iteration, in_restoration(ref, at, n) ? ", in restoration" : "", status_name(t.status));
      auto want = prefix(ref.calls[at].x, n);
      if (!same_bits(t.final_x, want))
        fail("stop-iterate", "stop at callback %zu: variables hold %s instead of %s", at, vec_str(t.final_x).c_str(), vec_str(want).c_str());
    } else {
      // Several callbacks, one of which asks to stop; it may be a persistent one.
      int nc = range(1, 3), np = range(0, 2), who = choose(nc + np);
      Built b = build(s.spec, s.style);
      std::vector<std::vector<int>> seen(nc + np);
      bool stopped = false;
      int after = 0;
      std::vector<double> shown;
      auto make = [&](int id) {
        return [&, id](const Info& i) -> bool {
          if (stopped) after++;
          seen[id].push_back(i.iteration);
          if (s.scribble)
            for (auto& v : b.x) v.set_value(id + 0.5);
          if (id == who && seen[id].size() == at + 1) {
            stopped = true;
            shown = prefix(to_std(i.x), n);
            return true;
          }
          return false;
        };
      };
      for (int i = 0; i < nc; ++i) b.p->add_callback(make(i));
      for (int i = 0; i < np; ++i) b.p->add_persistent_callback(make(nc + i));
      int st = static_cast<int>(b.p->solve(o));
      log(st + 100);
      note("%d+%d callbacks, number %d stops at its call %zu -> %s", nc, np, who, at, status_name(st));
      nontrivial();
      count("fault: stop by one of several callbacks");
      if (!stopped) fail("stop-early", "callback %d was called %zu times instead of %zu", who, seen[who].size(), at + 1);
      if (after) fail("stop-ignored", "%d callbacks ran after the stop request", after);
      if (st != ST_STOP) fail("stop-status", "one of %d callbacks requested a stop but solve() returned %s", nc + np, status_name(st));
      auto fx = b.get();
      if (!same_bits(fx, shown) || !same_bits(shown, prefix(ref.calls[at].x, n)))
        fail("stop-iterate", "variables hold %s, the stopping callback was shown %s", vec_str(fx).c_str(), vec_str(shown).c_str());
    }
    sig(mix64(mix64(shape(ref, n), at), s.direct * 4 + static_cast<int>(s.which)));
#else
    // ---- fault plan -----------------------------------------------------
    Stalls st;
    size_t N = ref.calls.size();
    bool ambiguous = false;
    if (chance(1, 2)) st.every_call = UNIT * range(1, 4);
    for (int i = range(st.every_call ? 0 : 1, 3); i > 0; --i) st.at_call.push_back({static_cast<int>(interesting(ref, n)), UNIT * pick({8, 1, 64, 4096, 1024 * 3600})});
    if (s.direct)
      for (int i = range(0, 3); i > 0; --i) st.at_eval.push_back({static_cast<int>(choose(std::max(1, evals))), UNIT * pick({16, 1, 512})});
    else if (chance(1, 3)) {
      // stalls between any two reads of the clock, wherever those are
      // (from the first callback on: the time it takes to set up derivatives
      // before the first iteration may or may not count)
      uint64_t first = ref.calls[0].reads, reads = clk.mono_reads - std::min(first, clk.mono_reads);
      for (int i = range(1, 2); i > 0; --i) st.at_read.push_back({first + choose(reads + 1), UNIT * pick({32, 8})});
      ambiguous = true;
    }
    for (int i = range(0, 2); i > 0; --i) st.wall_jump.push_back({static_cast<int>(choose(N)), pick({int64_t{-1}, int64_t{1}}) * 3'600'000'000'000 * range(1, 1000)});

    int64_t t0 = clk.mono_ns;
    Trace slow = s.run(o, st, {});
    log_trace(slow);
    if (slow.status == ST_TIMEOUT) fail("timeout-without-limit", "TIMEOUT with an infinite timeout under stalls");
    check_prefix("time-changes-history", slow, ref, slow.calls.size(), "stalled solve without timeout");
    if (slow.calls.size() != N || slow.status != ref.status || !same_bits(slow.final_x, ref.final_x))
      fail("time-changes-history", "stalls alone changed the solve: %zu callbacks %s vs %zu %s", slow.calls.size(), status_name(slow.status), N, status_name(ref.status));
    // ---- deadline -----------------------------------------------------------
    // begin[i]: elapsed time when callback i began; elapsed at the very end
    std::vector<int64_t> begin;
    for (auto& c : slow.calls) begin.push_back(c.t_ns - t0);
    int64_t end = slow.t_end - t0;
    slp::Options ot = o;
    int64_t limit;
    {
      size_t i = interesting(ref, n);
      int64_t lo = begin[i], hi = i + 1 < N ? begin[i + 1] : end;
      switch (choose(4)) {
        case 0: limit = lo + UNIT / 2; break;
        case 1: limit = hi - UNIT / 2; break;
        case 2: limit = end + UNIT / 2 + UNIT * choose(1000); break;
        default: limit = (lo + hi) / 2 / UNIT * UNIT + UNIT / 2; break;
      }
      if (limit < 0) limit = UNIT / 2;
    }
    ot.timeout = std::chrono::duration<double>(limit * 1e-9);
    int64_t t1 = clk.mono_ns;
    Trace t = s.run(ot, st, {});
    log_trace(t);
    size_t done = t.calls.size();
    note("stalls: every callback %g s, %zu at callbacks, %zu at evaluations, %zu inside the solver, %zu wall jumps; timeout %.6f s of %.6f s",
         st.every_call * 1e-9, st.at_call.size(), st.at_eval.size(), st.at_read.size(), st.wall_jump.size(), limit * 1e-9, end * 1e-9);
    note(" -> %zu of %zu callbacks, %s at %.6f s", done, N, status_name(t.status), (t.t_end - t1) * 1e-9);
    if (t.threw) fail("throws", "solve with a timeout threw: %s", t.what.c_str());
    if (t.status == ST_TIMEOUT && t.t_end - t1 < limit - UNIT / 4)
      fail("timeout-early", "TIMEOUT after %.9f s although the timeout is %.9f s", (t.t_end - t1) * 1e-9, limit * 1e-9);
    size_t c = 1;
    while (c < N && begin[c] <= limit) c++;
    // [lo, hi]: how many callbacks may have been made
    size_t lo = c, hi = c;
    if (c < N && in_restoration(ref, c, n) && !in_restoration(ref, c - 1, n)) hi++;  // restoration starts within the iteration
    if (ambiguous) hi++;  // the stall may fall between the check and the callback
    if (hi < N && ambiguous && in_restoration(ref, hi, n) && !in_restoration(ref, hi - 1, n)) hi++;
    hi = std::min(hi, N);
    if (done > hi)
      fail("timeout-ignored", "timeout %.6f s: %zu callbacks ran, number %zu began after %.6f s (%s)", limit * 1e-9, done, hi, begin[std::min(hi, N - 1)] * 1e-9,
           status_name(t.status));
    check_prefix("timeout-changes-history", t, slow, done, "solve with timeout");
    if (done < lo) fail("timeout-early", "timeout %.6f s: ended with %s after %zu callbacks (%.6f s)", limit * 1e-9, status_name(t.status), done, (t.t_end - t1) * 1e-9);
    if (done < N) {
      nontrivial();
      count(in_restoration(ref, done - 1, n) ? "fault: deadline passes in restoration" : "fault: deadline passes in a normal iteration");
      if (t.status != ST_TIMEOUT)
        fail("timeout-status", "timeout %.6f s passed at callback %zu of %zu%s but the status is %s", limit * 1e-9, done, N,
             in_restoration(ref, done - 1, n) ? " (in restoration)" : "", status_name(t.status));
    } else if (end > limit) {
      count("fault: deadline passes in the last iteration");
      if (t.status != ST_TIMEOUT && t.status != ref.status) fail("timeout-status", "%s instead of TIMEOUT or %s", status_name(t.status), status_name(ref.status));
    } else if (t.status != ref.status) {
      fail("timeout-status", "the timeout never passed but the status is %s instead of %s", status_name(t.status), status_name(ref.status));
    }
    auto want = reached(slow, done, n);
    if (!same_bits(t.final_x, want))
      fail("timeout-iterate", "%s after %zu callbacks: variables hold %s instead of the iterate reached %s", status_name(t.status), done,
           vec_str(t.final_x).c_str(), vec_str(want).c_str());
    sig(mix64(mix64(shape(ref, n), done), s.direct * 4 + static_cast<int>(s.which)));
#endif
  }
}
}  // namespace sim
