// C22: convex problems are solved once faults stop.
//
// A strictly convex problem is constructed around its solution.  Attempts to
// solve it are ended in every way (stops, limits, deadlines, exceptions,
// nonfinite evaluations, failing allocations); the next undisturbed solve, from
// wherever they left the variables, must find the solution in a bounded number
// of iterations.
#include <new>
#include <stdexcept>

#include <Eigen/Eigenvalues>
#include <Eigen/SVD>

#include "model.hpp"

namespace sim {

const WorldInfo world = {
    "C22",
    "each run constructs a strictly convex problem around a solution with independent active constraints and positive multipliers (equalities, active and inactive inequalities and bounds, convex "
    "nonlinear terms, inactive concave constraints, factors), a way to state it and up to three attempts ended by faults; then an undisturbed solve from where they left the variables or from new values; "
    "non-trivial: an attempt was ended by a fault after at least one iteration, or the undisturbed solve took at least five; distinct = distinct event-log hashes",
    "Problem, autodiff, newton, sqp, interior_point, feasibility restoration",
    "clocks, stdout, malloc (failing); user functions of the direct variant (reference model)",
    "(solver, way to state the problem, how attempts ended, shape of the undisturbed solve)",
    60000, 6000000};

namespace {
struct Boom : std::runtime_error {
  Boom() : std::runtime_error("boom") {}
};
double frac(int lo, int hi, double den) { return range(lo, hi) / den; }

struct Convex {
  Spec s;
  std::vector<double> x;      // solution
  int active = 0;
  bool ok = false;
};
int affine(Ast& a, const std::vector<double>& row, double c) {
  int r = -1;
  for (size_t i = 0; i < row.size(); ++i) {
    if (row[i] == 0) continue;
    int t = a.var(i);
    if (row[i] != 1) t = a.bin(Op::MUL, a.cst(row[i]), t);
    r = r < 0 ? t : a.bin(Op::ADD, r, t);
  }
  if (c != 0 || r < 0) r = r < 0 ? a.cst(c) : a.bin(c < 0 ? Op::SUB : Op::ADD, r, a.cst(std::abs(c)));
  return r;
}
Convex gen() {
  Convex c;
  Spec& s = c.s;
  Ast& a = s.ast;
  const int n = s.n = range(1, 5);
  s.family = "convex";
  for (int i = 0; i < n; ++i) c.x.push_back(frac(-12, 12, 4));
  auto dot = [&](const std::vector<double>& r) {
    double d = 0;
    for (int i = 0; i < n; ++i) d += r[i] * c.x[i];
    return d;
  };
  auto row = [&] {
    std::vector<double> r(n, 0.0);
    if (chance(1, 3)) {
      r[choose(n)] = pick({1.0, -1.0, 2.0, -0.5});
      return r;
    }
    for (auto& v : r) v = chance(1, 4) ? 0 : frac(-6, 6, 4);
    return r;
  };
  // constraints that hold with equality at the solution
  MatX active(0, n);
  auto add_active = [&](const std::vector<double>& r) {
    MatX m(active.rows() + 1, n);
    m.topRows(active.rows()) = active;
    for (int i = 0; i < n; ++i) m(active.rows(), i) = r[i];
    Eigen::JacobiSVD<MatX> svd(m);
    if (svd.singularValues().minCoeff() < 0.3) return false;
    active = m;
    return true;
  };
  int kind = choose(4);  // unconstrained, equalities only, inequalities only, both
  VecX g = VecX::Zero(n);
  if (kind & 1)
    for (int k = range(1, 2); k > 0; --k) {
      auto r = row();
      if (active.rows() + 1 >= std::max(2, n) || !add_active(r)) continue;
      double y = frac(-8, 8, 4);
      for (int i = 0; i < n; ++i) g[i] += y * r[i];
      double f = pick({1.0, 1.0, 4.0, 0.25, 256.0});
      int e = affine(a, r, -dot(r));
      s.eq.push_back(f == 1 ? e : a.bin(Op::MUL, a.cst(f), e));
    }
  if (kind & 2) {
    for (int k = range(0, 3); k > 0; --k) {
      auto r = row();
      if (active.rows() >= n || !add_active(r)) continue;
      double z = frac(2, 12, 4);
      for (int i = 0; i < n; ++i) g[i] += z * r[i];
      double f = pick({1.0, 1.0, 4.0, 0.25, 256.0});
      int e = affine(a, r, -dot(r));
      s.ineq.push_back(f == 1 ? e : a.bin(Op::MUL, a.cst(f), e));
      ++c.active;
    }
    for (int k = range(0, 3); k > 0; --k) {
      if (!(kind & 1) && chance(1, 4)) {
        // a ball around a point near the solution
        int q = -1;
        double rad = 0;
        for (int i = 0; i < n; ++i) {
          double d = frac(-4, 4, 4);
          int t = a.un(Op::SQUARE, a.bin(Op::SUB, a.var(i), a.cst(c.x[i] + d)));
          q = q < 0 ? t : a.bin(Op::ADD, q, t);
          rad += d * d;
        }
        s.ineq.push_back(a.bin(Op::SUB, a.cst(rad + frac(4, 40, 4)), q));
      } else {
        auto r = row();
        double l = 0;
        for (double v : r) l += v * v;
        if (l == 0) continue;
        s.ineq.push_back(affine(a, r, -dot(r) + frac(2, 20, 4)));
      }
    }
  }
  // cost: squares, convex terms that are stationary at the solution, and g'x
  int f = -1;
  auto plus = [&](int t) { f = f < 0 ? t : a.bin(Op::ADD, f, t); };
  for (int i = 0; i < n; ++i) {
    std::vector<double> r(n, 0.0);
    r[i] = 1;
    int t = a.un(Op::SQUARE, affine(a, r, -dot(r)));
    plus(a.bin(Op::MUL, a.cst(frac(1, 12, 4)), t));
  }
  for (int k = choose(3); k > 0; --k) {
    auto r = row();
    int t = a.un(Op::SQUARE, affine(a, r, -dot(r)));
    plus(a.bin(Op::MUL, a.cst(frac(1, 12, 4)), t));
  }
  if (chance(1, 3))
    for (int k = range(1, 2); k > 0; --k) {
      int i = choose(n);
      int d = a.bin(Op::SUB, a.var(i), a.cst(c.x[i]));
      switch (choose(3)) {
        case 0: plus(a.bin(Op::SUB, a.un(Op::EXP, d), d)); break;
        case 1: plus(a.un(Op::COSH, d)); break;
        case 2: plus(a.un(Op::SQRT, a.bin(Op::ADD, a.cst(1), a.un(Op::SQUARE, d)))); break;
      }
    }
  std::vector<double> gr(g.data(), g.data() + n);
  plus(affine(a, gr, 0));
  double scale = pick({1.0, 1.0, 0.25, 16.0, 512.0});
  if (scale != 1) f = a.bin(Op::MUL, a.cst(scale), f);
  s.cost = f;
  if (chance(1, 8)) {
    s.cost = a.un(Op::NEG, f);
    s.maximize = true;
  }
  for (int i = 0; i < n; ++i) s.x0.push_back(frac(-20, 20, 4));
  c.ok = true;
  return c;
}
}  // namespace

void run_world() {
  install_stdout(2);
  clk.active = true;
  Convex c = gen();
  Spec& spec = c.s;
  if (chance(1, 2)) spec.form = 1 + choose(1u << 20);
  note("problem %s", spec.str().c_str());
  note("solution %s", vec_str(c.x).c_str());
  slp::Options o;
  o.tolerance = pick({1e-8, 1e-8, 1e-6, 1e-6});
  bool direct = chance(1, 3);
  Solver which = natural_solver(spec);
  if (direct && which == Solver::NEWTON && chance(1, 4)) which = Solver::SQP;
  Built b;
  if (!direct) b = build(spec, choose(3));
  std::vector<double> x = spec.x0;
  uint64_t h = mix64(direct, static_cast<int>(which));
  bool cut = false;
  for (int k = choose(4); k > 0; --k) {
    slp::Options q = o;
    q.feasible_ipm = chance(1, 6);
    q.max_iterations = 100;
    int how = choose(direct ? 6 : 5), at = pick({0, 1, 2, 3, 5, 8});
    clk.mono_ns = 1'000'000'000;
    if (how == 1) q.max_iterations = at + 1;
    if (how == 2) q.timeout = std::chrono::duration<double>(at + 0.5);
    if (how == 4) {
      heap.seen = heap.failures = 0;
      heap.fail_from = pick({100, 1000, 5000, 20000, 300}) + choose(3000);
      heap.fail_count = pick({1, 3, 1 << 30});
    }
    auto hook = [&](int i, const Info&) -> bool {
      advance_ns(1'000'000'000);
      if (how == 0 && i == at) return true;
      if (how == 3 && i == at) throw Boom();
      return false;
    };
    Trace t;
    if (direct) {
      Direct d{&spec};
      int from = choose(60), len = pick({1, 3, 10, 1 << 30}), what = choose(3);
      if (how == 5)
        d.after = [&](Eval, int i, const std::vector<double>&, double* v, size_t m) {
          if (i >= from && i - from < len && m) v[choose(m)] = what == 0 ? NAN : what == 1 ? INFINITY : -INFINITY;
        };
      heap.armed = how == 4;
      try {
        static_cast<Trace&>(t) = direct_solve(d, which, q, x, hook);
      } catch (const std::bad_alloc&) {
        t.threw = true;
        t.what = "bad_alloc";
      }
      heap.armed = false;
      if (!t.final_x.empty()) x = t.final_x;
    } else {
      b.set(x);
      heap.armed = how == 4;
      try {
        t = traced_solve(b, q, hook);
      } catch (const std::bad_alloc&) {
        t.threw = true;
        t.what = "bad_alloc";
      }
      heap.armed = false;
      x = b.get();
    }
    static const char* const names[] = {"stop", "iteration limit", "deadline", "exception from a callback", "failing allocation", "nonfinite evaluations"};
    bool ended = t.threw || t.status != ST_SUCCESS;
    if (ended) count((std::string("fault: attempt ended by ") + names[how]).c_str());
    cut |= ended && t.calls.size() > 1;
    note("attempt with %s -> %zu callbacks, %s", names[how], t.calls.size(), t.threw ? t.what.c_str() : status_name(t.status));
    log(t.calls.size());
    log(t.threw ? 77 : t.status);
    h = mix64(h, how * 100 + t.status);
  }
  bool far = chance(1, 3);
  for (double v : x) far |= !(std::abs(v) < 50);
  if (far)
    for (auto& v : x) v = frac(-20, 20, 4);
  // undisturbed
  o.max_iterations = 5000;
  Trace t;
  if (direct) {
    Direct d{&spec};
    static_cast<Trace&>(t) = direct_solve(d, which, o, x);
  } else {
    b.set(x);
    t = traced_solve(b, o);
  }
  log_trace(t);
  note("undisturbed from %s: %zu callbacks, %s at %s", vec_str(x).c_str(), t.calls.size(), status_name(t.status), vec_str(t.final_x).c_str());
  if (t.threw) fail("unsolved", "an undisturbed solve threw %s", t.what.c_str());
  double err = 0;
  for (int i = 0; i < spec.n; ++i) err = std::max(err, std::abs(t.final_x[i] - c.x[i]));
  if (t.status != ST_SUCCESS) {
    // Changes of the cost below its rounding error can't guide a solver, so it
    // may stall next to the solution.
    double f = eval_values<double>(spec.ast, t.final_x)[spec.cost], best = eval_values<double>(spec.ast, c.x)[spec.cost];
    if (!(err <= 1e-6) || !(std::abs(f - best) <= 1e-14 * std::max(1.0, std::abs(best))))
      fail("unsolved", "%s after %zu iterations of an undisturbed solve of a convex problem", status_name(t.status), t.calls.size());
    count("stalled within rounding of the solution");
  }
  if (!(err <= 1e-3)) fail("wrong", "SUCCESS at %s, but the solution is %s", vec_str(t.final_x).c_str(), vec_str(c.x).c_str());
  if (t.status == ST_SUCCESS && t.calls.size() > 500) fail("slow", "%zu iterations", t.calls.size());
  count(t.calls.size() < 10 ? "solved in less than 10 iterations" : t.calls.size() < 30 ? "solved in less than 30 iterations" : t.calls.size() < 60 ? "solved in less than 60 iterations" : t.calls.size() < 200 ? "solved in less than 200 iterations" : t.calls.size() < 500 ? "solved in less than 500 iterations" : "solved in 500 iterations or more");
  if (cut || t.calls.size() >= 5) nontrivial();
  sig(mix64(h, shape(t, spec.n)));
}
}  // namespace sim
