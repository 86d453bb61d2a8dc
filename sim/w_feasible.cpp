// C15: feasible_ipm keeps satisfied inequality constraints satisfied.
//
// Solves with inequality constraints run under injected nonfinite evaluations
// (everywhere, or wherever a constraint is violated - a model that cannot be
// evaluated outside of its domain), interruptions and warm restarts; every
// iterate shown to callbacks is judged by the reference evaluator.
#include "model.hpp"

namespace sim {

const WorldInfo world = {
    "C15",
    "each run draws a problem with inequality constraints (starting points inside and outside), feasible_ipm on, a way to state it, evaluation faults and up to "
    "three warm-started solves; non-trivial: an iterate with all inequality constraints strictly satisfied was followed by at least two more regular iterates; "
    "distinct = distinct event-log hashes",
    "Problem, autodiff, interior_point (line search, second-order corrections, fallback step), feasibility restoration",
    "clocks, stdout (simulated); user functions of the direct variant (reference model)",
    "(solve's shape, iteration at which the iterates became feasible, faults)",
    60000, 4000000};

void run_world() {
  install_stdout(2);
  clk.active = true;
  GenOptions go;
  go.newton = go.sqp = false;
  go.nonfinite = true;
  Spec spec = gen_problem(go);
  for (int k = 0; spec.ineq.empty(); ++k) {
    if (k == 8) discard("no inequality constraints");
    spec = gen_problem(go);
  }
  const int n = spec.n;
  // Often start strictly inside: try a few points
  auto margin = [&](const std::vector<double>& x) {
    auto v = eval_values<double>(spec.ast, x);
    double m = INFINITY;
    for (int e : spec.ineq) m = std::isnan(v[e]) ? -INFINITY : std::min(m, v[e]);
    return m;
  };
  if (chance(2, 3)) {
    for (int k = 0; k < 12 && !(margin(spec.x0) > 0); ++k)
      for (auto& v : spec.x0) v = (range(0, 24) - 12) / 4.0;
  }
  note("problem %s", spec.str().c_str());
  bool direct = chance(1, 2);
  slp::Options o;
  o.feasible_ipm = true;
  o.tolerance = pick({1e-8, 1e-5, 1e-10});
  o.max_iterations = 120;
  std::vector<double> x = spec.x0;
  uint64_t h = direct;
  int solves = range(1, 3);
  for (int q = 0; q < solves; ++q) {
    int cut = q + 1 < solves ? pick({2, 1, 4, 9, 1000}) : 1000;
    bool feasible = false;
    int since = -1, after = 0;
    std::vector<double> prev;
    size_t bad_evals = 0;
    auto judge = [&](const char* where, int it, const std::vector<double>& xs) {
      auto v = eval_values<double>(spec.ast, xs);
      std::vector<double> tol(spec.ineq.size(), 0);
      double m = INFINITY, lo = INFINITY;
      size_t worst = 0;
      std::optional<std::vector<Dual<double>>> err;
      for (size_t k = 0; k < spec.ineq.size(); ++k) {
        double c = v[spec.ineq[k]];
        // The library's own evaluation order may round differently
        if (!direct && std::abs(c) < 1e-2) {
          if (!err) err = eval_errors(spec.ast, xs);
          tol[k] = 1e-13 * (*err)[spec.ineq[k]].v;
          if (!std::isfinite(tol[k])) tol[k] = INFINITY;
        }
        if (std::isnan(c)) {
          m = -INFINITY;
          continue;
        }
        m = std::min(m, c - tol[k]);
        if (c + tol[k] < lo) {
          lo = c + tol[k];
          worst = k;
        }
      }
      log(m > 0);
      if (feasible && lo < 0)
        fail("became-infeasible", "solve %d, %s %d: constraint %zu is %.17g at %s although all were strictly satisfied since iteration %d (previous iterate %s)", q, where, it, worst,
             v[spec.ineq[worst]], vec_str(xs).c_str(), since, vec_str(prev).c_str());
      if (feasible) after++;
      if (!feasible && m > 0) {
        feasible = true;
        since = it;
      }
      prev = xs;
    };
    bool was_restoring = false;
    auto hook = [&](int k, const Info& i) -> bool {
      if (i.x.size() == n) {
        if (was_restoring) {
          // Restoration gives up feasibility on purpose: start over
          if (feasible) count("probe: restoration from a feasible iterate");
          auto xs = to_std(i.x);
          if (feasible && margin(xs) <= 0) count("probe: restoration left the feasible set");
          feasible = false;
          since = -1;
        }
        was_restoring = false;
        judge("iteration", i.iteration, to_std(i.x));
      } else {
        was_restoring = true;
      }
      return k + 1 >= cut;
    };
    Trace t;
    if (direct) {
      std::vector<std::pair<int, double>> bad;
      int mode = choose(4);
      if (mode == 1)
        for (int k = range(1, 5); k > 0; --k) bad.push_back({7 + static_cast<int>(choose(120)), pick({std::nan(""), (double)INFINITY, -(double)INFINITY})});
      Direct d{&spec, {}, {}};
      d.after = [&](Eval e, int i, const std::vector<double>& xs, double* v, size_t m) {
        if (mode == 1) {
          if (e == Eval::F || e == Eval::CE || e == Eval::CI)
            for (auto& [at, val] : bad)
              if (at == i && m) {
                v[choose(1)] = val;
                bad_evals++;
                count("fault: transient nonfinite evaluation");
              }
        } else if (mode == 2 && e == Eval::F) {
          // the cost cannot be evaluated outside of the feasible set
          if (!(margin(xs) > 0)) {
            v[0] = NAN;
            bad_evals++;
            count("fault: cost undefined where constraints are violated");
          }
        }
      };
      Spec s2 = spec;
      s2.x0 = x;
      d.spec = &s2;
      t = direct_solve(d, Solver::IP, o, x, hook);
    } else {
      Spec s2 = spec;
      s2.x0 = x;
      Built b = build(s2, choose(2));
      t = traced_solve(b, o, hook);
    }
    log_trace(t);
    if (t.threw) fail("throws", "%s", t.what.c_str());
    note("solve %d from %s: %zu callbacks, %s, feasible since %d, %zu evaluation faults", q, vec_str(x).c_str(), t.calls.size(), status_name(t.status), since, bad_evals);
    count((std::string("ended ") + status_name(t.status)).c_str());
    if (!was_restoring && t.status != ST_DIVERGE && !t.calls.empty()) judge("returned point after iteration", t.calls.back().iteration, t.final_x);
    if (after >= 2) nontrivial();
    h = mix64(mix64(h, shape(t, n)), since * 64 + bad_evals);
    bool fin = true;
    for (double v : t.final_x) fin = fin && std::isfinite(v) && std::abs(v) < 1e6;
    if (!fin) break;
    x = t.final_x;
    if (chance(1, 3))
      for (auto& v : x) v += range(-2, 2) / 64.0;
  }
  sig(h);
}
}  // namespace sim
