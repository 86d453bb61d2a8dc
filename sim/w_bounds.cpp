// C24: with bound projection, solves stay strictly within the bounds.
//
// Compiled with SLEIPNIR_ENABLE_BOUND_PROJECTION.  Convex problems constructed
// around their solutions, with costs that are undefined beyond the bounds, and
// arbitrary ones with bounds added; attempts ended in every way, with guesses
// anywhere.  Iterates and evaluated points are checked against the bounds, and
// undisturbed solves of the convex problems must find the solution.
#include <algorithm>
#include <new>
#include <stdexcept>

#include <Eigen/SVD>

#include "model.hpp"

namespace sim {

const WorldInfo world = {
    "C24",
    "each run constructs a problem with bounds on its variables (any sign and size of coefficient, several per variable, tight, equal, or conflicting, next to constraints that only look like bounds), either strictly "
    "convex around a known solution with a cost that is undefined beyond the bounds or arbitrary, and up to four solves from guesses anywhere, ended by faults, then an undisturbed one; "
    "non-trivial: a guess was beyond a bound and the solve made at least three iterations; distinct = distinct event-log hashes",
    "Problem, autodiff, interior_point, bound detection and projection, feasibility restoration, in the SLEIPNIR_ENABLE_BOUND_PROJECTION configuration",
    "clocks, stdout, malloc (failing); user functions of the direct variant (reference model)",
    "(family, direct, how attempts ended, shape of the undisturbed solve, bounds the guess was beyond)",
    50000, 5000000};

namespace {
constexpr double INF = HUGE_VAL;
struct Boom : std::runtime_error {
  Boom() : std::runtime_error("boom") {}
};
double frac(int lo, int hi, double den) { return range(lo, hi) / den; }
struct Bound {
  double lo = -INF, hi = INF;
};
struct Prob {
  Spec s;
  std::vector<Bound> b;
  std::vector<bool> mask;
  std::vector<double> x;  // solution, if known
  bool conflict = false, tight = false, convex = false;
};
int affine(Ast& a, const std::vector<double>& row, double c) {
  int r = -1;
  for (size_t i = 0; i < row.size(); ++i) {
    if (row[i] == 0) continue;
    int t = a.var(i);
    if (row[i] != 1) t = a.bin(Op::MUL, a.cst(row[i]), t);
    r = r < 0 ? t : a.bin(Op::ADD, r, t);
  }
  if (c != 0 || r < 0) r = r < 0 ? a.cst(c) : a.bin(c < 0 ? Op::SUB : Op::ADD, r, a.cst(std::abs(c)));
  return r;
}
/// One of several ways to state k (x_i - v) >= 0; all arithmetic is exact.
int bound_expr(Ast& a, int i, double k, double v) {
  int x = a.var(i);
  switch (choose(4)) {
    case 0: return a.bin(Op::MUL, a.cst(k), a.bin(Op::SUB, x, a.cst(v)));
    case 1: return a.bin(Op::SUB, a.bin(Op::MUL, a.cst(k), x), a.cst(k * v));
    case 2: return a.bin(Op::SUB, a.bin(Op::DIV, x, a.cst(1 / k)), a.cst(k * v));
    default: return a.bin(Op::ADD, a.cst(-k * v), a.bin(Op::SUB, a.bin(Op::MUL, a.cst(k + 1), x), a.var(i)));
  }
}
void lower(Prob& p, int i, double v, double k) {
  p.s.ineq.push_back(bound_expr(p.s.ast, i, k, v));
  p.mask.push_back(true);
  p.b[i].lo = std::max(p.b[i].lo, v);
}
void upper(Prob& p, int i, double v, double k) {
  p.s.ineq.push_back(bound_expr(p.s.ast, i, -k, v));
  p.mask.push_back(true);
  p.b[i].hi = std::min(p.b[i].hi, v);
}
double coef() { return pick({1.0, 1.0, 1.0, 2.0, 0.5, 4.0, 256.0, 0.25}); }

Prob gen_convex() {
  Prob p;
  p.convex = true;
  Spec& s = p.s;
  Ast& a = s.ast;
  const int n = s.n = range(1, 5);
  s.family = "convex";
  p.b.resize(n);
  for (int i = 0; i < n; ++i) p.x.push_back(frac(-12, 12, 4));
  auto dot = [&](const std::vector<double>& r) {
    double d = 0;
    for (int i = 0; i < n; ++i) d += r[i] * p.x[i];
    return d;
  };
  auto row = [&] {
    std::vector<double> r(n, 0.0);
    for (auto& v : r) v = chance(1, 4) ? 0 : frac(-6, 6, 4);
    return r;
  };
  MatX active(0, n);
  auto add_active = [&](const std::vector<double>& r) {
    MatX m(active.rows() + 1, n);
    m.topRows(active.rows()) = active;
    for (int i = 0; i < n; ++i) m(active.rows(), i) = r[i];
    Eigen::JacobiSVD<MatX> svd(m);
    if (svd.singularValues().minCoeff() < 0.3) return false;
    active = m;
    return true;
  };
  VecX g = VecX::Zero(n);
  // bounds that hold with equality at the solution
  for (int i = 0; i < n; ++i)
    if (chance(1, 3)) {
      std::vector<double> r(n, 0.0);
      double k = coef(), z = frac(2, 12, 4);
      bool up = chance(1, 2);
      r[i] = up ? -1 : 1;
      if (!add_active(r)) continue;
      g[i] += z * r[i];
      if (up) upper(p, i, p.x[i], k);
      else lower(p, i, p.x[i], k);
    }
  for (int k = choose(3); k > 0; --k) {
    auto r = row();
    if (active.rows() + 1 >= std::max(2, n) || !add_active(r)) continue;
    double y = frac(-8, 8, 4);
    for (int i = 0; i < n; ++i) g[i] += y * r[i];
    s.eq.push_back(affine(a, r, -dot(r)));
  }
  for (int k = choose(3); k > 0; --k) {
    auto r = row();
    int nz = 0;
    for (double v : r) nz += v != 0;
    if (nz < 2) continue;
    double slack = 0;
    if (chance(1, 2) && active.rows() < n && add_active(r)) {
      double z = frac(2, 12, 4);
      for (int i = 0; i < n; ++i) g[i] += z * r[i];
    } else {
      slack = frac(2, 20, 4);
    }
    s.ineq.push_back(affine(a, r, -dot(r) + slack));
    p.mask.push_back(false);
  }
  // bounds that don't
  for (int i = 0; i < n; ++i)
    for (int k = pick({0, 0, 1, 1, 2, 3}); k > 0; --k)
      if (chance(1, 2)) lower(p, i, p.x[i] - frac(1, 24, 4), coef());
      else upper(p, i, p.x[i] + frac(1, 24, 4), coef());
  if (chance(1, 4)) {
    // only looks like a bound
    int x = a.var(choose(n));
    s.ineq.push_back(a.bin(Op::ADD, a.bin(Op::SUB, x, x), a.cst(frac(1, 8, 4))));
    p.mask.push_back(false);
  }
  // any order
  for (size_t i = s.ineq.size(); i > 1; --i) {
    size_t j = choose(i);
    std::swap(s.ineq[i - 1], s.ineq[j]);
    bool t = p.mask[i - 1];
    p.mask[i - 1] = p.mask[j];
    p.mask[j] = t;
  }
  int f = -1;
  auto plus = [&](int t) { f = f < 0 ? t : a.bin(Op::ADD, f, t); };
  for (int i = 0; i < n; ++i) {
    std::vector<double> r(n, 0.0);
    r[i] = 1;
    plus(a.bin(Op::MUL, a.cst(frac(1, 12, 4)), a.un(Op::SQUARE, affine(a, r, -dot(r)))));
  }
  // terms that are undefined beyond a bound, stationary at the solution
  for (int i = 0; i < n; ++i)
    for (int up = 0; up < 2; ++up) {
      double b = up ? p.b[i].hi : p.b[i].lo;
      if (std::isinf(b) || chance(1, 2)) continue;
      b += (up ? 1 : -1) * frac(b == p.x[i] ? 1 : 0, 4, 4);
      int d = up ? a.bin(Op::SUB, a.cst(b), a.var(i)) : a.bin(Op::SUB, a.var(i), a.cst(b));
      double at = std::abs(b - p.x[i]);
      if (chance(1, 2)) plus(a.bin(Op::SUB, a.bin(Op::DIV, d, a.cst(at)), a.un(Op::LOG, d)));
      else plus(a.bin(Op::SUB, a.bin(Op::DIV, d, a.cst(2 * std::sqrt(at))), a.un(Op::SQRT, d)));
    }
  std::vector<double> gr(g.data(), g.data() + n);
  plus(affine(a, gr, 0));
  double scale = pick({1.0, 1.0, 0.25, 16.0, 512.0});
  if (scale != 1) f = a.bin(Op::MUL, a.cst(scale), f);
  s.cost = f;
  if (chance(1, 8)) {
    s.cost = a.un(Op::NEG, f);
    s.maximize = true;
  }
  return p;
}

/// The variable that a linear expression of exactly one variable depends on.
int linear_in(const Ast& a, int id) {
  auto k = constants(a);
  struct R {
    int deg = 0;  // 2: not linear
    std::vector<int> vars;
  };
  std::vector<R> r;
  for (size_t i = 0; i < a.n.size(); ++i) {
    const Node& d = a.n[i];
    R q;
    if (d.op == Op::VAR) q = {1, {d.c}};
    else if (!k[i]) {
      for (int o : {d.a, d.b})
        if (o >= 0) q.vars.insert(q.vars.end(), r[o].vars.begin(), r[o].vars.end());
      int x = r[d.a].deg, y = d.b >= 0 ? r[d.b].deg : 0;
      if (d.op == Op::ADD || d.op == Op::SUB || d.op == Op::NEG) q.deg = std::max(x, y);
      else if (d.op == Op::MUL && (x == 0 || y == 0)) q.deg = std::max(x, y);
      else if (d.op == Op::DIV && y == 0) q.deg = x;
      else q.deg = 2;
    }
    std::sort(q.vars.begin(), q.vars.end());
    q.vars.erase(std::unique(q.vars.begin(), q.vars.end()), q.vars.end());
    r.push_back(q);
  }
  return r[id].deg == 1 && r[id].vars.size() == 1 ? r[id].vars[0] : -1;
}

Prob gen_any() {
  Prob p;
  GenOptions go;
  go.nonfinite = chance(1, 3);
  p.s = gen_problem(go);
  p.s.family += "+bounds";
  p.b.resize(p.s.n);
  p.mask.assign(p.s.ineq.size(), false);
  // bounds among the generated constraints: linear with exactly one variable
  for (size_t k = 0; k < p.s.ineq.size(); ++k) {
    int v = linear_in(p.s.ast, p.s.ineq[k]);
    if (v < 0) continue;
    std::vector<double> at0(p.s.n, 0.0);
    auto u = eval_duals<double>(p.s.ast, at0);
    double c = u[p.s.ineq[k]].v, a = u[p.s.ineq[k]].g[v];
    if (a == 0) continue;
    p.mask[k] = true;
    if (a > 0) p.b[v].lo = std::max(p.b[v].lo, -c / a);
    else p.b[v].hi = std::min(p.b[v].hi, -c / a);
  }
  for (int i = 0; i < p.s.n; ++i) {
    double mid = pick({0.0, p.s.x0[i], p.s.x0[i] + 1, p.s.x0[i] - 3, 1.0, -2.0});
    if (!(std::abs(mid) < 1e3)) mid = 0;
    mid = std::round(mid * 4) / 4;
    switch (choose(8)) {
      case 0: lower(p, i, mid, coef()); break;
      case 1: upper(p, i, mid, coef()); break;
      case 2: lower(p, i, mid, coef()), upper(p, i, mid + frac(1, 40, 4), coef()); break;
      case 3: upper(p, i, mid, coef()), lower(p, i, mid - frac(1, 40, 4), coef()), upper(p, i, mid + 1, coef()); break;
      case 4:
        if (chance(1, 2)) lower(p, i, mid, coef()), upper(p, i, mid + (chance(1, 2) ? 0 : 1.0 / (1 << range(8, 30))), coef());
        break;
      case 5:
        if (chance(1, 4)) upper(p, i, mid, coef()), lower(p, i, mid + frac(1, 8, 4), coef());
        break;
    }
  }
  if (p.s.ineq.empty()) lower(p, 0, 0, 1);
  return p;
}
double gap(const Bound& b) { return b.hi - b.lo; }
bool bounded(const Bound& b) { return std::isfinite(b.lo) || std::isfinite(b.hi); }
}  // namespace

void run_world() {
  install_stdout(2);
  clk.active = true;
  Prob p = chance(2, 3) ? gen_convex() : gen_any();
  Spec& spec = p.s;
  if (chance(1, 2)) spec.form = 1 + choose(1u << 20);
  const int n = spec.n;
  for (const Bound& b : p.b) {
    // within rounding of each other
    if (b.lo != b.hi && std::abs(gap(b)) < 1e-11 * std::max(1.0, std::abs(b.lo))) {
      log(1);
      return;
    }
    p.conflict |= b.lo > b.hi;
    p.tight |= bounded(b) && gap(b) < 1e-2;
  }
  slp::Options o;
  o.tolerance = pick({1e-8, 1e-8, 1e-6});
  bool direct = chance(1, 3) && !p.conflict && !spec.ineq.empty();
  if (spec.ineq.empty()) {
    note("no inequalities");
    log(0);
    return;
  }
  auto guess = [&] {
    std::vector<double> x;
    for (int i = 0; i < n; ++i) {
      const Bound& b = p.b[i];
      double m = frac(-40, 40, 4);
      switch (choose(6)) {
        case 0: m *= 1000; break;
        case 1:
          if (std::isfinite(b.lo)) m = b.lo;
          break;
        case 2:
          if (std::isfinite(b.hi)) m = b.hi;
          break;
        case 3:
          if (std::isfinite(b.lo)) m = b.lo + 1.0 / (1 << range(2, 12));
          break;
        case 4:
          if (std::isfinite(b.lo) && std::isfinite(b.hi)) m = (b.lo + b.hi) / 2;
          break;
      }
      x.push_back(m);
    }
    return x;
  };
  // The model's projection, for the direct variant, and the margins.
  auto inside = [&](const std::vector<double>& x) {
    std::vector<double> r = x;
    for (int i = 0; i < n; ++i) {
      const Bound& b = p.b[i];
      double l = b.lo, u = b.hi;
      if (std::isfinite(l)) l += std::min(0.01 * std::max(1.0, std::abs(b.lo)), 0.01 * gap(b));
      if (std::isfinite(u)) u -= std::min(0.01 * std::max(1.0, std::abs(b.hi)), 0.01 * gap(b));
      r[i] = std::min(std::max(l, x[i]), u);
    }
    return r;
  };
  spec.x0 = guess();
  note("problem %s", spec.str().c_str());
  for (int i = 0; i < n; ++i) note("x%d in [%g, %g]", i, p.b[i].lo, p.b[i].hi);
  note("%s%s%s", direct ? "direct " : "", p.conflict ? "conflicting " : "", p.convex ? ("solution " + vec_str(p.x)).c_str() : "");
  Built b;
  if (!direct) b = build(spec, choose(3));
  std::vector<double> x = spec.x0;
  uint64_t h = mix64(direct, p.convex);
  bool cut = false;
  double seen = 1;  // largest coordinate met in this solve

  auto check_point = [&](const std::vector<double>& v, const char* what, size_t k) {
    for (int i = 0; i < n; ++i) seen = std::max(seen, std::isfinite(v[i]) ? std::abs(v[i]) : 1.0);
    for (int i = 0; i < n; ++i) {
      const Bound& c = p.b[i];
      if (!bounded(c) || !(gap(c) > 1e-6)) continue;
      double tol = 1e-11 * seen;
      if (v[i] < c.lo - tol || v[i] > c.hi + tol)
        fail("beyond", "%s %zu: x%d = %.17g is beyond its bounds [%.17g, %.17g]", what, k, i, v[i], c.lo, c.hi);
    }
  };
  auto check_first = [&](const std::vector<double>& from, const std::vector<double>& v) {
    for (int i = 0; i < n; ++i) {
      const Bound& c = p.b[i];
      if (!bounded(c)) {
        if (!same_bits(from[i], v[i])) fail("moved", "x%d isn't bounded, but the solve started with %.17g instead of %.17g", i, v[i], from[i]);
        continue;
      }
      double ml = 0.01 * std::min(std::max(1.0, std::abs(c.lo)), gap(c)), mu = 0.01 * std::min(std::max(1.0, std::abs(c.hi)), gap(c));
      // the smallest move that leaves the bounds at a distance of the margin
      double to = std::min(std::max(std::isfinite(c.lo) ? c.lo + ml : -INF, from[i]), std::isfinite(c.hi) ? c.hi - mu : INF);
      double tol = 1e-12 * std::max({1.0, std::abs(c.lo) < INF ? std::abs(c.lo) : 1.0, std::abs(c.hi) < INF ? std::abs(c.hi) : 1.0});
      if (!(std::abs(v[i] - to) <= tol) )
        fail("projection", "x%d in [%.17g, %.17g] started at %.17g and was moved to %.17g (expected %.17g)", i, c.lo, c.hi, from[i], v[i], to);
      if (gap(c) > 1e-6 && !(v[i] > c.lo && v[i] < c.hi)) fail("projection", "x%d started at %.17g, not strictly within [%.17g, %.17g]", i, v[i], c.lo, c.hi);
      if (to == from[i] && v[i] != from[i]) fail("moved", "x%d = %.17g was already within its bounds, but was moved to %.17g", i, from[i], v[i]);
    }
  };
  // Checks a finished solve; returns how many callbacks came before restoration.
  auto judge = [&](const std::vector<double>& from, const Trace& t, int how) {
    if (p.conflict) {
      if (t.threw) return;
      if (t.status != ST_GLOBAL) fail("conflict", "%s although bounds conflict", status_name(t.status));
      if (!t.calls.empty()) fail("conflict", "%zu iterations although bounds conflict", t.calls.size());
      if (!same_bits(t.final_x, from)) fail("conflict", "variables changed from %s to %s although bounds conflict", vec_str(from).c_str(), vec_str(t.final_x).c_str());
      count("conflicting bounds reported");
      return;
    }
    if (!t.threw && t.status == ST_GLOBAL) fail("conflict", "GLOBALLY_INFEASIBLE, but no bounds conflict");
    seen = 1;
    size_t k = 0;
    for (; k < t.calls.size() && t.calls[k].x.size() == static_cast<size_t>(n); ++k) {
      if (k == 0) check_first(from, t.calls[0].x);
      check_point(t.calls[k].x, "iterate", k);
    }
    if (k == t.calls.size()) {
      if (!t.threw && t.final_x.size() == static_cast<size_t>(n) && !t.calls.empty()) check_point(t.final_x, "result", 0);
    } else {
      count("feasibility restoration");
    }
    if (p.convex && how != 5 && !t.threw && t.status == ST_NONFINITE) fail("undefined", "NONFINITE_INITIAL_GUESS although everything is defined within the bounds");
  };
  auto solve = [&](const slp::Options& q, int how, int at, bool last) {
    clk.mono_ns = 1'000'000'000;
    if (how == 4) {
      heap.seen = heap.failures = 0;
      heap.fail_from = pick({100, 1000, 5000, 20000, 300}) + choose(3000);
      heap.fail_count = pick({1, 3, 1 << 30});
    }
    bool restoring = false, doomed = false;
    auto hook = [&](int i, const Info& info) -> bool {
      if (info.x.rows() != n) restoring = true;
      advance_ns(1'000'000'000);
      if (how == 0 && i == at) return true;
      if (how == 3 && i == at) throw Boom();
      return false;
    };
    Trace t;
    std::vector<double> from = x;
    if (direct) {
      x = from = inside(x);
      Direct d{&spec};
      d.mask = p.mask;
      int since = choose(60), len = pick({1, 3, 10, 1 << 30}), what = choose(3);
      seen = 1;
      d.before = [&](Eval e, int i, const std::vector<double>& v) {
        if (restoring || doomed) return;
        for (double w : v)
          if (!std::isfinite(w)) doomed = true;
        if (!doomed) check_point(v, eval_names[static_cast<int>(e)], i);
      };
      if (how == 5)
        d.after = [&](Eval, int i, const std::vector<double>&, double* v, size_t m) {
          if (i >= since && i - since < len && m) v[choose(m)] = what == 0 ? NAN : what == 1 ? INFINITY : -INFINITY;
        };
      heap.armed = how == 4;
      try {
        static_cast<Trace&>(t) = direct_solve(d, Solver::IP, q, x, hook);
      } catch (const std::bad_alloc&) {
        t.threw = true;
        t.what = "bad_alloc";
      }
      heap.armed = false;
      if (!t.final_x.empty()) x = t.final_x;
    } else {
      b.set(x);
      heap.armed = how == 4;
      try {
        t = traced_solve(b, q, hook);
      } catch (const std::bad_alloc&) {
        t.threw = true;
        t.what = "bad_alloc";
      }
      heap.armed = false;
      x = b.get();
    }
    if (last) log_trace(t);
    note("from %s: %zu callbacks, %s at %s", vec_str(from).c_str(), t.calls.size(), t.threw ? t.what.c_str() : status_name(t.status), vec_str(x).c_str());
    judge(from, t, how);
    return t;
  };
  for (int k = choose(4); k > 0; --k) {
    slp::Options q = o;
    q.feasible_ipm = chance(1, 5);
    q.max_iterations = 100;
    int how = choose(direct ? 6 : 5), at = pick({0, 1, 2, 3, 5, 8});
    if (how == 1) q.max_iterations = at + 1;
    if (how == 2) q.timeout = std::chrono::duration<double>(at + 0.5);
    Trace t = solve(q, how, at, false);
    static const char* const names[] = {"stop", "iteration limit", "deadline", "exception from a callback", "failing allocation", "nonfinite evaluations"};
    bool ended = t.threw || (t.status != ST_SUCCESS && t.status != ST_GLOBAL);
    if (ended) count((std::string("fault: attempt ended by ") + names[how]).c_str());
    cut |= ended && t.calls.size() > 1;
    log(t.calls.size());
    log(t.threw ? 77 : t.status);
    h = mix64(h, how * 100 + t.status);
    bool wild = chance(1, 3);
    for (double v : x) wild |= !(std::abs(v) < 1e6);
    if (wild) x = guess();
  }
  bool far = chance(1, 2);
  for (double v : x) far |= !(std::abs(v) < 50);
  if (far) {
    x = guess();
    for (auto& v : x)
      if (!(std::abs(v) < 50)) v = frac(-40, 40, 4);
  }
  int beyond = 0;
  for (int i = 0; i < n; ++i) beyond += x[i] <= p.b[i].lo || x[i] >= p.b[i].hi;
  o.max_iterations = p.convex ? 5000 : 300;
  Trace t = solve(o, -1, 0, true);
  if (t.threw) fail("unsolved", "an undisturbed solve threw %s", t.what.c_str());
  if (p.convex) {
    double err = 0;
    for (int i = 0; i < n; ++i) err = std::max(err, std::abs(t.final_x[i] - p.x[i]));
    if (t.status != ST_SUCCESS) {
      double f = eval_values<double>(spec.ast, t.final_x)[spec.cost], best = eval_values<double>(spec.ast, p.x)[spec.cost];
      // Changes of the cost below its rounding error can't guide a solver.
      double noise = 64 * 2.3e-16 * std::max(std::abs(best), eval_errors(spec.ast, p.x)[spec.cost].v);
      if (!(err <= 1e-6) || !(std::abs(f - best) <= noise))
        fail("unsolved", "%s after %zu iterations of an undisturbed solve of a convex problem", status_name(t.status), t.calls.size());
      count("stalled within rounding of the solution");
    } else {
      if (!(err <= 1e-3)) fail("wrong", "SUCCESS at %s, but the solution is %s", vec_str(t.final_x).c_str(), vec_str(p.x).c_str());
      if (t.calls.size() > 500) fail("slow", "%zu iterations", t.calls.size());
      count("convex problem solved");
    }
  }
  if (beyond && t.calls.size() >= 3) nontrivial();
  sig(mix64(mix64(h, beyond), shape(t, n)));
}
}  // namespace sim
