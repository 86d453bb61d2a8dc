// C08: what the exit status says about the returned point.
//
// Histories of solves on one problem (warm starts, earlier solves cut short by
// stops, exceptions, limits and timeouts, garbage in fresh memory, moved
// values), each judged by an oracle that knows only the reference model: user
// units, user's functions, evaluated in long double at the returned variables.
#include <stdexcept>

#include <Eigen/QR>
#include <Eigen/SVD>

#include "model.hpp"

namespace sim {

const WorldInfo world = {
    "C08",
    "each run draws a problem (also overconstrained, infeasible, unbounded, badly scaled, with constant constraints or nonfinite domains) and a history of 1 to 4 solves on "
    "it through Problem (each undisturbed or cut short, from moved, kept or fresh values, in clean or garbage memory), or one solve through the solver entry points with drawn "
    "scale factors and multipliers returned; every returned status is judged; non-trivial: a solve ran at least one iteration; distinct = distinct event-log hashes",
    "Problem, autodiff, newton, sqp, interior_point, feasibility restoration, bounds, scaling, KKT error",
    "clocks, heap contents; user functions of the direct variant (reference model)",
    "(solve's shape, status, position in the history)",
    150000, 6000000};

namespace {
using LD = long double;

struct Point {
  int n, me, mi;
  std::vector<double> x;
  double f = 0;
  VecX g, ce, ci, mag;     // mag: rounding magnitude of g
  MatX Ae, Ai;
  MatX Ae_mag, Ai_mag;     // rounding magnitudes
  VecX ce_err, ci_err;
  bool values = true;      // finiteness of functions,
  bool finite = true;      // first derivatives,
  bool all_finite = true;  // and second ones
};
Point evaluate(const Spec& s, const std::vector<double>& x) {
  Point p;
  p.n = s.n;
  p.me = s.eq.size();
  p.mi = s.ineq.size();
  p.x = x;
  auto u = eval_duals<LD>(s.ast, x);
  auto err = eval_errors(s.ast, x);
  double sign = s.maximize ? -1 : 1;
  p.g = VecX::Zero(p.n);
  p.mag = VecX::Zero(p.n);
  p.ce.resize(p.me);
  p.ci.resize(p.mi);
  p.ce_err.resize(p.me);
  p.ci_err.resize(p.mi);
  p.Ae.resize(p.me, p.n);
  p.Ai.resize(p.mi, p.n);
  p.Ae_mag.resize(p.me, p.n);
  p.Ai_mag.resize(p.mi, p.n);
  auto chk = [&](int id) {
    double v = static_cast<double>(u[id].v);
    p.finite &= std::isfinite(v);
    p.values &= std::isfinite(v);
    for (auto& q : u[id].g) p.finite &= std::isfinite(static_cast<double>(q));
    for (auto& q : u[id].h) p.all_finite &= std::isfinite(static_cast<double>(q));
  };
  if (s.cost >= 0) {
    chk(s.cost);
    p.f = sign * static_cast<double>(u[s.cost].v);
    for (int k = 0; k < p.n; ++k) {
      p.g[k] = sign * static_cast<double>(u[s.cost].g[k]);
      p.mag[k] = err[s.cost].g[k];
    }
  }
  for (int i = 0; i < p.me; ++i) {
    chk(s.eq[i]);
    p.ce[i] = static_cast<double>(u[s.eq[i]].v);
    p.ce_err[i] = err[s.eq[i]].v;
    for (int k = 0; k < p.n; ++k) {
      p.Ae(i, k) = static_cast<double>(u[s.eq[i]].g[k]);
      p.Ae_mag(i, k) = std::max(std::abs(p.Ae(i, k)), err[s.eq[i]].g[k]);
    }
  }
  for (int i = 0; i < p.mi; ++i) {
    chk(s.ineq[i]);
    p.ci[i] = static_cast<double>(u[s.ineq[i]].v);
    p.ci_err[i] = err[s.ineq[i]].v;
    for (int k = 0; k < p.n; ++k) {
      p.Ai(i, k) = static_cast<double>(u[s.ineq[i]].g[k]);
      p.Ai_mag(i, k) = std::max(std::abs(p.Ai(i, k)), err[s.ineq[i]].g[k]);
    }
  }
  p.all_finite &= p.finite;
  for (VecX* e : {&p.ce_err, &p.ci_err, &p.mag})
    for (auto& v : *e)
      if (std::isnan(v)) v = std::numeric_limits<double>::infinity();
  for (MatX* e : {&p.Ae_mag, &p.Ai_mag})
    for (int i = 0; i < e->size(); ++i)
      if (std::isnan(e->data()[i])) e->data()[i] = std::numeric_limits<double>::infinity();
  return p;
}
/// Least residual (2-norm) of g - Ae'y - Ai'z over y free and 0 <= z <= u.
double stationarity(const Point& p, const VecX& u) {
  double best = p.g.stableNorm();
  std::vector<int> state(p.mi, 0);
  for (;;) {
    // z at 0, free, or at its bound
    std::vector<int> free;
    VecX r = p.g;
    for (int i = 0; i < p.mi; ++i) {
      if (state[i] == 1) free.push_back(i);
      if (state[i] == 2) r -= p.Ai.row(i).transpose() * u[i];
    }
    MatX A(p.n, p.me + free.size());
    for (int i = 0; i < p.me; ++i) A.col(i) = p.Ae.row(i).transpose();
    for (size_t i = 0; i < free.size(); ++i) A.col(p.me + i) = p.Ai.row(free[i]).transpose();
    if (A.cols() == 0) {
      best = std::min(best, r.stableNorm());
    } else {
      // scaled columns; a rank-revealing factorization may drop tiny ones
      VecX sc(A.cols());
      for (int c = 0; c < A.cols(); ++c) {
        double m = A.col(c).stableNorm();
        sc[c] = m > 0 ? 1 / m : 1;
      }
      MatX B = A * sc.asDiagonal();
      VecX m = B.completeOrthogonalDecomposition().solve(r);
      bool ok = m.allFinite();
      for (size_t i = 0; i < free.size() && ok; ++i) {
        double z = m[p.me + i] * sc[p.me + i];
        if (z < 0) m[p.me + i] = 0;
        if (z > u[free[i]]) m[p.me + i] = u[free[i]] / sc[p.me + i];
      }
      if (ok) best = std::min(best, (r - B * m).stableNorm());
    }
    int k = 0;
    while (k < p.mi && state[k] == (std::isfinite(u[k]) ? 2 : 1)) state[k++] = 0;
    if (k == p.mi) break;
    ++state[k];
  }
  return best;
}
bool contradicting_bounds(const Spec& s) {
  // Bounds on single variables, found by probing.
  std::vector<double> lo(s.n, -std::numeric_limits<double>::infinity()), hi(s.n, std::numeric_limits<double>::infinity());
  std::vector<double> zero(s.n, 0.0), one(s.n, 1.0), odd(s.n);
  for (int i = 0; i < s.n; ++i) odd[i] = 0.37 * (i + 1) - 1.1;
  auto a = eval_duals<double>(s.ast, zero), b = eval_duals<double>(s.ast, one), c = eval_duals<double>(s.ast, odd);
  bool bad = false;
  for (int id : s.ineq) {
    int nz = 0, which = -1;
    bool linear = true;
    for (int k = 0; k < s.n; ++k) {
      linear &= std::abs(a[id].g[k] - b[id].g[k]) <= 1e-12 * std::abs(a[id].g[k]) && std::abs(a[id].g[k] - c[id].g[k]) <= 1e-12 * std::abs(a[id].g[k]);
      if (a[id].g[k] != 0) {
        ++nz;
        which = k;
      }
    }
    if (!linear || nz != 1) continue;
    double bound = -a[id].v / a[id].g[which];
    if (a[id].g[which] > 0) lo[which] = std::max(lo[which], bound);
    else hi[which] = std::min(hi[which], bound);
    if (lo[which] > hi[which]) bad = true;
  }
  return bad;
}
bool all_constant(const Spec& s) {
  std::vector<double> odd(s.n);
  for (int i = 0; i < s.n; ++i) odd[i] = 0.37 * (i + 1) - 1.1;
  for (auto& x : {s.x0, odd}) {
    auto u = eval_duals<double>(s.ast, x);
    auto zero = [&](int id) {
      for (double v : u[id].g)
        if (v != 0) return false;
      return true;
    };
    if (s.cost >= 0 && !zero(s.cost)) return false;
    for (int e : s.eq)
      if (!zero(e)) return false;
    for (int e : s.ineq)
      if (!zero(e)) return false;
  }
  return true;
}

/// Statuses that mean the same in both variants.
void judge(const Spec& s, const slp::Options& o, const std::vector<double>& start, const Trace& t, const Point& p, bool through_problem, const std::vector<double>& slacks = {}) {
  const int st = t.status;
  const double tol = o.tolerance;
  const bool noop = all_constant(s);
  const bool too_few = p.me > p.n;
  if (st == ST_DOFS && !too_few) fail("dofs", "TOO_FEW_DOFS with %d equality constraints and %d variables", p.me, p.n);
  if (too_few && st != ST_DOFS && !noop && !(st == ST_GLOBAL && through_problem))
    fail("dofs", "%s with %d equality constraints and %d variables", status_name(st), p.me, p.n);
  if (st == ST_GLOBAL) {
    bool violated = false;
    if (noop) {
      for (int i = 0; i < p.me; ++i) violated |= !(std::abs(p.ce[i]) <= tol * (1 - 1e-6));
      for (int i = 0; i < p.mi; ++i) violated |= !(p.ci[i] >= -tol * (1 - 1e-6));
    }
    if (!violated && !contradicting_bounds(s)) fail("globally", "GLOBALLY_INFEASIBLE without contradicting bounds");
  }
  if (st == ST_NONFINITE) {
    Point q = evaluate(s, start);
    // The library's derivative formulas may overflow where the derivatives
    // don't (C14 judges those).
    bool huge = false;
    auto u = eval_duals<double>(s.ast, start, true);
    for (auto& d : u) {
      huge |= !(std::abs(d.v) < 1e100);
      for (double v : d.h) huge |= !(std::abs(v) < 1e100);
    }
    for (const Node& nd : s.ast.n)
      if (nd.op == Op::TANH || nd.op == Op::COSH || nd.op == Op::SINH) huge |= !(std::abs(u[nd.a].v) < 300);
    if (q.all_finite && !huge) fail("nonfinite", "NONFINITE_INITIAL_GUESS at %s, where everything is finite", vec_str(start).c_str());
  }
  if (st != ST_NONFINITE && st != ST_DOFS && st != ST_GLOBAL && !noop) {
    // Where a value is nonfinite, the solve has nothing to start from.
    Point q = evaluate(s, start);
    if (!q.values && (!through_problem || t.calls.empty() || same_bits(t.calls[0].x, start)))
      fail("nonfinite", "%s after starting from %s, where a function is nonfinite", status_name(st), vec_str(start).c_str());
  }
#ifndef SLEIPNIR_ENABLE_BOUND_PROJECTION  // which moves them before anything else
  if ((st == ST_NONFINITE || st == ST_DOFS || st == ST_GLOBAL) && t.calls.empty() && !same_bits(p.x, start))
    fail("untouched", "%s without an iteration moved the variables from %s to %s", status_name(st), vec_str(start).c_str(), vec_str(p.x).c_str());
#endif
  if (st == ST_LOCAL) {
    bool violated = false;
    for (int i = 0; i < p.me; ++i) violated |= !(std::abs(p.ce[i]) <= tol * (1 - 1e-6));
    for (int i = 0; i < p.mi; ++i) violated |= !(p.ci[i] >= 0);
    if (!violated) fail("locally", "LOCALLY_INFEASIBLE at %s, where no constraint is violated", vec_str(p.x).c_str());
  }
  if (st == ST_DIVERGE) {
    double m = 0;
    for (double v : p.x) m = std::max(m, std::isfinite(v) ? std::abs(v) : 1e300);
    // slacks: those returned, or else estimated from the last ones seen (a
    // final step out of restoration may have made them much larger)
    for (double v : slacks) m = std::max(m, std::isfinite(v) ? std::abs(v) : 1e300);
    if (slacks.empty() && !t.calls.empty()) {
      const Call& c = t.calls.back();
      double f = static_cast<int>(c.x.size()) > s.n ? 1e5 : 100;
      for (double v : c.s) m = std::max(m, std::abs(v) * f);
    }
    for (double v : p.ci) m = std::max(m, std::isfinite(v) ? std::abs(v) : 1e300);
    if (m <= 1e10) fail("diverging", "DIVERGING_ITERATES at %s; magnitude %g", vec_str(p.x).c_str(), m);
  }
  if (st == ST_LS && p.me == 0 && p.mi == 0 && p.finite) {
    bool optimal = true;
    for (int k = 0; k < p.n; ++k) optimal &= std::abs(p.g[k]) + 1e-12 * p.mag[k] < tol * (1 - 1e-6);
    if (optimal) fail("line search", "LINE_SEARCH_FAILED at %s, which is optimal", vec_str(p.x).c_str());
  }
  if (st == ST_SUCCESS) {
    for (double v : p.x)
      if (!std::isfinite(v)) fail("success", "SUCCESS with variables %s", vec_str(p.x).c_str());
    if (noop && !p.values) return;
    // (Derivatives on the border of a domain are nonfinite in the reference even
    // if the library folded that term into a constant.)
    if (!p.values) {
      bool huge = false;
      for (double v : p.x) huge |= std::abs(v) > 1e6;
      if (!huge) fail("success", "SUCCESS at %s, where the functions are nonfinite", vec_str(p.x).c_str());
    }
    for (int i = 0; i < p.me; ++i)
      if (!(std::abs(p.ce[i]) <= tol * (1 + 1e-6) + 1e-12 * p.ce_err[i])) fail("success", "SUCCESS with equality constraint %d at %g (tolerance %g)", i, p.ce[i], tol);
    for (int i = 0; i < p.mi; ++i)
      if (!(p.ci[i] >= -tol * (1 + 1e-6) - 1e-12 * p.ci_err[i])) fail("success", "SUCCESS with inequality constraint %d at %g (tolerance %g)", i, p.ci[i], tol);
  }
}

/// Whether multipliers exist that satisfy the scaled KKT conditions the solvers
/// document.  Their scale factors depend on the solver's multipliers, which
/// aren't known here, but the conditions themselves bound these wherever the
/// active constraints' gradients are independent.
void check_stationarity(const Point& p, double tol) {
  if (p.mi > 6) return;
  std::vector<int> active;
  double cap = 0, pull = 0;  // of the inactive constraints' multipliers
  for (int i = 0; i < p.mi; ++i) {
    if (p.ci[i] <= 1e-5 + 4 * tol) {
      active.push_back(i);
    } else {
      double u = 2 * tol / (p.ci[i] - tol);
      cap += u;
      pull += u * p.Ai.row(i).stableNorm();
    }
  }
  const int k = p.me + active.size();
  double L = 0;
  const double rn = std::sqrt(double(p.n));
  if (k) {
    if (k > p.n) return count("stationarity not judged: degenerate");
    MatX A(k, p.n);
    A.topRows(p.me) = p.Ae;
    for (size_t i = 0; i < active.size(); ++i) A.row(p.me + i) = p.Ai.row(active[i]);
    auto sv = A.jacobiSvd().singularValues();
    double lo = sv[sv.size() - 1];
    if (!(lo > 1e-8 * sv[0]) || !(rn * tol * std::sqrt(double(k)) < 1 * lo)) return count("stationarity not judged: degenerate");
    L = 1.2 * std::sqrt(double(k)) * (p.g.stableNorm() + 2 * pull + 2 * tol * rn) / lo;
  }
  double sd = p.me + p.mi ? std::max(100.0, (L + 2 * cap) / (p.me + p.mi)) / 100 : 1;
  double sc = p.mi ? std::max(100.0, (L + 2 * cap) / p.mi) / 100 : 1;
  VecX u(p.mi);
  for (int i = 0; i < p.mi; ++i) u[i] = p.ci[i] - tol > 0 ? 1.01 * tol * sc / (p.ci[i] - tol) : std::numeric_limits<double>::infinity();
  double r = stationarity(p, u);
  double lim = tol * sd * rn * (1 + 1e-6) + 1e-11 * (p.mag.stableNorm() + L * (p.Ae_mag.stableNorm() + p.Ai_mag.stableNorm()));
  if (!std::isfinite(r) || !std::isfinite(lim)) return count("stationarity not judged: nonfinite");
  if (!(r <= lim))
    fail("stationarity", "SUCCESS at %s, but no multipliers make the Lagrangian's gradient smaller than %g (tolerance %g, scale %g)", vec_str(p.x).c_str(), r, tol, sd);
  count("stationarity judged");
}

void through_problem(Spec& spec, slp::Options o) {
  Built b = build(spec, choose(2));
  std::vector<double> start = spec.x0;
  int solves = range(1, 4);
  bool ran = false;
  for (int k = 0; k < solves; ++k) {
    // how this one ends
    int end = k + 1 == solves ? 0 : choose(5);
    int at = pick({0, 1, 2, 3, 5, 9});
    slp::Options q = o;
    if (end == 3) q.max_iterations = at + 1;
    if (end == 4) q.timeout = std::chrono::duration<double>(at + 0.5);
    clk.mono_ns = 1'000'000'000;
    b.set(start);
    bool garbage = chance(1, 4);
    heap.fill = pick<unsigned char>({0xff, 0x7f, 0x41});
    heap.poison = 0xdd;
    heap.active = garbage;
    Trace t = traced_solve(
        b, q,
        [&](int i, const Info&) -> bool {
          advance_ns(1'000'000'000);
          if (end == 2 && i == at) throw std::runtime_error("thrown by a callback");
          return end == 1 && i == at;
        },
        true);
    heap.active = false;
    if (garbage) count("fault: heap filled with garbage");
    log_trace(t);
    note("solve %d from %s, end %d at %d -> %zu callbacks, %s, x=%s", k, vec_str(start).c_str(), end, at, t.calls.size(), t.threw ? t.what.c_str() : status_name(t.status), vec_str(t.final_x).c_str());
    if (!t.calls.empty()) ran = true;
    if (t.threw) {
      if (end != 2) fail("throws", "the solve threw %s", t.what.c_str());
      count("fault: exception from a callback");
    } else {
      count((std::string("ended ") + status_name(t.status)).c_str());
      if (t.status == ST_STOP && end != 1) fail("stop", "CALLBACK_REQUESTED_STOP, but no callback requested one");
      if (t.status == ST_TIMEOUT && end != 4) fail("timeout", "TIMEOUT without a timeout");
      Point p = evaluate(spec, t.final_x);
      judge(spec, q, start, t, p, true);
      if (t.status == ST_SUCCESS && !all_constant(spec) && p.finite) {
        check_stationarity(p, q.tolerance);
      }
      sig(mix64(shape(t, spec.n), t.status * 8 + k));
    }
    switch (choose(4)) {
      case 0: start = t.final_x; break;
      case 1: start = spec.x0; break;
      case 2: start = t.final_x; start[choose(spec.n)] += pick({0.5, -3.0, 1e-6, 20.0}); break;
      case 3: for (auto& v : start) v = pick({0.0, 1.0, -1.0, 4.0, 0.5}); break;
    }
    for (double v : start)
      if (!std::isfinite(v)) start = spec.x0;
  }
  if (ran) nontrivial();
}

void through_solver(Spec& spec, slp::Options o) {
  Direct d{&spec, {}, {}};
  Solver which = natural_solver(spec);
  if (chance(1, 2)) d.df = pick({0.5, 1e-2, 1e-4, 2.0});
  auto factors = [&](std::vector<double>& v, size_t n) {
    if (chance(1, 2))
      for (size_t i = 0; i < n; ++i) v.push_back(pick({1.0, 0.5, 1e-2, 1e-4}));
  };
  factors(d.de, spec.eq.size());
  factors(d.di, spec.ineq.size());
  d.identity = d.df == 1 && d.de.empty() && d.di.empty() && chance(1, 2);
  note("direct; %sscale factors %g %s %s", d.identity ? "identity scaling; " : "", d.df, vec_str(d.de).c_str(), vec_str(d.di).c_str());
  bool duals = which != Solver::NEWTON;
  DirectTrace t = direct_solve(d, which, o, spec.x0, {}, false, duals);
  log_trace(t);
  note(" -> %zu callbacks, %s, x=%s", t.calls.size(), t.threw ? t.what.c_str() : status_name(t.status), vec_str(t.final_x).c_str());
  if (t.threw) fail("throws", "the solve threw %s", t.what.c_str());
  if (!t.calls.empty()) nontrivial();
  count((std::string("ended ") + status_name(t.status)).c_str());
  sig(mix64(shape(t, spec.n), t.status * 8 + 7));
  Point p = evaluate(spec, t.final_x);
  // The entry points have no no-op solver.
  if (!(all_constant(spec) && t.status != ST_SUCCESS)) judge(spec, o, spec.x0, t, p, false, t.s);
  if (t.status != ST_SUCCESS || !p.finite) return;
  // KKT conditions in user units with the returned multipliers
  VecX r = p.g, mag = p.mag;
  double ny = 0, nz = 0;
  std::vector<double> y = t.y, z = t.z, s = t.s;
  for (int i = 0; i < p.me; ++i) {
    y[i] *= (d.de.empty() ? 1 : d.de[i]) / d.df;
    ny += std::abs(y[i]);
    r -= p.Ae.row(i).transpose() * y[i];
    if (y[i] != 0) mag += p.Ae_mag.row(i).transpose() * std::abs(y[i]);
  }
  for (int i = 0; i < p.mi; ++i) {
    double f = d.di.empty() ? 1 : d.di[i];
    z[i] *= f / d.df;
    s[i] /= f;
    nz += std::abs(z[i]);
    r -= p.Ai.row(i).transpose() * z[i];
    if (z[i] != 0) mag += p.Ai_mag.row(i).transpose() * std::abs(z[i]);
  }
  double sd = p.me + p.mi ? std::max(100.0, (ny + nz) / (p.me + p.mi)) / 100 : 1;
  double sc = p.mi ? std::max(100.0, nz / p.mi) / 100 : 1;
  for (int k = 0; k < p.n; ++k)
    if (!(std::abs(r[k]) <= o.tolerance * sd * (1 + 1e-6) + 1e-11 * mag[k]))
      fail("success", "SUCCESS at %s with a Lagrangian gradient of %g for the returned multipliers (tolerance %g, scale %g)", vec_str(p.x).c_str(), r[k], o.tolerance, sd);
  for (int i = 0; i < p.mi; ++i) {
    if (!(s[i] >= 0 && z[i] >= 0)) fail("success", "SUCCESS with slack %g and multiplier %g", s[i], z[i]);
    if (!(s[i] * z[i] <= o.tolerance * sc * (1 + 1e-6))) fail("success", "SUCCESS with complementarity product %g (tolerance %g, scale %g)", s[i] * z[i], o.tolerance, sc);
    if (!(std::abs(p.ci[i] - s[i]) <= o.tolerance * (1 + 1e-6) + 1e-12 * (p.ci_err[i] + s[i])))
      fail("success", "SUCCESS with an inequality constraint at %g and its slack at %g", p.ci[i], s[i]);
  }
}
}  // namespace

void run_world() {
  clk.active = true;
  GenOptions go;
  go.nonfinite = chance(1, 3);
  Spec spec = gen_problem(go);
  int extra = choose(12);
  if (extra == 1 || extra == 2) {
    // constraints without variables
    int e = spec.ast.cst(pick({0.0, 1e-12, 1.0, -1.0, 5.0, 1e-7, -1e-7, -1e-4, 1e-4, -2e-9}));
    (extra == 1 ? spec.eq : spec.ineq).push_back(e);
    if (chance(1, 4)) {
      spec.cost = spec.cost >= 0 && chance(1, 2) ? spec.ast.cst(3) : -1;
      spec.maximize = false;
      spec.eq.clear();
      spec.ineq.clear();
      (extra == 1 ? spec.eq : spec.ineq).push_back(e);
    }
    spec.family += "/constant";
  } else if (extra == 3) {
    // more equality constraints than variables, consistent or not
    while (static_cast<int>(spec.eq.size()) <= spec.n) {
      int v = spec.ast.var(range(0, spec.n - 1));
      spec.eq.push_back(spec.ast.bin(Op::SUB, v, spec.ast.cst(pick({0.0, 1.0}))));
    }
    spec.family += "/overconstrained";
  } else if (extra == 4 || extra == 5) {
    // bounds, possibly contradicting, written from either side
    for (int k = range(1, 3); k > 0; --k) {
      int v = spec.ast.var(range(0, spec.n - 1));
      int c = spec.ast.cst(pick({0.0, 1.0, -1.0, 2.0}));
      spec.ineq.push_back(chance(1, 2) ? spec.ast.bin(Op::SUB, v, c) : spec.ast.bin(Op::SUB, c, v));
    }
    spec.family += "/bounds";
  }
  slp::Options o;
  o.tolerance = pick({1e-8, 1e-5, 1e-10, 1e-3});
  o.max_iterations = pick({150, 30});
  o.feasible_ipm = chance(1, 6);
  note("problem %s; tol=%g max_iterations=%d feasible_ipm=%d", spec.str().c_str(), o.tolerance, o.max_iterations, o.feasible_ipm);
  if (chance(1, 3)) through_solver(spec, o);
  else through_problem(spec, o);
}
}  // namespace sim
