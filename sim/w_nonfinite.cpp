// C09: user functions whose evaluations go wrong.
//
// The solver entry points run on user functions computed by the reference
// model; a fault plan turns values of chosen evaluations into NaN, infinities
// or absurd numbers (once, for a while, for good, in a region of space, at
// random), or makes an evaluation throw.  Every value the solver is given is
// recorded, and the outcome is judged against that record.
#include <algorithm>
#include <map>
#include <new>
#include <stdexcept>

#include "model.hpp"

namespace sim {

const WorldInfo world = {
    "C09",
    "each run draws a problem, a solver, options and up to 3 evaluation faults (kind of function, when, where, which value or exception), and solves once with the "
    "evaluations recorded; non-trivial: a fault fired; distinct = distinct event-log hashes",
    "newton, sqp, interior_point, feasibility restoration, filter, line search, regularized LDLT",
    "user functions (reference model with injected faults), clocks",
    "(solve's shape, faults that fired and where)",
    300000, 12000000};

namespace {
struct UserError : std::runtime_error {
  using std::runtime_error::runtime_error;
};
struct Runaway {};

enum When { ONCE, WINDOW, FOREVER, REGION, RANDOM, FIRST_AT_POINT };
const char* const when_names[] = {"once", "window", "from then on", "in a region", "at random", "first time at each point"};
struct Fault {
  int kinds = 0;      // mask of Eval
  When when = ONCE;
  int from = 0, len = 1;   // counted per evaluation of these kinds
  int coord = 0;
  double bound = 0;
  bool above = true;
  int prob = 4;
  double value = 0;
  bool all = false;   // every element
  int thrown = 0;     // 0 none, 1 UserError, 2 bad_alloc, 3 int
  int seen = 0;
  std::vector<double> last;
  std::string str() const {
    std::string k;
    for (int i = 0; i < 8; ++i)
      if (kinds >> i & 1) k += (k.empty() ? "" : ",") + std::string(eval_names[i]);
    char b[200];
    snprintf(b, sizeof b, "%s: %s from %d len %d (x%d %s %g, p 1/%d) -> ", k.c_str(), when_names[when], from, len, coord, above ? ">" : "<", bound, prob);
    std::string s = b;
    if (thrown) s += thrown == 1 ? "throws UserError" : thrown == 2 ? "throws bad_alloc" : "throws int";
    else s += std::to_string(value) + (all ? " everywhere" : " in one element");
    return s;
  }
};
Fault gen_fault(const Spec& spec, Solver which) {
  Fault f;
  int usable = which == Solver::NEWTON ? 0b00000111 : which == Solver::SQP ? 0b00111111 : 0b11111111;
  std::vector<int> ks;
  for (int i = 0; i < 8; ++i)
    if (usable >> i & 1) ks.push_back(i);
  int how = choose(4);
  if (how <= 1) f.kinds = 1 << pick_from(ks);
  else if (how == 2) f.kinds = usable & ((1 << int(Eval::F)) | (1 << int(Eval::CE)) | (1 << int(Eval::CI)));
  else f.kinds = usable & ((1 << int(Eval::G)) | (1 << int(Eval::H)) | (1 << int(Eval::AE)) | (1 << int(Eval::AI)));
  f.when = static_cast<When>(choose(6));
  f.from = pick({0, 1, 2, 3, 4, 5, 7, 9, 12, 16, 25, 40, 80});
  f.len = pick({1, 2, 3, 5, 10, 25, 60});
  f.coord = range(0, spec.n - 1);
  f.above = choose(2);
  f.bound = spec.x0[f.coord] + (f.above ? 1 : -1) * pick({0.001, 0.1, 0.5, 1.0, 2.0, 4.0});
  f.prob = pick({2, 4, 10, 30});
  constexpr double inf = std::numeric_limits<double>::infinity();
  f.value = pick({std::numeric_limits<double>::quiet_NaN(), inf, -inf, -std::numeric_limits<double>::quiet_NaN(), 1e300, -1e308});
  f.all = chance(1, 3);
  if (chance(1, 5)) f.thrown = range(1, 3);
  return f;
}
bool fires(Fault& f, Eval e, const std::vector<double>& x) {
  if (!(f.kinds >> static_cast<int>(e) & 1)) return false;
  int i = f.seen++;
  switch (f.when) {
    case ONCE: return i == f.from;
    case WINDOW: return i >= f.from && i < f.from + f.len;
    case FOREVER: return i >= f.from;
    case REGION: return f.above ? x[f.coord] > f.bound : x[f.coord] < f.bound;
    case RANDOM: return i > 0 && chance(1, f.prob);
    case FIRST_AT_POINT: {
      bool fresh = x != f.last;
      f.last = x;
      return fresh && i >= f.from;
    }
  }
  return false;
}
struct Value {
  std::vector<double> x, v;
  bool finite = true;
  int at = 0;
};
}  // namespace

void run_world() {
  clk.active = true;
  GenOptions go;
  go.nonfinite = chance(1, 3);
  Spec spec = gen_problem(go);
  Solver which = natural_solver(spec);
  const bool duals = which != Solver::NEWTON && !chance(1, 4);
  slp::Options o;
  o.tolerance = pick({1e-8, 1e-5, 1e-3});
  o.max_iterations = pick({60, 200, 15});
  o.feasible_ipm = chance(1, 5);
  note("problem %s; %s tol=%g max_iterations=%d feasible_ipm=%d", spec.str().c_str(), duals ? "with multipliers" : "", o.tolerance, o.max_iterations, o.feasible_ipm);
  std::vector<Fault> faults;
  for (int k = range(1, 3); k > 0; --k) {
    faults.push_back(gen_fault(spec, which));
    note("fault %s", faults.back().str().c_str());
  }
  // A solver evaluates a bounded number of times per iteration.
  const int64_t limit = 4000LL * (o.max_iterations + 2);

  std::vector<Value> last[8];  // every evaluation, by kind
  int64_t evals = 0;
  int fired = 0, thrown = 0, after_throw = 0;
  std::string what;
  uint64_t where = 0;
  std::vector<double> bad_accepted;
  Direct d{&spec, {}, {}};
  d.before = [&](Eval e, int i, const std::vector<double>& x) {
    if (thrown) ++after_throw;
    if (++evals > limit) throw Runaway{};
    for (Fault& f : faults) {
      if (!f.thrown || !fires(f, e, x)) continue;
      ++fired;
      thrown = f.thrown;
      count("fault: exception from a user function");
      note("evaluation %d (%s): throws", i, eval_names[static_cast<int>(e)]);
      what = "user error in evaluation " + std::to_string(i);
      if (f.thrown == 1) throw UserError{what};
      if (f.thrown == 2) throw std::bad_alloc{};
      throw i;
    }
  };
  d.after = [&](Eval e, int i, const std::vector<double>& x, double* v, size_t n) {
    for (Fault& f : faults) {
      if (f.thrown || !fires(f, e, x) || n == 0) continue;
      // An absurd value is still that of a function: NaN begets NaN.
      if (std::isfinite(f.value) && !std::all_of(x.begin(), x.end(), [](double q) { return std::isfinite(q); })) continue;
      size_t hits = 0;
      for (size_t k = 0; k < n; ++k) {
        size_t q = (i + k) % n;
        if (!d.structural(e, q) || (hits && !f.all)) continue;
        v[q] = f.value;
        ++hits;
      }
      if (!hits) continue;
      ++fired;
      count(std::isnan(f.value) ? "fault: NaN" : std::isinf(f.value) ? "fault: infinity" : "fault: absurd value");
      where = mix64(where, static_cast<uint64_t>(e) * 8 + std::min(i, 30) / 5);
      if (fired <= 12) note("evaluation %d (%s): fault", i, eval_names[static_cast<int>(e)]);
    }
    Value r{x, std::vector<double>(v, v + n), true, i};
    for (size_t k = 0; k < n; ++k)
      if (!d.structural(e, k)) r.v[k] = 0;
      else r.finite &= std::isfinite(v[k]);
    log(static_cast<uint64_t>(e));
    for (double q : r.v) logd(q);
    last[static_cast<int>(e)].push_back(std::move(r));
  };
  auto at = [&](Eval e, const std::vector<double>& x) -> const Value* {
    auto& l = last[static_cast<int>(e)];
    for (size_t k = l.size(); k-- > 0;)
      if (same_bits(l[k].x, x)) return &l[k];
    return nullptr;
  };
  std::string accepted;
  auto hook = [&](int k, const Info& info) -> bool {
    std::vector<double> x(info.x.data(), info.x.data() + spec.n);
    // Accepted iterates: values known to be nonfinite may not be accepted.
    if (k > 0 && accepted.empty())
      for (Eval e : {Eval::F, Eval::CE, Eval::CI}) {
        // A transient fault may strike a point again after it was accepted.
        bool seen = false, finite = false;
        for (auto& v : last[static_cast<int>(e)])
          if (same_bits(v.x, x)) {
            seen = true;
            finite |= v.finite;
          }
        // In restoration the cost isn't evaluated.
        if (seen && !finite && info.x.size() == spec.n) accepted = std::string(eval_names[static_cast<int>(e)]) + " at iterate " + vec_str(x) + " of callback " + std::to_string(k);
      }
    return false;
  };
  DirectTrace t;
  bool foreign = false;
  int foreign_value = -1;
  std::vector<double> x0 = spec.x0;
  const std::vector<double> x0_bits = x0;
  try {
    t = direct_solve(d, which, o, x0, hook, false, duals);
  } catch (int v) {
    foreign = true;
    foreign_value = v;
  } catch (const Runaway&) {
    fail("endless", "%lld evaluations within %d iterations at most", (long long)evals, o.max_iterations);
  }
  log_trace(t);
  note(" -> %zu callbacks, %d evaluations, %s; x=%s", t.calls.size(), d.evals, foreign ? "int thrown" : t.threw ? t.what.c_str() : status_name(t.status), vec_str(t.final_x).c_str());
  if (fired) nontrivial();
  sig(mix64(mix64(shape(t, spec.n), where), thrown));

  // exceptions
  if (after_throw) fail("exception", "%d further evaluations after a user function threw", after_throw);
  if (thrown == 3) {
    if (!foreign || what != "user error in evaluation " + std::to_string(foreign_value)) fail("exception", "the int thrown by a user function did not reach the caller");
    return;
  }
  if (foreign) fail("exception", "an int came out of a solve whose functions threw none");
  if (thrown) {
    if (!t.threw) fail("exception", "a user function threw, but the solve returned %s", status_name(t.status));
    if (thrown == 1 && t.what != what) fail("exception", "'%s' became '%s'", what.c_str(), t.what.c_str());
    if (thrown == 2 && t.what != std::bad_alloc{}.what()) fail("exception", "bad_alloc became '%s'", t.what.c_str());
  } else if (t.threw) {
    fail("exception", "the solve threw '%s', but no function did", t.what.c_str());
  }
  // variables
  for (double v : t.final_x)
    if (!std::isfinite(v)) fail("variables", "variables %s after %s", vec_str(t.final_x).c_str(), t.threw ? "an exception" : status_name(t.status));
  if (!accepted.empty()) fail("accepted", "nonfinite %s", accepted.c_str());
  // the initial guess: what each function first returned there
  if (!t.threw && t.status != ST_DOFS) {
    const char* bad = nullptr;
    for (int e = 0; e < 8; ++e)
      if (static_cast<Eval>(e) != Eval::HC && !last[e].empty() && same_bits(last[e][0].x, x0_bits) && !last[e][0].finite) bad = eval_names[e];
    if (bad && t.status != ST_NONFINITE) fail("initial guess", "%s was nonfinite at the initial guess, but the solve returned %s after %zu callbacks", bad, status_name(t.status), t.calls.size());
    if (!bad && t.status == ST_NONFINITE) fail("initial guess", "NONFINITE_INITIAL_GUESS, but every function returned finite values there");
  }
  if (t.threw || t.status != ST_SUCCESS) {
    if (!t.threw) count((std::string("ended ") + status_name(t.status)).c_str());
    return;
  }
  count("ended SUCCESS");
  // success: the functions as they were evaluated there
  std::vector<Eval> need = {Eval::F, Eval::G};
  if (which != Solver::NEWTON) need.insert(need.end(), {Eval::CE, Eval::AE});
  if (which == Solver::IP) need.insert(need.end(), {Eval::CI, Eval::AI});
  std::map<Eval, const Value*> val;
  for (Eval e : need) {
    val[e] = at(e, t.final_x);
    if (!val[e]) fail("success", "SUCCESS at %s, where %s was never evaluated", vec_str(t.final_x).c_str(), eval_names[static_cast<int>(e)]);
    // The cost's value isn't part of the optimality conditions: the point counts
    // as evaluated finite if it was when it was accepted.
    bool ok = val[e]->finite;
    if (e == Eval::F)
      for (auto& v : last[static_cast<int>(e)]) ok |= v.finite && same_bits(v.x, t.final_x);
    if (!ok) fail("success", "SUCCESS at %s, where %s was nonfinite (evaluation %d)", vec_str(t.final_x).c_str(), eval_names[static_cast<int>(e)], val[e]->at);
  }
  const int n = spec.n, me = spec.eq.size(), mi = spec.ineq.size();
  auto small = [&](double v, double scale, const char* w) {
    if (!(std::abs(v) <= o.tolerance * scale * (1 + 1e-6) + 1e-300)) fail("success", "SUCCESS with %s = %g (tolerance %g, scale %g)", w, v, o.tolerance, scale);
  };
  VecX g = Eigen::Map<const VecX>(val[Eval::G]->v.data(), n);
  VecX mag = g.cwiseAbs();
  if (me) {
    for (double v : val[Eval::CE]->v) small(v, 1, "an equality constraint");
  }
  if (mi && !duals) {
    for (double v : val[Eval::CI]->v)
      if (v < -o.tolerance * (1 + 1e-6)) fail("success", "SUCCESS with an inequality constraint at %g", v);
  }
  if (which == Solver::NEWTON || duals) {
    double sd = 1, sc = 1;
    if (duals) {
      double ny = 0, nz = 0;
      for (double v : t.y) ny += std::abs(v);
      for (double v : t.z) nz += std::abs(v);
      if (me + mi) sd = std::max(100.0, (ny + nz) / (me + mi)) / 100;
      if (mi) sc = std::max(100.0, nz / mi) / 100;
      if (me) {
        MatX A = Eigen::Map<const MatX>(val[Eval::AE]->v.data(), me, n);
        VecX y = Eigen::Map<const VecX>(t.y.data(), me);
        g -= A.transpose() * y;
        mag += A.cwiseAbs().transpose() * y.cwiseAbs();
      }
      if (mi) {
        MatX A = Eigen::Map<const MatX>(val[Eval::AI]->v.data(), mi, n);
        VecX z = Eigen::Map<const VecX>(t.z.data(), mi);
        g -= A.transpose() * z;
        mag += A.cwiseAbs().transpose() * z.cwiseAbs();
        for (int k = 0; k < mi; ++k) {
          double s = t.s[k];
          if (!(s >= 0) || !(z[k] >= 0)) fail("success", "SUCCESS with slack %g, multiplier %g", s, z[k]);
          small(s * z[k], sc, "a complementarity product");
          small(val[Eval::CI]->v[k] - s, 1 + 1e-9 * std::abs(s) / o.tolerance, "an inequality constraint minus its slack");
        }
      }
    }
    for (int k = 0; k < n; ++k) small(g[k], sd + 1e-13 * mag[k] / o.tolerance, "a component of the Lagrangian's gradient");
  }
}
}  // namespace sim
