// C16: what iteration callbacks are shown.
//
// Every regular iteration's x, s, y, z, g, H, A_e, A_i is checked against the
// reference evaluator: one positive scale factor per function, constant for
// the whole solve, must explain all of them.  With user functions (unit
// scaling), the derivatives shown must be the ones evaluated at the x shown,
// bit for bit, whatever trial evaluations failed in between.
#include "model.hpp"

namespace sim {

const WorldInfo world = {
    "C16",
    "each run draws a problem, a way to state it, options, callbacks that meddle with variables outside of the problem, and (for user functions) transient "
    "NaN or infinite trial evaluations; every callback of every regular iteration is checked; non-trivial: at least two regular iterations were "
    "checked; distinct = distinct event-log hashes",
    "Problem (scaling), autodiff, newton, sqp, interior_point, feasibility restoration", "clocks, stdout (simulated); user functions of the direct variant (reference model)",
    "(solve's shape, statement variant, faults injected)",
    60000, 3000000};

namespace {
using LD = long double;

/// Reference values of one function at x with an estimate of rounding errors.
struct Ref {
  double v = 0;
  std::vector<double> g, h, eg, eh;
  bool ok = true;
};

struct Checker {
  const Spec& spec;
  int n;
  double sign;
  std::vector<double> scale_f{};           // 0 or 1 entries
  std::vector<std::optional<double>> se, si;
  std::optional<double> sf;
  int checked = 0, skipped = 0;

  explicit Checker(const Spec& s) : spec{s}, n{s.n}, sign{s.maximize ? -1.0 : 1.0}, se(s.eq.size()), si(s.ineq.size()) {}

  std::vector<Dual<double>> d, err;
  std::vector<Dual<LD>> l;
  bool tame = true;
  /// Far enough from singular points for rounding not to matter.
  bool is_tame() const {
    for (size_t i = 0; i < spec.ast.n.size(); ++i) {
      const Node& nd = spec.ast.n[i];
      double a = nd.a >= 0 ? d[nd.a].v : 0, b = nd.b >= 0 ? d[nd.b].v : 0;
      switch (nd.op) {
        case Op::DIV:
          if (std::abs(b) < 1e-2) return false;
          break;
        case Op::SQRT:
        case Op::LOG:
        case Op::POWC:
          if (std::abs(a) < 1e-2) return false;
          break;
        case Op::ASIN:
          if (std::abs(a) > 0.99) return false;
          break;
        case Op::TAN:
          if (std::abs(std::cos(a)) < 1e-2) return false;
          break;
        default: break;
      }
    }
    return true;
  }
  void at(const std::vector<double>& x) {
    d = eval_duals<double>(spec.ast, x);
    l = eval_duals<LD>(spec.ast, x);
    err = eval_errors(spec.ast, x);
    tame = spec.family.starts_with("nonfinite") ? is_tame() : true;
  }
  Ref ref(int id, double sgn = 1) {
    Ref r;
    r.g.resize(n);
    r.eg.resize(n);
    r.h.resize(n * n);
    r.eh.resize(n * n);
    double gmax = 0, hmax = 0;
    for (int i = 0; i < n; ++i) {
      r.g[i] = sgn * static_cast<double>(l[id].g[i]);
      gmax = std::max(gmax, std::abs(r.g[i]));
      r.eg[i] = 1e-11 * err[id].g[i];
    }
    for (int i = 0; i < n * n; ++i) {
      r.h[i] = sgn * static_cast<double>(l[id].h[i]);
      hmax = std::max(hmax, std::abs(r.h[i]));
      r.eh[i] = 1e-11 * err[id].h[i];
    }
    r.ok = tame && std::isfinite(gmax) && std::isfinite(hmax) && gmax < 1e12 && hmax < 1e12;
    for (double v : r.g)
      if (!std::isfinite(v)) r.ok = false;
    for (double v : r.h)
      if (!std::isfinite(v)) r.ok = false;
    // All intermediate nodes must be tame too
    for (auto& nd : l)
      if (!std::isfinite(static_cast<double>(nd.v)) || std::abs(nd.v) > 1e15L) r.ok = false;
    double e = std::max(gmax, hmax);
    for (int i = 0; i < n; ++i) r.eg[i] += 1e-9 * (1 + e);
    for (int i = 0; i < n * n; ++i) r.eh[i] += 1e-9 * (1 + e);
    return r;
  }

  void row(const char* what, int k, const std::vector<double>& got, const Ref& r, std::optional<double>& s, int it) {
    if (!r.ok) {
      skipped++;
      return;
    }
    if (!s) {
      int m = 0;
      for (int i = 1; i < n; ++i)
        if (std::abs(r.g[i]) > std::abs(r.g[m])) m = i;
      if (std::abs(r.g[m]) > 1e4 * r.eg[m]) {
        s = got[m] / r.g[m];
        if (!(*s > 0) || !std::isfinite(*s))
          fail("scale", "iteration %d: %s %d is %g where its reference is %g: no positive scale factor", it, what, k, got[m], r.g[m]);
      }
    }
    if (!s) {
      // Nothing but (nearly) zeros, or too ill-conditioned to tell the scale
      for (int i = 0; i < n; ++i)
        if (std::abs(r.g[i]) > 1e-6 || r.eg[i] > 1e-6) {
          skipped++;
          return;
        }
    }
    double f = s.value_or(1.0);
    for (int i = 0; i < n; ++i) {
      double tol = s ? f * r.eg[i] + 1e-8 * f * std::abs(r.g[i]) : 1e-3;
      if (!(std::abs(got[i] - f * r.g[i]) <= tol))
        fail("derivative", "iteration %d: %s %d has entry %d = %.17g, expected %.17g (scale %g)", it, what, k, i, got[i], f * r.g[i], f);
    }
    checked++;
  }

  void check(const Call& c) {
    int it = c.iteration;
    auto size = [&](const char* nm, long got, long want) {
      if (got != want) fail("size", "iteration %d: %s has size %ld instead of %ld", it, nm, got, want);
    };
    size("x", c.x.size(), n);
    size("g", c.g.size(), n);
    size("H rows", c.H.rows(), n);
    size("H cols", c.H.cols(), n);
    bool has_y = !spec.eq.empty(), has_z = !spec.ineq.empty();
    if (has_y) {
      size("y", c.y.size(), spec.eq.size());
      size("A_e rows", c.A_e.rows(), spec.eq.size());
      size("A_e cols", c.A_e.cols(), n);
    }
    if (has_z) {
      size("s", c.s.size(), spec.ineq.size());
      size("z", c.z.size(), spec.ineq.size());
      size("A_i rows", c.A_i.rows(), spec.ineq.size());
      size("A_i cols", c.A_i.cols(), n);
    }
    finite(c, spec);
    at(c.x);
    MatX Ae = c.A_e.rows() ? MatX(c.A_e) : MatX(), Ai = c.A_i.rows() ? MatX(c.A_i) : MatX(), H = MatX(c.H);
    VecX g = VecX(c.g);
    for (auto* m : {&H, &Ae, &Ai})
      if (m->size() && !m->allFinite()) {
        skipped++;
        return;
      }
    if (!g.allFinite()) {
      skipped++;
      return;
    }
    if (spec.cost >= 0) row("gradient", 0, to_std(g), ref(spec.cost, sign), sf, it);
    else
      for (int i = 0; i < n; ++i)
        if (g[i] != 0) fail("derivative", "iteration %d: gradient entry %d = %g without a cost function", it, i, g[i]);
    for (size_t k = 0; k < spec.eq.size(); ++k) {
      VecX r = Ae.row(k);
      row("A_e row", k, to_std(r), ref(spec.eq[k]), se[k], it);
    }
    for (size_t k = 0; k < spec.ineq.size(); ++k) {
      VecX r = Ai.row(k);
      row("A_i row", k, to_std(r), ref(spec.ineq[k]), si[k], it);
    }
    // Hessian of the Lagrangian, lower triangle
    std::vector<double> want(n * n, 0), tol(n * n, 1e-12);
    bool known = true;
    auto add = [&](int id, double w, double sgn) {
      Ref r = ref(id, sgn);
      if (!r.ok) known = false;
      if (!(std::abs(w) <= 1e9)) known = false;
      for (int i = 0; i < n * n; ++i) {
        want[i] += w * r.h[i];
        tol[i] += std::abs(w) * (r.eh[i] + 1e-8 * std::abs(r.h[i]));
      }
    };
    bool zero = true;
    auto nonzero_h = [&](int id) {
      for (auto v : l[id].h)
        if (v != 0) return true;
      return false;
    };
    (void)zero;
    if (spec.cost >= 0) {
      if (!sf && nonzero_h(spec.cost)) known = false;
      add(spec.cost, sf.value_or(1), sign);
    }
    for (size_t k = 0; k < spec.eq.size(); ++k) {
      if (!se[k] && nonzero_h(spec.eq[k])) known = false;
      add(spec.eq[k], -se[k].value_or(1) * c.y[k], 1);
    }
    for (size_t k = 0; k < spec.ineq.size(); ++k) {
      if (!si[k] && nonzero_h(spec.ineq[k])) known = false;
      add(spec.ineq[k], -si[k].value_or(1) * c.z[k], 1);
    }
    if (!known) {
      skipped++;
      return;
    }
    for (int p = 0; p < n; ++p)
      for (int q = 0; q <= p; ++q)
        if (!(std::abs(H(p, q) - want[p * n + q]) <= tol[p * n + q]))
          fail("hessian", "iteration %d: H(%d,%d) = %.17g, expected %.17g", it, p, q, H(p, q), want[p * n + q]);
    checked++;
  }

  bool overflowed = false;
  void finite(const Call& c, const Spec& spec) {
    int it = c.iteration;
    // mu/s overflows at denormal slacks
    for (double d : c.s)
      if (d < 1e-280) overflowed = true;
    auto fin = [&](const char* nm, const std::vector<double>& v) {
      for (double d : v)
        if (!std::isfinite(d)) fail("nonfinite", "iteration %d: %s = %s", it, nm, vec_str(v).c_str());
    };
    fin("x", c.x);
    fin("s", c.s);
    for (double d : c.s)
      if (!(d > 0)) fail("not-interior", "iteration %d: s = %s", it, vec_str(c.s).c_str());
    if (overflowed) {
      count("probe: denormal slack");
      return;
    }
    fin("y", c.y);
    fin("z", c.z);
    for (double d : c.z)
      if (!(d > 0)) fail("not-interior", "iteration %d: z = %s", it, vec_str(c.z).c_str());
    auto sp = [&](const char* nm, const SpMat& m) {
      for (int k = 0; k < m.outerSize(); ++k)
        for (SpMat::InnerIterator i{m, k}; i; ++i)
          if (!std::isfinite(i.value())) fail("nonfinite", "iteration %d: %s(%d,%d) = %g", it, nm, (int)i.row(), (int)i.col(), i.value());
    };
    // Derivatives that overflow where the functions themselves are extreme are
    // the functions' doing, not the solver's.
    auto u = eval_duals<double>(spec.ast, c.x);
    for (auto& nd : u) {
      if (!(std::abs(nd.v) < 100)) return;
      for (double v : nd.g)
        if (!std::isfinite(v)) return;
      for (double v : nd.h)
        if (!std::isfinite(v)) return;
    }
    auto lag = [&](const std::vector<double>& v) {
      for (double d : v)
        if (std::abs(d) > 1e100) return true;
      return false;
    };
    if (!lag(c.y) && !lag(c.z)) sp("H", c.H);
    sp("A_e", c.A_e);
    sp("A_i", c.A_i);
    SpMat g(c.g);
    sp("g", g);
  }
};
}  // namespace

void run_world() {
  install_stdout(2);
  clk.active = true;
  Spec spec;
  GenOptions go;
  go.nonfinite = true;
  spec = gen_problem(go);
  bool direct = chance(1, 3);
  Solver which = natural_solver(spec);
  slp::Options o;
  o.tolerance = pick({1e-8, 1e-5, 1e-10});
  o.max_iterations = pick({120, 30});
  o.feasible_ipm = chance(1, 5);
  note("problem %s", spec.str().c_str());
  note("%s tol=%g feasible_ipm=%d", direct ? "direct" : "Problem", o.tolerance, o.feasible_ipm);
  Checker ck(spec);
  const int n = spec.n;
  int regular = 0;
  uint64_t faults = 0;
  if (direct) {
    // transient failures of trial evaluations
    std::vector<std::pair<int, double>> bad;
    if (chance(1, 2))
      for (int k = range(1, 6); k > 0; --k) bad.push_back({6 + static_cast<int>(choose(150)), pick({std::nan(""), (double)INFINITY, -(double)INFINITY})});
    Direct d{&spec, {}, {}};
    struct Last {
      std::vector<double> x, v;
      bool used = false;
    };
    std::vector<double> gx, hx, aex, aix;  // x of the latest evaluations of each derivative
    std::vector<double> last_x[8];
    d.before = [&](Eval e, int, const std::vector<double>& x) { last_x[static_cast<int>(e)] = x; };
    d.after = [&](Eval e, int i, const std::vector<double>&, double* v, size_t m) {
      if (e != Eval::F && e != Eval::CE && e != Eval::CI) return;
      for (auto& [at, val] : bad)
        if (at == i && m) {
          v[0] = val;
          faults++;
          count("fault: transient nonfinite trial evaluation");
        }
    };
    Direct clean{&spec, {}, {}};
    DirectTrace t = direct_solve(
        d, which, o, spec.x0,
        [&](int, const Info& i) -> bool {
          if (i.x.size() != n) return false;
          Call c = snapshot(i, true);
          regular++;
          ck.check(c);
          return false;
        },
        false);
    log_trace(t);
    if (t.threw) fail("throws", "%s", t.what.c_str());
    note("%zu callbacks, %s, %llu evaluations failed", t.calls.size(), status_name(t.status), (unsigned long long)faults);
    sig(mix64(shape(t, n), faults));
  } else {
    int style = choose(2);
    Built b = build(spec, style);
    // A second problem and stray variables the callbacks meddle with
    slp::Problem<double> other;
    auto w = other.decision_variable(2);
    V stray{1.0};
    V stray_expr = stray * w[0] + slp::sin(w[1]);
    bool meddle = chance(1, 2);
    int ncb = range(1, 3);
    Call first;
    std::vector<Call> seen;
    Trace t;
    for (int k = 0; k < ncb; ++k)
      b.p->add_callback([&, k](const Info& i) -> bool {
        Call c = snapshot(i, true);
        if (k == 0) {
          first = c;
          t.calls.push_back(c);
        } else {
          Trace a, z;
          a.calls = {first};
          z.calls = {c};
          std::string d = diff_calls(a, z, 1, true);
          if (!d.empty()) fail("changed-within-iteration", "callbacks 0 and %d of the same iteration were shown different snapshots: %s", k, d.c_str());
        }
        if (meddle) {
          w[0].set_value(w[0].value() + 1.5 * (k + 1));
          stray.set_value(-stray.value() * 2);
          w[1].set_value(stray_expr.value());
          count("fault: callback changes unrelated variables");
        }
        return false;
      });
    try {
      t.status = static_cast<int>(b.p->solve(o));
    } catch (const std::exception& e) {
      fail("throws", "%s", e.what());
    }
    t.final_x = b.get();
    log_trace(t);
    for (auto& c : t.calls)
      if (static_cast<int>(c.x.size()) == n) {
        regular++;
        ck.check(c);
      }
    note("%zu callbacks, %s", t.calls.size(), status_name(t.status));
    sig(mix64(shape(t, n), 2 + meddle));
  }
  count("probe: functions checked", ck.checked);
  count("probe: functions skipped (reference not finite or too large)", ck.skipped);
  if (regular >= 2) nontrivial();
}
}  // namespace sim
