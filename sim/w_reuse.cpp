// C10: a problem whose solves were interrupted, aborted by exceptions or
// nested in one another solves like a freshly built one, and so do problems
// that share expressions with it.
#include <sleipnir/autodiff/gradient.hpp>
#include <sleipnir/autodiff/hessian.hpp>
#include <sleipnir/autodiff/jacobian.hpp>

#include "model.hpp"

namespace sim {

const WorldInfo world = {
    "C10",
    "each run draws a problem P, a second problem Q over expressions of P, and a history of up to 10 operations (solves of P and Q ending in success, stop, "
    "limit, timeout, exception; solves nested in callbacks; derivative objects; statement changes; evaluations); after it, and now and then in between, a "
    "solve of P (or Q) is compared bit for bit with a freshly built copy; non-trivial: a compared solve came after one that was cut short; distinct = "
    "distinct event-log hashes",
    "Problem, autodiff (shared graphs, gradients, Jacobians, Hessians), newton, sqp, interior_point, feasibility restoration, spy",
    "clocks, disk and stdout (simulated)",
    "(compared solve's shape, how the previous solves ended)",
    20000, 1500000};

namespace {
struct Boom : std::runtime_error {
  Boom() : std::runtime_error("boom") {}
};

/// Q: min (y - e)^2 + y^2 [s.t. y >= e - 1], e an expression of P used as a
/// parameter.
struct Second {
  std::unique_ptr<slp::Problem<double>> p;
  V y;
  int expr = -1;
  int kind = 0;
};
Second make_second(Built& b, int expr, int kind) {
  Second q;
  q.expr = expr;
  q.kind = kind;
  q.p = std::make_unique<slp::Problem<double>>();
  q.y = q.p->decision_variable();
  V e = b.node[expr];
  q.p->minimize(slp::pow(q.y - e, 2.0) + slp::sin(e) * q.y + q.y * q.y);
  if (kind == 1) q.p->subject_to(q.y >= e - 1.0);
  if (kind == 2) q.p->subject_to(q.y * q.y * q.y == e);
  return q;
}

Trace solve_second(Second& q, const slp::Options& o, double y0) {
  Trace t;
  q.y.set_value(y0);
  q.p->clear_callbacks();
  q.p->add_callback([&](const Info& i) -> bool {
    t.calls.push_back(snapshot(i, true));
    return false;
  });
  t.status = static_cast<int>(q.p->solve(o));
  t.final_x = {q.y.value()};
  q.p->clear_callbacks();
  return t;
}

struct Interrupt {
  enum Kind { NONE, STOP, THROW, LIMIT, TIMEOUT, THROW_ODD } kind = NONE;
  int at = 0;
};
Interrupt gen_interrupt() {
  Interrupt i;
  i.kind = pick({Interrupt::NONE, Interrupt::THROW, Interrupt::STOP, Interrupt::LIMIT, Interrupt::TIMEOUT, Interrupt::THROW_ODD});
  i.at = pick({0, 1, 2, 3, 5, 8, 13, 20});
  return i;
}
}  // namespace

void run_world() {
  install_stdout(2);
  clk.active = true;
  disk.active = true;
  GenOptions go;
  go.nonfinite = true;
  go.max_n = 3;
  Spec spec = gen_problem(go);
  int style = choose(2);
  note("problem %s", spec.str().c_str());
  Built b = build(spec, style);
  auto pick_expr = [&] {
    std::vector<int> c;
    for (size_t i = 0; i < spec.ast.n.size(); ++i)
      if (spec.ast.n[i].op != Op::CONST) c.push_back(static_cast<int>(i));
    return c[choose(c.size())];
  };
  std::vector<Second> seconds;
  std::vector<slp::Gradient<double>> grads;
  uint64_t past = 0;
  bool cut = false;

  auto options = [&] {
    slp::Options o;
    o.tolerance = pick({1e-8, 1e-5});
    o.max_iterations = 80;
    o.feasible_ipm = chance(1, 6);
    o.diagnostics = chance(1, 12);
    return o;
  };
  auto compare = [&](const char* what, const Trace& t, const Trace& f) {
    std::string d = diff_calls(t, f, std::min(t.calls.size(), f.calls.size()), true);
    if (!d.empty()) fail("history-dependent", "%s: differs from a freshly built problem: %s", what, d.c_str());
    if (t.calls.size() != f.calls.size() || t.status != f.status)
      fail("history-dependent", "%s: %zu callbacks %s, a freshly built problem makes %zu callbacks %s", what, t.calls.size(), status_name(t.status), f.calls.size(),
           status_name(f.status));
    if (!same_bits(t.final_x, f.final_x)) fail("history-dependent", "%s: variables %s, freshly built problem %s", what, vec_str(t.final_x).c_str(), vec_str(f.final_x).c_str());
  };
  auto compare_p = [&] {
    slp::Options o = options();
    std::vector<double> x0 = spec.x0;
    if (chance(1, 2))
      for (auto& v : x0) v = range(-6, 6) / 2.0;
    b.set(x0);
    Trace t = traced_solve(b, o, {}, true);
    Spec s2 = spec;
    s2.x0 = x0;
    Built fb = build(s2, style);
    Trace f = traced_solve(fb, o, {}, true);
    log_trace(t);
    note("compare P from %s: %zu callbacks, %s", vec_str(x0).c_str(), t.calls.size(), status_name(t.status));
    compare("P", t, f);
    if (cut && !t.calls.empty()) nontrivial();
    sig(mix64(shape(t, spec.n), past));
  };
  auto compare_q = [&](Second& q) {
    slp::Options o = options();
    std::vector<double> x = b.get();
    double y0 = range(-4, 4) / 2.0;
    Trace t = solve_second(q, o, y0);
    Spec s2 = spec;
    s2.x0 = x;
    Built fb = build(s2, style);
    Second fq = make_second(fb, q.expr, q.kind);
    Trace f = solve_second(fq, o, y0);
    log_trace(t);
    note("compare Q with parameters %s: %zu callbacks, %s", vec_str(x).c_str(), t.calls.size(), status_name(t.status));
    compare("Q", t, f);
    if (cut && !t.calls.empty()) nontrivial();
    sig(mix64(shape(t, 1), past ^ 77));
    if (!same_bits(b.get(), x)) fail("parameter-changed", "solving Q changed the variables of P: %s -> %s", vec_str(x).c_str(), vec_str(b.get()).c_str());
  };

  int ops = range(2, 10);
  for (int op = 0; op < ops; ++op) {
    switch (choose(9)) {
      case 0:
      case 1:
      case 2:
      case 3: {
        slp::Options o = options();
        Interrupt in = gen_interrupt();
        if (in.kind == Interrupt::LIMIT) o.max_iterations = in.at + 1;
        if (in.kind == Interrupt::TIMEOUT) o.timeout = std::chrono::duration<double>(in.at + 0.5);
        bool nest = chance(1, 4) && !seconds.empty();
        bool recurse_eval = chance(1, 4);
        bool from_last = chance(1, 3);
        bool spy = chance(1, 8);
        if (!from_last) b.set(spec.x0);
        int calls = 0, st = 99;
        b.p->clear_callbacks();
        // A passive observer, then the interrupting one
        b.p->add_callback([&](const Info&) -> bool {
          int k = calls++;
          advance(1.0);
          if (nest && k == in.at / 2) {
            Second& q = seconds[0];
            q.p->clear_callbacks();
            slp::Options oq;
            oq.max_iterations = 6;
            q.p->solve(oq);
            count("fault: nested solve sharing expressions");
          }
          if (recurse_eval && k == in.at / 2) {
            for (auto& g : grads) g.value();
            V e = b.node[spec.cost >= 0 ? spec.cost : 0];
            e.value();
          }
          if (k == in.at) {
            if (in.kind == Interrupt::STOP) return true;
            if (in.kind == Interrupt::THROW) throw Boom();
            if (in.kind == Interrupt::THROW_ODD) throw 42;
          }
          return false;
        });
        const char* end = nullptr;
        try {
          st = static_cast<int>(b.p->solve(o, spy));
          end = status_name(st);
        } catch (const Boom&) {
          end = "exception";
        } catch (int v) {
          if (v != 42) fail("exception", "an exception arrived changed");
          end = "int exception";
        }
        b.p->clear_callbacks();
        note("solve P%s%s%s -> %d callbacks, %s", from_last ? " from where it is" : "", nest ? " with nested Q" : "", spy ? " with spy" : "", calls, end);
        count((std::string("fault: P ended by ") + end).c_str());
        if (st != 0) cut = true;
        past = mix64(past, st + 1000 + calls);
        break;
      }
      case 4:
        if (seconds.size() < 2) {
          seconds.push_back(make_second(b, pick_expr(), choose(3)));
          note("create Q over %s", spec.ast.str(seconds.back().expr).substr(0, 60).c_str());
        } else if (chance(1, 2)) {
          seconds.erase(seconds.begin());
          note("destroy Q");
        } else {
          compare_q(seconds[choose(seconds.size())]);
        }
        break;
      case 5: {
        // derivative objects on shared expressions
        int e = pick_expr();
        V v = b.node[e];
        slp::VariableMatrix<double> xs(spec.n);
        for (int i = 0; i < spec.n; ++i) xs[i] = b.x[i];
        switch (choose(4)) {
          case 0: grads.emplace_back(v, xs); break;
          case 1: {
            slp::Gradient<double> g{v, xs};
            auto sym = g.get();
            for (int i = 0; i < spec.n; ++i) sym[i].value();
            break;
          }
          case 2: {
            slp::Hessian<double, Eigen::Lower> h{v, xs};
            h.value();
            if (chance(1, 2)) h.get().value();
            break;
          }
          default: {
            slp::VariableMatrix<double> m(2);
            m[0] = v;
            m[1] = b.node[pick_expr()];
            slp::Jacobian<double> j{m, xs};
            j.value();
            if (chance(1, 2)) j.get().value();
            break;
          }
        }
        note("derivatives of %s", spec.ast.str(e).substr(0, 60).c_str());
        break;
      }
      case 6: {
        // change the statement of P
        int w = choose(3);
        if (w == 0 && spec.cost >= 0) {
          int e = pick_expr();
          Node nd{Op::SQUARE, e};
          spec.ast.add(nd);
          b.node.push_back(apply(nd, &b.node[e], nullptr, nullptr));
          Node nd2{Op::ADD, spec.cost, static_cast<int>(spec.ast.n.size()) - 1};
          spec.ast.add(nd2);
          b.node.push_back(apply(nd2, &b.node[nd2.a], &b.node[nd2.b], nullptr));
          spec.cost = static_cast<int>(spec.ast.n.size()) - 1;
          spec.maximize = false;
          b.p->minimize(b.node[spec.cost]);
          note("change the cost");
        } else if (w == 1 && spec.ineq.size() < 6) {
          Node nd = spec.ast.n[0];
          nd = {Op::VAR, -1, -1, 0, static_cast<int>(choose(spec.n))};
          spec.ast.add(nd);
          b.node.push_back(b.x[nd.c]);
          Node nd2{Op::SQUARE, static_cast<int>(spec.ast.n.size()) - 1};
          spec.ast.add(nd2);
          b.node.push_back(apply(nd2, &b.node[nd2.a], nullptr, nullptr));
          Node nk{Op::CONST, -1, -1, 20.0 + choose(3)};
          spec.ast.add(nk);
          b.node.push_back(V(nk.k));
          Node nd3{Op::SUB, static_cast<int>(spec.ast.n.size()) - 1, static_cast<int>(spec.ast.n.size()) - 2};
          spec.ast.add(nd3);
          b.node.push_back(apply(nd3, &b.node[nd3.a], &b.node[nd3.b], nullptr));
          int id = static_cast<int>(spec.ast.n.size()) - 1;
          spec.ineq.push_back(id);
          b.p->subject_to(b.node[id] >= 0.0);
          note("add an inequality constraint");
        } else {
          for (size_t i = 0; i < b.x.size(); ++i) b.x[i].set_value(range(-8, 8) / 4.0);
          note("assign values");
        }
        break;
      }
      case 7: compare_p(); break;
      default:
        for (int k = 0; k < 3; ++k) {
          int e = pick_expr();
          b.node[e].value();
        }
        break;
    }
  }
  compare_p();
  if (!seconds.empty()) {
    for (size_t i = 0; i < b.x.size(); ++i) b.x[i].set_value(range(-8, 8) / 4.0);
    compare_q(seconds.back());
  }
}
}  // namespace sim
