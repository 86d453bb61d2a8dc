// C21: allocations that fail at any point of building, differentiating,
// evaluating and solving.
//
// Every operation is done twice: on a shadow that has all the memory it wants,
// and on the system under test, where chosen allocations of that operation
// fail.  Afterwards, and after the memory pressure is over, everything that is
// still referenced must report, bit for bit, what the shadow reports.
#include <new>
#include <stdexcept>
#include <variant>

#include <sleipnir/autodiff/gradient.hpp>
#include <sleipnir/autodiff/hessian.hpp>
#include <sleipnir/autodiff/jacobian.hpp>
#include <sleipnir/util/pool.hpp>

#include "model.hpp"

namespace sim {

const WorldInfo world = {
    "C21",
    "each run is a history of up to 30 operations (building expressions and long chains, matrices, in-place updates, derivatives and their symbolic forms, stating and solving problems, "
    "assignments, destruction); an operation is done on a shadow first, then with one, several, all further or all large allocations failing from a chosen one on; what is referenced is "
    "compared bit for bit with the shadow afterwards and the storage in use is checked at the end; non-trivial: an allocation failed; distinct = distinct event-log hashes",
    "Variable, VariableMatrix, Gradient, Jacobian, Hessian, expression graphs, pool, Problem, solvers",
    "malloc (failing), clocks, stdout, disk",
    "(operation, how it ended, how allocations failed, what was compared)",
    60000, 3000000};

namespace {
using Mat = slp::VariableMatrix<double>;
using D = std::variant<slp::Gradient<double>, slp::Jacobian<double>, slp::Hessian<double>, slp::Hessian<double, Eigen::Lower>>;

struct Side {
  std::unique_ptr<Built> b;
  std::vector<V> e;
  std::vector<Mat> m;
  std::vector<std::unique_ptr<D>> d;
  std::vector<double> out;  // what the operation reported
};
void report(Side& s, const V& v) { s.out.push_back(V(v).value()); }
void report(Side& s, const MatX& v) {
  for (int r = 0; r < v.rows(); ++r)
    for (int c = 0; c < v.cols(); ++c) s.out.push_back(v(r, c));
}
void report(Side& s, D& d) {
  std::visit([&](auto& q) { report(s, MatX(q.value())); }, d);
}

struct Runner {
  Spec spec;
  Side a, b;  // under test, shadow
  int fired = 0, n = 0;
  bool failed = false;

  /// Does op on the shadow, then on the system under test with failing
  /// allocations; returns true if it was completed on both.
  template <typename F>
  bool op(const char* name, F f, bool may_retry = true) {
    b.out.clear();
    a.out.clear();
    a.out.reserve(4096);
    heap.seen = 0;
    heap.fail_from = heap.fail_size = ~0ull;
    heap.fail_count = 0;
    heap.armed = true;
    f(b);
    heap.armed = false;
    uint64_t total = heap.seen;
    if (b.out.size() > 4096) harness_error("too much reported");
    bool inject = total && chance(3, 4);
    int mode = 0;
    if (inject) {
      mode = range(1, 4);
      heap.fail_from = choose(2) ? choose(total) : total - 1 - choose(std::min<uint64_t>(total, 20));
      heap.fail_count = mode == 1 ? 1 : mode == 2 ? range(2, 6) : ~0ull;
      if (mode == 4) {
        heap.fail_from = ~0ull;
        heap.fail_count = 0;
        heap.fail_size = pick({64, 512, 4096, 65536, 1 << 20});
      }
    }
    uint64_t before = heap.failures;
    int ended = 0;
    const size_t ne = a.e.size(), nm = a.m.size(), nd = a.d.size();
    const size_t blocks = slp::global_pool_resource().blocks_in_use();
    heap.seen = 0;
    heap.armed = inject;
    try {
      f(a);
    } catch (const std::bad_alloc&) {
      ended = 1;
    } catch (const std::exception& e) {
      heap.armed = false;
      fail("exception", "%s with failing allocations threw '%s' instead of bad_alloc", name, e.what());
    } catch (...) {
      heap.armed = false;
      fail("exception", "%s with failing allocations threw something else than bad_alloc", name);
    }
    heap.armed = false;
    uint64_t hits = heap.failures - before;
    static const char* const modes[] = {"none", "one allocation failed", "several allocations failed", "all further allocations failed", "large allocations failed"};
    if (hits) {
      ++fired;
      count(modes[mode] == modes[1] ? "fault: one allocation failed" : mode == 2 ? "fault: several allocations failed" : mode == 3 ? "fault: all further allocations failed" : "fault: large allocations failed");
      nontrivial();
    }
    note("%s: %llu allocations%s%s%s", name, (unsigned long long)total, hits ? "; " : "", hits ? modes[mode] : "", ended ? "; bad_alloc" : "");
    log(hits);
    log(ended);
    sig(mix64(mix64(name[0] * 256 + name[1], ended), mode * 4 + (hits ? 1 : 0)));
    if (ended && !hits) fail("exception", "%s threw bad_alloc, but no allocation failed", name);
    if (ended) {
      failed = true;
      while (a.e.size() > ne) a.e.pop_back();
      while (a.m.size() > nm) a.m.pop_back();
      while (a.d.size() > nd) a.d.pop_back();
      size_t now = slp::global_pool_resource().blocks_in_use();
      if (may_retry && now != blocks) fail("storage", "%s that ran out of memory left %zu blocks in use instead of %zu", name, now, blocks);
      if (may_retry && chance(1, 2)) {
        a.out.clear();
        f(a);
        note("  tried again");
        ended = 0;
      }
    }
    if (!ended && !same_bits(a.out, b.out)) fail("value", "%s reported %s instead of %s", name, vec_str(a.out).c_str(), vec_str(b.out).c_str());
    return !ended;
  }
  void compare(const char* what, int i) {
    a.out.clear();
    b.out.clear();
    if (what[0] == 'e') {
      report(b, b.e[i]);
      report(a, a.e[i]);
    } else if (what[0] == 'm') {
      report(b, b.m[i].value());
      report(a, a.m[i].value());
    } else {
      report(b, *b.d[i]);
      report(a, *a.d[i]);
    }
    for (double v : a.out) logd(std::isnan(v) ? 0 : v);
    // (NaNs aren't distinguished)
    bool same = a.out.size() == b.out.size();
    for (size_t k = 0; same && k < a.out.size(); ++k) same = same_bits(a.out[k], b.out[k]) || (std::isnan(a.out[k]) && std::isnan(b.out[k]));
    if (!same) fail(what, "%s %d is %s instead of %s", what, i, vec_str(a.out).c_str(), vec_str(b.out).c_str());
    sig(mix64(what[0], failed));
  }
  void compare_any() {
    switch (choose(3)) {
      case 0: if (!a.e.empty()) compare("expression", choose(a.e.size())); break;
      case 1: if (!a.m.empty()) compare("matrix", choose(a.m.size())); break;
      case 2: if (!a.d.empty()) compare("derivative", choose(a.d.size())); break;
    }
  }
  void both(auto f) {
    f(a);
    f(b);
  }
  void reserve() {
    both([](Side& s) {
      s.e.reserve(s.e.size() + 8);
      s.m.reserve(s.m.size() + 8);
      s.d.reserve(s.d.size() + 8);
    });
  }

  void new_expr() {
    Ast ast;
    int root = gen_expr(ast, std::max<int>(1, a.e.size()), range(1, 4), chance(1, 3));
    bool val = choose(2);
    bool ok = op("new expression", [&](Side& s) {
      std::vector<V> lib;
      lib.reserve(ast.n.size());
      for (const Node& nd : ast.n) {
        if (nd.op == Op::VAR) lib.push_back(s.e[nd.c]);
        else if (nd.op == Op::CONST) lib.push_back(V(nd.k));
        else lib.push_back(apply(nd, &lib[nd.a], nd.b >= 0 ? &lib[nd.b] : nullptr, nd.op == Op::HYPOT3 ? &lib[nd.c] : nullptr));
      }
      if (val) report(s, lib[root]);
      s.e.push_back(lib[root]);
    });
    if (!ok) b.e.pop_back();
  }
  void chain() {
    int len = pick({3, 20, 200, 2000, 9000, 25000}), how = choose(4), from = choose(a.e.size()), with = choose(n);
    bool val = choose(2);
    bool ok = op("chain", [&](Side& s) {
      V t = s.e[from];
      for (int k = 0; k < len; ++k) switch (how) {
          case 0: t += s.b->x[with] * (k % 3); break;
          case 1: t = sin(t) + s.b->x[with]; break;
          case 2: t = s.b->x[with] - t * 0.5; break;
          case 3: t = t * 0.5 + t * 0.25; break;
        }
      if (val) report(s, t);
      s.e.push_back(t);
    });
    if (!ok) b.e.pop_back();
  }
  void in_place() {
    int i = choose(a.e.size()), j = choose(a.e.size()), how = choose(4);
    double k = range(-4, 4) / 2.0;
    V old = b.e[i];
    bool ok = op("update", [&](Side& s) {
      switch (how) {
        case 0: s.e[i] += s.e[j]; break;
        case 1: s.e[i] *= s.e[j]; break;
        case 2: s.e[i] = k * s.e[j]; break;
        case 3: s.e[i] -= k; break;
      }
      report(s, s.e[i]);
    }, false);
    if (!ok) {
      // either it happened or not
      double got = V(a.e[i]).value(), was = old.value(), is = b.e[i].value();
      bool kept = same_bits(got, was) || (std::isnan(got) && std::isnan(was)), done = same_bits(got, is) || (std::isnan(got) && std::isnan(is));
      if (!kept && !done) fail("expression", "an update that failed turned %.17g into %.17g (it would have been %.17g)", was, got, is);
      both([&](Side& s) { s.e.erase(s.e.begin() + i); });
    }
  }
  void matrix() {
    int rows = range(1, 3), cols = range(1, 3), how = a.m.empty() ? 0 : choose(6);
    int i = a.m.empty() ? 0 : choose(a.m.size());
    std::vector<int> pickd;
    for (int k = 0; k < rows * cols; ++k) pickd.push_back(choose(a.e.size()));
    bool val = choose(2);
    bool ok = op("matrix", [&](Side& s) {
      switch (how) {
        case 0: {
          Mat m(rows, cols);
          for (int k = 0; k < rows * cols; ++k) m[k / cols, k % cols] = s.e[pickd[k]];
          s.m.push_back(m);
          break;
        }
        case 1: s.m.push_back(s.m[i].T() * s.m[i]); break;
        case 2: s.m.push_back(s.m[i] + 2.0 * s.m[i]); break;
        case 3: {
          Mat t = s.m[i].T();
          s.m.push_back(t);
          break;
        }
        case 4: {
          Mat c = s.m[i];
          c.row(0) *= 3.0;
          c.col(0) += s.m[i].col(0);
          s.m.push_back(c);
          break;
        }
        case 5: s.m.push_back(-s.m[i] / 4.0); break;
      }
      if (val) report(s, s.m.back().value());
    });
    if (!ok) b.m.pop_back();
  }
  void derivative() {
    int kind = choose(4);
    std::vector<int> of, w;
    for (int k = kind == 1 ? range(1, 3) : 1; k > 0; --k) of.push_back(choose(a.e.size()));
    for (int k = 0; k < n; ++k)
      if (chance(3, 4)) w.push_back(k);
    if (w.empty()) w.push_back(choose(n));
    bool val = choose(2);
    bool ok = op("derivative", [&](Side& s) {
      Mat wrt(w.size(), 1);
      for (size_t k = 0; k < w.size(); ++k) wrt[k] = s.b->x[w[k]];
      std::unique_ptr<D> d;
      if (kind == 0) d.reset(new D(std::in_place_index<0>, s.e[of[0]], wrt));
      else if (kind == 1) {
        Mat m(of.size(), 1);
        for (size_t k = 0; k < of.size(); ++k) m[k] = s.e[of[k]];
        d.reset(new D(std::in_place_index<1>, m, wrt));
      } else if (kind == 2) d.reset(new D(std::in_place_index<2>, s.e[of[0]], wrt));
      else d.reset(new D(std::in_place_index<3>, s.e[of[0]], wrt));
      if (val) report(s, *d);
      s.d.push_back(std::move(d));
    });
    if (!ok) b.d.pop_back();
  }
  void symbolic() {
    if (a.d.empty()) return derivative();
    int i = choose(a.d.size());
    bool ok = op("symbolic derivative", [&](Side& s) {
      std::visit([&](auto& q) { s.m.push_back(q.get()); }, *s.d[i]);
      if (s.d[i]->index() == 3)
        // above the diagonal it isn't specified
        for (int r = 0; r < s.m.back().rows(); ++r)
          for (int c = r + 1; c < s.m.back().cols(); ++c) s.m.back()[r, c] = 0.0;
    });
    if (!ok) b.m.pop_back();
  }
  void evaluate() {
    switch (choose(3)) {
      case 0: {
        int i = choose(a.e.size());
        op("evaluate", [&](Side& s) { report(s, s.e[i]); });
        break;
      }
      case 1: {
        if (a.m.empty()) return;
        int i = choose(a.m.size());
        op("evaluate matrix", [&](Side& s) { report(s, s.m[i].value()); });
        break;
      }
      case 2: {
        if (a.d.empty()) return;
        int i = choose(a.d.size());
        op("evaluate derivative", [&](Side& s) { report(s, *s.d[i]); });
        break;
      }
    }
  }
  void solve() {
    slp::Options o;
    o.tolerance = 1e-6;
    o.max_iterations = 25;
    o.feasible_ipm = chance(1, 8);
    o.diagnostics = chance(1, 4);
    bool spy = chance(1, 5);
    auto start = a.b->get();
    for (double v : start)
      if (!std::isfinite(v)) start = spec.x0;
    both([&](Side& s) { s.b->set(start); });
    bool ok = op("solve", [&](Side& s) {
      s.b->set(start);
      s.b->p->clear_callbacks();
      s.b->p->add_callback([&](const Info& i) -> void {
        bool armed = heap.armed;
        heap.armed = false;
        s.out.push_back(i.iteration);
        for (int k = 0; k < i.x.size(); ++k) s.out.push_back(i.x[k]);
        heap.armed = armed;
      });
      auto st = s.b->p->solve(o, spy);
      s.out.push_back(static_cast<int>(st));
      for (auto& v : s.b->x) s.out.push_back(V(v).value());
    });
    for (auto& f : disk.files)
      if (!f.closed && !f.open_failed) fail("file", "%s was left open", f.name.c_str());
    both([&](Side& s) { s.b->p->clear_callbacks(); });
    if (ok) count("solves compared");
    if (!ok) {
      auto x = a.b->get();
      for (double v : x)
        if (!std::isfinite(v)) fail("variables", "variables %s after a solve that ran out of memory", vec_str(x).c_str());
      b.b->set(x);
    }
  }
  void assign() {
    int k = choose(n);
    double v = pick({0.5, -1.5, 2.0, 0.25, -0.75, 3.0, 1.0, 0.0, -2.0, 1e-3});
    op("assign", [&](Side& s) { s.b->x[k].set_value(v); });
    both([&](Side& s) { s.b->x[k].set_value(v); });
  }
  void restate() {
    // another problem over variables of its own
    bool ok = op("state a problem", [&](Side& s) {
      Built t = build(spec);
      for (int i : {spec.cost})
        if (i >= 0) report(s, t.node[i]);
      for (int i : spec.eq) report(s, t.node[i]);
    });
    (void)ok;
  }
  void destroy() {
    switch (choose(3)) {
      case 0: {
        if (a.e.size() < 2) return;
        int i = choose(a.e.size());
        both([&](Side& s) { s.e.erase(s.e.begin() + i); });
        break;
      }
      case 1: {
        if (a.m.empty()) return;
        int i = choose(a.m.size());
        both([&](Side& s) { s.m.erase(s.m.begin() + i); });
        break;
      }
      case 2: {
        if (a.d.empty()) return;
        int i = choose(a.d.size());
        both([&](Side& s) { s.d.erase(s.d.begin() + i); });
        break;
      }
    }
    note("destroy");
  }
};
}  // namespace

void run_world() {
  install_stdout(2);
  clk.active = true;
  disk.active = true;
  const size_t before = slp::global_pool_resource().blocks_in_use();
  int fired;
  {
    Runner r;
    GenOptions go;
    go.max_n = 3;
    r.spec = gen_problem(go);
    r.n = r.spec.n;
    note("problem %s", r.spec.str().c_str());
    r.op("state the problem", [&](Side& s) { s.b = std::make_unique<Built>(build(r.spec)); });
    if (!r.a.b) r.a.b = std::make_unique<Built>(build(r.spec));
    r.both([&](Side& s) {
      s.e = s.b->x;
      if (r.spec.cost >= 0) s.e.push_back(s.b->node[r.spec.cost]);
      for (int e : r.spec.eq) s.e.push_back(s.b->node[e]);
    });
    for (int k = range(1, 30); k > 0; --k) {
      r.reserve();
      if (r.a.e.size() < 2) r.both([&](Side& s) { s.e.push_back(s.b->x[0]); });
      switch (choose(14)) {
        case 0: r.assign(); break;
        case 1: r.evaluate(); break;
        case 2: r.new_expr(); break;
        case 3: r.new_expr(); break;
        case 4: r.in_place(); break;
        case 5: r.matrix(); break;
        case 6: r.derivative(); break;
        case 7: r.symbolic(); break;
        case 8: r.solve(); break;
        case 9: if (chance(1, 3)) r.chain(); break;
        case 10: r.restate(); break;
        case 11: r.destroy(); break;
        case 12: r.derivative(); break;
        case 13: r.evaluate(); break;
      }
      r.compare_any();
      r.compare_any();
      while (r.a.e.size() > 14) r.both([&](Side& s) { s.e.erase(s.e.begin()); });
      while (r.a.m.size() > 8) r.both([&](Side& s) { s.m.erase(s.m.begin()); });
      while (r.a.d.size() > 8) r.both([&](Side& s) { s.d.erase(s.d.begin()); });
    }
    for (size_t i = 0; i < r.a.e.size(); ++i) r.compare("expression", i);
    for (size_t i = 0; i < r.a.m.size(); ++i) r.compare("matrix", i);
    for (size_t i = 0; i < r.a.d.size(); ++i) r.compare("derivative", i);
    fired = r.fired;
  }
  size_t after = slp::global_pool_resource().blocks_in_use();
  log(after);
  if (after != before) fail("storage", "%zu blocks are in use after everything is gone (%d operations ran out of memory)", after - before, fired);
}
}  // namespace sim
