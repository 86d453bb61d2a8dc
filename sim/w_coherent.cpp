// C14: values and derivatives of expressions stay coherent over any history of
// assignments, evaluations, derivative computations, solves (finished, stopped,
// aborted by exceptions) and destruction of other objects.
#include <stdexcept>
#include <variant>

#include <sleipnir/autodiff/gradient.hpp>
#include <sleipnir/autodiff/hessian.hpp>
#include <sleipnir/autodiff/jacobian.hpp>

#include "model.hpp"

namespace sim {

const WorldInfo world = {
    "C14",
    "each run draws a problem, expressions over its variables and a history of up to 40 operations (assignments, evaluations, new expressions, in-place updates, matrix edits, "
    "gradients, Jacobians and Hessians created and evaluated at any time, symbolic derivatives used as expressions, solves that finish, stop, time out or are aborted by exceptions with "
    "evaluations from inside callbacks, destruction); every evaluation is compared with the reference model at the variables' current values; non-trivial: at least 5 comparisons after a "
    "variable changed; distinct = distinct event-log hashes",
    "Variable, VariableMatrix, Gradient, Jacobian, Hessian, expression graphs, Problem, solvers",
    "clocks",
    "(operator, kind of object compared, what happened last)",
    60000, 2500000};

namespace {
struct Boom : std::runtime_error {
  Boom() : std::runtime_error("boom") {}
};
using Mat = slp::VariableMatrix<double>;

/// What a library expression denotes: a node of the AST or one of its
/// derivatives.
struct Ref {
  int node = -1;
  int i = -1, j = -1;  // d/dx_i, d2/dx_i dx_j
};
struct Slot {
  V v;
  Ref r;
};
struct MatSlot {
  Mat m;
  std::vector<Ref> r;  // row-major
};
/// x = solve(a, b); a is well-conditioned whatever the variables are.
struct Solved {
  Mat a, b, x;
};
struct Deriv {
  int kind;  // 0 gradient, 1 Jacobian, 2 Hessian, 3 lower Hessian
  std::vector<Ref> of;
  std::vector<int> wrt;
  std::variant<slp::Gradient<double>, slp::Jacobian<double>, slp::Hessian<double>, slp::Hessian<double, Eigen::Lower>> d;
  int born;
};

struct World {
  Spec spec;
  std::unique_ptr<Built> b;
  std::vector<V> lib;          // per AST node, while needed by new expressions
  std::vector<Slot> slots;
  std::vector<MatSlot> mats;
  std::vector<std::unique_ptr<Deriv>> derivs;
  std::vector<Solved> solved;
  uint64_t spelling = 0;
  int n = 0, step = 0, changed_at = -1, compared = 0;
  const char* last = "start";
  // reference at the current values
  std::vector<double> at;
  std::vector<Dual<long double>> u;
  std::vector<Dual<double>> err;
  std::vector<Dual<long double>> shaken[4];
  std::vector<char> tame0, tame, tame2;  // per node: everything below is finite and moderate

  void reference() {
    auto x = b->get();
    if (same_bits(x, at) && u.size() == spec.ast.n.size()) return;
    at = x;
    u = eval_duals<long double>(spec.ast, x);
    err = eval_errors(spec.ast, x);
    for (int k = 1; k <= 4; ++k) shaken[k - 1] = eval_duals<long double>(spec.ast, x, false, 77777 * k);
    auto mag = eval_duals<double>(spec.ast, x, true);
    tame0.assign(u.size(), 1);
    tame.assign(u.size(), 1);
    tame2.assign(u.size(), 1);
    auto fold = constants(spec.ast);
    for (size_t k = 0; k < u.size(); ++k) {
      const Node& d = spec.ast.n[k];
      if (fold[k]) {
        tame0[k] = tame[k] = tame2[k] = std::isfinite(*fold[k]) && std::abs(*fold[k]) < 1e60;
        if (d.op == Op::MAX || d.op == Op::MIN || d.op == Op::SIGN)
          tame0[k] = tame[k] = tame2[k] = tame0[k] && tame0[d.a] && (d.b < 0 || tame0[d.b]);
        continue;
      }
      for (int o : {op_arity(d.op) > 0 ? d.a : -1, op_arity(d.op) > 1 ? d.b : -1, op_arity(d.op) > 2 ? d.c : -1})
        if (o >= 0) {
          tame0[k] &= tame0[o];
          tame[k] &= tame[o];
          tame2[k] &= tame2[o];
        }
      auto ok = [](double v) { return std::abs(v) < 1e60; };
      bool v = ok(u[k].v), g = v, h;
      for (double q : mag[k].g) g &= ok(q);
      h = g;
      for (double q : mag[k].h) h &= ok(q);
      if ((d.op == Op::TANH || d.op == Op::SINH || d.op == Op::COSH || d.op == Op::TAN) && !(std::abs(static_cast<double>(u[d.a].v)) < 100)) g = h = false;
      // derivatives are a matter of convention (or absent) at kinks and borders
      auto zero = [&](int o) { return !(std::abs(static_cast<double>(u[o].v)) > 1e-7 * (1 + err[o].v * 1e-9)); };
      switch (d.op) {
        case Op::ABS: case Op::SQRT: case Op::CBRT: case Op::LOG: case Op::LOG10: case Op::SIGN:
          if (zero(d.a)) g = h = false;
          break;
        case Op::POW: case Op::POWC: case Op::DIV:
          if (zero(d.op == Op::DIV ? d.b : d.a) && !(d.op == Op::POWC && d.k >= 2 && d.k == std::floor(d.k))) g = h = false;
          // a positive base for real exponents
          break;
        case Op::HYPOT: case Op::HYPOT3: case Op::ATAN2:
          if (!(std::abs(static_cast<double>(u[k].v)) > 1e-7)) g = h = false;
          if (zero(d.a) && zero(d.b)) g = h = false;
          break;
        default: break;
      }
      // jumps
      if (d.op == Op::SIGN && zero(d.a) && spec.ast.n[d.a].op != Op::VAR) v = g = h = false;
      if (d.op == Op::ATAN2 && zero(d.a) && !(u[d.b].v > 1e-7)) v = g = h = false;
      switch (d.op) {
        case Op::ASIN: case Op::ACOS:
          if (std::abs(static_cast<double>(u[d.a].v)) > 1 - 1e-3) g = h = false;
          break;
        case Op::MAX: case Op::MIN: {
          double a = u[d.a].v, c = u[d.b].v;
          if (!(std::abs(a - c) > 1e-7 * (1 + std::abs(a)))) g = h = false;
          break;
        }
        default: break;
      }
      if (!v) tame0[k] = tame[k] = tame2[k] = 0;
      if (!g) tame[k] = tame2[k] = 0;
      if (!h) tame2[k] = 0;
    }
  }
  /// Order of differentiation: 0 value, 1, 2.
  bool judged(const Ref& r) {
    if (r.j >= 0) return tame2[r.node];
    if (r.i >= 0) return tame[r.node];
    return tame0[r.node];
  }
  long double want(const Ref& r) { return entry(u[r.node], r); }
  long double entry(const Dual<long double>& d, const Ref& r) {
    return r.j >= 0 ? d.h[r.i * n + r.j] : r.i >= 0 ? d.g[r.i] : d.v;
  }
  double tolerance(const Ref& r) {
    auto& d = err[r.node];
    double e = r.j >= 0 ? d.h[r.i * n + r.j] : r.i >= 0 ? d.g[r.i] : d.v;
    // sums of canceling terms round relative to the derivative's size
    double m = 0;
    if (r.j >= 0)
      for (double q : d.h) m = std::max(m, q);
    else if (r.i >= 0)
      for (double q : d.g) m = std::max(m, q);
    double dev = 0;
    for (auto& s : shaken) {
      double q = std::abs(static_cast<double>(entry(s[r.node], r) - want(r)));
      dev = std::isnan(q) ? q : std::max(dev, q);
    }
    return 1e-11 * std::max(e, m) + 1e-13 + 30 * dev;
  }
  std::string str(const Ref& r) {
    std::string s = spec.ast.str(r.node);
    if (s.size() > 300) s = s.substr(0, 300) + "...";
    if (r.i >= 0) s = "d/dx" + std::to_string(r.i) + (r.j >= 0 ? "d/dx" + std::to_string(r.j) : "") + " of " + s;
    return s;
  }
  void compare(const char* what, double got, const Ref& r) {
    reference();
    if (!judged(r)) return count("not judged: nonfinite, kink or border");
    double w = want(r), tol = tolerance(r);
    if (!std::isfinite(tol)) return count("not judged: ill-conditioned");
    logd(std::isfinite(got) ? got : 0);
    if (std::isfinite(w) && std::abs(w) < 1e200) {
      if (!(std::abs(got - w) <= tol)) fail(what, "%s is %.17g instead of %.17g at %s (after %s): %s", what, got, w, vec_str(at).c_str(), last, str(r).c_str());
    } else {
      return count("not judged: nonfinite, kink or border");
    }
    if (changed_at >= 0) ++compared;
    if (compared == 5) nontrivial();
    sig(mix64(static_cast<int>(spec.ast.n[r.node].op) * 8 + (r.i >= 0) + (r.j >= 0), mix64(what[0] + what[1], last[0] * 256 + last[1])));
  }
  void check_slot(Slot& s) { compare("value", s.v.value(), s.r); }
  void check_mat(MatSlot& m) {
    int rows = m.m.rows(), cols = m.m.cols();
    MatX v;
    if (chance(1, 2)) {
      v = m.m.value();
    } else {
      v.resize(rows, cols);
      for (int k = rows * cols - 1; k >= 0; --k) v(k / cols, k % cols) = m.m[k / cols, k % cols].value();
    }
    for (int k = 0; k < rows * cols; ++k) compare("matrix entry", v(k / cols, k % cols), m.r[k]);
  }
  /// A linear system's solution and its derivatives against a pivoted
  /// long double factorization (and implicit differentiation).
  void check_solved(Solved& s) {
    using LMat = Eigen::Matrix<long double, Eigen::Dynamic, Eigen::Dynamic>;
    LMat a = s.a.value().cast<long double>(), b = s.b.value().cast<long double>();
    const int rows = a.rows(), cols = b.cols();
    auto moderate = [](const LMat& m) { return m.size() == 0 || (m.allFinite() && m.cwiseAbs().maxCoeff() < 1e8); };
    if (!moderate(a) || !moderate(b)) return count("not judged: nonfinite, kink or border");
    if (s.x.rows() != rows || s.x.cols() != cols)
      fail("shape", "solve() of a %dx%d and a %dx%d matrix is %dx%d", rows, rows, rows, cols, s.x.rows(), s.x.cols());
    auto lu = a.fullPivLu();
    LMat x = lu.solve(b);
    MatX got = s.x.value();
    double size = 1 + static_cast<double>(b.cwiseAbs().maxCoeff());
    for (int i = 0; i < rows; ++i)
      for (int j = 0; j < cols; ++j)
        if (!(std::abs(got(i, j) - static_cast<double>(x(i, j))) <= 1e-10 * size))
          fail("solve", "entry (%d, %d) of the solution of a %dx%d system is %.17g instead of %.17g (after %s)", i, j, rows, rows, got(i, j), static_cast<double>(x(i, j)), last);
    count("compared solutions of linear systems");
    if (!chance(1, 4)) return;
    Mat wrt(b_size(), 1);
    for (int k = 0; k < b_size(); ++k) wrt[k, 0] = this->b->x[k];
    Mat ca(rows * rows, 1), cb(rows * cols, 1);
    for (int k = 0; k < rows * rows; ++k) ca[k, 0] = s.a[k / rows, k % rows];
    for (int k = 0; k < rows * cols; ++k) cb[k, 0] = s.b[k / cols, k % cols];
    MatX da(SpMat(slp::Jacobian<double>(ca, wrt).value())), db(SpMat(slp::Jacobian<double>(cb, wrt).value()));
    if (!moderate(da.cast<long double>()) || !moderate(db.cast<long double>())) return;
    int i = choose(rows), j = choose(cols);
    MatX g(SpMat(slp::Gradient<double>(s.x[i, j], wrt).value()));
    for (int k = 0; k < b_size(); ++k) {
      LMat dak(rows, rows), dbk(rows, cols);
      for (int e = 0; e < rows * rows; ++e) dak(e / rows, e % rows) = da(e, k);
      for (int e = 0; e < rows * cols; ++e) dbk(e / cols, e % cols) = db(e, k);
      LMat dx = lu.solve(dbk - dak * x);
      double tol = 1e-9 * (size + 1) * (1 + da.cwiseAbs().maxCoeff() + db.cwiseAbs().maxCoeff());
      if (!(std::abs(g(k, 0) - static_cast<double>(dx(i, j))) <= tol))
        fail(zero_column(s.a.value()) ? "solve-zero-column" : "solve", "d/dx%d of entry (%d, %d) of the solution of a %dx%d system is %.17g instead of %.17g", k, i, j, rows, rows, g(k, 0), static_cast<double>(dx(i, j)));
    }
    count("compared derivatives of solutions of linear systems");
  }
  /// Whether an elimination step of the general branch (five rows or more)
  /// found nothing to eliminate: Eigen's Householder reflector then branches on
  /// the values and leaves the column out of the traced expressions (a known
  /// finding).
  static bool zero_column(const MatX& a) {
    if (a.rows() < 5) return false;
    Eigen::HouseholderQR<MatX> qr(a);
    for (int k = 0; k + 1 < a.rows(); ++k)
      if (qr.matrixQR().col(k).tail(a.rows() - 1 - k).norm() < 1e-12) return true;
    return false;
  }
  int b_size() const { return static_cast<int>(b->x.size()); }
  /// New linear system (the last branch of solve(), general matrices, follows
  /// the values at which it was built, so it is checked only there).
  void new_solved() {
    int rows = range(1, 5), cols = range(1, 3);
    Solved s{Mat(rows, rows), Mat(rows, cols), Mat(1, 1)};
    for (int k = 0; k < rows * rows; ++k) s.a[k / rows, k % rows] = slp::sin(plain()->v) + (k / rows == k % rows ? 6.0 : 0.0);
    for (int k = 0; k < rows * cols; ++k) {
      if (chance(1, 4)) s.b[k / cols, k % cols] = range(-4, 4) / 2.0;
      else s.b[k / cols, k % cols] = plain()->v;
    }
    // entries that are variable but zero when the system is built
    if (chance(1, 4)) {
      int c = choose(rows);
      for (int r = c + 1; r < rows; ++r) {
        V v = b->x[choose(b->x.size())];
        s.a[r, c] = v - v.value();
      }
    }
    s.x = slp::solve(s.a, s.b);
    check_solved(s);
    if (rows > 4) return;
    solved.push_back(std::move(s));
    if (solved.size() > 3) solved.erase(solved.begin());
  }
  Ref diff(const Ref& r, int k) { return r.i < 0 ? Ref{r.node, k, -1} : Ref{r.node, r.i, k}; }
  void check_deriv(Deriv& d) {
    SpMat m;
    switch (d.kind) {
      case 0: {
        SpVec g = std::get<0>(d.d).value();
        for (size_t k = 0; k < d.wrt.size(); ++k) compare("gradient", g.coeff(k), diff(d.of[0], d.wrt[k]));
        return;
      }
      case 1:
        m = std::get<1>(d.d).value();
        for (size_t r = 0; r < d.of.size(); ++r)
          for (size_t k = 0; k < d.wrt.size(); ++k) compare("Jacobian", m.coeff(r, k), diff(d.of[r], d.wrt[k]));
        return;
      case 2:
        m = std::get<2>(d.d).value();
        for (size_t r = 0; r < d.wrt.size(); ++r)
          for (size_t k = 0; k < d.wrt.size(); ++k) compare("Hessian", m.coeff(r, k), Ref{d.of[0].node, d.wrt[r], d.wrt[k]});
        return;
      default:
        m = std::get<3>(d.d).value();
        for (size_t r = 0; r < d.wrt.size(); ++r)
          for (size_t k = 0; k < d.wrt.size(); ++k)
            if (k <= r) compare("lower Hessian", m.coeff(r, k), Ref{d.of[0].node, d.wrt[r], d.wrt[k]});
            else if (m.coeff(r, k) != 0) fail("lower Hessian", "an entry above the diagonal");
    }
  }
  std::vector<int> gen_wrt() {
    std::vector<int> w;
    for (int k = 0; k < n; ++k)
      if (chance(3, 4)) w.push_back(k);
    if (chance(1, 6)) w.clear();
    if (w.empty()) w.push_back(choose(n));
    if (chance(1, 3)) std::reverse(w.begin(), w.end());
    return w;
  }
  Mat wrt_mat(const std::vector<int>& w) {
    Mat m(w.size(), 1);
    for (size_t k = 0; k < w.size(); ++k) m[k] = b->x[w[k]];
    return m;
  }
  void new_expr() {
    size_t before = spec.ast.n.size();
    int id;
    if (chance(1, 3)) {
      // any operator
      Op o = static_cast<Op>(range(static_cast<int>(Op::ADD), static_cast<int>(Op::HYPOT3)));
      int a = gen_expr(spec.ast, n, range(0, 2), false);
      int ar = op_arity(o);
      if (ar == 1) id = spec.ast.add({o, a, -1, o == Op::POWC ? pick({2.0, 3.0, 0.5, -1.0, 1.0, 0.0, 2.5}) : o == Op::CPOW ? pick({2.0, 0.5, 1.0, 3.0}) : 0, -1});
      else if (ar == 2) id = spec.ast.bin(o, a, gen_expr(spec.ast, n, range(0, 1), false));
      else {
        int c = gen_expr(spec.ast, n, 1, false);
        id = spec.ast.add({o, a, gen_expr(spec.ast, n, 0, false), 0, c});
      }
    } else {
      id = gen_expr(spec.ast, n, range(1, 3), chance(1, 4));
    }
    extend(before);
    slots.push_back({lib[id], {id}});
  }
  void extend(size_t) {
    for (size_t k = lib.size(); k < spec.ast.n.size(); ++k) {
      const Node& d = spec.ast.n[k];
      if (d.op == Op::VAR) lib.push_back(b->x[d.c]);
      else if (d.op == Op::CONST) lib.push_back(V(d.k));
      else {
        auto num = [&](int id) { return id >= 0 && spec.ast.n[id].op == Op::CONST ? &spec.ast.n[id].k : nullptr; };
        lib.push_back(respell(d, &lib[d.a], d.b >= 0 ? &lib[d.b] : nullptr, d.op == Op::HYPOT3 ? &lib[d.c] : nullptr, num(d.a), num(d.b), mix64(spelling, k)));
      }
    }
  }
  Slot* plain() {
    std::vector<int> c;
    for (size_t k = 0; k < slots.size(); ++k)
      if (slots[k].r.i < 0) c.push_back(k);
    if (c.empty()) {
      new_expr();
      return &slots.back();
    }
    return &slots[c[choose(c.size())]];
  }
  void update() {
    Slot& s = *plain();
    Slot o = *plain();
    size_t at = spec.ast.n.size();
    switch (choose(6)) {
      case 0:
        s.v += o.v;
        s.r = {spec.ast.bin(Op::ADD, s.r.node, o.r.node)};
        break;
      case 1:
        s.v *= o.v;
        s.r = {spec.ast.bin(Op::MUL, s.r.node, o.r.node)};
        break;
      case 2: {
        double c = range(-4, 4) / 2.0;
        s.v = c;
        s.r = {spec.ast.cst(c)};
        break;
      }
      case 3: {
        V t = s.v - o.v;
        s.v = t;
        s.r = {spec.ast.bin(Op::SUB, s.r.node, o.r.node)};
        break;
      }
      case 4: {
        Slot c = s;
        s = o;
        check_slot(c);
        break;
      }
      case 5: {
        int i = choose(n);
        s.v = -b->x[i];
        s.r = {spec.ast.un(Op::NEG, spec.ast.var(i))};
        break;
      }
    }
    extend(at);
  }
  bool plain_only(const MatSlot& m) {
    for (auto& r : m.r)
      if (r.i >= 0) return false;
    return true;
  }
  /// A slice of at most length elements and the indices it selects, by
  /// Python's rules.
  std::pair<slp::Slice, std::vector<int>> gen_slice(int length) {
    int step = pick({1, 1, 1, 2, -1, -2});
    int start = range(-length - 1, length + 1), stop = range(-length - 1, length + 1);
    bool no_start = chance(1, 3), no_stop = chance(1, 3), no_step = step == 1 && chance(1, 2);
    std::vector<int> idx;
    if (chance(1, 5)) {  // a single index
      int i = range(-length, length - 1);
      return {slp::Slice(i), {i < 0 ? i + length : i}};
    }
    auto clip = [&](int v) {
      if (v < 0) {
        v += length;
        if (v < 0) v = step < 0 ? -1 : 0;
      } else if (v >= length) {
        v = step < 0 ? length - 1 : length;
      }
      return v;
    };
    int a = no_start ? (step < 0 ? length - 1 : 0) : clip(start);
    int e = no_stop ? (step < 0 ? -1 : length) : clip(stop);
    for (int i = a; step < 0 ? i > e : i < e; i += step) idx.push_back(i);
    using slp::slicing::_;
    slp::Slice s = no_start && no_stop && no_step ? slp::Slice(_)
                   : no_start && no_stop          ? slp::Slice(_, _, step)
                   : no_start                     ? slp::Slice(_, stop, step)
                   : no_stop && no_step           ? slp::Slice(start, _)
                   : no_stop                      ? slp::Slice(start, _, step)
                   : no_step                      ? slp::Slice(start, stop, _)
                                                  : slp::Slice(start, stop, step);
    return {s, idx};
  }
  /// Changes part of a matrix through a view (or a view of a view).
  void view_edit(MatSlot& m) {
    if (!plain_only(m)) return;
    const int cols = m.m.cols();
    auto [rs, ri] = gen_slice(m.m.rows());
    auto [cs, ci] = gen_slice(cols);
    if (ri.empty() || ci.empty()) return;
    auto v = m.m[rs, cs];
    if (v.rows() != static_cast<int>(ri.size()) || v.cols() != static_cast<int>(ci.size()))
      fail("view", "a view of %dx%d is %dx%d instead of %zux%zu", m.m.rows(), cols, v.rows(), v.cols(), ri.size(), ci.size());
    if (chance(1, 3)) {
      auto [rs2, ri2] = gen_slice(ri.size());
      auto [cs2, ci2] = gen_slice(ci.size());
      if (!ri2.empty() && !ci2.empty()) {
        for (int& i : ri2) i = ri[i];
        for (int& i : ci2) i = ci[i];
        return edit(m, v[rs2, cs2], ri2, ci2);
      }
    }
    edit(m, v, ri, ci);
  }
  void edit(MatSlot& m, slp::VariableBlock<Mat> v, const std::vector<int>& ri, const std::vector<int>& ci) {
    const int cols = m.m.cols(), h = ri.size(), w = ci.size();
    double c = pick({2.0, -1.0, 0.5, 3.0});
    Slot s = *plain();
    int k = spec.ast.cst(c);
    auto each = [&](auto f) {
      for (int i = 0; i < h; ++i)
        for (int j = 0; j < w; ++j) {
          Ref& r = m.r[ri[i] * cols + ci[j]];
          r = {f(r.node, i, j)};
        }
    };
    int what = choose(9);
    note("  edit %d of a %dx%d view of %dx%d", what, h, w, m.m.rows(), cols);
    switch (what) {
      case 0: {
        MatX e = MatX::Constant(h, w, c);
        e(h - 1, w - 1) = 4;
        v = e;
        int k4 = spec.ast.cst(4);
        each([&](int, int i, int j) { return i == h - 1 && j == w - 1 ? k4 : k; });
        break;
      }
      case 1:
        v *= c;
        each([&](int n, int, int) { return spec.ast.bin(Op::MUL, n, k); });
        break;
      case 2:
        v /= c;
        each([&](int n, int, int) { return spec.ast.bin(Op::DIV, n, k); });
        break;
      case 3: {
        Mat e(h, w);
        for (int i = 0; i < h; ++i)
          for (int j = 0; j < w; ++j) e[i, j] = i == j ? s.v : V(c);
        if (chance(1, 2)) v = e;
        else v = std::move(e);
        each([&](int, int i, int j) { return i == j ? s.r.node : k; });
        break;
      }
      case 4: {
        Mat e(h, w);
        for (int i = 0; i < h; ++i)
          for (int j = 0; j < w; ++j) e[i, j] = i == j ? s.v : V(c);
        v += e;
        each([&](int n, int i, int j) { return spec.ast.bin(Op::ADD, n, i == j ? s.r.node : k); });
        break;
      }
      case 5: {
        Mat e(h, w);
        for (int i = 0; i < h; ++i)
          for (int j = 0; j < w; ++j) e[i, j] = i == j ? s.v : V(c);
        v -= e;
        each([&](int n, int i, int j) { return spec.ast.bin(Op::SUB, n, i == j ? s.r.node : k); });
        break;
      }
      case 6:
        v *= s.v;
        each([&](int n, int, int) { return spec.ast.bin(Op::MUL, n, s.r.node); });
        break;
      case 7: {  // one entry
        int i = choose(h), j = choose(w);
        v[i, j] = s.v;
        m.r[ri[i] * cols + ci[j]] = s.r;
        break;
      }
      default: {  // only read
        MatX e = v.value();
        for (int i = 0; i < h; ++i)
          for (int j = 0; j < w; ++j) compare("view entry", e(i, j), m.r[ri[i] * cols + ci[j]]);
      }
    }
    extend(0);
    check_mat(m);
  }
  void matrix() {
    size_t at = spec.ast.n.size();
    int what = mats.empty() ? 0 : choose(13);
    switch (what) {
      case 12: new_solved(); break;
      case 0: {
        int rows = range(1, 3), cols = range(1, 2);
        Mat m(rows, cols);
        std::vector<Ref> r;
        for (int k = 0; k < rows * cols; ++k) {
          Slot* s = plain();
          m[k / cols, k % cols] = s->v;
          r.push_back(s->r);
        }
        mats.push_back({m, r});
        break;
      }
      case 1: {  // overwrite an entry
        MatSlot& m = mats[choose(mats.size())];
        int cols = m.m.cols();
        int k = choose(m.r.size());
        if (chance(1, 3)) {
          double c = range(-4, 4) / 2.0;
          m.m[k / cols, k % cols] = c;
          m.r[k] = {spec.ast.cst(c)};
        } else {
          Slot* s = plain();
          m.m[k / cols, k % cols] = s->v;
          m.r[k] = s->r;
        }
        break;
      }
      case 2: {  // transpose
        size_t i = choose(mats.size());
        Mat t = mats[i].m.T();
        int rows = mats[i].m.rows(), cols = mats[i].m.cols();
        std::vector<Ref> r(rows * cols);
        for (int p = 0; p < rows; ++p)
          for (int q = 0; q < cols; ++q) r[q * rows + p] = mats[i].r[p * cols + q];
        mats.push_back({t, r});
        break;
      }
      case 3: {  // m' m (plain entries only)
        size_t i = choose(mats.size());
        for (auto& r : mats[i].r)
          if (r.i >= 0) return;
        int rows = mats[i].m.rows(), cols = mats[i].m.cols();
        Mat p = mats[i].m.T() * mats[i].m;
        std::vector<Ref> r;
        for (int a = 0; a < cols; ++a)
          for (int c = 0; c < cols; ++c) {
            int e = -1;
            for (int k = 0; k < rows; ++k) {
              int t = spec.ast.bin(Op::MUL, mats[i].r[k * cols + a].node, mats[i].r[k * cols + c].node);
              e = e < 0 ? t : spec.ast.bin(Op::ADD, e, t);
            }
            r.push_back({e});
          }
        mats.push_back({p, r});
        break;
      }
      case 4: {  // assign through a row or column
        MatSlot& m = mats[choose(mats.size())];
        int rows = m.m.rows(), cols = m.m.cols();
        double c = range(-4, 4) / 2.0;
        if (chance(1, 2)) {
          int i = choose(rows);
          m.m.row(i) *= c;
          for (int k = 0; k < cols; ++k) {
            Ref& r = m.r[i * cols + k];
            if (r.i >= 0) {
              // no AST for these: replace
              m.m[i, k] = c;
              r = {spec.ast.cst(c)};
            } else {
              r = {spec.ast.bin(Op::MUL, r.node, spec.ast.cst(c))};
            }
          }
        } else {
          int j = choose(cols);
          VecX v = VecX::Constant(rows, c);
          m.m.col(j) = v;
          for (int k = 0; k < rows; ++k) m.r[k * cols + j] = {spec.ast.cst(c)};
        }
        break;
      }
      case 5: {  // an entry becomes an expression of its own
        MatSlot& m = mats[choose(mats.size())];
        int k = choose(m.r.size());
        slots.push_back({V(m.m[k / m.m.cols(), k % m.m.cols()]), m.r[k]});
        break;
      }
      case 6: view_edit(mats[choose(mats.size())]); break;
      case 7: {  // a copy of a view doesn't follow the matrix
        MatSlot& m = mats[choose(mats.size())];
        auto [rs, ri] = gen_slice(m.m.rows());
        auto [cs, ci] = gen_slice(m.m.cols());
        if (ri.empty() || ci.empty()) break;
        const int cols = m.m.cols();
        std::vector<Ref> r;
        for (int i : ri)
          for (int j : ci) r.push_back(m.r[i * cols + j]);
        Mat c = chance(1, 2) ? Mat(m.m[rs, cs]) : Mat(std::as_const(m.m)[rs, cs]);
        note("  a copy of %zux%zu of %dx%d", ri.size(), ci.size(), m.m.rows(), cols);
        if (plain_only(m) && chance(1, 2)) view_edit(m);
        mats.push_back({c, r});
        check_mat(mats.back());
        break;
      }
      case 8: {  // self-assignment and the like
        MatSlot& m = mats[choose(mats.size())];
        if (!plain_only(m)) break;
        const int rows = m.m.rows(), cols = m.m.cols();
        auto old = m.r;
        switch (choose(9)) {
          case 0: {
            Mat& self = m.m;
            m.m = self;
            break;
          }
          case 1:
            m.m += m.m;
            for (auto& r : m.r) r = {spec.ast.bin(Op::ADD, r.node, r.node)};
            break;
          case 2:
            m.m -= m.m;
            for (auto& r : m.r) r = {spec.ast.bin(Op::SUB, r.node, r.node)};
            break;
          case 3: {
            m.m = m.m.T();
            for (int i = 0; i < rows; ++i)
              for (int j = 0; j < cols; ++j) m.r[j * rows + i] = old[i * cols + j];
            break;
          }
          case 4: {  // scaled by one of its own entries
            int i = choose(rows), j = choose(cols);
            Ref f = old[i * cols + j];
            bool div = chance(1, 2);
            if (chance(1, 2)) div ? m.m /= m.m[i, j] : m.m *= m.m[i, j];
            else {
              auto v = m.m.block(0, 0, rows, cols);
              div ? v /= m.m[i, j] : v *= m.m[i, j];
            }
            for (auto& r : m.r) r = {spec.ast.bin(div ? Op::DIV : Op::MUL, r.node, f.node)};
            break;
          }
          case 5: {  // times itself
            if (rows != cols) break;
            int kind = choose(3);
            auto v = m.m.block(0, 0, rows, cols);
            if (kind == 0) m.m *= m.m;
            else if (kind == 1) v *= m.m;
            else v *= m.m.T();
            for (int i = 0; i < rows; ++i)
              for (int j = 0; j < cols; ++j) {
                int e = -1;
                for (int k = 0; k < cols; ++k) {
                  int q = spec.ast.bin(Op::MUL, old[i * cols + k].node, old[kind == 2 ? j * cols + k : k * cols + j].node);
                  e = e < 0 ? q : spec.ast.bin(Op::ADD, e, q);
                }
                m.r[i * cols + j] = {e};
              }
            break;
          }
          case 6: {  // one row over another
            int i = choose(rows), j = choose(rows);
            if (chance(1, 2)) {
              m.m.row(i) = m.m.row(j);
              for (int k = 0; k < cols; ++k) m.r[i * cols + k] = old[j * cols + k];
            } else {
              m.m.row(i) += m.m.row(j);
              for (int k = 0; k < cols; ++k) m.r[i * cols + k] = {spec.ast.bin(Op::ADD, old[i * cols + k].node, old[j * cols + k].node)};
            }
            break;
          }
          default: {
            int i = choose(cols), j = choose(cols);
            if (chance(1, 2)) {
              m.m.col(i) = m.m.col(j);
              for (int k = 0; k < rows; ++k) m.r[k * cols + i] = old[k * cols + j];
            } else {
              m.m.col(i) -= m.m.col(j);
              for (int k = 0; k < rows; ++k) m.r[k * cols + i] = {spec.ast.bin(Op::SUB, old[k * cols + i].node, old[k * cols + j].node)};
            }
          }
        }
        break;
      }
      case 9: {  // an operator
        size_t i = choose(mats.size()), j = choose(mats.size());
        if (!plain_only(mats[i]) || !plain_only(mats[j])) break;
        MatSlot &p = mats[i], &q = mats[j];
        const int rows = p.m.rows(), cols = p.m.cols();
        bool fits = q.m.rows() == rows && q.m.cols() == cols;
        double c = pick({2.0, -1.0, 0.5, 3.0});
        Slot s = *plain();
        int k = spec.ast.cst(c);
        std::vector<Ref> r;
        auto each = [&](auto f) {
          for (size_t e = 0; e < p.r.size(); ++e) r.push_back({f(static_cast<int>(e))});
        };
        Mat m(1, 1);
        switch (choose(fits ? 9 : 7)) {
          case 0:
            m = -p.m;
            each([&](int e) { return spec.ast.un(Op::NEG, p.r[e].node); });
            break;
          case 1:
            m = p.m * c;
            each([&](int e) { return spec.ast.bin(Op::MUL, p.r[e].node, k); });
            break;
          case 2:
            m = s.v * p.m;
            each([&](int e) { return spec.ast.bin(Op::MUL, s.r.node, p.r[e].node); });
            break;
          case 3:
            m = p.m / c;
            each([&](int e) { return spec.ast.bin(Op::DIV, p.r[e].node, k); });
            break;
          case 4:
            m = p.m.cwise_transform([](const V& v) { return slp::sin(v); });
            each([&](int e) { return spec.ast.un(Op::SIN, p.r[e].node); });
            break;
          case 5:
            m = p.m;
            m *= c;
            each([&](int e) { return spec.ast.bin(Op::MUL, p.r[e].node, k); });
            break;
          case 6:
            m = p.m;
            m /= s.v;
            each([&](int e) { return spec.ast.bin(Op::DIV, p.r[e].node, s.r.node); });
            break;
          case 7:
            m = chance(1, 2) ? p.m + q.m : p.m - (-q.m);
            each([&](int e) { return spec.ast.bin(Op::ADD, p.r[e].node, q.r[e].node); });
            break;
          default:
            m = slp::cwise_reduce<double>(p.m, q.m, [](const V& a, const V& b) { return a * b; });
            each([&](int e) { return spec.ast.bin(Op::MUL, p.r[e].node, q.r[e].node); });
        }
        mats.push_back({m, r});
        break;
      }
      case 10: {  // side by side, or one above the other
        size_t i = choose(mats.size()), j = choose(mats.size());
        MatSlot &p = mats[i], &q = mats[j];
        std::vector<Ref> r;
        if (p.m.rows() == q.m.rows() && p.m.cols() + q.m.cols() <= 4) {
          Mat m = slp::block<double>({{p.m, q.m}});
          for (int a = 0; a < p.m.rows(); ++a) {
            for (int c = 0; c < p.m.cols(); ++c) r.push_back(p.r[a * p.m.cols() + c]);
            for (int c = 0; c < q.m.cols(); ++c) r.push_back(q.r[a * q.m.cols() + c]);
          }
          mats.push_back({m, r});
        } else if (p.m.cols() == q.m.cols() && p.m.rows() + q.m.rows() <= 5) {
          Mat m = slp::block<double>({{p.m}, {q.m}});
          r = p.r;
          r.insert(r.end(), q.r.begin(), q.r.end());
          mats.push_back({m, r});
        }
        break;
      }
      case 11: {  // assign the leaves through a matrix of them
        auto w = gen_wrt();
        Mat m = wrt_mat(w);
        VecX v(w.size());
        for (auto& e : v) e = pick({0.5, -1.5, 2.0, 0.25, -0.75, 3.0, 1.0});
        switch (choose(3)) {
          case 0: m.set_value(v); break;
          case 1: m.segment(0, w.size()).set_value(v); break;
          default: {
            Mat t = m.T();
            t.row(0).set_value(v.transpose());
          }
        }
        for (size_t k = 0; k < w.size(); ++k)
          if (!same_bits(b->x[w[k]].value(), v[k])) fail("set_value", "x%d is %g after being set to %g through a matrix", w[k], b->x[w[k]].value(), v[k]);
        changed_at = step;
        last = "an assignment";
        break;
      }
    }
    extend(at);
    if (mats.size() > 8) mats.erase(mats.begin());
  }
  void new_deriv() {
    if (slots.empty()) new_expr();
    int kind = choose(4);
    std::vector<int> w = gen_wrt();
    auto first = [&]() -> Slot& {
      // at most second derivatives
      std::vector<int> c;
      for (size_t k = 0; k < slots.size(); ++k)
        if (slots[k].r.j < 0 && (kind < 2 || slots[k].r.i < 0)) c.push_back(k);
      if (c.empty()) {
        new_expr();
        return slots.back();
      }
      return slots[c[choose(c.size())]];
    };
    std::vector<Ref> of{first().r};
    std::unique_ptr<Deriv> d;
    auto find = [&](const Ref& r) -> V {
      for (auto& s : slots)
        if (s.r.node == r.node && s.r.i == r.i && s.r.j == r.j) return s.v;
      harness_error("lost slot");
    };
    if (w.size() == 1 && chance(1, 2)) {
      V f = find(of[0]), x = b->x[w[0]];
      if (kind == 0) d.reset(new Deriv{kind, of, w, slp::Gradient<double>(f, x), step});
      else if (kind == 1) d.reset(new Deriv{kind, of, w, slp::Jacobian<double>(f, x), step});
      else if (kind == 2) d.reset(new Deriv{kind, of, w, slp::Hessian<double>(f, x), step});
      else d.reset(new Deriv{kind, of, w, slp::Hessian<double, Eigen::Lower>(f, x), step});
    } else if (kind == 0) {
      d.reset(new Deriv{kind, of, w, slp::Gradient<double>(find(of[0]), wrt_mat(w)), step});
    } else if (kind == 1) {
      for (int k = choose(3); k > 0; --k) of.push_back(first().r);
      Mat m(of.size(), 1);
      for (size_t k = 0; k < of.size(); ++k) m[k] = find(of[k]);
      d.reset(new Deriv{kind, of, w, slp::Jacobian<double>(m, wrt_mat(w)), step});
    } else if (kind == 2) {
      d.reset(new Deriv{kind, of, w, slp::Hessian<double>(find(of[0]), wrt_mat(w)), step});
    } else {
      d.reset(new Deriv{kind, of, w, slp::Hessian<double, Eigen::Lower>(find(of[0]), wrt_mat(w)), step});
    }
    note("  %s of %s wrt %zu variables", kind == 0 ? "gradient" : kind == 1 ? "Jacobian" : kind == 2 ? "Hessian" : "lower Hessian", str(of[0]).c_str(), w.size());
    if (chance(1, 2)) check_deriv(*d);
    derivs.push_back(std::move(d));
    if (derivs.size() > 8) derivs.erase(derivs.begin() + choose(derivs.size()));
  }
  void symbolic() {
    if (derivs.empty()) return new_deriv();
    Deriv& d = *derivs[choose(derivs.size())];
    std::visit(
        [&](auto& q) {
          Mat m = q.get();
          std::vector<Ref> r;
          if (d.kind <= 1) {
            for (auto& o : d.of)
              for (int k : d.wrt) r.push_back(diff(o, k));
            if (d.kind == 0 && m.cols() == 1 && m.rows() == static_cast<int>(r.size())) {}
          } else {
            for (int i : d.wrt)
              for (int k : d.wrt) r.push_back({d.of[0].node, i, k});
          }
          size_t cells = m.rows() * m.cols();
          if (cells != r.size()) fail("symbolic", "a symbolic derivative has %zu entries instead of %zu", cells, r.size());
          int rows = m.rows(), cols = m.cols();
          if (d.kind == 3) {
            // get() of a lower Hessian: the part above the diagonal isn't specified
            for (int p = 0; p < rows; ++p)
              for (int c = 0; c < cols; ++c)
                if (c <= p) slots.push_back({V(m[p, c]), r[p * cols + c]});
          } else {
            int k = choose(r.size());
            slots.push_back({V(m[k / cols, k % cols]), r[k]});
            mats.push_back({m, r});
            check_mat(mats.back());
          }
        },
        d.d);
    if (mats.size() > 8) mats.erase(mats.begin());
  }
  void check_any() {
    switch (choose(3)) {
      case 0:
        if (!slots.empty()) check_slot(slots[choose(slots.size())]);
        break;
      case 1:
        if (!solved.empty() && chance(1, 2)) check_solved(solved[choose(solved.size())]);
        else if (!mats.empty()) check_mat(mats[choose(mats.size())]);
        break;
      case 2:
        if (!derivs.empty()) check_deriv(*derivs[choose(derivs.size())]);
        break;
    }
  }
  void solve() {
    int end = choose(6), at = pick({0, 1, 2, 3, 6});
    slp::Options o;
    o.tolerance = pick({1e-8, 1e-5});
    o.max_iterations = end == 2 ? at + 1 : 40;
    if (end == 3) o.timeout = std::chrono::duration<double>(at + 0.5);
    o.feasible_ipm = chance(1, 8);
    clk.mono_ns = 1'000'000'000;
    auto start = b->get();
    for (double v : start)
      if (!std::isfinite(v)) {
        b->set(spec.x0);
        start = spec.x0;
        changed_at = step;
        break;
      }
    bool watch = chance(1, 2);
    last = "a callback";
    Trace t = traced_solve(*b, o, [&](int k, const Info&) -> bool {
      advance_ns(1'000'000'000);
      if (watch && k % 3 == 1) {
        changed_at = step;
        check_any();
      }
      if (watch && k == 2) {
        if (choose(2)) new_deriv();
        else new_expr();
      }
      if (end == 1 && k == at) throw Boom();
      return end == 4 && k == at;
    });
    last = t.threw ? "an aborted solve" : t.status == 0 ? "a finished solve" : "a failed solve";
    changed_at = step;
    count(t.threw ? "fault: exception from a callback" : (std::string("ended ") + status_name(t.status)).c_str());
    note("  solve, end %d at %d%s -> %zu callbacks, %s", end, at, watch ? ", evaluating in callbacks" : "", t.calls.size(), t.threw ? t.what.c_str() : status_name(t.status));
    if (t.threw && end != 1) fail("throws", "the solve threw %s", t.what.c_str());
    if (watch && !t.threw) {
      Spec s2 = spec;
      Built fb = build(s2);
      fb.set(start);
      clk.mono_ns = 1'000'000'000;
      Trace f = traced_solve(fb, o, [&](int k, const Info&) -> bool {
        advance_ns(1'000'000'000);
        return end == 4 && k == at;
      });
      if (f.status != t.status || !same_bits(f.final_x, t.final_x) || f.calls.size() != t.calls.size())
        fail("solve disturbed", "evaluating expressions in callbacks changed the solve: %zu callbacks, %s, %s; undisturbed %zu, %s, %s", t.calls.size(), status_name(t.status),
             vec_str(t.final_x).c_str(), f.calls.size(), status_name(f.status), vec_str(f.final_x).c_str());
    }
  }
};
}  // namespace

void run_world() {
  install_stdout(2);
  clk.active = true;
  World w;
  GenOptions go;
  go.max_n = 3;
  go.nonfinite = chance(1, 4);
  w.spec = gen_problem(go);
  w.n = w.spec.n;
  w.spelling = choose(1u << 16);
  w.b = std::make_unique<Built>(build(w.spec));
  w.lib = w.b->node;
  // statements of the problem
  if (w.spec.cost >= 0) w.slots.push_back({w.lib[w.spec.cost], {w.spec.cost}});
  for (int e : w.spec.eq) w.slots.push_back({w.lib[e], {e}});
  note("problem %s", w.spec.str().c_str());
  int ops = range(3, 40);
  for (w.step = 0; w.step < ops; ++w.step) {
    int op = choose(12);
    static const char* const names[] = {"assign", "assign", "evaluate", "new expression", "update", "matrix", "derivative", "derivative", "symbolic", "destroy", "solve", "evaluate"};
    note("%s", names[op]);
    switch (op) {
      case 0:
      case 1: {
        int k = choose(w.n);
        double v = pick({0.5, -1.5, 2.0, 0.25, -0.75, 3.0, 1.0, 0.0, -2.0, 1e-3});
        w.b->x[k].set_value(v);
        w.changed_at = w.step;
        w.last = "an assignment";
        break;
      }
      case 3: w.new_expr(); break;
      case 4: w.update(); break;
      case 5: w.matrix(); break;
      case 6:
      case 7: w.new_deriv(); break;
      case 8: w.symbolic(); break;
      case 9:
        switch (choose(3)) {
          case 0:
            if (w.slots.size() > 1) w.slots.erase(w.slots.begin() + choose(w.slots.size()));
            break;
          case 1:
            if (!w.mats.empty()) w.mats.erase(w.mats.begin() + choose(w.mats.size()));
            break;
          case 2:
            if (!w.derivs.empty()) w.derivs.erase(w.derivs.begin() + choose(w.derivs.size()));
            break;
        }
        w.last = "destruction";
        break;
      case 10: w.solve(); break;
    }
    if (w.slots.size() > 12) w.slots.erase(w.slots.begin() + choose(w.slots.size()));
    w.check_any();
    w.check_any();
  }
  w.b->p.reset();
  w.last = "the problem's destruction";
  for (auto& s : w.slots) w.check_slot(s);
  for (auto& m : w.mats) w.check_mat(m);
  for (auto& m : w.solved) w.check_solved(m);
  for (auto& d : w.derivs) w.check_deriv(*d);
}
}  // namespace sim
