// Problems stated to the solver entry points through user functions.
#include <sleipnir/optimization/solver/interior_point.hpp>
#include <sleipnir/optimization/solver/newton.hpp>
#include <sleipnir/optimization/solver/sqp.hpp>

#include "model.hpp"

#ifdef SLEIPNIR_ENABLE_BOUND_PROJECTION
#define NO_BOUNDS mask,
#else
#define NO_BOUNDS
#endif

namespace sim {
const char* const eval_names[8] = {"f", "g", "H", "H_c", "c_e", "A_e", "c_i", "A_i"};

Solver natural_solver(const Spec& s) {
  return !s.ineq.empty() ? Solver::IP : !s.eq.empty() ? Solver::SQP : Solver::NEWTON;
}

namespace {
struct Wrap {
  Direct& d;
  const Spec& s;
  int n;

  // Structural nonzeros: the solvers require constant sparsity patterns.
  std::vector<std::vector<bool>> dep;

  Wrap(Direct& d_, const Spec& s_, int n_) : d{d_}, s{s_}, n{n_} {
    for (const Node& nd : s.ast.n) {
      std::vector<bool> v(n, false);
      if (nd.op == Op::VAR) v[nd.c] = true;
      else
        for (int k : {nd.a, nd.b, nd.op == Op::HYPOT3 ? nd.c : -1})
          if (k >= 0)
            for (int i = 0; i < n; ++i)
              if (dep[k][i]) v[i] = true;
      dep.push_back(v);
    }
  }
  bool structural(Eval e, size_t k) const {
    switch (e) {
      case Eval::G: return s.cost >= 0 && dep[s.cost][k];
      case Eval::AE: return dep[s.eq[k % s.eq.size()]][k / s.eq.size()];
      case Eval::AI: return dep[s.ineq[k % s.ineq.size()]][k / s.ineq.size()];
      case Eval::H:
      case Eval::HC:
        for (int q = 0; q < n; ++q)
          for (int p = q; p < n; ++p)
            if (k-- == 0) return pair(p, q, e == Eval::H);
        return false;
      default: return true;
    }
  }
  bool pair(int p, int q, bool with_cost) const {
    if (with_cost && s.cost >= 0 && dep[s.cost][p] && dep[s.cost][q]) return true;
    for (int e : s.eq)
      if (dep[e][p] && dep[e][q]) return true;
    for (int e : s.ineq)
      if (dep[e][p] && dep[e][q]) return true;
    return false;
  }

  std::vector<Dual<double>> duals(const VecX& x) { return eval_duals<double>(s.ast, to_std(x)); }
  double sign() const { return (s.maximize ? -1 : 1) * d.df; }
  const std::vector<double>& factors(Eval e) const { return e == Eval::CE || e == Eval::AE ? d.de : d.di; }
  int enter(Eval e, const VecX& x) {
    int i = d.evals++;
    if (d.before) d.before(e, i, to_std(x));
    return i;
  }
  void leave(Eval e, int i, const VecX& x, double* v, size_t k) {
    if (d.after) d.after(e, i, to_std(x), v, k);
  }
  double f(const VecX& x) {
    int i = enter(Eval::F, x);
    double v = s.cost < 0 ? 0.0 : sign() * eval_values<double>(s.ast, to_std(x))[s.cost];
    leave(Eval::F, i, x, &v, 1);
    return v;
  }
  SpVec g(const VecX& x) {
    int i = enter(Eval::G, x);
    VecX v = VecX::Zero(n);
    if (s.cost >= 0) {
      auto u = duals(x);
      for (int k = 0; k < n; ++k) v[k] = sign() * u[s.cost].g[k];
    }
    leave(Eval::G, i, x, v.data(), n);
    SpVec r(n);
    for (int k = 0; k < n; ++k)
      if (s.cost >= 0 && dep[s.cost][k]) r.insert(k) = v[k];
    return r;
  }
  SpMat hess(Eval e, const VecX& x, const VecX& y, const VecX& z, bool with_cost) {
    int i = enter(e, x);
    auto u = duals(x);
    MatX m = MatX::Zero(n, n);
    auto acc = [&](int id, double w) {
      for (int p = 0; p < n; ++p)
        for (int q = 0; q <= p; ++q) m(p, q) += w * u[id].h[p * n + q];
    };
    if (with_cost && s.cost >= 0) acc(s.cost, sign());
    for (size_t k = 0; k < s.eq.size(); ++k) acc(s.eq[k], -y[k] * (d.de.empty() ? 1 : d.de[k]));
    for (size_t k = 0; k < s.ineq.size(); ++k) acc(s.ineq[k], -z[k] * (d.di.empty() ? 1 : d.di[k]));
    std::vector<double> v;
    for (int q = 0; q < n; ++q)
      for (int p = q; p < n; ++p) v.push_back(m(p, q));
    leave(e, i, x, v.data(), v.size());
    SpMat r(n, n);
    size_t k = 0;
    for (int q = 0; q < n; ++q)
      for (int p = q; p < n; ++p, ++k)
        if (pair(p, q, with_cost)) r.insert(p, q) = v[k];
    r.makeCompressed();
    return r;
  }
  VecX cons(Eval e, const std::vector<int>& ids, const VecX& x) {
    int i = enter(e, x);
    auto u = eval_values<double>(s.ast, to_std(x));
    VecX v(ids.size());
    for (size_t k = 0; k < ids.size(); ++k) v[k] = u[ids[k]] * (factors(e).empty() ? 1 : factors(e)[k]);
    leave(e, i, x, v.data(), ids.size());
    return v;
  }
  SpMat jac(Eval e, const std::vector<int>& ids, const VecX& x) {
    int i = enter(e, x);
    auto u = duals(x);
    MatX m = MatX::Zero(ids.size(), n);
    for (size_t k = 0; k < ids.size(); ++k)
      for (int p = 0; p < n; ++p) m(k, p) = u[ids[k]].g[p] * (factors(e).empty() ? 1 : factors(e)[k]);
    leave(e, i, x, m.data(), m.size());
    SpMat r(ids.size(), n);
    for (int q = 0; q < n; ++q)
      for (size_t p = 0; p < ids.size(); ++p)
        if (dep[ids[p]][q]) r.insert(p, q) = m(p, q);
    r.makeCompressed();
    return r;
  }
};
}  // namespace

DirectTrace direct_solve(Direct& d, Solver which, const slp::Options& o, std::vector<double> x0, const Hook& hook, bool full,
                         bool with_duals) {
  DirectTrace t;
  const Spec& s = *d.spec;
  Wrap w(d, s, s.n);
  d.evals = 0;
  d.structural = [&](Eval e, size_t k) { return w.structural(e, k); };
  VecX x = Eigen::Map<VecX>(x0.data(), x0.size());
  std::vector<std::function<bool(const Info&)>> cbs;
  cbs.emplace_back([&](const Info& i) -> bool {
    t.calls.push_back(snapshot(i, full));
    if (hook) return hook(static_cast<int>(t.calls.size()) - 1, i);
    return false;
  });
  slp::ProblemScaling<double> sc{d.df, VecX::Ones(s.eq.size()), VecX::Ones(s.ineq.size())};
  if (d.identity) sc = slp::ProblemScaling<double>{};
  for (size_t k = 0; k < d.de.size(); ++k) sc.c_e[k] = d.de[k];
  for (size_t k = 0; k < d.di.size(); ++k) sc.c_i[k] = d.di[k];
  const VecX none;
  Eigen::ArrayX<bool> mask = Eigen::ArrayX<bool>::Constant(s.ineq.size(), false);
  for (size_t k = 0; k < d.mask.size(); ++k) mask[k] = d.mask[k];
  try {
    switch (which) {
      case Solver::NEWTON: {
        slp::NewtonMatrixCallbacks<double> m{
            s.n,
            [&](const VecX& v) { return w.f(v); },
            [&](const VecX& v) { return w.g(v); },
            [&](const VecX& v) { return w.hess(Eval::H, v, none, none, true); },
            sc};
        t.status = static_cast<int>(slp::newton<double>(m, cbs, o, x));
        break;
      }
      case Solver::SQP: {
        slp::SQPMatrixCallbacks<double> m{
            s.n,
            static_cast<int>(s.eq.size()),
            [&](const VecX& v) { return w.f(v); },
            [&](const VecX& v) { return w.g(v); },
            [&](const VecX& v, const VecX& y) { return w.hess(Eval::H, v, y, none, true); },
            [&](const VecX& v, const VecX& y) { return w.hess(Eval::HC, v, y, none, false); },
            [&](const VecX& v) { return w.cons(Eval::CE, s.eq, v); },
            [&](const VecX& v) { return w.jac(Eval::AE, s.eq, v); },
            sc};
        if (with_duals) {
          VecX y = VecX::Zero(s.eq.size());
          t.status = static_cast<int>(slp::sqp<double>(m, cbs, o, x, y));
          t.y = to_std(y);
          t.has_duals = true;
        } else {
          t.status = static_cast<int>(slp::sqp<double>(m, cbs, o, x));
        }
        break;
      }
      case Solver::IP: {
        slp::InteriorPointMatrixCallbacks<double> m{
            s.n,
            static_cast<int>(s.eq.size()),
            static_cast<int>(s.ineq.size()),
            [&](const VecX& v) { return w.f(v); },
            [&](const VecX& v) { return w.g(v); },
            [&](const VecX& v, const VecX& y, const VecX& z) { return w.hess(Eval::H, v, y, z, true); },
            [&](const VecX& v, const VecX& y, const VecX& z) { return w.hess(Eval::HC, v, y, z, false); },
            [&](const VecX& v) { return w.cons(Eval::CE, s.eq, v); },
            [&](const VecX& v) { return w.jac(Eval::AE, s.eq, v); },
            [&](const VecX& v) { return w.cons(Eval::CI, s.ineq, v); },
            [&](const VecX& v) { return w.jac(Eval::AI, s.ineq, v); },
            sc};
        if (with_duals) {
          VecX sl = VecX::Ones(s.ineq.size()), y = VecX::Zero(s.eq.size()), z = VecX::Ones(s.ineq.size());
          t.mu = 0.1;
          t.status = static_cast<int>(slp::interior_point<double>(m, cbs, o, false, NO_BOUNDS x, sl, y, z, t.mu, t.iterations));
          t.s = to_std(sl);
          t.y = to_std(y);
          t.z = to_std(z);
          t.has_duals = true;
        } else {
          t.status = static_cast<int>(slp::interior_point<double>(m, cbs, o, NO_BOUNDS x));
        }
        break;
      }
    }
  } catch (const std::exception& e) {
    t.threw = true;
    t.what = e.what();
  }
  t.t_end = clk.mono_ns;
  t.final_x = to_std(x);
  return t;
}
}  // namespace sim
