// C17: optimal control.  A plant under disturbances is controlled in closed loop
// by re-solving one OCP (receding horizon), with solves cut short by deadlines,
// stops, iteration limits and exceptions.  Every successful solve is checked
// against an independent integrator and against a freshly built OCP.
#include <stdexcept>

#include <sleipnir/optimization/ocp.hpp>

#include "model.hpp"

namespace sim {

const WorldInfo world = {
    "C17",
    "each run draws a system (8 kinds, 1 to 3 states, 1 or 2 inputs, time-varying and step-dependent ones), a transcription, timestep method, horizon, bounds, per-step constraints and "
    "a closed loop of 1 to 6 solves with disturbances, changed initial states, tightened statements and interrupted solves in between; every SUCCESS is checked; non-trivial: a solve "
    "succeeded; distinct = distinct event-log hashes",
    "OCP, Problem, autodiff, newton, sqp, interior_point, feasibility restoration",
    "clocks; the controlled plant (long double integrator)",
    "(system, transcription, timestep method, statements, how the previous solves ended, status)",
    16000, 1600000};

namespace {
using LD = long double;
using OCPd = slp::OCP<double>;
using Mat = slp::VariableMatrix<double>;
struct Boom : std::runtime_error {
  Boom() : std::runtime_error("boom") {}
};

constexpr int SYSTEMS = 8;
const int states_of[SYSTEMS] = {1, 2, 2, 1, 2, 3, 1, 2};
const int inputs_of[SYSTEMS] = {1, 1, 1, 1, 1, 2, 2, 1};
const char* const names[SYSTEMS] = {"flywheel", "double integrator", "pendulum", "time-varying", "van der Pol", "unicycle", "two inputs", "driven oscillator"};

/// dx/dt = f(t, x, u, dt), or the discrete x+ = f(t, x, u, dt).
template <typename S>
std::vector<S> dynamics(int sys, bool discrete, S t, const std::vector<S>& x, const std::vector<S>& u, S dt) {
  using slp::cos, slp::sin, std::cos, std::sin;
  std::vector<S> d;
  switch (sys) {
    case 0: d = {S(-0.5) * x[0] + S(2.0) * u[0]}; break;
    case 1: d = {x[1], u[0]}; break;
    case 2: d = {x[1], u[0] - S(1.5) * sin(x[0]) - S(0.25) * x[1]}; break;
    case 3: d = {S(-1.0) * x[0] + u[0] * (S(1.5) + cos(t)) + S(0.5) * sin(S(2.0) * t)}; break;
    case 4: d = {x[1], (S(1.0) - x[0] * x[0]) * x[1] * S(0.5) - x[0] + u[0]}; break;
    case 5: d = {u[0] * cos(x[2]), u[0] * sin(x[2]), u[1]}; break;
    case 6: d = {u[0] - u[1] * x[0] + dt * S(0.5)}; break;
    default: d = {x[1], S(-1.0) * x[0] + u[0] + t * S(0.25) + dt * x[1]}; break;
  }
  if (discrete) {
    // explicit Euler, with a bit of coupling
    for (size_t i = 0; i < d.size(); ++i) d[i] = x[i] + dt * d[i];
  }
  return d;
}
std::vector<V> entries(const Mat& m) {
  std::vector<V> r;
  Mat c = m;
  for (int i = 0; i < c.rows(); ++i) r.push_back(c[i, 0]);
  return r;
}
Mat to_mat(const std::vector<V>& v) {
  Mat m(v.size(), 1);
  for (size_t i = 0; i < v.size(); ++i) m[i, 0] = v[i];
  return m;
}

/// The same dynamics written with matrix operations.
Mat matrix_dynamics(int sys, bool discrete, const V& t, const Mat& x, const Mat& u, const V& dt) {
  Mat c = x, w = u, d;
  switch (sys) {
    case 0: d = -0.5 * x + 2.0 * u; break;
    case 1: {
      Eigen::Matrix2d a{{0.0, 1.0}, {0.0, 0.0}};
      Eigen::Vector2d b{0.0, 1.0};
      d = a * x + b * u;
      break;
    }
    case 2: {
      d = Mat(2, 1);
      d.block(0, 0, 1, 1) = c.block(1, 0, 1, 1);
      d.block(1, 0, 1, 1) = w.block(0, 0, 1, 1);
      d.row(1) -= Mat(1.5 * sin(c[0, 0])) + 0.25 * Mat(c.row(1));
      break;
    }
    case 5: {
      Mat g(3, 2);
      g[0, 0] = cos(c[2]);
      g[1, 0] = sin(c[2]);
      g[2, 1] = 1.0;
      g[0, 1] = g[1, 1] = g[2, 0] = 0.0;
      d = g * w;
      break;
    }
    case 6: d = Mat(w.row(0)) - w.row(1) * c.row(0) + Mat(dt * 0.5); break;
    default: {
      std::vector<V> a, b;
      for (auto& e : c) a.push_back(e);
      for (auto& e : w) b.push_back(e);
      d = to_mat(dynamics<V>(sys, false, t, a, b, dt));
    }
  }
  if (discrete) d = x + d * dt;
  return d;
}

struct Statement {
  enum Kind { LOWER, UPPER, MINDT, MAXDT, FINAL, PATH, PATH_T, INITIAL, DISK, BOX } kind;
  std::vector<double> v;
  bool scalar = false;
  int form = 0;  // 0 numbers, 1 parameters
};
struct Setup {
  int sys, steps;
  double dt;
  bool discrete, simple_form;
  slp::TimestepMethod ts;
  slp::TranscriptionMethod tr;
  int cost;
  int form;    // how dynamics and cost are written
  bool param;  // initial state constrained to parameters (else set or constrained once)
  std::vector<double> x0;
  std::vector<double> target;
  std::vector<Statement> st;
};
struct Instance {
  std::unique_ptr<OCPd> o;
  std::vector<V> p;                // parameters: measured state
  std::vector<std::vector<V>> sp;  // parameters of each statement
};

VecX vec(const std::vector<double>& v) { return Eigen::Map<const VecX>(v.data(), v.size()); }

void state(const Setup& s, Instance& in, const Statement& t) {
  OCPd& o = *in.o;
  in.sp.emplace_back();
  if (t.form == 1) {
    for (double v : t.v) in.sp.back().emplace_back().set_value(v);
    const auto& p = in.sp.back();
    auto give = [&](auto&& f) {
      if (t.scalar) f(p[0]);
      else f(to_mat(p));
    };
    switch (t.kind) {
      case Statement::LOWER: give([&](const auto& b) { o.set_lower_input_bound(b); }); return;
      case Statement::UPPER: give([&](const auto& b) { o.set_upper_input_bound(b); }); return;
      case Statement::FINAL: give([&](const auto& b) { o.constrain_final_state(b); }); return;
      case Statement::INITIAL: give([&](const auto& b) { o.constrain_initial_state(b); }); return;
      default: fail("world", "no parameters here");
    }
  }
  switch (t.kind) {
    case Statement::LOWER:
      if (t.scalar) o.set_lower_input_bound(t.v[0]);
      else o.set_lower_input_bound(vec(t.v));
      break;
    case Statement::UPPER:
      if (t.scalar) o.set_upper_input_bound(t.v[0]);
      else o.set_upper_input_bound(vec(t.v));
      break;
    case Statement::MINDT: o.set_min_timestep(std::chrono::duration<double>(t.v[0])); break;
    case Statement::MAXDT: o.set_max_timestep(std::chrono::duration<double>(t.v[0])); break;
    case Statement::FINAL:
      if (t.scalar) o.constrain_final_state(t.v[0]);
      else o.constrain_final_state(vec(t.v));
      break;
    case Statement::INITIAL: o.constrain_initial_state(vec(t.v)); break;
    case Statement::DISK:
      o.for_each_step([&](const Mat& x, const Mat& u) {
        Mat a = x, b = u;
        o.subject_to(pow(a[0, 0], 2) + pow(b[0, 0], 2) <= t.v[0]);
      });
      break;
    case Statement::BOX:
      o.for_each_step([&](const V&, const Mat& x, const Mat&, const V&) { o.subject_to(x <= vec(t.v)); });
      break;
    case Statement::PATH:
      o.for_each_step([&](const Mat& x, const Mat& u) {
        Mat a = x, b = u;
        o.subject_to(a[0, 0] * t.v[0] + b[0, 0] * t.v[1] <= t.v[2]);
      });
      break;
    case Statement::PATH_T:
      o.for_each_step([&](const V& time, const Mat& x, const Mat& u, const V& dt) {
        Mat a = x, b = u;
        o.subject_to(a[0, 0] * t.v[0] + b[0, 0] * dt <= t.v[1] + t.v[2] * time);
      });
      break;
  }
}

Instance make(const Setup& s) {
  Instance in;
  const int nx = states_of[s.sys], nu = inputs_of[s.sys];
  auto f4 = [&](const V& t, const Mat& x, const Mat& u, const V& dt) -> Mat {
    if (s.form & 1) return matrix_dynamics(s.sys, s.discrete, t, x, u, dt);
    return to_mat(dynamics<V>(s.sys, s.discrete, t, entries(x), entries(u), dt));
  };
  auto f2 = [&](const Mat& x, const Mat& u) -> Mat {
    if (s.form & 1) return matrix_dynamics(s.sys, s.discrete, V(0.0), x, u, V(s.dt));
    return to_mat(dynamics<V>(s.sys, s.discrete, V(0.0), entries(x), entries(u), V(s.dt)));
  };
  auto type = s.discrete ? slp::DynamicsType::DISCRETE : slp::DynamicsType::EXPLICIT_ODE;
  std::chrono::duration<double> dt{s.dt};
  if (s.simple_form) {
    slp::function_ref<Mat(const Mat&, const Mat&)> f = f2;
    in.o = std::make_unique<OCPd>(nx, nu, dt, s.steps, f, type, s.ts, s.tr);
  } else {
    slp::function_ref<Mat(const V&, const Mat&, const Mat&, const V&)> f = f4;
    in.o = std::make_unique<OCPd>(nx, nu, dt, s.steps, f, type, s.ts, s.tr);
  }
  OCPd& o = *in.o;
  if (s.param) {
    in.p.resize(nx);
    for (int i = 0; i < nx; ++i) {
      in.p[i].set_value(s.x0[i]);
      o.subject_to(o.X()[i, 0] == in.p[i]);
    }
  }
  V J = 0.0;
  if (s.form & 2) {
    VecX g = vec(s.target);
    for (int k = 0; k <= s.steps; ++k) {
      Mat e = (k == 0 ? o.initial_state() : k == s.steps ? o.final_state() : Mat(o.X().col(k))) - g;
      if (s.cost != 2) J += (e.T() * e)[0, 0];
      if (s.cost == 1) J += 0.1 * V(Mat(o.U().col(k)).T() * o.U().col(k));
      if (s.cost == 2) J += 0.01 * V(Mat(o.U().col(k)).T() * o.U().col(k)) + o.dt()[k];
    }
  }
  for (int k = 0; k <= s.steps && !(s.form & 2); ++k) {
    for (int i = 0; i < nx; ++i) {
      V e = o.X()[i, k] - s.target[i];
      if (s.cost != 2) J += e * e;
    }
    for (int j = 0; j < nu; ++j) {
      V u = o.U()[j, k];
      if (s.cost == 1) J += 0.1 * u * u;
      if (s.cost == 2) J += 0.01 * u * u;
    }
    if (s.cost == 2) J += o.dt()[0, k];
  }
  o.minimize(J);
  for (auto& t : s.st) state(s, in, t);
  return in;
}

struct Values {
  MatX x, u, dt;
};
Values read(Instance& in) { return {in.o->X().value(), in.o->U().value(), in.o->dt().value()}; }
bool same(const MatX& a, const MatX& b) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
  for (int i = 0; i < a.size(); ++i)
    if (!same_bits(a.data()[i], b.data()[i])) return false;
  return true;
}
void write(const Setup& s, Instance& in, const Values& v) {
  const int nx = states_of[s.sys];
  in.o->U().set_value(v.u);
  if (s.tr == slp::TranscriptionMethod::SINGLE_SHOOTING) {
    for (int i = 0; i < nx; ++i) in.o->X()[i, 0].set_value(v.x(i, 0));
  } else {
    in.o->X().set_value(v.x);
  }
  if (s.ts == slp::TimestepMethod::VARIABLE_SINGLE) in.o->dt()[0, 0].set_value(v.dt(0, 0));
  if (s.ts == slp::TimestepMethod::VARIABLE) in.o->dt().set_value(v.dt);
}

std::vector<LD> rk4(const Setup& s, LD t, const std::vector<LD>& x, const std::vector<LD>& u, LD dt) {
  if (s.discrete) return dynamics<LD>(s.sys, true, t, x, u, dt);
  auto axpy = [&](LD a, const std::vector<LD>& k) {
    auto r = x;
    for (size_t i = 0; i < r.size(); ++i) r[i] += a * k[i];
    return r;
  };
  auto k1 = dynamics<LD>(s.sys, false, t, x, u, dt);
  auto k2 = dynamics<LD>(s.sys, false, t + dt / 2, axpy(dt / 2, k1), u, dt);
  auto k3 = dynamics<LD>(s.sys, false, t + dt / 2, axpy(dt / 2, k2), u, dt);
  auto k4 = dynamics<LD>(s.sys, false, t + dt, axpy(dt, k3), u, dt);
  auto r = x;
  for (size_t i = 0; i < r.size(); ++i) r[i] += dt / 6 * (k1[i] + 2 * k2[i] + 2 * k3[i] + k4[i]);
  return r;
}

void judge(const Setup& s, const std::vector<double>& measured, const Values& v, double tol) {
  const int nx = states_of[s.sys], nu = inputs_of[s.sys], N = s.steps;
  const bool shooting = s.tr == slp::TranscriptionMethod::SINGLE_SHOOTING;
  if (v.x.rows() != nx || v.x.cols() != N + 1 || v.u.rows() != nu || v.u.cols() != N + 1 || v.dt.rows() != 1 || v.dt.cols() != N + 1)
    fail("shape", "X, U or dt has the wrong shape");
  double size = 1;
  for (const MatX* m : {&v.x, &v.u, &v.dt})
    for (int i = 0; i < m->size(); ++i) {
      if (!std::isfinite(m->data()[i])) fail("finite", "a successful solve left nonfinite values");
      size = std::max(size, std::abs(m->data()[i]));
    }
  const double eps = tol * (1 + 1e-6) + 1e-12 * size * size;
  auto col = [&](const MatX& m, int k) {
    std::vector<LD> r;
    for (int i = 0; i < m.rows(); ++i) r.push_back(m(i, k));
    return r;
  };
  // timesteps
  for (int k = 0; k <= N; ++k) {
    if (s.ts == slp::TimestepMethod::FIXED && v.dt(0, k) != s.dt) fail("timestep", "fixed timestep %d is %g instead of %g", k, v.dt(0, k), s.dt);
    if (s.ts == slp::TimestepMethod::VARIABLE_SINGLE && v.dt(0, k) != v.dt(0, 0)) fail("timestep", "timesteps %g and %g differ", v.dt(0, 0), v.dt(0, k));
  }
  // dynamics
  LD t = 0;
  for (int k = 0; k < N; ++k) {
    // the two-argument form knows neither time nor timestep
    LD h = v.dt(0, k), tf = s.simple_form ? 0 : t, hf = s.simple_form ? static_cast<LD>(s.dt) : h;
    auto x = col(v.x, k), y = col(v.x, k + 1), u = col(v.u, k), w = col(v.u, k + 1);
    std::vector<LD> defect(nx);
    if (s.tr == slp::TranscriptionMethod::DIRECT_COLLOCATION) {
      auto fb = dynamics<LD>(s.sys, false, tf, x, u, hf);
      auto fe = dynamics<LD>(s.sys, false, s.simple_form ? 0 : t + h, y, w, hf);
      std::vector<LD> xc(nx), uc(nu);
      // cubic Hermite interpolation: value and slope at the midpoint
      for (int i = 0; i < nx; ++i) xc[i] = (x[i] + y[i]) / 2 + h / 8 * (fb[i] - fe[i]);
      for (int j = 0; j < nu; ++j) uc[j] = (u[j] + w[j]) / 2;
      auto fc = dynamics<LD>(s.sys, false, s.simple_form ? 0 : t + h / 2, xc, uc, hf);
      for (int i = 0; i < nx; ++i) defect[i] = (3 / (2 * h)) * (y[i] - x[i]) - (fb[i] + fe[i]) / 4 - fc[i];
    } else {
      std::vector<LD> z;
      if (s.simple_form && !s.discrete) {
        Setup q = s;
        auto f = [&](const std::vector<LD>& a) { return dynamics<LD>(s.sys, false, 0, a, u, s.dt); };
        auto axpy = [&](LD a, const std::vector<LD>& kk) {
          auto r = x;
          for (int i = 0; i < nx; ++i) r[i] += a * kk[i];
          return r;
        };
        auto k1 = f(x), k2 = f(axpy(h / 2, k1)), k3 = f(axpy(h / 2, k2)), k4 = f(axpy(h, k3));
        z = x;
        for (int i = 0; i < nx; ++i) z[i] += h / 6 * (k1[i] + 2 * k2[i] + 2 * k3[i] + k4[i]);
      } else {
        z = s.simple_form ? dynamics<LD>(s.sys, true, 0, x, u, s.dt) : rk4(s, t, x, u, h);
      }
      for (int i = 0; i < nx; ++i) defect[i] = y[i] - z[i];
    }
    for (int i = 0; i < nx; ++i) {
      double d = std::abs(static_cast<double>(defect[i]));
      double lim = shooting ? 1e-12 * size * size : s.tr == slp::TranscriptionMethod::DIRECT_COLLOCATION ? eps + 1e-13 * size / std::abs(static_cast<double>(h)) : eps;
      if (!(d <= lim)) fail("dynamics", "state %d: step %d to %d violates the dynamics by %g (tolerance %g)", i, k, k + 1, d, tol);
    }
    t += h;
  }
  // initial state
  if (s.param || shooting)
    for (int i = 0; i < nx; ++i)
      if (!(std::abs(v.x(i, 0) - measured[i]) <= eps)) fail("initial state", "initial state %d is %.17g instead of %.17g", i, v.x(i, 0), measured[i]);
  // statements
  for (auto& q : s.st) {
    t = 0;
    for (int k = 0; k <= N; ++k) {
      double h = v.dt(0, k), time = t;
      switch (q.kind) {
        case Statement::LOWER:
        case Statement::UPPER:
          for (int j = 0; j < nu; ++j) {
            double b = q.scalar ? q.v[0] : q.v[j], d = q.kind == Statement::LOWER ? b - v.u(j, k) : v.u(j, k) - b;
            if (!(d <= eps)) fail("input bound", "input %d at step %d is %.17g, beyond its bound %g", j, k, v.u(j, k), b);
          }
          break;
        case Statement::MINDT:
          if (!(q.v[0] - h <= eps)) fail("timestep bound", "timestep %d is %g, below %g", k, h, q.v[0]);
          break;
        case Statement::MAXDT:
          if (!(h - q.v[0] <= eps)) fail("timestep bound", "timestep %d is %g, above %g", k, h, q.v[0]);
          break;
        case Statement::FINAL:
          if (k == N)
            for (int i = 0; i < nx; ++i)
              if (!(std::abs(v.x(i, N) - q.v[q.scalar ? 0 : i]) <= eps)) fail("final state", "final state %d is %.17g instead of %g", i, v.x(i, N), q.v[q.scalar ? 0 : i]);
          break;
        case Statement::INITIAL:
          if (k == 0)
            for (int i = 0; i < nx; ++i)
              if (!(std::abs(v.x(i, 0) - q.v[i]) <= eps)) fail("initial state", "initial state %d is %.17g instead of %g", i, v.x(i, 0), q.v[i]);
          break;
        case Statement::PATH: {
          double d = v.x(0, k) * q.v[0] + v.u(0, k) * q.v[1] - q.v[2];
          if (!(d <= eps)) fail("path constraint", "violated by %g at step %d", d, k);
          break;
        }
        case Statement::DISK: {
          double d = v.x(0, k) * v.x(0, k) + v.u(0, k) * v.u(0, k) - q.v[0];
          if (!(d <= eps)) fail("path constraint", "x^2 + u^2 is %g above its limit at step %d", d, k);
          break;
        }
        case Statement::BOX:
          for (int i = 0; i < nx; ++i)
            if (!(v.x(i, k) - q.v[i] <= eps)) fail("path constraint", "state %d at step %d is %.17g, above %g", i, k, v.x(i, k), q.v[i]);
          break;
        case Statement::PATH_T: {
          double d = v.x(0, k) * q.v[0] + v.u(0, k) * h - (q.v[1] + q.v[2] * time);
          if (!(d <= eps)) fail("path constraint", "violated by %g at step %d (t = %g)", d, k, time);
          break;
        }
      }
      t += h;
    }
  }
  count("successful solves judged");
}
}  // namespace

void run_world() {
  install_stdout(2);
  clk.active = true;
  Setup s;
  s.sys = choose(SYSTEMS);
  const int nx = states_of[s.sys], nu = inputs_of[s.sys];
  s.steps = pick({3, 1, 2, 5, 8});
  if (chance(1, 24)) s.steps = range(9, 30);
  s.form = choose(4);
  s.dt = pick({0.1, 0.05, 0.25});
  s.tr = static_cast<slp::TranscriptionMethod>(choose(3));
  s.ts = static_cast<slp::TimestepMethod>(choose(3));
  const bool shooting = s.tr == slp::TranscriptionMethod::SINGLE_SHOOTING;
  s.discrete = s.tr != slp::TranscriptionMethod::DIRECT_COLLOCATION && chance(1, 3);
  s.simple_form = chance(1, 5);
  s.param = !shooting && chance(3, 4);
  s.cost = s.ts == slp::TimestepMethod::FIXED ? choose(2) : choose(3);
  for (int i = 0; i < nx; ++i) s.x0.push_back(range(-4, 4) / 4.0);
  for (int i = 0; i < nx; ++i) s.target.push_back(range(-2, 2) / 2.0);
  if (!s.param && !shooting) s.st.push_back({Statement::INITIAL, s.x0});
  if (shooting && chance(1, 4)) {
    // x0 isn't a decision variable here; the constraint holds or it doesn't
    s.st.push_back({Statement::INITIAL, s.x0});
  }
  auto gen_bound = [&](double sign) {
    Statement t;
    t.kind = sign < 0 ? Statement::LOWER : Statement::UPPER;
    t.scalar = chance(1, 2);
    t.form = chance(1, 3);
    for (int j = 0; j < nu; ++j) t.v.push_back(sign * pick({3.0, 1.0, 8.0, 0.5}));
    return t;
  };
  if (chance(1, 2)) s.st.push_back(gen_bound(-1));
  if (chance(1, 2)) s.st.push_back(gen_bound(1));
  if (s.ts != slp::TimestepMethod::FIXED) {
    s.st.push_back({Statement::MINDT, {pick({0.01, 0.04})}});
    if (s.cost != 2 || chance(1, 2)) s.st.push_back({Statement::MAXDT, {pick({0.3, 1.0})}});
  }
  if (chance(1, 4)) s.st.push_back({Statement::FINAL, s.target, chance(1, 4), chance(1, 3)});
  if (chance(1, 8)) s.st.push_back({Statement::DISK, {pick({16.0, 4.0})}});
  if (chance(1, 8)) {
    Statement t{Statement::BOX, {}};
    for (int i = 0; i < nx; ++i) t.v.push_back(range(2, 6) / 2.0);
    s.st.push_back(t);
  }
  if (chance(1, 4)) s.st.push_back({Statement::PATH, {pick({1.0, -1.0}), pick({0.0, 0.25, 1.0}), pick({1.5, 3.0})}});
  if (chance(1, 4)) s.st.push_back({Statement::PATH_T, {1.0, pick({1.5, 2.5}), pick({0.0, 0.5, -0.25})}});
  double tol = pick({1e-8, 1e-6, 1e-4});
  note("%s%s%s, form %d; %s, %s, %d steps of %g; cost %d, %zu statements; x0 %s, target %s, tol %g%s", names[s.sys], s.discrete ? ", discrete" : "", s.simple_form ? ", f(x, u)" : "", s.form,
       s.tr == slp::TranscriptionMethod::DIRECT_TRANSCRIPTION ? "direct transcription" : shooting ? "single shooting" : "direct collocation",
       s.ts == slp::TimestepMethod::FIXED ? "fixed" : s.ts == slp::TimestepMethod::VARIABLE ? "variable" : "variable single", s.steps, s.dt, s.cost, s.st.size(),
       vec_str(s.x0).c_str(), vec_str(s.target).c_str(), tol, s.param ? ", measured state as parameters" : "");
  for (auto& t : s.st) note("  statement %d%s%s %s", t.kind, t.scalar ? " scalar" : "", t.form ? " parameters" : "", vec_str(t.v).c_str());

  Instance in = make(s);
  std::vector<double> measured = s.x0;
  if (shooting)
    for (int i = 0; i < nx; ++i) in.o->X()[i, 0].set_value(measured[i]);
  int loops = range(1, 6);
  uint64_t past = 0;
  for (int k = 0; k < loops; ++k) {
    int end = chance(1, 3) ? range(1, 5) : 0, at = pick({0, 1, 2, 4, 8});
    slp::Options o;
    o.tolerance = tol;
    o.max_iterations = end == 2 ? at + 1 : 100;
    if (end == 3) o.timeout = std::chrono::duration<double>(at + 0.5);
    o.feasible_ipm = chance(1, 10);
    Values start = read(in);
    bool odd = false;
    for (const MatX* m : {&start.x, &start.u, &start.dt})
      for (int i = 0; i < m->size(); ++i) odd |= !(std::abs(m->data()[i]) < 1e6);
    if (odd) {
      start.x = MatX::Zero(nx, s.steps + 1);
      start.u = MatX::Zero(nu, s.steps + 1);
      start.dt = MatX::Constant(1, s.steps + 1, s.dt);
      for (int i = 0; i < nx; ++i) start.x(i, 0) = measured[i];
      write(s, in, start);
    }
    auto run = [&](Instance& q, int& calls) {
      calls = 0;
      clk.mono_ns = 1'000'000'000;
      q.o->clear_callbacks();
      q.o->add_callback([&](const Info&) -> bool {
        advance_ns(1'000'000'000);
        int c = calls++;
        if (end == 1 && c == at) throw Boom();
        return end == 4 && c == at;
      });
      try {
        return static_cast<int>(q.o->solve(o));
      } catch (const Boom&) {
        return 98;
      }
    };
    int calls = 0, st = run(in, calls);
    Values got = read(in);
    add_sim_time(clk.mono_ns * 1e-9);
    count(st == 98 ? "fault: exception from a callback" : (std::string("ended ") + status_name(st)).c_str());
    note("solve %d from measured %s, end %d at %d: %d iterations, %s", k, vec_str(measured).c_str(), end, at, calls, st == 98 ? "aborted" : status_name(st));
    log(st);
    log(calls);
    for (int i = 0; i < got.u.size(); ++i) logd(got.u.data()[i]);
    if (st == 98 && end != 1) fail("throws", "the solve threw");
    if (st == ST_SUCCESS) {
      nontrivial();
      judge(s, measured, got, tol);
    }
    sig(mix64(mix64(s.sys * 64 + static_cast<int>(s.tr) * 16 + static_cast<int>(s.ts) * 4 + s.discrete * 2 + s.simple_form, s.st.size() * 8 + s.param), mix64(past, st)));
    if (k == 0 || chance(1, 3)) {
      // only the problem and the values it started from matter
      Setup q = s;
      q.x0 = measured;
      Instance fresh = make(q);
      write(s, fresh, start);
      int c2 = 0, s2 = run(fresh, c2);
      Values f = read(fresh);
      if (s2 != st || c2 != calls || !same(f.x, got.x) || !same(f.u, got.u) || !same(f.dt, got.dt))
        fail("history", "solve %d took %d iterations and ended %d; a freshly built OCP started from the same values takes %d and ends %d, or ends elsewhere", k, calls, st, c2, s2);
      count("compared with a freshly built OCP");
    }
    past = mix64(past, st * 8 + end);
    if (k + 1 == loops) break;
    // The plant moves on under the computed input and a disturbance.
    std::vector<LD> x(measured.begin(), measured.end()), u(nu);
    for (int j = 0; j < nu; ++j) u[j] = std::clamp(std::isfinite(got.u(j, 0)) ? got.u(j, 0) : 0.0, -10.0, 10.0);
    x = rk4(s, 0, x, u, s.dt);
    for (int i = 0; i < nx; ++i) {
      if (chance(1, 2)) {
        x[i] += pick({0.01, -0.1, 0.5, -2.0});
        count("fault: disturbance");
      }
      measured[i] = std::clamp(static_cast<double>(x[i]), -5.0, 5.0);
    }
    if (s.param)
      for (int i = 0; i < nx; ++i) in.p[i].set_value(measured[i]);
    else if (shooting)
      for (int i = 0; i < nx; ++i) in.o->X()[i, 0].set_value(measured[i]);
    // warm start: shift, keep or reset
    switch (choose(3)) {
      case 1: {
        Values w = got;
        for (int q = 0; q < s.steps; ++q) {
          w.u.col(q) = got.u.col(q + 1);
          w.x.col(q) = got.x.col(q + 1);
        }
        for (int i = 0; i < nx; ++i) w.x(i, 0) = measured[i];
        bool finite = w.u.allFinite() && w.x.allFinite() && w.dt.allFinite();
        if (finite) write(s, in, w);
        break;
      }
      case 2: {
        Values w;
        w.u = MatX::Zero(nu, s.steps + 1);
        w.x = MatX::Zero(nx, s.steps + 1);
        w.dt = MatX::Constant(1, s.steps + 1, s.dt);
        for (int i = 0; i < nx; ++i) w.x(i, 0) = measured[i];
        write(s, in, w);
        break;
      }
    }
    for (size_t q = 0; q < s.st.size(); ++q)
      if (s.st[q].form == 1 && chance(1, 3)) {
        // moved parameters: bounds and targets are data too
        for (size_t i = 0; i < s.st[q].v.size(); ++i) {
          s.st[q].v[i] *= pick({0.75, 1.25, 0.5});
          in.sp[q][i].set_value(s.st[q].v[i]);
        }
        count("moved a bound or target that is a parameter");
      }
    if (chance(1, 8)) {
      Statement t = gen_bound(chance(1, 2) ? 1 : -1);
      state(s, in, t);
      s.st.push_back(t);
      note("  tightened: statement %d %s", t.kind, vec_str(t.v).c_str());
    }
    if (chance(1, 24)) {
      // a dynamics function that throws while another OCP is being built
      try {
        int n = choose(4);
        auto failing = [&](const Mat& a, const Mat&) -> Mat {
          if (n-- == 0) throw Boom();
          return a;
        };
        slp::function_ref<Mat(const Mat&, const Mat&)> bad = failing;
        OCPd other(2, 1, std::chrono::duration<double>(0.1), 5, bad, slp::DynamicsType::DISCRETE);
        fail("throws", "an exception thrown by the dynamics function vanished");
      } catch (const Boom&) {
        count("fault: exception from the dynamics function");
      }
    }
  }
}
}  // namespace sim
