// Reference model, problem generator, builder and recorder.  See model.hpp.
#include "model.hpp"

#include <cstdio>

namespace sim {

const char* op_name(Op o) {
  static const char* const names[] = {"var",  "const", "+",    "-",    "*",    "/",    "neg",  "pow",  "square", "sqrt",  "exp", "log",
                                      "log10", "sin",   "cos",  "tan",  "asin", "acos", "atan", "sinh", "cosh",   "tanh",  "abs", "erf",
                                      "cbrt",  "hypot", "atan2", "max", "min",  "sign", "powc", "cpow", "hypot3"};
  return names[static_cast<int>(o)];
}
int op_arity(Op o) {
  switch (o) {
    case Op::VAR:
    case Op::CONST:
      return 0;
    case Op::ADD:
    case Op::SUB:
    case Op::MUL:
    case Op::DIV:
    case Op::POW:
    case Op::HYPOT:
    case Op::ATAN2:
    case Op::MAX:
    case Op::MIN:
      return 2;
    case Op::HYPOT3:
      return 3;
    default:
      return 1;
  }
}

std::string Ast::str(int id) const {
  const Node& d = n[id];
  char b[64];
  switch (op_arity(d.op)) {
    case 0:
      if (d.op == Op::VAR) snprintf(b, sizeof b, "x%d", d.c);
      else snprintf(b, sizeof b, "%.17g", d.k);
      return b;
    case 1:
      if (d.op == Op::NEG) return "-(" + str(d.a) + ")";
      if (d.op == Op::POWC || d.op == Op::CPOW) {
        snprintf(b, sizeof b, "%.17g", d.k);
        return d.op == Op::POWC ? "pow(" + str(d.a) + "," + b + ")" : std::string("pow(") + b + "," + str(d.a) + ")";
      }
      return std::string(op_name(d.op)) + "(" + str(d.a) + ")";
    case 2:
      if (d.op == Op::ADD || d.op == Op::SUB || d.op == Op::MUL || d.op == Op::DIV)
        return "(" + str(d.a) + op_name(d.op) + str(d.b) + ")";
      return std::string(op_name(d.op)) + "(" + str(d.a) + "," + str(d.b) + ")";
    default:
      return std::string(op_name(d.op)) + "(" + str(d.a) + "," + str(d.b) + "," + str(d.c) + ")";
  }
}

namespace {
template <typename T>
T value_of(const Node& d, T a, T b, T c) {
  switch (d.op) {
    case Op::ADD: return a + b;
    case Op::SUB: return a - b;
    case Op::MUL: return a * b;
    case Op::DIV: return a / b;
    case Op::NEG: return -a;
    case Op::POW: return std::pow(a, b);
    case Op::SQUARE: return a * a;
    case Op::SQRT: return std::sqrt(a);
    case Op::EXP: return std::exp(a);
    case Op::LOG: return std::log(a);
    case Op::LOG10: return std::log10(a);
    case Op::SIN: return std::sin(a);
    case Op::COS: return std::cos(a);
    case Op::TAN: return std::tan(a);
    case Op::ASIN: return std::asin(a);
    case Op::ACOS: return std::acos(a);
    case Op::ATAN: return std::atan(a);
    case Op::SINH: return std::sinh(a);
    case Op::COSH: return std::cosh(a);
    case Op::TANH: return std::tanh(a);
    case Op::ABS: return std::abs(a);
    case Op::ERF: return std::erf(a);
    case Op::CBRT: return std::cbrt(a);
    case Op::HYPOT: return std::sqrt(a * a + b * b);
    case Op::ATAN2: return std::atan2(a, b);
    case Op::MAX: return a >= b ? a : b;
    case Op::MIN: return a <= b ? a : b;
    case Op::SIGN: return a < 0 ? T(-1) : a > 0 ? T(1) : T(0);
    case Op::POWC: return std::pow(a, T(d.k));
    case Op::CPOW: return std::pow(T(d.k), a);
    case Op::HYPOT3: return std::sqrt(a * a + b * b + c * c);
    default: return 0;
  }
}
}  // namespace

std::vector<std::optional<double>> constants(const Ast& ast) {
  std::vector<std::optional<double>> f(ast.n.size());
  for (size_t i = 0; i < f.size(); ++i) {
    const Node& d = ast.n[i];
    if (d.op == Op::CONST) f[i] = d.k;
    if (d.op == Op::CONST || d.op == Op::VAR) continue;
    auto is = [&](int id, double v) { return f[id] && *f[id] == v; };
    auto a = f[d.a];
    bool all = a && (d.b < 0 || f[d.b]) && (d.op != Op::HYPOT3 || f[d.c]);
    switch (d.op) {
      case Op::MUL:
        if (is(d.a, 0) || is(d.b, 0)) f[i] = 0;
        break;
      case Op::DIV:
        if (is(d.a, 0)) f[i] = 0;
        break;
      case Op::LOG:
      case Op::LOG10:
        if (is(d.a, 0)) f[i] = 0;
        break;
      case Op::POW:
        if (is(d.a, 0)) f[i] = 0;
        else if (is(d.a, 1) || is(d.b, 0)) f[i] = 1;
        break;
      case Op::POWC:
        if (is(d.a, 0)) f[i] = 0;
        else if (is(d.a, 1) || d.k == 0) f[i] = 1;
        break;
      case Op::CPOW:
        if (d.k == 0) f[i] = 0;
        else if (d.k == 1 || is(d.a, 0)) f[i] = 1;
        break;
      default: break;
    }
    if (!f[i] && all) f[i] = value_of<double>(d, *a, d.b >= 0 ? *f[d.b] : 0, d.op == Op::HYPOT3 ? *f[d.c] : 0);
  }
  return f;
}

template <typename T>
std::vector<T> eval_values(const Ast& ast, const std::vector<double>& x) {
  std::vector<T> v(ast.n.size());
  auto folded = constants(ast);
  for (size_t i = 0; i < ast.n.size(); ++i) {
    const Node& d = ast.n[i];
    if (folded[i]) v[i] = *folded[i];
    else if (d.op == Op::VAR) v[i] = x[d.c];
    else if (d.op == Op::CONST) v[i] = d.k;
    else v[i] = value_of<T>(d, v[d.a], d.b >= 0 ? v[d.b] : T(0), d.op == Op::HYPOT3 ? v[d.c] : T(0));
  }
  return v;
}

template <typename T>
std::vector<Dual<T>> eval_duals(const Ast& ast, const std::vector<double>& x, bool mag, uint64_t noise) {
  const int n = static_cast<int>(x.size());
  std::vector<Dual<T>> r(ast.n.size());
  auto folded = constants(ast);
  auto shake = [&](T v) {
    noise = noise * 6364136223846793005ull + 1442695040888963407ull;
    return v + T(static_cast<double>(static_cast<int64_t>(noise)) * 0x1p-63 * 0x1p-48) * v;
  };
  for (size_t i = 0; i < ast.n.size(); ++i) {
    if (noise && i > 0 && op_arity(ast.n[i - 1].op) > 0) {
      Dual<T>& p = r[i - 1];
      p.v = shake(p.v);
      for (auto& v : p.g) v = shake(v);
      for (auto& v : p.h) v = shake(v);
    }
    const Node& d = ast.n[i];
    Dual<T>& o = r[i];
    o.g.assign(n, 0);
    o.h.assign(n * n, 0);
    if (folded[i]) {
      o.v = *folded[i];
      continue;
    }
    if (d.op == Op::VAR) {
      o.v = x[d.c];
      o.g[d.c] = 1;
      continue;
    }
    if (d.op == Op::CONST) {
      o.v = d.k;
      continue;
    }
    const Dual<T>& A = r[d.a];
    if (op_arity(d.op) == 1) {
      T a = A.v, f1 = 0, f2 = 0;
      o.v = value_of<T>(d, a, 0, 0);
      T v = o.v;
      switch (d.op) {
        case Op::NEG: f1 = -1; break;
        case Op::SQUARE: f1 = 2 * a; f2 = 2; break;
        case Op::SQRT: f1 = 1 / (2 * v); f2 = -1 / (4 * v * a); break;
        case Op::EXP: f1 = f2 = v; break;
        case Op::LOG: f1 = 1 / a; f2 = -1 / (a * a); break;
        case Op::LOG10: f1 = 1 / (a * std::log(T(10))); f2 = -f1 / a; break;
        case Op::SIN: f1 = std::cos(a); f2 = -v; break;
        case Op::COS: f1 = -std::sin(a); f2 = -v; break;
        case Op::TAN: f1 = 1 + v * v; f2 = 2 * v * f1; break;
        case Op::ASIN: f1 = 1 / std::sqrt(1 - a * a); f2 = a * f1 * f1 * f1; break;
        case Op::ACOS: f1 = -1 / std::sqrt(1 - a * a); f2 = a * f1 * f1 * f1; break;
        case Op::ATAN: f1 = 1 / (1 + a * a); f2 = -2 * a * f1 * f1; break;
        case Op::SINH: f1 = std::cosh(a); f2 = v; break;
        case Op::COSH: f1 = std::sinh(a); f2 = v; break;
        case Op::TANH: f1 = 1 - v * v; f2 = -2 * v * f1; break;
        case Op::ABS: f1 = a < 0 ? -1 : a > 0 ? 1 : 0; break;
        case Op::ERF: f1 = T(1.1283791670955125738961589031215452L) * std::exp(-a * a); f2 = -2 * a * f1; break;
        case Op::CBRT: f1 = 1 / (3 * v * v); f2 = -2 * f1 / (3 * a); break;
        case Op::SIGN: break;
        case Op::POWC:
          f1 = T(d.k) * std::pow(a, T(d.k) - 1);
          f2 = T(d.k) * (T(d.k) - 1) * std::pow(a, T(d.k) - 2);
          break;
        case Op::CPOW: f1 = v * std::log(T(d.k)); f2 = f1 * std::log(T(d.k)); break;
        default: break;
      }
      if (mag) {
        f1 = std::abs(f1);
        f2 = std::abs(f2);
        if (d.op == Op::TANH) f1 = 1 + v * v, f2 = 2 * std::abs(v) * f1;  // 1 - tanh^2 cancels
      }
      for (int p = 0; p < n; ++p) {
        o.g[p] = f1 * A.g[p];
        for (int q = 0; q < n; ++q) o.h[p * n + q] = f1 * A.h[p * n + q] + f2 * A.g[p] * A.g[q];
      }
      continue;
    }
    if (d.op == Op::HYPOT3) {
      const Dual<T>&B = r[d.b], &C = r[d.c];
      T w[3] = {A.v, B.v, C.v};
      if (mag)
        for (T& t : w) t = std::abs(t);
      const Dual<T>* D[3] = {&A, &B, &C};
      T v = o.v = value_of<T>(d, A.v, B.v, C.v);
      for (int p = 0; p < n; ++p) {
        for (int e = 0; e < 3; ++e) o.g[p] += w[e] / v * D[e]->g[p];
        for (int q = 0; q < n; ++q) {
          T s = 0;
          for (int e = 0; e < 3; ++e) {
            s += w[e] / v * D[e]->h[p * n + q];
            for (int f = 0; f < 3; ++f) s += ((e == f ? 1 : 0) / v + (mag ? 1 : -1) * w[e] * w[f] / (v * v * v)) * D[e]->g[p] * D[f]->g[q];
          }
          o.h[p * n + q] = s;
        }
      }
      continue;
    }
    const Dual<T>& B = r[d.b];
    T a = A.v, b = B.v, fa = 0, fb = 0, faa = 0, fab = 0, fbb = 0;
    T v = o.v = value_of<T>(d, a, b, 0);
    switch (d.op) {
      case Op::ADD: fa = fb = 1; break;
      case Op::SUB: fa = 1; fb = -1; break;
      case Op::MUL: fa = b; fb = a; fab = 1; break;
      case Op::DIV:
        fa = 1 / b;
        fb = -a / (b * b);
        fab = -1 / (b * b);
        fbb = 2 * a / (b * b * b);
        break;
      case Op::POW: {
        T l = std::log(a);
        fa = b * std::pow(a, b - 1);
        fb = v * l;
        faa = b * (b - 1) * std::pow(a, b - 2);
        fab = std::pow(a, b - 1) * (1 + b * l);
        fbb = v * l * l;
        break;
      }
      case Op::HYPOT:
        fa = a / v;
        fb = b / v;
        faa = b * b / (v * v * v);
        fbb = a * a / (v * v * v);
        fab = -a * b / (v * v * v);
        if (mag) {  // 1/v - a^2/v^3 cancels
          faa = 1 / v + a * a / (v * v * v);
          fbb = 1 / v + b * b / (v * v * v);
        }
        break;
      case Op::ATAN2: {
        T q = a * a + b * b;
        fa = b / q;
        fb = -a / q;
        faa = -2 * a * b / (q * q);
        fbb = 2 * a * b / (q * q);
        fab = (a * a - (mag ? -1 : 1) * b * b) / (q * q);
        break;
      }
      case Op::MAX: fa = a >= b ? 1 : 0; fb = 1 - fa; break;
      case Op::MIN: fa = a <= b ? 1 : 0; fb = 1 - fa; break;
      default: break;
    }
    if (mag)
      for (T* t : {&fa, &fb, &faa, &fab, &fbb}) *t = std::abs(*t);
    for (int p = 0; p < n; ++p) {
      o.g[p] = fa * A.g[p] + fb * B.g[p];
      for (int q = 0; q < n; ++q)
        o.h[p * n + q] = fa * A.h[p * n + q] + fb * B.h[p * n + q] + faa * A.g[p] * A.g[q] + fbb * B.g[p] * B.g[q] +
                         fab * (A.g[p] * B.g[q] + B.g[p] * A.g[q]);
    }
  }
  return r;
}
template std::vector<double> eval_values<double>(const Ast&, const std::vector<double>&);
template std::vector<long double> eval_values<long double>(const Ast&, const std::vector<double>&);
template std::vector<Dual<double>> eval_duals<double>(const Ast&, const std::vector<double>&, bool, uint64_t);
template std::vector<Dual<long double>> eval_duals<long double>(const Ast&, const std::vector<double>&, bool, uint64_t);

std::vector<Dual<double>> eval_errors(const Ast& ast, const std::vector<double>& x) {
  const int n = static_cast<int>(x.size());
  auto at = eval_duals<long double>(ast, x);
  auto mag = eval_duals<double>(ast, x, true);
  std::vector<Dual<double>> e(ast.n.size());
  for (size_t i = 0; i < e.size(); ++i) {
    e[i].v = std::abs(static_cast<double>(at[i].v));
    e[i].g.resize(n);
    e[i].h.resize(n * n);
    for (int p = 0; p < n; ++p) {
      e[i].g[p] = mag[i].g[p];
      e[i].v += mag[i].g[p] * std::abs(x[p]);
    }
    for (int p = 0; p < n * n; ++p) e[i].h[p] = mag[i].h[p];
  }
  // rounding of intermediate values
  for (int k = 1; k <= 3; ++k) {
    auto u = eval_duals<long double>(ast, x, false, 0x9e3779b97f4a7c15ull * k);
    for (size_t i = 0; i < e.size(); ++i) {
      e[i].v += static_cast<double>(std::abs(u[i].v - at[i].v)) * 0x1p48;
      for (int p = 0; p < n; ++p) e[i].g[p] += static_cast<double>(std::abs(u[i].g[p] - at[i].g[p])) * 0x1p48;
      for (int p = 0; p < n * n; ++p) e[i].h[p] += static_cast<double>(std::abs(u[i].h[p] - at[i].h[p])) * 0x1p48;
    }
  }
  constexpr double d = 0x1p-40;
  for (int k = 0; k < 2 * n; ++k) {
    auto y = x;
    y[k / 2] += (k & 1 ? -d : d) * std::max(std::abs(x[k / 2]), 1e-3);
    auto u = eval_duals<long double>(ast, y);
    for (size_t i = 0; i < e.size(); ++i) {
      e[i].v += static_cast<double>(std::abs(u[i].v - at[i].v)) / d;
      for (int p = 0; p < n; ++p) e[i].g[p] += static_cast<double>(std::abs(u[i].g[p] - at[i].g[p])) / d;
      for (int p = 0; p < n * n; ++p) e[i].h[p] += static_cast<double>(std::abs(u[i].h[p] - at[i].h[p])) / d;
    }
  }
  // undefined next to the point: anything goes
  auto known = [](double& v) {
    if (std::isnan(v)) v = HUGE_VAL;
  };
  for (auto& d : e) {
    known(d.v);
    for (auto& v : d.g) known(v);
    for (auto& v : d.h) known(v);
  }
  return e;
}

V apply(const Node& d, const V* a, const V* b, const V* c) {
  switch (d.op) {
    case Op::ADD: return *a + *b;
    case Op::SUB: return *a - *b;
    case Op::MUL: return *a * *b;
    case Op::DIV: return *a / *b;
    case Op::NEG: return -*a;
    case Op::POW: return slp::pow(*a, *b);
    case Op::SQUARE: return *a * *a;
    case Op::SQRT: return slp::sqrt(*a);
    case Op::EXP: return slp::exp(*a);
    case Op::LOG: return slp::log(*a);
    case Op::LOG10: return slp::log10(*a);
    case Op::SIN: return slp::sin(*a);
    case Op::COS: return slp::cos(*a);
    case Op::TAN: return slp::tan(*a);
    case Op::ASIN: return slp::asin(*a);
    case Op::ACOS: return slp::acos(*a);
    case Op::ATAN: return slp::atan(*a);
    case Op::SINH: return slp::sinh(*a);
    case Op::COSH: return slp::cosh(*a);
    case Op::TANH: return slp::tanh(*a);
    case Op::ABS: return slp::abs(*a);
    case Op::ERF: return slp::erf(*a);
    case Op::CBRT: return slp::cbrt(*a);
    case Op::HYPOT: return slp::hypot(*a, *b);
    case Op::ATAN2: return slp::atan2(*a, *b);
    case Op::MAX: return slp::max(*a, *b);
    case Op::MIN: return slp::min(*a, *b);
    case Op::SIGN: return slp::sign(*a);
    case Op::POWC: return slp::pow(*a, d.k);
    case Op::CPOW: return slp::pow(d.k, *a);
    case Op::HYPOT3: return slp::hypot(*a, *b, *c);
    default: return V(0.0);
  }
}

V respell(const Node& d, const V* a, const V* b, const V* c, const double* ka, const double* kb, uint64_t h) {
  V t = *a;
  bool num = h & 2;
  if (h & 1) {
    switch (d.op) {
      case Op::ADD: t += *b; return t;
      case Op::SUB: t -= *b; return t;
      case Op::MUL:
        if (kb && num) t *= *kb;
        else t *= *b;
        return t;
      case Op::DIV:
        if (kb && num) t /= *kb;
        else t /= *b;
        return t;
      case Op::NEG: return -t;
      case Op::SQUARE: return h & 4 ? slp::pow(t, 2) : slp::pow(*a, V(2.0));
      default: break;
    }
  }
  if (ka && num) {
    switch (d.op) {
      case Op::ADD: return *ka + *b;
      case Op::SUB: return *ka - *b;
      case Op::MUL: return *ka * *b;
      case Op::DIV: return *ka / *b;
      case Op::POW: return slp::pow(*ka, *b);
      case Op::HYPOT: return slp::hypot(*ka, *b);
      case Op::ATAN2: return slp::atan2(*ka, *b);
      case Op::MAX: return slp::max(*ka, *b);
      case Op::MIN: return slp::min(*ka, *b);
      default: break;
    }
  }
  if (kb && num) {
    switch (d.op) {
      case Op::ADD: return *a + *kb;
      case Op::SUB: return *a - *kb;
      case Op::MUL: return *a * *kb;
      case Op::DIV: return *a / *kb;
      case Op::POW: return slp::pow(*a, *kb);
      case Op::HYPOT: return slp::hypot(*a, *kb);
      case Op::ATAN2: return slp::atan2(*a, *kb);
      case Op::MAX: return slp::max(*a, *kb);
      case Op::MIN: return slp::min(*a, *kb);
      default: break;
    }
  }
  if (d.op == Op::POWC && num) return slp::pow(*a, V(d.k));
  if (d.op == Op::CPOW && num) return slp::pow(V(d.k), *a);
  return apply(d, a, b, c);
}

// ---- generation --------------------------------------------------------------
int gen_expr(Ast& ast, int n, int depth, bool raw) {
  auto c = [&] { return ast.cst((range(0, 12) - 6) / 2.0); };
  if (depth == 0) {
    int k = choose(4);
    if (k == 3) return c();
    if (k == 2 && ast.n.size() > 3 && chance(1, 2)) {
      // share an existing node (never a constant-only choice problem: any node)
      return static_cast<int>(choose(ast.n.size()));
    }
    return ast.var(choose(n));
  }
  auto sub = [&] { return gen_expr(ast, n, depth - 1, raw); };
  if (raw && chance(1, 4)) {
    switch (choose(8)) {
      case 0: return ast.un(Op::SQRT, sub());
      case 1: return ast.un(Op::LOG, sub());
      case 2: {
        int a = sub();
        return ast.bin(Op::DIV, a, sub());
      }
      case 3: return ast.powc(sub(), pick({-1.0, 0.5, 1.5, 3.0, -2.0}));
      case 4: return ast.un(Op::ASIN, sub());
      case 5: {
        int a = sub();
        return ast.bin(Op::MUL, a, ast.un(Op::SQRT, a));
      }
      case 6: return ast.un(Op::EXP, ast.bin(Op::MUL, sub(), ast.cst(20)));
      default: return ast.un(Op::TAN, sub());
    }
  }
  switch (choose(14)) {
    case 0:
    case 1: {
      int a = sub();
      return ast.bin(Op::ADD, a, sub());
    }
    case 2:
    case 3: {
      int a = sub();
      return ast.bin(Op::MUL, a, sub());
    }
    case 4: {
      int a = sub();
      return ast.bin(Op::SUB, a, sub());
    }
    case 5: return ast.un(Op::SIN, sub());
    case 6: return ast.un(Op::EXP, ast.bin(Op::MUL, sub(), ast.cst(0.25)));
    case 7: {
      // smooth square root: sqrt(a^2 + 1)
      int a = sub();
      return ast.un(Op::SQRT, ast.bin(Op::ADD, ast.un(Op::SQUARE, a), ast.cst(1)));
    }
    case 8: return ast.un(Op::SQUARE, sub());
    case 9: return ast.un(Op::COS, sub());
    case 10: return ast.un(Op::ATAN, sub());
    case 11: {
      // rational without poles
      int a = sub();
      int b = sub();
      return ast.bin(Op::DIV, a, ast.bin(Op::ADD, ast.un(Op::SQUARE, b), ast.cst(1)));
    }
    case 12: return ast.un(Op::TANH, sub());
    default: {
      int a = sub();
      return ast.bin(Op::MUL, a, c());
    }
  }
}

namespace {
int linear(Ast& a, int n, double constant) {
  int e = a.cst(constant);
  for (int i = 0; i < n; ++i) {
    double k = range(0, 8) - 4;
    if (k != 0) e = a.bin(Op::ADD, e, a.bin(Op::MUL, a.cst(k), a.var(i)));
  }
  return e;
}
bool depends(const Ast& a, int id) {
  const Node& d = a.n[id];
  if (d.op == Op::VAR) return true;
  if (d.op == Op::CONST) return false;
  return depends(a, d.a) || (d.b >= 0 && depends(a, d.b)) || (d.op == Op::HYPOT3 && depends(a, d.c));
}
int sq_dist(Ast& a, int i, double c) { return a.un(Op::SQUARE, a.bin(Op::SUB, a.var(i), a.cst(c))); }
int sum(Ast& a, std::initializer_list<int> l) {
  int e = -1;
  for (int x : l) e = e < 0 ? x : a.bin(Op::ADD, e, x);
  return e;
}

/// Problems known from the literature and from experience to exercise rare
/// paths (restoration, second-order corrections, degeneracy).
Spec classic(const GenOptions& o) {
  Spec s;
  Ast& a = s.ast;
  auto X = [&](int i) { return a.var(i); };
  auto K = [&](double k) { return a.cst(k); };
  auto sub = [&](int p, int q) { return a.bin(Op::SUB, p, q); };
  auto add = [&](int p, int q) { return a.bin(Op::ADD, p, q); };
  auto mul = [&](int p, int q) { return a.bin(Op::MUL, p, q); };
  auto sq = [&](int p) { return a.un(Op::SQUARE, p); };
  double q1 = (range(0, 8) - 4) / 2.0, q2 = (range(0, 8) - 4) / 2.0;
  int which;
  for (;;) {
    which = choose(14);
    bool eq = which == 1 || which == 3 || which == 5 || which == 8 || which >= 12;
    bool none = which == 0 || which == 9;
    if (none ? o.newton : eq ? o.sqp : o.ip) break;
  }
  switch (which) {
    case 0:  // Rosenbrock
      s.family = "rosenbrock";
      s.n = 2;
      s.cost = add(sq(sub(K(1), X(0))), mul(K(100), sq(sub(X(1), sq(X(0))))));
      s.x0 = {q1, q2};
      break;
    case 1:  // Maratos effect
      s.family = "maratos";
      s.n = 2;
      s.cost = sub(mul(K(2), sub(add(sq(X(0)), sq(X(1))), K(1))), X(0));
      s.eq = {sub(add(sq(X(0)), sq(X(1))), K(1))};
      s.x0 = {std::cos(q1), std::sin(q1)};
      break;
    case 2:  // Wächter & Biegler's counterexample
      s.family = "waechter-biegler";
      s.n = 3;
      s.cost = X(0);
      s.eq = {sub(sub(sq(X(0)), X(1)), K(1)), sub(sub(X(0), X(2)), K(0.5))};
      s.ineq = {X(1), X(2)};
      s.x0 = {q1 - 2, 3 + q2, 1};
      break;
    case 3:  // equality-constrained Rosenbrock on a circle
      s.family = "rosenbrock-circle";
      s.n = 2;
      s.cost = add(sq(sub(K(1), X(0))), mul(K(100), sq(sub(X(1), sq(X(0))))));
      s.eq = {sub(add(sq(X(0)), sq(X(1))), K(2))};
      s.x0 = {q1 + 0.25, q2};
      break;
    case 4:  // Rosenbrock with cubic and line
      s.family = "rosenbrock-cubic-line";
      s.n = 2;
      s.cost = add(sq(sub(K(1), X(0))), mul(K(100), sq(sub(X(1), sq(X(0))))));
      s.ineq = {sub(X(1), add(a.powc(sub(X(0), K(1)), 3), K(1))), sub(K(2), add(X(0), X(1)))};
      s.x0 = {q1 - 0.5, q2};
      break;
    case 5:  // two circles, at times disjoint
      s.family = "two-circles";
      s.n = 2;
      s.cost = add(X(0), X(1));
      s.eq = {sub(add(sq(X(0)), sq(X(1))), K(4)), sub(add(sq(sub(X(0), K(q1))), sq(X(1))), K(2.25))};
      s.x0 = {q2, 1};
      break;
    case 6:  // HS71
      s.family = "hs71";
      s.n = 4;
      s.cost = add(mul(mul(X(0), X(3)), add(add(X(0), X(1)), X(2))), X(2));
      s.ineq = {sub(mul(mul(X(0), X(1)), mul(X(2), X(3))), K(25))};
      s.eq = {sub(add(add(sq(X(0)), sq(X(1))), add(sq(X(2)), sq(X(3)))), K(40))};
      for (int i = 0; i < 4; ++i) {
        s.ineq.push_back(sub(X(i), K(1)));
        s.ineq.push_back(sub(K(5), X(i)));
      }
      s.x0 = {1 + q1, 5, 5 + q2, 1};
      break;
    case 7:  // maze of half-spaces and a disc (inequalities only)
      s.family = "disc";
      s.n = 2;
      s.cost = add(sq(sub(X(0), K(3))), sq(sub(X(1), K(q1))));
      s.ineq = {sub(K(2), add(sq(X(0)), sq(X(1)))), add(X(1), K(1)), sub(mul(X(0), X(1)), K(q2))};
      s.x0 = {q2, q1};
      break;
    case 8:  // rank-deficient equality constraints (LICQ fails)
      s.family = "rank-deficient";
      s.n = 3;
      s.cost = sum(a, {sq_dist(a, 0, 1), sq_dist(a, 1, 2), sq_dist(a, 2, 3)});
      s.eq = {sub(add(X(0), X(1)), K(1)), sub(add(X(0), X(1)), K(1))};
      s.x0 = {q1, q2, 1};
      break;
    case 9:  // flat or indefinite start
      s.family = "quartic-saddle";
      s.n = 2;
      s.cost = add(sub(a.powc(X(0), 4), mul(K(2), sq(X(0)))), add(sq(X(1)), mul(K(0.25), mul(X(0), X(1)))));
      s.x0 = {q1 / 4, q2};
      break;
    case 10:  // inequalities whose gradients vanish at the solution
      s.family = "degenerate-ineq";
      s.n = 2;
      s.cost = add(X(0), mul(K(0.5), sq(X(1))));
      s.ineq = {sub(a.powc(X(0), 3), sq(X(1))), add(X(0), K(1))};
      s.x0 = {1 + q1 / 4, q2};
      break;
    case 12:  // bilinear equalities, which often have no real solution: the
              // equality-constrained solver has to restore feasibility
      s.family = "bilinear-eq";
      s.n = 2;
      s.cost = add(sq(sub(X(0), K(1))), sq(add(X(1), K(q1))));
      s.eq = {sub(mul(X(0), X(1)), K(2 + q1)), sub(add(X(0), X(1)), K(q2))};
      s.x0 = {(range(0, 16) - 8) / 2.0, (range(0, 16) - 8) / 2.0};
      break;
    case 13:  // circles around far centres that meet in two points or none
      s.family = "far-circles";
      s.n = 2;
      s.cost = add(sq(sub(X(0), K(q1))), sq(sub(X(1), K(q2))));
      s.eq = {sub(add(sq(X(0)), sq(X(1))), K(4)),
              sub(add(sq(sub(X(0), K(3 + 2 * q1))), sq(X(1))), K(1))};
      s.x0 = {(range(0, 16) - 8) / 2.0, (range(0, 16) - 8) / 2.0};
      break;
    default:  // narrow curved channel
      s.family = "channel";
      s.n = 2;
      s.cost = add(sq(sub(X(0), K(4))), sq(X(1)));
      s.ineq = {sub(K(0.125), sq(sub(X(1), a.un(Op::SIN, X(0))))), add(X(0), K(2))};
      s.x0 = {q1, q2};
      break;
  }
  return s;
}

Spec quadratic(const GenOptions& o) {
  Spec s;
  Ast& a = s.ast;
  s.family = "convex-qp";
  s.n = range(1, o.max_n);
  s.x0.resize(s.n);
  for (auto& v : s.x0) v = (range(0, 16) - 8) / 2.0;
  int f = -1;
  for (int i = 0; i < s.n; ++i) {
    double w = pick({1.0, 2.0, 0.5, 10.0, 0.01});
    int t = a.bin(Op::MUL, a.cst(w), sq_dist(a, i, range(0, 8) - 4));
    f = f < 0 ? t : a.bin(Op::ADD, f, t);
  }
  if (s.n > 1 && chance(1, 2)) f = a.bin(Op::ADD, f, a.un(Op::SQUARE, a.bin(Op::SUB, a.var(0), a.var(1))));
  s.cost = f;
  int me = o.sqp || o.ip ? range(0, s.n - 1) : 0;
  int mi = o.ip ? range(0, 3) : 0;
  if (!o.newton && me + mi == 0) mi = o.ip ? 1 : 0;
  if (!o.newton && !o.ip && me == 0) me = 1;
  if (!o.ip) mi = 0;
  // a feasible point
  std::vector<double> xf(s.n);
  for (auto& v : xf) v = range(0, 6) - 3;
  auto val = [&](int e, const std::vector<double>& x) { return eval_values<double>(a, x)[e]; };
  for (int k = 0; k < me; ++k) {
    int e = linear(a, s.n, 0);
    if (!depends(a, e)) continue;
    s.eq.push_back(a.bin(Op::SUB, e, a.cst(val(e, xf))));
  }
  for (int k = 0; k < mi; ++k) {
    int e = linear(a, s.n, 0);
    if (!depends(a, e)) continue;
    s.ineq.push_back(a.bin(Op::SUB, e, a.cst(val(e, xf) - range(0, 2))));
  }
  return s;
}

Spec nonlinear(const GenOptions& o, bool raw) {
  Spec s;
  Ast& a = s.ast;
  s.family = raw ? "nonfinite-domain" : "nonlinear";
  s.n = range(1, o.max_n);
  s.x0.resize(s.n);
  for (auto& v : s.x0) v = (range(0, 16) - 8) / 2.0;
  int f = -1;
  for (int i = 0; i < s.n; ++i) {
    int t = sq_dist(a, i, range(0, 8) - 4);
    f = f < 0 ? t : a.bin(Op::ADD, f, t);
  }
  if (chance(1, 2)) f = a.bin(Op::ADD, f, gen_expr(a, s.n, 2, raw));
  s.cost = f;
  int me = o.sqp || o.ip ? range(0, std::max(0, s.n - 1)) : 0;
  int mi = o.ip ? range(0, 3) : 0;
  if (!o.newton && me + mi == 0) (o.ip ? mi : me) = 1;
  for (int k = 0; k < me; ++k) {
    int e = gen_expr(a, s.n, 2, raw);
    if (!depends(a, e)) e = a.var(choose(s.n));
    s.eq.push_back(a.bin(Op::SUB, e, a.cst(range(0, 8) - 4)));
  }
  for (int k = 0; k < mi; ++k) {
    int e = gen_expr(a, s.n, 2, raw);
    if (!depends(a, e)) e = a.var(choose(s.n));
    s.ineq.push_back(a.bin(Op::SUB, e, a.cst(range(0, 8) - 6)));
  }
  return s;
}

Spec hopeless(const GenOptions& o) {
  Spec s;
  Ast& a = s.ast;
  for (;;) {
    int w = choose(6);
    double c = range(0, 6) - 3;
    if (w == 0 && o.sqp) {
      s.family = "overconstrained";
      s.n = 1 + choose(2);
      s.cost = sq_dist(a, 0, c);
      for (int i = 0; i < s.n + 1; ++i) s.eq.push_back(a.bin(Op::SUB, a.bin(Op::ADD, a.var(i % s.n), a.var(0)), a.cst(i)));
    } else if (w == 1 && o.sqp) {
      s.family = "locally-infeasible-eq";
      s.n = 2;
      s.cost = a.bin(Op::ADD, sq_dist(a, 0, c), sq_dist(a, 1, 0));
      s.eq = {a.bin(Op::ADD, a.un(Op::SQUARE, a.var(0)), a.cst(1)), };
    } else if (w == 2 && o.ip) {
      s.family = "conflicting-bounds";
      s.n = 1 + choose(2);
      s.cost = sq_dist(a, 0, c);
      s.ineq = {a.bin(Op::SUB, a.var(0), a.cst(c + 1)), a.bin(Op::SUB, a.cst(c), a.var(0))};
    } else if (w == 3 && o.ip) {
      s.family = "locally-infeasible-ineq";
      s.n = 2;
      s.cost = a.bin(Op::ADD, sq_dist(a, 0, c), sq_dist(a, 1, 0));
      s.ineq = {a.bin(Op::SUB, a.cst(-1), a.un(Op::SQUARE, a.var(0))), a.bin(Op::ADD, a.var(1), a.cst(5))};
    } else if (w == 4 && o.newton) {
      s.family = "unbounded";
      s.n = 1 + choose(2);
      s.cost = a.bin(Op::SUB, a.cst(c), a.un(Op::SQUARE, a.var(0)));
    } else if (w == 5 && o.ip) {
      s.family = "unbounded-ineq";
      s.n = 2;
      s.cost = a.bin(Op::SUB, a.var(1), a.var(0));
      s.ineq = {a.bin(Op::ADD, a.var(1), a.cst(2))};
    } else {
      continue;
    }
    break;
  }
  s.x0.resize(s.n);
  for (auto& v : s.x0) v = (range(0, 16) - 8) / 2.0;
  return s;
}
}  // namespace

Spec gen_problem(const GenOptions& options) {
  Spec s;
  GenOptions o = options;
  if (o.max_n >= 4 && chance(1, 16)) o.max_n += 4;
  // Weights: quadratic 2, nonlinear 6, classic 5, hopeless 1, nonfinite 2
  int k = choose(16);
  if (k < 2) s = quadratic(o);
  else if (k < 8) s = nonlinear(o, false);
  else if (k < 13) s = classic(o);
  else if (k < 14 && o.infeasible) s = hopeless(o);
  else if (k >= 14 && o.nonfinite) s = nonlinear(o, true);
  else s = nonlinear(o, false);
  if (o.scaled && chance(1, 8)) {
    // scale one function badly
    double f = pick({1e3, 1e5, 1e-3});
    int w = choose(3);
    Ast& a = s.ast;
    auto sc = [&](int e) { return a.bin(Op::MUL, a.cst(f), e); };
    if (w == 0 && s.cost >= 0) s.cost = sc(s.cost);
    if (w == 1)
      for (auto& e : s.eq) e = sc(e);
    if (w == 2)
      for (auto& e : s.ineq) e = sc(e);
    s.family += "/scaled";
  }
  if (s.cost >= 0 && chance(1, 12)) {
    s.maximize = true;
    s.cost = s.ast.un(Op::NEG, s.cost);
    s.family += "/max";
  }
  if (chance(1, 2)) s.form = 1 + choose(1u << 20);
  return s;
}

std::string Spec::str() const {
  std::string r = family + ": ";
  if (cost >= 0) r += (maximize ? "max " : "min ") + ast.str(cost);
  for (int e : eq) r += "; " + ast.str(e) + " == 0";
  for (int e : ineq) r += "; " + ast.str(e) + " >= 0";
  r += "; from " + vec_str(x0);
  return r;
}

namespace {
using Mat = slp::VariableMatrix<double>;

/// Declares n variables, some at a time.
std::vector<V> declare(slp::Problem<double>& p, int n, uint64_t h) {
  std::vector<V> x;
  while (static_cast<int>(x.size()) < n) {
    h = mix64(h, 1);
    int left = n - static_cast<int>(x.size());
    switch (h % 4) {
      case 0: x.push_back(p.decision_variable()); break;
      case 1: {
        auto m = p.decision_variable(left);
        for (int i = 0; i < left; ++i) x.push_back(m[i]);
        break;
      }
      case 2: {  // a matrix, row by row
        int cols = 1 + h / 4 % 3, rows = left / cols;
        if (rows == 0) continue;
        auto m = p.decision_variable(rows, cols);
        for (int r = 0; r < rows; ++r)
          for (int c = 0; c < cols; ++c) x.push_back(m[r, c]);
        break;
      }
      default: {  // a symmetric matrix: its lower triangle
        int rows = left >= 6 ? 3 : left >= 3 ? 2 : 1;
        auto m = p.symmetric_decision_variable(rows);
        for (int r = 0; r < rows; ++r)
          for (int c = 0; c <= r; ++c) x.push_back(h / 4 % 2 ? m[r, c] : m[c, r]);
      }
    }
  }
  return x;
}

/// States constraints id[0], id[1], ... in various forms.
template <typename C>
void state(Built& b, const Spec& s, const std::vector<int>& ids, uint64_t h) {
  auto& p = *b.p;
  auto N = [&](int id) -> const V& { return b.node[id]; };
  auto is = [&](int id, Op o) { return s.ast.n[id].op == o; };
  auto same = [&](int i, int j) { return i == j || (is(i, Op::VAR) && is(j, Op::VAR) && s.ast.n[i].c == s.ast.n[j].c); };
  auto put = [&](C c) {
    switch (h / 64 % 4) {
      case 0: p.subject_to(c); break;
      case 1: p.subject_to(std::move(c)); break;
      case 2: p.subject_to(C(std::vector<C>{c})); break;
      default: p.subject_to(C({c, C(std::vector<C>{})}));
    }
  };
  for (size_t k = 0; k < ids.size();) {
    h = mix64(h, k + 1);
    const Node& d = s.ast.n[ids[k]];
    // several at once
    size_t m = std::min<size_t>(ids.size() - k, 1 + h / 8 % 4);
    switch (h % 8) {
      case 0:
      case 1: break;
      case 2: {  // a vector, compared with zero(s)
        const int cols = m % 2 == 0 ? 2 : 1, rows = static_cast<int>(m) / cols;
        Mat v(rows, cols), z(rows, cols);
        for (int i = 0; i < static_cast<int>(m); ++i) {
          v[i / cols, i % cols] = N(ids[k + i]);
          z[i / cols, i % cols] = V(0.0);
        }
        if constexpr (std::is_same_v<C, slp::EqualityConstraints<double>>) {
          if (h / 32 % 3 == 0) put(v == 0.0);
          else if (h / 32 % 3 == 1) put(v == V(0.0));
          else put(v == z);
        } else {
          if (h / 32 % 6 == 0) put(v >= 0.0);
          else if (h / 32 % 6 == 1) put(0.0 <= v);
          else if (h / 32 % 6 == 2) put(v > V(0.0));
          else if (h / 32 % 6 == 3) put(z < v);
          else if (h / 32 % 6 == 4) put(v > 0.0);
          else put(v >= z);
        }
        k += m;
        continue;
      }
      case 3: {  // a row of a matrix
        Mat v(static_cast<int>(m), 2);
        for (size_t i = 0; i < m; ++i) {
          v[static_cast<int>(i), 1] = N(ids[k + i]);
          v[static_cast<int>(i), 0] = V(1.0);
        }
        if constexpr (std::is_same_v<C, slp::EqualityConstraints<double>>) put(v.col(1) == 0.0);
        else if (h & 64) put(v.col(1) >= 0.0);
        else put(0.0 < v.col(1));
        k += m;
        continue;
      }
      case 4: {  // a list
        std::vector<C> l;
        for (size_t i = 0; i < m; ++i) {
          if constexpr (std::is_same_v<C, slp::EqualityConstraints<double>>) l.push_back(N(ids[k + i]) == 0.0);
          else l.push_back(N(ids[k + i]) >= 0.0);
        }
        if (m == 2 && (h & 32)) put(C{l[0], l[1]});
        else put(C(l));
        k += m;
        continue;
      }
      case 5:
        if constexpr (std::is_same_v<C, slp::InequalityConstraints<double>>) {
          if (k + 1 < ids.size()) {  // l <= x <= u
            const Node& e = s.ast.n[ids[k + 1]];
            if (d.op == Op::SUB && is(d.b, Op::CONST) && e.op == Op::SUB && is(e.a, Op::CONST) && same(d.a, e.b)) {
              double l = s.ast.n[d.b].k, u = s.ast.n[e.a].k;
              if (h & 32) put(slp::bounds(l, N(d.a), u));
              else put(slp::bounds(N(d.b), N(d.a), N(e.a)));
              k += 2;
              continue;
            }
          }
        }
        if (d.op == Op::SUB && is(d.a, Op::CONST)) {  // c >= q, ...
          size_t g = 1;
          while (g < m && s.ast.n[ids[k + g]].op == Op::SUB && is(s.ast.n[ids[k + g]].a, Op::CONST) && s.ast.n[s.ast.n[ids[k + g]].a].k == s.ast.n[d.a].k) ++g;
          Mat v(static_cast<int>(g), 1);
          for (size_t i = 0; i < g; ++i) v[static_cast<int>(i)] = N(s.ast.n[ids[k + i]].b);
          double c = s.ast.n[d.a].k;
          if constexpr (std::is_same_v<C, slp::EqualityConstraints<double>>) {
            if (h & 32) put(c == v);
            else put(V(c) == v);
          } else {
            if (h & 32) put(v <= c);
            else if (h & 64) put(c >= v);
            else put(v < V(c));
          }
          k += g;
          continue;
        }
        [[fallthrough]];
      default:  // two sides
        if (d.op == Op::SUB) {
          if constexpr (std::is_same_v<C, slp::EqualityConstraints<double>>) {
            if (is(d.b, Op::CONST) && (h & 32)) put(N(d.a) == s.ast.n[d.b].k);
            else if (is(d.a, Op::CONST) && (h & 32)) put(s.ast.n[d.a].k == N(d.b));
            else put(N(d.a) == N(d.b));
          } else {
            if (is(d.b, Op::CONST) && (h & 32)) {
              if (h & 64) put(N(d.a) >= s.ast.n[d.b].k);
              else put(s.ast.n[d.b].k <= N(d.a));
            } else if (is(d.a, Op::CONST) && (h & 32)) {
              if (h & 64) put(N(d.b) <= s.ast.n[d.a].k);
              else put(s.ast.n[d.a].k > N(d.b));
            } else if (h & 128) {
              put(N(d.b) <= N(d.a));
            } else {
              put(N(d.a) > N(d.b));
            }
          }
          ++k;
          continue;
        }
    }
    if constexpr (std::is_same_v<C, slp::EqualityConstraints<double>>) put(N(ids[k]) == 0.0);
    else put(N(ids[k]) >= 0.0);
    ++k;
  }
}
}  // namespace

Built build(const Spec& s, int style) {
  Built b;
  b.spec = &s;
  b.p = std::make_unique<slp::Problem<double>>();
  uint64_t h = s.form ? mix64(s.form, style) : 0;
  if (h) {
    b.x = declare(*b.p, s.n, h);
  } else if (style == 1) {
    for (int i = 0; i < s.n; ++i) b.x.push_back(b.p->decision_variable());
  } else {
    auto m = b.p->decision_variable(s.n);
    for (int i = 0; i < s.n; ++i) b.x.push_back(m[i]);
  }
  b.set(s.x0);
  b.node.reserve(s.ast.n.size());
  for (const Node& d : s.ast.n) {
    if (d.op == Op::VAR) b.node.push_back(b.x[d.c]);
    else if (d.op == Op::CONST) b.node.push_back(V(d.k));
    else if (h) {
      auto k = [&](int id) { return id >= 0 && s.ast.n[id].op == Op::CONST ? &s.ast.n[id].k : nullptr; };
      b.node.push_back(respell(d, &b.node[d.a], d.b >= 0 ? &b.node[d.b] : nullptr, d.op == Op::HYPOT3 ? &b.node[d.c] : nullptr, k(d.a), k(d.b), mix64(h, b.node.size())));
    } else {
      b.node.push_back(apply(d, &b.node[d.a], d.b >= 0 ? &b.node[d.b] : nullptr, d.op == Op::HYPOT3 ? &b.node[d.c] : nullptr));
    }
  }
  if (s.cost >= 0) {
    bool move = h & 1;
    if (s.maximize) move ? b.p->maximize(V(b.node[s.cost])) : b.p->maximize(b.node[s.cost]);
    else move ? b.p->minimize(V(b.node[s.cost])) : b.p->minimize(b.node[s.cost]);
  }
  if (h) {
    state<slp::EqualityConstraints<double>>(b, s, s.eq, mix64(h, 2));
    state<slp::InequalityConstraints<double>>(b, s, s.ineq, mix64(h, 3));
  } else {
    for (int e : s.eq) b.p->subject_to(b.node[e] == 0.0);
    for (int e : s.ineq) b.p->subject_to(b.node[e] >= 0.0);
  }
  return b;
}

// ---- recording -----------------------------------------------------------------
std::vector<double> to_std(const Eigen::Ref<const VecX>& v) { return {v.data(), v.data() + v.size()}; }

Call snapshot(const Info& i, bool full) {
  Call c;
  c.iteration = i.iteration;
  c.t_ns = clk.mono_ns;
  c.reads = clk.mono_reads;
  c.x = to_std(i.x);
  c.s = to_std(i.s);
  c.y = to_std(i.y);
  c.z = to_std(i.z);
  c.full = full;
  if (full) {
    c.g = i.g;
    c.H = i.H;
    c.A_e = i.A_e;
    c.A_i = i.A_i;
  }
  return c;
}

Trace traced_solve(Built& b, const slp::Options& o, const Hook& hook, bool full, bool spy) {
  Trace t;
  b.p->clear_callbacks();
  b.p->add_callback([&](const Info& i) -> bool {
    t.calls.push_back(snapshot(i, full));
    if (hook) return hook(static_cast<int>(t.calls.size()) - 1, i);
    return false;
  });
  try {
    t.status = static_cast<int>(b.p->solve(o, spy));
  } catch (const std::exception& e) {
    t.threw = true;
    t.what = e.what();
  } catch (...) {
    t.threw = true;
    t.what = "?";
  }
  t.t_end = clk.mono_ns;
  t.final_x = b.get();
  b.p->clear_callbacks();
  return t;
}

bool same_bits(double a, double b) { return std::memcmp(&a, &b, 8) == 0; }
bool same_bits(const std::vector<double>& a, const std::vector<double>& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i)
    if (!same_bits(a[i], b[i]) && !(std::isnan(a[i]) && std::isnan(b[i]))) return false;
  return true;
}
bool same_sparse(const SpMat& a, const SpMat& b) {
  if (a.rows() != b.rows() || a.cols() != b.cols() || a.nonZeros() != b.nonZeros()) return false;
  for (int k = 0; k < a.outerSize(); ++k) {
    SpMat::InnerIterator i{a, k}, j{b, k};
    for (; i && j; ++i, ++j)
      if (i.row() != j.row() || (!same_bits(i.value(), j.value()) && !(std::isnan(i.value()) && std::isnan(j.value())))) return false;
    if (static_cast<bool>(i) != static_cast<bool>(j)) return false;
  }
  return true;
}

std::string vec_str(const std::vector<double>& v) {
  std::string r = "[";
  char b[40];
  for (size_t i = 0; i < v.size(); ++i) {
    snprintf(b, sizeof b, "%s%.17g", i ? "," : "", v[i]);
    r += b;
  }
  return r + "]";
}

std::string diff_calls(const Trace& a, const Trace& b, size_t k, bool full) {
  char buf[128];
  if (a.calls.size() < k || b.calls.size() < k) {
    snprintf(buf, sizeof buf, "%zu and %zu calls instead of %zu", a.calls.size(), b.calls.size(), k);
    return buf;
  }
  for (size_t i = 0; i < k; ++i) {
    const Call &p = a.calls[i], &q = b.calls[i];
    if (p.iteration != q.iteration) {
      snprintf(buf, sizeof buf, "call %zu: iteration %d vs %d", i, p.iteration, q.iteration);
      return buf;
    }
    auto cmp = [&](const char* nm, const std::vector<double>& u, const std::vector<double>& v) -> std::string {
      if (same_bits(u, v)) return "";
      snprintf(buf, sizeof buf, "call %zu (iteration %d): %s = ", i, p.iteration, nm);
      return buf + vec_str(u) + " vs " + vec_str(v);
    };
    for (auto& r : {cmp("x", p.x, q.x), cmp("s", p.s, q.s), cmp("y", p.y, q.y), cmp("z", p.z, q.z)})
      if (!r.empty()) return r;
    if (full && p.full && q.full) {
      SpMat gp(p.g), gq(q.g);
      if (!same_sparse(gp, gq) || !same_sparse(p.H, q.H) || !same_sparse(p.A_e, q.A_e) || !same_sparse(p.A_i, q.A_i)) {
        snprintf(buf, sizeof buf, "call %zu (iteration %d): g, H, A_e or A_i differ", i, p.iteration);
        return buf;
      }
    }
  }
  return "";
}

void log_trace(const Trace& t) {
  log(t.calls.size());
  for (auto& c : t.calls) {
    log(c.iteration);
    for (double v : c.x) logd(v);
  }
  log(static_cast<uint64_t>(t.status + 100));
  for (double v : t.final_x) logd(v);
}

bool in_restoration(const Trace& t, size_t i, int n) { return static_cast<int>(t.calls[i].x.size()) != n; }

uint64_t shape(const Trace& t, int n) {
  uint64_t h = mix64(7, static_cast<uint64_t>(t.status + 100));
  h = mix64(h, t.calls.size());
  bool r = false;
  for (size_t i = 0; i < t.calls.size(); ++i)
    if (in_restoration(t, i, n) != r) {
      r = !r;
      h = mix64(h, i);
    }
  return h;
}

}  // namespace sim
