// Reference model of optimization problems: a small expression language with
// its own evaluator (values, gradients and Hessians by forward propagation of
// second-order duals, independent of Sleipnir's graphs), a problem generator,
// a builder that states the same problem to Sleipnir, and a recorder of solves.
#pragma once

#include <cmath>
#include <functional>
#include <memory>
#include <optional>
#include <string>
#include <vector>

#include <Eigen/Core>
#include <Eigen/SparseCore>
#include <sleipnir/autodiff/variable.hpp>
#include <sleipnir/autodiff/variable_matrix.hpp>
#include <sleipnir/optimization/problem.hpp>

#include "engine.hpp"
#include "seams.hpp"

namespace sim {

using V = slp::Variable<double>;
using Info = slp::IterationInfo<double>;
using slp::ExitStatus;
using VecX = Eigen::VectorXd;
using MatX = Eigen::MatrixXd;
using SpMat = Eigen::SparseMatrix<double>;
using SpVec = Eigen::SparseVector<double>;

// ---- reference expressions -------------------------------------------------
enum class Op : uint8_t {
  VAR, CONST, ADD, SUB, MUL, DIV, NEG, POW, SQUARE,
  SQRT, EXP, LOG, LOG10, SIN, COS, TAN, ASIN, ACOS, ATAN, SINH, COSH, TANH,
  ABS, ERF, CBRT, HYPOT, ATAN2, MAX, MIN, SIGN, POWC, CPOW, HYPOT3
};
const char* op_name(Op);
int op_arity(Op);

struct Node {
  Op op;
  int a = -1, b = -1;
  double k = 0;  // CONST value, POWC exponent or CPOW base
  int c = -1;    // third operand (HYPOT3), or the index of a variable
};

/// Second-order dual number.
template <typename T>
struct Dual {
  T v = 0;
  std::vector<T> g;  // n
  std::vector<T> h;  // n*n, symmetric
};

struct Ast {
  std::vector<Node> n;
  int add(Node x) {
    n.push_back(x);
    return static_cast<int>(n.size()) - 1;
  }
  int var(int i) { return add({Op::VAR, -1, -1, 0, i}); }
  int cst(double k) { return add({Op::CONST, -1, -1, k, -1}); }
  int un(Op o, int a) { return add({o, a, -1, 0, -1}); }
  int bin(Op o, int a, int b) { return add({o, a, b, 0, -1}); }
  int powc(int a, double k) { return add({Op::POWC, a, -1, k, -1}); }
  std::string str(int id) const;
};

/// Nodes that are constants to the library: it folds constant operands, with
/// a constant zero times anything, zero to any power and log(0) folded to zero
/// (its own tests require that).
std::vector<std::optional<double>> constants(const Ast& ast);
/// Values only.
template <typename T>
std::vector<T> eval_values(const Ast& ast, const std::vector<double>& x);
/// Values, gradients and Hessians of every node.  With noise (a seed), every
/// result is off by 16 ulps in a random direction.
template <typename T>
std::vector<Dual<T>> eval_duals(const Ast& ast, const std::vector<double>& x, bool magnitudes = false, uint64_t noise = 0);
/// How much a relative perturbation of every operand may change values and
/// derivatives: times a few ulps, an estimate of rounding errors.
std::vector<Dual<double>> eval_errors(const Ast& ast, const std::vector<double>& x);

// ---- problems --------------------------------------------------------------
struct Spec {
  std::string family;
  int n = 0;
  std::vector<double> x0;
  Ast ast;
  int cost = -1;
  bool maximize = false;
  std::vector<int> eq, ineq;  // expr == 0, expr >= 0
  uint64_t form = 0;          // which of the equivalent ways to state it (0: the plainest)
  std::string str() const;
};

struct GenOptions {
  bool newton = true, sqp = true, ip = true;
  bool infeasible = true;     // include infeasible/unbounded/overconstrained
  bool nonfinite = false;     // include domains with nonfinite evaluations
  bool restoration = true;    // bias towards problems that enter restoration
  bool scaled = true;         // badly scaled problems
  int max_n = 4;
};
Spec gen_problem(const GenOptions& o);
/// Random expression over n variables, added to ast; depth-bounded, smooth and
/// finite everywhere unless raw.
int gen_expr(Ast& ast, int n, int depth, bool raw);

/// Applies one operator to Sleipnir variables.
V apply(const Node& nd, const V* a, const V* b, const V* c);
/// The same by other spellings, picked by h: plain numbers for constant
/// operands (ka, kb), compound assignments, pow(x, 2).
V respell(const Node& nd, const V* a, const V* b, const V* c, const double* ka, const double* kb, uint64_t h);

/// The same problem stated to Sleipnir.
struct Built {
  const Spec* spec;
  std::unique_ptr<slp::Problem<double>> p;
  std::vector<V> x;
  std::vector<V> node;  // one per ast node
  void set(const std::vector<double>& v) {
    for (size_t i = 0; i < x.size(); ++i) x[i].set_value(v[i]);
  }
  std::vector<double> get() {
    std::vector<double> r;
    for (auto& v : x) r.push_back(v.value());
    return r;
  }
};
/// style (0..2) and the spec's form: different but equivalent ways to declare
/// the variables and state the cost and the constraints.  The constraints'
/// order and signs are the same in all of them.
Built build(const Spec& s, int style = 0);

// ---- recorded solves ---------------------------------------------------------
struct Call {
  int iteration = 0;
  int64_t t_ns = 0;
  uint64_t reads = 0;  // clock reads made so far in this solve
  std::vector<double> x, s, y, z;
  bool full = false;
  SpVec g;
  SpMat H, A_e, A_i;
};
struct Trace {
  std::vector<Call> calls;
  int status = 99;
  bool threw = false;
  std::string what;
  std::vector<double> final_x;
  int64_t t_end = 0;
};
inline const char* status_name(int s) {
  switch (s) {
    case 0: return "SUCCESS";
    case 1: return "CALLBACK_REQUESTED_STOP";
    case -1: return "TOO_FEW_DOFS";
    case -2: return "LOCALLY_INFEASIBLE";
    case -3: return "GLOBALLY_INFEASIBLE";
    case -4: return "FACTORIZATION_FAILED";
    case -5: return "LINE_SEARCH_FAILED";
    case -6: return "FEASIBILITY_RESTORATION_FAILED";
    case -7: return "NONFINITE_INITIAL_GUESS";
    case -8: return "DIVERGING_ITERATES";
    case -9: return "MAX_ITERATIONS_EXCEEDED";
    case -10: return "TIMEOUT";
  }
  return "?";
}
constexpr int ST_SUCCESS = 0, ST_STOP = 1, ST_DOFS = -1, ST_LOCAL = -2, ST_GLOBAL = -3, ST_FACT = -4, ST_LS = -5,
              ST_REST = -6, ST_NONFINITE = -7, ST_DIVERGE = -8, ST_MAXIT = -9, ST_TIMEOUT = -10;

Call snapshot(const Info& i, bool full);
/// Solves with a recording callback.  hook(k, info) runs after recording call
/// k; returning true requests a stop.
using Hook = std::function<bool(int, const Info&)>;
Trace traced_solve(Built& b, const slp::Options& o, const Hook& hook = {}, bool full = false, bool spy = false);

/// Bitwise comparison of the first k calls; returns "" or a description.
std::string diff_calls(const Trace& a, const Trace& b, size_t k, bool full);
bool same_bits(double a, double b);
bool same_bits(const std::vector<double>& a, const std::vector<double>& b);
bool same_sparse(const SpMat& a, const SpMat& b);
void log_trace(const Trace& t);
std::string vec_str(const std::vector<double>& v);
std::vector<double> to_std(const Eigen::Ref<const VecX>& v);
/// True when call i of the trace was made inside feasibility restoration.
bool in_restoration(const Trace& t, size_t i, int n);
/// Structural signature of a solve: length, status, where restoration struck.
uint64_t shape(const Trace& t, int n);

// ---- problems stated through user functions ------------------------------------
enum class Eval : int { F, G, H, HC, CE, AE, CI, AI };
extern const char* const eval_names[8];

/// Solves a Spec through the newton()/sqp()/interior_point() entry points with
/// user-supplied functions evaluated by the reference model.
struct Direct {
  const Spec* spec;
  /// Called before each evaluation with its global index; may throw, stall.
  std::function<void(Eval, int, const std::vector<double>&)> before;
  /// May modify the value(s) about to be returned.
  std::function<void(Eval, int, const std::vector<double>&, double*, size_t)> after;
  /// Set while solving: whether value k of a derivative reaches the solver
  /// (the others aren't in its sparsity pattern).
  std::function<bool(Eval, size_t)> structural;
  int evals = 0;
  /// Scale factors, applied to the functions' values here.
  double df = 1;
  bool identity = false;      // default-constructed scaling: no vectors at all
  std::vector<double> de, di;  // empty: ones
  std::vector<bool> mask;      // bound constraints (builds with bound projection); empty: none
};
enum class Solver { NEWTON, SQP, IP };
struct DirectTrace : Trace {
  std::vector<double> s, y, z;
  double mu = 0;
  int iterations = 0;
  bool has_duals = false;
};
/// with_duals: use the overloads that return multipliers (SQP, IP).
DirectTrace direct_solve(Direct& d, Solver which, const slp::Options& o, std::vector<double> x, const Hook& hook = {},
                         bool full = false, bool with_duals = false);
Solver natural_solver(const Spec& s);

}  // namespace sim
