// Force-included before every translation unit that compiles /repo's sources.
//
// The sandbox has Eigen 3.4.0; Sleipnir is written for a newer Eigen.  The
// members that 3.4.0 lacks are added here through Eigen's own plugin macros so
// that the unmodified sources of /repo compile.  Nothing here replaces or
// shadows code of /repo.
#pragma once
#define EIGEN_DENSEBASE_PLUGIN "eigen_densebase_plugin.inc"
#define EIGEN_MATRIXBASE_PLUGIN "eigen_matrixbase_plugin.inc"
#define EIGEN_SPARSEMATRIX_PLUGIN "eigen_sparsematrix_plugin.inc"

#include <Eigen/Core>

#ifdef SIM_POOL_HOOK
#include <cstddef>
extern "C" void sim_pool_freed(void* p, std::size_t bytes);
#define SLEIPNIR_POOL_FREED(p, bytes) ::sim_pool_freed(p, bytes)
#endif

namespace Eigen {
// Newer Eigen: product of two diagonal expressions is a diagonal expression.
template <typename A, typename B>
auto operator*(const DiagonalBase<A>& a, const DiagonalBase<B>& b) {
  using S = typename A::Scalar;
  return DiagonalMatrix<S, Dynamic>{
      Matrix<S, Dynamic, 1>{a.diagonal().cwiseProduct(b.diagonal())}};
}
}  // namespace Eigen

namespace slp {
// Eigen 3.4.0's dense decompositions compare scalars with !=, newer ones with
// == in a boolean context (which Sleipnir supports).
template <typename Scalar>
class Variable;
template <typename T>
inline constexpr bool is_variable_v = false;
template <typename S>
inline constexpr bool is_variable_v<Variable<S>> = true;
template <typename A, typename B>
  requires(is_variable_v<std::remove_cvref_t<A>> &&
           is_variable_v<std::remove_cvref_t<B>>)
bool operator!=(A&& a, B&& b) {
  std::remove_cvref_t<A> x{a};
  std::remove_cvref_t<B> y{b};
  return x.value() != y.value();
}
}  // namespace slp
