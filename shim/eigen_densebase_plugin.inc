EIGEN_DEVICE_FUNC CoeffReturnType operator[](Index row, Index col) const {
  return derived()(row, col);
}
EIGEN_DEVICE_FUNC decltype(auto) operator[](Index row, Index col) {
  return derived()(row, col);
}
