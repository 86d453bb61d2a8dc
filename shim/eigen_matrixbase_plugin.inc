EIGEN_DEVICE_FUNC auto cwiseSquare() const { return this->array().square().matrix(); }
EIGEN_DEVICE_FUNC auto cwiseGreater(const Scalar& s) const { return this->array() > s; }
EIGEN_DEVICE_FUNC auto cwiseGreaterOrEqual(const Scalar& s) const { return this->array() >= s; }
EIGEN_DEVICE_FUNC auto cwiseLess(const Scalar& s) const { return this->array() < s; }
EIGEN_DEVICE_FUNC auto cwiseLessOrEqual(const Scalar& s) const { return this->array() <= s; }
