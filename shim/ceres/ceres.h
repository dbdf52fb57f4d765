// Compatibility shim used only by the verification builds.
//
// The repository targets Ceres < 2.2 (ceres::LocalParameterization & friends);
// the sandbox only has Ceres 2.2.0, which replaced them by ceres::Manifold.
// This header re-creates the four removed classes as Manifolds with the
// semantics documented in Ceres 2.1, so that the five sources the stock build
// leaves out can be compiled from the repository unchanged.
#ifndef VERIF_SHIM_CERES_CERES_H_
#define VERIF_SHIM_CERES_CERES_H_

#include_next <ceres/ceres.h>

#include <cstdlib>
#include <memory>
#include <utility>
#include <vector>

namespace ceres {

class LocalParameterization : public Manifold {
 public:
  // The trust region solver only ever needs Plus() and its Jacobian.
  bool Minus(const double*, const double*, double*) const override {
    std::abort();
  }
  bool MinusJacobian(const double*, double*) const override { std::abort(); }
};

class QuaternionParameterization : public LocalParameterization {
 public:
  int AmbientSize() const override { return 4; }
  int TangentSize() const override { return 3; }
  bool Plus(const double* x, const double* delta,
            double* x_plus_delta) const override {
    return manifold_.Plus(x, delta, x_plus_delta);
  }
  bool PlusJacobian(const double* x, double* jacobian) const override {
    return manifold_.PlusJacobian(x, jacobian);
  }

 private:
  QuaternionManifold manifold_;
};

class SubsetParameterization : public LocalParameterization {
 public:
  SubsetParameterization(int size, const std::vector<int>& constant)
      : manifold_(size, constant) {}
  int AmbientSize() const override { return manifold_.AmbientSize(); }
  int TangentSize() const override { return manifold_.TangentSize(); }
  bool Plus(const double* x, const double* delta,
            double* x_plus_delta) const override {
    return manifold_.Plus(x, delta, x_plus_delta);
  }
  bool PlusJacobian(const double* x, double* jacobian) const override {
    return manifold_.PlusJacobian(x, jacobian);
  }

 private:
  SubsetManifold manifold_;
};

template <typename Functor, int kGlobalSize, int kLocalSize>
class AutoDiffLocalParameterization : public LocalParameterization {
 public:
  AutoDiffLocalParameterization() : functor_(new Functor()) {}
  explicit AutoDiffLocalParameterization(Functor* functor)
      : functor_(functor) {}
  int AmbientSize() const override { return kGlobalSize; }
  int TangentSize() const override { return kLocalSize; }
  bool Plus(const double* x, const double* delta,
            double* x_plus_delta) const override {
    return (*functor_)(x, delta, x_plus_delta);
  }
  bool PlusJacobian(const double* x, double* jacobian) const override {
    using J = Jet<double, kLocalSize>;
    J xj[kGlobalSize];
    J dj[kLocalSize];
    J out[kGlobalSize];
    for (int i = 0; i != kGlobalSize; ++i) xj[i] = J(x[i]);
    for (int i = 0; i != kLocalSize; ++i) dj[i] = J(0., i);
    if (!(*functor_)(xj, dj, out)) return false;
    for (int i = 0; i != kGlobalSize; ++i) {
      for (int k = 0; k != kLocalSize; ++k) {
        jacobian[i * kLocalSize + k] = out[i].v[k];
      }
    }
    return true;
  }

 private:
  std::unique_ptr<Functor> functor_;
};

}  // namespace ceres

#endif  // VERIF_SHIM_CERES_CERES_H_
