// Judging a returned motion at given instants: friction cones, kinematics, acceleration bound.
#pragma once
#include "scene.hpp"
namespace scene {
// violation a back end may leave on a row of unit norm: the quadratic one accepts up to 1e-7 in all, the linear
// one 1e-7 on each row
const double rowTol = 4e-7;
// The library scales stability rows to unit gradient with respect to the free control point; this is the
// factor from there to units of wrench: at one instant (degree < 0) or over an interval of normalised time.
double wrenchGain(const Curve& c, const Eigen::Vector3d& g, double u0, double u1, int degree);
// instant check of a per-unit-mass wrench against cone rows (margin) ; throws pbt::Failure
void checkWrench(const Scene& s, int phase, const Eigen::Matrix<double, 6, 1>& w, double margin, double tol,
                 const std::string& what);
// the same against the contact-force generators: distance to the cone (forces >= 0)
void checkForces(const Scene& s, int phase, const Eigen::Matrix<double, 6, 1>& w, double tol,
                 const std::string& what);
void checkKin(const Scene& s, int phase, const Eigen::Vector3d& c, double tol, const std::string& what);
void checkAcc(const Scene& s, const Eigen::Vector3d& ddc, double tol, const std::string& what);
inline Eigen::Matrix<double, 6, 1> wrenchOf(const Eigen::Vector3d& c, const Eigen::Vector3d& ddc,
                                            const Eigen::Vector3d& g) {
  Eigen::Matrix<double, 6, 1> w;
  w.head<3>() = ddc - g;
  w.tail<3>() = c.cross(ddc - g);
  return w;
}
}  // namespace scene
