// Small helpers of the demonstrations (they use nothing of the verification machinery).
#pragma once
#include <hpp/bezier-com-traj/common_solve_methods.hh>
#include <hpp/bezier-com-traj/cost/costfunction_definition.hh>
#include <hpp/bezier-com-traj/data.hh>
#include <hpp/bezier-com-traj/solve.hh>
#include <hpp/bezier-com-traj/solver/eiquadprog-fast.hpp>
#include <hpp/bezier-com-traj/solver/solver-abstract.hpp>
#include <hpp/bezier-com-traj/utils.hh>
#include <hpp/bezier-com-traj/waypoints/waypoints_definition.hh>
#include <hpp/centroidal-dynamics/centroidal_dynamics.hh>

#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <string>
#include <vector>

namespace demo {
using namespace bezier_com_traj;
typedef Eigen::Vector3d V3;
namespace cdd = centroidal_dynamics;

inline void check(bool ok, const std::string& what) {
  if (ok) return;
  std::cout << "FAILED: " << what << std::endl;
  std::exit(1);
}
// rectangular horizontal support of half sizes hx, hy centred at (x, y, z)
inline cdd::Equilibrium* flat(double x, double y, double hx, double hy, double z = 0, double mass = 50, double mu = 0.5) {
  cdd::Equilibrium* e = new cdd::Equilibrium("demo", mass, 4, cdd::SOLVER_LP_QPOASES, true, 10, false);
  cdd::MatrixX3 P(4, 3), N(4, 3);
  P << x - hx, y - hy, z, x - hx, y + hy, z, x + hx, y - hy, z, x + hx, y + hy, z;
  N << 0, 0, 1, 0, 0, 1, 0, 0, 1, 0, 0, 1;
  check(e->setNewContacts(P, N, mu, cdd::EQUILIBRIUM_ALGORITHM_PP), "contacts");
  return e;
}
// box lo <= c <= hi
inline void box(ContactData& c, const V3& lo, const V3& hi) {
  c.Kin_ = Eigen::MatrixXd::Zero(6, 3);
  c.kin_ = Eigen::VectorXd::Zero(6);
  c.Kin_.topRows(3) = Eigen::Matrix3d::Identity();
  c.Kin_.bottomRows(3) = -Eigen::Matrix3d::Identity();
  c.kin_.head(3) = hi;
  c.kin_.tail(3) = -lo;
}
// derivative of order k of the Bezier curve of control points P over [0, T], at t
inline V3 bezier(std::vector<V3> P, double T, double t, int k) {
  for (; k > 0; --k) {
    double n = double(P.size()) - 1;
    std::vector<V3> D;
    for (size_t i = 0; i + 1 < P.size(); ++i) D.push_back(n / T * (P[i + 1] - P[i]));
    P = D;
  }
  double u = t / T;
  while (P.size() > 1) {
    for (size_t i = 0; i + 1 < P.size(); ++i) P[i] = (1 - u) * P[i] + u * P[i + 1];
    P.pop_back();
  }
  return P[0];
}
inline V3 at(const bezier_t& c, double t, int k = 0) {
  std::vector<V3> P;
  for (auto& w : c.waypoints()) P.push_back(w);
  return bezier(P, c.max() - c.min(), t - c.min(), k);
}
inline bool near(double a, double b, double tol) { return std::abs(a - b) <= tol; }
inline bool near(const V3& a, const V3& b, double tol) { return (a - b).lpNorm<Eigen::Infinity>() <= tol; }
}  // namespace demo
