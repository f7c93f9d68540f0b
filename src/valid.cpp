#include "valid.hpp"
namespace scene {
using namespace bezier_com_traj;

double wrenchGain(const Curve& c, const Eigen::Vector3d& g, double u0, double u1, int degree) {
  double r = 1;
  if (degree < 0) {
    AffW w = wrenchAt(c, L(g), u0);
    return std::max(r, (double)w.A.norm());
  }
  for (auto& w : wrenchCP(c, L(g), u0, u1, degree)) r = std::max(r, (double)w.A.norm());
  return r;
}
void checkWrench(const Scene& s, int phase, const Eigen::Matrix<double, 6, 1>& w, double margin, double tol,
                 const std::string& what) {
  const Cone& k = s.cones[(size_t)phase];
  Eigen::VectorXd v = k.Hn * w;
  double sc = 1 + w.cwiseAbs().maxCoeff();
  for (int i = 0; i < v.size(); ++i)
    PBT_CHECK(v(i) >= margin - tol - 1e-9 * sc, what << ", phase " << phase << ": wrench " << w.transpose()
                                              << " leaves the friction cone: row " << i << " gives " << v(i)
                                              << " instead of at least " << margin << " (tolerance " << tol << ")");
}
void checkForces(const Scene& s, int phase, const Eigen::Matrix<double, 6, 1>& w, double tol,
                 const std::string& what) {
  const Cone& k = s.cones[(size_t)phase];
  Eigen::VectorXd y;
  double rn;
  nnls(k.G, k.mass * w, y, rn);
  rn /= k.mass;
  double sc = 1 + w.cwiseAbs().maxCoeff();
  PBT_CHECK(rn <= tol + 1e-9 * sc, what << ", phase " << phase << ": wrench " << w.transpose()
                                    << " cannot be produced by contact forces, distance " << rn << " (tolerance " << tol << ")");
}
void checkKin(const Scene& s, int phase, const Eigen::Vector3d& c, double tol, const std::string& what) {
  const ContactData& cd = s.p.contacts_[(size_t)phase];
  for (int i = 0; i < cd.kin_.size(); ++i) {
    double v = cd.Kin_.row(i).dot(c) - cd.kin_(i);
    double n = cd.Kin_.row(i).norm();
    PBT_CHECK(v <= tol * std::max(1., n) + 1e-9 * (n * (1 + c.norm()) + std::fabs(cd.kin_(i))),
              what << ", phase " << phase << ": COM " << c.transpose() << " violates kinematic row " << i << " by " << v << " (tolerance " << tol << ")");
  }
}
void checkAcc(const Scene& s, const Eigen::Vector3d& a, double tol, const std::string& what) {
  if (!s.p.constraints_.constraintAcceleration_) return;
  double m = s.p.constraints_.maxAcceleration_;
  for (int d = 0; d < 3; ++d)
    PBT_CHECK(std::fabs(a(d)) <= m + tol + 1e-9 * (1 + m), what << ": acceleration " << a.transpose() << " exceeds the bound " << m << " (tolerance " << tol << ")");
}
}  // namespace scene

