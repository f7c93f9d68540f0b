// Zero-step capturability: generator, reference constraint system, reference cost.
#pragma once
#include "oracle.hpp"
#include "valid.hpp"
namespace zero {
using namespace scene;
using namespace bezier_com_traj;
struct Req {
  Scene s;
  double T = 1, step = -1;
  bool am = false;
  int steps() const { return step > 0 ? (int)(T / step) : -1; }
};
inline void generate(pbt::Ctx& c, Req& q) {
  pbt::Src& r = c.s;
  Opt o;
  o.maxPhases = 1;
  o.acc = false;
  o.easy = r.chance(1, 2);
  scene::generate(c, q.s, o);
  Scene& s = q.s;
  q.T = r.chance(1, 2) ? r.real(0.2, 2.5) : (r.chance(1, 2) ? 0.8 : 1.);
  bool pace = r.chance(1, 8);
  if (pace) q.T = r.logreal(0.05, 8);
  s.Ts[0] = q.T;
  double vm = r.chance(1, 2) ? 0.1 : 0.6;
  s.p.dc0_ = r.chance(1, 8) ? Eigen::Vector3d(0, 0, 0) : Eigen::Vector3d(r.sym(vm), r.sym(vm), r.sym(0.5 * vm));
  if (pace && q.T < 0.5) s.p.dc0_ *= q.T;
  // a stop without change of height keeps the problem feasible often enough
  q.am = r.chance(1, 2);
  s.p.useAngularMomentum_ = q.am;
  s.p.l0_.setZero();
  if (r.chance(4, 5)) {
    double lm = r.chance(1, 2) ? 1 : 8;
    s.p.l0_ = Eigen::Vector3d(r.sym(lm), r.sym(lm), r.sym(lm));
  }
  ContactData& cd = s.p.contacts_[0];
  if (r.chance(1, 2)) polytope(r, s.p.c0_ + Eigen::Vector3d(r.sym(0.1), r.sym(0.1), r.sym(0.05)), 0.02, 0.4, cd.Kin_, cd.kin_);
  if (r.chance(1, 2)) polytope(r, Eigen::Vector3d(r.sym(1), r.sym(1), r.sym(1)), 0.2, 4, cd.Ang_, cd.ang_);
  if (r.chance(1, 2)) {
    int n = r.range(1, 12);
    q.step = r.chance(1, 2) ? q.T / (n + r.real(0.1, 0.9)) : r.real(std::min(0.03, 0.1 * q.T), 0.6 * q.T);
  } else if (r.chance(1, 4))
    q.step = q.T * r.real(1.01, 3);  // longer than the motion: continuous
  // the number of steps must not depend on rounding
  if (q.step > 0 && std::fabs(q.T / q.step - std::round(q.T / q.step)) < 1e-6) q.step *= 0.999;
  c.label(q.am ? "angular momentum" : "no angular momentum");
  c.label(q.steps() > 0 ? "time step" : "continuous");
}
inline void describe(pbt::Ctx& c, const Req& q) {
  scene::describe(c, q.s);
  c.desc << "T " << q.T << " step " << q.step << " l0 " << q.s.p.l0_.transpose() << " angular momentum " << q.am << "; angular rows";
  const ContactData& cd = q.s.p.contacts_[0];
  for (int i = 0; i < cd.ang_.size(); ++i) c.desc << " [" << cd.Ang_.row(i) << " <= " << cd.ang_(i) << "]";
  c.desc << "\n";
}
inline ResultDataCOMTraj solve(const Req& q) {
  std::vector<double> Ts(1, q.T);
  return solve0step(q.s.p, Ts, q.step);
}
// momentum variation: quadratic Bezier 1/T [3 (xL - l0), -3 xL, 0]; coefficient of xL and of l0
inline void dL(ld T, ld u, ld& fx, ld& fl) {
  ld b0 = (1 - u) * (1 - u), b1 = 2 * u * (1 - u);
  fx = (3 * b0 - 3 * b1) / T;
  fl = -3 * b0 / T;
}
struct Sys {
  Eigen::MatrixXd A;
  Eigen::VectorXd b;
  int n = 3;
};
// rows on unit norm; a wrench mass w + [0; dL] is admissible iff Hn (...) >= 0
inline Sys reference(const Req& q) {
  Sys r;
  r.n = q.am ? 6 : 3;
  const Scene& s = q.s;
  ProblemData p = s.p;
  Bc bc = bcOf(p);
  bc.dc1.setZero();
  Curve cv = makeCurve(INIT_POS | INIT_VEL | END_VEL, bc, q.T);
  const Cone& k = s.cones[0];
  std::vector<AffW> ws;
  std::vector<std::pair<ld, ld> > ls;
  V3 g = L(k.g);
  const int N = q.steps();
  if (N > 0) {
    for (int i = 0; i <= N; ++i) {
      ws.push_back(wrenchAt(cv, g, (ld)i / N));
      std::pair<ld, ld> l;
      dL(q.T, (ld)i / N, l.first, l.second);
      ls.push_back(l);
    }
  } else {
    ws = wrenchCP(cv, g, 0, 1, 4);
    // degree elevation 2 -> 4 of [3(xL-l0), -3xL, 0]/T by interpolation: monomials in u
    Poly fx, fl;
    fx = {(ld)3 / q.T, (ld)-12 / q.T, (ld)9 / q.T};   // 3(1-u)^2 - 6u(1-u)
    fl = {(ld)-3 / q.T, (ld)6 / q.T, (ld)-3 / q.T};   // -3(1-u)^2
    auto bx = pbern(fx, 4), bl = pbern(fl, 4);
    for (int i = 0; i <= 4; ++i) ls.push_back({bx[(size_t)i], bl[(size_t)i]});
  }
  std::vector<Eigen::VectorXd> rows;
  std::vector<double> rhs;
  for (size_t i = 0; i < ws.size(); ++i) {
    Eigen::MatrixXd M = Eigen::MatrixXd::Zero(6, r.n);
    M.leftCols(3) = k.mass * ws[i].A.cast<double>();
    Eigen::VectorXd v = ws[i].b.cast<double>();
    v.head<3>() -= k.g;
    v *= k.mass;
    if (q.am) {
      M.block(3, 3, 3, 3) = (double)ls[i].first * Eigen::Matrix3d::Identity();
      v.tail<3>() += (double)ls[i].second * s.p.l0_;
    }
    Eigen::MatrixXd RA = -k.Hn * M;
    Eigen::VectorXd rb = k.Hn * v;
    for (int j = 0; j < RA.rows(); ++j) {
      rows.push_back(RA.row(j).transpose());
      rhs.push_back(rb(j));
    }
  }
  const ContactData& cd = s.p.contacts_[0];
  for (int i = 0; i < cd.kin_.size(); ++i) {
    Eigen::VectorXd a = Eigen::VectorXd::Zero(r.n);
    a.head(3) = cd.Kin_.row(i).transpose();
    rows.push_back(a);
    rhs.push_back(cd.kin_(i));
  }
  if (q.am)
    for (int i = 0; i < cd.ang_.size(); ++i) {
      Eigen::VectorXd a = Eigen::VectorXd::Zero(r.n);
      a.tail(3) = cd.Ang_.row(i).transpose();
      rows.push_back(a);
      rhs.push_back(cd.ang_(i));
    }
  r.A.resize((int)rows.size(), r.n);
  r.b.resize((int)rows.size());
  for (size_t i = 0; i < rows.size(); ++i) {
    double nn = rows[i].norm();
    if (nn < 1e-9) nn = 1;
    r.A.row((int)i) = rows[i].transpose() / nn;
    r.b((int)i) = rhs[i] / nn;
  }
  return r;
}
inline Eigen::VectorXd start(const Req& q) {
  Eigen::VectorXd v(q.am ? 6 : 3);
  v.head(3) = q.s.p.c0_ + q.s.p.dc0_ * q.T / 3;
  if (q.am) v.tail(3) = 0.75 * q.s.p.l0_;
  return v;
}
inline bool inside(const Sys& r, double slack, const Eigen::VectorXd& guess, Eigen::VectorXd& x) {
  Eigen::VectorXd bt = r.b.array() - 1.01 * slack;
  if (!project(r.A, bt, guess, x)) return false;
  return maxViolation(r.A, r.b, x) <= -slack && x.norm() < 1e4;
}
// new kinematic and angular inequalities that hold at x with the given slack
inline void squeeze(pbt::Ctx& c, Req& q, const Eigen::VectorXd& x, double slack) {
  pbt::Src& r = c.s;
  ContactData& cd = q.s.p.contacts_[0];
  for (int k = 0; k < 2; ++k) {
    if (k == 1 && !q.am) break;
    if (!r.chance(2, 3)) continue;
    int m = r.range(1, 8);
    bezier_com_traj::MatrixX3 K = bezier_com_traj::MatrixX3::Zero(m, 3);
    VectorX b = VectorX::Zero(m);
    Eigen::Vector3d y = k ? x.tail(3) : x.head(3);
    for (int i = 0; i < m; ++i) {
      Eigen::Vector3d d = dir(r);
      double f = r.chance(1, 3) ? r.logreal(0.1, 20) : 1;
      K.row(i) = f * d.transpose();
      b(i) = f * (d.dot(y) + slack * (r.chance(1, 2) ? 1 : r.real(1, 10)));
    }
    (k ? cd.Ang_ : cd.Kin_) = K;
    (k ? cd.ang_ : cd.kin_) = b;
  }
}
}  // namespace zero
