#include "oracle.hpp"
namespace scene {
using namespace bezier_com_traj;

static std::vector<GridPt> active(const Scene& s, const Mode& m) {
  return m.kind == Mode::STEP ? activeStep(s.Ts, m.step) : activeFixed(s.Ts, m.points);
}
RefSys reference(const Scene& s, const Mode& m, bool margin) {
  RefSys r;
  r.c = makeCurve(s.p, s.T());
  const double h = margin ? s.p.constraints_.reduce_h_ : 0.;
  Sys sys;
  if (m.kind == Mode::CONT) {
    r.wdegree = (int)computeWwaypoints(s.p, s.T()).size() - 1;
    sys = sysContinuous(s.p, s.cones, s.Ts, r.wdegree, r.c, h);
  } else
    sys = sysSampled(s.p, s.cones, s.Ts, active(s, m), r.c, h);
  Sys kept;
  for (auto& q : sys) {
    if (q.a.norm() < 1e-9) {
      if (q.b < -1e-6 * q.scale) r.contradiction = true;
      else if (q.b < 1e-6 * q.scale) r.borderline = true;
    } else
      kept.push_back(q);
  }
  toMat(kept, r.A, r.b, true, 0);
  return r;
}
bool strictlyFeasible(const RefSys& r, double slack, const Eigen::Vector3d& guess, Eigen::Vector3d& x) {
  if (r.contradiction || r.borderline) return false;
  if (r.A.rows() == 0) {
    x = guess;
    return true;
  }
  Eigen::VectorXd y, bt = r.b.array() - 1.01 * slack;
  if (!project(r.A, bt, guess, y)) return false;
  x = y;
  return (r.A * y - r.b).maxCoeff() <= -slack && x.norm() < 1e4;
}
bool strictlyInfeasible(const RefSys& r, double relax) {
  if (r.contradiction) return true;
  if (r.A.rows() == 0) return false;
  const int n = (int)r.A.cols(), m = (int)r.A.rows();
  Eigen::VectorXd b = r.b.array() + relax;
  // Farkas: y >= 0, A'y = 0, b'y = -1
  Eigen::MatrixXd E(n + 1, m);
  E.topRows(n) = r.A.transpose();
  E.row(n) = b.transpose();
  Eigen::VectorXd f = Eigen::VectorXd::Zero(n + 1), y;
  f(n) = -1;
  double rn;
  nnls(E, f, y, rn);
  return b.dot(y) + (r.A.transpose() * y).norm() * 1e4 < -0.5;
}
Cost costOf(const Scene& s, const Mode& m, const Curve& c) {
  std::vector<GridPt> grid = m.kind == Mode::STEP ? gridStep(s.Ts, m.step) : gridFixed(s.Ts, m.kind == Mode::CONT ? 7 : m.points);
  return ref::costOf(s.p, s.Ts, grid, c);
}
void squeeze(pbt::Ctx& c, Scene& s, const Mode& m, const Eigen::Vector3d& x, double slack) {
  pbt::Src& r = c.s;
  Curve cv = makeCurve(s.p, s.T());
  const int nph = (int)s.Ts.size();
  std::vector<std::vector<Eigen::Vector3d> > pos((size_t)nph);
  double acc = 0;
  std::vector<V3> xs(1, L(x));
  if (m.kind == Mode::CONT) {
    ld t = 0;
    for (int i = 0; i < nph; ++i) {
      ld u0 = t / cv.T, u1 = i + 1 == nph ? (ld)1 : (t + (ld)s.Ts[i]) / cv.T;
      t += s.Ts[i];
      for (auto& q : affCP(cv, 0, u0, u1)) pos[(size_t)i].push_back(D(q.s) + (double)q.f[0] * x);
      for (auto& q : affCP(cv, 2, u0, u1)) acc = std::max(acc, (D(q.s) + (double)q.f[0] * x).cwiseAbs().maxCoeff());
    }
  } else
    for (auto& g : active(s, m)) {
      ld u = std::min((ld)1, (ld)g.t / cv.T);
      pos[(size_t)g.phase].push_back(D(cv.value(u, 0, xs)));
      acc = std::max(acc, D(cv.value(u, 2, xs)).cwiseAbs().maxCoeff());
    }
  for (int i = 0; i < nph; ++i) {
    if (!r.chance(2, 3)) continue;
    int rows = r.range(1, 8);
    ContactData& cd = s.p.contacts_[(size_t)i];
    cd.Kin_ = bezier_com_traj::MatrixX3::Zero(rows, 3);
    cd.kin_ = VectorX::Zero(rows);
    for (int k = 0; k < rows; ++k) {
      Eigen::Vector3d d = dir(r);
      if (r.chance(1, 2)) {  // axis aligned
        int a = (int)r.choice(3);
        d = r.chance(1, 2) ? -Eigen::Vector3d::Unit(a) : Eigen::Vector3d(Eigen::Vector3d::Unit(a));
      }
      double f = r.chance(1, 3) ? r.logreal(0.1, 20) : 1, mx = -1e300;
      for (auto& p : pos[(size_t)i]) mx = std::max(mx, d.dot(p));
      cd.Kin_.row(k) = f * d.transpose();
      cd.kin_(k) = f * (mx + slack * (r.chance(1, 2) ? 1 : r.real(1, 20)));
    }
  }
  s.p.constraints_.constraintAcceleration_ = r.chance(1, 2);
  s.p.constraints_.maxAcceleration_ = s.p.constraints_.constraintAcceleration_ ? acc + slack * 2 : (r.chance(1, 2) ? acc * 0.3 + 1e-3 : 10.);
}
}  // namespace scene
