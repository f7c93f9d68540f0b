#include <hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh>
#include "scene.hpp"
using namespace scene;
using namespace bezier_com_traj;
namespace cd = centroidal_dynamics;

// Contact phases only supply gravity here.
static cd::Equilibrium* phase() {
  static cd::Equilibrium* e = new cd::Equilibrium("g", 50., 4, cd::SOLVER_LP_QPOASES, false, 10, false);
  return e;
}
static Eigen::Vector3d rv(pbt::Src& s, double m) {
  if (s.chance(1, 8)) return Eigen::Vector3d::Zero();
  return Eigen::Vector3d(s.sym(m), s.sym(m), s.sym(m));
}
// value of a Bezier curve with affine control points, by de Casteljau
static void casteljau(const std::vector<waypoint_t>& w, ld u, const Eigen::VectorXd& x, Eigen::Matrix<ld, Eigen::Dynamic, 1>& out) {
  std::vector<Eigen::Matrix<ld, Eigen::Dynamic, 1> > p;
  for (auto& q : w) p.push_back((q.first * x + q.second).cast<ld>());
  for (size_t k = p.size() - 1; k > 0; --k)
    for (size_t i = 0; i < k; ++i) p[i] = (1 - u) * p[i] + u * p[i + 1];
  out = p[0];
}

static void check(pbt::Ctx& c) {
  Scene s;
  pbt::Src& r = c.s;
  double L0 = r.logreal(0.1, 10);
  ProblemData& p = s.p;
  p.contacts_.push_back(ContactData());
  const FlagInfo& fi = flags()[(size_t)r.choice(8)];
  p.constraints_.flag_ = (ConstraintFlag)fi.flag;
  const double T = r.chance(1, 4) ? 1. : r.logreal(0.1, 10);
  p.c0_ = rv(r, L0);
  p.dc0_ = rv(r, L0 / T * 2);
  p.ddc0_ = rv(r, L0 / T / T * 4);
  p.j0_ = rv(r, L0 / T / T / T * 8);
  p.c1_ = rv(r, L0);
  p.dc1_ = rv(r, L0 / T * 2);
  p.ddc1_ = rv(r, L0 / T / T * 4);
  p.j1_ = rv(r, L0 / T / T / T * 8);
  p.l0_.setZero();
  if ((fi.flag & END_VEL) && !(fi.flag & END_POS)) p.dc1_.setZero();
  p.contacts_[0].contactPhase_ = phase();
  const Eigen::Vector3d g = phase()->m_gravity;
  Eigen::Vector3d x = rv(r, L0 * 2);
  c.label(fi.name);
  c.desc << "set " << fi.name << " T " << T << " c0 " << p.c0_.transpose() << " dc0 " << p.dc0_.transpose() << " ddc0 " << p.ddc0_.transpose()
         << " j0 " << p.j0_.transpose() << " c1 " << p.c1_.transpose() << " dc1 " << p.dc1_.transpose() << " ddc1 " << p.ddc1_.transpose()
         << " j1 " << p.j1_.transpose() << " g " << g.transpose() << " x " << x.transpose() << "\n";
  c.nontrivial = true;
  Curve ref = makeCurve(p, T);
  const int n = ref.n;
  double P = 1e-12 + x.norm();
  for (auto& q : ref.cp) P = std::max(P, (double)q.s.norm());
  const double A = 4. * n * n * P / T / T;
  const double eps = 1e-9, epsJ = 2e-7;  // coefficients of the jerk constrained set are printed with 8 digits
  const bool deg8 = n >= 8;
  std::vector<V3> xs(1, L(x));
  // control points
  std::vector<point_t> pi = computeConstantWaypoints(p, T);
  PBT_CHECK((int)pi.size() == n + 1, pi.size() << " control points instead of " << n + 1);
  bezier_wp_t::t_point_t sy = computeConstantWaypointsSymbolic(p, T);
  PBT_CHECK((int)sy.size() == n + 1, sy.size() << " symbolic control points instead of " << n + 1);
  for (int i = 0; i <= n; ++i) {
    Eigen::Vector3d want = D(ref.cp[(size_t)i].s) + (double)ref.cp[(size_t)i].f[0] * x;
    PBT_CHECK(sy[(size_t)i].first.rows() == 3 && sy[(size_t)i].first.cols() == 3 && sy[(size_t)i].second.size() == 3, "symbolic control point " << i << " has the wrong size");
    Eigen::Vector3d got = sy[(size_t)i].first * x + sy[(size_t)i].second;
    PBT_CHECK((want - got).norm() <= eps * P, "symbolic control point " << i << " is " << got.transpose() << " instead of " << want.transpose());
    if (ref.cp[(size_t)i].f[0] == 0)
      PBT_CHECK((pi[(size_t)i] - want).norm() <= eps * P, "control point " << i << " is " << pi[(size_t)i].transpose() << " instead of " << want.transpose());
  }
  // wrench control points
  std::vector<waypoint_t> w;
  for (auto& q : computeWwaypoints(p, T)) w.push_back(q);
  PBT_CHECK(!w.empty(), "no wrench control points");
  for (auto& q : w) PBT_CHECK(q.first.rows() == 6 && q.first.cols() == 3 && q.second.size() == 6, "wrench control point has the wrong size");
  std::vector<double> us = {0., 1., 0.5};
  for (int i = 0; i < 4; ++i) us.push_back(r.unit());
  for (double u : us) {
    coefs_t q = evaluateCurveAtTime(p, pi, u);
    Eigen::Vector3d got = q.first * x + q.second, want = D(ref.value(u, 0, xs));
    PBT_CHECK((got - want).norm() <= (deg8 ? 1e-8 : eps) * P, "point at u=" << u << " is " << got.transpose() << " instead of " << want.transpose());
    q = evaluateAccelerationCurveAtTime(p, pi, T, u);
    got = q.first * x + q.second;
    want = D(ref.value(u, 2, xs));
    PBT_CHECK((got - want).norm() <= (deg8 ? 1e-8 : eps) * A, "acceleration at u=" << u << " is " << got.transpose() << " instead of " << want.transpose());
    AffW a = wrenchAt(ref, L(g), u);
    V6 wa = a.A * L(x) + a.b;
    Eigen::Matrix<ld, Eigen::Dynamic, 1> wb;
    casteljau(w, u, x, wb);
    double e = (double)(wa - wb).head<3>().norm() / A, f = (double)(wa - wb).tail<3>().norm() / (P * (A + g.norm()));
    double te = deg8 ? epsJ : eps;
    PBT_CHECK(e <= te && f <= te, "wrench at u=" << u << " is " << wb.transpose() << " instead of " << wa.transpose() << " (errors " << e << " " << f << ")");
  }
  // terminal velocity
  AffPt v = ref.at(1, 1);
  coefs_t q = deg8 ? c0_dc0_ddc0_j0_j1_ddc1_dc1_c1::computeFinalVelocityPoint(p, T) : computeFinalVelocityPoint(p, T);
  Eigen::Vector3d got = q.first * x + q.second, want = D(v.s) + (double)v.f[0] * x;
  PBT_CHECK((got - want).norm() <= eps * 2 * n * P / T, "terminal velocity is " << got.transpose() << " instead of " << want.transpose());
  // discretised expressions
  VectorX Ts(2);
  Ts << T * 0.4, T - T * 0.4;
  T_time grid = computeDiscretizedTimeFixed(Ts, (unsigned)r.range(1, 4));
  auto dp = computeDiscretizedWaypoints<point_t>(p, T, grid);
  auto da = computeDiscretizedAccelerationWaypoints<point_t>(p, T, grid);
  PBT_CHECK(dp.size() == grid.size() && da.size() == grid.size(), "discretised expressions: " << dp.size() << ", " << da.size() << " for " << grid.size() << " instants");
  for (size_t i = 0; i < grid.size(); ++i) {
    ld u = std::min((ld)1, (ld)grid[i].first / T);
    Eigen::Vector3d g0 = dp[i].first * x + dp[i].second, w0 = D(ref.value(u, 0, xs));
    PBT_CHECK((g0 - w0).norm() <= 1e-8 * P, "discretised point at t=" << grid[i].first << " is " << g0.transpose() << " instead of " << w0.transpose());
    g0 = da[i].first * x + da[i].second;
    w0 = D(ref.value(u, 2, xs));
    PBT_CHECK((g0 - w0).norm() <= 1e-8 * A, "discretised acceleration at t=" << grid[i].first << " is " << g0.transpose() << " instead of " << w0.transpose());
  }
}

pbt::Property pbt::property() {
  return {"C09",
          "random boundary data, durations and free points for the eight COM condition sets; every case counts: symbolic "
          "points, accelerations, terminal velocity and wrench control points are compared with the reference curve at 7 times",
          {"reference curve derived from the boundary conditions in extended precision; tolerance 1e-9 relative (2e-7 for the printed decimal coefficients of the jerk constrained set)"},
          {{"expressions", check, 400000, 12000000}}};
}
