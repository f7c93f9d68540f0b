#include "scene.hpp"
using namespace scene;
using namespace bezier_com_traj;

static void check(pbt::Ctx& c) {
  Scene s;
  Opt o;
  o.share = true;
  o.easy = !c.s.chance(1, 3);
  generate(c, s, o);
  int flag = pickFlag(c, s);
  pickCost(c, s);
  Mode m;
  pickMode(c, s, m, true, true, true, true);
  if (m.force) s.p.constraints_.reduce_h_ = 0;
  describe(c, s);
  c.desc << "mode " << str(m) << " points " << m.points << " step " << m.step << "\n";
  if (!build(s)) throw pbt::Discard();
  ResultDataCOMTraj r = plan(s, m);
  c.label(r.success_ ? "success" : "failure");
  if (!r.success_) return;
  c.nontrivial = true;
  PBT_CHECK(r.x.size() == 3, "solution has size " << r.x.size());
  const double T = s.T();
  Curve ref = makeCurve(s.p, T);
  PBT_CHECK(r.c_of_t_.min() == 0. && std::fabs(r.c_of_t_.max() - T) <= 1e-12 * T,
            "curve defined on [" << r.c_of_t_.min() << "," << r.c_of_t_.max() << "] instead of [0," << T << "]");
  std::vector<V3> x(1, L(r.x.head<3>()));
  double big = 1 + r.x.norm() + s.p.c0_.norm() + s.p.c1_.norm();
  // boundary values straight from the request
  const double t1 = r.c_of_t_.max();
  auto at = [&](double t, int ord) -> Eigen::Vector3d {
    return ord == 0 ? Eigen::Vector3d(r.c_of_t_(t)) : Eigen::Vector3d(r.c_of_t_.derivate(t, (size_t)ord));
  };
  const char* nm[] = {"position", "velocity", "acceleration", "jerk"};
  const int initF[] = {INIT_POS, INIT_VEL, INIT_ACC, INIT_JERK}, endF[] = {END_POS, END_VEL, END_ACC, END_JERK};
  const Eigen::Vector3d init[] = {s.p.c0_, s.p.dc0_, s.p.ddc0_, s.p.j0_}, end[] = {s.p.c1_, s.p.dc1_, s.p.ddc1_, s.p.j1_};
  int n = ref.n;
  for (int k = 0; k < 4; ++k) {
    double amp = 1;
    for (int i = 0; i < k; ++i) amp *= 2. * n / T;
    double tol = 1e-11 * big * amp;
    if (flag & initF[k])
      PBT_CHECK((at(0, k) - init[k]).norm() <= tol, "initial " << nm[k] << " is " << at(0, k).transpose() << " instead of " << init[k].transpose());
    if (flag & endF[k])
      PBT_CHECK((at(t1, k) - end[k]).norm() <= tol, "terminal " << nm[k] << " is " << at(t1, k).transpose() << " instead of " << end[k].transpose());
  }
  // the remaining control point is the reported solution: compare the whole curve
  for (int i = 0; i <= 12; ++i) {
    double t = i == 12 ? t1 : T * i / 12.;
    Eigen::Vector3d want = D(ref.value((ld)t / (ld)T, 0, x)), got = at(t, 0);
    PBT_CHECK((want - got).norm() <= 1e-10 * big, "curve at t=" << t << " is " << got.transpose() << " instead of "
                                                              << want.transpose() << " (solution " << r.x.transpose() << ")");
  }
  double a1 = 2. * n / T, a2 = a1 * a1;
  PBT_CHECK((r.dc1_ - at(t1, 1)).norm() <= 1e-11 * big * a1, "reported terminal velocity " << r.dc1_.transpose() << " but curve has " << at(t1, 1).transpose());
  PBT_CHECK((r.ddc1_ - at(t1, 2)).norm() <= 1e-11 * big * a2, "reported terminal acceleration " << r.ddc1_.transpose() << " but curve has " << at(t1, 2).transpose());
  Eigen::Vector3d v1 = D(ref.value(1, 1, x)), w1 = D(ref.value(1, 2, x));
  PBT_CHECK((r.dc1_ - v1).norm() <= 1e-10 * big * a1, "reported terminal velocity " << r.dc1_.transpose() << " instead of " << v1.transpose());
  PBT_CHECK((r.ddc1_ - w1).norm() <= 1e-10 * big * a2, "reported terminal acceleration " << r.ddc1_.transpose() << " instead of " << w1.transpose());
  PBT_CHECK(r.dL_of_t_.min() == 0. && std::fabs(r.dL_of_t_.max() - T) <= 1e-12 * T, "momentum variation defined on ["
            << r.dL_of_t_.min() << "," << r.dL_of_t_.max() << "]");
  for (int i = 0; i <= 4; ++i) {
    double t = r.dL_of_t_.max() * i / 4.;
    Eigen::VectorXd v = r.dL_of_t_(t);
    PBT_CHECK(v.size() == 3 && v.isZero(0), "momentum variation not zero at " << t);
  }
}

pbt::Property pbt::property() {
  return {"C01",
          "random planning problems (1 to 3 phases, 8 condition sets, 3 costs, all formulations and back ends); "
          "non-trivial: the request succeeded and its curve was compared with the reference",
          {"reference curve derived from the boundary conditions in extended precision, tolerance 1e-10 relative"},
          {{"plan", check, 6000, 60000}}};
}
