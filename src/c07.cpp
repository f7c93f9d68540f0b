#include "zero.hpp"
using namespace zero;

static void check(pbt::Ctx& c) {
  Req q;
  generate(c, q);
  if (!build(q.s)) throw pbt::Discard();
  Eigen::VectorXd x0;
  if (c.s.chance(1, 3) && inside(zero::reference(q), 1e-3, start(q), x0)) zero::squeeze(c, q, x0, c.s.logreal(1e-3, 0.1));
  zero::describe(c, q);
  ResultDataCOMTraj r = zero::solve(q);
  c.label(r.success_ ? "success" : "failure");
  if (!r.success_) return;
  c.nontrivial = true;
  const Scene& s = q.s;
  const double T = q.T, mass = s.cones[0].mass;
  PBT_CHECK(r.x.size() == (q.am ? 6 : 3), "solution of size " << r.x.size());
  Eigen::Vector3d x = r.x.head(3), xL = Eigen::Vector3d::Zero();
  if (q.am) xL = r.x.tail(3);
  c.desc << "x " << r.x.transpose() << " cost " << r.cost_ << "\n";
  const double X = 1 + x.cwiseAbs().maxCoeff() + s.p.c0_.cwiseAbs().maxCoeff(), e = 1e-8 * X;
  PBT_CHECK(r.c_of_t_.min() == 0 && std::fabs(r.c_of_t_.max() - T) <= 1e-12 * T, "curve defined on [" << r.c_of_t_.min() << ", " << r.c_of_t_.max() << "]");
  PBT_CHECK(r.dL_of_t_.min() == 0 && std::fabs(r.dL_of_t_.max() - T) <= 1e-12 * T, "momentum variation defined on [" << r.dL_of_t_.min() << ", " << r.dL_of_t_.max() << "]");
  const double Te = r.c_of_t_.max();
  auto near = [&](const Eigen::Vector3d& a, const Eigen::Vector3d& b, double tol, const char* what) {
    PBT_CHECK((a - b).cwiseAbs().maxCoeff() <= tol, what << " is " << a.transpose() << " instead of " << b.transpose());
  };
  near(r.c_of_t_(0.), s.p.c0_, e, "initial position");
  near(r.c_of_t_.derivate(0., 1), s.p.dc0_, e / T, "initial velocity");
  near(r.c_of_t_.derivate(Te, 1), Eigen::Vector3d::Zero(), e / T, "final velocity");
  near(r.c_of_t_(Te), x, e, "stopping point");
  Eigen::Vector3d integral = T / 6 * (Eigen::Vector3d(r.dL_of_t_(0.)) + 4 * Eigen::Vector3d(r.dL_of_t_(T / 2)) + Eigen::Vector3d(r.dL_of_t_(r.dL_of_t_.max())));
  double ls = 1e-8 * (1 + s.p.l0_.norm() + xL.norm());
  if (q.am) near(integral, -s.p.l0_, ls, "integral of the momentum variation");
  else
    for (int i = 0; i <= 5; ++i) near(r.dL_of_t_(std::min(T * i / 5, r.dL_of_t_.max())), Eigen::Vector3d::Zero(), 0, "momentum variation");
  // dynamics: violation allowed by the back end is 1e-7 in total on rows in newtons
  const int N = q.steps() > 0 ? q.steps() : 40;
  double tightest = 1e300;
  for (int i = 0; i <= N; ++i) {
    double t = std::min(T * i / N, Te);
    Eigen::Matrix<double, 6, 1> w = wrenchOf(r.c_of_t_(t), r.c_of_t_.derivate(t, 2), s.cones[0].g);
    w.tail<3>() += Eigen::Vector3d(r.dL_of_t_(std::min(t, r.dL_of_t_.max()))) / mass;
    tightest = std::min(tightest, (s.cones[0].Hn * w).minCoeff());
    std::ostringstream os;
    os << "t=" << t << " of " << T;
    checkWrench(s, 0, w, 0, 4e-7 / mass + 1e-9, os.str());
  }
  if (tightest < 1e-4) c.label("a stability row is active");
  checkKin(s, 0, x, 1e-6, "stopping point");
  const ContactData& cd = s.p.contacts_[0];
  if (q.am)
    for (int i = 0; i < cd.ang_.size(); ++i) {
      double v = cd.Ang_.row(i).dot(xL) - cd.ang_(i);
      PBT_CHECK(v <= 1e-6 * (1 + cd.Ang_.row(i).norm()), "angular momentum variable " << xL.transpose() << " violates angular row " << i << " by " << v);
      if (i == 0) c.label("angular inequalities");
    }
}

pbt::Property pbt::property() {
  return {"C07",
          "random zero-step capturability requests (with and without angular momentum, kinematic and angular inequalities, continuous or time step); "
          "non-trivial: the request succeeded and the returned motion was judged",
          {"friction cones as computed by hpp-centroidal-dynamics; the continuous form is sampled at 41 instants"},
          {{"stop", check, 60000, 3000000}}};
}
