#include "valid.hpp"
using namespace scene;
using namespace bezier_com_traj;

static void check(pbt::Ctx& c) {
  Scene s;
  Opt o;
  o.share = true;
  o.easy = !c.s.chance(1, 3);
  o.manyPhases = true;
  generate(c, s, o);
  pickFlag(c, s);
  pickCost(c, s);
  Mode m;
  pickMode(c, s, m, false, true, true, true);
  describe(c, s);
  c.desc << "mode " << str(m) << "\n";
  if (!build(s)) throw pbt::Discard();
  ResultDataCOMTraj r = plan(s, m);
  c.label(r.success_ ? "success" : "failure");
  if (r.success_) c.desc << "x " << r.x.transpose() << " cost " << r.cost_ << "\n";
  if (!r.success_) return;
  c.nontrivial = true;
  double tol = rowTol;
  if (m.force) tol = 1e-5;  // equalities of magnitude mass * gravity * offset are met to about 1e-7 relative by both back ends
  double h = s.p.constraints_.reduce_h_;
  double margin = !m.force && h > 0 ? h : 0;
  double closest = 1e300;
  double t0 = 0;
  Curve ref = makeCurve(s.p, s.T());
  for (int ph = 0; ph < s.Ts.size(); ++ph) {
    const double gain = wrenchGain(ref, s.cones[0].g, t0 / s.T(), std::min(1., (t0 + s.Ts[ph]) / s.T()), 2 * ref.n - 2);
    const int N = 24;
    for (int i = 0; i <= N; ++i) {
      double t = std::min(t0 + s.Ts[ph] * i / N, r.c_of_t_.max());
      Eigen::Vector3d p = r.c_of_t_(t), a = r.c_of_t_.derivate(t, 2);
      std::ostringstream os;
      os << "t=" << t << " of " << s.T();
      Eigen::Matrix<double, 6, 1> w = wrenchOf(p, a, s.cones[0].g);
      closest = std::min(closest, (s.cones[(size_t)ph].Hn * w).minCoeff() - margin);
      // each formulation is judged with its own description of the cones (inequalities, generators)
      if (!m.force) checkWrench(s, ph, w, margin, tol * gain, os.str());
      if (m.force && i % 2 == 0) checkForces(s, ph, w, tol * (1 + w.cwiseAbs().maxCoeff()), os.str());
      checkKin(s, ph, p, tol, os.str());
      checkAcc(s, a, tol * gain, os.str());
    }
    t0 += s.Ts[ph];
  }
  if (closest < 1e-4) c.label("a stability row is active");
  if (s.p.constraints_.constraintAcceleration_) c.label("acceleration bounded");
}

pbt::Property pbt::property() {
  return {"C03",
          "random planning problems in the continuous formulations (cone and contact forces, both back ends, 1 to 6 "
          "phases); non-trivial: the request succeeded and the returned curve was judged at 25 instants of every phase",
          {"friction cones as computed by hpp-centroidal-dynamics; scenes for which that library had to perturb the contacts are discarded"},
          {{"plan", check, 4000, 200000}}};
}
