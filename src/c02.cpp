#include "valid.hpp"
using namespace scene;
using namespace bezier_com_traj;

static void check(pbt::Ctx& c) {
  Scene s;
  Opt o;
  o.share = true;
  o.easy = !c.s.chance(1, 3);
  o.manyPhases = true;
  generate(c, s, o);
  pickFlag(c, s);
  pickCost(c, s);
  Mode m;
  pickMode(c, s, m, true, false, false, true);
  describe(c, s);
  c.desc << "mode " << str(m) << " points " << m.points << " step " << m.step << "\n";
  if (!build(s)) throw pbt::Discard();
  ResultDataCOMTraj r = plan(s, m);
  c.label(r.success_ ? "success" : "failure");
  if (r.success_) c.desc << "x " << r.x.transpose() << " cost " << r.cost_ << "\n";
  if (!r.success_) return;
  c.nontrivial = true;
  std::vector<GridPt> act = m.kind == Mode::FIXED ? activeFixed(s.Ts, m.points) : activeStep(s.Ts, m.step);
  const double tol = rowTol;
  double h = s.p.constraints_.reduce_h_;
  double margin = h > 0 ? h : 0;
  double closest = 1e300;
  const double T = r.c_of_t_.max();
  Curve ref = makeCurve(s.p, T);
  for (auto& g : act) {
    double t = std::min(g.t, r.c_of_t_.max());
    Eigen::Vector3d p = r.c_of_t_(t), a = r.c_of_t_.derivate(t, 2);
    std::ostringstream os;
    os << "t=" << t << " of " << s.T();
    Eigen::Matrix<double, 6, 1> w = wrenchOf(p, a, s.cones[0].g);
    closest = std::min(closest, (s.cones[(size_t)g.phase].Hn * w).minCoeff() - margin);
    const double gain = wrenchGain(ref, s.cones[0].g, t / T, 0, -1);
    checkWrench(s, g.phase, w, margin, tol * gain, os.str());
    checkKin(s, g.phase, p, tol, os.str());
    checkAcc(s, a, tol * gain, os.str());
  }
  if (closest < 1e-4) c.label("a stability row is active");
  if (s.p.constraints_.constraintAcceleration_) c.label("acceleration bounded");
  c.count("instants", (long)act.size());
}

pbt::Property pbt::property() {
  return {"C02",
          "random planning problems in the sampled formulations (1 to 6 phases); non-trivial: the request succeeded and "
          "the returned curve was judged at every sample instant of an independently computed grid",
          {"friction cones as computed by hpp-centroidal-dynamics; scenes for which that library had to perturb the contacts are discarded",
           "tolerance 4e-7 on rows of unit norm: the back ends accept 1e-7 by design"},
          {{"plan", check, 8000, 200000}}};
}
