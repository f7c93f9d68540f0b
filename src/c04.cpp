#include "oracle.hpp"
#include "valid.hpp"
using namespace scene;
using namespace bezier_com_traj;

static void judge(pbt::Ctx& c, const Scene& s, const Mode& m, bool mustSucceed, const Eigen::Vector3d& known) {
  ResultDataCOMTraj r = plan(s, m);
  if (r.success_) {
    c.label("success");
    PBT_CHECK(r.x.size() == 3, "a successful result carries a solution of size " << r.x.size());
    PBT_CHECK((r.x - r.x).squaredNorm() == 0, "a successful result carries the solution " << r.x.transpose());
    if (mustSucceed) c.nontrivial = true;
    return;
  }
  PBT_CHECK(r.x.size() == 0, "a failed result carries the solution " << r.x.transpose());
  if (mustSucceed)
    PBT_FAIL("the request fails although " << known.transpose() << " satisfies every constraint with slack");
  RefSys f = reference(s, m, true);
  if (f.contradiction) {
    c.label("failure, contradiction");
    c.nontrivial = true;
    return;
  }
  if (f.borderline) {
    c.label("failure, borderline");
    return;
  }
  Eigen::Vector3d x;
  for (int k = 0; k < 3; ++k) {
    Eigen::Vector3d guess = k == 0 ? Eigen::Vector3d((s.p.c0_ + s.p.c1_) / 2) : k == 1 ? s.p.c0_ : s.p.c1_;
    if (strictlyFeasible(f, 1e-5, guess, x))
      PBT_FAIL("the request fails although " << x.transpose() << " satisfies every constraint with slack "
                                             << -(f.A * x - f.b).maxCoeff());
  }
  c.nontrivial = true;
  c.label(strictlyInfeasible(f, 1e-6) ? "failure, certified infeasible" : "failure, no point found");
}
static void setup(pbt::Ctx& c, Scene& s, Mode& m, bool easy) {
  Opt o;
  o.share = true;
  o.easy = easy;
  o.manyPhases = true;
  generate(c, s, o);
  pickFlag(c, s);
  pickCost(c, s);
  pickMode(c, s, m, true, true, false, false);
}
static void random(pbt::Ctx& c) {
  Scene s;
  Mode m;
  setup(c, s, m, c.s.chance(1, 2));
  describe(c, s);
  c.desc << "mode " << str(m) << "\n";
  if (!build(s)) throw pbt::Discard();
  judge(c, s, m, false, Eigen::Vector3d::Zero());
}
static void squeezed(pbt::Ctx& c) {
  Scene s;
  Mode m;
  setup(c, s, m, true);
  for (auto& cd : s.p.contacts_) {
    cd.Kin_ = bezier_com_traj::MatrixX3::Zero(0, 3);
    cd.kin_ = VectorX::Zero(0);
  }
  s.p.constraints_.constraintAcceleration_ = false;
  if (!build(s)) throw pbt::Discard();
  // a point with room around it
  RefSys f = reference(s, m, true);
  Eigen::Vector3d x, guess = (s.p.c0_ + s.p.c1_) / 2;
  if (c.s.chance(1, 2)) guess += Eigen::Vector3d(c.s.sym(0.3), c.s.sym(0.3), c.s.sym(0.3));
  const double slack = c.s.logreal(1e-4, 1e-2);
  if (!strictlyFeasible(f, slack, guess, x)) {
    c.label("no room");
    describe(c, s);
    c.desc << "mode " << str(m) << "\n";
    judge(c, s, m, false, x);
    return;
  }
  squeeze(c, s, m, x, slack);
  RefSys q = reference(s, m, true);
  describe(c, s);
  c.desc << "mode " << str(m) << "\nfeasible " << x.transpose() << " slack " << slack << "\n";
  if (q.borderline || q.contradiction) throw pbt::Discard();  // a row without unknowns
  double v = maxViolation(q.A, q.b, x);
  if (v > -1e-5) throw pbt::Discard();
  c.label("squeezed");
  if (s.p.constraints_.constraintAcceleration_) c.label("squeezed acceleration");
  judge(c, s, m, true, x);
}

pbt::Property pbt::property() {
  return {"C04",
          "random planning problems (all condition sets, costs, sampled and continuous cone formulation), half of them squeezed around a known "
          "admissible point; non-trivial: the request failed and feasibility was decided, or it succeeded with little room by construction",
          {"a failure is wrong only if a point with slack 1e-5 on unit rows exists; friction cones as computed by hpp-centroidal-dynamics"},
          {{"random", random, 25000, 1000000}, {"squeezed", squeezed, 35000, 1500000}}};
}
