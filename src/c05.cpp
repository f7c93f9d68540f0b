#include "oracle.hpp"
#include "valid.hpp"
using namespace scene;
using namespace bezier_com_traj;

static void check(pbt::Ctx& c) {
  Scene s;
  Opt o;
  o.share = true;
  o.easy = !c.s.chance(1, 4);
  o.manyPhases = true;
  generate(c, s, o);
  pickFlag(c, s);
  pickCost(c, s);
  if (c.s.chance(1, 3)) {  // a target velocity or boundary data that make the unconstrained minimum remote
    s.p.dc1_ = (s.p.constraints_.flag_ & END_VEL) ? s.p.dc1_ : s.p.dc1_ + 2 * dir(c.s);
  }
  Mode m;
  pickMode(c, s, m, true, true, false, false);
  if (!build(s)) throw pbt::Discard();
  RefSys f = reference(s, m, true);
  Eigen::Vector3d x0;
  bool room = false;
  if (c.s.chance(1, 2)) {  // little room: constraints are active at the minimum
    Eigen::Vector3d guess = (s.p.c0_ + s.p.c1_) / 2;
    double slack = c.s.logreal(1e-3, 3e-2);
    if (strictlyFeasible(f, 1e-3, guess, x0)) {
      squeeze(c, s, m, x0, slack);
      f = reference(s, m, true);
      room = true;
    }
  }
  describe(c, s);
  c.desc << "mode " << str(m) << "\n";
  ResultDataCOMTraj r = plan(s, m);
  c.label(r.success_ ? room ? "success, squeezed" : "success" : "failure");
  if (!r.success_) return;
  Cost k = costOf(s, m, f.c);
  Eigen::Vector3d x = r.x;
  c.desc << "x " << x.transpose() << " cost " << r.cost_ << "\n";
  const double X = 1 + x.cwiseAbs().maxCoeff(), gs = k.k * X + k.g.cwiseAbs().maxCoeff();
  auto cost = [&](const Eigen::Vector3d& y) { return 0.5 * k.k * y.squaredNorm() + k.g.dot(y); };
  PBT_CHECK(std::fabs(cost(x) - r.cost_) <= 1e-7 * gs * X,
            "cost " << r.cost_ << " reported, half the selected cost without its constant term is " << cost(x) << " at " << x.transpose());
  if (k.k < 1e-9) {
    c.label("cost does not depend on the free control point");
    return;
  }
  Eigen::Vector3d un = -k.g / k.k;
  Eigen::VectorXd best;
  if (!project(f.A, f.b, un, best)) {
    c.label("no reference minimum");
    return;
  }
  double viol = maxViolation(f.A, f.b, best);
  if (viol > 1e-7) {
    c.label("no reference minimum");
    return;
  }
  c.nontrivial = true;
  if ((best - un).norm() > 1e-6 * X) c.label("constrained minimum");
  // distance of the returned point to the minimum, measured by the cost: k/2 |x - best|^2 <= f(x) - f(best)
  double tol = 1e-6 * gs * X;
  PBT_CHECK(cost(x) - cost(best) <= tol, "cost " << cost(x) << " at " << x.transpose() << " but " << cost(best) << " at the admissible point " << best.transpose()
                                                 << " (largest violation " << viol << ")");
}

pbt::Property pbt::property() {
  return {"C05",
          "random planning problems (sampled and continuous cone formulation, quadratic back end, three costs), half of them squeezed around an admissible "
          "point; non-trivial: the request succeeded and its cost was compared with that of an independently computed minimum",
          {"reference minimum by projection of the unconstrained minimum on the reference constraint system; tolerance 1e-6 relative to the magnitude of the cost terms"},
          {{"minimum", check, 40000, 2000000}}};
}
