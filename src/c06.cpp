#include "oracle.hpp"
#include "valid.hpp"
using namespace scene;
using namespace bezier_com_traj;

static const double SLACK = 1e-4;

static void check(pbt::Ctx& c) {
  Scene s;
  Opt o;
  o.share = true;
  o.easy = !c.s.chance(1, 4);
  o.reduceH = false;
  o.maxPoints = c.s.chance(1, 2) ? 4 : 8;
  generate(c, s, o);
  pickFlag(c, s);
  pickCost(c, s);
  Mode m;
  m.kind = Mode::CONT;
  // a margin is ignored by the force formulation; zero or negative means none in the cone formulation
  s.p.constraints_.reduce_h_ = c.s.chance(1, 3) ? -1 : 0;
  if (!build(s)) throw pbt::Discard();
  RefSys f = reference(s, m, false);
  Eigen::Vector3d x0, guess = (s.p.c0_ + s.p.c1_) / 2;
  if (c.s.chance(1, 2) && strictlyFeasible(f, 1e-3, guess, x0)) {
    squeeze(c, s, m, x0, c.s.logreal(2e-3, 3e-2));
    f = reference(s, m, false);
    c.label("squeezed");
  }
  describe(c, s);
  enum { YES, NO, CLOSE } truth = CLOSE;
  if (strictlyFeasible(f, SLACK, guess, x0)) truth = YES;
  else if (strictlyInfeasible(f, SLACK)) truth = NO;
  c.label(truth == YES ? "feasible" : truth == NO ? "infeasible" : "too close to decide");
  Cost k = costOf(s, m, f.c);
  // the linear part is bounded below on the admissible set if its negative lies in the cone of the rows
  bool bounded = true, boundedKnown = true;
  if (f.A.rows() == 0) bounded = k.g.norm() == 0;
  else {
    Eigen::VectorXd y;
    double rn;
    double gn = std::max(1e-12, k.g.norm());
    nnls(f.A.transpose(), -k.g / gn, y, rn);
    bounded = rn < 1e-9 && y.sum() < 1e4;
    boundedKnown = bounded || rn > 1e-4;
  }
  c.label(bounded ? "linear part bounded" : boundedKnown ? "linear part unbounded" : "linear part close to unbounded");
  double gain = 1, t0 = 0;
  for (int ph = 0; ph < s.Ts.size(); ++ph) {
    gain = std::max(gain, wrenchGain(f.c, s.cones[0].g, t0 / s.T(), std::min(1., (t0 + s.Ts[ph]) / s.T()), f.wdegree));
    t0 += s.Ts[ph];
  }
  const bool all = s.forceVars() <= 1200 && (truth != NO || c.s.chance(1, 4));  // the force formulation is by far the most expensive
  for (int combo = 0; combo < 4; ++combo) {
    if (!all && (combo & 1)) continue;
    m.force = combo & 1;
    m.lp = combo & 2;
    s.p.representation_ = m.force ? FORCE : DOUBLE_DESCRIPTION;
    ResultDataCOMTraj r = plan(s, m);
    const std::string who = str(m);
    if (r.success_) {
      PBT_CHECK(truth != NO, who << ": a trajectory is found (" << r.x.transpose() << ") although the reference constraints contradict each other by " << SLACK);
      if (truth != CLOSE) c.nontrivial = true;
      if (!m.lp) continue;
      Eigen::Vector3d x = r.x;
      const double X = 1 + x.cwiseAbs().maxCoeff();
      const double gs = k.g.cwiseAbs().sum();
      PBT_CHECK(std::fabs(k.g.dot(x) - r.cost_) <= 1e-7 * (1 + gs) * X, who << ": cost " << r.cost_ << " reported, the linear part of the cost is " << k.g.dot(x) << " at " << x.transpose());
      c.label(who + " solved");
      if (f.A.rows() == 0) continue;
      // admissibility on unit rows: the back ends leave a violation on the rows as given to them
      double viol = maxViolation(f.A, f.b, x), vt = m.force ? 1e-4 * X : 1e-5 * X;
      PBT_CHECK(viol <= vt, who << ": solution " << x.transpose() << " violates a constraint by " << viol);
      if (k.g.norm() < 1e-9) continue;
      // minimality: compare with an admissible point far along the descent direction (an optimal vertex)
      Eigen::VectorXd best;
      const Eigen::Vector3d d = k.g / k.g.norm();
      double lead = 1e300;
      for (double far : {10., 1e3})
        if (project(f.A, f.b, x - far * d, best) && maxViolation(f.A, f.b, best) <= 1e-8 * (1 + best.norm()))
          lead = std::min(lead, k.g.dot(best));
      if (lead == 1e300) {
        c.label("no reference minimum");
        continue;
      }
      // reduced costs below 1e-7 count as zero in the linear back end; force variables are of the order of the weight
      double tol = 1e-5 * k.g.norm() * X;
      if (m.force) tol += 1e-7 * std::max(1., k.g.cwiseAbs().maxCoeff()) * s.mass * std::max(1., s.load) * 40 * (f.wdegree + 1) * (double)s.Ts.size();
      if (tol < 1e-3 * k.g.norm() * X) c.label(who + " optimality judged");
      PBT_CHECK(k.g.dot(x) - lead <= tol, who << ": linear part " << k.g.transpose() << " is " << k.g.dot(x) << " at " << x.transpose() << " but " << lead << " at an admissible point (tolerance " << tol << ")");
    } else {
      c.label(who + " fails");
      if (truth == NO) c.nontrivial = true;
      if (m.lp && !(bounded && truth == YES)) continue;
      PBT_CHECK(truth != YES, who << ": no trajectory is found although " << x0.transpose() << " satisfies every constraint with slack " << -maxViolation(f.A, f.b, x0));
    }
  }
}

pbt::Property pbt::property() {
  return {"C06",
          "random continuous problems without margin, each planned with both formulations and both back ends; non-trivial: feasibility is decided by "
          "a point with slack 1e-4 or a Farkas certificate with gap 1e-4 and every verdict is compared with it",
          {"friction cones as computed by hpp-centroidal-dynamics; verdicts on problems closer than 1e-4 to the feasibility boundary are not judged"},
          {{"agreement", check, 4000, 200000}}};
}
