#include "zero.hpp"
using namespace zero;

static void check(pbt::Ctx& c) {
  Req q;
  generate(c, q);
  if (!build(q.s)) throw pbt::Discard();
  zero::Sys f = zero::reference(q);
  Eigen::VectorXd x0;
  bool must = false;
  if (c.s.chance(1, 2)) {
    double slack = c.s.logreal(1e-3, 0.1);
    if (inside(f, 1e-3, start(q), x0)) {
      zero::squeeze(c, q, x0, slack);
      f = zero::reference(q);
      must = maxViolation(f.A, f.b, x0) <= -1e-5;
    }
  }
  zero::describe(c, q);
  ResultDataCOMTraj r = zero::solve(q);
  if (!r.success_) {
    PBT_CHECK(r.x.size() == 0, "a failed result carries the solution " << r.x.transpose());
    Eigen::VectorXd x;
    if (must || inside(f, 1e-5, start(q), x0) || inside(f, 1e-5, Eigen::VectorXd::Zero(f.n), x0))
      PBT_FAIL("the request fails although " << x0.transpose() << " satisfies every constraint with slack " << -maxViolation(f.A, f.b, x0));
    c.label("failure");
    c.nontrivial = true;
    return;
  }
  c.label(must ? "success, squeezed" : "success");
  c.desc << "x " << r.x.transpose() << " cost " << r.cost_ << "\n";
  PBT_CHECK(r.x.size() == f.n, "solution of size " << r.x.size());
  const Eigen::Vector3d c0 = q.s.p.c0_, l0 = q.s.p.l0_;
  Eigen::VectorXd H = Eigen::VectorXd::Ones(f.n), un(f.n);
  un.head(3) = c0;
  if (q.am) {
    H.head(3).setConstant(1e-4);
    H.tail(3).setConstant(1.2);  // integral of |3(xL-l0)B0 - 3xL B1|^2 over unit time: 9/5 l0^2 - 9/5 l0 xL + 6/5 xL^2
    un.tail(3) = 0.75 * l0;
  }
  auto cost = [&](const Eigen::VectorXd& y) { return 0.5 * ((y - un).array().square() * H.array()).sum(); };
  // reported cost
  double want = (r.x.head(3) - c0).norm();
  if (q.am) {
    Eigen::Vector3d xL = r.x.tail(3);
    // Gauss-Legendre with three points integrates the quartic exactly
    want = 0;
    const double gp[3] = {-0.77459666924148337704, 0, 0.77459666924148337704}, gw[3] = {5. / 9, 8. / 9, 5. / 9};
    for (int i = 0; i < 3; ++i) {
      ld fx, fl;
      dL(1, (1 + (ld)gp[i]) / 2, fx, fl);
      want += gw[i] / 2 * ((double)fx * xL + (double)fl * l0).squaredNorm();
    }
  }
  PBT_CHECK(std::fabs(want - r.cost_) <= 1e-9 * (1 + std::fabs(want) + l0.squaredNorm()), "cost " << r.cost_ << " reported, " << want << " expected at the solution");
  // optimality
  Eigen::VectorXd best, bt = f.b;
  Eigen::VectorXd sq = H.array().sqrt(), bv;
  Eigen::MatrixXd Av = f.A * sq.cwiseInverse().asDiagonal();
  Eigen::VectorXd b2 = f.b;
  for (int i = 0; i < Av.rows(); ++i) {
    double k = Av.row(i).norm();
    if (k > 1e-12) {
      Av.row(i) /= k;
      b2(i) /= k;
    }
  }
  // Karush-Kuhn-Tucker conditions with the rows active at the solution, in the scaled variables
  Eigen::VectorXd gr = sq.array() * (r.x - un).array();
  c.nontrivial = true;
  if (gr.norm() > 1e-6) {
    std::vector<int> act;
    for (int i = 0; i < f.A.rows(); ++i)
      if (f.A.row(i).dot(r.x) - f.b(i) > -1e-5 * (1 + r.x.norm())) act.push_back(i);
    Eigen::VectorXd y;
    double rn = 1;
    if (!act.empty()) {
      Eigen::MatrixXd C(f.n, (int)act.size());
      for (size_t i = 0; i < act.size(); ++i) C.col((int)i) = Av.row(act[i]).transpose();
      nnls(C, -gr / gr.norm(), y, rn);
    }
    PBT_CHECK(rn * gr.norm() <= 1e-6 + 1e-3 * gr.norm(), "solution " << r.x.transpose() << " does not satisfy the optimality conditions: residual " << rn << " with " << act.size() << " active constraints");
    c.label("constrained minimum");
  }
  if (!project(Av, b2, (sq.array() * un.array()).matrix(), bv)) {
    c.label("no reference minimum");
    return;
  }
  best = bv.array() / sq.array();
  double viol = maxViolation(f.A, f.b, best);
  if (viol > 1e-7 * (1 + best.norm())) {
    c.label("no reference minimum");
    return;
  }
  c.label("reference minimum");
  const double D = std::max((best - un).norm(), (r.x - un).norm());
  double tol = 1e-6 * (1 + D * D);
  PBT_CHECK(cost(r.x) - cost(best) <= tol, "objective " << cost(r.x) << " at " << r.x.transpose() << " but " << cost(best) << " at the admissible point "
                                                       << best.transpose() << " (largest violation " << viol << ")");
}

pbt::Property pbt::property() {
  return {"C08",
          "random zero-step capturability requests, half of them squeezed around an admissible stopping point; non-trivial: the request failed and no "
          "admissible point with slack 1e-5 exists, or its solution was compared with an independently computed minimum",
          {"friction cones as computed by hpp-centroidal-dynamics; objective tolerance 1e-6 relative"},
          {{"answer", check, 60000, 3000000}}};
}
