#include <hpp/bezier-com-traj/solve_end_effector.hh>
#include "scene.hpp"
using namespace scene;
using namespace bezier_com_traj;

static Eigen::Vector3d rv(pbt::Src& s, double m) {
  if (s.chance(1, 6)) return Eigen::Vector3d::Zero();
  return Eigen::Vector3d(s.sym(m), s.sym(m), s.sym(m));
}
struct Path {
  Eigen::Vector3d a, b, amp;
  double w;
  Eigen::Vector3d operator()(double t) const { return a + t * (b - a) + amp * std::sin(w * t); }
};
static void data(pbt::Ctx& c, ProblemData& p, double T, const FlagInfo& fi) {
  pbt::Src& r = c.s;
  p.constraints_.flag_ = (ConstraintFlag)fi.flag;
  p.c0_ = rv(r, r.chance(1, 10) ? 20 : 1);
  p.c1_ = p.c0_ + rv(r, r.chance(1, 3) ? 2 : 0.4);
  double k = r.chance(1, 4) ? 1 : 0.2;
  p.dc0_ = rv(r, k / T);
  p.ddc0_ = rv(r, k / T / T);
  p.j0_ = rv(r, k / T / T / T);
  p.dc1_ = rv(r, k / T);
  p.ddc1_ = rv(r, k / T / T);
  p.j1_ = rv(r, k / T / T / T);
  c.label(fi.name);
  c.desc << "set " << fi.name << " T " << T << " c0 " << p.c0_.transpose() << " dc0 " << p.dc0_.transpose() << " ddc0 "
         << p.ddc0_.transpose() << " j0 " << p.j0_.transpose() << " c1 " << p.c1_.transpose() << " dc1 "
         << p.dc1_.transpose() << " ddc1 " << p.ddc1_.transpose() << " j1 " << p.j1_.transpose() << "\n";
}
// rows A x <= b: floor and limits (velocity, acceleration, jerk)
static void limits(const Curve& ref, const ProblemData& p, const Eigen::Vector3d* lim, Eigen::MatrixXd& A, Eigen::VectorXd& b, Eigen::VectorXd& n) {
  std::vector<Eigen::VectorXd> rows;
  std::vector<double> rhs;
  const int N = 3 * ref.nfree;
  for (int o = 1; o <= 3; ++o)
    for (auto& q : ref.derivCP(o)) {
      bool dep = false;
      for (ld f : q.f) dep |= f != 0;
      if (!dep) continue;
      for (int d = 0; d < 3; ++d)
        for (int sg = -1; sg <= 1; sg += 2) {
          Eigen::VectorXd a = Eigen::VectorXd::Zero(N);
          for (int k = 0; k < ref.nfree; ++k) a(3 * k + d) = sg * (double)q.f[(size_t)k];
          rows.push_back(a);
          rhs.push_back(lim[o - 1](d) - sg * (double)q.s(d));
        }
    }
  for (int k = 0; k < ref.nfree; ++k) {
    Eigen::VectorXd a = Eigen::VectorXd::Zero(N);
    a(3 * k + 2) = -1;
    rows.push_back(a);
    rhs.push_back(-std::min(p.c0_(2), p.c1_(2)));
  }
  A.resize((int)rows.size(), N);
  b.resize((int)rows.size());
  n.resize((int)rows.size());
  for (size_t i = 0; i < rows.size(); ++i) {
    n((int)i) = rows[i].norm();
    A.row((int)i) = rows[i].transpose() / n((int)i);
    b((int)i) = rhs[i] / n((int)i);
  }
}

static void plan(pbt::Ctx& c) {
  pbt::Src& r = c.s;
  const FlagInfo& fi = flags()[7 + (size_t)r.choice(3)];
  const double T = r.chance(1, 4) ? 1. : r.chance(1, 8) ? r.logreal(3, 12) : r.logreal(0.04, 3);
  ProblemData p;
  data(c, p, T, fi);
  Path path;
  path.a = p.c0_;
  path.b = p.c1_;
  path.amp = r.chance(1, 2) ? rv(r, 0.5) : Eigen::Vector3d::Zero().eval();
  path.w = r.real(0, 9);
  if (r.chance(1, 8)) {  // a path somewhere else
    path.a = rv(r, 5);
    path.b = rv(r, 5);
  }
  double wd = 0;
  int q = (int)r.choice(4);
  if (q == 1) wd = 1;
  if (q >= 2) wd = r.unit();
  if (q == 3 && r.chance(1, 3)) {
    wd = r.logreal(1e-6, 0.1);
    if (r.chance(1, 3)) wd = 1 - wd;
  }
  const bool flagvel = r.chance(1, 2);
  c.desc << "weight " << wd << " path from " << path.a.transpose() << " to " << path.b.transpose() << " amplitude " << path.amp.transpose() << " frequency " << path.w << "\n";
  ProblemData before(p);
  ResultDataCOMTraj res = solveEndEffector(p, path, T, wd, flagvel);
  Curve ref = makeCurve(p, T);
  const int N = 3 * fi.nfree, n = ref.n;
  Eigen::Vector3d lim[3];
  for (auto& l : lim) l.setConstant(10000);
  Eigen::MatrixXd A;
  Eigen::VectorXd b, nr;
  limits(ref, p, lim, A, b, nr);
  // reference cost
  Eigen::MatrixXd H = Eigen::MatrixXd::Zero(N, N), Hd = H;
  Eigen::VectorXd g = Eigen::VectorXd::Zero(N), gd = g;
  std::vector<AffPt> v = ref.derivCP(1);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j) {
      ld gram = binom(n - 1, i) * binom(n - 1, j) / binom(2 * n - 2, i + j);
      for (int k = 0; k < fi.nfree; ++k) {
        g.segment<3>(3 * k) += D(gram * v[(size_t)i].f[(size_t)k] * v[(size_t)j].s);
        for (int l = 0; l < fi.nfree; ++l) H.block<3, 3>(3 * k, 3 * l) += (double)(gram * v[(size_t)i].f[(size_t)k] * v[(size_t)j].f[(size_t)l]) * Eigen::Matrix3d::Identity();
      }
    }
  for (int i = 0; i < 50; ++i) {
    double u = i / 49.;
    AffPt a = ref.at(u, 0);
    Eigen::Vector3d e = D(a.s) - path(u);
    for (int k = 0; k < fi.nfree; ++k) {
      gd.segment<3>(3 * k) += (double)a.f[(size_t)k] * e;
      for (int l = 0; l < fi.nfree; ++l) Hd.block<3, 3>(3 * k, 3 * l) += (double)(a.f[(size_t)k] * a.f[(size_t)l]) * Eigen::Matrix3d::Identity();
    }
  }
  g /= H.norm();
  H /= H.norm();
  gd /= Hd.norm();
  Hd /= Hd.norm();
  H = (1 - wd) * H + wd * Hd;
  g = (1 - wd) * g + wd * gd;
  auto f = [&](const Eigen::VectorXd& x) { return 0.5 * x.dot(H * x) + g.dot(x); };
  double P = 1;
  for (auto& k : ref.cp) P = std::max(P, (double)k.s.norm());
  c.label(res.success_ ? "success" : "failure");
  if (!res.success_) {
    PBT_CHECK(res.x.size() == 0, "a failed request carries a solution of size " << res.x.size());
    Eigen::VectorXd bt = b.array() - 1e-6 * P, x;
    Eigen::VectorXd x0 = Eigen::VectorXd::Zero(N);
    for (int k = 0; k < fi.nfree; ++k) x0.segment<3>(3 * k) = p.c0_;
    if (!project(A, bt, x0, x)) return;
    if ((A * x - bt).maxCoeff() > 1e-7 * P) return;
    PBT_FAIL("the request fails although the free points " << x.transpose() << " respect the floor and every limit (margin " << -(A * x - b).maxCoeff() << ")");
  }
  c.nontrivial = true;
  PBT_CHECK(res.x.size() == N, "solution of size " << res.x.size());
  c.desc << "x " << res.x.transpose() << "\n";
  std::vector<V3> xs;
  for (int k = 0; k < fi.nfree; ++k) xs.push_back(L(res.x.segment<3>(3 * k)));
  for (auto& k : xs) P = std::max(P, (double)k.norm());
  // curve
  PBT_CHECK(res.c_of_t_.min() == 0 && res.c_of_t_.max() == T, "curve defined on [" << res.c_of_t_.min() << "," << res.c_of_t_.max() << "]");
  double sc = P;
  const Eigen::Vector3d* st[2][4] = {{&p.c0_, &p.dc0_, &p.ddc0_, &p.j0_}, {&p.c1_, &p.dc1_, &p.ddc1_, &p.j1_}};
  for (int o = 0; o <= 3; ++o) {
    if (o) sc *= 2. * (n - o + 1) / T;
    for (int e = 0; e < 2; ++e) {
      Eigen::Vector3d got = o ? Eigen::Vector3d(res.c_of_t_.derivate(e * T, (size_t)o)) : Eigen::Vector3d(res.c_of_t_(e * T));
      PBT_CHECK((got - *st[e][o]).norm() <= 1e-9 * sc, "derivative " << o << " at the " << (e ? "end" : "start") << " is " << got.transpose() << " instead of " << st[e][o]->transpose());
    }
    for (int i = 0; i <= 6; ++i) {
      double t = T * i / 6.;
      if (i == 6) t = T;
      Eigen::Vector3d got = o ? Eigen::Vector3d(res.c_of_t_.derivate(t, (size_t)o)) : Eigen::Vector3d(res.c_of_t_(t));
      Eigen::Vector3d want = D(ref.value((ld)t / T, o, xs));
      PBT_CHECK((got - want).norm() <= 1e-9 * sc, "derivative " << o << " of the curve at t=" << t << " is " << got.transpose() << " instead of " << want.transpose());
    }
  }
  // admissible
  Eigen::VectorXd viol = A * res.x - b;
  int worst;
  double vm = viol.maxCoeff(&worst);
  PBT_CHECK(vm <= 1e-7 * P, "row " << worst << " of the floor and limits is violated by " << vm);
  if (vm > -1e-7) c.label("a limit or the floor is active");
  if ((b - A * res.x).minCoeff(&worst) < 1e-7 && worst < A.rows() - fi.nfree) c.label("a derivative limit is active");
  // optimal
  Eigen::VectorXd x;
  if (!refQP(H, g, A, b.array() + 1e-9, Eigen::MatrixXd(0, N), Eigen::VectorXd(0), x)) {
    c.label("no reference minimum");
    return;
  }
  if ((A * x - b).maxCoeff() > 1e-6 * P) {
    c.label("no reference minimum");
    return;
  }
  double fr = f(res.x), fx = f(x), fs = std::fabs(0.5 * x.dot(H * x)) + g.cwiseAbs().dot(x.cwiseAbs()) + 0.5 * res.x.dot(H * res.x) + g.cwiseAbs().dot(res.x.cwiseAbs()) + P * P * 1e-3;
  PBT_CHECK(fr <= fx + 1e-6 * fs, "cost " << fr << " at " << res.x.transpose() << " but " << fx << " at the admissible point " << x.transpose());
  c.label("compared with the reference minimum");
}

// the constraint builder with arbitrary limits
static void builder(pbt::Ctx& c) {
  pbt::Src& r = c.s;
  const FlagInfo& fi = flags()[7 + (size_t)r.choice(3)];
  const double T = r.logreal(0.2, 3);
  ProblemData p;
  data(c, p, T, fi);
  c.nontrivial = true;
  Curve ref = makeCurve(p, T);
  Eigen::Vector3d lim[3];
  for (auto& l : lim) l = Eigen::Vector3d(r.logreal(0.1, 1e4), r.logreal(0.1, 1e4), r.logreal(0.1, 1e4));
  bool jerk = r.chance(3, 4);
  MatrixXX A;
  VectorX b;
  if (jerk)
    computeConstraintsMatrix(p, computeAccelerationWaypoints(p, T), computeVelocityWaypoints(p, T), lim[1], lim[0], A, b, computeJerkWaypoints(p, T), lim[2]);
  else
    computeConstraintsMatrix(p, computeAccelerationWaypoints(p, T), computeVelocityWaypoints(p, T), lim[1], lim[0], A, b);
  c.label(jerk ? "with jerk limits" : "without jerk limits");
  Eigen::MatrixXd R;
  Eigen::VectorXd q, nr;
  limits(ref, p, lim, R, q, nr);
  if (!jerk) {
    int nj = 0;
    for (auto& k : ref.derivCP(3)) {
      bool dep = false;
      for (ld f : k.f) dep |= f != 0;
      nj += dep ? 6 : 0;
    }
    int keep = (int)R.rows() - fi.nfree - nj;
    Eigen::MatrixXd R2(keep + fi.nfree, R.cols());
    Eigen::VectorXd q2(keep + fi.nfree);
    R2 << R.topRows(keep), R.bottomRows(fi.nfree);
    q2 << q.head(keep), q.tail(fi.nfree);
    R = R2;
    q = q2;
  }
  PBT_CHECK(A.cols() == R.cols() && A.rows() == b.size(), "sizes of the constraints");
  // every meaningful row of one system appears in the other
  std::vector<Eigen::VectorXd> u;
  for (int i = 0; i < A.rows(); ++i) {
    double k = A.row(i).norm();
    if (k < 1e-9) {
      PBT_CHECK(b(i) >= 0, "row " << i << " is contradictory: 0 <= " << b(i));
      continue;
    }
    Eigen::VectorXd w(A.cols() + 1);
    w << A.row(i).transpose() / k, b(i) / k;
    u.push_back(w);
  }
  auto has = [](const std::vector<Eigen::VectorXd>& s, const Eigen::VectorXd& w) {
    for (auto& k : s)
      if ((k.head(k.size() - 1) - w.head(w.size() - 1)).norm() < 1e-9 && std::fabs(k(k.size() - 1) - w(w.size() - 1)) <= 1e-9 * (1 + std::fabs(w(w.size() - 1)) * 100)) return true;
    return false;
  };
  std::vector<Eigen::VectorXd> v;
  for (int i = 0; i < R.rows(); ++i) {
    Eigen::VectorXd w(R.cols() + 1);
    w << R.row(i).transpose(), q(i);
    v.push_back(w);
  }
  for (auto& w : v) PBT_CHECK(has(u, w), "the constraints miss " << w.head(w.size() - 1).transpose() << " x <= " << w(w.size() - 1));
  for (auto& w : u) PBT_CHECK(has(v, w), "the constraints contain " << w.head(w.size() - 1).transpose() << " x <= " << w(w.size() - 1) << ", which is neither floor nor limit");
}

// the discretised cost builders
static void costs(pbt::Ctx& c) {
  pbt::Src& r = c.s;
  const FlagInfo& fi = flags()[7 + (size_t)r.choice(2)];
  const double T = r.logreal(0.2, 3);
  ProblemData p;
  data(c, p, T, fi);
  c.nontrivial = true;
  Curve ref = makeCurve(p, T);
  const int N = 3 * fi.nfree, K = r.range(2, 60);
  double P = 1;
  for (auto& k : ref.cp) P = std::max(P, (double)k.s.norm());
  for (int o = 1; o <= 3; ++o) {
    if (o == 1 && fi.nfree > 1) continue;  // the discretised velocity cost drops the coupling of the free points
    Eigen::MatrixXd H = Eigen::MatrixXd::Zero(N, N);
    Eigen::VectorXd g = Eigen::VectorXd::Zero(N);
    for (int i = 0; i < K; ++i) {
      AffPt a = ref.at((ld)i / (K - 1), o);
      for (int k = 0; k < fi.nfree; ++k) {
        g.segment<3>(3 * k) += D(a.f[(size_t)k] * a.s);
        for (int l = 0; l < fi.nfree; ++l) H.block<3, 3>(3 * k, 3 * l) += (double)(a.f[(size_t)k] * a.f[(size_t)l]) * Eigen::Matrix3d::Identity();
      }
    }
    MatrixXX h;
    VectorX q;
    if (o == 1) computeVelCostFunctionDiscretized(K, p, T, h, q);
    if (o == 2) computeAccelerationCostFunctionDiscretized(K, p, T, h, q);
    if (o == 3) computeJerkCostFunctionDiscretized(K, p, T, h, q);
    double sc = 1;
    for (int i = 0; i < o; ++i) sc *= 2. * (ref.n - i) / T;
    PBT_CHECK(h.rows() == N && h.cols() == N && q.size() == N, "sizes of the cost");
    PBT_CHECK((h - H).norm() <= 1e-7 * (sc * sc * K), "quadratic term of the discretised cost of derivative " << o << ":\n" << h << "\ninstead of\n" << H);
    PBT_CHECK((q - g).norm() <= 1e-7 * (sc * sc * K * P), "linear term of the discretised cost of derivative " << o << ": " << q.transpose() << " instead of " << g.transpose());
  }
}

// predefined lift-off and landing control points
static void predef(pbt::Ctx& c) {
  pbt::Src& r = c.s;
  const double T = r.logreal(0.04, 3);
  ProblemData p;
  data(c, p, T, flags()[7]);
  c.nontrivial = true;
  for (int e = 0; e < 2; ++e) {
    std::vector<bezier_t::point_t> w = e ? computeConstantWaypointsGoalPredef(p, T) : computeConstantWaypointsInitPredef(p, T);
    PBT_CHECK(w.size() == 5, w.size() << " control points");
    Curve k;
    k.T = T;
    for (auto& q : w) {
      AffPt a;
      a.s = L(q);
      k.cp.push_back(a);
    }
    k.finish();
    const Eigen::Vector3d z = Eigen::Vector3d::Zero();
    const Eigen::Vector3d* st[4] = {e ? &p.c1_ : &p.c0_, e ? &p.dc1_ : &p.dc0_, e ? &p.ddc1_ : &p.ddc0_, &z};
    double sc = 1;
    for (auto& q : w) sc = std::max(sc, q.norm());
    Eigen::Vector3d other = D(k.at(1 - e, 0).s);
    PBT_CHECK((other - (e ? p.c0_ : p.c1_)).norm() <= 1e-9 * sc, "the predefined curve does not reach the other end: " << other.transpose());
    for (int o = 0; o <= 3; ++o) {
      if (o) sc *= 2. * (4 - o + 1) / T;
      Eigen::Vector3d got = D(k.at(e, o).s);
      PBT_CHECK((got - *st[o]).norm() <= 1e-9 * sc, "derivative " << o << " of the predefined " << (e ? "landing" : "lift-off") << " curve is " << got.transpose() << " instead of " << st[o]->transpose());
    }
  }
}

pbt::Property pbt::property() {
  return {"C11",
          "random end states, durations, paths and weights for the one-, three- and five-point sets (durations short enough "
          "that the built-in limits become active or infeasible), the constraint and cost builders with random limits, and "
          "the predefined curves; non-trivial: the request succeeded and was judged, or a builder's output was compared",
          {"reference curve, limits, cost and constrained minimum computed independently; tolerances 1e-9 (end states), 1e-7 (limits), 1e-6 (optimality) relative"},
          {{"plan", plan, 150000, 5000000}, {"builder", builder, 30000, 600000}, {"costs", costs, 30000, 600000}, {"predefined", predef, 30000, 600000}}};
}
