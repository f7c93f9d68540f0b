#include "req.hpp"

#include <hpp/bezier-com-traj/solve_end_effector.hh>
#include <hpp/bezier-com-traj/solver/solver-abstract.hpp>

#include <algorithm>
#include <cstring>

namespace req {
using pbt::Ctx;
using pbt::Src;

static const int COM = 8;  // of flags()
bool comSupported(int flag) {
  for (int i = 0; i < COM; ++i)
    if (flags()[(size_t)i].flag == flag) return true;
  return false;
}
bool footSupported(int flag) {
  for (size_t i = 7; i < flags().size(); ++i)
    if (flags()[i].flag == flag) return true;
  return false;
}
static bool known(int flag) { return comSupported(flag) || footSupported(flag); }
const char* symbName(int fn) {
  static const char* n[NSYMB] = {"evaluateCurveAtTime", "evaluateAccelerationCurveAtTime", "computeConstantWaypoints", "computeConstantWaypointsSymbolic",
                                 "computeWwaypoints", "computeFinalVelocityPoint", "computeVelocityWaypoints", "computeAccelerationWaypoints",
                                 "computeJerkWaypoints", "computeVelocityCost", "evaluateCurveWaypointAtTime", "evaluateVelocityCurveWaypointAtTime",
                                 "evaluateJerkCurveWaypointAtTime"};
  return n[fn];
}
bool symbSupported(int fn, int flag) {
  if (fn == 0 || fn == 1 || fn == 4) return comSupported(flag);
  if (fn == 2 || fn == 3) return known(flag);
  if (fn == 5) return comSupported(flag) && !(flag & INIT_JERK);
  return footSupported(flag);
}
static int unsupportedFlag(Src& r, bool (*ok)(int), int fn = -1) {
  for (int tries = 0; tries < 40; ++tries) {
    int k = r.range(0, 4), f;
    if (k == 0) f = flags()[(size_t)r.choice(flags().size())].flag;                             // supported elsewhere
    else if (k <= 2) f = flags()[(size_t)r.choice(flags().size())].flag ^ (1 << r.range(0, 12));  // one condition more or less
    else if (k == 3) f = r.range(0, 255);
    else f = r.range(0, 0x1fff);
    if (fn >= 0 ? !symbSupported(fn, f) : !ok(f)) return f;
  }
  return 0x1000;
}
static Eigen::Vector3d rv(Src& s, double m) {
  if (s.chance(1, 6)) return Eigen::Vector3d::Zero();
  return Eigen::Vector3d(s.sym(m), s.sym(m), s.sym(m));
}
static void states(Src& r, ProblemData& p, double T) {
  p.c0_ = rv(r, 1);
  p.c1_ = p.c0_ + rv(r, 0.5);
  double k = 0.3;
  p.dc0_ = rv(r, k / T);
  p.ddc0_ = rv(r, k / T / T);
  p.j0_ = rv(r, k / T / T / T);
  p.dc1_ = rv(r, k / T);
  p.ddc1_ = rv(r, k / T / T);
  p.j1_ = rv(r, k / T / T / T);
}
static void opt(Ctx& c, Req& q, bool big) {
  Src& r = c.s;
  int n = r.chance(1, 6) ? r.range(8, big ? 60 : 25) : r.range(1, 8);
  int m = r.chance(1, 6) ? r.range(20, big ? 400 : 80) : r.range(0, 14);
  int e = r.chance(1, 2) ? 0 : r.range(0, n);
  Eigen::VectorXd x0(n);
  for (int i = 0; i < n; ++i) x0(i) = r.sym(1);
  q.A = Eigen::MatrixXd::Zero(m, n);
  q.b = Eigen::VectorXd::Zero(m);
  bool inf = r.chance(1, 4);
  for (int i = 0; i < m; ++i) {
    for (int j = 0; j < n; ++j) q.A(i, j) = r.chance(1, 4) ? 0 : r.sym(1);
    if (i > 0 && r.chance(1, 8)) q.A.row(i) = -q.A.row(i - 1);
    q.b(i) = q.A.row(i).dot(x0) + (inf ? r.sym(1) : r.real(0, 1));
  }
  q.D = Eigen::MatrixXd::Zero(e, n);
  q.d = Eigen::VectorXd::Zero(e);
  for (int i = 0; i < e; ++i) {
    for (int j = 0; j < n; ++j) q.D(i, j) = r.sym(1);
    if (i > 0 && r.chance(1, 8)) q.D.row(i) = 2 * q.D.row(i - 1);
    q.d(i) = q.D.row(i).dot(x0);
  }
  Eigen::MatrixXd B(n, n);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j) B(i, j) = r.sym(1);
  q.H = B * B.transpose() + 0.1 * Eigen::MatrixXd::Identity(n, n);
  q.g.resize(n);
  for (int i = 0; i < n; ++i) q.g(i) = r.sym(2);
  q.init = Eigen::VectorXd::Zero(n);
  q.lo.resize(0);
  q.hi.resize(0);
  int bk = r.range(0, 3);
  if (bk & 1) {
    q.lo.resize(n);
    for (int i = 0; i < n; ++i) q.lo(i) = r.chance(1, 3) ? solvers::UNBOUNDED_DOWN : x0(i) - r.real(0, 2);
  }
  if (bk & 2) {
    q.hi.resize(n);
    for (int i = 0; i < n; ++i) q.hi(i) = r.chance(1, 3) ? solvers::UNBOUNDED_UP : x0(i) + r.real(0, 2);
  }
  q.solver = r.chance(1, 2) ? (int)solvers::SOLVER_GLPK : (int)solvers::SOLVER_QUADPROG;
  if (r.chance(1, 4)) {  // no rows: no columns needed
    if (m == 0) q.A.resize(0, 0);
    if (e == 0) q.D.resize(0, 0);
  }
  std::ostringstream os;
  os.precision(17);
  os << (q.solver == (int)solvers::SOLVER_GLPK ? "linear" : "quadratic") << " problem, " << n << " variables, " << m << " inequalities, " << e << " equalities, bounds " << bk;
  q.str = os.str();
}

// a phase that does not say which wrenches it can apply
static void unusablePhase(Src& r, Req& q, ContactData& d, bool cone) {
  int k = cone ? r.range(0, 2) : 0;
  d.contactPhase_ = 0;
  q.why = "contact data without contact phase";
  if (k == 0) return;
  std::shared_ptr<centroidal_dynamics::Equilibrium> e(
      new centroidal_dynamics::Equilibrium("odd", 40, 4, centroidal_dynamics::SOLVER_LP_QPOASES, true, 10, false));
  q.s->eq.push_back(e);
  d.contactPhase_ = e.get();
  q.why = "phase without contacts";
  if (k == 1) return;
  centroidal_dynamics::MatrixX3 P(3, 3), N(3, 3);
  for (int i = 0; i < 3; ++i) {
    P.row(i) << 0.1 * i, 0.1 * (i % 2), 0;
    N.row(i) << 0, 0, 1;
  }
  e->setNewContacts(P, N, 0.5, r.chance(1, 2) ? centroidal_dynamics::EQUILIBRIUM_ALGORITHM_DLP : centroidal_dynamics::EQUILIBRIUM_ALGORITHM_LP);
  q.why = "phase without friction cone inequalities";
}

// inequalities whose matrix and vector do not fit together
static void mismatched(Src& r, Req& q, ContactData& d, bool ang) {
  auto& K = ang ? d.Ang_ : d.Kin_;
  VectorX& k = ang ? d.ang_ : d.kin_;
  int n = r.range(1, 8), m = r.range(0, 7);
  if (m >= n) ++m;
  K = Eigen::MatrixXd::Ones(m, 3);
  k = VectorX::Ones(n);
  q.why = std::string(ang ? "angular momentum" : "kinematic") + " inequalities of mismatched sizes";
}

// a program whose matrices, vectors and bounds do not fit together
static void mismatchedProgram(Src& r, Req& q) {
  const int n = (int)q.g.size();
  auto other = [&](int k) { return k > 0 && r.chance(1, 2) ? (int)r.choice((uint64_t)k) : k + r.range(1, 6); };
  auto ones = [&](int k) { return Eigen::VectorXd(Eigen::VectorXd::Ones(k)); };
  int k = r.range(0, 7);
  if (k == 7 && q.solver != (int)solvers::SOLVER_GLPK) k = 4;
  if (k == 4 && q.solver != (int)solvers::SOLVER_QUADPROG) k = 7;
  if (k == 0) q.b = ones(other((int)q.b.size()));
  if (k == 1) q.d = ones(other((int)q.d.size()));
  if (k == 2) q.A = Eigen::MatrixXd::Ones(r.range(1, 5), other(n)), q.b = ones((int)q.A.rows());
  if (k == 3) q.D = Eigen::MatrixXd::Ones(r.range(1, 5), other(n)), q.d = ones((int)q.D.rows());
  if (k == 4) {
    int v = r.range(0, 2);
    q.H = Eigen::MatrixXd::Identity(v == 0 ? n : other(n), v == 1 ? n : other(n));
  }
  auto bound = [&] { int m = other(n); return ones(m ? m : n + 1); };
  if (k == 5) q.lo = -bound();
  if (k == 6) q.hi = bound();
  if (k == 7) q.init = ones(other(n));
  static const char* what[] = {"inequality vector", "equality vector", "inequality matrix", "equality matrix", "Hessian", "lower bounds", "upper bounds", "initial guess"};
  q.why = std::string("mismatched size of the ") + what[k];
}

void generate(Ctx& c, Req& q, const Opt& o) {
  Src& r = c.s;
  std::vector<int> ks;
  for (int i = 0; i < NKINDS; ++i)
    if (o.kinds & (1 << i)) ks.push_back(i);
  q.kind = (Kind)ks[(size_t)r.choice(ks.size())];
  bool ill = r.chance(o.ill, 10);
  std::ostringstream os;
  os.precision(17);
  if (q.kind == PLAN) {
    q.s.reset(new Scene());
    scene::generate(c, *q.s, o.scene);
    scene::pickFlag(c, *q.s);
    scene::pickCost(c, *q.s);
    scene::pickMode(c, *q.s, q.m, true, true, true, true);
    if (o.big && r.chance(1, 3)) {
      if (q.m.kind == Mode::FIXED) q.m.points = r.range(1, 40);
      if (q.m.kind == Mode::STEP) q.m.step *= 0.3;
    }
    q.solver = q.m.lp ? (int)solvers::SOLVER_GLPK : (int)solvers::SOLVER_QUADPROG;
    if (!scene::build(*q.s)) throw pbt::Discard();
    q.pTs = q.s->Ts;
    ProblemData& p = q.s->p;
    os << "plan " << scene::str(q.m) << " flag " << flagInfo(p.constraints_.flag_)->name << " cost " << costName(p.costFunction_) << " Ts " << q.pTs.transpose();
    if (ill) {
      int k = r.range(0, 9);
      if (k == 7 && q.m.kind == Mode::FIXED) k = 9;
      if (k == 9 && q.m.kind != Mode::FIXED) k = 0;
      if (k == 0) {
        int n = r.range(0, 4);
        if (n == (int)q.pTs.size()) ++n;
        q.pTs = VectorX::Constant(n, 0.7);
        q.why = "number of durations";
      } else if (k == 1) {
        p.constraints_.flag_ = (ConstraintFlag)unsupportedFlag(r, comSupported);
        q.why = "unsupported condition set " + std::to_string((int)p.constraints_.flag_);
        p.costFunction_ = (CostFunction)(1 << r.range(0, 2));
      } else if (k == 2) {
        int f = r.range(0, 20);
        if (f == 1 || f == 2 || f == 4) f = 8;
        p.costFunction_ = (CostFunction)f;
        q.why = "unsupported cost " + std::to_string(f);
      } else if (k == 3) {
        static const int ev[] = {1, 2, 5, 6, 7};
        (void)ev;
        std::vector<int> cand;
        for (int i = 0; i < COM; ++i)
          if (flags()[(size_t)i].flag & END_VEL) cand.push_back(flags()[(size_t)i].flag);
        p.constraints_.flag_ = (ConstraintFlag)cand[(size_t)r.choice(cand.size())];
        if (!(p.constraints_.flag_ & END_POS)) p.dc1_.setZero();
        p.costFunction_ = TARGET_END_VELOCITY;
        q.why = "target terminal velocity with constrained terminal velocity";
      } else if (k == 4) {
        p.contacts_.clear();
        q.pTs = VectorX::Zero(0);
        q.why = "no contact phase";
      } else if (k == 9) {
        q.m.points = 0;
        q.why = "no point per phase";
      } else if (k == 8) {
        mismatched(r, q, p.contacts_[(size_t)r.choice(p.contacts_.size())], false);
      } else if (k == 5 || k == 6) {
        unusablePhase(r, q, p.contacts_[(size_t)r.choice(p.contacts_.size())], !q.m.force);
      } else {
        q.solver = r.pick(std::vector<int>{3, 0, 4, -1, 7});
        q.why = "unknown solver " + std::to_string(q.solver);
      }
    }
  } else if (q.kind == ZERO) {
    q.s.reset(new Scene());
    scene::Opt so = o.scene;
    so.maxPhases = 1;
    scene::generate(c, *q.s, so);
    ProblemData& p = q.s->p;
    q.T = r.real(0.2, 2);
    q.Ts.assign(1, q.T);
    p.dc0_ = Eigen::Vector3d(r.sym(0.3), r.sym(0.3), r.sym(0.1));
    p.useAngularMomentum_ = r.chance(1, 2);
    p.l0_ = rv(r, 2);
    if (r.chance(1, 2)) polytope(r, Eigen::Vector3d::Zero(), 0.5, 4, p.contacts_[0].Ang_, p.contacts_[0].ang_);
    q.step = r.chance(1, 2) ? -1 : q.T / (r.range(0, 10) + 0.5);
    if (!scene::build(*q.s)) throw pbt::Discard();
    os << "zero step T " << q.T << " step " << q.step << " angular momentum " << p.useAngularMomentum_;
    if (ill) {
      int k = r.range(0, 4);
      if (k == 4) {
        mismatched(r, q, p.contacts_[0], p.useAngularMomentum_ && r.chance(1, 2));
      } else if (k == 3) {
        unusablePhase(r, q, p.contacts_[0], true);
      } else if (k == 0) {
        q.Ts.assign((size_t)(r.chance(1, 2) ? 0 : r.range(2, 4)), q.T);
        q.why = "number of durations";
      } else if (k == 1) {
        p.contacts_.clear();
        q.why = "number of durations";
      } else {
        p.contacts_.push_back(ContactData(p.contacts_[0].contactPhase_));
        q.why = "number of durations";
      }
    }
  } else if (q.kind == FOOT) {
    q.T = r.chance(1, 3) ? 1. : r.logreal(0.05, 3);
    q.p.constraints_.flag_ = (ConstraintFlag)flags()[7 + (size_t)r.choice(3)].flag;
    states(r, q.p, q.T);
    q.path.a = q.p.c0_;
    q.path.b = q.p.c1_;
    q.path.amp = rv(r, 0.3);
    q.path.w = r.real(0, 9);
    q.weight = r.chance(1, 4) ? 0. : r.chance(1, 4) ? 1. : r.unit();
    os << "end effector T " << q.T << " flag " << flagInfo(q.p.constraints_.flag_)->name << " weight " << q.weight;
    if (ill) {
      q.p.constraints_.flag_ = (ConstraintFlag)unsupportedFlag(r, footSupported);
      q.why = "unsupported condition set " + std::to_string((int)q.p.constraints_.flag_);
    }
  } else if (q.kind == OPT) {
    opt(c, q, o.big);
    os << q.str;
    if (ill && r.chance(2, 3)) {
      mismatchedProgram(r, q);
      os << ", " << q.why;
    } else if (ill) {
      q.solver = r.pick(std::vector<int>{3, 0, 4, -1, 7});
      q.why = "unknown solver " + std::to_string(q.solver);
    }
  } else if (q.kind == SYMBOLIC) {
    q.T = r.chance(1, 3) ? 1. : r.logreal(0.05, 3);
    q.fn = r.range(0, NSYMB - 1);
    states(r, q.p, q.T);
    std::vector<int> ok;
    for (auto& f : flags())
      if (symbSupported(q.fn, f.flag)) ok.push_back(f.flag);
    q.p.constraints_.flag_ = (ConstraintFlag)ok[(size_t)r.choice(ok.size())];
    if ((q.p.constraints_.flag_ & END_VEL) && !(q.p.constraints_.flag_ & END_POS)) q.p.dc1_.setZero();
    q.weight = r.unit();
    if (q.fn == 4 && ill && r.chance(1, 3)) {
      if (r.chance(1, 2)) q.p.contacts_.emplace_back();
      q.why = "contact wrench without contact phase";
    } else if (q.fn == 4) {  // the contact wrench needs the gravity of a phase
      static centroidal_dynamics::Equilibrium phase("symbolic", 54., 4);
      q.p.contacts_.emplace_back(&phase);
    }
    if (ill && q.why.empty()) {
      q.p.constraints_.flag_ = (ConstraintFlag)unsupportedFlag(r, 0, q.fn);
      q.why = "unsupported condition set " + std::to_string((int)q.p.constraints_.flag_);
    }
    os << symbName(q.fn) << " flag " << (int)q.p.constraints_.flag_ << " T " << q.T;
  } else {
    int n = r.range(1, 6);
    q.pTs.resize(n);
    for (int i = 0; i < n; ++i) q.pTs(i) = r.real(0.1, 2);
    q.points = (unsigned)r.range(1, 20);
    q.step = q.pTs.minCoeff() * r.real(0.05, 0.5);
    opt(c, q, o.big);
    os << "grids of " << q.pTs.transpose() << " and normalisation of " << q.A.rows() << " rows";
    if (ill) {
      int k = r.range(0, 3);
      q.why = k == 0 ? "no point per phase" : k == 1 ? "non-positive time step" : "incompatible waypoint sizes";
      if (k == 0) q.points = 0;
      if (k == 1) q.step = r.chance(1, 2) ? 0. : -q.step;
    }
  }
  if (!q.why.empty()) os << " [ill-formed: " << q.why << "]";
  q.str = os.str();
}

static void put(Dump& o, double v) { o.push_back(v); }
template <class M>
static void putM(Dump& o, const M& m) {
  o.push_back((double)m.rows());
  o.push_back((double)m.cols());
  for (int j = 0; j < m.cols(); ++j)
    for (int i = 0; i < m.rows(); ++i) o.push_back(m(i, j));
}
template <class B>
static void putB(Dump& o, const B& b) {
  put(o, b.min());
  put(o, b.max());
  put(o, b.mult_T_);
  put(o, (double)b.waypoints().size());
  for (auto& w : b.waypoints()) putM(o, w);
}
static void putR(Dump& o, const ResultDataCOMTraj& r) {
  put(o, r.success_);
  put(o, r.cost_);
  putM(o, r.x);
  putB(o, r.c_of_t_);
  putB(o, r.dL_of_t_);
  putM(o, r.dc1_);
  putM(o, r.ddc1_);
}
static void putW(Dump& o, const waypoint_t& w) {
  putM(o, w.first);
  putM(o, w.second);
}
static void putC(Dump& o, const coefs_t& k) {
  put(o, k.first);
  putM(o, k.second);
}
static void symbolic(const Req& q, Dump& o) {
  const ProblemData& p = q.p;
  const int f = p.constraints_.flag_;
  // functions that take the constant control points get them from the library
  std::vector<point_t> pi;
  if (q.fn == 0 || q.fn == 1 || q.fn >= 10) {
    if (known(f)) pi = computeConstantWaypoints(p, q.T);
    else pi.assign(13, point_t::Zero());
  }
  std::vector<waypoint_t> ws;
  switch (q.fn) {
    case 0: putC(o, evaluateCurveAtTime(p, pi, q.weight)); break;
    case 1: putC(o, evaluateAccelerationCurveAtTime(p, pi, q.T, q.weight)); break;
    case 2:
      for (auto& w : computeConstantWaypoints(p, q.T)) putM(o, w);
      break;
    case 3:
      for (auto& w : computeConstantWaypointsSymbolic(p, q.T)) putW(o, w);
      break;
    case 4:
      for (auto& w : computeWwaypoints(p, q.T)) putW(o, w);
      break;
    case 5: putC(o, computeFinalVelocityPoint(p, q.T)); break;
    case 6: ws = computeVelocityWaypoints(p, q.T); break;
    case 7: ws = computeAccelerationWaypoints(p, q.T); break;
    case 8: ws = computeJerkWaypoints(p, q.T); break;
    case 9: {
      std::pair<MatrixXX, VectorX> Hg = computeVelocityCost(p, q.T);
      putM(o, Hg.first);
      putM(o, Hg.second);
      break;
    }
    case 10: ws.push_back(evaluateCurveWaypointAtTime(p, pi, q.weight)); break;
    case 11: ws.push_back(evaluateVelocityCurveWaypointAtTime(p, q.T, pi, q.weight)); break;
    default: ws.push_back(evaluateJerkCurveWaypointAtTime(p, q.T, pi, q.weight));
  }
  for (auto& w : ws) putW(o, w);
}
Dump run(const Req& q, std::string* error) {
  Dump o;
  if (error) error->clear();
  try {
    if (q.kind == PLAN) {
      ResultDataCOMTraj r;
      if (q.m.kind == Mode::FIXED) r = computeCOMTrajFixedSize(q.s->p, q.pTs, (unsigned)q.m.points);
      else r = computeCOMTraj(q.s->p, q.pTs, q.m.kind == Mode::STEP ? q.m.step : -1., (solvers::SolverType)q.solver);
      putR(o, r);
    } else if (q.kind == ZERO) {
      putR(o, solve0step(q.s->p, q.Ts, q.step));
    } else if (q.kind == FOOT) {
      putR(o, solveEndEffector(q.p, q.path, q.T, q.weight, q.fn != 0));
    } else if (q.kind == OPT) {
      solvers::ResultData r = solvers::solve(q.A, q.b, q.D, q.d, q.H, q.g, q.init, q.lo, q.hi, (solvers::SolverType)q.solver);
      put(o, r.success_);
      put(o, r.cost_);
      putM(o, r.x);
    } else if (q.kind == SYMBOLIC) {
      symbolic(q, o);
    } else {
      if (q.why == "incompatible waypoint sizes") {
        waypoint_t a = initwp(3, 3), b = initwp((size_t)(q.points % 2 ? 6 : 3), (size_t)(q.points % 2 ? 3 : 9));
        waypoint_t s = q.points % 3 ? a + b : b - a;
        putW(o, s);
      }
      for (auto& t : computeDiscretizedTimeFixed(q.pTs, q.points)) {
        put(o, t.first);
        put(o, t.second);
      }
      for (auto& t : computeDiscretizedTime(q.pTs, q.step)) {
        put(o, t.first);
        put(o, t.second);
      }
      Eigen::MatrixXd A = q.A;
      Eigen::VectorXd b = q.b;
      if (A.rows() > 2) A.row(A.rows() / 2).setZero();
      put(o, Normalize(A, b));
      putM(o, A);
      putM(o, b);
    }
  } catch (const std::exception& e) {
    o.clear();
    if (error) *error = std::string("exception: ") + e.what();
    else throw;
  }
  return o;
}
static void putP(Dump& o, const ProblemData& p) {
  put(o, (double)p.contacts_.size());
  for (auto& c : p.contacts_) {
    put(o, c.contactPhase_ != 0);
    if (c.contactPhase_) {
      put(o, c.contactPhase_->m_mass);
      putM(o, c.contactPhase_->m_gravity);
      putM(o, c.contactPhase_->m_G_centr);
      if (c.contactPhase_->getAlgorithm() == centroidal_dynamics::EQUILIBRIUM_ALGORITHM_PP) {
        centroidal_dynamics::MatrixXX H;
        centroidal_dynamics::VectorX h;
        c.contactPhase_->getPolytopeInequalities(H, h);
        putM(o, H);
        putM(o, h);
      }
    }
    putM(o, c.Kin_);
    putM(o, c.kin_);
    putM(o, c.Ang_);
    putM(o, c.ang_);
  }
  for (const point_t* v : {&p.c0_, &p.dc0_, &p.ddc0_, &p.j0_, &p.c1_, &p.dc1_, &p.ddc1_, &p.j1_, &p.l0_}) putM(o, *v);
  put(o, p.useAngularMomentum_);
  put(o, p.constraints_.flag_);
  put(o, p.constraints_.constraintAcceleration_);
  put(o, p.constraints_.maxAcceleration_);
  put(o, p.constraints_.reduce_h_);
  put(o, p.costFunction_);
  put(o, p.representation_);
}
Dump snapshot(const Req& q) {
  Dump o;
  putP(o, q.data());
  putM(o, q.pTs);
  for (double t : q.Ts) put(o, t);
  putM(o, q.A);
  putM(o, q.b);
  putM(o, q.D);
  putM(o, q.d);
  putM(o, q.H);
  putM(o, q.g);
  putM(o, q.init);
  putM(o, q.lo);
  putM(o, q.hi);
  return o;
}
bool same(const Dump& a, const Dump& b) { return a.size() == b.size() && (a.empty() || std::memcmp(a.data(), b.data(), a.size() * sizeof(double)) == 0); }
std::string where(const Dump& a, const Dump& b) {
  std::ostringstream os;
  os.precision(17);
  if (a.size() != b.size()) os << a.size() << " numbers instead of " << b.size();
  else
    for (size_t i = 0; i < a.size(); ++i)
      if (std::memcmp(&a[i], &b[i], sizeof(double))) {
        os << "number " << i << " is " << a[i] << " instead of " << b[i];
        break;
      }
  return os.str();
}
}  // namespace req
