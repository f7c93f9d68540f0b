// Metamorphic relations: a transformed request has the transformed answer.
#include "oracle.hpp"
#include "valid.hpp"
#include "zero.hpp"
using namespace scene;
using namespace bezier_com_traj;
namespace cd = centroidal_dynamics;

// the inequalities of an Equilibrium, for cones that are moved along with the scene
template <typename Tag, typename Tag::type M>
struct Rob {
  friend typename Tag::type get(Tag) { return M; }
};
struct TagH {
  typedef cd::MatrixXX cd::Equilibrium::*type;
  friend type get(TagH);
};
struct Tagh {
  typedef cd::VectorX cd::Equilibrium::*type;
  friend type get(Tagh);
};
template struct Rob<TagH, &cd::Equilibrium::m_H>;
template struct Rob<Tagh, &cd::Equilibrium::m_h>;
static cd::MatrixXX& rowsOf(cd::Equilibrium& e) { return e.*get(TagH()); }
static cd::VectorX& rhsOf(cd::Equilibrium& e) { return e.*get(Tagh()); }

struct Tr {
  enum Kind { TRANSLATE, YAW, QUARTER, PERMUTE, MASS, LENGTH, N } kind = TRANSLATE;
  Eigen::Vector3d t = Eigen::Vector3d::Zero();
  Eigen::Matrix3d R = Eigen::Matrix3d::Identity();
  double mass = 1, len = 1;
  bool recompute = false;  // cones computed anew from the transformed contacts, instead of transformed
  double tau() const { return std::sqrt(len); }
  // quantities of dimension length / time^k
  Eigen::Vector3d point(const Eigen::Vector3d& v) const { return len * (R * v) + t; }
  Eigen::Vector3d vec(const Eigen::Vector3d& v, int k) const { return len / std::pow(tau(), k) * (R * v); }
  std::vector<uint64_t> perm;  // random keys
};
static const char* name(int k) {
  static const char* n[] = {"translation", "rotation about the vertical", "quarter turn", "permutation", "mass", "length and time"};
  return n[k];
}
static std::vector<int> order(int n, const Tr& t, size_t salt) {
  std::vector<int> o((size_t)n);
  for (int i = 0; i < n; ++i) o[(size_t)i] = i;
  if (t.kind != Tr::PERMUTE || n < 2) return o;
  // Fisher-Yates over recorded keys
  for (int i = n - 1; i > 0; --i) std::swap(o[(size_t)i], o[(size_t)(t.perm[(salt + (size_t)i) % t.perm.size()] % (uint64_t)(i + 1))]);
  return o;
}
static void rows(const bezier_com_traj::MatrixX3& K, const VectorX& k, bezier_com_traj::MatrixX3& K2, VectorX& k2, const Tr& t,
                 size_t salt, bool momentum) {
  std::vector<int> o = order((int)k.size(), t, salt);
  K2.resize(k.size(), 3);
  k2.resize(k.size());
  for (int i = 0; i < (int)k.size(); ++i) {
    Eigen::Vector3d a = t.R * K.row(o[(size_t)i]).transpose();
    K2.row(i) = a.transpose();
    double b = k(o[(size_t)i]);
    if (momentum)
      k2(i) = b * t.mass * t.len * t.tau();
    else
      k2(i) = t.len * b + a.dot(t.t);
  }
}
// wrench (about the origin) -> transformed wrench
static Eigen::MatrixXd wrenchMap(const Tr& t) {
  Eigen::MatrixXd M = Eigen::MatrixXd::Zero(6, 6);
  M.topLeftCorner(3, 3) = t.R;
  M.bottomRightCorner(3, 3) = t.len * t.R;
  Eigen::Matrix3d S;
  S << 0, -t.t(2), t.t(1), t.t(2), 0, -t.t(0), -t.t(1), t.t(0), 0;
  M.bottomLeftCorner(3, 3) = S * t.R;
  return M;
}
static bool sameCone(const Eigen::MatrixXd& Ha, const Eigen::MatrixXd& Hb) {
  if (Ha.rows() != Hb.rows()) return false;
  Eigen::MatrixXd P = Ha * Hb.transpose();
  for (int i = 0; i < P.rows(); ++i)
    if (P.row(i).maxCoeff() < 1 - 1e-12 || P.col(i).maxCoeff() < 1 - 1e-12) return false;
  return true;
}
// the transformed scene; false if its friction cones could not be obtained
static void apply(const Scene& a, const Tr& t, Scene& b) {
  b.Ts = t.tau() * a.Ts;
  b.mass = t.mass * a.mass;
  b.mu = a.mu;
  b.sets = a.sets;
  b.gens = a.gens;
  b.load = a.load;
  for (size_t i = 0; i < b.sets.size(); ++i) {
    std::vector<int> o = order((int)a.sets[i].pos.size(), t, 100 * i + 50);
    for (size_t j = 0; j < o.size(); ++j) {
      b.sets[i].pos[j] = t.point(a.sets[i].pos[(size_t)o[j]]);
      b.sets[i].nor[j] = t.R * a.sets[i].nor[(size_t)o[j]];
    }
  }
  b.p.constraints_ = a.p.constraints_;
  b.p.costFunction_ = a.p.costFunction_;
  b.p.representation_ = a.p.representation_;
  b.p.useAngularMomentum_ = a.p.useAngularMomentum_;
  b.p.c0_ = t.point(a.p.c0_);
  b.p.c1_ = t.point(a.p.c1_);
  b.p.dc0_ = t.vec(a.p.dc0_, 1);
  b.p.dc1_ = t.vec(a.p.dc1_, 1);
  b.p.ddc0_ = t.vec(a.p.ddc0_, 2);
  b.p.ddc1_ = t.vec(a.p.ddc1_, 2);
  b.p.j0_ = t.vec(a.p.j0_, 3);
  b.p.j1_ = t.vec(a.p.j1_, 3);
  b.p.l0_ = t.mass * t.vec(a.p.l0_, 1) * t.len;
  rebuildProblemContacts(b);
  bool ok = t.recompute && build(b);
  if (ok)
    for (size_t i = 0; i < b.cones.size(); ++i) {  // same cone, up to the transformation?
      Eigen::MatrixXd H = a.cones[i].Hn * wrenchMap(t).inverse();
      for (int j = 0; j < H.rows(); ++j) H.row(j).normalize();
      ok = ok && sameCone(H, b.cones[i].Hn);
    }
  if (!ok) {
    b.eq.clear();
    b.cones.clear();
    for (size_t i = 0; i < a.eq.size(); ++i) {
      std::shared_ptr<cd::Equilibrium> e(new cd::Equilibrium("moved", b.massOf(i), (unsigned)b.gensOf(i), cd::SOLVER_LP_QPOASES, true, 10, false));
      cd::MatrixX3 P(b.sets[i].pos.size(), 3), N(b.sets[i].pos.size(), 3);
      for (size_t j = 0; j < b.sets[i].pos.size(); ++j) {
        P.row((int)j) = b.sets[i].pos[j].transpose();
        N.row((int)j) = b.sets[i].nor[j].transpose();
      }
      if (!e->setNewContacts(P, N, b.mu, cd::EQUILIBRIUM_ALGORITHM_PP)) throw pbt::Discard();
      Eigen::MatrixXd M = wrenchMap(t);
      std::vector<int> o = order((int)a.cones[i].Hn.rows(), t, 77 + i);
      Eigen::MatrixXd H = rowsOf(*a.eq[i]) * M.inverse();
      rowsOf(*e) = H;
      for (int j = 0; j < H.rows(); ++j) rowsOf(*e).row(j) = H.row(o[(size_t)j]);
      rhsOf(*e) = rhsOf(*a.eq[i]);
      e->m_G_centr = M * a.eq[i]->m_G_centr;
      b.eq.push_back(e);
      b.cones.push_back(coneOf(*e));
      b.p.contacts_[i].contactPhase_ = e.get();
    }
  }
  for (size_t i = 0; i < a.sets.size(); ++i) {
    rows(a.p.contacts_[i].Kin_, a.p.contacts_[i].kin_, b.p.contacts_[i].Kin_, b.p.contacts_[i].kin_, t, 10 * i, false);
    rows(a.p.contacts_[i].Ang_, a.p.contacts_[i].ang_, b.p.contacts_[i].Ang_, b.p.contacts_[i].ang_, t, 10 * i + 5, true);
  }
}
static void pick(pbt::Ctx& c, Tr& t) {
  pbt::Src& r = c.s;
  t.kind = (Tr::Kind)r.choice(Tr::N);
  t.recompute = r.chance(1, 2);
  for (int i = 0; i < 13; ++i) t.perm.push_back(r.choice(5040));
  switch (t.kind) {
    case Tr::TRANSLATE:
      for (int i = 0; i < 3; ++i) t.t(i) = r.chance(1, 4) ? 0 : r.chance(1, 2) ? r.range(-3, 3) : r.sym(3);
      break;
    case Tr::YAW:
      t.R = Eigen::AngleAxisd(r.sym(3.14159), Eigen::Vector3d::UnitZ()).toRotationMatrix();
      break;
    case Tr::QUARTER: {
      int k = r.range(1, 3);
      Eigen::Matrix3d q;
      q << 0, -1, 0, 1, 0, 0, 0, 0, 1;
      for (; k > 0; --k) t.R = q * t.R;
      break;
    }
    case Tr::MASS:
      t.mass = r.chance(1, 2) ? std::ldexp(1., r.range(-3, 3)) : r.logreal(0.05, 10);
      break;
    case Tr::LENGTH:
      t.len = r.chance(1, 2) ? std::ldexp(1., 2 * r.range(-2, 2)) : r.logreal(0.1, 8);
      break;
    default:
      break;
  }
  c.label(name(t.kind));
}
static void show(pbt::Ctx& c, const Tr& t) {
  c.desc << "transformation: " << name(t.kind) << " t " << t.t.transpose() << " R " << t.R.row(0) << " / " << t.R.row(1) << " mass x " << t.mass
         << " length x " << t.len << (t.recompute ? " (cones recomputed)" : " (cones transformed)") << "\n";
}
static void same(const char* what, const Eigen::Vector3d& want, const Eigen::Vector3d& got, double tol) {
  PBT_CHECK((want - got).cwiseAbs().maxCoeff() <= tol, what << " is " << got.transpose() << " for the transformed problem, the transformed value is "
                                                            << want.transpose() << " (tolerance " << tol << ")");
}
// how far the minimum (projection of un on the rows) moves when the rows are shifted by d, or -1
static double sensitivity(const Eigen::MatrixXd& A, const Eigen::VectorXd& b, const Eigen::VectorXd& un, double d) {
  Eigen::VectorXd x0, x1, x2;
  if (!project(A, b, un, x0) || maxViolation(A, b, x0) > 1e-8) return -1;
  Eigen::VectorXd t = b.array() - d, l = b.array() + d;
  double r = 0;
  if (!project(A, l, un, x2)) return -1;
  r = (x2 - x0).norm();
  if (!project(A, t, un, x1) || maxViolation(A, t, x1) > 1e-8) return -1;
  r = std::max(r, (x1 - x0).norm());
  // each constraint close to x0 alone
  int done = 0;
  for (int i = 0; i < b.size() && done < 24; ++i) {
    if (A.row(i).dot(x0) < b(i) - 1e-4) continue;
    ++done;
    for (int k = -1; k <= 1; k += 2) {
      Eigen::VectorXd m = b;
      m(i) += k * d;
      if (!project(A, m, un, x1)) return -1;
      r = std::max(r, (x1 - x0).norm());
    }
  }
  return r;
}

static void plans(pbt::Ctx& c) {
  Scene a, b;
  Tr t;
  pick(c, t);
  Opt o;
  o.easy = !c.s.chance(1, 5);
  o.maxPoints = 6;
  o.manyPhases = true;
  o.reduceH = t.kind == Tr::PERMUTE || t.kind == Tr::MASS;
  o.acc = t.kind != Tr::YAW;
  generate(c, a, o);
  pickFlag(c, a);
  pickCost(c, a);
  Mode m;
  pickMode(c, a, m, true, true, false, false);
  if (!o.reduceH) a.p.constraints_.reduce_h_ = c.s.chance(1, 2) ? 0 : -1;
  if (t.kind == Tr::YAW) a.p.constraints_.constraintAcceleration_ = false;
  if (!build(a)) throw pbt::Discard();
  Eigen::Vector3d x0, guess = (a.p.c0_ + a.p.c1_) / 2;
  RefSys f = reference(a, m, true);
  if (c.s.chance(3, 4) && !strictlyFeasible(f, 1e-3, guess, x0)) {  // a gentler problem
    double q = c.s.chance(1, 2) ? 0.3 : 0;
    for (Eigen::Vector3d* v : {&a.p.dc0_, &a.p.dc1_, &a.p.ddc0_, &a.p.ddc1_, &a.p.j0_, &a.p.j1_}) *v *= q;
    for (auto& cp : a.p.contacts_) {
      cp.Kin_.resize(0, 3);
      cp.kin_.resize(0);
    }
    if (c.s.chance(1, 2)) {  // over the first contacts
      Eigen::Vector3d m0 = Eigen::Vector3d::Zero();
      for (const auto& x : a.sets[0].pos) m0 += x / (double)a.sets[0].pos.size();
      Eigen::Vector3d d = m0 - a.p.c0_;
      d(2) = 0;
      a.p.c0_ += d;
      if (c.s.chance(1, 2)) a.p.c1_ = a.p.c0_ + 0.1 * dir(c.s);
    }
    c.label("gentle");
    f = reference(a, m, true);
  }
  if (c.s.chance(3, 4) && !strictlyFeasible(f, 1e-4, guess, x0)) {
    c.label("no clear solution: skipped");
    return;
  }
  if (c.s.chance(1, 2) && strictlyFeasible(f, 1e-3, guess, x0)) {
    squeeze(c, a, m, x0, c.s.logreal(1e-3, 3e-2));
    if (t.kind == Tr::YAW) a.p.constraints_.constraintAcceleration_ = false;
    f = reference(a, m, true);
    c.label("squeezed");
  }
  Mode m2 = m;
  if (m.kind == Mode::STEP) {
    m2.step = m.step * t.tau();
    std::vector<GridPt> ga = gridStep(a.Ts, m.step), gb = gridStep(a.Ts * t.tau(), m2.step);
    bool ok = ga.size() == gb.size();
    for (size_t i = 0; ok && i < ga.size(); ++i) ok = ga[i].phase == gb[i].phase && std::fabs(ga[i].t * t.tau() - gb[i].t) < 1e-9 * t.tau();
    if (!ok) {  // a sample falls on a switch: whether it is repeated is rounding
      t.len = 4;
      m2.step = 2 * m.step;
    }
  }
  apply(a, t, b);
  describe(c, a);
  show(c, t);
  c.desc << "mode " << str(m) << "\n";
  ResultDataCOMTraj ra = plan(a, m), rb = plan(b, m2);
  c.label(ra.success_ ? "success" : "failure");
  if (ra.success_ != rb.success_) {
    bool yes = strictlyFeasible(f, 1e-4, guess, x0), no = !yes && strictlyInfeasible(f, 1e-4);
    PBT_CHECK(!yes && !no, "the original problem " << (ra.success_ ? "has" : "has no") << " solution, the transformed one "
                                                   << (rb.success_ ? "has (" : "has not (") << (yes ? "the reference has a point with slack 1e-4" : "the reference proves that there is none")
                                                   << ")");
    c.label("verdict too close to compare");
    return;
  }
  if (!ra.success_) {
    c.nontrivial = strictlyInfeasible(f, 1e-4);
    c.label(c.nontrivial ? "both fail" : "both fail, close to feasible");
    return;
  }
  Cost k = costOf(a, m, f.c);
  if (k.k < 1e-9) {
    c.label("cost does not depend on the free control point");
    return;
  }
  Eigen::Vector3d xa = ra.x, xb = rb.x;
  const double X = 1 + xa.cwiseAbs().maxCoeff() + a.p.c0_.cwiseAbs().maxCoeff() + (t.t.cwiseAbs().maxCoeff()) / t.len;
  double tol = 1e-6 * X;
  Eigen::Vector3d un = -k.g / k.k;
  const double U = X + un.cwiseAbs().maxCoeff();
  tol = 1e-6 * U;
  if (f.A.rows()) {
    double se = sensitivity(f.A, f.b, un, 1e-5);
    if (se < 0) {
      c.label("minimum too sensitive to compare");
      return;
    }
    tol += 3 * se;
  }
  if (tol > 2e-2 * U) {
    c.label("minimum too sensitive to compare");
    return;
  }
  c.nontrivial = true;
  c.desc << "x " << xa.transpose() << " tolerance " << tol << "\n";
  const double T = a.T();
  same("solution", t.point(xa), xb, tol * t.len);
  same("final velocity", t.vec(ra.dc1_, 1), rb.dc1_, t.len / t.tau() * tol * 20 / T);
  same("final acceleration", t.vec(ra.ddc1_, 2), rb.ddc1_, tol * 400 / (T * T));
  PBT_CHECK(std::fabs(rb.c_of_t_.max() - T * t.tau()) < 1e-9 * T * t.tau(), "duration " << rb.c_of_t_.max() << " instead of " << T * t.tau());
  for (int i = 0; i <= 4; ++i) {
    double s = T * i / 4;
    same("trajectory", t.point(ra.c_of_t_(std::min(s, ra.c_of_t_.max()))), rb.c_of_t_(std::min(s * t.tau(), rb.c_of_t_.max())), 4 * tol * t.len);
  }
}

static void capture(pbt::Ctx& c) {
  zero::Req a, b;
  Tr t;
  pick(c, t);
  zero::generate(c, a);
  if (a.s.p.constraints_.reduce_h_ > 0) a.s.p.constraints_.reduce_h_ = -1;
  if (!build(a.s)) throw pbt::Discard();
  zero::Sys f = zero::reference(a);
  Eigen::VectorXd x0;
  if (c.s.chance(1, 2) && zero::inside(f, 1e-3, zero::start(a), x0)) {
    zero::squeeze(c, a, x0, c.s.logreal(1e-3, 3e-2));
    f = zero::reference(a);
    c.label("squeezed");
  }
  // the scaling of times must not change the number of steps
  if (a.step > 0 && (int)(a.T / a.step) != (int)((a.T * t.tau()) / (a.step * t.tau()))) t.len = 4;
  b.T = a.T * t.tau();
  b.step = a.step > 0 ? a.step * t.tau() : a.step;
  b.am = a.am;
  apply(a.s, t, b.s);
  zero::describe(c, a);
  show(c, t);
  ResultDataCOMTraj ra = zero::solve(a), rb = zero::solve(b);
  c.label(ra.success_ ? "success" : "failure");
  if (ra.success_ != rb.success_) {
    Eigen::VectorXd bt = f.b.array() + 1e-4, z;
    bool yes = zero::inside(f, 1e-4, zero::start(a), x0), no = !yes && !project(f.A, bt, zero::start(a), z);
    PBT_CHECK(!yes && !no, "the original problem " << (ra.success_ ? "has" : "has no") << " solution, the transformed one "
                                                   << (rb.success_ ? "has (" : "has not (") << (yes ? "the reference has a point with slack 1e-4" : "the reference finds none")
                                                   << ")");
    c.label("verdict too close to compare");
    return;
  }
  if (!ra.success_) {
    c.nontrivial = true;
    return;
  }
  // with angular momentum the cost weighs lengths against momenta: only the verdict is scale free
  if (a.am && (t.kind == Tr::MASS || t.kind == Tr::LENGTH)) {
    c.nontrivial = true;
    c.label("verdict only");
    return;
  }
  Eigen::VectorXd hd = Eigen::VectorXd::Ones(f.n), g(f.n);
  g.head(3) = -a.s.p.c0_;
  if (a.am) {
    hd.head(3).setConstant(1e-4);
    hd.tail(3).setConstant(6. / 5.);
    g.head(3) = -1e-4 * a.s.p.c0_;
    g.tail(3) = -0.9 * a.s.p.l0_;
  }
  // in the metric of the cost the minimum is a projection
  Eigen::VectorXd w = hd.cwiseSqrt(), un = (-g.array() / hd.array()).matrix().cwiseProduct(w);
  Eigen::MatrixXd A = f.A * w.cwiseInverse().asDiagonal();
  Eigen::VectorXd bb = f.b;
  for (int i = 0; i < A.rows(); ++i) {
    double n = std::max(1e-9, A.row(i).norm());
    A.row(i) /= n;
    bb(i) /= n;
  }
  // shifts in the metric of the cost: a shift of 1e-5 of a position is one of 1e-7 here
  double se = sensitivity(A, bb, un, a.am ? 1e-6 : 1e-5);
  const double X = 1 + a.s.p.c0_.cwiseAbs().maxCoeff() + t.t.cwiseAbs().maxCoeff() / t.len + (a.am ? a.s.p.l0_.cwiseAbs().maxCoeff() : 0) +
                   ra.c_of_t_(0).cwiseAbs().maxCoeff();
  if (se < 0) {
    c.label("minimum too sensitive to compare");
    return;
  }
  double tolL = 1e-6 * X + 3 * se, tolX = a.am ? 1e-6 * X + 3 * se * 100 : tolL;
  c.nontrivial = true;
  if (tolX < 2e-2 * X) {
    c.label("trajectory compared");
    for (int i = 0; i <= 4; ++i) {
      double s = a.T * i / 4;
      same("trajectory", t.point(ra.c_of_t_(std::min(s, ra.c_of_t_.max()))), rb.c_of_t_(std::min(s * t.tau(), rb.c_of_t_.max())), 4 * tolX * t.len);
    }
    same("solution", t.point(ra.x.head(3)), rb.x.head(3), tolX * t.len);
  } else
    c.label("minimum too sensitive to compare");
  if (a.am && tolL < 2e-2 * X) {
    c.label("momentum compared");
    same("momentum", t.R * ra.x.tail(3), rb.x.tail(3), tolL);
    for (int i = 0; i <= 4; ++i)
      same("momentum variation", t.R * ra.dL_of_t_(a.T * i / 4), rb.dL_of_t_(a.T * i / 4), 8 * tolL / a.T);
  }
}

pbt::Property pbt::property() {
  return {"C15",
          "random planning and zero-step problems solved twice: as they are and translated, rotated about the vertical, with permuted contacts and "
          "inequalities, with another mass, or with other length and time units; non-trivial: both verdicts agree on a problem the reference decides, or both "
          "succeed and the solutions, end values and trajectories were compared",
          {"friction pyramids turn along with the scene", "the tolerance is three times what shifting all constraints or any active one by 1e-5 does to the minimum"},
          {{"plans", plans, 40000, 1500000}, {"capture", capture, 15000, 800000}}};
}
