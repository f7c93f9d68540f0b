#include "scene.hpp"

#include <algorithm>
#include <cmath>

namespace scene {
using namespace bezier_com_traj;
using pbt::Ctx;
using pbt::Src;

Eigen::Vector3d dir(Src& s) {
  Eigen::Vector3d v(s.gauss(), s.gauss(), s.gauss());
  double n = v.norm();
  if (n < 1e-3) return Eigen::Vector3d::UnitZ();
  return v / n;
}

void polytope(Src& s, const Eigen::Vector3d& ctr, double lo, double hi, MatrixX3& K, VectorX& k) {
  bool box = !s.chance(1, 2);
  if (box) {
    K = MatrixX3::Zero(6, 3);
    k = VectorX::Zero(6);
    double yaw = s.chance(1, 2) ? s.real(0, 3.1) : 0;
    Eigen::Matrix3d R = Eigen::AngleAxisd(yaw, Eigen::Vector3d::UnitZ()).toRotationMatrix();
    for (int d = 0; d < 3; ++d) {
      double w = s.real(lo, hi);
      K.row(2 * d) = R.col(d).transpose();
      K.row(2 * d + 1) = -R.col(d).transpose();
      k(2 * d) = R.col(d).dot(ctr) + w;
      k(2 * d + 1) = -R.col(d).dot(ctr) + w * s.real(0.3, 1);
    }
  } else {
    int m = s.chance(1, 12) ? s.range(11, 40) : s.range(1, 10);
    K = MatrixX3::Zero(m, 3);
    k = VectorX::Zero(m);
    for (int i = 0; i < m; ++i) {
      Eigen::Vector3d d = dir(s);
      K.row(i) = d.transpose();
      k(i) = d.dot(ctr) + s.real(lo, hi);
    }
  }
  if (s.chance(1, 3))
    for (int i = 0; i < K.rows(); ++i) {
      double f = s.logreal(0.1, 20);
      K.row(i) *= f;
      k(i) *= f;
    }
}

static void patch(Src& s, const Eigen::Vector3d& centre, bool point, bool tilt, int& room, ContactSet& cs) {
  Eigen::Vector3d n = Eigen::Vector3d::UnitZ();
  if (tilt) {
    double a = s.real(0, 0.5), b = s.real(0, 6.28);
    n = Eigen::Vector3d(std::sin(a) * std::cos(b), std::sin(a) * std::sin(b), std::cos(a));
  }
  if (point || room < 4) {
    if (room < 1) return;
    cs.pos.push_back(centre);
    cs.nor.push_back(n);
    --room;
    return;
  }
  double hx = s.real(0.05, 0.15), hy = s.real(0.03, 0.08), yaw = s.chance(1, 3) ? s.sym(0.8) : 0;
  Eigen::Matrix3d R = Eigen::Quaterniond::FromTwoVectors(Eigen::Vector3d::UnitZ(), n).toRotationMatrix() *
                      Eigen::AngleAxisd(yaw, Eigen::Vector3d::UnitZ()).toRotationMatrix();
  for (int i = 0; i < 4; ++i) {
    Eigen::Vector3d q((i & 1) ? hx : -hx, (i & 2) ? hy : -hy, 0);
    cs.pos.push_back(centre + R * q);
    cs.nor.push_back(n);
  }
  room -= 4;
}
static void append(ContactSet& a, const ContactSet& b) {
  a.pos.insert(a.pos.end(), b.pos.begin(), b.pos.end());
  a.nor.insert(a.nor.end(), b.nor.begin(), b.nor.end());
}
static Eigen::Vector3d centroid(const ContactSet& c) {
  Eigen::Vector3d m = Eigen::Vector3d::Zero();
  for (auto& p : c.pos) m += p;
  return m / (double)c.pos.size();
}

void generate(Ctx& c, Scene& s, const Opt& o) {
  Src& r = c.s;
  int nph = 1;
  if (o.maxPhases > 1) {
    nph = 1 + (int)std::min<uint64_t>(r.choice((uint64_t)o.maxPhases + 1), (uint64_t)o.maxPhases - 1);
    if (o.manyPhases && r.chance(1, 8)) nph = r.chance(1, 6) ? r.range(7, 9) : r.range(4, 6);
  }
  s.mass = r.chance(1, 2) ? r.real(10, 100) : 50;
  s.mu = r.chance(1, 2) ? r.real(0.3, 1.) : 0.6;
  // robots and surfaces out of the ordinary
  if (r.chance(1, 10)) s.mass = r.logreal(0.5, 1000);
  if (r.chance(1, 10)) s.mu = r.logreal(0.1, 3);
  bool tilt = r.chance(1, 4);
  // patches: steps along x, alternating sides
  int np = nph + 1 + (int)r.choice(2);
  std::vector<ContactSet> pool;
  int perPatch = o.maxPoints >= 8 && nph <= 3 ? 4 : (o.maxPoints >= 6 ? 3 : 2);
  double x = 0, z = 0;
  for (int i = 0; i < np; ++i) {
    ContactSet cs;
    double side = (i % 2) ? 1 : -1;
    Eigen::Vector3d ctr(x + r.sym(0.05), side * r.real(0.05, 0.2), z + (r.chance(1, 4) ? r.sym(0.15) : 0));
    int room = perPatch;
    bool point = r.chance(1, 4);
    if (perPatch < 4 || point) {
      int k = r.range(2, perPatch > 1 ? perPatch : 2);
      for (int j = 0; j < k; ++j) {
        int one = 1;
        patch(r, ctr + Eigen::Vector3d(r.sym(0.15), r.sym(0.15), r.chance(1, 3) ? r.sym(0.1) : 0), true, tilt, one,
              cs);
      }
    } else
      patch(r, ctr, false, tilt, room, cs);
    pool.push_back(cs);
    x += r.real(0.0, 0.35);
    if (r.chance(1, 5)) z += r.sym(0.1);
  }
  // phases: windows of the pool; nested, alternating single and double support, hop
  int start = 0;
  int style = (int)r.choice(o.share ? 5 : 4);
  s.sets.clear();
  for (int i = 0; i < nph; ++i) {
    ContactSet cs;
    int a = start, b = std::min(start + 1, np - 1);
    if (style == 0) {  // double, single, double ...
      if (i % 2 == 1) a = b;
      append(cs, pool[(size_t)a]);
      if (b != a) append(cs, pool[(size_t)b]);
      if (i % 2 == 1) ++start;
    } else if (style == 1) {  // single, double, single
      if (i % 2 == 0) b = a;
      append(cs, pool[(size_t)a]);
      if (b != a) append(cs, pool[(size_t)b]);
      if (i % 2 == 1) ++start;
    } else if (style == 2) {  // always double, moving on (not nested)
      append(cs, pool[(size_t)a]);
      if (b != a) append(cs, pool[(size_t)b]);
      ++start;
    } else if (style == 4) {  // the same contacts throughout, or nearly
      append(cs, pool[0]);
      append(cs, pool[i > 0 && r.chance(1, 4) ? (size_t)np - 1 : 1]);
    } else {  // arbitrary subset of at most two patches
      int p1 = (int)r.choice((uint64_t)np), p2 = (int)r.choice((uint64_t)np);
      append(cs, pool[(size_t)p1]);
      if (p2 != p1) append(cs, pool[(size_t)p2]);
    }
    start = std::min(start, np - 1);
    s.sets.push_back(cs);
  }
  for (auto& cs : s.sets)
    while (cs.pos.size() < 3) {  // at least three points, otherwise the cone is degenerate
      cs.pos.push_back(cs.pos[0] + Eigen::Vector3d(cs.pos.size() == 2 ? 0.1 : -0.07, 0.08, 0));
      cs.nor.push_back(cs.nor[0]);
    }
  // friction pyramids with other numbers of sides
  s.gens.clear();
  s.share = o.share && style == 4 && r.chance(3, 4);
  if (r.chance(1, 10)) {
    int g = r.range(3, 6);
    for (int i = 0; i < nph; ++i) s.gens.push_back(!s.share && r.chance(1, 3) ? r.range(3, 6) : g);
    c.label("other friction pyramids");
  }
  s.load = 1;
  if (nph > 1 && !s.share && r.chance(1, 12)) {
    s.load = r.logreal(0.3, 3);
    c.label("the mass changes");
  }
  if (s.share && nph > 1) c.label("shared contact phases");
  s.Ts.resize(nph);
  bool equalT = r.chance(1, 3);
  double t0 = r.real(0.2, 1.5);
  for (int i = 0; i < nph; ++i) s.Ts[i] = equalT ? t0 : r.real(0.2, o.easy ? 1.0 : 1.5);
  if (r.chance(1, 3))
    for (int i = 0; i < nph; ++i) s.Ts[i] = std::max(0.2, std::round(s.Ts[i] * 10) / 10);
  // fast and slow motions, phases of very different durations
  double pace = 1;
  if (r.chance(1, 6)) {
    pace = r.logreal(0.15, 4);
    s.Ts *= pace;
    c.label(pace < 1 ? "fast" : "slow");
  }
  if (nph > 1 && r.chance(1, 10)) {
    s.Ts[(int)r.choice((uint64_t)nph)] *= r.logreal(0.2, 5);
    c.label("uneven durations");
  }
  double ht = r.real(0.4, 1.0);
  double jit = o.easy ? 0.04 : (r.chance(1, 3) ? 0.2 : 0.06);
  Eigen::Vector3d m0 = centroid(s.sets.front()), m1 = centroid(s.sets.back());
  // in consecutive phases bias towards the intersection
  if (nph > 1 && !r.chance(1, 3)) {
    Eigen::Vector3d mm = centroid(s.sets[1]);
    m0 = 0.5 * (m0 + mm);
    m1 = 0.5 * (m1 + centroid(s.sets[(size_t)nph - 2]));
  }
  s.p.c0_ = m0 + Eigen::Vector3d(r.sym(jit), r.sym(jit), ht);
  s.p.c1_ = m1 + Eigen::Vector3d(r.sym(jit), r.sym(jit), ht + (r.chance(1, 2) ? r.sym(0.1) : 0));
  if (pace < 1 && r.chance(3, 4)) s.p.c1_ = s.p.c0_ + pace * pace * (s.p.c1_ - s.p.c0_);
  if (!o.easy && r.chance(1, 12)) {
    s.p.c1_(2) += r.logreal(0.1, 10) * s.Ts.sum() * s.Ts.sum();
    c.label("jump");
  }
  double vm = o.easy ? 0.15 : 0.5, am = o.easy ? 0.3 : 1.5;
  if (pace < 1) vm *= pace;
  auto vec = [&](double m, unsigned num, unsigned den) {
    Eigen::Vector3d v = Eigen::Vector3d::Zero();
    if (r.chance(num, den)) v = Eigen::Vector3d(r.sym(m), r.sym(m), r.sym(m));
    return v;
  };
  s.p.dc0_ = vec(vm, 2, 3);
  s.p.dc1_ = vec(vm, 1, 2);
  s.p.ddc0_ = vec(am, 1, 2);
  s.p.ddc1_ = vec(am, 1, 2);
  s.p.j0_ = vec(3 * am, 1, 2);
  s.p.j1_ = vec(3 * am, 1, 2);
  s.p.l0_ = vec(2, 1, 4);  // without effect on a COM plan, like the next one
  s.p.useAngularMomentum_ = r.chance(1, 4);
  // frame
  Eigen::Vector3d off = Eigen::Vector3d::Zero();
  if (r.chance(1, 3)) off = Eigen::Vector3d(r.sym(o.offset), r.sym(o.offset), r.sym(o.offset));
  int zero = 0;
  if (o.allowZero && r.chance(1, 4)) zero = 1 + (int)r.choice(3);
  if (zero == 1 || zero == 3) off = -s.p.c0_;
  if (zero == 2) off = -s.p.c1_;
  for (auto& cs : s.sets)
    for (auto& p : cs.pos) p += off;
  s.p.c0_ += off;
  s.p.c1_ += off;
  if (zero == 1 || zero == 3) s.p.c0_.setZero();
  if (zero == 2) s.p.c1_.setZero();
  if (zero == 3) s.p.dc0_.setZero();  // then the second control point is at the origin as well
  if (zero) c.label("end point at the origin");
  // constraints
  Constraints& k = s.p.constraints_;
  k.constraintAcceleration_ = false;
  k.maxAcceleration_ = 10.;
  if (o.acc) {
    if (r.chance(1, 3)) {
      k.constraintAcceleration_ = true;
      k.maxAcceleration_ = r.logreal(0.3, 10.);
      if (r.chance(1, 6)) k.maxAcceleration_ = r.chance(1, 4) ? 0. : r.logreal(10., 400.);
    } else if (r.chance(1, 3))
      k.maxAcceleration_ = r.logreal(0.01, 3.);
  }
  k.reduce_h_ = 1e-3;
  if (o.reduceH) {
    int q = (int)r.choice(5);
    const double vals[] = {1e-3, 0., 1e-2, 0.05, -1.};
    k.reduce_h_ = vals[q];
    if (q == 4) k.reduce_h_ = r.logreal(1e-6, 0.5);
  } else
    k.reduce_h_ = 0;
  rebuildProblemContacts(s);
  if (o.kin)
    for (int i = 0; i < nph; ++i)
      if (r.chance(1, 2)) {
        Eigen::Vector3d ctr = 0.5 * (s.p.c0_ + s.p.c1_);
        if (r.chance(1, 2)) ctr += Eigen::Vector3d(r.sym(0.2), r.sym(0.2), r.sym(0.1));
        polytope(r, ctr, o.easy ? 0.2 : 0.05, 0.6, s.p.contacts_[(size_t)i].Kin_, s.p.contacts_[(size_t)i].kin_);
      }
}

void rebuildProblemContacts(Scene& s) {
  std::vector<ContactData> fresh(s.sets.size());
  s.p.contacts_.swap(fresh);
}

bool build(Scene& s) {
  namespace cd = centroidal_dynamics;
  s.eq.clear();
  s.cones.clear();
  for (size_t i = 0; i < s.sets.size(); ++i) {
    size_t twin = 0;
    while (s.share && twin < i && !(s.sets[twin].pos == s.sets[i].pos && s.sets[twin].nor == s.sets[i].nor)) ++twin;
    if (s.share && twin < i) {
      s.eq.push_back(s.eq[twin]);
      s.cones.push_back(s.cones[twin]);
      s.p.contacts_[i].contactPhase_ = s.eq[twin].get();
      continue;
    }
    std::shared_ptr<cd::Equilibrium> e(
        new cd::Equilibrium("scene", s.massOf(i), (unsigned)s.gensOf(i), cd::SOLVER_LP_QPOASES, true, 10, false));
    cd::MatrixX3 P(s.sets[i].pos.size(), 3), N(s.sets[i].pos.size(), 3);
    for (size_t j = 0; j < s.sets[i].pos.size(); ++j) {
      P.row((int)j) = s.sets[i].pos[j].transpose();
      N.row((int)j) = s.sets[i].nor[j].transpose();
    }
    if (!e->setNewContacts(P, N, s.mu, cd::EQUILIBRIUM_ALGORITHM_PP)) return false;
    // When the cone computation is numerically unstable the dynamics library perturbs the contacts
    // at random (seeded by the wall clock); such contact sets are not usable as test data.
    cd::Equilibrium plain("plain", s.massOf(i), (unsigned)s.gensOf(i), cd::SOLVER_LP_QPOASES, true, 10, false);
    if (!plain.setNewContacts(P, N, s.mu, cd::EQUILIBRIUM_ALGORITHM_DLP)) return false;
    if (plain.m_G_centr.cols() != e->m_G_centr.cols() || plain.m_G_centr != e->m_G_centr) return false;
    s.eq.push_back(e);
    s.cones.push_back(coneOf(*e));
    if (!s.cones.back().ok) return false;
    s.p.contacts_[i].contactPhase_ = e.get();
  }
  return true;
}

int pickFlag(Ctx& c, Scene& s) {
  Src& r = c.s;
  const auto& f = flags();
  int i = (int)r.choice(8);
  s.p.constraints_.flag_ = (ConstraintFlag)f[(size_t)i].flag;
  if ((f[(size_t)i].flag & END_VEL) && !(f[(size_t)i].flag & END_POS)) s.p.dc1_.setZero();
  c.label(f[(size_t)i].name);
  return f[(size_t)i].flag;
}
const char* costName(int k) {
  return k == ACCELERATION ? "acceleration" : k == DISTANCE_TRAVELED ? "distance" : k == TARGET_END_VELOCITY ? "end velocity" : "?";
}
void pickCost(Ctx& c, Scene& s) {
  int n = (s.p.constraints_.flag_ & END_VEL) ? 2 : 3;
  int k = (int)c.s.choice((uint64_t)n);
  s.p.costFunction_ = k == 0 ? ACCELERATION : k == 1 ? DISTANCE_TRAVELED : TARGET_END_VELOCITY;
  c.label(std::string("cost ") + costName(s.p.costFunction_));
}

void describe(Ctx& c, const Scene& s) {
  auto& o = c.desc;
  const FlagInfo* fi = flagInfo(s.p.constraints_.flag_);
  o << "flag " << (fi ? fi->name : "?") << " cost " << costName(s.p.costFunction_) << " Ts " << s.Ts.transpose()
    << " mass " << s.mass << " mu " << s.mu << " reduce_h " << s.p.constraints_.reduce_h_ << " acc "
    << s.p.constraints_.constraintAcceleration_ << " max " << s.p.constraints_.maxAcceleration_ << "\n c0 "
    << s.p.c0_.transpose() << " dc0 " << s.p.dc0_.transpose() << " ddc0 " << s.p.ddc0_.transpose() << " j0 "
    << s.p.j0_.transpose() << "\n c1 " << s.p.c1_.transpose() << " dc1 " << s.p.dc1_.transpose() << " ddc1 "
    << s.p.ddc1_.transpose() << " j1 " << s.p.j1_.transpose();
  for (size_t i = 0; i < s.sets.size(); ++i) {
    o << "\n phase " << i << ": contacts";
    for (size_t j = 0; j < s.sets[i].pos.size(); ++j) {
      o << " (" << s.sets[i].pos[j].transpose() << ")";
      if (s.sets[i].nor[j](2) != 1.) o << "^(" << s.sets[i].nor[j].transpose() << ")";
    }
    o << "; " << s.p.contacts_[i].kin_.size() << " kinematic rows";
    for (int q = 0; q < s.p.contacts_[i].kin_.size(); ++q)
      o << " [" << s.p.contacts_[i].Kin_.row(q) << " <= " << s.p.contacts_[i].kin_(q) << "]";
  }
  for (int g : s.gens) o << " " << g;
  if (!s.gens.empty()) o << " generators per contact";
  if (s.load != 1) o << " mass of odd phases x " << s.load;
  if (s.share) o << " shared contact phases";
  if (s.p.l0_.norm() > 0 || s.p.useAngularMomentum_) o << " l0 " << s.p.l0_.transpose() << " momentum " << s.p.useAngularMomentum_;
  o << "\n";
}

void pickMode(Ctx& c, Scene& s, Mode& m, bool sampled, bool continuous, bool force, bool lp) {
  Src& r = c.s;
  int k = (int)r.choice((uint64_t)((sampled ? 2 : 0) + (continuous ? 1 : 0)));
  m.kind = sampled ? (k == 0 ? Mode::FIXED : k == 1 ? Mode::STEP : Mode::CONT) : Mode::CONT;
  if (m.kind == Mode::FIXED) m.points = r.chance(1, 2) ? (r.chance(1, 10) ? r.range(9, 40) : r.range(1, 8)) : 3;
  if (m.kind == Mode::STEP) {
    double mn = s.Ts.minCoeff();
    m.step = r.chance(1, 2) ? mn / r.range(2, 7) : std::min(mn / 2, r.real(0.05, 0.3));
    if (r.chance(1, 3)) m.step = std::min(mn / 2, std::max(0.05, std::round(m.step * 20) / 20));
    if (r.chance(1, 12)) m.step = mn / r.range(8, 25);
    m.step = std::max(m.step, s.Ts.sum() / 60);
    if (m.step * 2 > mn) m.step = mn / 2;
  }
  m.force = m.kind == Mode::CONT && force && s.forceVars() <= 1200 && r.chance(1, 2);  // dense matrices of that size
  m.lp = m.kind != Mode::FIXED && lp && r.chance(1, 2);
  s.p.representation_ = m.force ? FORCE : DOUBLE_DESCRIPTION;
  c.label(str(m));
}
std::string str(const Mode& m) {
  std::string q = m.kind == Mode::FIXED ? "fixed" : m.kind == Mode::STEP ? "step" : "continuous";
  if (m.kind == Mode::CONT) q += m.force ? "/force" : "/cone";
  q += m.lp ? "/lp" : "/qp";
  return q;
}
ResultDataCOMTraj plan(const Scene& s, const Mode& m) {
  if (m.kind == Mode::FIXED) {
    if (m.points == 3) return computeCOMTrajFixedSize(s.p, s.Ts);
    return computeCOMTrajFixedSize(s.p, s.Ts, (unsigned)m.points);
  }
  return computeCOMTraj(s.p, s.Ts, m.kind == Mode::STEP ? m.step : -1.,
                        m.lp ? solvers::SOLVER_GLPK : solvers::SOLVER_QUADPROG);
}
}  // namespace scene
