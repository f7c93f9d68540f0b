// Copies of contact, constraint, problem and result data against a value model; waypoint algebra.
#include "scene.hpp"
using namespace bezier_com_traj;
namespace cd = centroidal_dynamics;

namespace {
struct MContact {
  bool phase = false;
  double mass = 0;
  std::string name;
  cd::EquilibriumAlgorithm algo = cd::EQUILIBRIUM_ALGORITHM_DLP;
  Eigen::MatrixXd G, H;
  Eigen::MatrixXd Kin = Eigen::Matrix3d::Zero(), Ang = Eigen::Matrix3d::Zero();
  Eigen::VectorXd kin, ang;
};
struct MProblem {
  std::vector<MContact> contacts;
  Eigen::Vector3d v[9];
  bool am = false;
  int flag = INIT_POS | INIT_VEL | END_VEL | END_POS;
  bool acc = false;
  double maxAcc = 10, reduce = 1e-3;
  int cost = ACCELERATION, repr = DOUBLE_DESCRIPTION;
  MProblem() {
    for (auto& x : v) x.setZero();
  }
};
struct World {
  std::vector<std::unique_ptr<ProblemData> > p;
  std::vector<MProblem> m;
  std::vector<std::unique_ptr<ContactData> > c;
  std::vector<MContact> mc;
  std::set<cd::Equilibrium*> seen;
  void note() {
    for (auto& x : p)
      for (auto& k : x->contacts_)
        if (k.contactPhase_) seen.insert(k.contactPhase_);
    for (auto& k : c)
      if (k->contactPhase_) seen.insert(k->contactPhase_);
  }
  ~World() {
    note();
    p.clear();
    c.clear();
    for (auto* e : seen) delete e;
  }
};
const char* vname[9] = {"c0", "dc0", "ddc0", "j0", "c1", "dc1", "ddc1", "j1", "l0"};
point_t& field(ProblemData& p, int i) {
  point_t* f[9] = {&p.c0_, &p.dc0_, &p.ddc0_, &p.j0_, &p.c1_, &p.dc1_, &p.ddc1_, &p.j1_, &p.l0_};
  return *f[i];
}
template <class A, class B>
bool eq(const A& a, const B& b) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
  for (int i = 0; i < a.rows(); ++i)
    for (int j = 0; j < a.cols(); ++j)
      if (!(a(i, j) == b(i, j))) return false;
  return true;
}
void capture(const cd::Equilibrium& e, MContact& m) {
  m.phase = true;
  m.mass = e.m_mass;
  m.name = const_cast<cd::Equilibrium&>(e).getName();
  m.algo = const_cast<cd::Equilibrium&>(e).getAlgorithm();
  m.G = e.m_G_centr;
  m.H.resize(0, 0);
  if (m.algo == cd::EQUILIBRIUM_ALGORITHM_PP) {
    cd::MatrixXX H;
    cd::VectorX h;
    e.getPolytopeInequalities(H, h);
    m.H = H;
  }
}
void cmp(const ContactData& c, const MContact& m, const std::string& who) {
  PBT_CHECK((c.contactPhase_ != 0) == m.phase, who << ": contact phase is " << (c.contactPhase_ ? "set" : "null"));
  if (m.phase) {
    MContact o;
    capture(*c.contactPhase_, o);
    PBT_CHECK(o.mass == m.mass && o.name == m.name && o.algo == m.algo, who << ": contact phase has mass " << o.mass << " name " << o.name << " instead of " << m.mass << " " << m.name);
    PBT_CHECK(eq(o.G, m.G), who << ": contacts of the phase differ");
    PBT_CHECK(eq(o.H, m.H), who << ": wrench cone of the phase differs");
  }
  PBT_CHECK(eq(c.Kin_, m.Kin), who << ": Kin_ is\n" << c.Kin_ << "\ninstead of\n" << m.Kin);
  PBT_CHECK(eq(c.kin_, m.kin), who << ": kin_ is " << c.kin_.transpose() << " instead of " << m.kin.transpose());
  PBT_CHECK(eq(c.Ang_, m.Ang), who << ": Ang_ is\n" << c.Ang_ << "\ninstead of\n" << m.Ang);
  PBT_CHECK(eq(c.ang_, m.ang), who << ": ang_ is " << c.ang_.transpose() << " instead of " << m.ang.transpose());
}
void cmp(const ProblemData& p, const MProblem& m, const std::string& who) {
  PBT_CHECK(p.contacts_.size() == m.contacts.size(), who << ": " << p.contacts_.size() << " contact phases instead of " << m.contacts.size());
  for (size_t i = 0; i < m.contacts.size(); ++i) cmp(p.contacts_[i], m.contacts[i], who + " contact " + std::to_string(i));
  for (int i = 0; i < 9; ++i) {
    point_t x = field(const_cast<ProblemData&>(p), i);
    PBT_CHECK(eq(x, m.v[i]), who << ": " << vname[i] << " is " << x.transpose() << " instead of " << m.v[i].transpose());
  }
  PBT_CHECK(p.useAngularMomentum_ == m.am, who << ": useAngularMomentum_ differs");
  PBT_CHECK((int)p.constraints_.flag_ == m.flag, who << ": flag is " << (int)p.constraints_.flag_ << " instead of " << m.flag);
  PBT_CHECK(p.constraints_.constraintAcceleration_ == m.acc, who << ": constraintAcceleration_ differs");
  PBT_CHECK(p.constraints_.maxAcceleration_ == m.maxAcc, who << ": maxAcceleration_ differs");
  PBT_CHECK(p.constraints_.reduce_h_ == m.reduce, who << ": reduce_h_ differs");
  PBT_CHECK((int)p.costFunction_ == m.cost, who << ": costFunction_ differs");
  PBT_CHECK((int)p.representation_ == m.repr, who << ": representation_ differs");
}
Eigen::Vector3d vec(pbt::Src& r) { return Eigen::Vector3d(r.sym(3), r.sym(3), r.sym(3)); }
void contacts(pbt::Src& r, cd::Equilibrium& e) {
  int n = r.range(3, 5);
  cd::MatrixX3 P(n, 3), N(n, 3);
  for (int i = 0; i < n; ++i) {
    P.row(i) = vec(r).transpose();
    N.row(i) << 0, 0, 1;
  }
  e.setNewContacts(P, N, r.real(0.3, 0.9), r.chance(1, 8) ? cd::EQUILIBRIUM_ALGORITHM_PP : cd::EQUILIBRIUM_ALGORITHM_DLP);
}
cd::Equilibrium* phase(pbt::Src& r) {
  cd::Equilibrium* e = new cd::Equilibrium(r.chance(1, 2) ? "left" : "right", r.real(1, 80), 4, cd::SOLVER_LP_QPOASES, true, 0, false);
  contacts(r, *e);
  return e;
}
void rows(pbt::Src& r, bezier_com_traj::MatrixX3& K, VectorX& k, Eigen::MatrixXd& mK, Eigen::VectorXd& mk) {
  int n = r.range(0, 5);
  Eigen::MatrixXd A(n, 3);
  Eigen::VectorXd b(n);
  for (int i = 0; i < n; ++i) {
    A.row(i) = vec(r).transpose();
    b(i) = r.sym(4);
  }
  K = A;
  k = b;
  mK = A;
  mk = b;
}
void modify(pbt::Ctx& c, World& w, ContactData& d, MContact& m) {
  pbt::Src& r = c.s;
  int k = r.range(0, 5);
  if (k == 0) rows(r, d.Kin_, d.kin_, m.Kin, m.kin), c.desc << "new kinematic rows";
  else if (k == 1) rows(r, d.Ang_, d.ang_, m.Ang, m.ang), c.desc << "new angular rows";
  else if (k == 2) {
    if (d.contactPhase_) w.seen.insert(d.contactPhase_);
    d.contactPhase_ = phase(r);
    capture(*d.contactPhase_, m);
    c.desc << "new phase";
  } else if (k == 3) {
    if (d.contactPhase_) {
      contacts(r, *d.contactPhase_);
      capture(*d.contactPhase_, m);
      c.label("contacts of a phase changed in place");
      c.desc << "new contacts in phase";
    }
  } else if (k == 4) {
    if (m.kin.size()) {
      int i = r.range(0, (int)m.kin.size() - 1);
      d.kin_(i) = m.kin(i) = r.sym(2);
      d.Kin_(i, 1) = m.Kin(i, 1) = r.sym(2);
      c.desc << "kinematic row changed";
    }
  } else if (m.ang.size()) {
    int i = r.range(0, (int)m.ang.size() - 1);
    d.ang_(i) = m.ang(i) = r.sym(2);
    d.Ang_(i, 2) = m.Ang(i, 2) = r.sym(2);
    c.desc << "angular row changed";
  }
}
void modify(pbt::Ctx& c, World& w, ProblemData& p, MProblem& m) {
  pbt::Src& r = c.s;
  int k = r.range(0, 17);
  if (k < 9) {
    Eigen::Vector3d v = vec(r);
    field(p, k) = v;
    m.v[k] = v;
    c.desc << vname[k];
  } else if (k == 9) p.useAngularMomentum_ = m.am = !m.am, c.desc << "momentum flag";
  else if (k == 10) {
    m.flag = r.range(0, 255);
    p.constraints_.flag_ = (ConstraintFlag)m.flag;
    c.desc << "condition set";
  } else if (k == 11) {
    p.constraints_.constraintAcceleration_ = m.acc = !m.acc;
    p.constraints_.maxAcceleration_ = m.maxAcc = r.real(0, 20);
    p.constraints_.reduce_h_ = m.reduce = r.real(0, 1);
    c.desc << "constraints";
  } else if (k == 12) {
    m.cost = r.range(1, 3);
    p.costFunction_ = m.cost == 1 ? ACCELERATION : m.cost == 2 ? DISTANCE_TRAVELED : TARGET_END_VELOCITY;
    m.cost = p.costFunction_;
    m.repr = r.chance(1, 2) ? FORCE : DOUBLE_DESCRIPTION;
    p.representation_ = (GIWCRepresentation)m.repr;
    c.desc << "cost and representation";
  } else if (k == 13 && m.contacts.size() < 4) {
    w.note();
    size_t at = (size_t)r.range(0, (int)m.contacts.size());
    ContactData d;
    MContact md;
    if (r.chance(2, 3)) {
      cd::Equilibrium* e = phase(r);
      w.seen.insert(e);
      d = ContactData(e);
      capture(*e, md);
      w.seen.insert(d.contactPhase_);
    }
    rows(r, d.Kin_, d.kin_, md.Kin, md.kin);
    p.contacts_.insert(p.contacts_.begin() + (long)at, d);
    m.contacts.insert(m.contacts.begin() + (long)at, md);
    c.desc << "insert contact data at " << at;
  } else if (k == 14 && !m.contacts.empty()) {
    w.note();
    size_t at = (size_t)r.range(0, (int)m.contacts.size() - 1);
    p.contacts_.erase(p.contacts_.begin() + (long)at);
    m.contacts.erase(m.contacts.begin() + (long)at);
    c.desc << "erase contact data at " << at;
  } else if (!m.contacts.empty()) {
    size_t at = (size_t)r.range(0, (int)m.contacts.size() - 1);
    c.desc << "contact data " << at << ": ";
    modify(c, w, p.contacts_[at], m.contacts[at]);
  }
}

void copies(pbt::Ctx& c) {
  pbt::Src& r = c.s;
  World w;
  int ops = r.range(3, 14);
  for (int k = 0; k < ops; ++k) {
    bool whole = r.chance(1, 2);
    const size_t n = whole ? w.p.size() : w.c.size();
    int op = n == 0 ? 0 : r.range(0, 9);
    size_t i = n ? (size_t)r.range(0, (int)n - 1) : 0, j = n ? (size_t)r.range(0, (int)n - 1) : 0;
    w.note();
    c.desc << (whole ? "problem " : "contact ");
    if (op == 0 && n < 6) {
      c.desc << n << " = new";
      if (whole) {
        w.p.emplace_back(new ProblemData());
        w.m.emplace_back();
      } else {
        w.mc.emplace_back();
        if (r.chance(1, 2)) {
          cd::Equilibrium* e = phase(r);
          w.c.emplace_back(new ContactData(e));
          capture(*e, w.mc.back());
          c.desc << " with phase";
        } else
          w.c.emplace_back(new ContactData());
      }
    } else if (op <= 2 && n < 6) {
      c.desc << n << " = copy of " << i;
      c.label("copy construction");
      c.nontrivial = true;
      if (whole) {
        w.p.emplace_back(new ProblemData(*w.p[i]));
        MProblem t = w.m[i];
        w.m.push_back(t);
      } else {
        w.c.emplace_back(new ContactData(*w.c[i]));
        MContact t = w.mc[i];
        w.mc.push_back(t);
      }
    } else if (op <= 4) {
      c.desc << i << " := " << j;
      c.label(i == j ? "self assignment" : "assignment");
      c.nontrivial = c.nontrivial || i != j;
      if (whole) {
        *w.p[i] = *w.p[j];
        MProblem t = w.m[j];
        w.m[i] = t;
      } else {
        *w.c[i] = *w.c[j];
        MContact t = w.mc[j];
        w.mc[i] = t;
      }
    } else {
      c.desc << i << ": ";
      if (whole) modify(c, w, *w.p[i], w.m[i]);
      else modify(c, w, *w.c[i], w.mc[i]);
    }
    c.desc << "; ";
    w.note();
    for (size_t q = 0; q < w.p.size(); ++q) cmp(*w.p[q], w.m[q], "problem " + std::to_string(q));
    for (size_t q = 0; q < w.c.size(); ++q) cmp(*w.c[q], w.mc[q], "contact data " + std::to_string(q));
  }
  c.desc << "\n";
}

// ---------------------------------------------------------------- results
struct MResult {
  bool ok = false;
  double cost = -1;
  Eigen::VectorXd x;
  std::vector<Eigen::Vector3d> c, l;
  double T = -1;
  Eigen::Vector3d dc1 = Eigen::Vector3d::Zero(), ddc1 = Eigen::Vector3d::Zero();
};
void cmpR(const ResultData& a, const MResult& m, const std::string& who) {
  PBT_CHECK(a.success_ == m.ok, who << ": success_ differs");
  PBT_CHECK(a.cost_ == m.cost, who << ": cost_ is " << a.cost_ << " instead of " << m.cost);
  PBT_CHECK(eq(a.x, m.x), who << ": x is " << a.x.transpose() << " instead of " << m.x.transpose());
}
void cmpC(const bezier_t& a, const std::vector<Eigen::Vector3d>& pts, double T, const std::string& who) {
  if (T < 0) return;
  PBT_CHECK(a.min() == 0 && a.max() == T, who << ": interval [" << a.min() << ", " << a.max() << "]");
  PBT_CHECK(a.waypoints().size() == pts.size(), who << ": " << a.waypoints().size() << " control points");
  for (size_t i = 0; i < pts.size(); ++i) PBT_CHECK(eq(a.waypoints()[i], pts[i]), who << ": control point " << i << " differs");
}
void results(pbt::Ctx& c) {
  pbt::Src& r = c.s;
  std::vector<std::unique_ptr<ResultDataCOMTraj> > a;
  std::vector<MResult> m;
  std::vector<std::unique_ptr<ResultData> > b;
  std::vector<MResult> mb;
  int ops = r.range(3, 14);
  for (int k = 0; k < ops; ++k) {
    bool com = r.chance(1, 2);
    size_t n = com ? a.size() : b.size();
    int op = n == 0 ? 0 : r.range(0, 7);
    size_t i = n ? (size_t)r.range(0, (int)n - 1) : 0, j = n ? (size_t)r.range(0, (int)n - 1) : 0;
    if (op == 0 && n < 5) {
      MResult t;
      if (com) {
        a.emplace_back(new ResultDataCOMTraj());
        m.push_back(t);
        PBT_CHECK(a.back()->c_of_t_.waypoints().size() >= 1 && a.back()->c_of_t_.waypoints()[0].norm() == 0, "default curve is not zero");
      } else if (r.chance(1, 2)) {
        b.emplace_back(new ResultData());
        mb.push_back(t);
      } else {
        t.ok = r.chance(1, 2);
        t.cost = r.sym(5);
        t.x = Eigen::VectorXd::Zero(r.range(0, 6));
        for (int q = 0; q < t.x.size(); ++q) t.x(q) = r.sym(3);
        b.emplace_back(new ResultData(t.ok, t.cost, t.x));
        mb.push_back(t);
      }
    } else if (op <= 2 && n < 5) {
      c.nontrivial = true;
      if (com) {
        a.emplace_back(new ResultDataCOMTraj(*a[i]));
        MResult t = m[i];
        m.push_back(t);
      } else {
        b.emplace_back(new ResultData(*b[i]));
        MResult t = mb[i];
        mb.push_back(t);
      }
    } else if (op <= 4) {
      c.nontrivial = c.nontrivial || i != j;
      if (com) {
        *a[i] = *a[j];
        MResult t = m[j];
        m[i] = t;
      } else {
        *b[i] = *b[j];
        MResult t = mb[j];
        mb[i] = t;
      }
    } else {
      ResultData& x = com ? *a[i] : *b[i];
      MResult& t = com ? m[i] : mb[i];
      int q = r.range(0, com ? 6 : 2);
      if (q == 0) x.success_ = t.ok = !t.ok;
      else if (q == 1) x.cost_ = t.cost = r.sym(9);
      else if (q == 2) {
        t.x = Eigen::VectorXd::Constant(r.range(0, 7), r.sym(2));
        x.x = t.x;
      } else if (q <= 4) {
        // both curves live on the same interval in the model
        t.T = r.real(0.1, 3);
        for (int z = 0; z < 2; ++z) {
          std::vector<Eigen::Vector3d> pts;
          for (int y = r.range(1, 6); y > 0; --y) pts.push_back(vec(r));
          (z ? t.l : t.c) = pts;
          (z ? a[i]->dL_of_t_ : a[i]->c_of_t_) = bezier_t(pts.begin(), pts.end(), 0., t.T);
        }
      } else if (q == 5) a[i]->dc1_ = t.dc1 = vec(r);
      else a[i]->ddc1_ = t.ddc1 = vec(r);
    }
    c.desc << (com ? "plan " : "result ") << op << " " << i << " " << j << "; ";
    for (size_t q = 0; q < a.size(); ++q) {
      std::string who = "plan " + std::to_string(q);
      cmpR(*a[q], m[q], who);
      cmpC(a[q]->c_of_t_, m[q].c, m[q].T, who + " curve");
      cmpC(a[q]->dL_of_t_, m[q].l, m[q].T, who + " momentum curve");
      PBT_CHECK(eq(a[q]->dc1_, m[q].dc1) && eq(a[q]->ddc1_, m[q].ddc1), who << ": terminal derivatives differ");
    }
    for (size_t q = 0; q < b.size(); ++q) cmpR(*b[q], mb[q], "result " + std::to_string(q));
  }
  c.desc << "\n";
  // constraints
  int f = r.range(0, 255);
  Constraints d, e((ConstraintFlag)f);
  PBT_CHECK(d.flag_ == (INIT_POS | INIT_VEL | END_VEL | END_POS) && !d.constraintAcceleration_ && d.maxAcceleration_ == 10. && d.reduce_h_ == 1e-3,
            "default constraints differ from the documented ones");
  PBT_CHECK(e.flag_ == f && !e.constraintAcceleration_ && e.maxAcceleration_ == 10. && e.reduce_h_ == 1e-3, "constraints of a given condition set differ");
  e.constraintAcceleration_ = r.chance(1, 2);
  e.maxAcceleration_ = r.real(0, 5);
  e.reduce_h_ = r.real(0, 1);
  Constraints g(e);
  d = e;
  for (const Constraints* x : {&g, &d})
    PBT_CHECK(x->flag_ == e.flag_ && x->constraintAcceleration_ == e.constraintAcceleration_ && x->maxAcceleration_ == e.maxAcceleration_ && x->reduce_h_ == e.reduce_h_,
              "a copy of constraints differs");
}

// ---------------------------------------------------------------- waypoints
waypoint_t wp(pbt::Src& r, int rows, int cols) {
  Eigen::MatrixXd A(rows, cols);
  Eigen::VectorXd b(rows);
  for (int i = 0; i < rows; ++i) {
    for (int j = 0; j < cols; ++j) A(i, j) = r.chance(1, 4) ? 0 : r.sym(5);
    b(i) = r.chance(1, 4) ? 0 : r.sym(5);
  }
  return waypoint_t(A, b);
}
bool near(const waypoint_t& a, const Eigen::MatrixXd& A, const Eigen::VectorXd& b, double tol) {
  return a.first.rows() == A.rows() && a.first.cols() == A.cols() && a.second.size() == b.size() && (A.size() == 0 || (a.first - A).cwiseAbs().maxCoeff() <= tol) &&
         (b.size() == 0 || (a.second - b).cwiseAbs().maxCoeff() <= tol);
}
void algebra(pbt::Ctx& c) {
  pbt::Src& r = c.s;
  const int m = r.chance(1, 8) ? r.range(1, 30) : r.pick(std::vector<int>{3, 6, 3}), n = r.chance(1, 8) ? r.range(1, 30) : r.pick(std::vector<int>{3, 9, 15, 6});
  waypoint_t a = wp(r, m, n), b = wp(r, m, n);
  double k = r.chance(1, 8) ? 0. : r.chance(1, 8) ? -1. : r.sym(10);
  c.desc << m << "x" << n << " k " << k << "\n";
  const double tol = 1e-12;
  PBT_CHECK(a.size() == (size_t)m, "size " << a.size());
  PBT_CHECK(near(a + b, a.first + b.first, a.second + b.second, tol), "sum of two waypoints is wrong");
  PBT_CHECK(near(a - b, a.first - b.first, a.second - b.second, tol), "difference of two waypoints is wrong");
  PBT_CHECK(near(k * a, k * a.first, k * a.second, tol), "scalar times waypoint is wrong");
  PBT_CHECK(near(a * k, k * a.first, k * a.second, tol), "waypoint times scalar is wrong");
  waypoint_t z = initwp((size_t)m, (size_t)n), zz = waypoint_t::Zero((size_t)m);
  PBT_CHECK(near(z, Eigen::MatrixXd::Zero(m, n), Eigen::VectorXd::Zero(m), 0), "initwp is not the zero waypoint of that size");
  PBT_CHECK(near(zz, Eigen::MatrixXd::Zero(m, m), Eigen::VectorXd::Zero(m), 0), "Zero is not the zero waypoint of that size");
  PBT_CHECK(a + z == a && a == a && !(a != a), "a waypoint is not equal to itself");
  waypoint_t d = a;
  bool first = r.chance(1, 2);
  if (first) d.first(r.range(0, m - 1), r.range(0, n - 1)) += 0.5;
  else d.second(r.range(0, m - 1)) += 0.5;
  PBT_CHECK(a != d && !(a == d) && !a.isApprox(d), "waypoints that differ in the " << (first ? "matrix" : "vector") << " compare equal");
  if (a.first.norm() > 1e-2 && a.second.norm() > 1e-2 && d.first.norm() > 1e-2 && d.second.norm() > 1e-2) PBT_CHECK(a.isApprox(d, 1e6), "isApprox ignores its precision");
  // mismatched sizes
  int m2 = r.chance(1, 2) ? m : r.range(1, 12), n2 = r.chance(1, 2) ? n : r.range(1, 12);
  waypoint_t o = wp(r, m2, n2);
  if (r.chance(1, 4)) {
    o.second = Eigen::VectorXd::Zero(r.range(1, 9));
  }
  bool fits = o.first.rows() == m && o.first.cols() == n && o.second.size() == m;
  c.nontrivial = true;
  for (int q = 0; q < 4; ++q) {
    bool thrown = false;
    try {
      waypoint_t s = q == 0 ? a + o : q == 1 ? o + a : q == 2 ? a - o : o - a;
    } catch (const std::runtime_error&) {
      thrown = true;
    }
    PBT_CHECK(thrown == !fits, "combining " << m << "x" << n << " with " << o.first.rows() << "x" << o.first.cols() << "/" << o.second.size() << (thrown ? " is refused" : " is accepted"));
  }
  if (!fits) c.label("mismatched sizes");
  // typed zero waypoints
  waypoint3_t z3 = initwp<waypoint3_t>();
  waypoint6_t z6 = initwp<waypoint6_t>();
  waypoint9_t z9 = initwp<waypoint9_t>();
  PBT_CHECK(z3.first.isZero(0) && z3.second.isZero(0) && z6.first.isZero(0) && z6.second.isZero(0) && z9.first.isZero(0) && z9.second.isZero(0), "initwp is not zero");
  // skew symmetric matrix
  Eigen::Vector3d x = vec(r), y = vec(r);
  PBT_CHECK((skew(x) * y - x.cross(y)).norm() <= 1e-12, "skew(" << x.transpose() << ") times " << y.transpose() << " is " << (skew(x) * y).transpose());
}
void curves(pbt::Ctx& c) {
  pbt::Src& r = c.s;
  const int m = r.pick(std::vector<int>{3, 6}), n = r.pick(std::vector<int>{3, 9, 15}), deg = r.range(1, 14);
  double T = r.chance(1, 2) ? r.real(0.2, 4) : 1;
  std::vector<waypoint_t> w;
  for (int i = 0; i <= deg; ++i) w.push_back(wp(r, m, n));
  Eigen::VectorXd x(n);
  for (int i = 0; i < n; ++i) x(i) = r.sym(2);
  c.desc << "degree " << deg << " of " << m << "x" << n << " duration " << T << " at " << x.transpose() << "\n";
  auto ev = [&](const waypoint_t& a) -> Eigen::VectorXd { return a.first * x + a.second; };
  // reference: polynomial of every coordinate in extended precision
  std::vector<ref::Poly> P((size_t)m);
  std::vector<Eigen::VectorXd> pt;
  double big = 1;
  for (auto& a : w) {
    pt.push_back(ev(a));
    big = std::max(big, pt.back().cwiseAbs().maxCoeff());
  }
  auto bern = [&](const std::vector<Eigen::VectorXd>& q, long double u) {
    std::vector<std::vector<long double> > t;
    for (auto& v : q) t.push_back(std::vector<long double>(v.data(), v.data() + v.size()));
    for (size_t k = t.size() - 1; k > 0; --k)
      for (size_t i = 0; i < k; ++i)
        for (size_t j = 0; j < t[i].size(); ++j) t[i][j] = (1 - u) * t[i][j] + u * t[i + 1][j];
    Eigen::VectorXd v((int)t[0].size());
    for (int j = 0; j < v.size(); ++j) v(j) = (double)t[0][(size_t)j];
    return v;
  };
  bezier_wp_t cv(w.begin(), w.end(), 0., T);
  int what = r.range(0, 2);
  c.nontrivial = true;
  double u = r.unit();
  if (what == 0) {
    Eigen::VectorXd got = ev(cv(u * T)), want = bern(pt, u);
    PBT_CHECK((got - want).cwiseAbs().maxCoeff() <= 1e-10 * big, "curve at " << u * T << " evaluates to " << got.transpose() << " instead of " << want.transpose());
    got = ev(cv.evalDeCasteljau(u * T));
    PBT_CHECK((got - want).cwiseAbs().maxCoeff() <= 1e-10 * big, "curve at " << u * T << " evaluates to " << got.transpose() << " by de Casteljau instead of " << want.transpose());
    c.label("evaluation");
  } else if (what == 1) {
    int o = r.range(1, std::min(3, deg));
    std::vector<Eigen::VectorXd> q = pt;
    for (int k = 0; k < o; ++k) {
      std::vector<Eigen::VectorXd> nx;
      for (size_t i = 0; i + 1 < q.size(); ++i) nx.push_back((q[i + 1] - q[i]) * ((double)(q.size() - 1) / T));
      q = nx;
    }
    double bd = 1;
    for (auto& v : q) bd = std::max(bd, v.cwiseAbs().maxCoeff());
    Eigen::VectorXd got = ev(cv.compute_derivate((size_t)o)(u * T)), want = bern(q, u);
    PBT_CHECK((got - want).cwiseAbs().maxCoeff() <= 1e-10 * bd, "derivative of order " << o << " at " << u * T << " evaluates to " << got.transpose() << " instead of " << want.transpose());
    c.label("derivative");
  } else {
    double cut = 0.02 * T + 0.96 * T * r.unit();
    std::pair<bezier_wp_t, bezier_wp_t> h = cv.split(cut);
    for (int k = 0; k < 2; ++k) {
      bezier_wp_t& p = k ? h.second : h.first;
      double t = p.min() + u * (p.max() - p.min());
      Eigen::VectorXd got = ev(p(t)), want = bern(pt, (long double)t / T);
      PBT_CHECK((got - want).cwiseAbs().maxCoeff() <= 1e-10 * big, "part " << k << " of the curve split at " << cut << " evaluates at " << t << " to " << got.transpose() << " instead of " << want.transpose());
    }
    double lo = cut * 0.5, hi = cut;
    if (lo > 2e-3 && hi < T - 2e-3) {
      bezier_wp_t p = cv.extract(lo, hi);
      double t = lo + u * (hi - lo);
      t = std::min(std::max(t, p.min()), p.max());
      Eigen::VectorXd got = ev(p(t)), want = bern(pt, (long double)t / T);
      PBT_CHECK((got - want).cwiseAbs().maxCoeff() <= 1e-10 * big, "extracted curve evaluates at " << t << " to " << got.transpose() << " instead of " << want.transpose());
    }
    c.label("split");
  }
}
// control points given per condition: the curve built from them equals the symbolic one evaluated
void build(pbt::Ctx& c) {
  pbt::Src& r = c.s;
  const auto& f = ref::flags();
  auto& fi = f[(size_t)r.choice(f.size())];
  const int flag = fi.flag;
  bool dbl = (flag & END_VEL) && !(flag & END_POS);
  int lead = 0;
  if (flag & INIT_POS) ++lead;
  if (flag & INIT_VEL) ++lead;
  if (flag & INIT_ACC) ++lead;
  if (flag & INIT_JERK) ++lead;
  int tail = 0;
  if (!dbl) {
    if (flag & END_JERK) ++tail;
    if (flag & END_ACC) ++tail;
    if (flag & END_VEL) ++tail;
    if (flag & END_POS) ++tail;
  }
  double T = r.real(0.1, 4);
  Eigen::Vector3d x = vec(r);
  std::vector<point_t> pi, want;
  int free = dbl ? 2 : 1;
  for (int i = 0; i < lead + free + tail; ++i) {
    point_t p = vec(r);
    bool isx = i >= lead && i < lead + free;
    pi.push_back(isx ? point_t(point_t::Zero()) : p);
    want.push_back(isx ? point_t(x) : p);
  }
  c.desc << fi.name << " duration " << T << " x " << x.transpose() << "\n";
  c.label(fi.name);
  c.nontrivial = true;
  point_t px = x;
  bezier_t cv = computeBezierCurve<bezier_t, point_t>((ConstraintFlag)flag, T, pi, px);
  PBT_CHECK(cv.min() == 0 && cv.max() == T, "interval [" << cv.min() << ", " << cv.max() << "]");
  PBT_CHECK(cv.waypoints().size() == want.size(), cv.waypoints().size() << " control points instead of " << want.size());
  for (size_t i = 0; i < want.size(); ++i) PBT_CHECK(eq(cv.waypoints()[i], want[i]), "control point " << i << " is " << cv.waypoints()[i].transpose() << " instead of " << want[i].transpose());
  std::vector<waypoint_t> ws;
  for (size_t i = 0; i < pi.size(); ++i) ws.push_back(waypoint_t(Eigen::Matrix3d::Zero(), pi[i]));
  waypoint_t wx(Eigen::Matrix3d::Identity(), Eigen::Vector3d::Zero());
  bezier_wp_t cs = computeBezierCurve<bezier_wp_t, waypoint_t>((ConstraintFlag)flag, T, ws, wx);
  double t = T * r.unit();
  waypoint_t e = cs(t);
  Eigen::Vector3d got = e.first * x + e.second, ref = cv(t);
  PBT_CHECK((got - ref).norm() <= 1e-11, "symbolic curve evaluates at " << t << " to " << got.transpose() << " instead of " << ref.transpose());
}
}  // namespace

pbt::Property pbt::property() {
  return {"C19",
          "sequences of 3 to 14 operations (construct, copy, assign, modify) on pools of problem, contact and result data, every object compared with a value model after "
          "every operation; waypoints up to 30x30, curves up to degree 14; non-trivial: the sequence copies or assigns, every algebra case",
          {"derivatives of symbolic curves up to their degree"},
          {{"copies", copies, 250000, 4000000},
           {"results", results, 300000, 8000000},
           {"algebra", algebra, 800000, 10000000},
           {"curves", curves, 300000, 6000000},
           {"build", build, 300000, 6000000}}};
}
