// The Python binding (python/bezier_com_traj.cpp, linked into this process) against direct calls of the library.
#include <boost/python.hpp>
#include <eigenpy/eigenpy.hpp>

#include <cstring>
#include <functional>

#include "req.hpp"
#include <hpp/bezier-com-traj/solve_end_effector.hh>
namespace bp = boost::python;
namespace cd = centroidal_dynamics;
using namespace req;
extern "C" PyObject* PyInit_hpp_bezier_com_traj();
// Python keeps memory until it ends
extern "C" const char* __asan_default_options() { return "detect_leaks=0"; }

namespace {
struct Names {
  bp::object np, mod, gc;
};
Names* N = 0;

std::string pyError() {
  PyObject *t = 0, *v = 0, *b = 0;
  PyErr_Fetch(&t, &v, &b);
  PyErr_NormalizeException(&t, &v, &b);
  std::string s = t ? ((PyTypeObject*)t)->tp_name : "?";
  if (v) {
    PyObject* x = PyObject_Str(v);
    if (x) {
      s += ": ";
      const char* u = PyUnicode_AsUTF8(x);
      s += u ? u : "";
      Py_DECREF(x);
    }
  }
  Py_XDECREF(t);
  Py_XDECREF(v);
  Py_XDECREF(b);
  PyErr_Clear();
  return s;
}
// runs f; returns the Python exception it raised, empty if none
template <class F>
std::string attempt(F f) {
  try {
    f();
  } catch (const bp::error_already_set&) {
    return pyError();
  }
  return "";
}
template <class F>
void must(const std::string& what, F f) {
  std::string e = attempt(f);
  PBT_CHECK(e.empty(), what << " raises " << e);
}
template <class F>
void mustRaise(const std::string& what, F f) {
  std::string e = attempt(f);
  PBT_CHECK(!e.empty(), what << " does not raise");
  PBT_CHECK(e.compare(0, 12, "RuntimeError") == 0, what << " raises " << e << " instead of a RuntimeError");
}

void start() {
  if (N) return;
  setenv("OPENBLAS_NUM_THREADS", "1", 1);
  PyPreConfig pre;
  PyPreConfig_InitIsolatedConfig(&pre);
  pre.allocator = PYMEM_ALLOCATOR_MALLOC;
  pre.utf8_mode = 1;
  Py_PreInitialize(&pre);
  PyImport_AppendInittab("hpp_bezier_com_traj", &PyInit_hpp_bezier_com_traj);
  PyConfig conf;
  PyConfig_InitIsolatedConfig(&conf);
  conf.site_import = 0;
  conf.write_bytecode = 0;
  conf.install_signal_handlers = 0;
  PyConfig_SetBytesString(&conf, &conf.program_name, "/usr/bin/python3.12");
  PyStatus st = Py_InitializeFromConfig(&conf);
  PyConfig_Clear(&conf);
  if (PyStatus_Exception(st)) throw std::runtime_error("cannot start Python");
  try {
    bp::object sys = bp::import("sys");
    const char* base = "/opt/bezdeps/main/lib/python3.12/site-packages";
    sys.attr("path").attr("insert")(0, std::string(base) + "/cmeel.prefix/lib/python3.12/site-packages");
    sys.attr("path").attr("insert")(0, base);
    bp::import("warnings").attr("simplefilter")("ignore");
    N = new Names;
    N->np = bp::import("numpy");
    N->gc = bp::import("gc");
    bp::import("ndcurves");
    N->mod = bp::import("hpp_bezier_com_traj");
    bp::class_<cd::Equilibrium, boost::noncopyable>("Equilibrium", bp::no_init);
  } catch (const bp::error_already_set&) {
    throw std::runtime_error("cannot start Python: " + pyError());
  }
}

// an array of one of the layouts and types numpy offers
bp::object arr(pbt::Src& r, const Eigen::MatrixXd& m, bool flat) {
  bp::object np = N->np;
  bp::list l;
  bool whole = m.size() > 0;
  for (int i = 0; i < m.rows(); ++i)
    for (int j = 0; j < m.cols(); ++j) {
      l.append(m(i, j));
      if (std::abs(m(i, j)) > 1e6 || m(i, j) != std::floor(m(i, j)) || (m(i, j) == 0 && std::signbit(m(i, j)))) whole = false;
    }
  bp::object a = np.attr("array")(l, bp::object("float64"));
  if (flat) a = a.attr("reshape")((int)m.size());
  else a = a.attr("reshape")(bp::make_tuple((int)m.rows(), (int)m.cols()));
  switch (r.range(0, 4)) {
    case 1: return np.attr("asfortranarray")(a);
    case 2: {  // every other element of a larger array
      int R = (int)m.rows(), C = (int)m.cols();
      bp::object big, two(bp::slice(bp::object(), bp::object(), 2));
      if (flat) {
        big = np.attr("full")(2 * (int)m.size(), 77.);
        bp::object v = big.attr("__getitem__")(two);
        v.attr("__setitem__")(bp::slice(), a);
        return v;
      }
      big = np.attr("full")(bp::make_tuple(2 * R, 2 * C), 77.);
      bp::object v = big.attr("__getitem__")(bp::make_tuple(two, two));
      v.attr("__setitem__")(bp::slice(), a);
      return v;
    }
    case 3:
      if (whole) return a.attr("astype")("int64");
      return a;
    default: return a;
  }
}
bp::object vec(pbt::Src& r, const Eigen::VectorXd& v) { return arr(r, v, r.chance(3, 4)); }

Eigen::VectorXd flat(const bp::object& o) {
  bp::object l = N->np.attr("asarray")(o).attr("ravel")("F").attr("tolist")();
  Eigen::VectorXd v(bp::len(l));
  for (int i = 0; i < v.size(); ++i) v(i) = bp::extract<double>(l[i]);
  return v;
}
bool same(const Eigen::MatrixXd& a, const Eigen::VectorXd& f) {
  if (a.size() != f.size()) return false;
  return a.size() == 0 || std::memcmp(a.data(), f.data(), sizeof(double) * (size_t)a.size()) == 0;
}
std::string show(const Eigen::MatrixXd& a) {
  std::ostringstream o;
  o.precision(17);
  o << a.rows() << "x" << a.cols() << " [";
  for (int i = 0; i < std::min<int>(12, (int)a.size()); ++i) o << (i ? " " : "") << a(i);
  o << (a.size() > 12 ? " ...]" : "]");
  return o.str();
}
void expect(const std::string& what, const bp::object& o, const Eigen::MatrixXd& m) {
  Eigen::VectorXd f = flat(o);
  PBT_CHECK(same(m, f), what << " is " << show(f) << " in Python instead of " << show(m));
}
// a matrix, shape included (vectors come out of the binding as one-dimensional arrays)
void expectMatrix(const std::string& what, const bp::object& o, const Eigen::MatrixXd& m) {
  expect(what, o, m);
  if (m.rows() > 1 && m.cols() > 1) {
    bp::object s = N->np.attr("shape")(o);
    PBT_CHECK(bp::len(s) == 2 && bp::extract<int>(s[0])() == m.rows() && bp::extract<int>(s[1])() == m.cols(), what << " has the wrong shape");
  }
}
void expectCurve(pbt::Ctx& c, const std::string& what, const bp::object& o, const bezier_t& b) {
  bp::extract<bezier_t&> x(o);
  PBT_CHECK(x.check(), what << " is not a curve in Python");
  bezier_t& p = x();
  bool ok = p.min() == b.min() && p.max() == b.max() && p.mult_T_ == b.mult_T_ && p.waypoints().size() == b.waypoints().size();
  for (size_t i = 0; ok && i < b.waypoints().size(); ++i) ok = same(p.waypoints()[i], b.waypoints()[i]);
  PBT_CHECK(ok, what << " differs in Python");
  if (b.waypoints().empty()) return;
  double t = b.min() + (b.max() - b.min()) * c.s.unit();
  bp::object v;
  must(what + " evaluated", [&] { v = o(t); });
  expect(what + " evaluated", v, b(t));
}
void expectResult(pbt::Ctx& c, const std::string& what, const bp::object& o, const ResultDataCOMTraj& d) {
  bool succ = bp::extract<bool>(o.attr("success"));
  double cost = bp::extract<double>(o.attr("cost"));
  PBT_CHECK(succ == d.success_, what << ": verdict " << succ << " in Python instead of " << d.success_);
  PBT_CHECK(std::memcmp(&cost, &d.cost_, sizeof cost) == 0, what << ": cost " << cost << " in Python instead of " << d.cost_);
  if (d.x.size() == 0) {
    mustRaise(what + ": the solution of a request without solution", [&] { bp::object v = o.attr("x"); });
  } else {
    bp::object x;
    must(what + ": the solution", [&] { x = o.attr("x"); });
    expect(what + ": the solution", x, d.x);
  }
  bp::object k, l;
  must(what + ": reading the curves", [&] {
    k = o.attr("c_of_t");
    l = o.attr("dL_of_t");
  });
  expectCurve(c, what + ": the trajectory", k, d.c_of_t_);
  expectCurve(c, what + ": the angular momentum derivative", l, d.dL_of_t_);
}
bp::object owned(cd::Equilibrium* e) {
  bp::manage_new_object::apply<cd::Equilibrium*>::type conv;
  return bp::object(bp::handle<>(conv(e)));
}
bp::object wrap(cd::Equilibrium* e) { return e ? bp::object(bp::ptr(e)) : bp::object(); }

const char* vectorNames[6] = {"c0_", "dc0_", "ddc0_", "c1_", "dc1_", "ddc1_"};
point_t& field(ProblemData& p, int i) {
  point_t* f[6] = {&p.c0_, &p.dc0_, &p.ddc0_, &p.c1_, &p.dc1_, &p.ddc1_};
  return *f[i];
}
bp::object flagObject(pbt::Src& r, int f) {
  if (r.chance(1, 2)) return bp::object(f);
  // made of the names of the conditions
  static const struct { const char* n; int v; } names[] = {
      {"INIT_POS", INIT_POS}, {"INIT_VEL", INIT_VEL}, {"INIT_ACC", INIT_ACC}, {"END_POS", END_POS}, {"END_VEL", END_VEL}, {"END_ACC", END_ACC}, {"INIT_JERK", INIT_JERK}, {"END_JERK", END_JERK}, {"ONE_FREE_VAR", ONE_FREE_VAR}, {"TWO_FREE_VAR", TWO_FREE_VAR}, {"THREE_FREE_VAR", THREE_FREE_VAR}, {"FOUR_FREE_VAR", FOUR_FREE_VAR}, {"FIVE_FREE_VAR", FIVE_FREE_VAR}, {"UNKNOWN", UNKNOWN}};
  bp::object o(0);
  for (auto& n : names)
    if (f & n.v) o = o | N->mod.attr("ConstraintFlag").attr(n.n);
  return o;
}
bp::object costObject(int c) {
  return c == ACCELERATION ? N->mod.attr("ACCELERATION") : c == DISTANCE_TRAVELED ? N->mod.attr("CostFunction").attr("DISTANCE_TRAVELED") : c == TARGET_END_VELOCITY
             ? N->mod.attr("TARGET_END_VELOCITY") : N->mod.attr("UNKNOWN_COST");
}
bp::object reprObject(int c) {
  return c == DOUBLE_DESCRIPTION ? N->mod.attr("DOUBLE_DESCRIPTION") : c == FORCE ? N->mod.attr("GIWCRepresentation").attr("FORCE") : N->mod.attr("UNKNOWN_REPRESENTATION");
}
bp::object makeContact(pbt::Src& r, const ContactData& d) {
  bp::object k = N->mod.attr("ContactData")(r.chance(1, 2) ? wrap(d.contactPhase_) : bp::object());
  k.attr("contactPhase_") = wrap(d.contactPhase_);
  if (d.kin_.size()) k.attr("setKinematicConstraints")(arr(r, d.Kin_, false), vec(r, d.kin_));
  if (d.ang_.size()) k.attr("setAngularConstraints")(arr(r, d.Ang_, false), vec(r, d.ang_));
  return k;
}
bp::object makeProblem(pbt::Src& r, const ProblemData& p) {
  bp::object o = N->mod.attr("ProblemData")();
  std::vector<int> order = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10};
  for (size_t i = order.size(); i-- > 1;) std::swap(order[i], order[r.choice(i + 1)]);
  for (int k : order) {
    if (k < 6) o.attr(vectorNames[k]) = vec(r, field(const_cast<ProblemData&>(p), k));
    else if (k == 6) o.attr("useAngularMomentum_") = p.useAngularMomentum_;
    else if (k == 7) o.attr("costFunction_") = costObject(p.costFunction_);
    else if (k == 8) o.attr("GIWCrepresentation_") = reprObject(p.representation_);
    else if (k == 9) {
      for (auto& d : p.contacts_) o.attr("addContact")(makeContact(r, d));
    } else {
      bool direct = r.chance(1, 2);
      bp::object q = direct ? o.attr("constraints_") : N->mod.attr("Constraints")();
      q.attr("flag_") = flagObject(r, p.constraints_.flag_);
      q.attr("constrainAcceleration_") = p.constraints_.constraintAcceleration_;
      q.attr("maxAcceleration_") = p.constraints_.maxAcceleration_;
      q.attr("reduce_h_") = p.constraints_.reduce_h_;
      if (!direct) o.attr("constraints_") = q;
    }
  }
  return o;
}
// what the library itself answers; the exception it raises otherwise
template <class F>
std::string direct(F f) {
  try {
    f();
  } catch (const std::exception& e) {
    return e.what()[0] ? e.what() : "?";
  }
  return "";
}
// Python and the library asked the same
template <class F>
void both(pbt::Ctx& c, const std::string& what, F lib, const std::function<bp::object()>& py) {
  ResultDataCOMTraj d;
  std::string e = direct([&] { d = lib(); });
  bp::object o;
  if (!e.empty()) {
    mustRaise(what + " (refused by the library: " + e + ")", [&] { o = py(); });
    c.label("refused");
    return;
  }
  must(what, [&] { o = py(); });
  expectResult(c, what, o, d);
  c.label(d.success_ ? "solved" : "failed");
}

void plan(pbt::Ctx& c) {
  pbt::Src& r = c.s;
  Req q;
  req::Opt o;
  o.kinds = 1 << PLAN;
  o.ill = 1;
  o.scene.maxPoints = 4;
  generate(c, q, o);
  if (q.why == "no point per phase") q.why = "";  // not a mode of Python
  ProblemData& p = q.s->p;
  p.j0_.setZero();  // not accessible from Python
  p.j1_.setZero();
  p.l0_.setZero();
  c.desc << q.str << "\n";
  if (q.why.empty()) scene::describe(c, *q.s);
  bp::object o2;
  if (q.why.find("mismatched") != std::string::npos) {  // such data cannot be made in Python
    mustRaise("building the problem", [&] { o2 = makeProblem(r, p); });
    c.label("mismatched sizes");
    return;
  }
  must("building the problem", [&] { o2 = makeProblem(r, p); });
  double step = q.pTs.size() == 0 ? -1. : q.m.kind == Mode::STEP ? q.m.step : q.m.kind == Mode::FIXED ? 0.4 * q.pTs.minCoeff() : -1.;
  bool choose = r.chance(2, 3);
  if (q.solver != (int)solvers::SOLVER_QUADPROG && q.solver != (int)solvers::SOLVER_GLPK) q.solver = (int)solvers::SOLVER_QUADPROG;
  int solver = choose ? q.solver : (int)solvers::SOLVER_QUADPROG;
  auto lib = [&] { return choose ? computeCOMTraj(p, q.pTs, step, (solvers::SolverType)solver) : computeCOMTraj(p, q.pTs, step); };
  auto py = [&]() -> bp::object {
    if (!choose) return N->mod.attr("computeCOMTraj")(o2, vec(r, q.pTs), step);
    return N->mod.attr("computeCOMTraj")(o2, vec(r, q.pTs), step, bp::object(N->mod.attr(solver == (int)solvers::SOLVER_GLPK ? "SOLVER_GLPK" : "SOLVER_QUADPROG")));
  };
  both(c, "computeCOMTraj", lib, py);
  for (int i = 0; i < 6; ++i) expect(std::string("afterwards ") + vectorNames[i], o2.attr(vectorNames[i]), field(p, i));
  c.nontrivial = true;
}

void zero(pbt::Ctx& c) {
  pbt::Src& r = c.s;
  Req q;
  req::Opt o;
  o.kinds = 1 << ZERO;
  o.scene.maxPoints = 4;
  generate(c, q, o);
  ProblemData& p = q.s->p;
  ContactData& k = p.contacts_[0];
  k.ang_.resize(0);
  k.Ang_.setZero(3, 3);
  if (r.chance(1, 20)) k.contactPhase_ = 0;
  c.desc << q.str << "\n";
  if (q.why.empty()) scene::describe(c, *q.s);
  ProblemData lean;  // what the Python calls can say
  lean.c0_ = p.c0_;
  lean.dc0_ = p.dc0_;
  lean.l0_ = p.l0_;
  lean.useAngularMomentum_ = p.useAngularMomentum_;
  lean.contacts_.emplace_back();
  ContactData& d = lean.contacts_[0];
  d.contactPhase_ = k.contactPhase_;
  bool kin = k.kin_.size() > 0;
  if (kin) {
    d.Kin_ = k.Kin_;
    d.kin_ = k.kin_;
  }
  bp::object e = wrap(k.contactPhase_);
  auto lib = [&] { return solve0step(lean, q.Ts, q.step); };
  // column, row or one-dimensional
  auto rhs = [&](const Eigen::VectorXd& v) {
    int s = r.range(0, 2);
    return s == 0 ? arr(r, v, false) : s == 1 ? arr(r, v, true) : arr(r, v.transpose(), false);
  };
  bp::object f = N->mod.attr("zeroStepCapturability");
  auto py = [&]() -> bp::object {
    if (kin) return f(e, vec(r, p.c0_), vec(r, p.dc0_), vec(r, p.l0_), p.useAngularMomentum_, q.T, q.step, arr(r, k.Kin_, false), rhs(k.kin_));
    return f(e, vec(r, p.c0_), vec(r, p.dc0_), vec(r, p.l0_), p.useAngularMomentum_, q.T, q.step);
  };
  both(c, "zeroStepCapturability", lib, py);
  c.label(kin ? "with kinematic constraints" : "without kinematic constraints");
  if (kin && r.chance(1, 3)) {
    Eigen::MatrixXd A = k.Kin_, b = k.kin_;
    int how = r.range(0, 3);
    int n = (int)A.rows();
    if (how == 0) b = Eigen::VectorXd::Ones(n + r.range(1, 3));
    else if (how == 1) b = n > 1 ? Eigen::VectorXd(k.kin_.head(n - 1)) : Eigen::VectorXd::Ones(2).eval();
    else if (how == 2) A = Eigen::MatrixXd::Ones(n, r.pick(std::vector<int>{1, 2, 4, 5}));
    else b = Eigen::MatrixXd::Ones(n < 2 ? 2 : n, 2);
    std::ostringstream os;
    os << "zeroStepCapturability with a " << A.rows() << "x" << A.cols() << " matrix and a " << b.rows() << "x" << b.cols() << " right-hand side";
    auto call = [&] {
      f(e, vec(r, p.c0_), vec(r, p.dc0_), vec(r, p.l0_), p.useAngularMomentum_, q.T, q.step, arr(r, A, false), arr(r, b, false));
    };
    if (how != 2) mustRaise(os.str(), call);
    else PBT_CHECK(!attempt(call).empty(), os.str() << " does not raise");
    c.label("mismatched sizes");
  }
  c.nontrivial = true;
}

struct Dummy {
  point3_t operator()(double) const { return point3_t::Zero(); }
};
void foot(pbt::Ctx& c) {
  pbt::Src& r = c.s;
  Req q;
  req::Opt o;
  o.kinds = 1 << FOOT;
  o.ill = 1;
  generate(c, q, o);
  q.p.j0_.setZero();
  q.p.j1_.setZero();
  ProblemData& p = q.p;
  const double T = q.T;
  c.desc << q.str << "\n";
  bp::object o2;
  must("building the problem", [&] { o2 = makeProblem(r, p); });
  both(c, "computeEndEffector", [&] { return solveEndEffector<Dummy>(p, Dummy(), T, 0); }, [&] { return N->mod.attr("computeEndEffector")(o2, T); });
  typedef std::pair<MatrixXX, VectorX> MV;
  int n = r.range(1, 12), np = r.range(1, 12);
  Eigen::MatrixXd pts(3, np);
  std::vector<point3_t> list;
  for (int i = 0; i < np; ++i) {
    for (int j = 0; j < 3; ++j) pts(j, i) = r.chance(1, 8) ? 1 : r.sym(2);
    list.push_back(pts.col(i));
  }
  for (int k = 0; k < 3; ++k) {
    static const char* names[] = {"computeEndEffectorConstraints", "computeEndEffectorVelocityCost", "computeEndEffectorDistanceCost"};
    MV d;
    if (k == 2 && np < n) continue;  // fewer samples than compared: rejected by no one, meaningless
    std::string e = direct([&] {
      std::vector<point_t> pi = computeConstantWaypoints(p, T);
      d = k == 0 ? MV(computeEndEffectorConstraints(p, T, pi)) : k == 1 ? MV(computeVelocityCost(p, T, pi)) : MV(computeDistanceCostFunction((size_t)n, p, T, list));
    });
    bp::object m;
    auto call = [&] { m = k == 2 ? N->mod.attr(names[k])(o2, T, n, arr(r, pts, false)) : N->mod.attr(names[k])(o2, T); };
    if (!e.empty()) {
      mustRaise(names[k], call);
      continue;
    }
    must(names[k], call);
    bp::object A, b;
    must(std::string(names[k]) + ": reading the matrices", [&] {
      A = m.attr("A");
      b = m.attr("b");
    });
    if (r.chance(1, 2)) m = bp::object();  // arrays outlive the object they came from
    expectMatrix(std::string(names[k]) + ".A", A, d.first);
    expect(std::string(names[k]) + ".b", b, d.second);
  }
  std::vector<point_t> pi;
  std::string e = direct([&] { pi = computeConstantWaypoints(p, T); });
  bp::object w;
  auto call = [&] { w = N->mod.attr("computeEndEffectorConstantWaypoints")(o2, T); };
  if (!e.empty()) mustRaise("computeEndEffectorConstantWaypoints", call);
  else {
    must("computeEndEffectorConstantWaypoints", call);
    Eigen::MatrixXd m(3, (int)pi.size());
    for (size_t i = 0; i < pi.size(); ++i) m.col((int)i) = pi[i];
    expectMatrix("computeEndEffectorConstantWaypoints", w, m);
  }
  c.nontrivial = true;
}

// ---- histories of objects -------------------------------------------------------------------
const int POOL = 4;
cd::Equilibrium& pool(int i) {
  static std::unique_ptr<cd::Equilibrium> e[POOL];
  if (!e[i]) {
    e[i].reset(new cd::Equilibrium("pool", 20. + 10 * i, 4, cd::SOLVER_LP_QPOASES, true, 10, false));
    cd::MatrixX3 P(4, 3), Nn(4, 3);
    for (int k = 0; k < 4; ++k) {
      P.row(k) << (k % 2 ? 0.1 : -0.1) * (1 + i), (k / 2 ? 0.2 : -0.2), 0.;
      Nn.row(k) << 0., 0., 1.;
    }
    e[i]->setNewContacts(P, Nn, 0.5, cd::EQUILIBRIUM_ALGORITHM_PP);
  }
  return *e[i];
}
struct MC {
  int flag = INIT_POS | INIT_VEL | END_VEL | END_POS;
  bool acc = false;
  double maxAcc = Constraints().maxAcceleration_, reduce = Constraints().reduce_h_;
};
struct MK {
  int phase = -1;
  Eigen::MatrixXd Kin, Ang;
  Eigen::VectorXd kin, ang;
};
struct MP {
  Eigen::Vector3d v[6];
  bool am = ProblemData().useAngularMomentum_;
  int cost = ProblemData().costFunction_, repr = ProblemData().representation_;
  std::shared_ptr<MC> con{new MC};
  std::vector<MK> contacts;
  MP() {
    for (auto& x : v) x.setZero();
  }
};
struct PyP {
  bp::object o;
  MP m;
};
struct PyC {
  bp::object o;
  std::shared_ptr<MC> m;
};
struct PyK {
  bp::object o;
  MK m;
};
void readConstraints(const std::string& who, const bp::object& o, const MC& m) {
  PBT_CHECK(bp::extract<int>(o.attr("flag_"))() == m.flag, who << ".flag_ is not what was set");
  PBT_CHECK(bp::extract<bool>(o.attr("constrainAcceleration_"))() == m.acc, who << ".constrainAcceleration_ is not what was set");
  double a = bp::extract<double>(o.attr("maxAcceleration_")), b = bp::extract<double>(o.attr("reduce_h_"));
  PBT_CHECK(a == m.maxAcc, who << ".maxAcceleration_ is " << a << " instead of " << m.maxAcc);
  PBT_CHECK(b == m.reduce, who << ".reduce_h_ is " << b << " instead of " << m.reduce);
}
void readContact(const std::string& who, const bp::object& o, const MK& m) {
  if (m.phase < 0) mustRaise(who + ".contactPhase_ not set", [&] { bp::object v = o.attr("contactPhase_"); });
  else {
    bp::object e;
    must(who + ".contactPhase_", [&] { e = o.attr("contactPhase_"); });
    cd::Equilibrium* x = bp::extract<cd::Equilibrium*>(e);
    PBT_CHECK(x->m_mass == pool(m.phase).m_mass && x->getName() == "pool" && x->m_G_centr == pool(m.phase).m_G_centr, who << ".contactPhase_ is another phase");
  }
  for (int k = 0; k < 2; ++k) {
    const char* n = k ? "Ang_" : "Kin_";
    const Eigen::VectorXd& b = k ? m.ang : m.kin;
    std::string w = who + "." + n;
    if (!b.size()) {
      mustRaise(w + " not set", [&] { bp::object v = o.attr(n); });
      continue;
    }
    bp::object t;
    must(w, [&] { t = o.attr(n); });
    expectMatrix(w, t[0], k ? m.Ang : m.Kin);
    expect(w, t[1], b);
  }
}
void readProblem(const std::string& who, const bp::object& o, const MP& m) {
  for (int i = 0; i < 6; ++i) expect(who + "." + vectorNames[i], o.attr(vectorNames[i]), m.v[i]);
  PBT_CHECK(bp::extract<bool>(o.attr("useAngularMomentum_"))() == m.am, who << ".useAngularMomentum_ is not what was set");
  PBT_CHECK((int)bp::extract<CostFunction>(o.attr("costFunction_"))() == m.cost, who << ".costFunction_ is not what was set");
  PBT_CHECK((int)bp::extract<GIWCRepresentation>(o.attr("GIWCrepresentation_"))() == m.repr, who << ".GIWCrepresentation_ is not what was set");
  readConstraints(who + ".constraints_", o.attr("constraints_"), *m.con);
}
double value(pbt::Src& r) {
  int k = r.range(0, 5);
  return k == 0 ? 0. : k == 1 ? (double)r.range(-9, 9) : k == 2 ? r.sym(1e-9) : k == 3 ? r.sym(1e6) : r.sym(2);
}
void setConstraint(pbt::Src& r, bp::object o, MC& m) {
  int k = r.range(0, 3);
  if (k == 0) o.attr("flag_") = flagObject(r, m.flag = r.chance(1, 2) ? ref::flags()[(size_t)r.choice(ref::flags().size())].flag : r.range(0, 0x1fff));
  else if (k == 1) o.attr("constrainAcceleration_") = (m.acc = r.chance(1, 2));
  else if (k == 2) o.attr("maxAcceleration_") = (m.maxAcc = r.real(0.1, 20));
  else o.attr("reduce_h_") = (m.reduce = value(r));
}
void history(pbt::Ctx& c) {
  pbt::Src& r = c.s;
  std::vector<PyP> ps(2);
  std::vector<PyC> cs(2);
  std::vector<PyK> ks(2);
  bp::object PD = N->mod.attr("ProblemData"), CO = N->mod.attr("Constraints"), CD = N->mod.attr("ContactData");
  for (auto& p : ps) p.o = PD();
  for (auto& k : cs) {
    k.o = CO();
    k.m.reset(new MC);
  }
  for (auto& k : ks) k.o = CD(bp::object());
  std::vector<std::pair<bp::object, int> > phases;  // phases read back and kept
  int n = r.range(1, 30);
  std::ostringstream log;
  bool planned = false, dropped = false;
  try {
    for (int i = 0; i < n; ++i) {
      size_t a = (size_t)r.choice(2), b = (size_t)r.choice(2);
      int op = r.range(0, 16);
      log << op << "(" << a << "," << b << ") ";
      if (op == 0 || op == 1) {
        int f = r.range(0, 5);
        Eigen::Vector3d x(value(r), value(r), value(r));
        ps[a].o.attr(vectorNames[f]) = vec(r, x);
        ps[a].m.v[f] = x;
      } else if (op == 2) {
        int k = r.range(0, 2);
        if (k == 0) ps[a].o.attr("useAngularMomentum_") = (ps[a].m.am = r.chance(1, 2));
        else if (k == 1) ps[a].o.attr("costFunction_") = costObject(ps[a].m.cost = r.pick(std::vector<int>{ACCELERATION, DISTANCE_TRAVELED, TARGET_END_VELOCITY, UNKNOWN_COST}));
        else ps[a].o.attr("GIWCrepresentation_") = reprObject(ps[a].m.repr = r.pick(std::vector<int>{DOUBLE_DESCRIPTION, FORCE, UNKNOWN_REPRESENTATION}));
      } else if (op == 3) {
        setConstraint(r, ps[a].o.attr("constraints_"), *ps[a].m.con);
      } else if (op == 4) {
        setConstraint(r, cs[a].o, *cs[a].m);
      } else if (op == 5) {  // refers to the constraints inside the problem
        cs[b].o = ps[a].o.attr("constraints_");
        cs[b].m = ps[a].m.con;
      } else if (op == 6) {
        ps[a].o.attr("constraints_") = cs[b].o;
        *ps[a].m.con = *cs[b].m;
      } else if (op == 7) {
        ps[a].o = PD();
        ps[a].m = MP();
        dropped = true;
      } else if (op == 8) {
        cs[a].o = CO();
        cs[a].m.reset(new MC);
      } else if (op == 9 || op == 10) {  // the caller keeps no reference to the phase
        int k = r.range(0, POOL - 1);
        if (op == 9) {
          ks[a].m = MK();
          ks[a].o = CD(owned(new cd::Equilibrium(pool(k))));
          dropped = true;
        } else ks[a].o.attr("contactPhase_") = owned(new cd::Equilibrium(pool(k)));
        ks[a].m.phase = k;
      } else if (op == 11) {
        if (ks[a].m.phase >= 0) phases.push_back({ks[a].o.attr("contactPhase_"), ks[a].m.phase});
        else if (r.chance(1, 3)) {
          ks[a].o.attr("contactPhase_") = bp::object();
          ks[a].m.phase = -1;
        }
      } else if (op == 12 || op == 13) {
        bool ang = op == 13;
        int rows = r.range(1, 6), rhs = r.chance(1, 4) ? r.range(1, 7) : rows;
        Eigen::MatrixXd A(rows, 3);
        Eigen::VectorXd v(rhs);
        for (int x = 0; x < rows; ++x)
          for (int y = 0; y < 3; ++y) A(x, y) = value(r);
        for (int x = 0; x < rhs; ++x) v(x) = value(r);
        auto set = [&] { ks[a].o.attr(ang ? "setAngularConstraints" : "setKinematicConstraints")(arr(r, A, false), vec(r, v)); };
        if (rhs != rows) {
          mustRaise("inequalities of mismatched sizes", set);
          c.label("mismatched sizes");
        } else {
          set();
          (ang ? ks[a].m.Ang : ks[a].m.Kin) = A;
          (ang ? ks[a].m.ang : ks[a].m.kin) = v;
        }
      } else if (op == 14) {
        ps[a].o.attr("addContact")(ks[b].o);
        ps[a].m.contacts.push_back(ks[b].m);
      } else if (op == 15) {
        ps[a].o.attr("clearContacts")();
        ps[a].m.contacts.clear();
      } else {
        // plan with what the problem holds now, or with values a planner accepts
        MP& m = ps[a].m;
        if (r.chance(3, 4)) {
          static const int fl[] = {11, 27, 19, 7, 15, 31};
          ps[a].o.attr("constraints_").attr("flag_") = (m.con->flag = ref::flags()[(size_t)r.choice(8)].flag);
          ps[a].o.attr("costFunction_") = costObject(m.cost = r.chance(1, 2) ? ACCELERATION : DISTANCE_TRAVELED);
          ps[a].o.attr("GIWCrepresentation_") = reprObject(m.repr = r.chance(1, 2) ? DOUBLE_DESCRIPTION : FORCE);
          Eigen::Vector3d s[6] = {Eigen::Vector3d(0, 0, 0.8), Eigen::Vector3d(0.05, 0, 0), Eigen::Vector3d::Zero(), Eigen::Vector3d(0.05, 0.02, 0.8), Eigen::Vector3d::Zero(), Eigen::Vector3d::Zero()};
          for (int f = 0; f < 6; ++f) ps[a].o.attr(vectorNames[f]) = vec(r, m.v[f] = s[f] + 0.02 * Eigen::Vector3d(r.sym(1), r.sym(1), r.sym(1)) * (f == 4 ? 0 : 1));
          (void)fl;
          if (m.contacts.empty()) {
            ps[a].o.attr("addContact")(ks[b].o);
            m.contacts.push_back(ks[b].m);
          }
        }
        ProblemData p;
        for (int f = 0; f < 6; ++f) field(p, f) = m.v[f];
        p.useAngularMomentum_ = m.am;
        p.costFunction_ = (CostFunction)m.cost;
        p.representation_ = (GIWCRepresentation)m.repr;
        p.constraints_.flag_ = (ConstraintFlag)m.con->flag;
        p.constraints_.constraintAcceleration_ = m.con->acc;
        p.constraints_.maxAcceleration_ = m.con->maxAcc;
        p.constraints_.reduce_h_ = m.con->reduce;
        for (auto& k : m.contacts) {
          p.contacts_.emplace_back();
          ContactData& d = p.contacts_.back();
          d.contactPhase_ = k.phase < 0 ? 0 : &pool(k.phase);
          if (k.kin.size()) d.Kin_ = k.Kin, d.kin_ = k.kin;
          if (k.ang.size()) d.Ang_ = k.Ang, d.ang_ = k.ang;
        }
        Eigen::VectorXd Ts = Eigen::VectorXd::Constant(std::max(1, (int)m.contacts.size()), 0.6);
        if (m.repr == UNKNOWN_REPRESENTATION) continue;
        both(c, "computeCOMTraj after a history", [&] { return computeCOMTraj(p, Ts, 0.2); }, [&] { return N->mod.attr("computeCOMTraj")(ps[a].o, vec(r, Ts), 0.2); });
        planned = true;
      }
      if (r.chance(1, 3) || i + 1 == n) {
        if (r.chance(1, 8)) N->gc.attr("collect")();
        for (size_t k = 0; k < 2; ++k) {
          std::string s = std::to_string(k);
          readProblem("problem " + s, ps[k].o, ps[k].m);
          readConstraints("constraints " + s, cs[k].o, *cs[k].m);
          readContact("contact " + s, ks[k].o, ks[k].m);
        }
        for (auto& e : phases) {
          cd::Equilibrium* x = bp::extract<cd::Equilibrium*>(e.first);
          PBT_CHECK(x->m_mass == pool(e.second).m_mass && x->m_G_centr == pool(e.second).m_G_centr, "a phase read back from a contact has changed");
        }
      }
    }
  } catch (const bp::error_already_set&) {
    PBT_FAIL("raises " << pyError() << " after operations " << log.str());
  } catch (pbt::Failure& f) {
    f.msg += " after operations " + log.str();
    throw;
  }
  c.desc << "operations " << log.str() << "\n";
  if (planned) c.label("planned");
  if (dropped) c.label("an object was dropped");
  c.nontrivial = n >= 3;
}
}  // namespace

pbt::Property pbt::property() {
  start();  // before any fork
  return {"C18",
          "planning, capturability and end-effector requests issued through the Python binding with numpy arrays of several layouts and types, and histories of up to 30 "
          "operations on problem, constraint and contact objects whose owners come and go; non-trivial: a request was issued through both, or a history of at least 3 operations",
          {"the contact phases are C++ objects wrapped by the harness: the Python module of the dynamics library cannot be loaded here", "the binding is compiled into the harness, as is the library"},
          {{"plan", plan, 2500, 120000}, {"capturability", zero, 3000, 150000}, {"end effector", foot, 2500, 120000}, {"history", history, 4000, 200000}}};
}
