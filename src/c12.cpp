#include <hpp/bezier-com-traj/solver/eiquadprog-fast.hpp>
#include <hpp/bezier-com-traj/solver/solver-abstract.hpp>
#include "scene.hpp"
using namespace ref;
typedef Eigen::MatrixXd M;
typedef Eigen::VectorXd V;
typedef tsid::solvers::EiquadprogFast QP;

struct Prob {
  M H, A, E;     // A x <= b, E x = e
  V g, b, e, lo, hi;
  bool planted = false, contradictory = false, dependent = false, forceShaped = false;
  V x0;          // planted feasible point
  double slack = 0;
};

static V vec(pbt::Src& s, int n, double m, bool ints) {
  V v(n);
  for (int i = 0; i < n; ++i) v(i) = ints ? (double)s.range(-3, 3) * m / 3 : s.sym(m);
  return v;
}
static void generate(pbt::Ctx& c, Prob& p) {
  pbt::Src& s = c.s;
  int n = s.chance(1, 10) ? s.range(8, 30) : s.range(1, 7);
  int m = s.chance(1, 10) ? s.range(30, 120) : s.range(0, 14);
  int q = s.chance(1, 2) ? 0 : s.range(1, std::max(1, n - 1));
  bool ints = s.chance(1, 3);
  // Hessian
  const double scale = s.chance(1, 2) ? 1 : s.logreal(1e-5, 1e8);
  int kind = (int)s.choice(3);
  if (kind == 0)
    p.H = M::Identity(n, n);
  else if (kind == 1) {
    V d(n);
    for (int i = 0; i < n; ++i) d(i) = s.logreal(1, 100);
    p.H = d.asDiagonal();
  } else {
    M B(n, n);
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < n; ++j) B(i, j) = ints ? s.range(-2, 2) : s.sym(1);
    p.H = B * B.transpose() + (ints ? 1. : 0.05) * M::Identity(n, n);
  }
  p.H *= scale;
  if (n > 3 && s.chance(1, 8)) {  // the shape of a planning problem with contact forces
    p.H = M::Identity(n, n) * 1e-6;
    p.H.topLeftCorner(3, 3) = M::Identity(3, 3) * s.logreal(1e-2, 1e3);
    p.forceShaped = true;
    c.label("force shaped Hessian");
  }
  // centre of the unconstrained minimum
  V xc = vec(s, n, s.chance(1, 3) ? 0.1 : 3, ints);
  p.g = -p.H * xc;
  p.x0 = vec(s, n, 1, ints);
  // equalities
  p.E.resize(q, n);
  p.e.resize(q);
  for (int i = 0; i < q; ++i) {
    p.E.row(i) = vec(s, n, 1, ints).transpose();
    if (p.E.row(i).norm() < 0.1) p.E.row(i)(0) = 1;
    p.e(i) = p.E.row(i).dot(p.x0);
  }
  // inequalities
  p.planted = !s.chance(1, 4);
  p.slack = s.chance(1, 3) ? 0 : s.logreal(1e-3, 1);
  const double rs = s.chance(1, 3) ? 1 : 0;
  p.A.resize(m, n);
  p.b.resize(m);
  for (int i = 0; i < m; ++i) {
    int k = (int)s.choice(6);
    if (i > 0 && k == 5)  // a duplicate, opposite or multiple of an earlier row
      p.A.row(i) = p.A.row((int)s.choice((uint64_t)i)) * (s.chance(1, 2) ? -1 : 1) * (s.chance(1, 2) ? 1 : 2);
    else if (k == 4 && i > 0)
      p.A.row(i) = -p.A.row(i - 1);
    else
      p.A.row(i) = vec(s, n, 1, ints).transpose();
    if (p.A.row(i).norm() < 0.1) p.A.row(i)(0) = 1;
    double r = s.chance(1, 2) ? 0 : s.real(0, 2);
    if (p.planted)
      p.b(i) = p.A.row(i).dot(p.x0) + p.slack * p.A.row(i).norm() + r;
    else
      p.b(i) = p.A.row(i).dot(p.x0) + s.sym(1);
    if (p.A.row(i).norm() > 3) {
      double k = 3 / p.A.row(i).norm();
      p.A.row(i) *= k;
      p.b(i) *= k;
    }
    double f = rs > 0 ? s.logreal(0.3, 1e2) : 1;
    p.A.row(i) *= f;
    p.b(i) *= f;
  }
  // bounds
  int bk = (int)s.choice(4);
  if (bk == 1 || bk == 3) {
    p.lo.resize(n);
    for (int i = 0; i < n; ++i) p.lo(i) = s.chance(1, 3) ? -1e5 : p.x0(i) - p.slack - (s.chance(1, 2) ? 0 : s.real(0, 1));
  }
  if (bk == 2 || bk == 3) {
    p.hi.resize(n);
    for (int i = 0; i < n; ++i) p.hi(i) = s.chance(1, 3) ? 1e5 : p.x0(i) + p.slack + (s.chance(1, 2) ? 0 : s.real(0, 1));
  }
  if (q > 0 && s.chance(1, 6)) {  // dependent equalities
    int i = (int)s.choice((uint64_t)q);
    p.E.conservativeResize(q + 1, n);
    p.e.conservativeResize(q + 1);
    p.E.row(q) = 2 * p.E.row(i);
    p.e(q) = 2 * p.e(i);
    p.dependent = true;
  } else if (q > 0) {
    Eigen::JacobiSVD<M> svd(p.E);
    if (svd.singularValues()(q - 1) < 1e-2) throw pbt::Discard();
  }
  if (m > 0 && p.planted && s.chance(1, 5)) {  // contradiction: a combination of rows that excludes itself
    int k = s.range(1, std::min(3, m));
    V a = V::Zero(n);
    double r = 0;
    for (int i = 0; i < k; ++i) {
      double w = s.real(0.3, 1) / p.A.row(i).norm();
      a += w * p.A.row(i).transpose();
      r += w * p.b(i);
    }
    double gap = s.logreal(1e-3, 1);
    if (a.norm() > 1e-2) {
      p.A.conservativeResize(m + 1, n);
      p.b.conservativeResize(m + 1);
      p.A.row(m) = -a.transpose();
      p.b(m) = -r - gap;
      p.contradictory = true;
    }
  }
  c.desc << "H\n" << p.H << "\ng " << p.g.transpose() << "\nA\n" << p.A << "\nb " << p.b.transpose() << "\nE\n" << p.E << "\ne " << p.e.transpose()
         << "\nlower " << p.lo.transpose() << "\nupper " << p.hi.transpose() << "\nplanted " << p.planted << " at " << p.x0.transpose() << " slack " << p.slack
         << " contradictory " << p.contradictory << " dependent " << p.dependent << "\n";
  c.label(p.contradictory ? "contradiction planted" : p.planted ? (p.slack > 0 ? "interior point planted" : "boundary point planted") : "not planted");
  if (p.dependent) c.label("dependent equalities");
  if (p.lo.size() || p.hi.size()) c.label("bounds");
}
// all inequalities with unit rows
static void stack(const Prob& p, M& A, V& b) {
  const int n = (int)p.g.size();
  int m = (int)p.A.rows() + (int)p.lo.size() + (int)p.hi.size();
  A = M::Zero(m, n);
  b = V::Zero(m);
  int r = 0;
  for (int i = 0; i < p.A.rows(); ++i, ++r) {
    double k = p.A.row(i).norm();
    A.row(r) = p.A.row(i) / k;
    b(r) = p.b(i) / k;
  }
  for (int i = 0; i < p.lo.size(); ++i, ++r) {
    A(r, i) = -1;
    b(r) = -p.lo(i);
  }
  for (int i = 0; i < p.hi.size(); ++i, ++r) {
    A(r, i) = 1;
    b(r) = p.hi(i);
  }
}
static void checkPoint(const Prob& p, const M& A, const V& b, const V& x, double cost, const char* who) {
  PBT_CHECK(x.size() == p.g.size(), who << ": solution of size " << x.size());
  const double X = 1 + x.cwiseAbs().maxCoeff();
  const double tol = 4e-6 * X;  // 1e-7 on rows of norm 0.03 and more
  if (A.rows()) {
    int w;
    double v = (A * x - b).maxCoeff(&w);
    PBT_CHECK(v <= tol, who << ": inequality " << w << " violated by " << v << " at " << x.transpose());
  }
  if (p.E.rows()) {
    double v = (p.E * x - p.e).cwiseAbs().maxCoeff();
    PBT_CHECK(v <= tol, who << ": equality violated by " << v << " at " << x.transpose());
  }
  // minimality: -gradient in the cone of the active normals (plus the span of the equalities)
  V grad = p.H * x + p.g;
  std::vector<V> cols;
  for (int i = 0; i < A.rows(); ++i)
    if (A.row(i).dot(x) - b(i) >= -1e-5 * X) cols.push_back(A.row(i).transpose());
  for (int i = 0; i < p.E.rows(); ++i) {
    cols.push_back(p.E.row(i).transpose());
    cols.push_back(-p.E.row(i).transpose());
  }
  M C(x.size(), (int)cols.size());
  for (size_t i = 0; i < cols.size(); ++i) C.col((int)i) = cols[i];
  V y;
  double rn = grad.norm();
  const double gs = p.H.norm() * X + p.g.norm();
  if (!cols.empty()) nnls(C, -grad / gs, y, rn);
  else rn /= gs;
  PBT_CHECK(rn <= 1e-5, who << ": " << x.transpose() << " is not the constrained minimiser: residual of the optimality conditions " << rn);
  double f = 0.5 * x.dot(p.H * x) + p.g.dot(x);
  PBT_CHECK(std::fabs(f - cost) <= (p.forceShaped || p.slack == 0 ? 1e-3 : 1e-7) * (gs * X), who << ": objective " << cost << " reported, " << f << " at the solution");
}
static std::string certificate(const Prob& p, const M& CI, const V& ci, const QP& s, const V& x) {
  (void)CI;
  std::ostringstream o;
  const int q = s.getActiveSetSize(), me = (int)p.E.rows();
  const double X = 1 + x.cwiseAbs().maxCoeff(), gs = p.H.norm() * X + p.g.norm();
  if (q < me || q > me + (int)CI.rows() || q > (int)x.size()) {
    o << "active set of size " << q;
    return o.str();
  }
  V r = p.H * x + p.g;
  std::set<int> seen;
  for (int i = 0; i < q; ++i) {
    int a = s.getActiveSet()(i);
    double u = s.getLagrangeMultipliers()(i);
    if (i < me) {
      if (a != -i - 1) {
        o << "entry " << i << " of the active set is " << a;
        return o.str();
      }
      r -= u * p.E.row(i).transpose();
      continue;
    }
    if (a < 0 || a >= CI.rows() || !seen.insert(a).second) {
      o << "entry " << i << " of the active set is " << a;
      return o.str();
    }
    double k = CI.row(a).norm();
    if (u * k < -1e-7 * gs) {
      o << "multiplier of inequality " << a << " is " << u;
      return o.str();
    }
    if (std::fabs(CI.row(a).dot(x) + ci(a)) / k > 1e-6 * X) {
      o << "inequality " << a << " is listed as active at " << CI.row(a).dot(x) + ci(a);
      return o.str();
    }
    r -= u * CI.row(a).transpose();
  }
  if (r.norm() > (p.forceShaped || p.slack == 0 ? 1e-3 : 1e-5) * gs) {
    o << "stationarity residual " << r.norm() / gs;
    return o.str();
  }
  return "";
}

static void check(pbt::Ctx& c) {
  Prob p;
  generate(c, p);
  M A;
  V b;
  stack(p, A, b);
  const int n = (int)p.g.size();
  // through the common entry point
  V init = V::Zero(n);
  M A0 = p.A, E0 = p.E;
  if (c.s.chance(1, 8)) {  // no guess; without rows no columns are needed
    init.resize(0);
    if (A0.rows() == 0) A0.resize(0, 0);
    if (E0.rows() == 0) E0.resize(0, 0);
  }
  solvers::ResultData res = solvers::solve(A0, p.b, E0, p.e, p.H, p.g, init, p.lo, p.hi, solvers::SOLVER_QUADPROG);
  // and directly
  M CI(A.rows(), n);
  V ci(A.rows());
  CI.topRows(p.A.rows()) = -p.A;
  ci.head(p.A.rows()) = p.b;
  CI.bottomRows(A.rows() - p.A.rows()) = -A.bottomRows(A.rows() - p.A.rows());
  ci.tail(A.rows() - p.A.rows()) = b.tail(A.rows() - p.A.rows());
  QP qp;
  V x = V::Zero(n);
  tsid::solvers::EiquadprogFast_status st = qp.solve_quadprog(p.H, p.g, p.E, -p.e, CI, ci, x);
  c.label(st == tsid::solvers::EIQUADPROG_FAST_OPTIMAL ? "optimal" : st == tsid::solvers::EIQUADPROG_FAST_UNBOUNDED ? "infeasible" : st == tsid::solvers::EIQUADPROG_FAST_REDUNDANT_EQUALITIES ? "redundant equalities" : "other verdict");
  // sparse entry point, an object that has solved another problem before, and a provided factor of the inverse
  const int variant = (int)c.s.choice(4);
  if (variant) {
    c.label(variant == 1 ? "sparse" : variant == 2 ? "reused object" : "inverse provided");
    QP q2;
    V x2 = V::Zero(n);
    tsid::solvers::EiquadprogFast_status st2;
    if (variant == 1) {
      QP::SpMat Hs = p.H.sparseView();
      st2 = q2.solve_quadprog_sparse(Hs, p.g, p.E, -p.e, CI, ci, x2);
    } else if (variant == 2) {
      V g2 = vec(c.s, n, 3, false) * p.H.norm(), ci2 = ci;
      for (int i = 0; i < ci2.size(); ++i) ci2(i) += c.s.sym(1);
      q2.solve_quadprog(p.H, g2, p.E, -p.e, CI, ci2, x2);
      x2.setZero();
      st2 = q2.solve_quadprog(p.H, p.g, p.E, -p.e, CI, ci, x2);
    } else {
      q2.reset(n, (int)p.e.size(), (int)ci.size());
      q2.is_inverse_provided_ = true;
      q2.m_J = p.H.llt().matrixU().solve(M::Identity(n, n));
      st2 = q2.solve_quadprog(p.H, p.g, p.E, -p.e, CI, ci, x2);
    }
    if (p.slack > 0 && p.planted && !p.dependent) PBT_CHECK(st2 == st, "variant " << variant << ": status " << st2 << " instead of " << st);
    if (st2 == tsid::solvers::EIQUADPROG_FAST_OPTIMAL) {
      checkPoint(p, A, b, x2, q2.getObjValue(), "variant");
      std::string e = certificate(p, CI, ci, q2, x2);
      PBT_CHECK(e.empty(), "variant " << variant << ": exposed multipliers do not certify the solution: " << e);
    }
  }
  PBT_CHECK(res.success_ == (st == tsid::solvers::EIQUADPROG_FAST_OPTIMAL), "common entry point " << res.success_ << ", solver status " << st);
  c.nontrivial = A.rows() + p.E.rows() > 0;
  if (res.success_) {
    PBT_CHECK(!p.contradictory, "a contradictory problem is declared solved at " << res.x.transpose());
    checkPoint(p, A, b, res.x, res.cost_, "entry point");
    checkPoint(p, A, b, x, qp.getObjValue(), "solver");
    std::string e = certificate(p, CI, ci, qp, x);
    PBT_CHECK(e.empty(), "exposed multipliers do not certify the solution: " << e);
    return;
  }
  PBT_CHECK(st != tsid::solvers::EIQUADPROG_FAST_REDUNDANT_EQUALITIES || p.dependent, "independent equalities refused as redundant");
  if (p.dependent) return;  // may be refused
  PBT_CHECK(st != tsid::solvers::EIQUADPROG_FAST_MAX_ITER_REACHED, "iteration limit reached");
  if (p.planted && !p.contradictory && p.slack > 0) {
    PBT_CHECK(false, "declared infeasible although " << p.x0.transpose() << " satisfies every constraint with slack " << p.slack);
  }
  if (!p.contradictory && !p.planted) {
    V y;
    if (!refQP(M::Identity(n, n), V(-p.x0), A, b.array() - 1e-5, p.E, p.e, y)) return;
    if ((A * y - b).maxCoeff() > -0.5e-5 || (p.E.rows() && (p.E * y - p.e).cwiseAbs().maxCoeff() > 1e-9)) return;
    PBT_FAIL("declared infeasible although " << y.transpose() << " satisfies every constraint with slack 1e-5");
  }
}

pbt::Property pbt::property() {
  return {"C12",
          "random strictly convex programs (1 to 30 variables, up to 120 inequalities, duplicates and opposite rows, integer "
          "data for degenerate vertices, equalities, bounds, Hessians from 1e-5 to 1e8) with a planted feasible point or "
          "contradiction; non-trivial: at least one constraint, verdict or solution judged",
          {"optimality judged by the Karush-Kuhn-Tucker conditions (tolerance 1e-5 relative), infeasibility by the planted point, its slack or a verified feasible point"},
          {{"programs", check, 400000, 20000000}}};
}
