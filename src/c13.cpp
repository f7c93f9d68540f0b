#include <hpp/bezier-com-traj/solver/glpk-wrapper.hpp>
#include <hpp/bezier-com-traj/solver/solver-abstract.hpp>
#include "scene.hpp"
using namespace ref;
typedef Eigen::MatrixXd M;
typedef Eigen::VectorXd V;

enum Kind { OPTIMUM, INFEASIBLE, UNBOUNDED_COST, KINDS };
struct LP {
  M A, E;
  V b, e, c, lo, hi, x0;
  Kind kind;
  double opt = 0;
  std::vector<int> big;  // large variables, which rows weigh with tiny coefficients
};

// entry of a row: small integers or reals, possibly sparse
struct Gen {
  pbt::Src& s;
  bool ints;
  int density;  // out of 8
  double val() { return ints ? s.range(-3, 3) : s.sym(1); }
  // large problems draw their entries from a generator seeded by one choice, so that the case stays short
  uint64_t st = 0;
  bool cheap = false;
  double rnd() {
    st = st * 6364136223846793005ULL + 1442695040888963407ULL;
    return (double)(st >> 11) / 9007199254740992.0;
  }
  V row(int n) {
    V v = V::Zero(n);
    for (int i = 0; i < n; ++i) {
      if (cheap) {
        if (rnd() * 8 < density) v(i) = ints ? std::floor(rnd() * 7) - 3 : 2 * rnd() - 1;
      } else if (density == 8 || (int)s.choice(8) < density)
        v(i) = val();
    }
    int k = cheap ? (int)(rnd() * n) : (int)s.choice((uint64_t)n);
    if (v.norm() < 0.1) v(k) = 1;
    return v;
  }
  double real(double a, double b) { return cheap ? a + (b - a) * rnd() : s.real(a, b); }
  bool chance(int a, int b) { return cheap ? rnd() * b < a : s.chance(a, b); }
};

static void generate(pbt::Ctx& c, LP& p, int size) {
  pbt::Src& s = c.s;
  int n, m, q;
  if (size == 0 || size == 3) {
    n = s.range(size == 3 ? 2 : 1, 8);
    m = s.range(0, 16);
    q = s.chance(1, 2) ? 0 : s.range(0, n);
  } else if (size == 1) {
    n = s.range(1, 60);
    m = s.range(0, 300);
    q = s.chance(1, 2) ? 0 : s.range(0, n);
  } else {
    n = s.range(20, 200);
    int total = s.range(500, 100000 / n);
    q = s.chance(1, 2) ? 0 : s.range(0, n / 2);
    m = std::max(0, total - q);
  }
  Gen g{s, s.chance(1, 3), s.chance(1, 3) ? s.range(1, 7) : 8};
  g.cheap = size == 1 || size == 2;
  if (g.cheap) g.st = s.choice(1u << 30);
  p.kind = (Kind)(s.chance(1, 2) ? 0 : (int)s.choice(KINDS));
  p.x0.resize(n);
  for (int i = 0; i < n; ++i) p.x0(i) = g.ints ? std::floor(g.real(-3, 4)) : g.real(-2, 2);
  if (s.chance(1, 10)) p.x0 *= 100;
  if (size == 3) {
    p.kind = s.chance(1, 4) ? INFEASIBLE : OPTIMUM;
    for (int i = 1; i < n; ++i)
      if (s.chance(1, 3)) {
        p.big.push_back(i);
        p.x0(i) = (s.chance(1, 2) ? 1 : -1) * std::floor(s.logreal(100, 9e4));
      }
  }
  auto weigh = [&](V& r) {
    if (p.big.empty()) return;
    double most = 0;
    for (int j : p.big) {
      r(j) *= s.logreal(1e-4, 10) / std::abs(p.x0(j));
      most = std::max(most, std::abs(r(j)));
    }
    if (r.cwiseAbs().maxCoeff() <= std::max(most, 0.1)) r(0) = 1;
  };
  V dir = V::Zero(n);  // recession direction of an unbounded programme
  if (p.kind == UNBOUNDED_COST)
    for (int i = 0; i < n; ++i) dir(i) = std::floor(g.real(-2, 3));
  if (p.kind == UNBOUNDED_COST && dir.norm() == 0) dir(0) = 1;
  p.A.resize(m, n);
  p.b.resize(m);
  p.E.resize(q, n);
  p.e.resize(q);
  V y = V::Zero(n);  // sum of multiplier * normal of the active constraints
  const bool dependent = q > 1 && s.chance(1, 4);
  if (dependent) c.label("dependent equalities");
  for (int i = 0; i < q; ++i) {
    V r = g.row(n);
    weigh(r);
    if (dependent && i == q - 1) r = -2 * p.E.row(0).transpose();
    if (p.kind == UNBOUNDED_COST) {
      r -= dir * (r.dot(dir) / dir.squaredNorm());
      if (g.ints) r = (r * dir.squaredNorm()).eval();
    }
    p.E.row(i) = r.transpose();
    p.e(i) = r.dot(p.x0);
    if (g.chance(2, 3)) y += g.real(-2, 2) * r;
  }
  for (int i = 0; i < m; ++i) {
    V r = g.row(n);
    weigh(r);
    if (p.kind == UNBOUNDED_COST && r.dot(dir) > 0) r = -r;
    bool active = g.chance(1, 3);
    double sl = active ? 0 : g.real(1e-2, 3);
    p.A.row(i) = r.transpose();
    p.b(i) = r.dot(p.x0) + sl;
    if (active && g.chance(3, 4)) y += g.real(0.1, 2) * r;
  }
  // bounds: one sided, two sided, coinciding, at or beyond the unbounded values
  const bool lo = size == 3 || s.chance(1, 2), hi = size == 3 || s.chance(1, 2);
  if (lo) p.lo = V::Constant(n, -1e5);
  if (hi) p.hi = V::Constant(n, 1e5);
  for (int i = 0; i < n; ++i) {
    int k = g.cheap ? (int)(g.rnd() * 6) : (int)s.choice(6);
    if (std::count(p.big.begin(), p.big.end(), i)) {  // fixed, so that its tiny coefficients are never pivots
      p.lo(i) = p.hi(i) = p.x0(i);
      continue;
    }
    if (k == 5) {  // beyond the documented values: no restriction
      if (lo) p.lo(i) = -1e5 - g.real(0, 1e5);
      if (hi) p.hi(i) = 1e5 + g.real(0, 1e5);
    }
    if (k == 0 || k == 5) continue;
    const bool canLo = !(p.kind == UNBOUNDED_COST && dir(i) < 0), canHi = !(p.kind == UNBOUNDED_COST && dir(i) > 0);
    if (lo && canLo && k != 2) {
      bool act = g.chance(1, 2);
      p.lo(i) = p.x0(i) - (act ? 0 : g.real(1e-2, 2));
      if (act && g.chance(1, 2)) y(i) -= g.real(0.1, 2);
    }
    if (hi && canHi && k != 1) {
      bool act = g.chance(1, 2);
      p.hi(i) = p.x0(i) + (act ? 0 : g.real(1e-2, 2));
      if (act && g.chance(1, 2)) y(i) += g.real(0.1, 2);
    }
    if (lo && hi && p.lo(i) == p.hi(i)) c.label("coinciding bounds");
  }
  p.c = -y;
  p.opt = p.c.dot(p.x0);
  if (p.kind == UNBOUNDED_COST) {
    p.c -= dir * ((p.c.dot(dir) + g.real(0.1, 1)) / dir.squaredNorm());  // c.dir < 0
  }
  if (p.kind == INFEASIBLE) {  // a non-negative combination of constraints contradicts one more row
    V a = V::Zero(n);
    double r = 0;
    for (int t = 0; t < 3 && m; ++t) {
      int i = (int)s.choice((uint64_t)m);
      double w = s.real(0.2, 1);
      a += w * p.A.row(i).transpose();
      r += w * p.b(i);
    }
    if (q) {
      int i = (int)s.choice((uint64_t)q);
      double w = s.sym(1);
      a += w * p.E.row(i).transpose();
      r += w * p.e(i);
    }
    if (hi) {
      int i = (int)s.choice((uint64_t)n);
      if (p.hi(i) < 1e5) {
        a(i) += 1;
        r += p.hi(i);
      }
    }
    if (lo) {
      int i = (int)s.choice((uint64_t)n);
      if (p.lo(i) > -1e5) {
        a(i) -= 1;
        r -= p.lo(i);
      }
    }
    if (a.norm() < 0.05) throw pbt::Discard();
    double gap = s.logreal(1e-2, 1) * std::max(1., a.norm());
    if (q && s.chance(1, 3)) {  // as an equality
      p.E.conservativeResize(q + 1, n);
      p.e.conservativeResize(q + 1);
      p.E.row(q) = a.transpose();
      p.e(q) = r + gap;
    } else {
      p.A.conservativeResize(m + 1, n);
      p.b.conservativeResize(m + 1);
      p.A.row(m) = -a.transpose();
      p.b(m) = -r - gap;
    }
  }
  static const char* names[] = {"optimum planted", "contradiction planted", "unbounded objective planted"};
  c.label(names[p.kind]);
  c.label(lo && hi ? "two-sided bounds" : lo || hi ? "one-sided bounds" : "no bounds");
  if (p.A.rows() + p.E.rows() == 0) c.label("no rows");
  if ((p.A.rows() + p.E.rows()) * n >= 50000) c.label("50000 coefficients or more");
  c.desc << names[p.kind] << ": " << n << " variables, " << p.A.rows() << " inequalities, " << p.E.rows() << " equalities\n";
  if (n * (p.A.rows() + p.E.rows()) < 400)
    c.desc << "c " << p.c.transpose() << "\nA\n" << p.A << "\nb " << p.b.transpose() << "\nE\n" << p.E << "\ne " << p.e.transpose() << "\nlower "
           << p.lo.transpose() << "\nupper " << p.hi.transpose() << "\nplanted " << p.x0.transpose() << "\n";
}

static void check(pbt::Ctx& c, int size) {
  LP p;
  generate(c, p, size);
  const int n = (int)p.c.size();
  V init = V::Constant(n, c.s.chance(1, 2) ? 0 : 7);
  M A0 = p.A, E0 = p.E, H0 = M::Zero(n, n);
  if (c.s.chance(1, 8)) {  // without rows no columns are needed, and the Hessian is not used
    if (A0.rows() == 0) A0.resize(0, 0);
    if (E0.rows() == 0) E0.resize(0, 0);
    H0.resize(0, 0);
  }
  solvers::ResultData res = solvers::solve(A0, p.b, E0, p.e, H0, p.c, init, p.lo, p.hi, solvers::SOLVER_GLPK);
  c.nontrivial = p.A.rows() + p.E.rows() + p.lo.size() + p.hi.size() > 0 && p.kind == OPTIMUM ? p.c.norm() > 0 : true;
  if (p.kind != OPTIMUM) {
    PBT_CHECK(!res.success_, (p.kind == INFEASIBLE ? "infeasible" : "unbounded") << " programme declared solved with cost " << res.cost_);
    return;
  }
  PBT_CHECK(res.success_, "no solution reported; optimum planted with cost " << p.opt);
  PBT_CHECK(res.x.size() == n, "solution of size " << res.x.size());
  const V& x = res.x;
  V rest = x.cwiseAbs().cwiseMax(p.x0.cwiseAbs());  // magnitude of the terms of a row
  for (int j : p.big) rest(j) = 1 + 1e-4 * rest(j);
  const double X = 1 + rest.maxCoeff();
  const double tol = 1e-6 * X * std::sqrt((double)n);
  if (p.A.rows()) {
    int w;
    double v = (p.A * x - p.b).maxCoeff(&w);
    PBT_CHECK(v <= tol, "inequality " << w << " violated by " << v);
  }
  if (p.E.rows()) {
    int w;
    double v = (p.E * x - p.e).cwiseAbs().maxCoeff(&w);
    PBT_CHECK(v <= tol, "equality " << w << " violated by " << v);
  }
  for (int i = 0; i < n; ++i) {
    if (p.lo.size() && p.lo(i) > -1e5) PBT_CHECK(x(i) >= p.lo(i) - tol, "lower bound " << i << " violated: " << x(i) << " < " << p.lo(i));
    if (p.hi.size() && p.hi(i) < 1e5) PBT_CHECK(x(i) <= p.hi(i) + tol, "upper bound " << i << " violated: " << x(i) << " > " << p.hi(i));
  }
  // the planted multipliers bound what the tolerance of the constraints can change in the objective
  const double ctol = 1e-6 * (1 + p.c.cwiseAbs().sum()) * X * std::sqrt((double)n);
  PBT_CHECK(std::fabs(p.c.dot(x) - res.cost_) <= ctol, "cost " << res.cost_ << " reported, " << p.c.dot(x) << " at the solution");
  PBT_CHECK(std::fabs(res.cost_ - p.opt) <= ctol, "cost " << res.cost_ << " instead of the optimum " << p.opt);
}
#include "c13_cycle.inc"
// The programme kept from a request that did not end, and its neighbourhood
static void kept(pbt::Ctx& c) {
  pbt::Src& s = c.s;
  const int m = kCycleIneq, q = kCycleEq, n = kCycleVars;
  M A = M::Zero(m, n), E = M::Zero(q, n);
  V b(m), e(q), g(n), lo(n), x0 = V::Zero(n);
  int changes = s.chance(1, 10) ? 0 : s.range(1, 6);
  std::vector<size_t> at;
  std::vector<double> by;
  for (int i = 0; i < changes; ++i) {
    at.push_back((size_t)s.choice(sizeof kCycle / sizeof kCycle[0]));
    by.push_back(1 + std::ldexp((double)s.range(-4, 4), -s.range(36, 52)));
  }
  size_t k = 0;
  for (auto& t : kCycle) {
    double v = t.v;
    for (size_t i = 0; i < at.size(); ++i)
      if (at[i] == k) v *= by[i];
    (t.i < m ? A(t.i, t.j) : E(t.i - m, t.j)) = v;
    ++k;
  }
  for (int i = 0; i < m; ++i) b(i) = kCycleRhs[i];
  for (int i = 0; i < q; ++i) e(i) = kCycleRhs[m + i];
  for (int i = 0; i < n; ++i) g(i) = kCycleCost[i], lo(i) = kCycleLo[i];
  c.desc << "kept programme, " << changes << " coefficients changed\n";
  c.nontrivial = true;
  solvers::ResultData res = solvers::solve(A, b, E, e, M::Identity(n, n), g, x0, lo, V(), solvers::SOLVER_GLPK);
  PBT_CHECK(!res.success_, "infeasible programme declared solved with cost " << res.cost_);
}
static void uneven(pbt::Ctx& c) { check(c, 3); }
static void small(pbt::Ctx& c) { check(c, 0); }
static void medium(pbt::Ctx& c) { check(c, 1); }
static void large(pbt::Ctx& c) { check(c, 2); }

pbt::Property pbt::property() {
  return {"C13",
          "random linear programs built around a planted primal-dual optimum, a planted contradiction or a planted improving ray; 1 to 200 "
          "variables, up to 100000 coefficients, equalities, all kinds of bounds, large fixed variables weighed by tiny coefficients; non-trivial: at least one constraint and a non-zero objective, or a failure to be reported",
          {"optimality by the planted dual certificate; tolerance 1e-6 times magnitude"},
          {{"kept", kept, 1000, 100000}, {"uneven", uneven, 60000, 3000000}, {"small", small, 200000, 10000000}, {"medium", medium, 10000, 500000}, {"large", large, 200, 8000}}};
}
