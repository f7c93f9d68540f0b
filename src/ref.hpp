// Reference model: Bezier algebra in extended precision, written from the definitions
// (boundary conditions, Bernstein polynomials, derivatives) and not from the code under test.
#pragma once
#include <hpp/bezier-com-traj/common_solve_methods.hh>
#include <hpp/bezier-com-traj/data.hh>
#include <hpp/bezier-com-traj/solve.hh>
#include <hpp/bezier-com-traj/waypoints/waypoints_definition.hh>
#include <string>
#include <vector>

namespace ref {
using bezier_com_traj::ConstraintFlag;
using bezier_com_traj::ContactData;
using bezier_com_traj::MatrixXX;
using bezier_com_traj::point_t;
using bezier_com_traj::ProblemData;
using bezier_com_traj::VectorX;
typedef long double ld;
typedef Eigen::Matrix<ld, 3, 1> V3;
typedef Eigen::Matrix<ld, 3, 3> M3;
typedef Eigen::Matrix<ld, 6, 1> V6;
typedef Eigen::Matrix<ld, 6, 3> M63;

// polynomial in the normalised time u, monomial coefficients
typedef std::vector<ld> Poly;
Poly padd(const Poly& a, const Poly& b, ld kb = 1);
Poly pmul(const Poly& a, const Poly& b);
Poly pscale(const Poly& a, ld k);
Poly pderiv(const Poly& a);
ld peval(const Poly& a, ld u);
Poly psub(const Poly& a, ld u0, ld u1);                // a(u0 + v (u1-u0)) as a polynomial in v
std::vector<ld> pbern(const Poly& a, int degree);      // Bernstein coefficients at the given degree
Poly pfrombern(const std::vector<ld>& b);              // inverse

ld binom(int n, int k);

// Affine expression of the free control points: value = sum_k f[k] * x_k + s
struct AffPt {
  std::vector<ld> f;
  V3 s;
};
// The curve selected by a condition set: its control points
struct Curve {
  int n = 0;      // degree
  int nfree = 0;  // number of distinct free 3D control points
  ld T = 1;
  std::vector<AffPt> cp;
  // polynomial form
  std::vector<Poly> F;  // per free point
  Poly S[3];
  void finish();
  // derivative of the given order wrt time at normalised time u: coefficient per free point and constant
  AffPt at(ld u, int order) const;
  // control points of the derivative of the given order (values, i.e. scaled by time)
  std::vector<AffPt> derivCP(int order) const;
  V3 value(ld u, int order, const std::vector<V3>& x) const;
};
struct Bc {  // boundary conditions
  V3 c0, dc0, ddc0, j0, c1, dc1, ddc1, j1;
};
Bc bcOf(const ProblemData& p);

struct FlagInfo {
  int flag;
  const char* name;
  bool com;     // usable by the COM planner
  int nfree;
};
const std::vector<FlagInfo>& flags();  // the ten supported sets
const FlagInfo* flagInfo(int flag);

// Curve of a supported condition set, derived from the boundary conditions.
Curve makeCurve(int flag, const Bc& bc, ld T);
inline Curve makeCurve(const ProblemData& p, ld T) { return makeCurve(p.constraints_.flag_, bcOf(p), T); }

// per-unit-mass wrench [ddc ; c x (ddc - g)] as an affine function of the single free point
struct AffW {
  M63 A;
  V6 b;
};
AffW wrenchAt(const Curve& c, const V3& g, ld u);
// its Bernstein control points at the given degree over the normalised interval [u0,u1]
std::vector<AffW> wrenchCP(const Curve& c, const V3& g, ld u0, ld u1, int degree);
std::vector<AffPt> affCP(const Curve& c, int order, ld u0, ld u1);  // same for position / derivatives

M3 skewm(const V3& v);

// ---- systems of inequalities a.x <= b in R^n (n = 3 or 6) with bookkeeping ----
struct Row {
  Eigen::VectorXd a;
  double b;
  char kind;     // 's' stability, 'k' kinematics, 'a' acceleration, 'l' angular
  double t;      // instant or -1
  int phase;
  double scale;  // magnitude of the terms that make up b, for tolerances
};
typedef std::vector<Row> Sys;

// grid entries (time, phase): reference re-implementation of what the sampled modes promise
struct GridPt {
  double t;
  int phase;
};
std::vector<GridPt> gridFixed(const VectorX& Ts, int perPhase);   // entries as listed (a switch once)
std::vector<GridPt> gridStep(const VectorX& Ts, double step);
// instants with every phase that is active there
std::vector<GridPt> activeFixed(const VectorX& Ts, int perPhase);
std::vector<GridPt> activeStep(const VectorX& Ts, double step);

// rows of cone data: Hn unit rows; a wrench [ddc - g; c x (ddc - g)] is admissible iff Hn w >= margin
struct Cone {
  Eigen::MatrixXd Hn;    // unit rows
  Eigen::VectorXd hn;    // right-hand side exactly as the library states it (unscaled), normally 0
  Eigen::MatrixXd G;     // generators (columns)
  double mass;
  Eigen::Vector3d g;
  bool ok;               // H and G describe the same cone as far as can be checked
};
Cone coneOf(const centroidal_dynamics::Equilibrium& e);

Sys sysSampled(const ProblemData& p, const std::vector<Cone>& cones, const VectorX& Ts,
               const std::vector<GridPt>& active, const Curve& c, double reduce_h);
Sys sysContinuous(const ProblemData& p, const std::vector<Cone>& cones, const VectorX& Ts, int wdegree,
                  const Curve& c, double reduce_h);

// H = k I, g, constant (of one half of the stated cost)
struct Cost {
  double k;
  Eigen::Vector3d g;
  double c0;
};
Cost costOf(const ProblemData& p, const VectorX& Ts, const std::vector<GridPt>& grid, const Curve& c);

// ---- optimisation oracles ----
// Lawson-Hanson NNLS: min |E y - f|, y >= 0
bool nnls(const Eigen::MatrixXd& E, const Eigen::VectorXd& f, Eigen::VectorXd& y, double& rnorm);
// projection of x0 on {x: A x <= b}; returns false if (numerically) empty
bool project(const Eigen::MatrixXd& A, const Eigen::VectorXd& b, const Eigen::VectorXd& x0, Eigen::VectorXd& x);
// min 0.5 x'Hx+g'x st Ax<=b, Cx=d with H positive definite
bool refQP(const Eigen::MatrixXd& H, const Eigen::VectorXd& g, const Eigen::MatrixXd& A, const Eigen::VectorXd& b,
           const Eigen::MatrixXd& C, const Eigen::VectorXd& d, Eigen::VectorXd& x);
void toMat(const Sys& s, Eigen::MatrixXd& A, Eigen::VectorXd& b, bool unitRows, double tighten);
double maxViolation(const Eigen::MatrixXd& A, const Eigen::VectorXd& b, const Eigen::VectorXd& x);

inline V3 L(const Eigen::Vector3d& v) { return v.cast<ld>(); }
inline Eigen::Vector3d D(const V3& v) { return v.cast<double>(); }
}  // namespace ref
