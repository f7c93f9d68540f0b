#include "ref.hpp"

#include <algorithm>
#include <cmath>

namespace ref {
using namespace bezier_com_traj;

ld binom(int n, int k) {
  if (k < 0 || k > n) return 0;
  ld r = 1;
  for (int i = 1; i <= k; ++i) r = r * (ld)(n - k + i) / (ld)i;
  return std::round(r);
}
Poly padd(const Poly& a, const Poly& b, ld kb) {
  Poly r(std::max(a.size(), b.size()), 0);
  for (size_t i = 0; i < a.size(); ++i) r[i] += a[i];
  for (size_t i = 0; i < b.size(); ++i) r[i] += kb * b[i];
  return r;
}
Poly pmul(const Poly& a, const Poly& b) {
  if (a.empty() || b.empty()) return Poly();
  Poly r(a.size() + b.size() - 1, 0);
  for (size_t i = 0; i < a.size(); ++i)
    for (size_t j = 0; j < b.size(); ++j) r[i + j] += a[i] * b[j];
  return r;
}
Poly pscale(const Poly& a, ld k) {
  Poly r(a);
  for (auto& v : r) v *= k;
  return r;
}
Poly pderiv(const Poly& a) {
  Poly r;
  for (size_t i = 1; i < a.size(); ++i) r.push_back(a[i] * (ld)i);
  return r;
}
ld peval(const Poly& a, ld u) {
  ld r = 0;
  for (size_t i = a.size(); i-- > 0;) r = r * u + a[i];
  return r;
}
Poly psub(const Poly& a, ld u0, ld u1) {
  Poly r, lin;
  lin.push_back(u0);
  lin.push_back(u1 - u0);
  for (size_t i = a.size(); i-- > 0;) {
    r = pmul(r, lin);
    if (r.empty()) r.push_back(0);
    r[0] += a[i];
  }
  return r;
}
std::vector<ld> pbern(const Poly& a, int degree) {
  std::vector<ld> b((size_t)degree + 1, 0);
  for (int i = 0; i <= degree; ++i)
    for (int k = 0; k <= i && k < (int)a.size(); ++k) b[(size_t)i] += binom(i, k) / binom(degree, k) * a[(size_t)k];
  return b;
}
Poly pfrombern(const std::vector<ld>& b) {
  int n = (int)b.size() - 1;
  Poly r(b.size(), 0);
  for (int i = 0; i <= n; ++i)
    for (int j = i; j <= n; ++j)
      r[(size_t)j] += b[(size_t)i] * binom(n, i) * binom(n - i, j - i) * (((j - i) % 2) ? -1 : 1);
  return r;
}

void Curve::finish() {
  n = (int)cp.size() - 1;
  F.assign((size_t)nfree, Poly());
  for (int k = 0; k < nfree; ++k) {
    std::vector<ld> b;
    for (auto& p : cp) b.push_back(p.f[(size_t)k]);
    F[(size_t)k] = pfrombern(b);
  }
  for (int d = 0; d < 3; ++d) {
    std::vector<ld> b;
    for (auto& p : cp) b.push_back(p.s(d));
    S[d] = pfrombern(b);
  }
}
AffPt Curve::at(ld u, int order) const {
  AffPt r;
  ld k = 1;
  for (int i = 0; i < order; ++i) k /= T;
  for (auto f : F) {
    for (int i = 0; i < order; ++i) f = pderiv(f);
    r.f.push_back(k * peval(f, u));
  }
  for (int d = 0; d < 3; ++d) {
    Poly s = S[d];
    for (int i = 0; i < order; ++i) s = pderiv(s);
    r.s(d) = k * peval(s, u);
  }
  return r;
}
std::vector<AffPt> Curve::derivCP(int order) const {
  std::vector<AffPt> r = cp;
  for (int o = 0; o < order; ++o) {
    std::vector<AffPt> q;
    ld m = (ld)(r.size() - 1) / T;
    for (size_t i = 0; i + 1 < r.size(); ++i) {
      AffPt a;
      a.s = m * (r[i + 1].s - r[i].s);
      for (size_t k = 0; k < r[i].f.size(); ++k) a.f.push_back(m * (r[i + 1].f[k] - r[i].f[k]));
      q.push_back(a);
    }
    r = q;
  }
  return r;
}
V3 Curve::value(ld u, int order, const std::vector<V3>& x) const {
  AffPt a = at(u, order);
  V3 r = a.s;
  for (size_t k = 0; k < a.f.size(); ++k) r += a.f[k] * x[k];
  return r;
}

Bc bcOf(const ProblemData& p) {
  Bc b;
  b.c0 = L(p.c0_);
  b.dc0 = L(p.dc0_);
  b.ddc0 = L(p.ddc0_);
  b.j0 = L(p.j0_);
  b.c1 = L(p.c1_);
  b.dc1 = L(p.dc1_);
  b.ddc1 = L(p.ddc1_);
  b.j1 = L(p.j1_);
  return b;
}

const std::vector<FlagInfo>& flags() {
  static const std::vector<FlagInfo> f = {
      {INIT_POS | INIT_VEL | END_POS | END_VEL, "c0_dc0_dc1_c1", true, 1},
      {INIT_POS | INIT_VEL | END_POS, "c0_dc0_c1", true, 1},
      {INIT_POS | INIT_VEL | END_VEL, "c0_dc0_dc1", true, 1},
      {INIT_POS | INIT_VEL | INIT_ACC, "c0_dc0_ddc0", true, 1},
      {INIT_POS | INIT_VEL | INIT_ACC | END_POS, "c0_dc0_ddc0_c1", true, 1},
      {INIT_POS | INIT_VEL | INIT_ACC | END_POS | END_VEL, "c0_dc0_ddc0_dc1_c1", true, 1},
      {INIT_POS | INIT_VEL | INIT_ACC | END_POS | END_VEL | END_ACC, "c0_dc0_ddc0_ddc1_dc1_c1", true, 1},
      {INIT_POS | INIT_VEL | INIT_ACC | INIT_JERK | END_POS | END_VEL | END_ACC | END_JERK,
       "c0_dc0_ddc0_j0_j1_ddc1_dc1_c1", true, 1},
      {INIT_POS | INIT_VEL | INIT_ACC | INIT_JERK | END_POS | END_VEL | END_ACC | END_JERK | THREE_FREE_VAR,
       "c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1", false, 3},
      {INIT_POS | INIT_VEL | INIT_ACC | INIT_JERK | END_POS | END_VEL | END_ACC | END_JERK | FIVE_FREE_VAR,
       "c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1", false, 5}};
  return f;
}
const FlagInfo* flagInfo(int flag) {
  for (auto& f : flags())
    if (f.flag == flag) return &f;
  return 0;
}

Curve makeCurve(int flag, const Bc& bc, ld T) {
  const FlagInfo* fi = flagInfo(flag);
  Curve c;
  c.T = T;
  if (!fi) return c;
  c.nfree = fi->nfree;
  int ni = 1, ne = 0;
  if (flag & INIT_VEL) ni = 2;
  if (flag & INIT_ACC) ni = 3;
  if (flag & INIT_JERK) ni = 4;
  bool stop = (flag & END_VEL) && !(flag & END_POS);  // terminal velocity zero, terminal position free
  if (!stop && (flag & END_POS)) {
    ne = 1;
    if (flag & END_VEL) ne = 2;
    if (flag & END_ACC) ne = 3;
    if (flag & END_JERK) ne = 4;
  }
  int n = ni + ne + fi->nfree + (stop ? 1 : 0) - 1;
  c.cp.assign((size_t)n + 1, AffPt());
  for (auto& p : c.cp) {
    p.f.assign((size_t)fi->nfree, 0);
    p.s.setZero();
  }
  ld N = n;
  // start: forward differences of the control points are the scaled derivatives
  V3 d1 = bc.dc0 * T / N, d2 = V3::Zero(), d3 = V3::Zero();
  if (n >= 2) d2 = bc.ddc0 * T * T / (N * (N - 1));
  if (n >= 3) d3 = bc.j0 * T * T * T / (N * (N - 1) * (N - 2));
  c.cp[0].s = bc.c0;
  if (ni > 1) c.cp[1].s = bc.c0 + d1;
  if (ni > 2) c.cp[2].s = bc.c0 + 2 * d1 + d2;
  if (ni > 3) c.cp[3].s = bc.c0 + 3 * d1 + 3 * d2 + d3;
  // end: the same with time reversed
  V3 e1 = -bc.dc1 * T / N, e2 = V3::Zero(), e3 = V3::Zero();
  if (n >= 2) e2 = bc.ddc1 * T * T / (N * (N - 1));
  if (n >= 3) e3 = -bc.j1 * T * T * T / (N * (N - 1) * (N - 2));
  if (ne > 0) c.cp[(size_t)n].s = bc.c1;
  if (ne > 1) c.cp[(size_t)n - 1].s = bc.c1 + e1;
  if (ne > 2) c.cp[(size_t)n - 2].s = bc.c1 + 2 * e1 + e2;
  if (ne > 3) c.cp[(size_t)n - 3].s = bc.c1 + 3 * e1 + 3 * e2 + e3;
  for (int k = 0; k < fi->nfree; ++k) c.cp[(size_t)(ni + k)].f[(size_t)k] = 1;
  if (stop) c.cp[(size_t)n].f[0] = 1;
  c.finish();
  return c;
}

M3 skewm(const V3& v) {
  M3 m;
  m << 0, -v(2), v(1), v(2), 0, -v(0), -v(1), v(0), 0;
  return m;
}
static AffW wfrom(ld f, const V3& s, ld F, const V3& S, const V3& g) {
  AffW w;
  w.A.setZero();
  V3 Sg = S - g;
  w.A.topRows<3>() = F * M3::Identity();
  w.A.bottomRows<3>() = F * skewm(s) - f * skewm(Sg);
  w.b.head<3>() = S;
  w.b.tail<3>() = s.cross(Sg);
  return w;
}
AffW wrenchAt(const Curve& c, const V3& g, ld u) {
  AffPt p = c.at(u, 0), a = c.at(u, 2);
  return wfrom(p.f[0], p.s, a.f[0], a.s, g);
}
std::vector<AffW> wrenchCP(const Curve& c, const V3& g, ld u0, ld u1, int degree) {
  ld k = 1 / (c.T * c.T);
  Poly f = c.F[0], F = pscale(pderiv(pderiv(f)), k);
  Poly s[3], Sg[3], S[3];
  for (int d = 0; d < 3; ++d) {
    s[d] = c.S[d];
    S[d] = pscale(pderiv(pderiv(s[d])), k);
    Sg[d] = padd(S[d], Poly(1, g(d)), -1);
  }
  std::vector<AffW> r((size_t)degree + 1);
  for (auto& w : r) {
    w.A.setZero();
    w.b.setZero();
  }
  auto put = [&](const Poly& p, int row, int col) {
    Poly q = psub(p, u0, u1);
    std::vector<ld> b = pbern(q, degree);
    for (int i = 0; i <= degree; ++i) {
      if (col < 3)
        r[(size_t)i].A(row, col) = b[(size_t)i];
      else
        r[(size_t)i].b(row) = b[(size_t)i];
    }
  };
  auto trim = [&](Poly p) {  // the leading coefficient above the requested degree cancels exactly
    if ((int)p.size() > degree + 1) p.resize((size_t)degree + 1);
    return p;
  };
  for (int d = 0; d < 3; ++d) {
    put(trim(F), d, d);
    put(trim(S[d]), d, 3);
  }
  for (int i = 0; i < 3; ++i) {
    int j = (i + 1) % 3, l = (i + 2) % 3;
    // (s x Sg)_i
    put(trim(padd(pmul(s[j], Sg[l]), pmul(s[l], Sg[j]), -1)), 3 + i, 3);
    // F skew(s) - f skew(Sg): entry (i,j) = -v_l, entry (i,l) = v_j with v = F s - f Sg
    Poly vl = padd(pmul(F, s[l]), pmul(f, Sg[l]), -1), vj = padd(pmul(F, s[j]), pmul(f, Sg[j]), -1);
    put(trim(pscale(vl, -1)), 3 + i, j);
    put(trim(vj), 3 + i, l);
  }
  return r;
}
std::vector<AffPt> affCP(const Curve& c, int order, ld u0, ld u1) {
  ld k = 1;
  for (int i = 0; i < order; ++i) k /= c.T;
  int deg = std::max(0, c.n - order);
  std::vector<AffPt> r((size_t)deg + 1);
  for (auto& p : r) {
    p.f.assign((size_t)c.nfree, 0);
    p.s.setZero();
  }
  auto cps = [&](Poly p) {
    for (int i = 0; i < order; ++i) p = pderiv(p);
    return pbern(psub(pscale(p, k), u0, u1), deg);
  };
  for (int q = 0; q < c.nfree; ++q) {
    auto b = cps(c.F[(size_t)q]);
    for (int i = 0; i <= deg; ++i) r[(size_t)i].f[(size_t)q] = b[(size_t)i];
  }
  for (int d = 0; d < 3; ++d) {
    auto b = cps(c.S[d]);
    for (int i = 0; i <= deg; ++i) r[(size_t)i].s(d) = b[(size_t)i];
  }
  return r;
}

std::vector<GridPt> gridFixed(const VectorX& Ts, int per) {
  std::vector<GridPt> r;
  r.push_back({0., 0});
  double start = 0;
  for (int i = 0; i < Ts.size(); ++i) {
    for (int j = 1; j <= per; ++j) r.push_back({start + Ts[i] * j / per, i});
    start += Ts[i];
  }
  return r;
}
std::vector<GridPt> activeFixed(const VectorX& Ts, int per) {
  std::vector<GridPt> r;
  double start = 0;
  for (int i = 0; i < Ts.size(); ++i) {
    for (int j = 0; j <= per; ++j) r.push_back({start + Ts[i] * j / per, i});
    start += Ts[i];
  }
  return r;
}
std::vector<GridPt> gridStep(const VectorX& Ts, double step) {
  std::vector<GridPt> r;
  double start = 0;
  for (int i = 0; i < Ts.size(); ++i) {
    double end = start + Ts[i];
    for (double t = start; t < end; t += step) r.push_back({t, i});
    r.push_back({end, i});
    start = end;
  }
  return r;
}
// a phase change is listed as end of one phase and start of the next already
std::vector<GridPt> activeStep(const VectorX& Ts, double step) { return gridStep(Ts, step); }

Cone coneOf(const centroidal_dynamics::Equilibrium& e0) {
  centroidal_dynamics::Equilibrium& e = const_cast<centroidal_dynamics::Equilibrium&>(e0);
  Cone c;
  c.ok = true;
  centroidal_dynamics::MatrixXX H;
  centroidal_dynamics::VectorX h;
  centroidal_dynamics::LP_status st = e.getPolytopeInequalities(H, h);
  if (st != centroidal_dynamics::LP_STATUS_OPTIMAL) c.ok = false;
  c.Hn = H;
  c.hn = h;
  for (int i = 0; i < c.Hn.rows(); ++i) {
    double n = c.Hn.row(i).norm();
    if (!(n > 1e-12) || !std::isfinite(n)) {
      c.ok = false;
      return c;
    }
    c.Hn.row(i) /= n;
    if (h(i) != 0.) c.ok = false;
  }
  c.G = -e.m_G_centr;  // the library stores the generators of the opposite wrench
  c.mass = e.m_mass;
  c.g = e.m_gravity;
  // consistency: all generators inside, every facet spanned by at least 5 of them
  Eigen::MatrixXd Gn = c.G;
  for (int j = 0; j < Gn.cols(); ++j) Gn.col(j).normalize();
  Eigen::MatrixXd P = c.Hn * Gn;
  if (P.rows() == 0 || P.minCoeff() < -1e-7) c.ok = false;
  for (int i = 0; c.ok && i < P.rows(); ++i) {
    int tight = 0;
    for (int j = 0; j < P.cols(); ++j) tight += P(i, j) < 1e-7;
    if (tight < 5) c.ok = false;
  }
  // no facet is missing: what separates a wrench from the generated cone is a combination of the rows
  uint64_t rs = 12345;
  auto rnd = [&]() {
    rs = rs * 6364136223846793005ULL + 1442695040888963407ULL;
    return (double)(rs >> 11) / 9007199254740992.0 * 2 - 1;
  };
  Eigen::MatrixXd HT = c.Hn.transpose();
  for (int k = 0; c.ok && k < 24; ++k) {
    Eigen::VectorXd w(6), y;
    for (int i = 0; i < 6; ++i) w(i) = rnd();
    if (k % 2) w = 0.3 * w + Gn.col((int)((rnd() + 1) / 2 * (double)Gn.cols()) % (int)Gn.cols());
    double rn;
    nnls(Gn, w, y, rn);
    Eigen::VectorXd a = Gn * y - w;
    if (a.norm() < 1e-6) continue;
    a.normalize();
    nnls(HT, a, y, rn);
    if (rn > 1e-5) c.ok = false;
  }
  return c;
}

static void addStab(Sys& s, const Cone& c, const AffW& w, double reduce_h, double t, int phase) {
  Eigen::Matrix<double, 6, 3> A = w.A.cast<double>();
  Eigen::Matrix<double, 6, 1> b = w.b.cast<double>();
  // Hn (A x + b - [g;0]) >= margin  <=>  -Hn A x <= Hn (b - [g;0]) - margin
  Eigen::Matrix<double, 6, 1> q = b;
  q.head<3>() -= c.g;
  Eigen::MatrixXd RA = -c.Hn * A;
  Eigen::VectorXd rb = c.Hn * q;
  double sc = q.cwiseAbs().maxCoeff();
  for (int i = 0; i < RA.rows(); ++i) {
    Row r;
    r.a = RA.row(i).transpose();
    r.b = rb(i) - (reduce_h > 0 ? reduce_h : 0.);
    r.kind = 's';
    r.t = t;
    r.phase = phase;
    r.scale = sc + 1;
    s.push_back(r);
  }
}
static void addKin(Sys& s, const ContactData& cd, const AffPt& p, double t, int phase) {
  for (int i = 0; i < cd.kin_.size(); ++i) {
    Row r;
    r.a = ((double)p.f[0]) * cd.Kin_.row(i).transpose();
    Eigen::Vector3d sv = D(p.s);
    r.b = cd.kin_(i) - cd.Kin_.row(i).dot(sv);
    r.kind = 'k';
    r.t = t;
    r.phase = phase;
    r.scale = std::fabs(cd.kin_(i)) + cd.Kin_.row(i).norm() * sv.norm() + 1e-3;
    s.push_back(r);
  }
}
static void addAcc(Sys& s, const ProblemData& p, const AffPt& a, double t, int phase) {
  if (!p.constraints_.constraintAcceleration_) return;
  for (int d = 0; d < 3; ++d)
    for (int sg = -1; sg <= 1; sg += 2) {
      Row r;
      r.a = Eigen::VectorXd::Zero(3);
      r.a(d) = sg * (double)a.f[0];
      r.b = p.constraints_.maxAcceleration_ - sg * (double)a.s(d);
      r.kind = 'a';
      r.t = t;
      r.phase = phase;
      r.scale = p.constraints_.maxAcceleration_ + std::fabs((double)a.s(d)) + 1e-3;
      s.push_back(r);
    }
}

Sys sysSampled(const ProblemData& p, const std::vector<Cone>& cones, const VectorX& Ts,
               const std::vector<GridPt>& active, const Curve& c, double reduce_h) {
  Sys s;
  V3 g = L(cones[0].g);
  for (auto& gp : active) {
    ld u = std::min((ld)1, (ld)gp.t / c.T);
    addStab(s, cones[(size_t)gp.phase], wrenchAt(c, g, u), reduce_h, gp.t, gp.phase);
    addKin(s, p.contacts_[(size_t)gp.phase], c.at(u, 0), gp.t, gp.phase);
    addAcc(s, p, c.at(u, 2), gp.t, gp.phase);
  }
  return s;
}
Sys sysContinuous(const ProblemData& p, const std::vector<Cone>& cones, const VectorX& Ts, int wdegree,
                  const Curve& c, double reduce_h) {
  Sys s;
  V3 g = L(cones[0].g);
  ld t = 0;
  for (int i = 0; i < Ts.size(); ++i) {
    ld u0 = t / c.T, u1 = i + 1 == Ts.size() ? (ld)1 : (t + (ld)Ts[i]) / c.T;
    t += Ts[i];
    for (auto& w : wrenchCP(c, g, u0, u1, wdegree)) addStab(s, cones[(size_t)i], w, reduce_h, -1, i);
    for (auto& q : affCP(c, 0, u0, u1)) addKin(s, p.contacts_[(size_t)i], q, -1, i);
    for (auto& q : affCP(c, 2, u0, u1)) addAcc(s, p, q, -1, i);
  }
  return s;
}

Cost costOf(const ProblemData& p, const VectorX& Ts, const std::vector<GridPt>& grid, const Curve& c) {
  Cost r;
  r.k = 0;
  r.g.setZero();
  r.c0 = 0;
  if (p.costFunction_ == ACCELERATION) {
    ld k = 0, c0 = 0;
    V3 g = V3::Zero();
    for (auto& gp : grid) {
      AffPt a = c.at(std::min((ld)1, (ld)gp.t / c.T), 2);
      k += a.f[0] * a.f[0];
      g += a.f[0] * a.s;
      c0 += a.s.dot(a.s);
    }
    r.k = (double)k;
    r.g = D(g);
    r.c0 = (double)c0 / 2;
  } else if (p.costFunction_ == DISTANCE_TRAVELED) {
    Eigen::Vector3d m = (p.c0_ + p.c1_) / 2;
    r.k = 1;
    r.g = -m;
    r.c0 = m.dot(m) / 2;
  } else {
    AffPt v = c.at(1, 1);
    Eigen::Vector3d d = D(v.s) - p.dc1_;
    r.k = (double)(v.f[0] * v.f[0]);
    r.g = (double)v.f[0] * d;
    r.c0 = d.dot(d) / 2;
  }
  return r;
}

bool nnls(const Eigen::MatrixXd& E, const Eigen::VectorXd& f, Eigen::VectorXd& y, double& rnorm) {
  const int m = (int)E.cols();
  y = Eigen::VectorXd::Zero(m);
  std::vector<int> P;
  std::vector<char> inP((size_t)m, 0), banned((size_t)m, 0);
  Eigen::VectorXd r = f;
  const double tol = 1e-13 * (1 + E.cwiseAbs().maxCoeff()) * (1 + f.cwiseAbs().maxCoeff());
  for (int it = 0; it < 3 * m + 300; ++it) {
    Eigen::VectorXd w = E.transpose() * r;
    int best = -1;
    double bw = tol;
    for (int j = 0; j < m; ++j)
      if (!inP[(size_t)j] && !banned[(size_t)j] && w(j) > bw) {
        bw = w(j);
        best = j;
      }
    if (best < 0) break;
    P.push_back(best);
    inP[(size_t)best] = 1;
    bool first = true;
    while (true) {
      Eigen::MatrixXd EP(E.rows(), (int)P.size());
      for (size_t k = 0; k < P.size(); ++k) EP.col((int)k) = E.col(P[k]);
      Eigen::VectorXd z = EP.colPivHouseholderQr().solve(f);
      if (first && z((int)P.size() - 1) <= 0) {
        banned[(size_t)best] = 1;
        inP[(size_t)best] = 0;
        P.pop_back();
        break;
      }
      first = false;
      double alpha = 1;
      bool neg = false;
      for (size_t k = 0; k < P.size(); ++k)
        if (z((int)k) <= 0) {
          neg = true;
          double d = y(P[k]) - z((int)k);
          double a = d > 0 ? y(P[k]) / d : 0;
          alpha = std::min(alpha, a);
        }
      if (!neg) {
        for (size_t k = 0; k < P.size(); ++k) y(P[k]) = z((int)k);
        std::fill(banned.begin(), banned.end(), 0);
        break;
      }
      std::vector<int> Q;
      for (size_t k = 0; k < P.size(); ++k) {
        double v = y(P[k]) + alpha * (z((int)k) - y(P[k]));
        if (v <= 1e-15) {
          y(P[k]) = 0;
          inP[(size_t)P[k]] = 0;
        } else {
          y(P[k]) = v;
          Q.push_back(P[k]);
        }
      }
      P = Q;
      if (P.empty()) break;
    }
    r = f;
    for (int j : P) r -= E.col(j) * y(j);
  }
  rnorm = r.norm();
  return true;
}

bool project(const Eigen::MatrixXd& A, const Eigen::VectorXd& b, const Eigen::VectorXd& x0, Eigen::VectorXd& x) {
  const int n = (int)x0.size(), m = (int)A.rows();
  x = x0;
  if (m == 0) return true;
  // min |z| st G z >= h, z = x - x0, G = -A, h = A x0 - b
  Eigen::VectorXd h = A * x0 - b;
  if (h.maxCoeff() <= 0) return true;
  double sc = std::max(1e-300, h.cwiseAbs().maxCoeff());
  (void)sc;
  Eigen::MatrixXd E(n + 1, m);
  E.topRows(n) = -A.transpose();
  E.row(n) = h.transpose();
  Eigen::VectorXd f = Eigen::VectorXd::Zero(n + 1);
  f(n) = 1;
  Eigen::VectorXd y;
  double rn;
  nnls(E, f, y, rn);
  Eigen::VectorXd r = E * y - f;
  if (r.norm() < 1e-9 || -r(n) < 1e-18) return false;
  x = x0 - r.head(n) / r(n);
  return true;
}

bool refQP(const Eigen::MatrixXd& H, const Eigen::VectorXd& g, const Eigen::MatrixXd& A, const Eigen::VectorXd& b,
           const Eigen::MatrixXd& C, const Eigen::VectorXd& d, Eigen::VectorXd& x) {
  // eliminate equalities: x = xp + Z y
  const int n = (int)g.size();
  Eigen::VectorXd xp = Eigen::VectorXd::Zero(n);
  Eigen::MatrixXd Z = Eigen::MatrixXd::Identity(n, n);
  if (C.rows() > 0) {
    Eigen::FullPivLU<Eigen::MatrixXd> lu(C);
    lu.setThreshold(1e-10);
    xp = C.completeOrthogonalDecomposition().solve(d);
    if ((C * xp - d).norm() > 1e-8 * (1 + d.norm())) return false;
    if (lu.dimensionOfKernel() == 0) {
      x = xp;
      return A.rows() == 0 || (A * x - b).maxCoeff() <= 1e-9;
    }
    Eigen::HouseholderQR<Eigen::MatrixXd> qr(lu.kernel());
    Z = qr.householderQ() * Eigen::MatrixXd::Identity(n, (int)lu.dimensionOfKernel());
  }
  Eigen::MatrixXd Hz = Z.transpose() * H * Z;
  Eigen::VectorXd gz = Z.transpose() * (g + H * xp);
  Eigen::LLT<Eigen::MatrixXd> llt(Hz);
  if (llt.info() != Eigen::Success) return false;
  // y = L^-T v: 0.5|v|^2 + (L^-1 gz)'v
  Eigen::VectorXd v0 = -llt.matrixL().solve(gz), v;
  Eigen::MatrixXd Az = A * Z;
  Eigen::MatrixXd Av(Az.rows(), Az.cols());
  if (Az.rows() > 0) Av = llt.matrixL().solve(Az.transpose()).transpose();
  Eigen::VectorXd bv = A.rows() ? Eigen::VectorXd(b - A * xp) : b;
  // unit rows help the projection
  for (int i = 0; i < Av.rows(); ++i) {
    double k = Av.row(i).norm();
    if (k > 1e-12) {
      Av.row(i) /= k;
      bv(i) /= k;
    } else if (bv(i) < -1e-9)
      return false;
    else {
      Av.row(i).setZero();
      bv(i) = 1;
    }
  }
  if (!project(Av, bv, v0, v)) return false;
  x = xp + Z * llt.matrixU().solve(v);
  return true;
}
void toMat(const Sys& s, Eigen::MatrixXd& A, Eigen::VectorXd& b, bool unitRows, double tighten) {
  int n = s.empty() ? 3 : (int)s[0].a.size();
  A.resize((int)s.size(), n);
  b.resize((int)s.size());
  for (size_t i = 0; i < s.size(); ++i) {
    double k = s[i].a.norm();
    double f = unitRows && k > 1e-9 ? 1 / k : 1;
    A.row((int)i) = f * s[i].a.transpose();
    b((int)i) = f * s[i].b - tighten;
  }
}
double maxViolation(const Eigen::MatrixXd& A, const Eigen::VectorXd& b, const Eigen::VectorXd& x) {
  if (A.rows() == 0) return -1e300;
  return (A * x - b).maxCoeff();
}
}  // namespace ref
