#include <hpp/bezier-com-traj/utils.hh>
#include <algorithm>
#include <limits>
#include "pbt.hpp"
using namespace bezier_com_traj;
typedef long double ld;

static VectorX durations(pbt::Ctx& c) {
  pbt::Src& r = c.s;
  int n = r.range(1, 6);
  VectorX t(n);
  static const double nice[] = {1., 0.1, 0.2, 0.3, 0.5, 0.6, 0.7, 0.8, 1.1, 1.2, 2., 3.};
  bool eq = r.chance(1, 4);
  for (int i = 0; i < n; ++i) {
    int k = r.range(0, 3);
    t(i) = k == 0 ? nice[r.choice(12)] : k == 1 ? r.real(0.1, 3) : r.logreal(1e-3, 100);
    if (eq && i) t(i) = t(0);
  }
  c.desc << "durations " << t.transpose() << "; ";
  if (n > 1) c.label("several phases");
  return t;
}

static void fixedGrid(pbt::Ctx& c) {
  VectorX T = durations(c);
  unsigned P = (unsigned)(c.s.chance(3, 4) ? c.s.range(1, 12) : c.s.range(13, 300));
  c.desc << P << " points per phase\n";
  T_time g = computeDiscretizedTimeFixed(T, P);
  c.nontrivial = T.size() > 1 || P > 1;
  const size_t n = (size_t)T.size();
  PBT_CHECK(g.size() == n * P + 1, g.size() << " entries instead of " << n * P + 1);
  PBT_CHECK(g[0].first == 0. && g[0].second == 0, "first entry (" << g[0].first << ", " << g[0].second << ")");
  ld start = 0, all = 0;
  double plain = 0;
  for (size_t i = 0; i < n; ++i) all += T((int)i), plain += T((int)i);
  for (size_t i = 0; i < n; ++i) {
    for (unsigned j = 1; j <= P; ++j) {
      const size_t k = i * P + j;
      ld want = start + (ld)T((int)i) * j / P;
      PBT_CHECK(std::fabs((double)(g[k].first - want)) <= 1e-12 * (double)all, "entry " << k << " is " << g[k].first << " instead of " << (double)want);
      PBT_CHECK((size_t)g[k].second == i, "entry " << k << " at " << g[k].first << " is labelled with phase " << g[k].second << " instead of " << i);
      PBT_CHECK(g[k].first > g[k - 1].first, "entry " << k << " does not increase: " << g[k - 1].first << ", " << g[k].first);
    }
    start += T((int)i);
  }
  PBT_CHECK(g.back().first == T.sum() || g.back().first == plain,
            "last entry " << g.back().first << " differs from the total duration " << T.sum() << " by " << g.back().first - T.sum());
}

static void stepGrid(pbt::Ctx& c) {
  pbt::Src& r = c.s;
  VectorX T = durations(c);
  // the step is at most half of the shortest phase; at most about 2000 entries
  double mn = T.minCoeff(), h;
  int k = r.range(0, 4);
  if (k == 0) h = mn / 2;
  else if (k == 1) h = mn / r.range(2, 20);
  else if (k == 2) h = std::min(mn / 2, 0.1);
  else h = mn * r.real(0.02, 0.5);
  h = std::max(h, T.maxCoeff() / 1500);
  if (!(h * 2 <= mn)) throw pbt::Discard();
  c.desc << "step " << h << "\n";
  T_time g = computeDiscretizedTime(T, h);
  c.nontrivial = true;
  size_t pos = 0;
  ld start = 0;
  for (int i = 0; i < T.size(); ++i) {
    ld end = start + T(i);
    const ld tol = 1e-11L * (end + 1);
    std::vector<double> t;
    while (pos < g.size() && (int)g[pos].second == i) t.push_back(g[pos++].first);
    PBT_CHECK(t.size() >= 2, "phase " << i << " has " << t.size() << " entries");
    PBT_CHECK(std::fabs((double)(t[0] - start)) <= tol, "phase " << i << " starts at " << t[0] << " instead of " << (double)start);
    PBT_CHECK(std::fabs((double)(t.back() - end)) <= tol, "phase " << i << " ends at " << t.back() << " instead of " << (double)end);
    for (size_t j = 1; j + 1 < t.size(); ++j) {
      ld want = start + (ld)h * j;
      PBT_CHECK(std::fabs((double)(t[j] - want)) <= tol, "entry " << j << " of phase " << i << " is " << t[j] << " instead of " << (double)want);
      PBT_CHECK(t[j] <= t.back(), "entry " << j << " of phase " << i << " at " << t[j] << " lies behind its end " << t.back());
    }
    // multiples inside the phase; one that coincides with the end up to rounding may be there or not
    ld m = (end - start) / h;
    ld lo = ceill(m - 1e-9L) - 1, hi = ceill(m + 1e-9L) - 1;
    ld got = (ld)t.size() - 2;
    if (std::fabs((double)(m - roundl(m))) < 1e-9) c.label("step divides a phase");
    PBT_CHECK(got >= lo && got <= hi, "phase " << i << " of " << T(i) << " has " << (double)got << " inner entries instead of " << (double)lo);
    start = end;
  }
  PBT_CHECK(pos == g.size(), g.size() - pos << " entries are out of order or carry a wrong label: (" << g[pos].first << ", " << g[pos].second << ")");
}

static void rows(pbt::Ctx& c) {
  pbt::Src& r = c.s;
  int m = r.range(1, 14), n = r.range(1, 9);
  MatrixXX A = MatrixXX::Zero(m, n);
  VectorX b = VectorX::Zero(m);
  bool contradiction = false;
  int zeros = 0, pz = r.range(0, 4), pc = r.range(0, 6);
  double scale = r.chance(1, 2) ? 1 : r.logreal(1e-4, 1e4);
  for (int i = 0; i < m; ++i) {
    bool zero = r.chance((unsigned)pz, 4);
    if (zero) {
      ++zeros;
      b(i) = r.chance(1, 3) ? 0. : r.logreal(1e-12, 1e3);
      if (r.chance((unsigned)pc, 20)) b(i) = -r.logreal(1e-12, 1e3);
      contradiction = contradiction || b(i) < 0;
    } else {
      double s = scale * (r.chance(1, 2) ? 1 : r.logreal(1e-3, 1e3));
      for (int j = 0; j < n; ++j) A(i, j) = r.chance(1, 3) ? 0. : s * r.sym(1);
      if ((A.row(i).array() == 0).all()) A(i, r.range(0, n - 1)) = -s;
      b(i) = s * (r.chance(1, 4) ? 0. : r.sym(3));
    }
  }
  c.desc << "A\n" << A << "\nb " << b.transpose() << "\n";
  // the system may be a block of a larger one
  int off = r.chance(1, 3) ? r.range(1, 3) : 0;
  MatrixXX B = MatrixXX::Constant(m + 2 * off, n + 2 * off, 7.);
  VectorX bb = VectorX::Constant(m + 2 * off, 7.);
  B.block(off, off, m, n) = A;
  bb.segment(off, m) = b;
  int k = Normalize(B.block(off, off, m, n), bb.segment(off, m));
  c.nontrivial = zeros > 0;
  if (zeros) c.label("zero rows");
  if (contradiction) {
    c.label("contradictory row");
    PBT_CHECK(k < 0, "a contradictory empty row is not reported, result " << k);
    return;
  }
  PBT_CHECK(k == m - zeros, k << " rows reported instead of " << m - zeros);
  MatrixXX N = B.block(off, off, m, n);
  VectorX nb = bb.segment(off, m);
  for (int i = 0; i < k; ++i) PBT_CHECK(std::fabs(N.row(i).norm() - 1) <= 1e-12, "row " << i << " has norm " << N.row(i).norm());
  // the same half spaces
  auto same = [&](int i, int j) {
    double s = A.row(i).norm();
    return (A.row(i) / s - N.row(j)).cwiseAbs().maxCoeff() <= 1e-12 && std::fabs(b(i) / s - nb(j)) <= 1e-12 * (1 + std::fabs(nb(j)));
  };
  std::vector<char> used((size_t)k, 0);
  for (int i = 0; i < m; ++i) {
    if ((A.row(i).array() == 0).all()) continue;
    bool f = false;
    for (int j = 0; j < k && !f; ++j)
      if (same(i, j)) {
        f = true;
        used[(size_t)j] = 1;
      }
    PBT_CHECK(f, "row " << i << " (" << A.row(i) << " <= " << b(i) << ") is lost; normalised system\n" << N << "\n" << nb.transpose());
  }
  for (int j = 0; j < k; ++j)
    if (!used[(size_t)j]) {
      bool f = false;
      for (int i = 0; i < m && !f; ++i) f = !(A.row(i).array() == 0).all() && same(i, j);
      PBT_CHECK(f, "row " << j << " of the normalised system was not in the original one");
    }
  for (int i = k; i < m; ++i) PBT_CHECK((N.row(i).array() == 0).all() && nb(i) >= 0, "row " << i << " behind the returned count is not an empty row");
  for (int i = 0; i < B.rows(); ++i) {
    bool in = i >= off && i < off + m;
    if (!in) PBT_CHECK(bb(i) == 7., "right side outside the block changed");
    for (int j = 0; j < B.cols(); ++j)
      if (!in || j < off || j >= off + n) PBT_CHECK(B(i, j) == 7., "matrix entry outside the block changed");
  }
}

pbt::Property pbt::property() {
  return {"C20",
          "random phase durations with random points per phase or time step; random inequality systems with empty rows anywhere; non-trivial: more than one entry per "
          "grid, at least one empty row in the system",
          {"row entries between 1e-8 and 1e8", "a multiple of the time step that coincides with the end of a phase up to 1e-9 steps may appear or not"},
          {{"fixed", fixedGrid, 600000, 20000000}, {"step", stepGrid, 500000, 15000000}, {"rows", rows, 1200000, 40000000}}};
}
