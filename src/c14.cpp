// The answer to a request depends on nothing but the request: not on earlier requests, on the state
// of reused objects, on the contents of recycled memory nor on requests running in other threads.
#include <malloc.h>
#include <sys/wait.h>
#include <unistd.h>

#include <hpp/bezier-com-traj/solver/eiquadprog-fast.hpp>
#include <atomic>
#include <thread>

#include "req.hpp"
using namespace req;
typedef tsid::solvers::EiquadprogFast Qp;

namespace {
struct Perturb {  // fills recycled memory with a chosen byte
  explicit Perturb(int v) { mallopt(M_PERTURB, v); }
  ~Perturb() { mallopt(M_PERTURB, 0); }
};
struct Answer {
  Dump d;
  std::string err;
  bool operator==(const Answer& o) const { return err == o.err && same(d, o.d); }
};
Answer ask(const Req& q) {
  Answer a;
  a.d = run(q, &a.err);
  return a;
}
std::string diff(const Answer& a, const Answer& b) { return a.err != b.err ? "'" + a.err + "' instead of '" + b.err + "'" : where(a.d, b.d); }
void options(req::Opt& o, pbt::Src& r) {
  o.scene.maxPhases = 2;
  o.scene.maxPoints = 4;
  o.ill = 1;
  o.scene.easy = r.chance(2, 3);
  o.kinds = r.chance(1, 2) ? (1 << PLAN) | (1 << ZERO) : (1 << NKINDS) - 1;
}
std::string outcome(const Answer& a, const Req& q) {
  if (!a.err.empty()) return "refused";
  if (q.kind == PLAN || q.kind == ZERO || q.kind == FOOT || q.kind == OPT) return a.d[0] ? "solved" : "failed";
  return "evaluated";
}
}  // namespace

static void repeat(pbt::Ctx& c) {
  pbt::Src& r = c.s;
  req::Opt o;
  options(o, r);
  size_t n = (size_t)r.range(2, 5);
  std::vector<Req> pool(n);
  std::vector<Dump> snap(n);
  std::vector<Answer> first(n);
  for (size_t i = 0; i < n; ++i) {
    generate(c, pool[i], o);
    c.desc << i << ": " << pool[i].str << "\n";
    snap[i] = snapshot(pool[i]);
  }
  for (size_t i = 0; i < n; ++i) {
    first[i] = ask(pool[i]);
    c.label("request " + outcome(first[i], pool[i]));
  }
  int k = r.range(2, 12);
  c.desc << "sequence";
  bool mixed = false;
  size_t last = n - 1;
  for (int j = 0; j < k; ++j) {
    size_t i = (size_t)r.choice(n);
    int byte = r.chance(1, 2) ? r.range(1, 255) : 0;
    c.desc << " " << i;
    if (byte) c.desc << "/" << byte;
    Perturb p(byte);
    Answer a = ask(pool[i]);
    PBT_CHECK(a == first[i], "request " << i << " (" << pool[i].str << ") is answered differently when repeated: " << diff(a, first[i]));
    PBT_CHECK(same(snapshot(pool[i]), snap[i]), "request " << i << " (" << pool[i].str << ") changed the data given: " << where(snapshot(pool[i]), snap[i]));
    if (i != last) mixed = true;
    last = i;
  }
  for (size_t i = 0; i < n; ++i)
    PBT_CHECK(same(snapshot(pool[i]), snap[i]), "the data of request " << i << " (" << pool[i].str << ") changed: " << where(snapshot(pool[i]), snap[i]));
  c.desc << "\n";
  c.nontrivial = mixed;
}

// problem data objects reused, at the same addresses, for another problem
static void reuse(pbt::Ctx& c) {
  pbt::Src& r = c.s;
  req::Opt o;
  o.scene.maxPhases = 2;
  o.scene.maxPoints = 4;
  o.scene.easy = r.chance(3, 4);
  o.kinds = r.chance(3, 4) ? 1 << PLAN : 1 << ZERO;
  Req a, b;
  generate(c, a, o);
  generate(c, b, o);
  c.desc << "first: " << a.str << "\nsecond: " << b.str << "\n";
  if (a.kind != b.kind) throw pbt::Discard();
  if (a.s->eq.size() < b.s->eq.size()) std::swap(a, b);
  Answer fa = ask(a), fb = ask(b);
  // the phases of a take the contacts of b in place
  Req x;
  x.kind = b.kind;
  x.s.reset(new Scene());
  x.m = b.m;
  x.Ts = b.Ts;
  x.pTs = b.pTs;
  x.T = b.T;
  x.step = b.step;
  x.solver = b.solver;
  x.s->Ts = b.s->Ts;
  x.s->mass = b.s->mass;
  x.s->load = b.s->load;
  x.s->mu = b.s->mu;
  x.s->sets = b.s->sets;
  x.s->p = b.s->p;
  for (size_t i = 0; i < b.s->eq.size(); ++i) {
    centroidal_dynamics::Equilibrium& e = *a.s->eq[i];
    const ContactSet& k = b.s->sets[i];
    const_cast<double&>(e.m_mass) = b.s->massOf(i);
    centroidal_dynamics::MatrixX3 P(k.pos.size(), 3), N(k.pos.size(), 3);
    for (size_t j = 0; j < k.pos.size(); ++j) {
      P.row((int)j) = k.pos[j].transpose();
      N.row((int)j) = k.nor[j].transpose();
    }
    if (!e.setNewContacts(P, N, b.s->mu, centroidal_dynamics::EQUILIBRIUM_ALGORITHM_PP)) throw pbt::Discard();
    x.s->p.contacts_[i].contactPhase_ = &e;
  }
  if (!same(snapshot(x), snapshot(b))) throw pbt::Discard();  // contacts perturbed by the dynamics library
  Answer fx = ask(x);
  PBT_CHECK(fx == fb, "the answer differs when the contact phases were used for another problem before: " << diff(fx, fb));
  (void)fa;
  c.label("second " + outcome(fb, b));
  c.nontrivial = !(fa == fb);
}

static void threads(pbt::Ctx& c) {
  pbt::Src& r = c.s;
  req::Opt o;
  options(o, r);
  size_t n = (size_t)r.range(2, 4);
  std::vector<Req> pool(n);
  std::vector<Answer> first(n);
  std::vector<Dump> snap(n);
  for (size_t i = 0; i < n; ++i) {
    generate(c, pool[i], o);
    c.desc << i << ": " << pool[i].str << "\n";
    snap[i] = snapshot(pool[i]);
  }
  // the answers the threads are compared with are computed before them or, so that the threads
  // are the first to issue these requests, after them
  const bool fresh = r.chance(2, 3);
  if (fresh)
    c.label("threads first");
  else
    for (size_t i = 0; i < n; ++i) first[i] = ask(pool[i]);
  size_t nt = (size_t)r.range(2, 4);
  std::vector<std::vector<size_t> > plan(nt);
  for (size_t t = 0; t < nt; ++t) {
    int k = r.range(1, 6);
    c.desc << "thread " << t << ":";
    for (int j = 0; j < k; ++j) {
      plan[t].push_back((size_t)r.choice(n));
      c.desc << " " << plan[t].back();
    }
    c.desc << "\n";
  }
  std::vector<std::vector<Answer> > got(nt);
  std::vector<std::thread> th;
  std::atomic<size_t> ready(0);
  for (size_t t = 0; t < nt; ++t)
    th.emplace_back([&, t]() {
      ++ready;
      while (ready.load() < nt) std::this_thread::yield();
      for (size_t i : plan[t]) got[t].push_back(ask(pool[i]));
    });
  for (auto& t : th) t.join();
  if (fresh)
    for (size_t i = 0; i < n; ++i) first[i] = ask(pool[i]);
  for (size_t t = 0; t < nt; ++t)
    for (size_t j = 0; j < plan[t].size(); ++j) {
      size_t i = plan[t][j];
      PBT_CHECK(got[t][j] == first[i],
                "answered differently while other threads plan: request " << i << " (" << pool[i].str << "): " << diff(got[t][j], first[i]));
    }
  for (size_t i = 0; i < n; ++i) PBT_CHECK(same(snapshot(pool[i]), snap[i]), "the data of request " << i << " changed: " << where(snapshot(pool[i]), snap[i]));
  c.nontrivial = true;
}

// ---- a request and another one that differs from it in a single datum ----
namespace {
double nudge(pbt::Src& r, double v) {
  switch (r.choice(4)) {
    case 0: return v + 1e-3 * (std::abs(v) > 1 ? std::abs(v) : 1.);
    case 1: return v + 1e-9 * (std::abs(v) > 1 ? std::abs(v) : 1.);
    case 2: return std::nextafter(v, 1e9);
    default: return v == 0 ? 0.01 : -v;
  }
}
template <typename M>
bool nudgeIn(pbt::Src& r, M& m) {
  if (m.size() == 0) return false;
  long i = (long)r.choice((size_t)m.size());
  m.data()[i] = nudge(r, m.data()[i]);
  return true;
}
// changes one datum of the request; false when the datum chosen does not exist
bool change(pbt::Src& r, Req& q, std::string& what, std::vector<std::shared_ptr<centroidal_dynamics::Equilibrium> >& keep) {
  ProblemData& p = q.s ? q.s->p : q.p;
  if (q.kind == OPT) {
    static const char* N[] = {"A", "b", "D", "d", "H", "g", "lower bounds", "upper bounds", "initial point", "solver"};
    int k = r.range(0, 9);
    what = N[k];
    if (k == 0) return nudgeIn(r, q.A);
    if (k == 1) return nudgeIn(r, q.b);
    if (k == 2) return nudgeIn(r, q.D);
    if (k == 3) return nudgeIn(r, q.d);
    if (k == 4) {
      long i = (long)r.choice((size_t)q.H.rows());
      q.H(i, i) *= 1.01;
      return true;
    }
    if (k == 5) return nudgeIn(r, q.g);
    if (k == 6) return nudgeIn(r, q.lo);
    if (k == 7) return nudgeIn(r, q.hi);
    if (k == 8) return nudgeIn(r, q.init);
    q.solver = 1 - q.solver;
    return true;
  }
  if (q.kind == GRID) {
    what = "a duration or the step";
    if (r.chance(1, 3)) q.step *= 1.01;
    else if (q.pTs.size()) q.pTs[(long)r.choice((size_t)q.pTs.size())] *= 1.01;
    else return false;
    return true;
  }
  static const char* F[] = {"c0", "dc0", "ddc0", "j0", "c1", "dc1", "ddc1", "j1", "l0"};
  int k = r.range(0, 19);
  if (k < 9) {
    point_t* v[] = {&p.c0_, &p.dc0_, &p.ddc0_, &p.j0_, &p.c1_, &p.dc1_, &p.ddc1_, &p.j1_, &p.l0_};
    what = F[k];
    return nudgeIn(r, *v[k]);
  }
  if (k < 12) {
    what = "duration";
    if (q.kind == PLAN && q.pTs.size()) q.pTs[(long)r.choice((size_t)q.pTs.size())] *= r.chance(1, 2) ? 1.01 : 1 + 1e-12;
    else if (q.kind == ZERO && !q.Ts.empty()) q.Ts[0] *= r.chance(1, 2) ? 1.01 : 1 + 1e-12;
    else q.T *= r.chance(1, 2) ? 1.01 : 1 + 1e-12;
    return true;
  }
  if (k == 12) {
    what = "cost";
    p.costFunction_ = p.costFunction_ == ACCELERATION ? DISTANCE_TRAVELED : ACCELERATION;
    if (q.kind == FOOT) q.weight = q.weight > 0.5 ? 0.25 : 0.75;
    return true;
  }
  if (k == 13) {
    what = "acceleration bound";
    if (r.chance(1, 2)) p.constraints_.constraintAcceleration_ = !p.constraints_.constraintAcceleration_;
    else p.constraints_.maxAcceleration_ *= 1.01;
    return true;
  }
  if (k == 14) {
    what = "margin";
    p.constraints_.reduce_h_ += 1e-4;
    return true;
  }
  if (k == 15) {
    what = "angular momentum or formulation";
    if (q.kind == PLAN && q.m.kind != Mode::STEP && q.m.kind != Mode::FIXED && q.s->forceVars() <= 1200) p.representation_ = p.representation_ == FORCE ? DOUBLE_DESCRIPTION : FORCE;
    else if (q.kind == ZERO) p.useAngularMomentum_ = !p.useAngularMomentum_;
    else return false;
    return true;
  }
  if (k == 16) {
    what = "back end or end-effector option";
    if (q.kind == PLAN) q.solver = 1 - q.solver;
    else if (q.kind == FOOT) q.fn = !q.fn;
    else return false;
    return true;
  }
  if (k == 17) {
    what = "kinematic limits";
    if (p.contacts_.empty()) return false;
    ContactData& d = p.contacts_[r.choice(p.contacts_.size())];
    if (d.kin_.size() == 0) return false;
    return r.chance(1, 2) ? nudgeIn(r, d.kin_) : nudgeIn(r, d.Kin_);
  }
  what = "contact";
  if (!q.s || p.contacts_.empty()) return false;
  size_t i = r.choice(p.contacts_.size());
  if (i >= q.s->sets.size() || q.s->sets[i].pos.empty() || !p.contacts_[i].contactPhase_) return false;
  const ContactSet& cs = q.s->sets[i];
  centroidal_dynamics::MatrixX3 P(cs.pos.size(), 3), N(cs.pos.size(), 3);
  for (size_t j = 0; j < cs.pos.size(); ++j) {
    P.row((int)j) = cs.pos[j].transpose();
    N.row((int)j) = cs.nor[j].transpose();
  }
  if (k == 18) P.row((long)r.choice(cs.pos.size())) += Eigen::RowVector3d(0.02, -0.01, 0.);
  else P.rowwise() += Eigen::RowVector3d(0.02, -0.01, 0.);
  std::shared_ptr<centroidal_dynamics::Equilibrium> e(new centroidal_dynamics::Equilibrium(*p.contacts_[i].contactPhase_));
  if (!e->setNewContacts(P, N, q.s->mu, centroidal_dynamics::EQUILIBRIUM_ALGORITHM_PP)) throw pbt::Discard();
  keep.push_back(e);
  p.contacts_[i].contactPhase_ = e.get();
  return true;
}
bool sendAll(int fd, const void* d, size_t n) {
  const char* c = (const char*)d;
  while (n) {
    ssize_t k = write(fd, c, n);
    if (k <= 0) return false;
    c += k;
    n -= (size_t)k;
  }
  return true;
}
bool readAll(int fd, void* d, size_t n) {
  char* c = (char*)d;
  while (n) {
    ssize_t k = read(fd, c, n);
    if (k <= 0) return false;
    c += k;
    n -= (size_t)k;
  }
  return true;
}
// the answer in a process that did not see what this one answers from now on
struct Elsewhere {
  int fd[2] = {-1, -1};
  pid_t pid = -1;
  explicit Elsewhere(const Req& q) {
    if (pipe(fd)) throw pbt::Discard();
    pid = fork();
    if (pid == 0) {
      close(fd[0]);
      Answer a = ask(q);
      size_t n[2] = {a.d.size(), a.err.size()};
      sendAll(fd[1], n, sizeof n) && sendAll(fd[1], a.d.data(), n[0] * sizeof(double)) && sendAll(fd[1], a.err.data(), n[1]);
      _exit(0);
    }
    close(fd[1]);
    if (pid < 0) {
      close(fd[0]);
      throw pbt::Discard();
    }
  }
  Answer get() {
    Answer a;
    size_t n[2];
    bool ok = readAll(fd[0], n, sizeof n);
    if (ok) {
      a.d.resize(n[0]);
      a.err.resize(n[1]);
      ok = readAll(fd[0], a.d.data(), n[0] * sizeof(double)) && readAll(fd[0], &a.err[0], n[1]);
    }
    close(fd[0]);
    fd[0] = -1;
    int st = 0;
    waitpid(pid, &st, 0);
    pid = -1;
    PBT_CHECK(ok, "the request ends the process that answers it (status " << st << ")");
    return a;
  }
  ~Elsewhere() {
    if (fd[0] >= 0) close(fd[0]);
    if (pid > 0) waitpid(pid, 0, 0);
  }
};
}  // namespace
static void neighbours(pbt::Ctx& c) {
  pbt::Src& r = c.s;
  req::Opt o;
  o.scene.maxPhases = 2;
  o.scene.maxPoints = 4;
  o.scene.easy = r.chance(2, 3);
  static const int K[] = {PLAN, PLAN, PLAN, ZERO, ZERO, FOOT, OPT, SYMBOLIC, SYMBOLIC, GRID};
  o.kinds = 1 << K[r.choice(10)];
  Req a, b;
  generate(c, a, o);
  c.desc << a.str << "\n";
  // the second request shares everything with the first one but the changed data
  std::shared_ptr<Scene> sb(new Scene());
  b = a;
  if (a.s) {
    sb->p = a.s->p;
    for (size_t i = 0; i < sb->p.contacts_.size(); ++i) {
      delete sb->p.contacts_[i].contactPhase_;  // copies of contact data own their phase
      sb->p.contacts_[i].contactPhase_ = a.s->p.contacts_[i].contactPhase_;
    }
    sb->Ts = a.s->Ts;
    sb->mass = a.s->mass;
    sb->load = a.s->load;
    sb->mu = a.s->mu;
    sb->sets = a.s->sets;
    b.s = sb;
  }
  std::vector<std::shared_ptr<centroidal_dynamics::Equilibrium> > keep;
  int n = r.chance(1, 4) ? 2 : 1;
  bool changed = false;
  for (int i = 0; i < n; ++i) {
    std::string what;
    if (change(r, b, what, keep)) {
      c.desc << "then with another " << what << "\n";
      c.label("changed " + what);
      changed = true;
    }
  }
  if (!changed) throw pbt::Discard();
  int times = r.range(1, 3);
  Elsewhere e(b);
  Answer fa;
  for (int i = 0; i < times; ++i) fa = ask(a);
  Answer fb = ask(b);
  Answer x = e.get();
  PBT_CHECK(fb == x, "the changed request is answered differently after the first one: " << diff(fb, x));
  Answer ga = ask(a);
  PBT_CHECK(ga == fa, "the first request is answered differently after the changed one: " << diff(ga, fa));
  c.label(fa == fb ? "same answer" : "different answers");
  c.nontrivial = !(fa == fb);
}

static void solver(pbt::Ctx& c) {
  pbt::Src& r = c.s;
  Qp used;
  int k = r.range(2, 8);
  bool solvedBefore = false;
  std::vector<Req> qs;
  for (int j = 0; j < k; ++j) {
    Req q;
    if (j > 0 && r.chance(1, 4)) q = qs[(size_t)r.choice(qs.size())];
    else {
      req::Opt o;
      o.kinds = 1 << OPT;
      generate(c, q, o);
    }
    qs.push_back(q);
    bool sparse = r.chance(1, 3);
    int iters = r.chance(1, 6) ? r.range(0, 6) : DEFAULT_MAX_ITER;
    c.desc << j << ": " << q.str << (sparse ? " sparse" : "") << " iterations " << iters << "\n";
    Qp fresh;
    used.setMaxIter(iters);
    fresh.setMaxIter(iters);
    auto go = [&](Qp& s, Eigen::VectorXd& x) {
      x = q.init;
      Eigen::MatrixXd CI = -q.A;
      Eigen::VectorXd ce0 = -q.d;
      Eigen::MatrixXd CE = q.D;
      if (CI.rows() == 0) CI.resize(0, q.g.size());
      if (CE.rows() == 0) CE.resize(0, q.g.size());
      if (!sparse) return (int)s.solve_quadprog(q.H, q.g, CE, ce0, CI, q.b, x);
      Qp::SpMat H = q.H.sparseView();
      return (int)s.solve_quadprog_sparse(H, q.g, CE, ce0, CI, q.b, x);
    };
    Eigen::VectorXd x1, x2;
    int s2 = go(fresh, x2);
    int s1 = go(used, x1);
    PBT_CHECK(s1 == s2, "problem " << j << ": status " << s1 << " of the reused solver, " << s2 << " of a fresh one");
    PBT_CHECK(used.getIteratios() == fresh.getIteratios(), "problem " << j << ": " << used.getIteratios() << " iterations of the reused solver, " << fresh.getIteratios() << " of a fresh one");
    c.label("status " + std::to_string(s1));
    if (s1 != 0) continue;
    PBT_CHECK(x1 == x2, "problem " << j << ": solution " << x1.transpose() << " of the reused solver, " << x2.transpose() << " of a fresh one");
    PBT_CHECK(used.getObjValue() == fresh.getObjValue(), "problem " << j << ": objective " << used.getObjValue() << " of the reused solver, " << fresh.getObjValue() << " of a fresh one");
    PBT_CHECK(used.getActiveSetSize() == fresh.getActiveSetSize(), "problem " << j << ": active set of size " << used.getActiveSetSize() << " instead of " << fresh.getActiveSetSize());
    int n = used.getActiveSetSize();
    PBT_CHECK(used.getActiveSet().head(n) == fresh.getActiveSet().head(n), "problem " << j << ": different active set");
    PBT_CHECK(used.getLagrangeMultipliers().head(n) == fresh.getLagrangeMultipliers().head(n), "problem " << j << ": different multipliers");
    if (solvedBefore) c.nontrivial = true;
    solvedBefore = true;
  }
}

#ifdef PBT_TSAN
extern "C" const char* __tsan_default_options() { return "halt_on_error=1:exitcode=66:report_signal_unsafe=0"; }
#endif
pbt::Property pbt::property() {
  return {"C14",
          "pools of 2 to 5 requests of every kind (well-formed, infeasible, refused) repeated in a random order with recycled memory filled by a random byte; contact phase objects "
          "taken over in place by another problem; a request and its copy with one datum changed, each answered in a fresh process too; 2 to 4 threads working through the same pool; one QP solver object fed 2 to 8 problems of different sizes through both entry points. "
          "Non-trivial: requests really interleaved, the two problems have different answers, a problem solved after another one",
          {"contact data the dynamics library perturbs at random are discarded", "the threads are scheduled by the operating system; the thorough tier adds more of them, not a systematic exploration"},
#ifdef PBT_TSAN  // a second binary, in which the races between threads are seen by the thread sanitizer
          {{"races", threads, 1500, 60000}}};
#else
          {{"repeat", repeat, 9000, 800000}, {"reuse", reuse, 8000, 800000}, {"neighbours", neighbours, 8000, 600000}, {"threads", threads, 3000, 300000}, {"solver", solver, 60000, 4000000}}};
#endif
}
