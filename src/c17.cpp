// Every kind of operation under AddressSanitizer, UndefinedBehaviorSanitizer and the bound checks of
// Eigen and the standard library.  The oracle is that none of them reports anything.
#include <hpp/bezier-com-traj/solver/solver-abstract.hpp>

#include "req.hpp"
namespace pbt {
Property property_C11();
Property property_C12();
Property property_C13();
Property property_C19();
Property property_C20();
}  // namespace pbt
using namespace req;

extern "C" const char* __asan_default_options() {
  return "abort_on_error=1:detect_leaks=0:detect_stack_use_after_return=1:check_initialization_order=1:strict_init_order=1:quarantine_size_mb=16:"
         "allocator_may_return_null=1";
}
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=1:abort_on_error=1"; }

static void finish(pbt::Ctx& c, const Req& q, const std::string& who) {
  std::string err;
  Dump d = run(q, &err);
  std::string out = !err.empty() ? "refused" : (q.kind == SYMBOLIC || q.kind == GRID) ? "evaluated" : d[0] ? "solved" : "failed";
  c.label(who + " " + out);
  if (out != "failed") c.nontrivial = true;
}
static void options(req::Opt& o, pbt::Src& r) {
  o.scene.maxPhases = r.chance(1, 4) ? 5 : 2;
  o.scene.manyPhases = r.chance(1, 8);
  o.scene.maxPoints = r.chance(1, 4) ? 8 : 4;
  o.scene.easy = r.chance(3, 4);
  o.big = r.chance(1, 10);
  o.ill = 1;
}
static const char* kindName(int k) {
  static const char* n[] = {"plan", "zero step", "end effector", "optimisation", "symbolic", "grid"};
  return n[k];
}

// one request; some of its data made odd in ways that are neither excluded nor special
static void requests(pbt::Ctx& c) {
  pbt::Src& r = c.s;
  req::Opt o;
  options(o, r);
  Req q;
  generate(c, q, o);
  if (q.s && q.kind == PLAN && q.m.force && q.s->forceVars() > 600) throw pbt::Discard();  // slow under sanitizers
  c.desc << q.str << "\n";
  if (q.s && q.why.empty() && r.chance(1, 4)) {
    ProblemData& p = q.s->p;
    std::vector<ContactData>& cs = p.contacts_;
    int k = r.range(0, 9);
    ContactData& d = cs[(size_t)r.choice(cs.size())];
    static const char* what[] = {"no kinematic rows but a kinematic matrix", "empty kinematic matrix", "no contact phase", "a phase without contacts",
                                 "a phase without friction cone", "a single contact point", "force representation with a sampled mode", "very short phase",
                                 "huge margin", "odd duration"};
    centroidal_dynamics::MatrixX3 P(k == 5 ? 1 : 3, 3), N(k == 5 ? 1 : 3, 3);
    for (int i = 0; i < P.rows(); ++i) {
      P.row(i) << 0.1 * i, 0.1 * (i % 2), 0;
      N.row(i) << 0, 0, 1;
    }
    if (k == 0) d.kin_.resize(0);
    if (k == 1) d.kin_.resize(0), d.Kin_.resize(0, 3), d.ang_.resize(0), d.Ang_.resize(0, 3);
    if (k == 2) d.contactPhase_ = 0;
    if (k >= 3 && k <= 5) {
      std::shared_ptr<centroidal_dynamics::Equilibrium> e(
          new centroidal_dynamics::Equilibrium("odd", 40, 4, centroidal_dynamics::SOLVER_LP_QPOASES, true, 10, false));
      q.s->eq.push_back(e);
      if (k == 4) e->setNewContacts(P, N, 0.5, r.chance(1, 2) ? centroidal_dynamics::EQUILIBRIUM_ALGORITHM_DLP : centroidal_dynamics::EQUILIBRIUM_ALGORITHM_LP);
      if (k == 5) e->setNewContacts(P, N, 0.5, centroidal_dynamics::EQUILIBRIUM_ALGORITHM_PP);
      d.contactPhase_ = e.get();
    }
    if (k == 6 && q.s->forceVars() <= 600) p.representation_ = bezier_com_traj::FORCE;
    if (k == 7) {
      double t = r.logreal(1e-5, 0.1);
      if (q.kind == PLAN && q.m.kind == Mode::CONT) q.pTs((int)r.choice((uint64_t)q.pTs.size())) = t;
    }
    if (k == 8) p.constraints_.reduce_h_ = r.logreal(1, 1e6);
    if (k == 9) {
      double t = r.pick(std::vector<double>{0., -0.5, 1e-300, 1e-9});
      if (q.kind == PLAN) q.pTs((int)r.choice((uint64_t)q.pTs.size())) = t;
      else if (!q.Ts.empty()) q.Ts[0] = t;
      c.desc << t << " ";
    }
    c.desc << "with " << what[k] << "\n";
    c.label(std::string("odd: ") + what[k]);
    finish(c, q, "odd request");
    return;
  }
  finish(c, q, kindName(q.kind));
}

// problem data copied, assigned, destroyed and used in any order
static void history(pbt::Ctx& c) {
  pbt::Src& r = c.s;
  req::Opt o;
  options(o, r);
  o.big = false;
  o.scene.maxPhases = 2;
  o.kinds = (1 << PLAN) | (1 << ZERO) | (1 << FOOT);
  std::vector<Req> w;
  std::vector<std::unique_ptr<ResultDataCOMTraj> > res;
  int n = r.range(2, 14), used = 0;
  for (int i = 0; i < n; ++i) {
    int k = w.empty() ? 0 : r.range(0, 9);
    size_t j = w.empty() ? 0 : (size_t)r.choice(w.size());
    if (k == 0) {
      Req q;
      generate(c, q, o);
      w.push_back(q);
      c.desc << "new " << q.str << "\n";
    } else if (k == 1 || k == 2) {  // copy that outlives its source
      Req q = w[j];
      if (q.s) {
        std::shared_ptr<Scene> s(new Scene());
        if (k == 1) {
          ProblemData cp(q.s->p);
          s->p = cp;
        } else
          s->p = q.s->p;
        s->Ts = q.s->Ts;
        q.s = s;
      }
      w.push_back(q);
      c.desc << "copy of " << j << "\n";
      c.label("copied");
    } else if (k == 3) {
      w.erase(w.begin() + (long)j);
      c.desc << "destroy " << j << "\n";
      c.label("destroyed");
    } else if (k == 4) {  // assignment over data in use
      size_t l = (size_t)r.choice(w.size());
      if (w[j].s && w[l].s) {
        w[j].s->p = w[l].s->p;
        w[j].kind = w[l].kind;
        w[j].Ts = w[l].Ts;
        w[j].pTs = w[l].pTs;
        w[j].m = w[l].m;
        w[j].solver = w[l].solver;
        w[j].T = w[l].T;
        w[j].step = w[l].step;
        c.desc << "assign " << l << " to " << j << "\n";
        c.label(j == l ? "self assignment" : "assigned");
      }
    } else if (k == 5) {  // contact list edited
      if (w[j].s && !w[j].s->p.contacts_.empty()) {
        std::vector<ContactData>& cs = w[j].s->p.contacts_;
        int e = r.range(0, 3);
        if (e == 0) cs.push_back(cs[0]);
        if (e == 1) cs.erase(cs.begin() + (long)r.choice(cs.size()));
        if (e == 2) cs.emplace_back();
        if (e == 3) cs[(size_t)r.choice(cs.size())] = cs[(size_t)r.choice(cs.size())];
        c.desc << "contact list of " << j << " edited (" << e << ")\n";
        c.label("contact list edited");
      }
    } else if (k == 6 && !res.empty()) {
      size_t a = (size_t)r.choice(res.size()), b = (size_t)r.choice(res.size());
      if (r.chance(1, 2)) *res[a] = *res[b];
      else res.emplace_back(new ResultDataCOMTraj(*res[b]));
      if (r.chance(1, 3)) res.erase(res.begin() + (long)a);
      c.desc << "results copied\n";
    } else if (k == 7 && !res.empty()) {
      const ResultDataCOMTraj& x = *res[(size_t)r.choice(res.size())];
      if (x.success_) {
        double T = x.c_of_t_.max(), s = 0;
        for (double u : {0., 0.3, 1.}) s += x.c_of_t_(u * T).sum() + x.c_of_t_.derivate(u * T, 1).sum() + x.dL_of_t_(u * x.dL_of_t_.max()).sum();
        c.desc << "curves evaluated\n";
        c.label("curves of a result");
        (void)s;
      }
    } else {
      c.desc << "run " << j << "\n";
      finish(c, w[j], "run");
      ++used;
      if (w[j].s && r.chance(1, 2)) try {
          if (w[j].kind == PLAN && w[j].m.kind == Mode::CONT)
            res.emplace_back(new ResultDataCOMTraj(computeCOMTraj(w[j].s->p, w[j].pTs, -1., (solvers::SolverType)w[j].solver)));
          if (w[j].kind == ZERO) res.emplace_back(new ResultDataCOMTraj(solve0step(w[j].s->p, w[j].Ts, w[j].step)));
        } catch (const std::exception&) {
        }
    }
  }
  c.nontrivial = used > 0;
}

template <pbt::Property (*P)(), int I>
static void other(pbt::Ctx& c) {
  static const pbt::Property p = P();
  try {
    p.families[I].fn(c);
  } catch (const pbt::Failure&) {
    c.label("answer judged wrong by another check");
  } catch (const std::exception&) {
    c.label("answer judged wrong by another check");
  }
  c.known.clear();
}

pbt::Property pbt::property() {
  return {"C17",
          "requests of every kind and size, well-formed, ill-formed and odd, histories of copies, assignments and destructions of problem data and results "
          "interleaved with requests, and the generators of C11, C12, C13, C19 and C20, all under sanitizers and bound checks; non-trivial: a request was "
          "solved, evaluated or refused, or as the other check states",
          {"memory errors inside the dynamics library, GLPK and cdd themselves are seen only where they reach an intercepted function", "leaks are judged by C21"},
          {{"requests", requests, 10000, 400000},
           {"history", history, 5000, 150000},
           {"inputs", other<pbt::property_C11, 0>, 3000, 200000},
           {"builder", other<pbt::property_C11, 1>, 1000, 50000},
           {"costs", other<pbt::property_C11, 2>, 1000, 50000},
           {"programs", other<pbt::property_C12, 0>, 15000, 1000000},
           {"uneven linear", other<pbt::property_C13, 1>, 2000, 100000},
           {"linear", other<pbt::property_C13, 2>, 10000, 500000},
           {"medium linear", other<pbt::property_C13, 3>, 500, 30000},
           {"copies", other<pbt::property_C19, 0>, 6000, 300000},
           {"results", other<pbt::property_C19, 1>, 6000, 300000},
           {"algebra", other<pbt::property_C19, 2>, 6000, 300000},
           {"curves", other<pbt::property_C19, 3>, 6000, 300000},
           {"optimisation input", other<pbt::property_C19, 4>, 6000, 300000},
           {"fixed grid", other<pbt::property_C20, 0>, 6000, 300000},
           {"step grid", other<pbt::property_C20, 1>, 6000, 300000},
           {"rows", other<pbt::property_C20, 2>, 6000, 300000}}};
}
