// Ill-formed requests are refused, well-formed ones accepted; refusals leave no trace.
#include "req.hpp"
using namespace req;

static void history(pbt::Ctx& c) {
  pbt::Src& r = c.s;
  req::Opt good, bad;
  good.scene.maxPhases = bad.scene.maxPhases = 2;
  good.scene.maxPoints = bad.scene.maxPoints = 4;
  good.kinds = r.chance(1, 2) ? 1 << PLAN : (1 << ZERO) | (1 << FOOT) | (1 << OPT) | (1 << SYMBOLIC);
  Req v;
  generate(c, v, good);
  c.desc << "well-formed: " << v.str << "\n";
  if (v.s) scene::describe(c, *v.s);
  Dump before = snapshot(v);
  std::string err;
  Dump first = run(v, &err);
  PBT_CHECK(err.empty(), "a well-formed request is refused: " << v.str << ": " << err);
  PBT_CHECK(same(snapshot(v), before), "the request modified its problem data: " << where(snapshot(v), before));
  bad.ill = 10;
  int n = r.range(1, 5);
  for (int i = 0; i < n; ++i) {
    Req q;
    generate(c, q, bad);
    c.desc << "then: " << q.str << "\n";
    Dump snap = snapshot(q);
    run(q, &err);
    PBT_CHECK(!err.empty(), "an ill-formed request is answered: " << q.str);
    PBT_CHECK(same(snapshot(q), snap), "a refused request modified its problem data: " << q.str << ": " << where(snapshot(q), snap));
    c.label("refused: " + q.why.substr(0, q.why.find_first_of("0123456789")));
    c.nontrivial = true;
  }
  Dump again = run(v, &err);
  PBT_CHECK(err.empty(), "a well-formed request is refused after ill-formed ones: " << v.str << ": " << err);
  PBT_CHECK(same(again, first), "the result of " << v.str << " differs after refused requests: " << where(again, first));
}
// every condition set: 8192 flag values against every entry point
static void flagsweep(pbt::Ctx& c) {
  pbt::Src& r = c.s;
  int flag = r.chance(1, 2) ? r.range(0, 255) : r.range(0, 0x1fff);
  if (r.chance(1, 3)) flag = ref::flags()[(size_t)r.choice(ref::flags().size())].flag;
  Req q;
  req::Opt o;
  o.scene.maxPhases = 1;
  o.scene.maxPoints = 4;
  o.scene.easy = true;
  o.kinds = r.chance(1, 2) ? 1 << PLAN : (1 << FOOT) | (1 << SYMBOLIC);
  generate(c, q, o);
  ProblemData& p = q.s ? q.s->p : q.p;
  p.constraints_.flag_ = (ConstraintFlag)flag;
  const bool stop = (flag & END_VEL) && !(flag & END_POS);
  bool dc1 = r.chance(1, 2);
  if (stop && !dc1) p.dc1_.setZero();
  bool ok = true;
  if (q.kind == PLAN) {
    int cost = r.chance(1, 4) ? r.range(0, 16) : 1 << r.range(0, 2);
    p.costFunction_ = (CostFunction)cost;
    ok = comSupported(flag) && (cost == 1 || cost == 2 || (cost == 4 && !(flag & END_VEL)));
  } else if (q.kind == FOOT)
    ok = footSupported(flag);
  else
    ok = symbSupported(q.fn, flag);
  if (ok && stop && p.dc1_.norm() > 0) {
    // this condition set means a stop: a terminal velocity contradicts it
    p.dc1_.setZero();
  }
  c.desc << q.str << " now flag " << flag << " cost " << (int)p.costFunction_ << "\n";
  std::string err;
  Dump snap = snapshot(q);
  Dump d = run(q, &err);
  c.nontrivial = true;
  c.label(ok ? "supported" : "unsupported");
  if (ok) PBT_CHECK(err.empty(), "a supported combination is refused: flag " << flag << " cost " << (int)p.costFunction_ << " " << q.str << ": " << err);
  else PBT_CHECK(!err.empty(), "an unsupported combination is answered: flag " << flag << " cost " << (int)p.costFunction_ << " " << q.str);
  PBT_CHECK(same(snapshot(q), snap), "the request modified its problem data: " << q.str);
}

pbt::Property pbt::property() {
  return {"C16",
          "a well-formed request before and after up to five ill-formed ones of every kind; random condition flags out of all 8192 values with every cost and entry point; "
          "non-trivial: at least one ill-formed request was issued, or a flag value was decided",
          {"calls with control point lists of the wrong length and violated documented preconditions (time step above half a phase) are not issued"},
          {{"history", history, 20000, 1500000}, {"flags", flagsweep, 60000, 4000000}}};
}
