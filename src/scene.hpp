// Generators for planning problems.
#pragma once
#include <memory>

#include "pbt.hpp"
#include "ref.hpp"

namespace scene {
using namespace ref;

struct ContactSet {
  std::vector<Eigen::Vector3d> pos, nor;
};
struct Scene {
  ProblemData p;
  VectorX Ts;
  double mass = 50, mu = 0.5;
  std::vector<ContactSet> sets;  // per phase
  std::vector<int> gens;         // generators per contact of each phase (4 if empty)
  bool share = false;            // equal contact sets use one Equilibrium object
  double load = 1;               // factor of the mass in every second phase
  double massOf(size_t i) const { return i % 2 ? mass * load : mass; }
  int gensOf(size_t i) const { return i < gens.size() ? gens[i] : 4; }
  std::vector<std::shared_ptr<centroidal_dynamics::Equilibrium> > eq;
  std::vector<Cone> cones;
  double T() const { return Ts.sum(); }
  size_t forceVars() const {  // at most: contact forces of the continuous formulation
    size_t n = 0;
    for (size_t i = 0; i < sets.size(); ++i) n += 12 * sets[i].pos.size() * (size_t)gensOf(i);
    return n;
  }
  ~Scene() {}
  Scene() {}
  Scene(const Scene&) = delete;
};

struct Opt {
  int maxPhases = 3;
  int maxPoints = 8;        // contact points per phase
  bool kin = true;
  bool acc = true;
  bool reduceH = true;
  bool manyPhases = false;  // occasionally 4 to 6 phases
  bool easy = false;        // bias to feasible problems
  bool zeroStep = false;
  bool allowZero = true;    // put an end point exactly at the origin sometimes
  double offset = 5;
  bool share = false;       // sometimes one Equilibrium object for the phases with the same contacts
};

// fills everything but the condition set dependent choices (flag, cost)
void generate(pbt::Ctx& c, Scene& s, const Opt& o);
// builds Equilibrium objects and cones from sets; returns false if the cone computation is unusable
bool build(Scene& s);
void rebuildProblemContacts(Scene& s);
int pickFlag(pbt::Ctx& c, Scene& s);         // a COM condition set; adapts boundary data (c0_dc0_dc1 stops)
void pickCost(pbt::Ctx& c, Scene& s);
void describe(pbt::Ctx& c, const Scene& s);
const char* costName(int c);

// random unit vector
Eigen::Vector3d dir(pbt::Src& s);
// inequality polytope around a centre
void polytope(pbt::Src& s, const Eigen::Vector3d& centre, double lo, double hi, bezier_com_traj::MatrixX3& K,
              VectorX& k);

// planning mode
struct Mode {
  enum Kind { FIXED, STEP, CONT } kind = FIXED;
  int points = 3;
  double step = -1;
  bool force = false;
  bool lp = false;
};
void pickMode(pbt::Ctx& c, Scene& s, Mode& m, bool sampled, bool continuous, bool force, bool lp);
bezier_com_traj::ResultDataCOMTraj plan(const Scene& s, const Mode& m);
std::string str(const Mode& m);

}  // namespace scene
