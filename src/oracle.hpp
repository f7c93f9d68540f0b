// Reference constraint system of a planning request and verdicts on it.
#pragma once
#include "scene.hpp"
namespace scene {
struct RefSys {
  Curve c;
  int wdegree = 0;
  Eigen::MatrixXd A;  // unit rows
  Eigen::VectorXd b;
  bool contradiction = false;  // a row without unknowns that cannot hold
  bool borderline = false;     // a row without unknowns that holds or fails by less than the tolerance
};
// margin: whether the robustness margin of the scene applies (cone formulation)
RefSys reference(const Scene& s, const Mode& m, bool margin);
// a point that satisfies every row with the given slack (checked), starting from guess
bool strictlyFeasible(const RefSys& r, double slack, const Eigen::Vector3d& guess, Eigen::Vector3d& x);
// certified: no point within |x| <= 1e4 satisfies the rows even when they are relaxed by the given amount
bool strictlyInfeasible(const RefSys& r, double relax);
Cost costOf(const Scene& s, const Mode& m, const Curve& c);
// squeeze the scene around the curve of x: kinematic rows and acceleration bound hold there with the given slack
void squeeze(pbt::Ctx& c, Scene& s, const Mode& m, const Eigen::Vector3d& x, double slack);
}  // namespace scene
