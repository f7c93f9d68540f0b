// Requests of every kind (planning, capturability, end effector, optimisation, symbolic
// expressions), well-formed and ill-formed, with bit-exact dumps of results and of the data given.
#pragma once
#include "scene.hpp"

namespace req {
using namespace scene;
using namespace bezier_com_traj;
typedef std::vector<double> Dump;

struct Path {
  Eigen::Vector3d a, b, amp;
  double w;
  Eigen::Vector3d operator()(double t) const { return a + t * (b - a) + amp * std::sin(w * t); }
};
enum Kind { PLAN, ZERO, FOOT, OPT, SYMBOLIC, GRID, NKINDS };
struct Req {
  Kind kind = PLAN;
  std::shared_ptr<Scene> s;  // PLAN, ZERO
  Mode m;
  std::vector<double> Ts;  // durations of a ZERO request
  VectorX pTs;             // durations given to a PLAN request
  double T = 1, step = -1, weight = 0.5;
  ProblemData p;  // FOOT, SYMBOLIC; p of the scene otherwise
  Path path;
  // OPT
  Eigen::MatrixXd A, D, H;
  Eigen::VectorXd b, d, g, init, lo, hi;
  int solver = 1;
  int fn = 0;  // SYMBOLIC: which function
  unsigned points = 3;
  std::string why;  // not empty: the request is ill-formed and has to be refused
  std::string str;
  const ProblemData& data() const { return s ? s->p : p; }
};
struct Opt {
  scene::Opt scene;
  int kinds = (1 << NKINDS) - 1;
  bool big = false;
  unsigned ill = 0;  // out of 10: chance of an ill-formed request
};
// throws pbt::Discard when the scene is unusable
void generate(pbt::Ctx& c, Req& q, const Opt& o);
// result as a sequence of numbers; error is set when an exception was raised
Dump run(const Req& q, std::string* error);
// the data handed to the request, phases included
Dump snapshot(const Req& q);
bool same(const Dump& a, const Dump& b);  // bit for bit
std::string where(const Dump& a, const Dump& b);
bool comSupported(int flag);
bool footSupported(int flag);
const int NSYMB = 13;
const char* symbName(int fn);
bool symbSupported(int fn, int flag);
}  // namespace req
