// No request keeps memory: what is allocated while it is answered is released with its answer.
#include <malloc.h>

#include "req.hpp"
using namespace req;

// outstanding allocations of this thread
static thread_local long g_blocks = 0, g_bytes = 0;
extern "C" {
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
void __libc_free(void*);
static void* in(void* p) {
  if (p) ++g_blocks, g_bytes += (long)malloc_usable_size(p);
  return p;
}
static void out(void* p) {
  if (p) --g_blocks, g_bytes -= (long)malloc_usable_size(p);
}
void* malloc(size_t n) { return in(__libc_malloc(n)); }
void* calloc(size_t n, size_t m) { return in(__libc_calloc(n, m)); }
void free(void* p) {
  out(p);
  __libc_free(p);
}
void* realloc(void* p, size_t n) {
  out(p);
  void* q = __libc_realloc(p, n);
  if (!q && p && n) in(p);
  return in(q);
}
void* memalign(size_t a, size_t n) { return in(__libc_memalign(a, n)); }
void* aligned_alloc(size_t a, size_t n) { return in(__libc_memalign(a, n)); }
int posix_memalign(void** p, size_t a, size_t n) {
  *p = in(__libc_memalign(a, n));
  return *p ? 0 : 12;
}
}

static std::string once(const Req& q, std::string* err) {
  Dump d = run(q, err);
  if (!err->empty()) return "refused";
  if (q.kind == SYMBOLIC || q.kind == GRID) return "evaluated";
  return d[0] ? "solved" : "failed";
}
static void requests(pbt::Ctx& c) {
  pbt::Src& r = c.s;
  req::Opt o;
  o.scene.maxPhases = 3;
  o.scene.maxPoints = 5;
  o.scene.easy = r.chance(2, 3);
  o.ill = 2;
  o.kinds = r.chance(1, 2) ? (1 << PLAN) | (1 << ZERO) | (1 << OPT) : (1 << NKINDS) - 1;
  int n = r.range(1, 4);
  std::vector<Req> w((size_t)n);
  for (auto& q : w) {
    generate(c, q, o);
    c.desc << q.str << "\n";
  }
  // caches that are filled once do not count
  for (auto& q : w) {
    std::string err;
    std::string k = once(q, &err);
    c.label(k);
    if (k == "solved" || k == "failed" || k == "refused") c.nontrivial = true;
  }
  long blocks[3], bytes[3];
  for (int i = 0; i < 3; ++i) {
    long b0 = g_blocks, y0 = g_bytes;
    for (auto& q : w) {
      std::string err;
      once(q, &err);
    }
    blocks[i] = g_blocks - b0;
    bytes[i] = g_bytes - y0;
  }
  // a leak repeats; a cache that grows now and then does not
  PBT_CHECK(blocks[0] <= 0 || blocks[1] <= 0 || blocks[2] <= 0,
            "every repetition of the requests leaves memory behind: " << blocks[0] << ", " << blocks[1] << ", " << blocks[2] << " blocks, " << bytes[0] << ", " << bytes[1]
                                                                      << ", " << bytes[2] << " bytes");
}
// results and inequality data copied and destroyed
static void results(pbt::Ctx& c) {
  pbt::Src& r = c.s;
  req::Opt o;
  o.scene.maxPhases = 2;
  o.scene.maxPoints = 4;
  o.scene.easy = true;
  o.kinds = (1 << PLAN) | (1 << ZERO);
  Req q;
  generate(c, q, o);
  c.desc << q.str << "\n";
  int steps = r.range(1, 8);
  std::vector<int> ops;
  for (int i = 0; i < steps; ++i) ops.push_back(r.range(0, 3));
  long blocks[3];
  for (int i = -1; i < 3; ++i) {
    long b0 = g_blocks;
    {
      std::vector<ResultDataCOMTraj> v;
      v.push_back(q.kind == ZERO ? solve0step(q.s->p, q.Ts, q.step)
                  : q.m.kind == Mode::FIXED ? computeCOMTrajFixedSize(q.s->p, q.pTs, (unsigned)q.m.points)
                                            : computeCOMTraj(q.s->p, q.pTs, q.m.kind == Mode::STEP ? q.m.step : -1., (solvers::SolverType)q.solver));
      for (int k : ops) {
        if (k == 0) v.push_back(v[0]);
        if (k == 1) v.back() = v.front();
        if (k == 2 && v.size() > 1) v.pop_back();
        if (k == 3) {
          ResultDataCOMTraj x;
          x = v[0];
          v.insert(v.begin(), x);
        }
      }
      if (v[0].success_) c.label("solved"), c.nontrivial = true;
    }
    if (i >= 0) blocks[i] = g_blocks - b0;
  }
  PBT_CHECK(blocks[0] <= 0 || blocks[1] <= 0 || blocks[2] <= 0, "results leave " << blocks[0] << ", " << blocks[1] << ", " << blocks[2] << " blocks behind");
}

// a stream of requests that are all different: nothing may pile up per request
static void stream(pbt::Ctx& c) {
  pbt::Src& r = c.s;
  req::Opt o;
  o.scene.maxPhases = 2;
  o.scene.maxPoints = 4;
  o.scene.easy = r.chance(2, 3);
  static const int K[] = {PLAN, PLAN, ZERO, FOOT, OPT, SYMBOLIC, GRID};
  o.kinds = 1 << K[r.choice(7)];
  Req q;
  generate(c, q, o);
  c.desc << q.str << "\nand variations of it\n";
  const int n = 12, rounds = 4;
  long blocks[rounds];
  long serial = 0;
  for (int i = 0; i < rounds; ++i) {
    long b0 = g_blocks;
    for (int j = 0; j < n; ++j) {
      const double e = 1e-7 * double(++serial);
      ProblemData& p = q.s ? q.s->p : q.p;
      const point_t c0 = p.c0_, c1 = p.c1_, dc0 = p.dc0_;
      const double m = p.constraints_.maxAcceleration_, h = p.constraints_.reduce_h_, T = q.T, w = q.weight, st = q.step;
      const VectorX pTs = q.pTs;
      const std::vector<double> Ts = q.Ts;
      const Eigen::VectorXd g = q.g, b = q.b;
      p.c0_.x() += e;
      p.c1_.y() += e;
      p.dc0_.z() += e;
      p.constraints_.maxAcceleration_ += e;
      p.constraints_.reduce_h_ += e * 1e-3;
      q.T *= 1 + e;
      q.weight = q.weight > 0.5 ? q.weight - e : q.weight + e;
      if (q.step > 0) q.step *= 1 + e;
      q.pTs *= 1 + e;
      for (double& t : q.Ts) t *= 1 + e;
      if (q.g.size()) q.g[0] += e;
      if (q.b.size()) q.b[0] += e;
      std::string err;
      std::string k = once(q, &err);
      if (i == 0 && j == 0) {
        c.label("stream " + k);
        c.nontrivial = true;
      }
      p.c0_ = c0;
      p.c1_ = c1;
      p.dc0_ = dc0;
      p.constraints_.maxAcceleration_ = m;
      p.constraints_.reduce_h_ = h;
      q.T = T;
      q.weight = w;
      q.step = st;
      q.pTs = pTs;
      q.Ts = Ts;
      q.g = g;
      q.b = b;
    }
    blocks[i] = g_blocks - b0;
  }
  bool grows = true;
  for (int i = 1; i < rounds; ++i) grows = grows && blocks[i] >= n;
  PBT_CHECK(!grows, "every round of " << n << " different requests leaves memory behind: " << blocks[1] << ", " << blocks[2] << ", " << blocks[3] << " blocks");
}

pbt::Property pbt::property() {
  return {"C21",
          "one to four requests of every kind, well-formed and ill-formed, answered four times; streams of 48 requests that all differ; results copied, assigned and destroyed; non-trivial: a request "
          "was solved, failed or was refused while every allocation was counted",
          {"memory kept once by caches is no leak", "copies of contact data own the copied phase, which their holder releases, and are not part of a request"},
          {{"requests", requests, 12000, 1000000}, {"results", results, 5000, 400000}, {"stream", stream, 3000, 200000}}};
}
