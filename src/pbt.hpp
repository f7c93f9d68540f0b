// Property-based testing engine: choice-sequence generation with integrated shrinking.
//
// A test case is a finite sequence of integers ("choices").  Generators draw from the
// sequence; 0 is always the simplest alternative, so deleting and lowering choices shrinks a
// case without leaving the space of valid cases.  A failing case is stored as its choice
// sequence, which is what --replay executes.
#pragma once
#include <cmath>
#include <cstdint>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {

struct Discard {};
struct Failure {
  std::string msg;
};

inline uint64_t mix(uint64_t z) {
  z += 0x9e3779b97f4a7c15ULL;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}

class Src {
 public:
  Src(uint64_t seed) : state_(seed), replay_(false) {}
  Src(const std::vector<uint64_t>& c) : state_(0), prefix_(c), replay_(true) {}
  // integer in [0,n)
  uint64_t choice(uint64_t n) {
    if (n == 0) n = 1;
    uint64_t v;
    if (replay_)
      v = rec_.size() < prefix_.size() ? prefix_[rec_.size()] : 0;
    else {
      state_ = mix(state_ + 0x632be59bd9b4e019ULL);
      v = state_;
      if (n != 0) v = (uint64_t)(((unsigned __int128)v * n) >> 64);
    }
    if (v >= n) v = replay_ ? n - 1 : v % n;
    rec_.push_back(v);
    if (rec_.size() > 2000000) throw Discard();
    return v;
  }
  // true with probability num/den; false is the simplest
  bool chance(unsigned num, unsigned den) { return choice(den) >= den - num; }
  int range(int lo, int hi) { return lo + (int)choice((uint64_t)(hi - lo + 1)); }
  double unit() { return (double)choice(1u << 24) / (double)((1u << 24) - 1); }
  // uniform real, simplest value lo
  double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
  // symmetric real, simplest value 0
  double sym(double a) {
    double m = a * unit();
    return chance(1, 2) ? -m : m;
  }
  double gauss() {
    double s = 0;
    for (int i = 0; i < 4; ++i) s += (double)choice(1u << 16) / 65535. - 0.5;
    return s * 1.7;
  }
  double logreal(double lo, double hi) { return std::exp(real(std::log(lo), std::log(hi))); }
  template <class T>
  const T& pick(const std::vector<T>& v) {
    return v[(size_t)choice(v.size())];
  }
  const std::vector<uint64_t>& record() const { return rec_; }

 private:
  uint64_t state_;
  std::vector<uint64_t> prefix_, rec_;
  bool replay_;
};

struct Ctx {
  Src& s;
  std::ostringstream desc;  // human readable description of the case
  bool nontrivial = false;
  std::set<std::string> labels;
  std::map<std::string, long> counts;
  std::set<std::string> known;  // known findings that this case exhibited
  bool verbose = false;
  explicit Ctx(Src& src) : s(src) { desc.precision(17); }
  void label(const std::string& l) { labels.insert(l); }
  void count(const std::string& l, long n = 1) { counts[l] += n; }
};

typedef void (*CaseFn)(Ctx&);
struct Family {
  const char* name;
  CaseFn fn;
  long quick;
  long thorough;
};

// supplied by each property harness
struct Property {
  const char* id;
  const char* rule;
  std::vector<std::string> assumptions;
  std::vector<Family> families;
};
Property property();

}  // namespace pbt

#define PBT_FAIL(stream_expr)              \
  do {                                     \
    std::ostringstream pbt_os;             \
    pbt_os.precision(17);                  \
    pbt_os << stream_expr;                 \
    throw pbt::Failure{pbt_os.str()};      \
  } while (0)
#define PBT_CHECK(cond, stream_expr) \
  do {                               \
    if (!(cond)) PBT_FAIL(stream_expr); \
  } while (0)
