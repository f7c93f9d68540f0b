#include "pbt.hpp"

#ifdef PBT_SAN
#include <sanitizer/common_interface_defs.h>
#endif
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <unordered_set>

using namespace pbt;

namespace {
Property P;
std::string g_tier = "quick", g_scratch;
uint64_t g_seed = 1;
int g_workers = 8;
double g_scale = 1.;
const int CASE_CPU_LIMIT = 30;  // seconds of CPU for one case before it counts as a hang

struct Slot {
  std::atomic<long> cur;
  std::atomic<long> evals, discards, nontrivial;
  std::atomic<int> done;
};
struct Shared {
  std::atomic<long> minFail;
  Slot slots[64];
};
Shared* sh;

std::string jstr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += (char)c;
    } else if (c == '\n')
      o += "\\n";
    else if (c < 32 || c > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else
      o += (char)c;
  }
  return o + "\"";
}

long familyTotal(const Family& f) {
  long n = g_tier == "thorough" ? f.thorough : f.quick;
  if (n > 0) n = std::max(1L, (long)(n * g_scale));
  return n;
}
// deterministic interleaving: family blocks, workers stride over the index
long totalCases() {
  long t = 0;
  for (auto& f : P.families) t += familyTotal(f);
  return t;
}
int familyOf(long idx, long& local) {
  for (size_t i = 0; i < P.families.size(); ++i) {
    long n = familyTotal(P.families[i]);
    if (idx < n) {
      local = idx;
      return (int)i;
    }
    idx -= n;
  }
  abort();
}
uint64_t caseSeed(int fam, long local) {
  return mix(mix(g_seed * 1000003ULL + 17) ^ mix((uint64_t)fam * 7919 + 3) ^ mix((uint64_t)local + 11));
}
uint64_t hashChoices(int fam, const std::vector<uint64_t>& c) {
  uint64_t h = (uint64_t)fam * 0x9e3779b97f4a7c15ULL + 1;
  for (uint64_t v : c) h = mix(h ^ v);
  return h;
}

enum Outcome { PASS = 'P', DISCARD = 'D', FAIL = 'F' };
Outcome runOne(int fam, Src& src, Ctx& ctx, std::string& msg) {
  try {
    P.families[(size_t)fam].fn(ctx);
    return PASS;
  } catch (const Discard&) {
    return DISCARD;
  } catch (const Failure& f) {
    msg = f.msg;
    return FAIL;
  } catch (const std::exception& e) {
    msg = std::string("unexpected exception: ") + e.what();
    return FAIL;
  } catch (...) {
    msg = "unexpected exception of unknown type";
    return FAIL;
  }
}

void setCpuTimer(int sec) {
  struct itimerval tv;
  memset(&tv, 0, sizeof tv);
  tv.it_value.tv_sec = sec;
  setitimer(ITIMER_PROF, &tv, 0);
}

void childSetup(const std::string& errfile) {
  int n = open("/dev/null", O_RDWR);
  dup2(n, 0);
  dup2(n, 1);
  if (!errfile.empty()) {
    int e = open(errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (e >= 0) dup2(e, 2);
  }
  signal(SIGPROF, SIG_DFL);
#ifndef PBT_SAN
  struct rlimit rl;
  rl.rlim_cur = rl.rlim_max = (rlim_t)3 << 30;
  setrlimit(RLIMIT_AS, &rl);
#endif
  struct rlimit nocore;
  nocore.rlim_cur = nocore.rlim_max = 0;
  setrlimit(RLIMIT_CORE, &nocore);
}

std::string tailOf(const std::string& f, size_t n = 3000) {
  std::ifstream in(f);
  std::stringstream ss;
  ss << in.rdbuf();
  std::string s = ss.str();
  // the head of a sanitizer report is the useful part
  size_t p = s.find("ERROR: AddressSanitizer");
  if (p == std::string::npos) p = s.find("runtime error:");
  if (p != std::string::npos) {
    size_t b = s.rfind('\n', p);
    return s.substr(b == std::string::npos ? 0 : b + 1, n);
  }
  return s.size() > n ? s.substr(s.size() - n) : s;
}
std::string describeStatus(int st, const std::string& errfile) {
  std::ostringstream o;
  if (WIFSIGNALED(st)) {
    int sg = WTERMSIG(st);
    if (sg == SIGPROF)
      o << "hang: the request used more than " << CASE_CPU_LIMIT << " s of CPU";
    else
      o << "crash: killed by signal " << sg << " (" << strsignal(sg) << ")";
  } else
    o << "crash: process ended with status " << WEXITSTATUS(st);
  std::string t = tailOf(errfile);
  if (!t.empty()) o << "\n" << t;
  return o.str();
}

struct Eval {
  Outcome out;
  std::string msg, desc;
  std::vector<uint64_t> rec;
  bool killed = false;
};

void wr(int fd, const void* p, size_t n) {
  const char* c = (const char*)p;
  while (n) {
    ssize_t k = write(fd, c, n);
    if (k <= 0) _exit(99);
    c += k;
    n -= (size_t)k;
  }
}
bool rd(int fd, void* p, size_t n) {
  char* c = (char*)p;
  while (n) {
    ssize_t k = read(fd, c, n);
    if (k <= 0) return false;
    c += k;
    n -= (size_t)k;
  }
  return true;
}

// evaluates one choice sequence in a fresh process
Eval evalFork(int fam, const std::vector<uint64_t>& choices, int cpu) {
  int pfd[2];
  if (pipe(pfd)) abort();
  std::string err = g_scratch + "/eval.err";
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    close(pfd[0]);
    childSetup(err);
    setCpuTimer(cpu);
    Src src(choices);
    Ctx ctx(src);
    ctx.verbose = true;
    std::string msg;
    Outcome o = runOne(fam, src, ctx, msg);
    char c = (char)o;
    wr(pfd[1], &c, 1);
    std::string d = ctx.desc.str();
    uint64_t n = msg.size();
    wr(pfd[1], &n, 8);
    wr(pfd[1], msg.data(), n);
    n = d.size();
    wr(pfd[1], &n, 8);
    wr(pfd[1], d.data(), n);
    n = src.record().size();
    wr(pfd[1], &n, 8);
    wr(pfd[1], src.record().data(), n * 8);
    _exit(0);
  }
  close(pfd[1]);
  Eval e;
  e.out = PASS;
  char c;
  bool ok = false;
  if (rd(pfd[0], &c, 1)) {
    uint64_t n;
    ok = rd(pfd[0], &n, 8);
    if (ok) {
      e.msg.resize(n);
      ok = rd(pfd[0], &e.msg[0], n) && rd(pfd[0], &n, 8);
    }
    if (ok) {
      e.desc.resize(n);
      ok = rd(pfd[0], &e.desc[0], n) && rd(pfd[0], &n, 8);
    }
    if (ok) {
      e.rec.resize(n);
      ok = rd(pfd[0], e.rec.data(), n * 8);
    }
    if (ok) e.out = (Outcome)c;
  }
  close(pfd[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  if (!ok || !WIFEXITED(st) || WEXITSTATUS(st) != 0) {
    e.out = FAIL;
    e.rec = choices;
    e.msg = describeStatus(st, err);
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) e.killed = true;
  }
  return e;
}

bool shortlexLess(const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
  if (a.size() != b.size()) return a.size() < b.size();
  return a < b;
}

Eval shrink(int fam, Eval best, int budget, double maxSec) {
  auto t0 = std::chrono::steady_clock::now();
  bool hang = best.msg.compare(0, 4, "hang") == 0;
  if (hang) budget = 4;
  int used = 0;
  auto left = [&]() {
    return used < budget &&
           std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < maxSec;
  };
  auto attempt = [&](const std::vector<uint64_t>& c) {
    if (!left() || !shortlexLess(c, best.rec)) return false;
    ++used;
    Eval e = evalFork(fam, c, CASE_CPU_LIMIT);
    if (e.out != FAIL || e.killed) return false;
    if (e.rec.size() > c.size() || !shortlexLess(e.rec, best.rec)) e.rec = c;
    best = e;
    return true;
  };
  bool improved = true;
  while (improved && left()) {
    improved = false;
    for (size_t k : {64, 32, 16, 8, 4, 2, 1}) {
      for (size_t i = best.rec.size(); i-- > 0 && left();) {
        if (i + k > best.rec.size()) continue;
        std::vector<uint64_t> c(best.rec);
        c.erase(c.begin() + (long)i, c.begin() + (long)(i + k));
        if (attempt(c)) {
          improved = true;
          if (i > best.rec.size()) i = best.rec.size();
        } else if (k > 1)
          i = i >= k / 2 ? i - k / 2 + 1 : 0;
        if (i == 0) break;
      }
    }
    for (size_t k : {16, 8, 4, 2}) {
      for (size_t i = 0; i + k <= best.rec.size() && left(); i += k) {
        std::vector<uint64_t> c(best.rec);
        bool any = false;
        for (size_t j = i; j < i + k; ++j) {
          any = any || c[j];
          c[j] = 0;
        }
        if (any && attempt(c)) improved = true;
      }
    }
    for (size_t i = 0; i < best.rec.size() && left(); ++i) {
      if (best.rec[i] == 0) continue;
      std::vector<uint64_t> c(best.rec);
      c[i] = 0;
      if (attempt(c)) {
        improved = true;
        continue;
      }
      uint64_t lo = 0, hi = best.rec[i];
      int steps = 0;
      while (lo + 1 < hi && left() && steps++ < 12) {
        uint64_t mid = lo + (hi - lo) / 2;
        if (i >= best.rec.size()) break;
        c = best.rec;
        c[i] = mid;
        if (attempt(c)) {
          improved = true;
          if (i >= best.rec.size()) break;
          hi = best.rec[i];
        } else
          lo = mid;
      }
    }
  }
  return best;
}

void writeReplay(const std::string& path, int fam, const Eval& e) {
  std::ofstream o(path);
  o << "{\n \"property\": " << jstr(P.id) << ",\n \"family\": " << jstr(P.families[(size_t)fam].name)
    << ",\n \"seed\": " << g_seed << ",\n \"message\": " << jstr(e.msg) << ",\n \"case\": " << jstr(e.desc)
    << ",\n \"choices\": [";
  for (size_t i = 0; i < e.rec.size(); ++i) o << (i ? "," : "") << e.rec[i];
  o << "]\n}\n";
}

int replayFile(const std::string& path) {
  std::ifstream in(path);
  std::stringstream ss;
  ss << in.rdbuf();
  std::string s = ss.str();
  auto field = [&](const std::string& k) {
    size_t p = s.find("\"" + k + "\": \"");
    if (p == std::string::npos) return std::string();
    p += k.size() + 5;
    size_t q = s.find('"', p);
    return s.substr(p, q - p);
  };
  std::string fam = field("family");
  int fi = -1;
  for (size_t i = 0; i < P.families.size(); ++i)
    if (fam == P.families[i].name) fi = (int)i;
  size_t p = s.rfind("\"choices\": [");
  if (fi < 0 || p == std::string::npos) {
    std::cerr << "cannot read replay file " << path << "\n";
    return 2;
  }
  p += 12;
  std::vector<uint64_t> c;
  while (p < s.size() && s[p] != ']') {
    if (s[p] == ',' || s[p] == ' ' || s[p] == '\n') {
      ++p;
      continue;
    }
    size_t q;
    c.push_back(std::stoull(s.substr(p), &q));
    p += q;
  }
  Eval e = evalFork(fi, c, CASE_CPU_LIMIT);
  std::cout << e.desc << "\n";
  if (e.out == FAIL) {
    std::cout << "FAILED: " << e.msg << "\nVIOLATION property=" << P.id << " replay=" << path << std::endl;
    return 1;
  }
  std::cout << (e.out == PASS ? "passes" : "discarded") << std::endl;
  return 0;
}

struct Stats {
  long evals = 0, discards = 0, nontrivial = 0;
  std::unordered_set<uint64_t> distinct;
  std::map<std::string, long> labels;
  std::map<std::string, std::set<std::string>> famLabels;
  std::vector<std::pair<long, std::string>> samples;
  std::set<std::string> known;
};

void workerMain(int w, long total) {
  Stats st;
  Slot& slot = sh->slots[w];
  std::map<int, int> samplesPerFam;
  const long only = getenv("PBT_ONLY") ? atol(getenv("PBT_ONLY")) : -1;
  std::ofstream trace;
  if (getenv("PBT_TRACE")) trace.open(std::string(getenv("PBT_TRACE")) + "/w" + std::to_string(w) + ".trace");
  for (long idx = w; idx < total; idx += g_workers) {
    if (idx > sh->minFail.load()) break;
    if (only >= 0 && idx != only) continue;
    slot.cur.store(idx);
    long local;
    int fam = familyOf(idx, local);
    setCpuTimer(CASE_CPU_LIMIT);
    Src src(caseSeed(fam, local));
    Ctx ctx(src);
    std::string msg;
    Outcome o = runOne(fam, src, ctx, msg);
    setCpuTimer(0);
    if (trace.is_open()) {
      trace << idx << " " << (int)o << " nt=" << ctx.nontrivial;
      for (auto& l : ctx.labels) trace << " | " << l;
      trace << "\n";
    }
    if (o == FAIL) {
      long m = sh->minFail.load();
      while (idx < m && !sh->minFail.compare_exchange_weak(m, idx)) {
      }
      break;
    }
    ++st.evals;
    if (o == DISCARD) {
      ++st.discards;
      st.labels[std::string(P.families[(size_t)fam].name) + ": discarded"]++;
      continue;
    }
    for (auto& l : ctx.labels) st.labels[std::string(P.families[(size_t)fam].name) + ": " + l]++;
    for (auto& l : ctx.counts) st.labels[std::string(P.families[(size_t)fam].name) + ": " + l.first] += l.second;
    for (auto& k : ctx.known) st.known.insert(k);
    if (ctx.nontrivial) {
      ++st.nontrivial;
      st.distinct.insert(hashChoices(fam, src.record()));
      if (samplesPerFam[fam] < 1 && w < 2) {
        samplesPerFam[fam]++;
        std::string d = ctx.desc.str();
        if (d.size() > 1500) d = d.substr(0, 1500) + "...";
        st.samples.push_back(std::make_pair(idx, std::string(P.families[(size_t)fam].name) + ": " + d));
      }
    }
  }
  std::ofstream o(g_scratch + "/w" + std::to_string(w) + ".out", std::ios::binary);
  o << st.evals << " " << st.discards << " " << st.nontrivial << "\n" << st.distinct.size() << "\n";
  for (uint64_t h : st.distinct) o << h << "\n";
  o << st.labels.size() << "\n";
  for (auto& l : st.labels) o << l.second << " " << l.first << "\n";
  o << st.samples.size() << "\n";
  for (auto& s : st.samples) {
    std::string d = s.second;
    std::replace(d.begin(), d.end(), '\n', ' ');
    o << s.first << " " << d << "\n";
  }
  o << st.known.size() << "\n";
  for (auto& k : st.known) o << k << "\n";
  o.close();
  trace.close();
  slot.done.store(1);
  _exit(0);
}

struct RunResult {
  long failIdx = -1;
  std::string failMsg;
  Stats st;
};

RunResult runAll(long total) {
  RunResult rr;
  sh->minFail.store(1L << 60);
  for (int w = 0; w < g_workers; ++w) {
    sh->slots[w].cur.store(-1);
    sh->slots[w].done.store(0);
    std::string f = g_scratch + "/w" + std::to_string(w) + ".out";
    unlink(f.c_str());
  }
  fflush(stdout);
  std::vector<pid_t> pids((size_t)g_workers);
  for (int w = 0; w < g_workers; ++w) {
    pid_t pid = fork();
    if (pid == 0) {
      childSetup(g_scratch + "/w" + std::to_string(w) + ".err");
      workerMain(w, total);
    }
    pids[(size_t)w] = pid;
  }
  std::map<long, std::string> crashMsg;
  for (int k = 0; k < g_workers; ++k) {
    int st;
    pid_t pid = waitpid(-1, &st, 0);
    int w = (int)(std::find(pids.begin(), pids.end(), pid) - pids.begin());
    if (w >= g_workers) continue;
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh->slots[w].done.load())) {
      long idx = sh->slots[w].cur.load();
      crashMsg[idx] = describeStatus(st, g_scratch + "/w" + std::to_string(w) + ".err");
      long m = sh->minFail.load();
      while (idx < m && !sh->minFail.compare_exchange_weak(m, idx)) {
      }
    }
  }
  if (sh->minFail.load() < (1L << 60)) {
    rr.failIdx = sh->minFail.load();
    if (crashMsg.count(rr.failIdx)) rr.failMsg = crashMsg[rr.failIdx];
  }
  for (int w = 0; w < g_workers; ++w) {
    std::ifstream in(g_scratch + "/w" + std::to_string(w) + ".out");
    long a, b, c;
    size_t n;
    if (!(in >> a >> b >> c >> n)) continue;
    rr.st.evals += a;
    rr.st.discards += b;
    rr.st.nontrivial += c;
    for (size_t i = 0; i < n; ++i) {
      uint64_t h;
      in >> h;
      rr.st.distinct.insert(h);
    }
    in >> n;
    for (size_t i = 0; i < n; ++i) {
      long v;
      std::string l;
      in >> v;
      in.get();
      std::getline(in, l);
      rr.st.labels[l] += v;
    }
    in >> n;
    for (size_t i = 0; i < n; ++i) {
      long v;
      std::string l;
      in >> v;
      in.get();
      std::getline(in, l);
      rr.st.samples.push_back(std::make_pair(v, l));
    }
    in >> n;
    in.get();
    for (size_t i = 0; i < n; ++i) {
      std::string l;
      std::getline(in, l);
      rr.st.known.insert(l);
    }
  }
  return rr;
}
}  // namespace

int main(int argc, char** argv) {
  std::string evidence, replay, replayDir = "/tmp";
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--tier")
      g_tier = val();
    else if (a == "--seed")
      g_seed = std::stoull(val());
    else if (a == "--workers")
      g_workers = std::stoi(val());
    else if (a == "--scale")
      g_scale = std::stod(val());
    else if (a == "--evidence")
      evidence = val();
    else if (a == "--replay")
      replay = val();
    else if (a == "--replay-dir")
      replayDir = val();
  }
  g_workers = std::max(1, std::min(g_workers, 64));
  P = property();
  char tmpl[] = "/tmp/pbtXXXXXX";
  if (!mkdtemp(tmpl)) {
    perror("mkdtemp");
    return 2;
  }
  g_scratch = tmpl;
  struct Clean {
    ~Clean() {
      for (int w = 0; w < 64; ++w)
        for (const char* e : {".out", ".err"}) unlink((g_scratch + "/w" + std::to_string(w) + e).c_str());
      unlink((g_scratch + "/eval.err").c_str());
      rmdir(g_scratch.c_str());
    }
  } clean;
  if (!replay.empty()) return replayFile(replay);
  sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  auto t0 = std::chrono::steady_clock::now();
  long total = totalCases();
  RunResult rr;
  bool violation = false;
  std::string replayPath;
  std::string note;
  for (int attempt = 0; attempt < 3; ++attempt) {
    rr = runAll(total);
    if (rr.failIdx < 0) break;
    long local;
    int fam = familyOf(rr.failIdx, local);
    // regenerate the choices of the failing case
    std::vector<uint64_t> choices;
    // the generator draws from the seed; replay needs the recorded choices, obtained by running
    // the case once more in a child (recorded until the failure).  For crashes the record is
    // streamed through a shared buffer.
    struct Rec {
      std::atomic<uint64_t> n;
      uint64_t v[1 << 21];
    };
    (void)sizeof(Rec);
    Eval e;
    {
      int pfd[2];
      if (pipe(pfd)) abort();
      fflush(stdout);
      pid_t pid = fork();
      if (pid == 0) {
        close(pfd[0]);
        childSetup(g_scratch + "/eval.err");
        // generator-only recording is impossible for crashes inside the case, so the choices are
        // a pure function of (seed, bounds): run under a handler that dumps the record.
        static Src* sp;
        static int fd;
        fd = pfd[1];
        Src src(caseSeed(fam, local));
        sp = &src;
        auto dump = []() {
          uint64_t n = sp->record().size();
          wr(fd, &n, 8);
          wr(fd, sp->record().data(), n * 8);
        };
        static auto sdump = dump;
        auto h = [](int) {
          sdump();
          _exit(1);
        };
        for (int sg : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGPROF}) signal(sg, h);
        atexit([]() { sdump(); });
#ifdef PBT_SAN
        __sanitizer_set_death_callback([]() { sdump(); });
#endif
        setCpuTimer(CASE_CPU_LIMIT);
        Ctx ctx(src);
        std::string msg;
        runOne(fam, src, ctx, msg);
        sdump();
        _exit(0);
      }
      close(pfd[1]);
      uint64_t n;
      if (rd(pfd[0], &n, 8)) {
        choices.resize(n);
        if (!rd(pfd[0], choices.data(), n * 8)) choices.clear();
      }
      close(pfd[0]);
      int st;
      waitpid(pid, &st, 0);
    }
    int reproduced = 0;
    for (int k = 0; k < 3; ++k) {
      Eval x = evalFork(fam, choices, CASE_CPU_LIMIT);
      if (x.out == FAIL && !x.killed) {
        ++reproduced;
        e = x;
      }
    }
    if (reproduced == 0) {
      std::cerr << "note: case " << rr.failIdx << " (" << P.families[(size_t)fam].name
                << ") failed once and not on replay: " << rr.failMsg << "\n";
      note += "a case failed once and did not fail again on replay; the run was repeated. ";
      if (attempt < 2) continue;
      e.out = FAIL;
      e.rec = choices;
      e.msg = "fails, but not on every execution: " + rr.failMsg;
    } else if (reproduced == 3) {
      e = shrink(fam, e, 800, 120.);
      int again = 0;
      for (int k = 0; k < 3; ++k) again += evalFork(fam, e.rec, CASE_CPU_LIMIT).out == FAIL;
      (void)again;
    }
    violation = true;
    mkdir(replayDir.c_str(), 0755);
    std::ostringstream nm;
    nm << replayDir << "/" << P.id << "-" << g_tier << "-" << g_seed << "-" << rr.failIdx << ".json";
    replayPath = nm.str();
    writeReplay(replayPath, fam, e);
    std::cout << "case " << rr.failIdx << " of " << total << " (family " << P.families[(size_t)fam].name
              << ") fails:\n" << e.msg << "\n--- minimal case\n" << e.desc << "\n";
    break;
  }
  double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  for (auto& k : rr.st.known) std::cout << "KNOWN-FINDING: property=" << P.id << " " << k << "\n";
  if (!evidence.empty()) {
    std::sort(rr.st.samples.begin(), rr.st.samples.end());
    std::ofstream o(evidence);
    o << "{\n \"property\": " << jstr(P.id) << ",\n \"tier\": " << jstr(g_tier) << ",\n \"seed\": " << g_seed
      << ",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << rr.st.evals
      << ",\n  \"discarded\": " << rr.st.discards << ",\n  \"nontrivial\": " << rr.st.nontrivial
      << ",\n  \"distinct_nontrivial\": " << rr.st.distinct.size() << ",\n  \"rule\": " << jstr(P.rule)
      << ",\n  \"labels\": {";
    bool first = true;
    for (auto& l : rr.st.labels) {
      o << (first ? "" : ", ") << "\n   " << jstr(l.first) << ": " << l.second;
      first = false;
    }
    o << "\n  },\n  \"samples\": [";
    first = true;
    int ns = 0;
    for (auto& s : rr.st.samples) {
      if (ns++ >= 12) break;
      o << (first ? "" : ",") << "\n   " << jstr(s.second);
      first = false;
    }
    o << "\n  ]\n },\n \"assumptions\": [";
    first = true;
    for (auto& a : P.assumptions) {
      o << (first ? "" : ", ") << jstr(a);
      first = false;
    }
    if (!note.empty()) o << (first ? "" : ", ") << jstr(note);
    o << "],\n \"wall_s\": " << wall << ",\n \"violations\": " << (violation ? 1 : 0) << "\n}\n";
  }
  std::cout << P.id << " " << g_tier << " seed=" << g_seed << ": " << rr.st.evals << " cases, "
            << rr.st.discards << " discarded, " << rr.st.distinct.size() << " distinct non-trivial, " << wall
            << " s\n";
  for (auto& l : rr.st.labels) std::cout << "   " << l.first << " = " << l.second << "\n";
  if (violation) {
    std::cout << "VIOLATION property=" << P.id << " replay=" << replayPath << std::endl;
    return 1;
  }
  return 0;
}
