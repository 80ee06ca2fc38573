// Small harness: seeded cases run in forked, restartable workers; monitors report through Ctx.
#ifndef VF_HPP
#define VF_HPP
#include <algorithm>
#include <atomic>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace vf {

inline std::uint64_t mix(std::uint64_t z) {
  z += 0x9E3779B97F4A7C15ull;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}

inline std::uint64_t hashStr(const std::string &s) {
  std::uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  return mix(h);
}

struct Rng {
  std::uint64_t s;
  explicit Rng(std::uint64_t seed = 1) : s(mix(seed)) {}
  std::uint64_t next() { s += 0x9E3779B97F4A7C15ull; return mix(s); }
  // [0,n)
  std::uint64_t below(std::uint64_t n) { return n ? next() % n : 0; }
  // [a,b]
  long range(long a, long b) { return a + static_cast<long>(below(static_cast<std::uint64_t>(b - a + 1))); }
  double real() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double real(double a, double b) { return a + (b - a) * real(); }
  bool chance(double p) { return real() < p; }
  template<class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
  template<class T> void shuffle(std::vector<T> &v) { for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[below(i)]); }
};

inline std::string jesc(const std::string &s) {
  std::string r;
  char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += (char) c; }
    else if (c < 0x20 || c >= 0x7f) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += (char) c;
  }
  return r;
}

struct Violation { std::string suite; std::uint64_t idx; std::string key, detail; };

struct Ctx {
  Rng rng;
  std::string suite, dir;          // dir: private scratch directory of the worker, emptied per case on request
  std::uint64_t idx = 0;
  bool thorough = false, replay = false;
  std::map<std::string, std::uint64_t> counters;
  std::unordered_set<std::uint64_t> distincts;
  std::vector<std::string> samples, inconclusives;
  std::vector<Violation> violations;
  void count(const std::string &n, std::uint64_t k = 1) { counters[n] += k; }
  // observed, non trivial case/state, identified by content
  void distinct(const std::string &content) { distincts.insert(hashStr(content)); }
  void distinct(std::uint64_t h) { distincts.insert(h); }
  void sample(const std::string &s) { if (samples.size() < 3) samples.push_back(s.substr(0, 1500)); }
  void violation(const std::string &key, const std::string &detail) {
    if (violations.size() < 40) violations.push_back({suite, idx, key, detail.substr(0, 6000)});
    if (replay) std::cerr << "VIOLATION-KEY " << key << "\n" << detail << std::endl;
  }
  bool check(bool ok, const std::string &key, const std::string &detail) { if (!ok) violation(key, detail); return ok; }
  void inconclusive(const std::string &why) { if (inconclusives.size() < 20) inconclusives.push_back(why); }
};

struct Suite {
  std::string name;
  std::uint64_t quick, thorough;
  std::function<void(Ctx &)> fn;
  double hangLimit = 60;           // seconds for one case before it is set aside as a suspected hang
};

inline void mkdirs(const std::string &p) {
  for (size_t i = 1; i <= p.size(); ++i)
    if (i == p.size() || p[i] == '/') ::mkdir(p.substr(0, i).c_str(), 0755);
}

// removes what is below dir (dir is always a scratch directory made by this program)
inline void wipe(const std::string &dir) {
  DIR *d = opendir(dir.c_str());
  if (!d) return;
  while (dirent *e = readdir(d)) {
    std::string n = e->d_name;
    if (n == "." || n == "..") continue;
    std::string p = dir + "/" + n;
    struct stat st;
    if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) { wipe(p); ::rmdir(p.c_str()); }
    else ::unlink(p.c_str());
  }
  closedir(d);
}

inline std::string freshDir(Ctx &c, const std::string &name = "d") {
  std::string p = c.dir + "/" + name;
  wipe(p);
  mkdirs(p);
  return p;
}

inline std::string slurp(const std::string &p) {
  std::ifstream f(p, std::ios::binary);
  std::stringstream ss; ss << f.rdbuf();
  return ss.str();
}
inline void spit(const std::string &p, const std::string &s) {
  std::ofstream f(p, std::ios::binary | std::ios::trunc);
  f.write(s.data(), (std::streamsize) s.size());
}

// what the code under test prints while this object lives (the library reports some failures on stdout only)
struct Printed {
  std::string file; int so, se; bool on = true;
  explicit Printed(Ctx &c) : file(c.dir + "/printed.txt") {
    fflush(stdout); fflush(stderr); std::cout.flush();
    int fd = open(file.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644); so = dup(1); se = dup(2); dup2(fd, 1); dup2(fd, 2); close(fd);
  }
  std::string end() {
    if (!on) return ""; on = false;
    fflush(stdout); fflush(stderr); std::cout.flush(); std::cerr.flush(); dup2(so, 1); dup2(se, 2); close(so); close(se);
    std::string s = slurp(file); fputs(s.c_str(), stderr); return s;   // still in the log of the worker
  }
  ~Printed() { end(); }
};

struct Shared { volatile std::uint64_t idx; volatile double start; volatile int state; };

inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

inline void flush(Ctx &c, const std::string &file) {
  std::ofstream f(file, std::ios::app | std::ios::binary);
  f << "{\"counters\":{";
  bool first = true;
  for (auto &k : c.counters) { f << (first ? "" : ",") << "\"" << jesc(k.first) << "\":" << k.second; first = false; }
  f << "},\"distinct\":[";
  first = true;
  for (auto h : c.distincts) { f << (first ? "" : ",") << "\"" << std::hex << h << std::dec << "\""; first = false; }
  f << "],\"samples\":[";
  first = true;
  for (auto &s : c.samples) { f << (first ? "" : ",") << "\"" << jesc(s) << "\""; first = false; }
  f << "],\"inconclusive\":[";
  first = true;
  for (auto &s : c.inconclusives) { f << (first ? "" : ",") << "\"" << jesc(s) << "\""; first = false; }
  f << "],\"violations\":[";
  first = true;
  for (auto &v : c.violations) {
    f << (first ? "" : ",") << "{\"suite\":\"" << v.suite << "\",\"case\":" << v.idx << ",\"key\":\"" << jesc(v.key)
      << "\",\"detail\":\"" << jesc(v.detail) << "\"}";
    first = false;
  }
  f << "]}\n";
  f.close();
  c.counters.clear(); c.distincts.clear(); c.inconclusives.clear(); c.violations.clear();
  if (!c.samples.empty()) c.samples = std::vector<std::string>(3, "").size() ? c.samples : c.samples;
}

inline void runCase(const Suite &s, Ctx &c, std::uint64_t seed, std::uint64_t idx) {
  c.suite = s.name;
  c.idx = idx;
  c.rng = Rng(mix(seed) ^ mix(hashStr(s.name)) ^ mix(idx * 7919 + 13));
  c.count("cases:" + s.name);
  try {
  double t0_ = now(); s.fn(c); if (getenv("VF_SLOW") && now() - t0_ > 5) c.count("slow:" + std::to_string(idx) + ":" + std::to_string((int)(now() - t0_)));
  } catch (const std::exception &e) {
    c.violation("uncaught:" + s.name, std::string("exception escaped into the harness: ") + e.what());
  } catch (...) {
    c.violation("uncaught:" + s.name, "unknown exception escaped into the harness");
  }
}

// Options: --out DIR --seed N --tier quick|thorough --workers N [--suite NAME --case N] [--scale F]
inline int main(int argc, char **argv, std::vector<Suite> suites) {
  std::string out = ".", tier = "quick", only;
  std::uint64_t seed = 1; long oneCase = -1; int workers = 8; double scale = 1;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string a = argv[i], b = argv[i + 1];
    if (a == "--out") out = b;
    else if (a == "--seed") seed = strtoull(b.c_str(), 0, 10);
    else if (a == "--tier") tier = b;
    else if (a == "--workers") workers = atoi(b.c_str());
    else if (a == "--suite") only = b;
    else if (a == "--case") oneCase = atol(b.c_str());
    else if (a == "--scale") scale = atof(b.c_str());
  }
  mkdirs(out);
  bool thorough = tier == "thorough";
  if (!only.empty()) {
    std::vector<Suite> t;
    std::stringstream ss(only); std::string n;
    while (std::getline(ss, n, ','))
      for (auto &s : suites) if (s.name == n) t.push_back(s);
    suites = t;
  }
  if (oneCase >= 0) {
    Ctx c; c.replay = true; c.thorough = thorough; c.dir = out + "/replay"; wipe(c.dir); mkdirs(c.dir);
    for (auto &s : suites) runCase(s, c, seed, (std::uint64_t) oneCase);
    size_t n = c.violations.size();
    for (auto &k : c.counters) std::cerr << k.first << " = " << k.second << "\n";
    for (auto &k : c.samples) std::cerr << "sample: " << k << "\n";
    for (auto &k : c.inconclusives) std::cerr << "inconclusive: " << k << "\n";
    return n ? 1 : 0;
  }
  // flatten: suite s case i, interleaved so that every worker gets a share of every suite
  std::vector<std::pair<int, std::uint64_t>> plan;
  for (size_t s = 0; s < suites.size(); ++s) {
    std::uint64_t n = thorough ? suites[s].thorough : suites[s].quick;
    if (scale != 1 && n > 1) n = std::max<std::uint64_t>(1, (std::uint64_t) (n * scale));
    for (std::uint64_t i = 0; i < n; ++i) plan.push_back({(int) s, i});
  }
  auto *sh = static_cast<Shared *>(mmap(0, sizeof(Shared) * (workers + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  std::vector<pid_t> pids(workers, 0);
  std::vector<std::uint64_t> nextIdx(workers);
  std::vector<bool> done(workers, false);
  std::ofstream crashes(out + "/crashes.jsonl", std::ios::trunc);
  int crashCount = 0, hangCount = 0;
  auto spawn = [&](int w, std::uint64_t from) {
    sh[w].idx = from; sh[w].start = now(); sh[w].state = 0;
    pid_t p = fork();
    if (p < 0) { perror("fork"); _exit(3); }
    if (p == 0) {
      setpgid(0, 0);
      std::string log = out + "/stderr." + std::to_string(w);
      int fd = open(log.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
      dup2(fd, 2); dup2(fd, 1);
      struct rlimit rl; rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
      Ctx c; c.thorough = thorough; c.dir = out + "/w" + std::to_string(w);
      wipe(c.dir); mkdirs(c.dir);
      std::string res = out + "/res." + std::to_string(w) + ".jsonl";
      std::uint64_t since = 0;
      for (std::uint64_t i = from; i < plan.size(); i += workers) {
        sh[w].start = now(); sh[w].idx = i;
        // keep what was recorded even if this case kills the worker
        if (++since >= 16 || !c.violations.empty()) { flush(c, res); since = 0; }
        runCase(suites[plan[i].first], c, seed, plan[i].second);
      }
      flush(c, res);
      sh[w].state = 1;
      wipe(c.dir); ::rmdir(c.dir.c_str());
      _exit(0);
    }
    pids[w] = p;
  };
  for (int w = 0; w < workers; ++w) { if ((size_t) w < plan.size()) spawn(w, w); else done[w] = true; }
  auto record = [&](int w, const char *kind, int status) {
    std::uint64_t i = sh[w].idx;
    std::string log = slurp(out + "/stderr." + std::to_string(w));
    crashes << "{\"kind\":\"" << kind << "\",\"status\":" << status << ",\"suite\":\"" << suites[plan[i].first].name
            << "\",\"case\":" << plan[i].second << ",\"log\":\"" << jesc(log.substr(0, 12000)) << "\"}" << std::endl;
  };
  bool stop = false;
  while (true) {
    bool any = false;
    for (int w = 0; w < workers; ++w) {
      if (done[w]) continue;
      any = true;
      int st = 0;
      pid_t r = waitpid(pids[w], &st, WNOHANG);
      if (r == pids[w]) {
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh[w].state == 1) { done[w] = true; continue; }
        record(w, "crash", st);
        if (++crashCount >= 12) stop = true;
        std::uint64_t nx = sh[w].idx + workers;
        if (stop || nx >= plan.size()) done[w] = true; else spawn(w, nx);
      } else if (now() - sh[w].start > suites[plan[sh[w].idx].first].hangLimit) {
        kill(-pids[w], SIGKILL);
        kill(pids[w], SIGKILL);
        waitpid(pids[w], &st, 0);
        record(w, "hang", 0);
        if (++hangCount >= 3) stop = true;
        std::uint64_t nx = sh[w].idx + workers;
        if (stop || nx >= plan.size()) done[w] = true; else spawn(w, nx);
      }
    }
    if (stop) {
      for (int w = 0; w < workers; ++w)
        if (!done[w]) { int st; kill(-pids[w], SIGKILL); kill(pids[w], SIGKILL); waitpid(pids[w], &st, 0); done[w] = true; }
      break;
    }
    if (!any) break;
    usleep(5000);
  }
  std::ofstream(out + "/done") << (stop ? "stopped" : "complete") << "\n";
  return 0;
}

}
#endif
