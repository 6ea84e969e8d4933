// Shared scaffolding of all harnesses: arguments, randomness, reporting, progress.
#pragma once
#include <a0/err.h>

#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) {}
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  uint64_t range(uint64_t lo, uint64_t hi) { return lo + below(hi - lo + 1); }
  bool chance(unsigned pct) { return below(100) < pct; }
  template <class T>
  const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

inline uint64_t mix(uint64_t a, uint64_t b) {
  Rng r(a * 0x9E3779B97F4A7C15ull ^ (b + 0x165667B19E3779F9ull));
  r.next();
  return r.next();
}
inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
  const uint8_t* b = (const uint8_t*)p;
  for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 1099511628211ull;
  return h;
}
inline uint64_t hash_str(const std::string& s) { return hash_bytes(s.data(), s.size()); }

inline std::string strf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
inline std::string strf(const char* fmt, ...) {
  char buf[4096];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof(buf), fmt, ap);
  va_end(ap);
  return buf;
}

struct CaseFail {};

struct Progress {
  volatile uint64_t case_id;
  volatile uint64_t ticks;
  volatile uint64_t done;
  char desc[1000];
};

struct Ctx {
  uint64_t seed = 1;
  bool thorough = false;
  uint64_t worker = 0, nworkers = 1, cases = 100;
  int64_t only = -1;
  uint64_t repeat = 1;
  std::string out, progress_path, scratch, mode;
  std::map<std::string, std::string> opt;
  FILE* outf = nullptr;
  Progress* prog = nullptr;

  uint64_t case_id = 0;
  Rng rng;
  uint64_t evals = 0;
  std::unordered_set<uint64_t> distinct_set;
  std::map<std::string, uint64_t> counters;
  int samples = 0;
  int nviol = 0;
  std::string trace;  // what the current case did, for reports and samples

  bool verbose = false;

  void eval(uint64_t n = 1) { evals += n; }
  void distinct(uint64_t h) {
    if (distinct_set.size() < 400000) distinct_set.insert(h);
  }
  void count(const std::string& k, uint64_t n = 1) { counters[k] += n; }
  void tick() { __atomic_fetch_add(&prog->ticks, 1, __ATOMIC_RELAXED); }
  uint64_t last_mark = 0;
  void tick_if_progress(uint64_t mark) {
    if (mark != last_mark) tick();
    last_mark = mark;
  }
  void desc(const std::string& s) {
    strncpy(prog->desc, s.c_str(), sizeof(prog->desc) - 1);
    tick();
  }
  void log(const std::string& s) {
    if (trace.size() < 20000) {
      trace += s;
      trace += ' ';
    }
    if (verbose) fprintf(stderr, "%s\n", s.c_str());
  }
  void sample(const std::string& s) {
    if (samples < 4) {
      samples++;
      fprintf(outf, "S %s\n", clean(s).substr(0, 1200).c_str());
      fflush(outf);
    }
  }
  static std::string clean(std::string s) {
    for (auto& c : s)
      if (c == '\n' || c == '\t' || (unsigned char)c < 32) c = ' ';
    return s;
  }
  // Records a violation; the driver decides whether it is a known finding.
  void violation(const std::string& key, const std::string& detail) {
    nviol++;
    fprintf(outf, "V %s\t%lu\t%s\t%s\n", key.c_str(), (unsigned long)case_id, clean(detail).c_str(), clean(trace).c_str());
    fflush(outf);
    fprintf(stderr, "violation %s case %lu: %s\n", key.c_str(), (unsigned long)case_id, detail.c_str());
  }
  // As above for what the harness itself recognises as a listed finding: the run goes on.
  // (The driver reports it like any other if it is not listed.)
  void known_violation(const std::string& key, const std::string& detail) {
    violation(key, detail);
    nviol--;
  }
  // Records a violation and abandons the case.
  [[noreturn]] void fail(const std::string& key, const std::string& detail) {
    violation(key, detail);
    throw CaseFail{};
  }
  [[noreturn]] void harness_error(const std::string& what) {
    fprintf(outf, "X harness error: %s (case %lu)\n", clean(what).c_str(), (unsigned long)case_id);
    fflush(outf);
    fprintf(stderr, "harness error: %s\n", what.c_str());
    _exit(3);
  }
};

#define CHECK_OR_FAIL(ctx, cond, key, ...) \
  do {                                     \
    if (!(cond)) (ctx).fail((key), strf(__VA_ARGS__)); \
  } while (0)

inline std::string errname(a0_err_t e) {
  if (e == A0_ERR_SYS) return strf("SYS(%s)", strerrorname_np(a0_err_syscode) ? strerrorname_np(a0_err_syscode) : "?");
  if (e == A0_ERR_CUSTOM_MSG) return "MSG";
  return strf("%d", (int)e);
}

inline uint64_t now_ns(clockid_t c = CLOCK_BOOTTIME) {
  timespec ts;
  clock_gettime(c, &ts);
  return ts.tv_sec * 1000000000ull + ts.tv_nsec;
}

inline Ctx*& g_ctx() {
  static Ctx* c = nullptr;
  return c;
}

inline int harness_main(int argc, char** argv, void (*run_case)(Ctx&), void (*begin)(Ctx&) = nullptr,
                        void (*end)(Ctx&) = nullptr) {
  static Ctx ctx;
  g_ctx() = &ctx;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--seed") ctx.seed = strtoull(val().c_str(), 0, 10);
    else if (a == "--tier") ctx.thorough = val() == "thorough";
    else if (a == "--worker") ctx.worker = strtoull(val().c_str(), 0, 10);
    else if (a == "--nworkers") ctx.nworkers = strtoull(val().c_str(), 0, 10);
    else if (a == "--cases") ctx.cases = strtoull(val().c_str(), 0, 10);
    else if (a == "--only") ctx.only = strtoll(val().c_str(), 0, 10);
    else if (a == "--repeat") ctx.repeat = strtoull(val().c_str(), 0, 10);
    else if (a == "--out") ctx.out = val();
    else if (a == "--progress") ctx.progress_path = val();
    else if (a == "--scratch") ctx.scratch = val();
    else if (a == "--mode") ctx.mode = val();
    else if (a == "--verbose") ctx.verbose = true;
    else if (a.compare(0, 2, "--") == 0) { std::string k = a.substr(2); ctx.opt[k] = val(); }
  }
  ctx.outf = ctx.out.empty() ? stdout : fopen(ctx.out.c_str(), "we");
  if (!ctx.outf) {
    perror("out");
    return 3;
  }
  if (ctx.scratch.empty()) {
    char tmpl[] = "/dev/shm/a0v-manual-XXXXXX";
    ctx.scratch = mkdtemp(tmpl);
  }
  setenv("A0_ROOT", (ctx.scratch + "/root").c_str(), 1);
  mkdir((ctx.scratch + "/root").c_str(), 0777);
  if (!ctx.progress_path.empty()) {
    int fd = open(ctx.progress_path.c_str(), O_RDWR | O_CREAT | O_CLOEXEC, 0666);
    if (fd < 0 || ftruncate(fd, sizeof(Progress))) return 3;
    ctx.prog = (Progress*)mmap(0, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
  } else {
    ctx.prog = (Progress*)mmap(0, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  }
  auto one = [&](uint64_t c) {
    ctx.case_id = c;
    ctx.prog->case_id = c;
    ctx.tick();
    ctx.rng = Rng(mix(mix(ctx.seed, c), hash_str(ctx.mode)));
    ctx.trace.clear();
    try {
      run_case(ctx);
    } catch (CaseFail&) {
    }
    ctx.prog->done = ctx.prog->done + 1;
  };
  ctx.prog->case_id = (uint64_t)-1;
  if (begin) begin(ctx);
  if (ctx.only >= 0) {
    for (uint64_t i = 0; i < ctx.repeat && !ctx.nviol; i++) one(ctx.only);
  } else {
    for (uint64_t c = ctx.worker; c < ctx.cases && ctx.nviol < 3; c += ctx.nworkers) one(c);
  }
  if (end) end(ctx);
  fprintf(ctx.outf, "E %lu\n", (unsigned long)ctx.evals);
  for (auto& kv : ctx.counters) fprintf(ctx.outf, "C %s %lu\n", kv.first.c_str(), (unsigned long)kv.second);
  for (auto h : ctx.distinct_set) fprintf(ctx.outf, "H %lx\n", (unsigned long)h);
  fprintf(ctx.outf, "DONE\n");
  fflush(ctx.outf);
  return 0;
}
