// C31: threads opening, using and closing objects of every kind on common topics, and
// sharing those that may be shared, under the race detector and the address checker.
// For the race detector a file is mapped once for the whole process, so that it sees
// every access to a topic's memory through whatever handle at one address.
#include <sys/mman.h>

#include "fsutil.hpp"
#include "objects.hpp"

#if defined(__SANITIZE_THREAD__)
constexpr bool kMerge = true;
#else
constexpr bool kMerge = false;
#endif

extern "C" void* __real_mmap(void*, size_t, int, int, int, off_t);
extern "C" int __real_munmap(void*, size_t);

namespace {
struct Mapping {
  dev_t dev;
  ino_t ino;
  size_t len;
  int prot, flags;
  void* at;
  int refs;
};
std::mutex g_map_mu;
std::vector<Mapping> g_maps;
std::atomic<uint64_t> g_merged{0};

__attribute__((no_sanitize("thread"))) void* merged_map(void* a, size_t n, int prot, int flags, int fd, off_t off) {
  struct stat st;
  if (!kMerge || a || fd < 0 || off || !(flags & MAP_SHARED) || fstat(fd, &st) || !S_ISREG(st.st_mode)) return __real_mmap(a, n, prot, flags, fd, off);
  std::lock_guard<std::mutex> g(g_map_mu);
  for (auto& m : g_maps)
    if (m.dev == st.st_dev && m.ino == st.st_ino && m.len == n && m.prot == prot && m.flags == flags) {
      m.refs++;
      g_merged++;
      return m.at;
    }
  void* p = __real_mmap(a, n, prot, flags, fd, off);
  if (p != MAP_FAILED) g_maps.push_back({st.st_dev, st.st_ino, n, prot, flags, p, 1});
  return p;
}
}  // namespace
extern "C" void* __wrap_mmap(void* a, size_t n, int prot, int flags, int fd, off_t off) { return merged_map(a, n, prot, flags, fd, off); }
extern "C" void* __wrap_mmap64(void* a, size_t n, int prot, int flags, int fd, off_t off) { return merged_map(a, n, prot, flags, fd, off); }
extern "C" int __wrap_munmap(void* a, size_t n) {
  if (kMerge) {
    std::lock_guard<std::mutex> g(g_map_mu);
    for (size_t i = 0; i < g_maps.size(); i++)
      if (g_maps[i].at == a && g_maps[i].len == n) {
        if (--g_maps[i].refs) return 0;
        g_maps.erase(g_maps.begin() + i);
        break;
      }
  }
  return __real_munmap(a, n);
}

namespace {

struct Step {
  int op;  // 0 open, 1 use, 2 close, 3 use a shared one
  int maker;
  uint64_t seed;
};

void run_case(Ctx& ctx) {
  Rng& r = ctx.rng;
  Env env;
  env.prefix = strf("c%lu_", (unsigned long)ctx.case_id % 5);
  env.ntopics = r.chance(70) ? 1 : 2;
  int n = r.range(2, 4);
  int focus = r.chance(60) ? (int)r.below(kNMakers) : -1, focus2 = r.below(kNMakers);
  auto kind = [&] { return focus >= 0 && r.chance(75) ? (r.chance(50) ? focus : focus2) : (int)r.below(kNMakers); };
  uint64_t sig = n;
  std::vector<ObjP> common;
  std::string bad;
  std::mutex mu;
  ctx.desc("race");
  try {
    for (size_t i = r.below(4); i > 0; i--) {
      ObjP o = kMakers[kind()](env, r);
      if (o->shareable) {
        ctx.log("all:" + o->kind);
        ctx.count("shared " + o->kind);
        common.push_back(std::move(o));
      } else {
        o->close();
      }
    }
  } catch (const Problem& p) {
    ctx.fail("call-failed", p.what);
  }
  std::vector<std::vector<Step>> scripts(n);
  for (auto& sc : scripts) {
    size_t len = r.range(5, ctx.thorough ? 30 : 16);
    for (size_t i = 0; i < len; i++) {
      int k = r.below(100);
      Step s{i < 1 || k < 20 ? 0 : k < 55 ? 1 : k < 70 ? 2 : 3, kind(), r.next()};
      sc.push_back(s);
      sig = mix(sig, s.op * 64 + (s.op == 0 ? s.maker : 0));
    }
  }
  std::atomic<int> ready{0}, opened{0};
  std::map<std::string, int> kinds;
  std::vector<std::thread> ts;
  for (int i = 0; i < n; i++)
    ts.emplace_back([&, i] {
      std::vector<ObjP> live;
      std::string log = strf("%d:", i);
      std::map<std::string, int> mine;
      ready++;
      while (ready < n) sched_yield();
      try {
        for (auto& s : scripts[i]) {
          Rng q(s.seed);
          ctx.tick();
          if (s.op == 0) {
            live.push_back(kMakers[s.maker](env, q));
            log += "+" + live.back()->kind + ",";
            mine[live.back()->kind]++;
          } else if (s.op == 3 && !common.empty()) {
            Obj& o = *common[q.below(common.size())];
            for (size_t k = q.range(1, 5); k > 0; k--) o.use(q);
          } else if (s.op == 2 && !live.empty()) {
            size_t k = q.below(live.size());
            live[k]->close();
            live.erase(live.begin() + k);
          } else if (!live.empty()) {
            Obj& o = *live[q.below(live.size())];
            for (size_t k = q.range(1, 5); k > 0; k--) o.use(q);
          }
        }
        while (!live.empty()) {
          live.back()->close();
          live.pop_back();
        }
      } catch (const Problem& p) {
        std::lock_guard<std::mutex> g(mu);
        bad = p.what;
      } catch (const std::exception& e) {
        std::lock_guard<std::mutex> g(mu);
        bad = e.what();
      }
      std::lock_guard<std::mutex> g(mu);
      ctx.log(log);
      for (auto& k : mine) kinds[k.first] += k.second;
    });
  for (auto& t : ts) t.join();
  for (auto& o : common) o->close();
  for (auto& k : kinds) ctx.count(k.first, k.second);
  CHECK_OR_FAIL(ctx, bad.empty(), "call-failed", "%s", bad.c_str());
  if (ctx.case_id % 32 == 0) {
    int d = open(ctx.scratch.c_str(), O_RDONLY | O_DIRECTORY | O_CLOEXEC);
    wipe(d, "root");
    mkdirat(d, "root", 0777);
    close(d);
  }
  ctx.eval();
  ctx.distinct(sig);
  ctx.count("programs");
  ctx.count("threads", n);
  ctx.sample(ctx.trace);
}

void begin(Ctx&) {}
void end(Ctx& ctx) {
  ctx.count("calls", g_calls);
  ctx.count("callbacks", g_callbacks);
  ctx.count("mappings shared", g_merged);
}
}  // namespace

int main(int argc, char** argv) { return harness_main(argc, argv, run_case, begin, end); }
