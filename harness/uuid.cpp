// C30: generated ids across threads and forks.
#include <a0/packet.h>
#include <a0/packet.hpp>
#include <a0/uuid.h>

#include <sys/resource.h>

#include <atomic>
#include <thread>

#include "common.hpp"

namespace {

constexpr int kMax = 6000;
struct Log {
  std::atomic<uint32_t> n, bad;
  char id[kMax][37];
};
Log* lg;

bool well_formed(const char* s) {
  for (int i = 0; i < 36; i++) {
    if (i == 8 || i == 13 || i == 18 || i == 23) {
      if (s[i] != '-') return false;
    } else if (!((s[i] >= '0' && s[i] <= '9') || (s[i] >= 'A' && s[i] <= 'F') || (s[i] >= 'a' && s[i] <= 'f'))) {
      return false;
    }
  }
  return s[14] == '4' && strchr("89ABab", s[19]) && !s[36];
}

void take(Rng& g, int n) {
  for (int i = 0; i < n; i++) {
    uint32_t at = lg->n++;
    if (at >= kMax) return;
    char* p = lg->id[at];
    switch (g.below(6)) {
      case 0: {
        a0_packet_t pkt;
        a0_packet_init(&pkt);
        memcpy(p, pkt.id, 37);
        break;
      }
      case 1: {
        a0::Packet pkt;
        auto id = pkt.id();
        memcpy(p, id.data(), 36);
        p[36] = id.size() == 36 ? 0 : 1;
        break;
      }
      default: {
        a0_uuid_t u;
        memset(u, '#', sizeof(u));
        a0_uuidv4(u);
        memcpy(p, u, 37);
      }
    }
    if (!well_formed(p)) lg->bad++;
  }
}

// Generates, forks and starts threads as the plan says.
void life(uint64_t seed, int depth, std::string* what) {
  Rng g(seed);
  int steps = g.range(1, 4);
  std::vector<pid_t> kids;
  for (int i = 0; i < steps; i++) {
    unsigned d = g.below(10);
    if (d < 4) {
      take(g, g.range(1, 20));
      if (what) *what += "g";
    } else if (d < 8 && depth < 3) {
      uint64_t s = g.next();
      if (what) *what += "f";
      pid_t p = fork();
      if (!p) {
        life(s, depth + 1, nullptr);
        _exit(0);
      }
      kids.push_back(p);
    } else {
      uint64_t s = g.next();
      if (what) *what += "t";
      // a thread that may itself fork
      std::thread th([=] {
        Rng h(s);
        take(h, h.range(1, 10));
        if (h.chance(40) && depth < 3) {
          pid_t p = fork();
          if (!p) {
            take(h, h.range(1, 10));
            _exit(0);
          }
          take(h, h.range(1, 10));
          waitpid(p, 0, 0);
        }
      });
      th.join();
    }
  }
  take(g, g.range(1, 10));
  for (auto p : kids) waitpid(p, 0, 0);
}

void run_case(Ctx& ctx) {
  ctx.desc("ids");
  Rng& r = ctx.rng;
  lg->n = 0;
  lg->bad = 0;
  memset(lg->id, 0, sizeof(lg->id[0]) * 64);
  std::string what;
  if (r.chance(15)) {  // several threads at once
    int n = r.range(2, 6);
    what = strf("%d threads", n);
    std::vector<std::thread> th;
    for (int i = 0; i < n; i++) {
      uint64_t s = r.next();
      th.emplace_back([s] { Rng g(s); take(g, 200); });
    }
    for (auto& t : th) t.join();
    ctx.count("concurrent_threads", n);
  } else if (r.chance(15)) {  // threads start when no descriptor can be opened
    pid_t p = fork();
    if (!p) {
      rlimit lim = {0, 0};
      setrlimit(RLIMIT_NOFILE, &lim);
      for (int i = 0; i < 4; i++) std::thread([i] { Rng g(i); take(g, 5); }).join();
      _exit(0);
    }
    waitpid(p, 0, 0);
    what = "no descriptors";
    ctx.count("without_descriptors");
  } else {
    // A fresh process, so that forks come before and after the first id.
    uint64_t s = r.next();
    if (r.chance(70)) {
      pid_t p = fork();
      if (!p) {
        life(s, 0, nullptr);
        _exit(0);
      }
      waitpid(p, 0, 0);
      what = strf("family %lx", (unsigned long)s);
    } else {
      life(s, 0, &what);
    }
    ctx.count("families");
  }
  uint32_t n = lg->n;
  CHECK_OR_FAIL(ctx, n && n <= kMax, "harness", "%u ids", n);
  CHECK_OR_FAIL(ctx, !lg->bad, "malformed", "%u of %u ids are not version-4 UUIDs, first %.36s", (unsigned)lg->bad, n, lg->id[0]);
  std::set<std::string> seen;
  for (uint32_t i = 0; i < n; i++) CHECK_OR_FAIL(ctx, seen.insert(lg->id[i]).second, "repeated", "%s was generated twice among %u ids (%s)", lg->id[i], n, what.c_str());
  // All digits that may vary do vary.
  ctx.eval(n);
  ctx.count("ids", n);
  ctx.distinct(hash_str(lg->id[0]));
  ctx.sample(strf("%s: %u ids, first %s", what.c_str(), n, lg->id[0]));
}
void begin(Ctx&) { lg = (Log*)mmap(0, sizeof(Log), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
}  // namespace
int main(int argc, char** argv) { return harness_main(argc, argv, run_case, begin); }
