// C32: scripts opening, using and closing objects of every kind in any nesting, run
// repeatedly; afterwards the process may hold nothing it did not hold before.
#include <execinfo.h>

#include <unordered_map>

#include "fsutil.hpp"
#include "nothread.hpp"
#include "objects.hpp"

// The sanitizer's interface; its headers need not be installed.
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
extern "C" void __sanitizer_symbolize_pc(void*, const char*, char*, size_t);

namespace {

// ---- live heap blocks -----------------------------------------------------------

std::atomic<int64_t> g_live{0};
std::atomic<bool> g_tracing{false};
thread_local bool t_inside = false;
struct Site {
  void* pc[12];
  int n;
  size_t size;
};
std::mutex g_site_mu;
std::unordered_map<const void*, Site>* g_sites;

void on_malloc(const volatile void* p, size_t n) {
  if (!p) return;
  g_live.fetch_add(1, std::memory_order_relaxed);
  if (!g_tracing.load(std::memory_order_relaxed) || t_inside) return;
  t_inside = true;
  Site s;
  s.n = backtrace(s.pc, 12);
  s.size = n;
  {
    std::lock_guard<std::mutex> g(g_site_mu);
    (*g_sites)[(const void*)p] = s;
  }
  t_inside = false;
}
void on_free(const volatile void* p) {
  if (!p) return;
  g_live.fetch_sub(1, std::memory_order_relaxed);
  if (!g_tracing.load(std::memory_order_relaxed) || t_inside) return;
  t_inside = true;
  {
    std::lock_guard<std::mutex> g(g_site_mu);
    g_sites->erase((const void*)p);
  }
  t_inside = false;
}

std::vector<std::string> fds() {
  std::vector<std::string> v;
  DIR* d = opendir("/proc/self/fd");
  int me = dirfd(d);
  while (dirent* e = readdir(d)) {
    if (e->d_name[0] == '.' || atoi(e->d_name) == me) continue;
    char buf[600];
    ssize_t n = readlink((std::string("/proc/self/fd/") + e->d_name).c_str(), buf, sizeof(buf));
    v.push_back(std::string(e->d_name) + "=" + std::string(buf, n > 0 ? n : 0));
  }
  closedir(d);
  std::sort(v.begin(), v.end());
  return v;
}
size_t threads() {
  size_t n = 0;
  DIR* d = opendir("/proc/self/task");
  while (dirent* e = readdir(d)) n += e->d_name[0] != '.';
  closedir(d);
  return n;
}
// Mappings of files below the given directory, and the number of all mappings.
std::vector<std::string> maps(const std::string& below, size_t* all) {
  std::vector<std::string> v;
  FILE* f = fopen("/proc/self/maps", "re");
  char line[1200];
  *all = 0;
  while (fgets(line, sizeof(line), f)) {
    ++*all;
    char* p = strchr(line, '/');
    if (p && !strncmp(p, below.c_str(), below.size())) v.push_back(Ctx::clean(p));
  }
  fclose(f);
  return v;
}

struct Step {
  int op;  // 0 open, 1 use, 2 close, 3 pause, 4 several threads create one topic, 5 fail to open,
           // 6 fail to start a thread
  int maker;
  uint64_t seed;
};

struct Census {
  std::vector<std::string> fd, map;
  size_t threads, all_maps;
  int64_t live;
};
std::string g_root;

const char* kSuffix[] = {".raw.a0", ".pubsub.a0", ".rpc.a0", ".prpc.a0", ".log.a0", ".cfg.a0", ".deadman"};

// Things at the topics' paths that make opening them fail.
void lay_traps() {
  for (const char* suffix : kSuffix) {
    close(open((g_root + "/short_t0" + suffix).c_str(), O_RDWR | O_CREAT | O_CLOEXEC, 0666));
    (void)!truncate((g_root + "/short_t0" + suffix).c_str(), 40);
    close(open((g_root + "/void_t0" + suffix).c_str(), O_RDWR | O_CREAT | O_CLOEXEC, 0666));
    mkdir((g_root + "/dir_t0" + suffix).c_str(), 0777);
  }
  close(open((g_root + "/void.a0").c_str(), O_RDWR | O_CREAT | O_CLOEXEC, 0666));
}

void fail_to_open(Ctx& ctx, const Step& s) {
  Rng r(s.seed);
  Env env;
  const char* traps[] = {"short_", "void_", "dir_", "void.a0/x/"};
  env.prefix = traps[r.below(4)];
  env.ntopics = 1;
  for (int i = 0; i < 3; i++) {
    try {
      ObjP o = kMakers[s.maker](env, r);
      o->close();
      ctx.count("opened all the same");
    } catch (const Problem&) {
      ctx.count("refused");
    } catch (const std::exception&) {
      ctx.count("refused");
    }
  }
}

void fail_to_start(Ctx& ctx, const Env& env, const Step& s) {
  for (int i = 0; i < 3; i++) {
    Rng r(mix(s.seed, i));
    g_refused_threads = 0;
    g_refuse_threads = 1 + r.below(2);
    ObjP o;
    try {
      o = kMakers[s.maker](env, r);
    } catch (const Problem&) {
    } catch (const std::exception&) {
    }
    g_refuse_threads = 0;
    if (g_refused_threads) ctx.count("threads refused");
    if (o) {
      // Not to hang in what waits for a thread that is not there.
      CHECK_OR_FAIL(ctx, !g_refused_threads, "call-failed", "%s was created although its thread could not be started", o->kind.c_str());
      o->close();
    }
  }
}

void race_to_create(Ctx& ctx, const Env& env, const Step& s) {
  Rng r(s.seed);
  Env e2 = env;
  e2.prefix = "new_" + env.prefix;
  e2.ntopics = 1;
  for (const char* suffix : kSuffix) unlink((g_root + "/" + e2.prefix + "t0" + suffix).c_str());
  std::atomic<int> ready{0};
  std::vector<std::thread> ts;
  std::mutex mu;
  std::string bad;
  const int n = 3;
  for (int i = 0; i < n; i++)
    ts.emplace_back([&, i] {
      Rng q(mix(s.seed, i));
      ready++;
      while (ready < n) sched_yield();
      try {
        ObjP o = kMakers[s.maker](e2, q);
        o->use(q);
        o->close();
      } catch (const Problem& p) {
        std::lock_guard<std::mutex> g(mu);
        bad = p.what;
      } catch (const std::exception& x) {
        std::lock_guard<std::mutex> g(mu);
        bad = x.what();
      }
    });
  for (auto& t : ts) t.join();
  if (!bad.empty()) throw Problem{bad};
  ctx.count("created at once");
}

void run_script(Ctx& ctx, const Env& env, const std::vector<Step>& script, bool log) {
  std::vector<ObjP> live;
  for (auto& s : script) {
    Rng r(s.seed);
    ctx.tick();
    try {
      if (s.op == 0) {
        live.push_back(kMakers[s.maker](env, r));
        if (log) ctx.log("+" + live.back()->kind), ctx.count(live.back()->kind);
      } else if (s.op == 1 && !live.empty()) {
        live[r.below(live.size())]->use(r);
      } else if (s.op == 2 && !live.empty()) {
        size_t i = r.below(live.size());
        if (log) ctx.log("-" + live[i]->kind);
        live[i]->close();
        live.erase(live.begin() + i);
      } else if (s.op == 3) {
        usleep(r.below(400));
      } else if (s.op == 4) {
        race_to_create(ctx, env, s);
      } else if (s.op == 5) {
        fail_to_open(ctx, s);
      } else if (s.op == 6) {
        fail_to_start(ctx, env, s);
      }
    } catch (const Problem& p) {
      ctx.fail("call-failed", p.what);
    } catch (const std::exception& e) {
      ctx.fail("call-failed", e.what());
    }
  }
  Rng r(script.back().seed);
  while (!live.empty()) {
    size_t i = r.below(live.size());
    try {
      live[i]->close();
    } catch (const Problem& p) {
      ctx.fail("call-failed", p.what);
    }
    live.erase(live.begin() + i);
  }
}

Census census(size_t want_threads) {
  Census c;
  // A thread that was joined can still be on its way out in the kernel.
  for (int i = 0; i < 3000 && (c.threads = threads()) > want_threads; i++) usleep(10000);
  c.threads = threads();
  c.fd = fds();
  c.map = maps(g_root, &c.all_maps);
  return c;
}

std::string extra(const std::vector<std::string>& was, const std::vector<std::string>& is) {
  std::string s;
  for (auto& x : is)
    if (!std::count(was.begin(), was.end(), x)) s += " " + x;
  return s;
}

std::string site_name(const Site& s, std::string* full) {
  std::string name;
  for (int i = 0; i < s.n; i++) {
    char buf[400];
    __sanitizer_symbolize_pc((char*)s.pc[i] - 1, "%f", buf, sizeof(buf));
    *full += std::string(buf).substr(0, 60) + " < ";
    if (name.empty() && !strncmp(buf, "a0_", 3)) name = std::string(buf).substr(0, 60);
  }
  return name;
}

void run_case(Ctx& ctx) {
  Rng& r = ctx.rng;
  Env env;
  env.prefix = strf("c%lu_", (unsigned long)ctx.case_id % 7);
  env.ntopics = r.range(1, 3);
  std::vector<Step> script;
  int only = r.chance(40) ? (int)r.below(kNMakers) : -1;  // many of one kind, or a mixture
  size_t n = r.range(6, ctx.thorough ? 60 : 36);
  for (size_t i = 0; i < n; i++) {
    int k = r.below(100);
    Step s;
    s.op = i < 2 || k < 25 ? 0 : k < 70 ? 1 : k < 86 ? 2 : k < 93 ? 3 : k < 96 ? 4 : k < 98 ? 5 : 6;
    s.maker = only >= 0 && r.chance(70) ? only : (int)r.below(kNMakers);
    s.seed = r.next();
    script.push_back(s);
  }
  ctx.desc(strf("leak | %zu steps", n));
  uint64_t sig = 0;
  for (auto& s : script) sig = mix(sig, s.op * 32 + (s.op == 0 || s.op > 3 ? s.maker : 0));

  size_t t0 = threads();
  run_script(ctx, env, script, true);  // what is set up once is set up here
  Census before = census(t0);
  CHECK_OR_FAIL(ctx, before.threads <= t0, "threads-kept", "%zu threads after everything was closed, %zu before", before.threads, t0);
  CHECK_OR_FAIL(ctx, before.map.empty(), "mappings-kept", "still mapped:%s", extra({}, before.map).c_str());
  std::string open_files;
  for (auto& f : before.fd)
    if (f.find(g_root) != std::string::npos || f.find("inotify") != std::string::npos || f.find("eventpoll") != std::string::npos || f.find("eventfd") != std::string::npos) open_files += " " + f;
  CHECK_OR_FAIL(ctx, open_files.empty(), "descriptors-kept", "still open:%s", open_files.c_str());

  size_t last_maps = before.all_maps;
  int64_t last = g_live;
  bool grew_blocks = true, grew_maps = true;
  const int kRounds = 14;
  for (int round = 0; round < kRounds && (round < 2 || grew_blocks || grew_maps); round++) {
    run_script(ctx, env, script, false);
    size_t all = 0;
    Census now = census(t0);
    all = now.all_maps;
    CHECK_OR_FAIL(ctx, now.threads <= t0, "threads-kept", "%zu threads after everything was closed, %zu before", now.threads, t0);
    CHECK_OR_FAIL(ctx, now.fd == before.fd, "descriptors-kept", "open after everything was closed:%s", extra(before.fd, now.fd).c_str());
    CHECK_OR_FAIL(ctx, now.map.empty(), "mappings-kept", "still mapped:%s", extra({}, now.map).c_str());
    now = Census();
    int64_t live = g_live;
    if (live <= last) grew_blocks = false;
    if (all <= last_maps) grew_maps = false;
    last = live;
    last_maps = all;
    ctx.eval();
  }
  if (grew_blocks) {
    // Once more, remembering where every block came from.
    g_sites->clear();
    g_tracing = true;
    run_script(ctx, env, script, false);
    census(t0);
    g_tracing = false;
    t_inside = true;
    std::map<std::string, std::pair<int, std::string>> by;
    for (auto& s : *g_sites) {
      std::string full, name = site_name(s.second, &full);
      if (!name.empty()) by[name].first++, by[name].second = full;
    }
    std::string what, key;
    for (auto& b : by) {
      what += strf(" %d from %s;", b.second.first, b.second.second.c_str());
      if (key.empty()) key = b.first;
    }
    g_sites->clear();
    t_inside = false;
    ctx.fail("blocks-kept" + (key.empty() ? "" : ":" + key), strf("every run of the script leaves more heap blocks than before:%s", what.c_str()));
  }
  CHECK_OR_FAIL(ctx, !grew_maps, "mappings-kept", "every run of the script leaves more mappings than before (%zu, then %zu)", before.all_maps, last_maps);
  // Only topics may be left.
  Tree t = scan(g_root);
  for (auto& x : t) {
    std::string base = x.first.substr(x.first.rfind('/') + 1);
    if (x.second.type == 'd') continue;
    auto ends = [&](const std::string& e) { return base.size() > e.size() && base.substr(base.size() - e.size()) == e; };
    bool topic = base[0] != '.' && (ends(".a0") || ends(".deadman"));
    CHECK_OR_FAIL(ctx, topic, "files-left", "%s was left behind", x.first.c_str());
  }
  if (ctx.case_id % 64 == 0) {
    int d = open(ctx.scratch.c_str(), O_RDONLY | O_DIRECTORY | O_CLOEXEC);
    wipe(d, "root");
    mkdirat(d, "root", 0777);
    lay_traps();
    close(d);
  }
  ctx.distinct(sig);
  ctx.count("scripts");
  ctx.sample(ctx.trace);
}

void begin(Ctx& ctx) {
  g_sites = new std::unordered_map<const void*, Site>;
  char* p = realpath((ctx.scratch + "/root").c_str(), nullptr);
  g_root = p;
  free(p);
  lay_traps();
  void* pc[4];
  backtrace(pc, 4);  // loads what it needs
  if (!__sanitizer_install_malloc_and_free_hooks(on_malloc, on_free)) ctx.harness_error("no allocation hooks");
}
void end(Ctx& ctx) {
  ctx.count("calls", g_calls);
  ctx.count("callbacks", g_callbacks);
}
}  // namespace

int main(int argc, char** argv) { return harness_main(argc, argv, run_case, begin, end); }
