// C18: discovery. It runs in a traced child process; between any two of its system
// calls the parent may create, remove and recreate files and directories.
#include <a0/discovery.h>
#include <a0/discovery.hpp>

#include <sys/ptrace.h>
#include <sys/resource.h>
#include <sys/user.h>

#include "fsutil.hpp"
#include "globref.hpp"

namespace {

const int LOG = 40000;
struct Shared {
  volatile int n;
  volatile int init_err, init_done, want_close, closed, late;
  uint64_t hash[LOG];
  char path[LOG][1400];
} * sh;

std::string base, root, pattern;
int pipe_fd[2];

void on_path(const char* p) {
  int i = sh->n;
  if (sh->closed) sh->late++;
  if (i < LOG) {
    snprintf(sh->path[i], sizeof(sh->path[i]), "%s", p);
    sh->n = i + 1;
  }
}

void child(bool cpp, int starve) {
  sh->n = sh->init_done = sh->init_err = sh->want_close = sh->closed = sh->late = 0;
  ptrace(PTRACE_TRACEME, 0, 0, 0);
  a0_discovery_t d;
  a0::Discovery* cd = nullptr;
  rlimit lim;
  if (starve) {
    int n = open("/dev/null", O_RDONLY);
    getrlimit(RLIMIT_NOFILE, &lim);
    rlimit small = lim;
    close(n);
    small.rlim_cur = n + starve - 1;  // room for none to two more
    setrlimit(RLIMIT_NOFILE, &small);
  }
  raise(SIGSTOP);
  a0_err_t e = A0_OK;
  if (cpp) {
    try {
      cd = new a0::Discovery(pattern, [](const std::string& p) { on_path(p.c_str()); });
    } catch (std::exception&) {
      e = A0_ERR_CUSTOM_MSG;
    }
  } else {
    e = a0_discovery_init(&d, pattern.c_str(), {nullptr, [](void*, const char* p) { on_path(p); }});
  }
  sh->init_err = e;
  if (starve) setrlimit(RLIMIT_NOFILE, &lim);
  sh->init_done = 1;
  char c;
  while (read(pipe_fd[0], &c, 1) < 0) {}
  if (!e) {
    if (cpp) delete cd;
    else a0_discovery_close(&d);
  }
  sh->closed = 1;
  raise(SIGSTOP);
  _exit(0);
}

struct World {
  std::map<std::string, int> created;  // regular files: how often
  std::set<std::string> present;
  std::set<std::string> removed;       // or whose directory was
  std::set<std::string> other;         // neither file nor directory
  std::set<std::string> dirs, all_dirs;
  std::string trace;
  std::vector<std::string> names{"a", "b", "c", "x.a0", "y.a0", "ab", ".h"};
  bool in_dark(const std::string& p) const {
    for (auto& d : dark)
      if (p.compare(0, d.size() + 1, d + "/") == 0) return true;
    return false;
  }
  std::set<std::string> dark;  // unreadable directories

  void made(const std::string& p) {
    created[p]++;
    present.insert(p);
  }
  void gone(const std::string& p) {
    removed.insert(p);
    present.erase(p);
  }
  void say(const std::string& s) {
    if (trace.size() < 6000) trace += s + " ";
  }
  void forget_below(const std::string& d) {
    for (auto& f : created)
      if (f.first.compare(0, d.size() + 1, d + "/") == 0) gone(f.first);
  }
  void step(Ctx& ctx, Rng& r) {
    std::vector<std::string> ds(dirs.begin(), dirs.end());
    std::string d = r.pick(ds), p = d + "/" + r.pick(names);
    if (std::count(p.begin() + base.size(), p.end(), '/') > 12 || p.size() > base.size() + 1000) d = root, p = d + "/" + r.pick(names);
    unsigned k = r.below(100);
    const char* rp = p.c_str() + base.size();
    if (k < 40) {
      if (mkdir(p.c_str(), 0755) == 0) {
        dirs.insert(p), all_dirs.insert(p);
        say(strf("mkdir %s", rp));
      }
    } else if (k < 75) {
      int fd = open(p.c_str(), O_CREAT | O_EXCL | O_WRONLY | O_CLOEXEC, 0644);
      if (fd >= 0) {
        close(fd);
        made(p);
        say(strf("create %s", rp));
      }
    } else if (k < 80) {  // the way this library makes files
      std::string t = d + "/.tmp";
      int fd = open(t.c_str(), O_CREAT | O_EXCL | O_WRONLY | O_CLOEXEC, 0644);
      if (fd >= 0) {
        close(fd);
        made(t);
        gone(t);
        if (link(t.c_str(), p.c_str()) == 0) made(p), say(strf("link %s", rp));
        unlink(t.c_str());
      }
    } else if (k < 86) {
      if (unlink(p.c_str()) == 0) {
        gone(p);
        say(strf("unlink %s", rp));
      }
    } else if (k < 95) {
      std::string v = r.pick(ds);
      if (r.chance(50) && rmdir_all(v)) {
        if (r.chance(60) && mkdir(v.c_str(), 0755) == 0) dirs.insert(v), say(strf("mkdir %s", v.c_str() + base.size()));
      }
    } else if (k < 97) {
      p = d + std::vector<std::string>{"/ab", "/y.a0", "/.h"}[r.below(3)];  // never on the way to the pattern's fixed part
      rp = p.c_str() + base.size();
      if (symlink(r.chance(50) ? "a" : root.c_str(), p.c_str()) == 0) other.insert(p), say(strf("symlink %s", rp));
    } else if (k < 98) {
      if (mkdir(p.c_str(), 0) == 0) {
        all_dirs.insert(p);
        dark.insert(p);
        say(strf("mkdir-unreadable %s", rp));
      }
    } else {
      if (mkfifo(p.c_str(), 0644) == 0) other.insert(p), say(strf("fifo %s", rp));
    }
    (void)ctx;
  }
  bool rmdir_all(const std::string& v) {
    if (v == root) return false;
    say(strf("rm -r %s", v.c_str() + base.size()));
    size_t slash = v.rfind('/');
    int fd = open(v.substr(0, slash).c_str(), O_RDONLY | O_DIRECTORY | O_CLOEXEC);
    if (fd < 0) return false;
    forget_below(v);
    wipe(fd, v.c_str() + slash + 1);
    close(fd);
    for (auto it = dirs.begin(); it != dirs.end();) it = *it == v || it->compare(0, v.size() + 1, v + "/") == 0 ? dirs.erase(it) : ++it;
    for (auto it = dark.begin(); it != dark.end();) it = it->compare(0, v.size() + 1, v + "/") == 0 ? dark.erase(it) : ++it;
    return true;
  }
  void flood(Ctx& ctx, Rng& r) {
    std::vector<std::string> ds(dirs.begin(), dirs.end());
    std::string d = r.pick(ds);
    for (int i = 0; i < 17500; i++) {
      std::string p = d + strf("/f%d.a0", i);
      int fd = open(p.c_str(), O_CREAT | O_EXCL | O_WRONLY | O_CLOEXEC, 0644);
      if (fd < 0) ctx.harness_error("flood");
      close(fd);
      made(p);
      if (i == 17000 && mkdir((d + "/late").c_str(), 0755) == 0) dirs.insert(d + "/late"), all_dirs.insert(d + "/late");
    }
    std::string p = d + "/late/a";
    int fd = open(p.c_str(), O_CREAT | O_EXCL | O_WRONLY | O_CLOEXEC, 0644);
    if (fd >= 0) made(p), close(fd);
    say(strf("flood %s", d.c_str() + base.size()));
  }
};

// state letter of a thread
char state_of(pid_t pid, pid_t tid) {
  char buf[600];
  int fd = open(strf("/proc/%d/task/%d/stat", pid, tid).c_str(), O_RDONLY | O_CLOEXEC);
  if (fd < 0) return 'X';
  ssize_t n = read(fd, buf, sizeof(buf) - 1);
  close(fd);
  buf[n > 0 ? n : 0] = 0;
  char* p = strrchr(buf, ')');
  return p ? p[2] : 'X';
}

void run_case(Ctx& ctx) {
  Rng& r = ctx.rng;
  base = ctx.scratch + "/u/c";
  {
    int fd = open((ctx.scratch + "/u").c_str(), O_RDONLY | O_DIRECTORY | O_CLOEXEC);
    wipe(fd, "c");
    close(fd);
  }
  if (mkdir(base.c_str(), 0755)) ctx.harness_error("scratch directory");
  root = base + "/root";
  mkdir(root.c_str(), 0755);
  setenv("A0_ROOT", root.c_str(), 1);
  World w;
  w.dirs.insert(root);
  w.all_dirs.insert(root);
  // pattern
  static const char* segs[] = {"a", "b", "c", "*", "*.a0", "**", "a*", "x.a0", "**", "*"};
  std::string rel;
  int depth = r.chance(60) ? r.range(1, 2) : r.range(1, 4);
  for (int i = 0; i < depth; i++) rel += (i ? "/" : "") + std::string(segs[r.below(10)]);
  if (r.chance(20)) rel = "**/*";
  else if (r.chance(20)) rel = "**/" + rel;
  pattern = r.chance(50) ? rel : root + "/" + rel;
  auto parts = split(root + "/" + rel);
  auto matches = [&](const std::string& p) { return ref_match(parts, split(p)); };
  if (r.chance(8)) {
    w.names.push_back(std::string(r.range(180, 255), 'a'));
    if (r.chance(50)) w.names.push_back(std::string(r.range(180, 252), 'x') + ".a0");
    ctx.count("with_long_names");
  }
  // mutators often make what the pattern is about
  bool flood = r.below(1000) < 4;
  int starve = !flood && r.chance(3) ? r.range(1, 3) : 0;
  ctx.desc("discover " + rel);
  int before = r.range(0, 25);
  for (int i = 0; i < before; i++) w.step(ctx, r);
  w.say("| start " + rel + " |");
  bool cpp = !starve && r.chance(30);  // (sanitizer checks of C++ objects need a descriptor)
  if (pipe2(pipe_fd, O_CLOEXEC)) ctx.harness_error("pipe");
  fflush(ctx.outf);
  pid_t pid = fork();
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    child(cpp, starve);
  }
  struct Kill {
    pid_t pid;
    ~Kill() {
      kill(pid, SIGKILL);
      int st;
      pid_t t;
      while ((t = waitpid(-1, &st, __WALL)) > 0) {}
      close(pipe_fd[0]);
      close(pipe_fd[1]);
    }
  } k{pid};
  int st;
  if (waitpid(pid, &st, 0) != pid || !WIFSTOPPED(st)) ctx.harness_error("no stop");
  if (ptrace(PTRACE_SETOPTIONS, pid, 0, PTRACE_O_EXITKILL | PTRACE_O_TRACESYSGOOD | PTRACE_O_TRACECLONE)) ctx.harness_error("PTRACE_SETOPTIONS");
  ptrace(PTRACE_CONT, pid, 0, 0);

  int budget = flood ? r.range(0, 15) : r.range(0, 40);
  int rate = std::vector<int>{3, 10, 30, 80}[r.below(4)];
  bool early_close = r.chance(20);
  int close_at = r.range(0, 200);
  bool closing = false, main_done = false;
  struct Th {
    bool in_call = false, fresh = true, gone = false;
  };
  std::map<pid_t, Th> th;
  uint64_t h = hash_str(rel);
  long steps = 0, mutations = 0, within = 0;
  auto mutate = [&] {
    if (flood && r.chance(20)) {
      w.flood(ctx, r);
      flood = false;
      ctx.count("floods");
    } else {
      w.step(ctx, r);
    }
    budget--;
    mutations++;
  };
  auto ask_close = [&] {
    closing = true;
    w.say("| close |");
    if (write(pipe_fd[1], "x", 1) != 1) ctx.harness_error("pipe");
  };
  auto live = [&] {
    int n = 0;
    for (auto& t : th) n += !t.second.gone;
    return n;
  };
  auto died = [&](int st) { ctx.fail("died", strf("the process ended (%x): %s", st, w.trace.c_str())); };
  bool idle = false;
  std::vector<std::pair<pid_t, int>> held;
  int quiet = 0;
  while (!main_done) {
    if (++steps > 400000) ctx.fail("endless", strf("discovery goes on making system calls: %s", w.trace.c_str()));
    pid_t t;
    if (held.size() && sh->init_done) {
      t = held.back().first;
      st = held.back().second;
      held.pop_back();
    } else {
      t = waitpid(-1, &st, __WALL | WNOHANG);
    }
    if (t < 0) ctx.harness_error("waitpid");
    if (t == 0) {
      // nobody is stopped: is everyone asleep in a system call?
      bool asleep = sh->init_done;
      for (auto& x : th)
        if (!x.second.gone) asleep &= x.second.in_call && state_of(pid, x.first) == 'S';
      asleep &= state_of(pid, pid) == 'S';
      t = waitpid(-1, &st, __WALL | WNOHANG);
      if (t == 0) {
        steps--;
        if (!asleep) {
          quiet = 0;
          if (!sh->init_done || live() == 0) usleep(20);
          continue;
        }
        if (++quiet < 3) continue;
        quiet = 0;
        if (closing) ctx.fail("close-hangs", strf("close does not return: %s", w.trace.c_str()));
        if (budget > 0) {
          mutate();  // it wakes up
          continue;
        }
        if (flood) {
          w.flood(ctx, r);
          flood = false;
          ctx.count("floods");
          continue;
        }
        idle = true;
        ask_close();
        continue;
      }
    }
    quiet = 0;
    if (WIFEXITED(st) || WIFSIGNALED(st)) {
      if (t == pid) died(st);
      th[t].gone = true;
      continue;
    }
    int sig = WSTOPSIG(st);
    if (t == pid) {
      if (sig == SIGSTOP && sh->closed) {
        main_done = true;
        break;
      }
      if (st >> 8 == (SIGTRAP | (PTRACE_EVENT_CLONE << 8))) {
        unsigned long tid = 0;
        ptrace(PTRACE_GETEVENTMSG, t, 0, &tid);
        th[tid];
      }
      ptrace(PTRACE_CONT, t, 0, sig == SIGTRAP ? 0 : sig);
      if (sig != SIGTRAP && sig != SIGSTOP) { if (getenv("GDBME")) { ptrace(PTRACE_DETACH, t, 0, sig); usleep(300000); } ctx.fail("signal", strf("signal %d: %s", sig, w.trace.c_str())); };
      continue;
    }
    Th& x = th[t];
    if (starve && !sh->init_done) {  // not while descriptors are short
      held.push_back({t, st});
      continue;
    }
    if (x.fresh && sig == SIGSTOP) {
      x.fresh = false;
    } else if (sig == (SIGTRAP | 0x80)) {
      x.in_call = !x.in_call;
      if (x.in_call) {
        user_regs_struct g;
        ptrace(PTRACE_GETREGS, t, 0, &g);
        bool fs = g.orig_rax != SYS_futex && g.orig_rax != SYS_mmap && g.orig_rax != SYS_munmap && g.orig_rax != SYS_mprotect && g.orig_rax != SYS_madvise && g.orig_rax != SYS_brk;
        while (fs && budget > 0 && r.chance(rate)) {
          mutate();
          if (g.orig_rax != SYS_epoll_wait && g.orig_rax != SYS_epoll_pwait) within++;
          h = mix(h, mix(g.orig_rax, steps));
        }
        if (early_close && !closing && sh->init_done && steps > close_at) ask_close();
      }
    } else if (sig != SIGTRAP && sig != SIGSTOP) {
      { if (getenv("GDBME")) { ptrace(PTRACE_DETACH, t, 0, sig); usleep(300000); } ctx.fail("signal", strf("signal %d: %s", sig, w.trace.c_str())); };
    }
    ptrace(PTRACE_SYSCALL, t, 0, 0);
  }
  ctx.log(w.trace);
  auto judge = [&](bool complete) {
    std::map<std::string, int> seen;
    int n = sh->n;
    for (int i = 0; i < n; i++) seen[sh->path[i]]++;
    for (auto& s : seen) {
      const char* p = s.first.c_str() + std::min(base.size(), s.first.size());
      CHECK_OR_FAIL(ctx, w.created.count(s.first) || w.other.count(s.first) || w.all_dirs.count(s.first), "never-created", "announced %s, which never existed: %s", s.first.c_str(), w.trace.c_str());
      CHECK_OR_FAIL(ctx, matches(s.first), "no-match", "announced %s, which does not match %s: %s", p, rel.c_str(), w.trace.c_str());
      if (!w.created.count(s.first) && !w.other.count(s.first)) ctx.fail("directory", strf("announced the directory %s: %s", p, w.trace.c_str()));
      int times = w.created.count(s.first) ? w.created[s.first] : 1;
      if (w.removed.count(s.first) || w.other.count(s.first)) times += 1;
      CHECK_OR_FAIL(ctx, s.second <= times, "twice", "announced %s %d times: %s", p, s.second, w.trace.c_str());
    }
    if (!complete) return;
    int expected = 0;
    for (auto& c : w.created) {
      if (!matches(c.first) || w.in_dark(c.first) || !w.present.count(c.first)) continue;
      expected++;
      CHECK_OR_FAIL(ctx, seen.count(c.first), "missed", "%s exists and was not announced for %s: %s", c.first.c_str() + base.size(), rel.c_str(), w.trace.c_str());
    }
    ctx.count("announced", expected);
    if (expected) ctx.distinct(h);
  };
  if (starve && sh->init_err) {
    ctx.count("refused_without_descriptors");
    ctx.eval();
    return;
  }
  CHECK_OR_FAIL(ctx, !sh->init_err, "init", "discovery of %s failed to start", pattern.c_str());
  judge(idle);
  if (!idle) ctx.count("closed_early");
  int n = sh->n;
  for (int i = 0; i < 5; i++) w.step(ctx, r);
  // whatever threads there still are get a chance to do it
  bool others = true;
  for (int i = 0; i < 50 && others; i++) {
    others = false;
    DIR* d = opendir(strf("/proc/%d/task", pid).c_str());
    while (d && true) {
      dirent* e = readdir(d);
      if (!e) break;
      if (e->d_name[0] != '.' && atoi(e->d_name) != pid && state_of(pid, atoi(e->d_name)) != 'X' && state_of(pid, atoi(e->d_name)) != 'Z') others = true;
    }
    if (d) closedir(d);
    if (others) {
      pid_t t;
      while ((t = waitpid(-1, &st, __WALL | WNOHANG)) > 0)
        if (WIFSTOPPED(st)) ptrace(PTRACE_CONT, t, 0, 0);
      usleep(1000);
    }
  }
  CHECK_OR_FAIL(ctx, sh->n == n && !sh->late, "after-close", "%d announcements after close returned: %s", sh->n - n + sh->late, w.trace.c_str());
  ctx.eval();
  ctx.count("changes", mutations);
  ctx.count("changes_during_a_scan", within);
  ctx.sample(ctx.trace);
}
void begin(Ctx& ctx) {
  sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  become_nobody(ctx);
}
void end(Ctx& ctx) {
  int fd = open((ctx.scratch + "/u").c_str(), O_RDONLY | O_DIRECTORY | O_CLOEXEC);
  wipe(fd, "c");
  close(fd);
}
}  // namespace
int main(int argc, char** argv) { return harness_main(argc, argv, run_case, begin, end); }
