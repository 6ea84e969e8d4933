// C16: opening files that others open at the same time (mode race), and opens
// whose system calls fail (mode fault). Opens run in traced child processes;
// the parent decides system call by system call who goes next and what fails.
#include <a0/file.h>
#include <a0/file.hpp>

#include <sys/ptrace.h>
#include <sys/user.h>

#include "fsutil.hpp"

namespace {

struct Job {
  bool cpp = false;
  a0_file_options_t opts;
};

struct Result {
  volatile int opened;  // the call returned
  volatile int err, sys;
  volatile uint64_t ino;
  volatile uint64_t size, arena, stat_mode;
  volatile int zero, path_ok;
  volatile int fds0, maps0, fds1, maps1, fds2, maps2;
  volatile int close_err, close2_err, other_ok;
  volatile int done;
};
struct Shared {
  Result r[8];
  volatile int go_write;
} * sh;

std::string base, target;

int count_fds() {
  int n = 0;
  DIR* d = opendir("/proc/self/fd");
  while (readdir(d)) n++;
  closedir(d);
  return n;
}
int count_maps() {
  int n = 0;
  FILE* f = fopen("/proc/self/maps", "re");
  char line[5000];
  while (fgets(line, sizeof(line), f))
    if (strstr(line, "/u/c/")) n++;
  fclose(f);
  return n;
}

constexpr size_t kEdge = 20000;
bool all_zero(const uint8_t* p, size_t n) {
  for (size_t i = 0; i < n; i++) {
    if (n > 2 * kEdge && i == kEdge) i = n - kEdge;  // very large files are looked at on both ends
    if (p[i]) return false;
  }
  return true;
}

void child(int i, const Job& job, bool linger) {
  Result& r = sh->r[i];
  r.fds0 = count_fds();
  r.maps0 = count_maps();
  ptrace(PTRACE_TRACEME, 0, 0, 0);
  a0_file_t f;
  memset(&f, 0, sizeof(f));
  a0_file_t g;
  memset(&g, 0, sizeof(g));
  a0::File* cf = nullptr;
  raise(SIGSTOP);
  a0_err_t e = A0_OK;
  if (job.cpp) {
    try {
      a0::File::Options o;
      memcpy(&o, &job.opts, sizeof(o));
      cf = new a0::File(target, o);
      f = *cf->c;
    } catch (std::exception&) {
      e = A0_ERR_CUSTOM_MSG;
    }
  } else {
    e = a0_file_open(target.c_str(), &job.opts, &f);
  }
  r.sys = a0_err_syscode;
  r.err = e;
  r.opened = 1;
  raise(SIGSTOP);
  r.fds1 = count_fds();
  r.maps1 = count_maps();
  if (!e) {
    struct stat st;
    fstat(f.fd, &st);
    r.ino = st.st_ino;
    r.size = st.st_size;
    r.arena = f.arena.buf.size;
    r.stat_mode = f.stat.st_mode & 07777;
    r.zero = all_zero(f.arena.buf.data, f.arena.buf.size);
    r.path_ok = f.path && target == f.path;
  }
  if (linger) {
    raise(SIGSTOP);
    if (!e) f.arena.buf.data[i]++;
    raise(SIGSTOP);
    _exit(0);
  }
  bool was_open = !e;
  if (job.cpp) {
    delete cf;
    r.close_err = 0;
    r.close2_err = 1;
  } else {
    r.close_err = was_open ? a0_file_close(&f) : 0;
  }
  r.fds2 = count_fds();
  r.maps2 = count_maps();
  // another file, likely with the same descriptor number and address
  a0_file_options_t o = A0_FILE_OPTIONS_DEFAULT;
  o.create_options.size = job.opts.create_options.size > 0 ? job.opts.create_options.size : 64;
  if (!job.cpp && !a0_file_open((base + "/other").c_str(), &o, &g)) {
    r.close2_err = a0_file_close(&f);
    r.other_ok = fcntl(g.fd, F_GETFD) >= 0 && count_maps() == r.maps0 + 1;
    if (r.other_ok) {
      g.arena.buf.data[0] = 1;
      r.other_ok = a0_file_close(&g) == A0_OK && a0_file_close(&g) != A0_OK;
    }
  } else {
    r.other_ok = 1;
  }
  r.done = 1;
  _exit(0);
}

// System calls that are the harness's, the allocator's, or that undo things.
bool exempt(const user_regs_struct& g) {
  switch (g.orig_rax) {
    case SYS_mmap: return (int)g.r8 < 0;
    case SYS_rt_sigprocmask: case SYS_rt_sigaction: case SYS_rt_sigreturn: case SYS_sigaltstack: case SYS_tgkill: case SYS_tkill: case SYS_kill:
    case SYS_pipe: case SYS_pipe2: case SYS_write:  // sanitizer probes
    case SYS_getpid: case SYS_gettid: case SYS_brk: case SYS_mprotect: case SYS_madvise: case SYS_mremap: case SYS_futex:
    case SYS_exit: case SYS_exit_group: case SYS_sched_yield: case SYS_clock_gettime: case SYS_clock_nanosleep: case SYS_nanosleep:
      return true;
  }
  return false;
}
bool undoing(long nr) { return nr == SYS_munmap || nr == SYS_close || nr == SYS_unlink || nr == SYS_unlinkat; }

std::string sysname(long nr) {
  static const std::map<long, const char*> m = {{SYS_openat, "openat"}, {SYS_open, "open"}, {SYS_newfstatat, "stat"}, {SYS_fstat, "fstat"}, {SYS_stat, "stat"}, {SYS_lstat, "lstat"}, {SYS_mkdir, "mkdir"},
      {SYS_fchmod, "fchmod"}, {SYS_ftruncate, "ftruncate"}, {SYS_mmap, "mmap"}, {SYS_link, "link"}, {SYS_linkat, "link"}, {SYS_rename, "rename"}, {SYS_unlink, "unlink"}, {SYS_close, "close"}, {SYS_munmap, "munmap"}, {SYS_getrandom, "getrandom"}};
  auto it = m.find(nr);
  return it == m.end() ? strf("syscall%ld", nr) : it->second;
}

struct Proc {
  pid_t pid = -1;
  bool over = false;  // the open returned (or the process is gone)
  bool dead = false;
  int status = 0;
  user_regs_struct at{};  // the call it is about to make
  int calls = 0;
};

void start(Ctx& ctx, Proc& p, int i, const Job& job, bool linger) {
  memset((void*)&sh->r[i], 0, sizeof(Result));
  fflush(ctx.outf);
  p.pid = fork();
  if (p.pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    child(i, job, linger);
  }
  if (p.pid < 0) ctx.harness_error("fork");
  int st;
  if (waitpid(p.pid, &st, 0) != p.pid || !WIFSTOPPED(st)) ctx.harness_error("no stop");
  if (ptrace(PTRACE_SETOPTIONS, p.pid, 0, PTRACE_O_EXITKILL | PTRACE_O_TRACESYSGOOD)) ctx.harness_error("PTRACE_SETOPTIONS");
}
// Runs on to the next stop.
void resume(Ctx& ctx, Proc& p) {
  ptrace(PTRACE_SYSCALL, p.pid, 0, 0);
  if (waitpid(p.pid, &p.status, 0) != p.pid) ctx.harness_error("waitpid");
  if (WIFEXITED(p.status) || WIFSIGNALED(p.status)) p.over = p.dead = true;
}
// To the entry of the next call that matters, or the end of the open.
void to_entry(Ctx& ctx, Proc& p) {
  while (true) {
    resume(ctx, p);
    if (p.dead) return;
    int sig = WSTOPSIG(p.status);
    if (sig == SIGSTOP) {
      p.over = true;
      return;
    }
    if (sig != (SIGTRAP | 0x80)) ctx.fail("signal", strf("an open raised signal %d", sig));
    ptrace(PTRACE_GETREGS, p.pid, 0, &p.at);
    if (!exempt(p.at)) {
      p.calls++;
      return;
    }
    resume(ctx, p);  // its exit
    if (p.dead) return;
    if (WSTOPSIG(p.status) != (SIGTRAP | 0x80) && WSTOPSIG(p.status) == SIGSTOP) {  // the stop arrived within the call
      p.over = true;
      return;
    }
  }
}
// Makes the call the process is stopped at, or has it fail.
long do_call(Ctx& ctx, Proc& p, int fail_with) {
  if (fail_with) {
    user_regs_struct g = p.at;
    g.orig_rax = -1;
    ptrace(PTRACE_SETREGS, p.pid, 0, &g);
  }
  resume(ctx, p);
  if (p.dead) return -1;
  user_regs_struct g;
  ptrace(PTRACE_GETREGS, p.pid, 0, &g);
  if (fail_with) {
    g.rax = -fail_with;
    ptrace(PTRACE_SETREGS, p.pid, 0, &g);
  }
  return g.rax;
}
void finish(Ctx& ctx, Proc& p) {
  if (!p.dead) {
    ptrace(PTRACE_DETACH, p.pid, 0, 0);
    if (waitpid(p.pid, &p.status, 0) != p.pid) ctx.harness_error("waitpid");
    p.dead = true;
  }
  p.pid = -1;
}
void destroy(Proc& p) {
  if (p.pid > 0 && !(p.dead && (WIFEXITED(p.status) || WIFSIGNALED(p.status)))) {
    kill(p.pid, SIGKILL);
    int st;
    while (waitpid(p.pid, &st, 0) == p.pid && !WIFEXITED(st) && !WIFSIGNALED(st)) {}
  }
  p.pid = -1;
}

void reset_dir(Ctx& ctx) {
  int fd = open((ctx.scratch + "/u").c_str(), O_RDONLY | O_DIRECTORY | O_CLOEXEC);
  wipe(fd, "c");
  close(fd);
  mkdir(base.c_str(), 0755);
}

a0_file_options_t options(Rng& r) {
  a0_file_options_t o = A0_FILE_OPTIONS_DEFAULT;
  static const mode_t modes[] = {0600, 0644, 0666, 0640, 0755};
  static const mode_t dmodes[] = {0700, 0755, 0777, 0750};
  o.create_options.size = r.chance(70) ? r.range(8, 5000) : 4096 * r.range(1, 3);
  o.create_options.mode = modes[r.below(5)];
  o.create_options.dir_mode = dmodes[r.below(4)];
  o.open_options.arena_mode = r.chance(70) ? A0_ARENA_MODE_SHARED : r.chance(50) ? A0_ARENA_MODE_EXCLUSIVE : A0_ARENA_MODE_READONLY;
  return o;
}

void fault_case(Ctx& ctx) {
  Rng& r = ctx.rng;
  ctx.desc("faults");
  enum { MISSING, EXISTS, EMPTY, DANGLING, DIRECTORY, BADPARENT };
  int setup = r.chance(50) ? MISSING : r.chance(50) ? EXISTS : r.range(EMPTY, BADPARENT);
  int depth = r.range(0, 2);
  Job job;
  job.opts = options(r);
  job.cpp = r.chance(25);
  if (r.chance(4)) job.opts.create_options.size = 0;
  if (r.chance(2)) job.opts.create_options.size = -1;
  target = base;
  std::vector<std::string> parents;
  for (int i = 0; i < depth; i++) parents.push_back(target += strf("/d%d", i));
  target += "/t";
  int made = setup == MISSING ? r.range(0, depth) : depth;
  int second = r.chance(25) ? r.range(1, 6) : 0;
  mode_t old_mode = r.chance(50) ? 0644 : 0600;
  size_t old_size = r.range(1, 6000);
  static const char* names[] = {"a missing file", "an existing file", "an existing empty file", "a dangling link", "a directory", "a path below a file"};
  int total = 1000;
  static const int errs[] = {EACCES, ENOSPC, ENOMEM, EMFILE, EIO, EINTR, EROFS, EPERM, ENOENT, EEXIST};
  for (int at = -1; at < total && at < 60; at++) {
    reset_dir(ctx);
    for (int i = 0; i < made; i++) mkdir(parents[i].c_str(), 0755);
    if (setup == EXISTS || setup == EMPTY) {
      int fd = open(target.c_str(), O_RDWR | O_CREAT | O_CLOEXEC, old_mode);
      std::string c(setup == EXISTS ? old_size : 0, 'o');
      if (write(fd, c.data(), c.size()) != (ssize_t)c.size()) ctx.harness_error("write");
      close(fd);
    }
    if (setup == DANGLING && symlink("nowhere", target.c_str())) ctx.harness_error("symlink");
    if (setup == DIRECTORY) mkdir(target.c_str(), 0755);
    std::string t = target;
    if (setup == BADPARENT) {
      close(open(target.c_str(), O_RDWR | O_CREAT | O_CLOEXEC, 0600));
      target += "/x";
    }
    Tree before = scan(base);
    Proc p;
    start(ctx, p, 0, job, false);
    struct Kill {
      Proc& p;
      ~Kill() { destroy(p); }
    } k{p};
    std::string label = strf("opening %s", names[setup]);
    if (job.cpp) label += " (cpp)";
    int idx = 0, faults = 0;
    bool soft = false;
    while (true) {
      to_entry(ctx, p);
      if (p.over) break;
      CHECK_OR_FAIL(ctx, p.calls < 500, "endless", "%s goes on after %d system calls", label.c_str(), p.calls);
      int with = 0;
      long nr = p.at.orig_rax;
      if (!undoing(nr)) {
        if (idx == at || (faults == 1 && second && idx == at + second)) {
          with = errs[r.below(10)];
          if ((with == ENOENT || with == EEXIST) && soft) with = EIO;
          soft |= with == ENOENT || with == EEXIST;
          faults++;
          label += strf(", %s failing with %s", sysname(nr).c_str(), strerrorname_np(with));
          ctx.distinct(mix(mix(setup, nr), mix(with, mix(idx, faults))));
        }
        idx++;
      }
      do_call(ctx, p, with);
      if (p.dead) break;
    }
    CHECK_OR_FAIL(ctx, !p.dead, "died", "%s: the process ended (%x)", label.c_str(), p.status);
    if (at < 0) total = idx;
    target = t;
    std::string opened = setup == BADPARENT ? target + "/x" : target;
    Tree after = scan(base);
    finish(ctx, p);
    Result& res = sh->r[0];
    CHECK_OR_FAIL(ctx, res.done && WIFEXITED(p.status) && WEXITSTATUS(p.status) == 0, "died", "%s: the process ended afterwards (%x)", label.c_str(), p.status);
    // what is there now
    std::string key = target.substr(base.size());
    Tree rest = after;
    for (auto it = rest.begin(); it != rest.end();) {  // directories on the way may have been made
      if (it->second.type == 'd' && !before.count(it->first)) it = rest.erase(it);
      else ++it;
    }
    if (res.err) {
      ctx.count(faults ? "failed_opens" : "refused_opens");
      std::string d = diff(before, rest);
      CHECK_OR_FAIL(ctx, d.empty(), "debris", "%s failed:%s", label.c_str(), d.c_str());
      CHECK_OR_FAIL(ctx, res.fds1 == res.fds0, "fd-leak", "%s failed: %d descriptors instead of %d", label.c_str(), res.fds1, res.fds0);
      CHECK_OR_FAIL(ctx, res.maps1 == res.maps0, "map-leak", "%s failed: %d mappings left", label.c_str(), res.maps1 - res.maps0);
      CHECK_OR_FAIL(ctx, faults || setup >= EMPTY || job.opts.create_options.size <= 0, "refused", "%s failed (%d, errno %d)", label.c_str(), res.err, res.sys);
    } else {
      if (faults) ctx.count("survived_faults");
      CHECK_OR_FAIL(ctx, setup <= EXISTS, "accepted", "%s succeeded", label.c_str());
      Tree want = before;
      if (setup == MISSING) want[key] = {'f', std::string(job.opts.create_options.size, 0), job.opts.create_options.mode};
      std::string d = diff(want, rest);
      CHECK_OR_FAIL(ctx, d.empty(), "effects", "%s succeeded:%s", label.c_str(), d.c_str());
      CHECK_OR_FAIL(ctx, res.fds1 == res.fds0 + 1 && res.maps1 == res.maps0 + 1, "leak", "%s succeeded: %+d descriptors, %+d mappings", label.c_str(), res.fds1 - res.fds0, res.maps1 - res.maps0);
      CHECK_OR_FAIL(ctx, res.arena == want[key].what.size() && res.size == res.arena && res.stat_mode == want[key].mode && res.path_ok, "handle", "%s succeeded: size %lu, mapped %lu, mode %lo", label.c_str(), (unsigned long)res.size, (unsigned long)res.arena, (unsigned long)res.stat_mode);
      CHECK_OR_FAIL(ctx, !res.close_err, "close", "%s: closing failed", label.c_str());
      CHECK_OR_FAIL(ctx, res.fds2 == res.fds0 && res.maps2 == res.maps0, "close-leak", "%s, then closing: %+d descriptors, %+d mappings", label.c_str(), res.fds2 - res.fds0, res.maps2 - res.maps0);
      ctx.count("opens");
    }
    CHECK_OR_FAIL(ctx, res.close2_err, "close-claimed", "%s: closing a closed file reported success", label.c_str());
    CHECK_OR_FAIL(ctx, res.other_ok, "close-other", "%s: closing a closed file affected another", label.c_str());
    ctx.eval();
    if (at == 3) ctx.sample(label + (res.err ? ": refused, nothing left" : ": succeeded"));
    (void)opened;
  }
}

void race_case(Ctx& ctx) {
  Rng& r = ctx.rng;
  ctx.desc("race");
  reset_dir(ctx);
  int n = r.range(2, 4);
  int depth = r.range(0, 2);
  target = base;
  std::vector<std::string> parents;
  for (int i = 0; i < depth; i++) parents.push_back(target += strf("/d%d", i));
  target += "/t";
  int made = r.range(0, depth);
  for (int i = 0; i < made; i++) mkdir(parents[i].c_str(), 0755);
  std::vector<Job> jobs(n);
  bool huge = r.chance(4);  // sparse, hardly touched
  std::vector<Proc> ps(n);
  struct Kill {
    std::vector<Proc>& ps;
    ~Kill() {
      for (auto& p : ps) destroy(p);
    }
  } k{ps};
  for (int i = 0; i < n; i++) {
    jobs[i].opts = options(r);
    jobs[i].cpp = r.chance(20);
    if (huge) jobs[i].opts.create_options.size = (1ull << r.range(17, 33)) + r.below(5000), ctx.count("large_files");
    start(ctx, ps[i], i, jobs[i], true);
    to_entry(ctx, ps[i]);
  }
  int stick = std::vector<int>{0, 40, 80, 93}[r.below(4)];
  int victim = r.chance(12) ? r.below(n) : -1;
  int killat = r.range(0, 12), kills = 0;
  int cur = -1, steps = 0, switches = 0;
  uint64_t h = n;
  std::string trace;
  struct stat first;
  bool present = false;
  int creator = -1, retries = 0;
  while (true) {
    std::vector<int> can;
    for (int i = 0; i < n; i++)
      if (!ps[i].over) can.push_back(i);
    if (can.empty()) break;
    int was = cur;
    if (cur < 0 || ps[cur].over || !r.chance(stick)) cur = r.pick(can);
    if (was >= 0 && was != cur) switches++;
    Proc& p = ps[cur];
    long nr = p.at.orig_rax;
    if (cur == victim && p.calls > killat) {
      kill(p.pid, SIGKILL);
      int st;
      while (waitpid(p.pid, &st, 0) == p.pid && !WIFEXITED(st) && !WIFSIGNALED(st)) {}
      p.over = p.dead = true;
      p.status = st;
      kills++;
      trace += strf("%d:killed ", cur);
      ctx.count("killed_openers");
      continue;
    }
    CHECK_OR_FAIL(ctx, ++steps < 2000, "endless", "after %d system calls no opener is done: %s", steps, trace.c_str());
    long ret = do_call(ctx, p, 0);
    if (trace.size() < 3000) trace += strf("%d:%s%s ", cur, sysname(nr).c_str(), ret < 0 && ret > -4096 ? strf("=%s", strerrorname_np(-ret)).c_str() : "");
    if (ret == -EEXIST) retries++;
    h = mix(h, mix(cur, mix(nr, ret < 0)));
    if (!p.dead) to_entry(ctx, p);
    CHECK_OR_FAIL(ctx, !p.dead, "died", "opener %d died (%x): %s", cur, p.status, trace.c_str());
    struct stat st;
    if (lstat(target.c_str(), &st) == 0) {
      if (!present) {
        present = true;
        first = st;
        creator = cur;
        auto& c = jobs[cur].opts.create_options;
        CHECK_OR_FAIL(ctx, S_ISREG(st.st_mode) && st.st_size == c.size && (st.st_mode & 07777) == c.mode, "half-made", "the file appears with %ld bytes and mode %o, its creator asked for %ld and %o: %s", (long)st.st_size, st.st_mode & 07777,
                      (long)c.size, c.mode, trace.c_str());
      }
      CHECK_OR_FAIL(ctx, st.st_ino == first.st_ino && st.st_size == first.st_size && st.st_mode == first.st_mode, "changed", "the file changed after it appeared: %ld bytes, mode %o: %s", (long)st.st_size, st.st_mode & 07777, trace.c_str());
      int fd = open(target.c_str(), O_RDONLY | O_CLOEXEC);
      std::string c(std::min<off_t>(st.st_size, kEdge), 1);
      ssize_t got = fd < 0 ? -1 : pread(fd, &c[0], c.size(), r.chance(50) ? 0 : st.st_size - c.size());
      close(fd);
      CHECK_OR_FAIL(ctx, got == (ssize_t)c.size() && all_zero((const uint8_t*)c.data(), c.size()), "not-zero", "the new file is not zeroed: %s", trace.c_str());
    } else {
      CHECK_OR_FAIL(ctx, !present, "vanished", "the file vanished: %s", trace.c_str());
    }
  }
  ctx.log(trace);
  // let them look
  uint64_t want = 0;
  for (int i = 0; i < n; i++) {
    if (ps[i].dead) continue;
    ptrace(PTRACE_CONT, ps[i].pid, 0, 0);
    if (waitpid(ps[i].pid, &ps[i].status, 0) != ps[i].pid || !WIFSTOPPED(ps[i].status) || WSTOPSIG(ps[i].status) != SIGSTOP) {
      ps[i].dead = WIFEXITED(ps[i].status) || WIFSIGNALED(ps[i].status);
      ctx.fail("died", strf("opener %d died while looking (%x)", i, ps[i].status));
    }
    Result& res = sh->r[i];
    CHECK_OR_FAIL(ctx, !res.err, "refused", "opener %d failed (%d, errno %d): %s", i, res.err, res.sys, trace.c_str());
    CHECK_OR_FAIL(ctx, present && res.ino == first.st_ino, "not-shared", "opener %d has another file: %s", i, trace.c_str());
    CHECK_OR_FAIL(ctx, (off_t)res.size == first.st_size && (off_t)res.arena == first.st_size && res.stat_mode == (first.st_mode & 07777u) && res.path_ok, "handle", "opener %d has %lu bytes of %ld, mode %lo: %s", i, (unsigned long)res.arena,
                  (long)first.st_size, (unsigned long)res.stat_mode, trace.c_str());
    CHECK_OR_FAIL(ctx, res.zero, "not-zero", "opener %d sees something other than zero: %s", i, trace.c_str());
    CHECK_OR_FAIL(ctx, res.fds1 == res.fds0 + 1 && res.maps1 == res.maps0 + 1, "leak", "opener %d: %+d descriptors, %+d mappings: %s", i, res.fds1 - res.fds0, res.maps1 - res.maps0, trace.c_str());
    if (jobs[i].opts.open_options.arena_mode != A0_ARENA_MODE_READONLY) want |= 1 << i;
  }
  Tree after = scan(base);
  int extra = 0;
  for (auto& x : after)
    if (x.second.type != 'd' && x.first != target.substr(base.size())) extra++;
  CHECK_OR_FAIL(ctx, extra <= kills, "debris", "%d other files are left: %s", extra, trace.c_str());
  for (int i = 0; i < n; i++) {
    if (ps[i].dead) continue;
    ptrace(PTRACE_CONT, ps[i].pid, 0, 0);
    if (waitpid(ps[i].pid, &ps[i].status, 0) != ps[i].pid || !WIFSTOPPED(ps[i].status)) ctx.fail("died", strf("opener %d died writing (%x)", i, ps[i].status));
  }
  if (present) {
    int fd = open(target.c_str(), O_RDONLY | O_CLOEXEC);
    uint8_t got[8] = {0};
    if (read(fd, got, 8) < 0) got[0] = 99;
    close(fd);
    for (int i = 0; i < n; i++) CHECK_OR_FAIL(ctx, got[i] == ((want >> i) & 1), "not-shared", "what opener %d writes is %sin the file: %s", i, got[i] ? "" : "not ", trace.c_str());
  }
  ctx.eval();
  if (switches > 1) ctx.distinct(h);
  if (retries) ctx.count("lost_the_race", retries);
  if (creator >= 0) ctx.count("created");
  ctx.count("system_calls", steps);
  ctx.sample(ctx.trace);
}

void run_case(Ctx& ctx) {
  base = ctx.scratch + "/u/c";
  if (ctx.mode == "fault") fault_case(ctx);
  else race_case(ctx);
}
void begin(Ctx& ctx) {
  sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  become_nobody(ctx);
}
void end(Ctx& ctx) {
  int fd = open((ctx.scratch + "/u").c_str(), O_RDONLY | O_DIRECTORY | O_CLOEXEC);
  wipe(fd, "c");
  close(fd);
}
}  // namespace
int main(int argc, char** argv) { return harness_main(argc, argv, run_case, begin, end); }
