// Actors: threads and processes that execute one operation at a time on command and can
// be stopped at any machine instruction of it (single-stepping themselves with the trap
// flag). A coordinator decides who runs next, so schedules are explored at instruction
// granularity; a stopped process actor can be killed there, which is a real crash.
#pragma once
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <sys/prctl.h>
#include <ucontext.h>

#include <atomic>

#include "common.hpp"

namespace act {

inline long futex(void* addr, int op, uint32_t val, const timespec* ts = nullptr) {
  return syscall(SYS_futex, addr, op, val, ts, nullptr, 0);
}
inline void fwait(std::atomic<uint32_t>* a, uint32_t val, uint64_t ns = 0) {
  timespec ts{(time_t)(ns / 1000000000ull), (long)(ns % 1000000000ull)};
  futex(a, FUTEX_WAIT, val, ns ? &ts : nullptr);
}
inline void fwake(std::atomic<uint32_t>* a) { futex(a, FUTEX_WAKE, INT32_MAX); }

constexpr int kArgs = 6;

struct Slot {
  std::atomic<uint32_t> cmd, done, paused, resume;
  std::atomic<uint32_t> notify;  // bumped on done/pause, coordinator waits here
  std::atomic<int> tid;
  std::atomic<int> pid;
  int op;
  int64_t a[kArgs];
  int64_t res;
  int64_t out[8];
  uint64_t step_target;  // 0: run at full speed
  uint64_t step_more;    // on resume: stop again after this many instructions (0: run on)
  uint64_t pc;           // where it stopped
  uint64_t steps;        // instructions counted in the current operation
  std::atomic<int> die;  // thread actor: exit right here instead of resuming
  std::atomic<int> ready;
};

struct StepState {
  Slot* slot = nullptr;
  bool active = false;
  uint64_t count = 0, target = 0;
};
inline thread_local StepState tl_step;

inline void tf_on() {
  asm volatile("lea -128(%%rsp),%%rsp\n pushfq\n orq $0x100,(%%rsp)\n popfq\n lea 128(%%rsp),%%rsp" ::: "memory", "cc");
}
inline void tf_off() {
  asm volatile("lea -128(%%rsp),%%rsp\n pushfq\n andq $~0x100,(%%rsp)\n popfq\n lea 128(%%rsp),%%rsp" ::: "memory", "cc");
}

inline void on_trap(int, siginfo_t*, void* ucv) {
  ucontext_t* uc = (ucontext_t*)ucv;
  StepState& s = tl_step;
  if (!s.active) {
    uc->uc_mcontext.gregs[REG_EFL] &= ~0x100ll;
    return;
  }
  s.count++;
  if (s.count < s.target) return;
  int saved = errno;
  Slot* sl = s.slot;
  sl->steps = s.count;
  sl->pc = uc->uc_mcontext.gregs[REG_RIP];
  uint32_t r = sl->resume.load();
  sl->paused.store(1);
  sl->notify.fetch_add(1);
  fwake(&sl->notify);
  while (sl->resume.load() == r) fwait(&sl->resume, r);
  if (sl->die.load()) syscall(SYS_exit, 0);
  if (sl->step_more) {
    s.target = s.count + sl->step_more;
  } else {
    s.active = false;
    uc->uc_mcontext.gregs[REG_EFL] &= ~0x100ll;
  }
  errno = saved;
}

inline void install_trap() {
  struct sigaction sa;
  memset(&sa, 0, sizeof(sa));
  sa.sa_sigaction = on_trap;
  sa.sa_flags = SA_SIGINFO | SA_NODEFER;
  sigaction(SIGTRAP, &sa, nullptr);
  memset(&sa, 0, sizeof(sa));
  sa.sa_handler = [](int) {};
  sigaction(SIGUSR2, &sa, nullptr);
}

// Executes one operation; runs in the actor.
using Exec = int64_t (*)(int actor, int op, const int64_t* a, int64_t* out);

enum class St { Idle, Running, Paused, Blocked, Dead };

struct Actor {
  int id = 0;
  bool thread = false;
  Slot* slot = nullptr;
  pid_t pid = 0;
  pthread_t th{};
  St st = St::Idle;
  bool joined = true;
};

struct World {
  Slot* slots = nullptr;
  std::vector<Actor> actors;
  Exec exec = nullptr;
  bool stepping_ok = true;
  uint64_t respawns = 0;

  static void actor_loop(World* w, int id) {
    Slot* s = &w->slots[id];
    s->tid.store((int)syscall(SYS_gettid));
    s->pid.store(getpid());
    uint32_t last = s->cmd.load();
    tl_step.slot = s;
    s->ready.store(1);
    s->notify.fetch_add(1);
    fwake(&s->notify);
    for (;;) {
      uint32_t c;
      while ((c = s->cmd.load()) == last) fwait(&s->cmd, last);
      last = c;
      if (s->op < 0) break;
      int64_t out[8] = {0};
      int64_t r;
      if (s->step_target) {
        tl_step.count = 0;
        tl_step.target = s->step_target;
        tl_step.active = true;
        tf_on();
        r = w->exec(id, s->op, s->a, out);
        tf_off();
        tl_step.active = false;
        s->steps = tl_step.count;
      } else {
        r = w->exec(id, s->op, s->a, out);
      }
      memcpy(s->out, out, sizeof(out));
      s->res = r;
      s->done.store(c);
      s->notify.fetch_add(1);
      fwake(&s->notify);
    }
    s->done.store(last);
    s->notify.fetch_add(1);
    fwake(&s->notify);
  }
  struct ThArg {
    World* w;
    int id;
  };
  static void* th_main(void* p) {
    ThArg a = *(ThArg*)p;
    delete (ThArg*)p;
    actor_loop(a.w, a.id);
    return nullptr;
  }

  void init(int n, Exec e, const std::vector<bool>& as_thread) {
    exec = e;
    install_trap();
    slots = (Slot*)mmap(0, sizeof(Slot) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    actors.resize(n);
    for (int i = 0; i < n; i++) {
      actors[i].id = i;
      actors[i].slot = &slots[i];
      actors[i].thread = as_thread[i];
      actors[i].st = St::Dead;
      spawn(i);
    }
  }
  void spawn(int i) {
    Actor& a = actors[i];
    Slot* s = a.slot;
    s->cmd = 0;
    s->done = 0;
    s->paused = 0;
    s->die = 0;
    s->ready = 0;
    s->step_target = 0;
    s->step_more = 0;
    if (a.thread) {
      if (pthread_create(&a.th, nullptr, th_main, new ThArg{this, i})) g_ctx()->harness_error("pthread_create");
      a.joined = false;
    } else {
      pid_t p = fork();
      if (p < 0) g_ctx()->harness_error("fork");
      if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        actor_loop(this, i);
        _exit(0);
      }
      a.pid = p;
    }
    while (!s->ready.load()) {
      uint32_t n = s->notify.load();
      if (s->ready.load()) break;
      fwait(&s->notify, n, 10000000);
    }
    a.st = St::Idle;
    respawns++;
  }
  // A real death: SIGKILL for a process; leaving the thread on the spot for a paused thread.
  void kill_actor(int i) {
    Actor& a = actors[i];
    if (a.st == St::Dead) return;
    if (a.thread) {
      if (a.st == St::Paused) {
        a.slot->die = 1;
        a.slot->resume.fetch_add(1);
        fwake(&a.slot->resume);
        pthread_join(a.th, nullptr);
        a.joined = true;
      } else if (a.st == St::Idle) {
        a.slot->op = -1;
        a.slot->cmd.fetch_add(1);
        fwake(&a.slot->cmd);
        pthread_join(a.th, nullptr);
        a.joined = true;
      } else {
        g_ctx()->harness_error("cannot kill a blocked thread actor");
      }
    } else {
      kill(a.pid, SIGKILL);
      int st;
      waitpid(a.pid, &st, 0);
    }
    a.st = St::Dead;
  }
  void post(int i, int op, std::initializer_list<int64_t> args, uint64_t step_target = 0) {
    Actor& a = actors[i];
    Slot* s = a.slot;
    s->op = op;
    int k = 0;
    for (int64_t v : args) s->a[k++] = v;
    s->step_target = step_target;
    s->step_more = 0;
    s->paused = 0;
    a.st = St::Running;
    s->cmd.fetch_add(1);
    fwake(&s->cmd);
  }
  void resume(int i, uint64_t more = 0) {
    Actor& a = actors[i];
    Slot* s = a.slot;
    s->step_more = more;
    s->paused = 0;
    a.st = St::Running;
    s->resume.fetch_add(1);
    fwake(&s->resume);
  }
  void interrupt(int i) { syscall(SYS_tgkill, slots[i].pid.load(), slots[i].tid.load(), SIGUSR2); }
  bool finished(int i) { return slots[i].done.load() == slots[i].cmd.load(); }

  // 'S' etc. from /proc, or 0 when the thread is gone.
  char thread_state(int i, uint64_t* switches = nullptr) {
    char path[64], buf[2048];
    Slot* s = &slots[i];
    snprintf(path, sizeof(path), "/proc/%d/task/%d/%s", s->pid.load(), s->tid.load(), switches ? "status" : "stat");
    int fd = open(path, O_RDONLY | O_CLOEXEC);
    if (fd < 0) return 0;
    ssize_t n = read(fd, buf, sizeof(buf) - 1);
    close(fd);
    if (n <= 0) return 0;
    buf[n] = 0;
    if (!switches) {
      char* p = strrchr(buf, ')');
      return p ? p[2] : 0;
    }
    char* p = strstr(buf, "State:");
    char st = p ? p[7] : 0;
    *switches = 0;
    p = strstr(buf, "voluntary_ctxt_switches:");
    if (p) *switches += strtoull(p + 24, nullptr, 10);
    p = strstr(buf, "nonvoluntary_ctxt_switches:");
    if (p) *switches += strtoull(p + 27, nullptr, 10);
    return st;
  }

  // Waits until a running actor finished, paused, or sleeps in the kernel; one that may
  // spin is left running after `limit` ns.
  St settle(int i, uint64_t limit = 0) {
    uint64_t t0 = limit ? now_ns(CLOCK_MONOTONIC) : 0;
    Actor& a = actors[i];
    Slot* s = a.slot;
    int sleeping = 0;
    for (int spin = 0;; spin++) {
      uint32_t n = s->notify.load();
      if (s->done.load() == s->cmd.load()) return a.st = St::Idle;
      if (s->paused.load()) return a.st = St::Paused;
      if (a.st == St::Blocked) return St::Blocked;
      if (spin < 200) {
        sched_yield();
        continue;
      }
      if (limit && now_ns(CLOCK_MONOTONIC) - t0 > limit) return a.st = St::Running;
      fwait(&s->notify, n, 60000);
      if (s->done.load() == s->cmd.load() || s->paused.load()) continue;
      char c = thread_state(i);
      if (c == 'S') {
        if (++sleeping >= 3) {
          if (s->done.load() == s->cmd.load() || s->paused.load()) continue;
          return a.st = St::Blocked;
        }
      } else {
        sleeping = 0;
        if (!c) {
          if (!a.thread) {
            int st;
            if (waitpid(a.pid, &st, WNOHANG) == a.pid) {
              a.st = St::Dead;
              return a.st;
            }
          }
        }
      }
    }
  }
  // True when every blocked actor stays asleep, without running at all, for `ns`.
  bool confirmed_stuck(uint64_t ns = 4000000000ull) {
    std::vector<uint64_t> sw0(actors.size(), 0);
    uint64_t t0 = now_ns(CLOCK_MONOTONIC), nap = 200;
    for (;;) {
      bool moved = false;
      for (size_t i = 0; i < actors.size(); i++) {
        if (actors[i].st != St::Blocked) continue;
        if (finished(i) || slots[i].paused.load()) return false;
        uint64_t sw = 0;
        char c = thread_state(i, &sw);
        if (sw != sw0[i] || c != 'S') moved = true;
        sw0[i] = sw;
      }
      uint64_t t = now_ns(CLOCK_MONOTONIC);
      if (moved) t0 = t;
      if (t - t0 > ns) return true;
      g_ctx()->tick();
      usleep(nap);
      if (nap < 20000) nap *= 2;
    }
  }
  void shutdown() {
    for (size_t i = 0; i < actors.size(); i++) {
      if (actors[i].st == St::Dead) continue;
      if (actors[i].thread && actors[i].st == St::Idle) kill_actor(i);
      else if (!actors[i].thread) kill_actor(i);
    }
  }
};

}  // namespace act
