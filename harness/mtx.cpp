// C07 (exclusion and misuse), C08 (owner death), C09 (condition variables).
#include <a0/mtx.h>
#include <a0/tid.h>
#include <a0/time.h>

#include "explore.hpp"

namespace {

constexpr int kM = 3;
struct Shared {
  a0_mtx_t mtx[kM];
  a0_cnd_t cnd[2];
  // Written only by holders: detects broken exclusion and stale reads.
  volatile int64_t holder[kM];
  volatile int64_t ticket[kM];
  volatile int64_t copy[kM];
};
Shared* sh;
Explorer ex;
bool with_cnd = false;
int nmtx = 2;
int waiters = 0;

enum { LOCK, TRY, TIMED, UNLOCK, WAIT, TWAIT, SIGNAL, BCAST, BADWAIT };
const char* kNames[] = {"lock", "trylock", "timedlock", "unlock", "wait", "timedwait", "signal", "broadcast", "badwait"};

int64_t enc(a0_err_t e) {
  if (e == A0_OK) return 0;
  if (e == A0_ERR_SYS) return a0_err_syscode;
  return 100000 + e;
}
constexpr int64_t kEarly = 777777;     // timed out before the deadline
constexpr int64_t kBroken = 888888;    // somebody else was inside, or data was stale

// Distinguishes an actor from the dead one whose place it took.
int64_t tag(int me) { return ex.w.slots[me].tid.load(std::memory_order_relaxed); }

int64_t enter(int me, int m) {
  int64_t r = 0;
  if (sh->holder[m] != 0 && sh->holder[m] != -1) r = kBroken;
  if (sh->ticket[m] != sh->copy[m] && sh->holder[m] != -1) r = kBroken;
  sh->holder[m] = tag(me);
  sh->ticket[m] = sh->ticket[m] + 1;
  sh->copy[m] = sh->ticket[m];
  if (sh->holder[m] != tag(me)) r = kBroken;
  return r;
}

a0_time_mono_t deadline_of(int64_t kind, uint64_t* ns) {
  a0_time_mono_t t;
  a0_time_mono_now(&t);
  int64_t add = kind == 0 ? -1000000000 : kind == 1 ? 3000000 : 1000000000000ll;
  a0_time_mono_t d;
  a0_time_mono_add(t, add, &d);
  *ns = d.ts.tv_sec * 1000000000ull + d.ts.tv_nsec;
  return d;
}

int64_t exec(int me, int op, const int64_t* a, int64_t*) {
  int m = a[0];
  a0_err_t e;
  uint64_t dl = 0;
  switch (op) {
    case LOCK: e = a0_mtx_lock(&sh->mtx[m]); break;
    case TRY: e = a0_mtx_trylock(&sh->mtx[m]); break;
    case TIMED: {
      a0_time_mono_t d = deadline_of(a[1], &dl);
      e = a0_mtx_timedlock(&sh->mtx[m], &d);
      if (e == A0_ERR_SYS && a0_err_syscode == ETIMEDOUT && now_ns() + 1000000 < dl) return kEarly;
      break;
    }
    case UNLOCK: {
      bool mine = sh->holder[m] == tag(me);
      if (mine) sh->holder[m] = 0;
      e = a0_mtx_unlock(&sh->mtx[m]);
      if (e && mine && sh->holder[m] == 0) sh->holder[m] = tag(me);
      return enc(e);
    }
    case WAIT:
    case TWAIT: {
      bool mine = sh->holder[m] == tag(me);
      if (mine) sh->holder[m] = 0;
      if (op == WAIT) {
        e = a0_cnd_wait(&sh->cnd[a[1]], &sh->mtx[m]);
      } else {
        a0_time_mono_t d = deadline_of(a[2], &dl);
        e = a0_cnd_timedwait(&sh->cnd[a[1]], &sh->mtx[m], &d);
        if (e == A0_ERR_SYS && a0_err_syscode == ETIMEDOUT && now_ns() + 1000000 < dl) return kEarly;
      }
      int64_t r = enc(e);
      if (r == EPERM || r == EINVAL) {
        if (mine) sh->holder[m] = tag(me);
        return r;
      }
      if (r == EOWNERDEAD || (r == ETIMEDOUT && ex.kills)) sh->holder[m] = -1;
      int64_t br = enter(me, m);
      return br ? br : r;
    }
    case BADWAIT: {
      a0_time_mono_t d;
      a0_time_mono_now(&d);
      switch (a[2]) {
        case 0: d.ts.tv_sec = -1; break;
        case 1: d.ts.tv_nsec = -1; break;
        case 2: d.ts.tv_nsec = 1000000000; break;
        case 3: d.ts.tv_nsec = 2000000000; break;
        default: d.ts.tv_sec = 0; d.ts.tv_nsec = 0; break;
      }
      e = a0_cnd_timedwait(&sh->cnd[a[1]], &sh->mtx[m], &d);
      return enc(e);
    }
    case SIGNAL: e = a0_cnd_signal(&sh->cnd[a[1]], &sh->mtx[m]); return enc(e);
    case BCAST: e = a0_cnd_broadcast(&sh->cnd[a[1]], &sh->mtx[m]); return enc(e);
    default: return -1;
  }
  int64_t r = enc(e);
  if (r == 0 || r == EOWNERDEAD) {
    if (r == EOWNERDEAD) sh->holder[m] = -1;  // the dead holder may have left anything
    int64_t b = enter(me, m);
    if (b) return b;
  }
  return r;
}

// State layout: per mutex {owner+1, died}, then per cnd {waiting mask, woken mask}.
int OW(int m) { return 2 * m; }
int DI(int m) { return 2 * m + 1; }
int WT(int c) { return 2 * kM + 2 * c; }
int WK(int c) { return 2 * kM + 2 * c + 1; }

void acquire(const lin::State& s, int me, int m, std::vector<lin::Outcome>& o, int64_t res_ok, bool report_died = true) {
  lin::Outcome x;
  x.s = s;
  x.s[OW(m)] = me + 1;
  x.res = s[DI(m)] && report_died ? EOWNERDEAD : res_ok;
  o.push_back(x);
}

void spec(const lin::State& s, int me, const lin::Op& op, int phase, std::vector<lin::Outcome>& o) {
  int m = op.a[0], c = op.a[1];
  int owner = s[OW(m)];
  lin::Outcome same;
  same.s = s;
  switch (op.code) {
    case LOCK:
      if (owner == me + 1) same.res = EDEADLK, o.push_back(same);
      else if (!owner) acquire(s, me, m, o, 0);
      break;
    case TRY:
      if (owner) same.res = EBUSY, o.push_back(same);
      if (owner == me + 1) same.res = EDEADLK, o.push_back(same);
      if (!owner) acquire(s, me, m, o, 0);
      break;
    case TIMED:
      if (owner == me + 1) same.res = EDEADLK, o.push_back(same);
      else if (!owner) acquire(s, me, m, o, 0);
      else if (op.a[1] != 2) same.res = ETIMEDOUT, o.push_back(same);
      break;
    case UNLOCK:
      if (owner != me + 1) {
        same.res = EPERM;
        o.push_back(same);
      } else {
        same.s[OW(m)] = 0;
        same.s[DI(m)] = 0;
        o.push_back(same);
      }
      break;
    case BADWAIT:
      same.res = EINVAL;
      o.push_back(same);
      break;
    case WAIT:
    case TWAIT:
      if (phase == 0) {
        if (owner != me + 1) {
          same.res = EPERM;
          o.push_back(same);
          return;
        }
        same.s[OW(m)] = 0;
        same.s[DI(m)] = 0;
        same.s[WT(c)] |= 1 << me;
        same.done = false;
        same.phase = 1;
        o.push_back(same);
      } else if (!owner) {
        bool woken = s[WK(c)] & (1 << me);
        lin::Outcome x;
        x.s = s;
        x.s[WT(c)] &= ~(1 << me);
        x.s[WK(c)] &= ~(1 << me);
        x.s[OW(m)] = me + 1;
        x.res = s[DI(m)] ? EOWNERDEAD : 0;
        x.optional = !woken;
        o.push_back(x);
        if (op.code == TWAIT && op.a[2] != 2) {
          x.res = ETIMEDOUT;
          x.optional = false;
          o.push_back(x);
        }
      }
      break;
    case SIGNAL: {
      int w = s[WT(c)] & ~s[WK(c)];
      // A waiter that was told already but has not left yet may absorb it.
      if (!s[WT(c)]) {
        o.push_back(same);
      } else {
        for (int i = 0; i < 8; i++)
          if (s[WT(c)] & (1 << i)) {
            lin::Outcome x;
            x.s = s;
            x.s[WK(c)] |= 1 << i;
            if ((w & (1 << i)) || !w) o.push_back(x);
          }
      }
      break;
    }
    case BCAST:
      same.s[WK(c)] |= s[WT(c)];
      o.push_back(same);
      break;
  }
}

void death(const lin::State& s, int me, bool, std::vector<lin::State>& o) {
  lin::State t = s;
  for (int m = 0; m < kM; m++)
    if (t[OW(m)] == me + 1) {
      t[OW(m)] = 0;
      t[DI(m)] = 1;
    }
  for (int c = 0; c < 2; c++) {
    t[WT(c)] &= ~(1 << me);
    // A wakeup it was given goes down with it.
    t[WK(c)] &= ~(1 << me);
  }
  o.push_back(t);
}

// Would me waiting for m close a cycle?
bool cycle(int me, int m) {
  for (auto& c : ex.mon.cs) {
    int seen = 0, cur = c.s[OW(m)] - 1;
    while (cur >= 0 && cur != me && seen++ < 8) {
      if (!c.p[cur].active || c.p[cur].applied) break;
      const lin::Op& q = ex.mon.ops[cur];
      cur = c.s[OW(q.a[0])] - 1;
    }
    if (cur == me && c.s[OW(m)] - 1 != me) return true;
    if (seen >= 8) return true;
  }
  return false;
}

bool gen(Ctx& ctx, int me, lin::Op& op) {
  Rng& r = ctx.rng;
  int m = r.below(nmtx);
  const lin::State& s = ex.mon.cs.begin()->s;
  op.a[0] = m;
  bool mine = s[OW(m)] == me + 1;
  unsigned d = r.below(100);
  // With condition waits around, one actor never blocks, so that it can always wake the others.
  bool nonblocking = with_cnd && me == ex.n - 1;
  if (with_cnd) {
    op.a[1] = m % 2 == 0 ? 0 : 1;  // a condition belongs to one mutex
    if (mine && d < 60) {
      unsigned k = r.below(12);
      if (k < 5) op.code = WAIT;
      else if (k < 7) op.code = TWAIT, op.a[2] = r.below(3);
      else if (k < 9) op.code = BCAST;
      else if (k < 11) op.code = SIGNAL;
      else op.code = BADWAIT, op.a[2] = r.below(5);
      if (nonblocking && op.code <= TWAIT) op.code = BCAST;
      return true;
    }
    if (!mine && d < (waiters ? 45u : 15u)) {
      unsigned k = r.below(8);
      op.code = k < 3 ? SIGNAL : k < 6 || nonblocking ? BCAST : WAIT;
      if (op.code == WAIT) {
        // Waiting without the mutex has to be refused; only when it surely is not ours.
        for (auto& c : ex.mon.cs)
          if (c.s[OW(m)] == me + 1) return false;
      }
      return true;
    }
  }
  if (mine && r.chance(70)) {
    op.code = UNLOCK;
    return true;
  }
  unsigned k = r.below(100);
  op.a[1] = 0;
  if (k < 45) op.code = LOCK;
  else if (k < 65) op.code = TRY;
  else if (k < 85) op.code = TIMED, op.a[1] = r.chance(30) ? 1 : r.below(2) * 2;
  else op.code = UNLOCK;
  if (nonblocking && (op.code == LOCK || (op.code == TIMED && op.a[1] == 2))) op.code = TIMED, op.a[1] = r.below(2);
  if ((op.code == LOCK || op.code == TIMED) && cycle(me, m)) return false;
  return true;
}

bool drain(Ctx&, int me, const lin::State& s, lin::Op& op) {
  for (int m = 0; m < nmtx; m++) {
    if (s[OW(m)] == me + 1) {
      op.code = UNLOCK;
      op.a[0] = m;
      return true;
    }
  }
  for (int c = 0; c < 2 && with_cnd; c++) {
    if (s[WT(c)] & ~s[WK(c)]) {
      op.code = BCAST;
      op.a[0] = c;
      op.a[1] = c;
      return true;
    }
  }
  return false;
}

lin::State reset(Ctx&) {
  memset((void*)sh, 0, sizeof(*sh));
  return lin::State(2 * kM + 4, 0);
}

// Some actors go to sleep on a condition first, so that wakeups have several takers.
bool prelude(Ctx& ctx, int k, int& who, lin::Op& op) {
  if (k >= 2 * waiters) return false;
  who = k / 2;
  op.a[0] = ctx.rng.chance(85) ? 0 : nmtx - 1;
  if (k % 2 == 0) {
    op.code = LOCK;
    return true;
  }
  const lin::State& s = ex.mon.cs.begin()->s;
  for (int m = 0; m < nmtx; m++)
    if (s[OW(m)] == who + 1) op.a[0] = m;
  op.a[1] = op.a[0] % 2;
  op.code = WAIT;
  return true;
}

void begin(Ctx& ctx) {
  sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  ex.exec = exec;
  ex.spec = spec;
  ex.death = death;
  ex.reset = reset;
  ex.gen = gen;
  ex.drain = drain;
  ex.prelude = prelude;
  ex.interrupts = true;
  ex.kills = ctx.mode.find("death") != std::string::npos;
  with_cnd = ctx.mode.find("cnd") != std::string::npos;
  nmtx = with_cnd ? 2 : ex.kills ? 3 : 2;
  ex.name = [](const lin::Op& op) { return strf("%s(m%ld,%ld,%ld)", kNames[op.code], op.a[0], op.a[1], op.a[2]); };
  // One-time initialisation happens before anybody can die in the middle of it.
  memset((void*)sh, 0, sizeof(*sh));
  a0_mtx_lock(&sh->mtx[0]);
  a0_mtx_unlock(&sh->mtx[0]);
  // Threads of one process and separate processes, mixed.
  std::vector<bool> th;
  int n = with_cnd ? 4 + ctx.worker % 3 : 3 + ctx.worker % 2;
  for (int i = 0; i < n; i++) th.push_back(ctx.mode.find("proc") != std::string::npos ? false : (i + ctx.worker) % (ex.kills ? 4 : 3) == 0);
  ex.start(th);
}

void run_case(Ctx& ctx) {
  ctx.desc("mutex " + ctx.mode);
  if (with_cnd) nmtx = ctx.rng.chance(60) ? 1 : 2;
  waiters = with_cnd && ctx.rng.chance(60) ? ctx.rng.range(1, ex.n - 2) : 0;
  ex.run(ctx, ctx.rng.range(6, 22));
  ctx.count("max_explanations_seen_cases", ex.mon.max_seen > 1);
}
void end(Ctx&) { ex.w.shutdown(); }
}  // namespace

int main(int argc, char** argv) { return harness_main(argc, argv, run_case, begin, end); }
