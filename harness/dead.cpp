// C14 (holding and waiting) and C15 (tokens) of the dead-man's switch.
#include <a0/deadman.h>
#include <a0/deadman.hpp>
#include <a0/deadman_mtx.h>
#include <a0/time.h>
#include <a0/time.hpp>

#include <memory>
#include <stdexcept>

#include "explore.hpp"

namespace {

constexpr int kMaxN = 6;
struct Shared {
  a0_deadman_mtx_shared_token_t tk;
  a0_deadman_t dm[2 * kMaxN];  // two handles per actor
  a0_deadman_mtx_t& d(int i) { return dm[i]._deadman_mtx; }
};
a0::Deadman* xx;  // the same handles for the C++ interface
Shared* sh;
Explorer ex;
bool token_mode = false;
int waiters = 0;

enum { LOCK, TRY, TIMED, UNLOCK, WLOCKED, TWLOCKED, WUNLOCKED, TWUNLOCKED, STATE, SHUTDOWN };
const char* kNames[] = {"lock", "trylock", "timedlock", "unlock", "wait_locked", "timedwait_locked", "wait_unlocked", "timedwait_unlocked", "state", "shutdown"};
constexpr int64_t kEarly = 777777;

int64_t enc(a0_err_t e) {
  if (e == A0_OK) return 0;
  if (e == A0_ERR_SYS) return a0_err_syscode;
  return 100000 + e;
}
int64_t enc_state(bool locked, bool mine, int owner, int64_t tkn) { return 1000000 + tkn * 100 + (owner + 2) * 4 + locked * 2 + mine; }

int64_t exec_cpp(a0::Deadman& d, int op, const int64_t* a, const a0_time_mono_t* dl, uint64_t* tkn, a0::Deadman::State* st) {
  a0_err_syscode = 0;
  try {
    a0::TimeMono t;
    if (dl) t.c = std::make_shared<a0_time_mono_t>(*dl);
    switch (op) {
      case LOCK: d.take(); break;
      case TRY: return d.try_take() ? 0 : 1;
      case TIMED: d.take(t); break;
      case UNLOCK: d.release(); break;
      case WLOCKED: *tkn = d.wait_taken(); break;
      case TWLOCKED: *tkn = d.wait_taken(t); break;
      case WUNLOCKED: d.wait_released(a[2]); break;
      case TWUNLOCKED: d.wait_released(a[2], t); break;
      case STATE: *st = d.state(); break;
    }
    return 0;
  } catch (const std::runtime_error& e) {
    return strcmp(e.what(), strerror(a0_err_syscode)) ? 200000 : a0_err_syscode;
  }
}

// a: 0 handle, 1 deadline kind, 2 token, 5 interface: 0 the lock itself, 1 C, 2 C++
int64_t exec(int, int op, const int64_t* a, int64_t*) {
  a0_deadman_t* t = &sh->dm[a[0]];
  a0_deadman_mtx_t* d = &t->_deadman_mtx;
  int iface = op == SHUTDOWN ? 0 : a[5];
  a0_time_mono_t now, dl;
  uint64_t dn = 0;
  if (op == TIMED || op == TWLOCKED || op == TWUNLOCKED) {
    a0_time_mono_now(&now);
    a0_time_mono_add(now, a[1] == 0 ? -5000000ll : a[1] == 1 ? 3000000ll : 1000000000000ll, &dl);
    dn = dl.ts.tv_sec * 1000000000ull + dl.ts.tv_nsec;
  }
  uint64_t tkn = 0;
  int64_t res = 0;
  a0_deadman_state_t st = {};
  if (iface == 2) {
    a0::Deadman::State xst = {};
    res = exec_cpp(xx[a[0]], op, a, dn ? &dl : nullptr, &tkn, &xst);
    st.is_locked = xst.is_taken;
    st.is_owner = xst.is_owner;
    st.owner_tid = xst.owner_tid;
    st.tkn = xst.tkn;
  } else {
    a0_err_t e = A0_OK;
    switch (op) {
      case LOCK: e = iface ? a0_deadman_take(t) : a0_deadman_mtx_lock(d); break;
      case TRY: e = iface ? a0_deadman_trytake(t) : a0_deadman_mtx_trylock(d); break;
      case TIMED: e = iface ? a0_deadman_timedtake(t, &dl) : a0_deadman_mtx_timedlock(d, &dl); break;
      case UNLOCK: e = iface ? a0_deadman_release(t) : a0_deadman_mtx_unlock(d); break;
      case WLOCKED: e = iface ? a0_deadman_wait_taken(t, &tkn) : a0_deadman_mtx_wait_locked(d, &tkn); break;
      case TWLOCKED: e = iface ? a0_deadman_timedwait_taken(t, &dl, &tkn) : a0_deadman_mtx_timedwait_locked(d, &dl, &tkn); break;
      case WUNLOCKED: e = iface ? a0_deadman_wait_released(t, a[2]) : a0_deadman_mtx_wait_unlocked(d, a[2]); break;
      case TWUNLOCKED: e = iface ? a0_deadman_timedwait_released(t, &dl, a[2]) : a0_deadman_mtx_timedwait_unlocked(d, &dl, a[2]); break;
      case SHUTDOWN: e = a0_deadman_mtx_shutdown(d); break;
      case STATE: e = iface ? a0_deadman_state(t, &st) : a0_deadman_mtx_state(d, &st); break;
    }
    res = enc(e);
  }
  if (op == STATE && !res) {
    int owner = -1;
    if (st.owner_tid) {
      owner = -2;
      for (int i = 0; i < ex.n; i++)
        if (ex.w.slots[i].tid.load() == (int)st.owner_tid) owner = i;
    }
    return enc_state(st.is_locked, st.is_owner, owner, st.tkn);
  }
  if (dn && res == ETIMEDOUT && now_ns() + 1000000 < dn) return kEarly;
  if (!res && (op == WLOCKED || op == TWLOCKED)) return 1000 + tkn;
  return res;
}

// State: 0 owner handle + 1, 1 previous owner died, 2 token, 3 mask of shut down handles,
// 4 being taken (others find it busy, but the new period has not begun yet), 5 .. who had
// the last eight periods.
bool known_missed(const lin::State& s, const lin::Op& op) {
  return s[0] && !s[4] && s[2] > op.a[2] && s[2] < op.a[2] + 8 && s[5 + op.a[2] % 8] == s[5 + s[2] % 8] && op.a[2] >= op.a[3];
}

void spec_c(const lin::State& s, int me, const lin::Op& op, int phase, std::vector<lin::Outcome>& o) {
  int h = op.a[0];
  lin::Outcome x;
  x.s = s;
  bool down = s[3] & (1 << h);
  bool locked = s[0] && !s[4];
  bool short_dl = (op.code == TIMED || op.code == TWLOCKED || op.code == TWUNLOCKED) && op.a[1] != 2;
  switch (op.code) {
    case LOCK:
    case TRY:
    case TIMED:
      if (phase) {
        x.res = phase - 1;
        x.s[4] = 0;
        x.s[2]++;
        x.s[5 + x.s[2] % 8] = me + 1;
        o.push_back(x);
        return;
      }
      if (s[0] == h + 1) {
        o.push_back(x);
        return;
      }
      if (down) {
        x.res = ESHUTDOWN;
        o.push_back(x);
        if (op.a[4]) return;  // it was shut down before the call
        x.res = 0;
      }
      if (s[0] && (s[0] - 1) / 2 == me) {
        x.res = EDEADLK;
        o.push_back(x);
        return;
      }
      if (!s[0]) {
        x.s[0] = h + 1;
        x.s[1] = 0;
        x.s[4] = 1;
        x.done = false;
        x.phase = 1 + (s[1] ? EOWNERDEAD : 0);
        o.push_back(x);
        return;
      }
      if (op.code == TRY) x.res = EBUSY, o.push_back(x);
      else if (short_dl) x.res = ETIMEDOUT, o.push_back(x);
      return;
    case UNLOCK:
      if (s[0] != h + 1) {
        x.res = EPERM;
      } else {
        x.s[0] = 0;
        x.s[1] = 0;
      }
      o.push_back(x);
      return;
    case WLOCKED:
    case TWLOCKED:
      if (locked) {
        lin::Outcome y = x;
        y.res = 1000 + s[2];
        o.push_back(y);
      } else {
        if (down) x.res = ESHUTDOWN, o.push_back(x);
        if (short_dl) x.res = ETIMEDOUT, o.push_back(x);
      }
      return;
    case WUNLOCKED:
    case TWUNLOCKED:
      if (!locked || s[2] != op.a[2]) {
        // Known: it may miss that the same thread let go and took it again.
        x.optional = known_missed(s, op);
        o.push_back(x);
        bool missed = x.optional;
        x.optional = false;
        if (missed && short_dl) x.res = ETIMEDOUT, o.push_back(x);
        if (missed && down) x.res = ESHUTDOWN, o.push_back(x);
      } else {
        if (down) x.res = ESHUTDOWN, o.push_back(x);
        if (short_dl) x.res = ETIMEDOUT, o.push_back(x);
      }
      return;
    case STATE:
      x.res = enc_state(locked, s[0] == h + 1, locked ? (s[0] - 1) / 2 : -1, locked ? s[2] : 0);
      o.push_back(x);
      return;
    case SHUTDOWN:
      x.s[3] |= 1 << h;
      o.push_back(x);
      return;
  }
}

// The C++ interface does not tell that the previous holder died, and nothing about failing attempts.
void spec(const lin::State& s, int me, const lin::Op& op, int phase, std::vector<lin::Outcome>& o) {
  size_t from = o.size();
  spec_c(s, me, op, phase, o);
  if (op.a[5] != 2 || op.code == STATE || op.code == SHUTDOWN) return;
  for (size_t i = from; i < o.size(); i++) {
    if (!o[i].done) continue;
    if (o[i].res == EOWNERDEAD) o[i].res = 0;
    if (op.code == TRY && o[i].res) o[i].res = 1;
  }
}

void death(const lin::State& s, int me, bool, std::vector<lin::State>& o) {
  lin::State t = s;
  t[3] &= ~(3 << (2 * me));
  if (s[0] && (s[0] - 1) / 2 == me) {
    t[0] = 0;
    t[1] = 1;
    if (t[4]) {
      t[4] = 0;
      o.push_back(t);
      t[2]++;  // died between giving it the number and letting others see it
    }
  }
  o.push_back(t);
}

bool settled_world() {
  for (auto& a : ex.w.actors)
    if (a.st != act::St::Idle && a.st != act::St::Blocked) return false;
  return true;
}

bool gen(Ctx& ctx, int me, lin::Op& op) {
  Rng& r = ctx.rng;
  const lin::State& s = ex.mon.cs.begin()->s;
  bool mine = s[0] && (s[0] - 1) / 2 == me;
  bool quick = me == ex.n - 1;
  op.a[0] = 2 * me + (r.chance(15) ? 1 : 0);
  op.a[1] = quick ? r.below(2) : r.below(3);
  op.a[2] = std::max<int64_t>(0, s[2] - (r.chance(70) ? 0 : r.below(3)));
  op.a[4] = 1;
  op.a[5] = r.below(3);
  for (auto& c : ex.mon.cs)
    if (!(c.s[3] & (1 << op.a[0]))) op.a[4] = 0;
  op.a[3] = ex.mon.cs.begin()->s[2];
  for (auto& c : ex.mon.cs) op.a[3] = std::min<int64_t>(op.a[3], c.s[2]);
  // A token nobody can have been given yet is no use.
  op.a[2] = std::min(op.a[2], op.a[3]);
  if (mine && r.chance(55)) {
    op.code = UNLOCK;
    if (r.chance(90)) op.a[0] = s[0] - 1;
    return true;
  }
  unsigned d = r.below(100);
  if (token_mode) op.code = d < 20 ? LOCK : d < 30 ? TRY : d < 35 ? TIMED : d < 40 ? UNLOCK : d < 55 ? WLOCKED : d < 63 ? TWLOCKED : d < 80 ? WUNLOCKED : d < 88 ? TWUNLOCKED : STATE;
  else op.code = d < 30 ? LOCK : d < 45 ? TRY : d < 57 ? TIMED : d < 62 ? UNLOCK : d < 72 ? WLOCKED : d < 77 ? TWLOCKED : d < 87 ? WUNLOCKED : d < 92 ? TWUNLOCKED : d < 95 ? STATE : SHUTDOWN;
  if (quick) {
    if (op.code == LOCK) op.code = TRY;
    if (op.code == WLOCKED) op.code = TWLOCKED;
    if (op.code == WUNLOCKED) op.code = TWUNLOCKED;
  }
  if (op.code == STATE && !settled_world()) op.code = TRY;
  if (op.code == SHUTDOWN) {
    if (ex.kills || !quick) return false;
    // A handle is private to its actor, except for being shut down from elsewhere.
    op.a[0] = r.below(2 * ex.n);
    if (ex.w.actors[op.a[0] / 2].st == act::St::Paused) return false;
  }
  // Waiting for oneself never ends.
  if (op.code == WUNLOCKED || (op.code == TWUNLOCKED && op.a[1] == 2))
    for (auto& c : ex.mon.cs)
      if (c.s[0] && (c.s[0] - 1) / 2 == me) return false;
  return true;
}

bool noted = false;
void note_known(Ctx& ctx) {
  if (noted || ex.mon.overflow) return;
  for (int i = 0; i < ex.n; i++) {
    if (ex.w.actors[i].st != act::St::Blocked) continue;
    const lin::Op& op = ex.mon.ops[i];
    if (op.code != WUNLOCKED && op.code != TWUNLOCKED) continue;
    bool all = true;
    for (auto& c : ex.mon.cs)
      if (c.p[i].active && !c.p[i].applied && !known_missed(c.s, op)) all = false;
    if (!all || noted || !ex.w.confirmed_stuck(1000000000ull)) continue;
    noted = true;
    ctx.known_violation("asleep-past-period:same-thread-retook", "a wait for the end of a period sleeps on while the same thread, which let go and took it again before the waiter fell asleep, holds it");
  }
}

bool drain(Ctx& ctx, int me, const lin::State& s, lin::Op& op) {
  note_known(ctx);
  if (s[0]) {
    if ((s[0] - 1) / 2 != me) return false;
    op.code = UNLOCK;
    op.a[0] = s[0] - 1;
    return true;
  }
  if (me != ex.n - 1) return false;
  for (int i = 0; i < ex.n; i++) {
    if (ex.w.actors[i].st != act::St::Blocked) continue;
    op.code = TRY;
    op.a[0] = 2 * me;
    if (s[3] & (1 << op.a[0])) {
      if (s[3] & (2 << op.a[0])) {  // both of ours are shut down: do the same to the sleeper
        op.code = SHUTDOWN;
        op.a[0] = ex.mon.ops[i].a[0];
        return true;
      }
      op.a[0]++;
    }
    return true;
  }
  return false;
}

lin::State reset(Ctx& ctx) {
  memset((void*)sh, 0, sizeof(*sh));
  sh->tk._tkn = ctx.rng.below(4);
  for (int i = 0; i < 2 * kMaxN; i++) a0_deadman_mtx_init(&sh->d(i), &sh->tk);
  return {0, 0, (int)sh->tk._tkn, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0};
}
bool prelude(Ctx& ctx, int k, int& who, lin::Op& op) {
  if (!waiters || k > waiters) return false;
  const lin::State& s = ex.mon.cs.begin()->s;
  if (k == 0) {  // somebody holds it, or nobody
    who = ctx.rng.below(ex.n);
    op.code = TRY;
    op.a[0] = 2 * who;
    if (ctx.rng.chance(20)) op.code = UNLOCK;
    return true;
  }
  who = k - 1;
  op.a[0] = 2 * who;
  op.a[2] = op.a[3] = s[2];
  if (s[0] && (s[0] - 1) / 2 == who) {
    op.code = TRY;
    return true;
  }
  op.code = ctx.rng.chance(40) ? LOCK : s[0] ? WUNLOCKED : WLOCKED;
  return true;
}
void begin(Ctx& ctx) {
  sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  xx = new a0::Deadman[2 * kMaxN];
  for (int i = 0; i < 2 * kMaxN; i++) xx[i].c = std::shared_ptr<a0_deadman_t>(&sh->dm[i], [](a0_deadman_t*) {});
  ex.exec = exec;
  ex.spec = spec;
  ex.death = death;
  ex.reset = reset;
  ex.gen = gen;
  ex.drain = drain;
  ex.prelude = prelude;
  ex.kills = ctx.mode.find("death") != std::string::npos;
  ex.idle_kill_pct = 12;
  token_mode = ctx.mode.find("token") != std::string::npos;
  ex.may_spin = [](const lin::Op& op) { return op.code == SHUTDOWN; };
  // The state is documented as racy. C++ calls allocate, and nobody may be stopped while doing that.
  ex.whole = [](const lin::Op& op) { return op.code == STATE || op.a[5] == 2; };
  ex.after_kill = [](Ctx&, int i) {
    a0_deadman_mtx_init(&sh->d(2 * i), &sh->tk);
    a0_deadman_mtx_init(&sh->d(2 * i + 1), &sh->tk);
  };
  ex.name = [](const lin::Op& op) { return strf("%s%s(h%ld,%ld,%ld)", kNames[op.code], op.a[5] == 2 ? "++" : op.a[5] ? "" : "-mtx", op.a[0], op.a[1], op.a[2]); };
  std::vector<bool> th;
  int n = 3 + ctx.worker % 3;
  for (int i = 0; i < n; i++) th.push_back((i + ctx.worker) % (ex.kills ? 4 : 3) == 0);
  reset(ctx);
  a0_deadman_mtx_lock(&sh->d(0));
  a0_deadman_mtx_unlock(&sh->d(0));
  ex.start(th);
}
void run_case(Ctx& ctx) {
  ctx.desc("deadman " + ctx.mode);
  waiters = ctx.rng.chance(60) ? ctx.rng.range(1, ex.n - 1) : 0;
  ex.run(ctx, ctx.rng.range(5, 20));
}
void end(Ctx&) { ex.w.shutdown(); }
}  // namespace

int main(int argc, char** argv) { return harness_main(argc, argv, run_case, begin, end); }
