// C36: events and latches at instruction granularity.
#include <a0/event.h>
#include <a0/latch.h>
#include <a0/time.h>

#include "explore.hpp"

namespace {
struct Shared {
  a0_event_t ev;
  a0_latch_t la;
};
Shared* sh;
Explorer ex;
int waiters = 0;
bool events = false;  // which of the two this case is about

enum { ISSET, SET, EWAIT, ETWAIT, TRYWAIT, DOWN, LWAIT, ARRIVE };
const char* kNames[] = {"is_set", "set", "event_wait", "event_timedwait", "try_wait", "count_down", "latch_wait", "arrive_and_wait"};
constexpr int64_t kEarly = 777777;

int64_t enc(a0_err_t e) {
  if (e == A0_OK) return 0;
  if (e == A0_ERR_SYS) return a0_err_syscode;
  return 100000 + e;
}

int64_t exec(int, int op, const int64_t* a, int64_t*) {
  a0_err_t e = A0_OK;
  bool b = false;
  switch (op) {
    case ISSET: e = a0_event_is_set(&sh->ev, &b); return e ? enc(e) : 1000 + b;
    case SET: e = a0_event_set(&sh->ev); break;
    case EWAIT: e = a0_event_wait(&sh->ev); break;
    case ETWAIT: {
      a0_time_mono_t now, d;
      a0_time_mono_now(&now);
      a0_time_mono_add(now, a[0] == 0 ? -5000000ll : a[0] == 1 ? 3000000ll : 1000000000000ll, &d);
      uint64_t dl = d.ts.tv_sec * 1000000000ull + d.ts.tv_nsec;
      e = a0_event_timedwait(&sh->ev, &d);
      if (e == A0_ERR_SYS && a0_err_syscode == ETIMEDOUT && now_ns() + 1000000 < dl) return kEarly;
      break;
    }
    case TRYWAIT: e = a0_latch_try_wait(&sh->la, &b); return e ? enc(e) : 1000 + b;
    case DOWN: e = a0_latch_count_down(&sh->la, a[0]); break;
    case LWAIT: e = a0_latch_wait(&sh->la); break;
    case ARRIVE: e = a0_latch_arrive_and_wait(&sh->la, a[0]); break;
  }
  return enc(e);
}

// State: 0 event set, 1 latch count.
void spec(const lin::State& s, int, const lin::Op& op, int phase, std::vector<lin::Outcome>& o) {
  lin::Outcome x;
  x.s = s;
  switch (op.code) {
    case ISSET:
      x.res = 1000 + s[0];
      o.push_back(x);
      break;
    case SET:
      x.s[0] = 1;
      o.push_back(x);
      break;
    case EWAIT:
      if (s[0]) o.push_back(x);
      break;
    case ETWAIT:
      if (s[0]) o.push_back(x);
      if (op.a[0] != 2) {
        x.res = ETIMEDOUT;
        if (!s[0]) o.push_back(x);
        else x.optional = true, o.push_back(x);
      }
      break;
    case TRYWAIT:
      x.res = 1000 + (s[1] <= 0);
      o.push_back(x);
      break;
    case DOWN:
      x.s[1] -= op.a[0];
      o.push_back(x);
      break;
    case LWAIT:
      if (s[1] <= 0) o.push_back(x);
      break;
    case ARRIVE:
      if (phase == 0) {
        x.s[1] -= op.a[0];
        x.done = false;
        x.phase = 1;
        o.push_back(x);
      } else if (s[1] <= 0) {
        o.push_back(x);
      }
      break;
  }
}

bool gen(Ctx& ctx, int me, lin::Op& op) {
  Rng& r = ctx.rng;
  const lin::State& s = ex.mon.cs.begin()->s;
  bool quick = me == ex.n - 1;
  if (events) {
    unsigned d = r.below(100);
    op.code = d < 15 ? ISSET : d < 45 ? EWAIT : d < 80 ? ETWAIT : SET;
    op.a[0] = r.below(3);
    if (quick && op.code == EWAIT) op.code = SET;
    if (quick && op.code == ETWAIT) op.a[0] = r.below(2);
    if (op.code == SET && !quick && r.chance(50)) op.code = ISSET;
  } else {
    unsigned d = r.below(100);
    op.code = d < 15 ? TRYWAIT : d < 45 ? DOWN : d < 70 ? LWAIT : ARRIVE;
    op.a[0] = r.chance(10) ? (int64_t)r.below(4) - 1 : 1;
    if (quick && op.code >= LWAIT) op.code = DOWN;
    // A count that has reached zero stays there or below.
    if (op.a[0] < 0 && s[1] <= 1) op.a[0] = 0;
    if (op.a[0] < 0)
      for (auto& c : ex.mon.cs)
        if (c.s[1] <= 6) op.a[0] = 1;
  }
  return true;
}
bool drain(Ctx&, int me, const lin::State& s, lin::Op& op) {
  if (me != ex.n - 1) return false;
  for (int i = 0; i < ex.n; i++) {
    if (ex.w.actors[i].st != act::St::Blocked) continue;
    int c = ex.mon.ops[i].code;
    if (c <= ETWAIT && !s[0]) {
      op.code = SET;
      return true;
    }
    if (c > ETWAIT && s[1] > 0) {
      op.code = DOWN;
      op.a[0] = s[1];
      return true;
    }
  }
  return false;
}
lin::State reset(Ctx& ctx) {
  memset((void*)sh, 0, sizeof(*sh));
  int v = ctx.rng.range(0, 6);
  a0_latch_init(&sh->la, v);
  return {0, v};
}
bool prelude(Ctx&, int k, int& who, lin::Op& op) {
  if (k >= waiters) return false;
  who = k;
  if (events) op.code = EWAIT;
  else op.code = LWAIT;
  return true;
}
void begin(Ctx& ctx) {
  sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  ex.exec = exec;
  ex.spec = spec;
  ex.death = [](const lin::State& s, int, bool, std::vector<lin::State>& o) { o.push_back(s); };
  ex.reset = reset;
  ex.gen = gen;
  ex.drain = drain;
  ex.prelude = prelude;
  ex.interrupts = true;
  ex.name = [](const lin::Op& op) { return strf("%s(%ld)", kNames[op.code], op.a[0]); };
  std::vector<bool> th;
  int n = 3 + ctx.worker % 4;
  for (int i = 0; i < n; i++) th.push_back((i + ctx.worker) % 3 == 0);
  reset(ctx);
  a0_event_set(&sh->ev);
  ex.start(th);
}
void run_case(Ctx& ctx) {
  ctx.desc("event and latch");
  events = ctx.rng.chance(50);
  waiters = ctx.rng.chance(60) ? ctx.rng.range(1, ex.n - 1) : 0;
  ex.run(ctx, ctx.rng.range(5, 20));
}
void end(Ctx&) { ex.w.shutdown(); }
}  // namespace

int main(int argc, char** argv) { return harness_main(argc, argv, run_case, begin, end); }
