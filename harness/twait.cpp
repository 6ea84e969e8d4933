// C06: waiting on a transport, timeouts and shutdown, at instruction granularity.
#include <a0/time.h>

#include "explore.hpp"
#include "tapi.hpp"

namespace {

constexpr int kCap = 3;  // frames that fit
constexpr size_t kSize = 8;
constexpr size_t kArena = 144 + 48 * kCap + 1;
constexpr int kH = 2;  // handles
constexpr int kN = 5;

struct Shared {
  a0_transport_t h[kH];
  volatile int inside[kH];  // calls to wait on each handle, counted under the lock
  alignas(64) uint8_t arena[1024];
};
Shared* sh;
Explorer ex;

enum { WAIT, TWAIT, BADTWAIT, WRITE, CLEAR, SHUTDOWN };
const char* kNames[] = {"wait", "timedwait", "badwait", "write", "clear", "shutdown"};
enum { P_EMPTY, P_NONEMPTY, P_NEXT, P_HIGH, P_LOW, kPreds };
const char* kPredNames[] = {"empty", "nonempty", "has_next", "high>=", "low>="};

constexpr int64_t kEarly = 777777, kFalse = 888888, kTorn = 999999, kInside = 666666;

int64_t enc(a0_err_t e) {
  if (e == A0_OK) return 0;
  if (e == A0_ERR_SYS) return a0_err_syscode;
  return 100000 + e;
}
int64_t seen(int64_t low, int64_t high) { return 1000000 + low * 1000 + high; }

struct PArg {
  a0_transport_locked_t* lk;
  int64_t kind, k;
};
a0_err_t pred_fn(void* p, bool* out) {
  PArg* a = (PArg*)p;
  uint64_t v = 0;
  a0_err_t e = a->kind == P_HIGH ? a0_transport_seq_high(*a->lk, &v) : a0_transport_seq_low(*a->lk, &v);
  *out = v >= (uint64_t)a->k;
  return e;
}

// a: 0 handle, 1 predicate, 2 parameter, 3 deadline kind
int64_t exec(int, int op, const int64_t* a, int64_t*) {
  a0_transport_t* tr = &sh->h[a[0]];
  a0_transport_locked_t lk;
  a0_err_t e = a0_transport_lock(tr, &lk);
  if (e) return 5000 + e;
  int64_t r = 0;
  switch (op) {
    case WRITE: {
      a0_transport_frame_t* f;
      e = a0_transport_alloc(lk, kSize, &f);
      if (!e) {
        uint64_t v = f->hdr.seq * 3;
        memcpy(f->data, &v, kSize);
        e = a0_transport_commit(lk);
      }
      r = enc(e);
      break;
    }
    case CLEAR: r = enc(a0_transport_clear(lk)); break;
    case SHUTDOWN:
      r = enc(a0_transport_shutdown(lk));
      if (sh->inside[a[0]]) r = kInside;
      break;
    default: {
      bool empty = true;
      if (a[1] == P_NEXT) {
        a0_transport_empty(lk, &empty);
        if (!empty) a0_transport_jump_tail(lk);
      }
      PArg pa{&lk, a[1], a[2]};
      a0_predicate_t p = a[1] == P_EMPTY ? a0_transport_empty_pred(&lk) : a[1] == P_NONEMPTY ? a0_transport_nonempty_pred(&lk) : a[1] == P_NEXT ? a0_transport_has_next_pred(&lk) : a0_predicate_t{&pa, pred_fn};
      uint64_t dl = 0;
      sh->inside[a[0]] = sh->inside[a[0]] + 1;
      if (op == WAIT) {
        e = a0_transport_wait(lk, p);
      } else {
        a0_time_mono_t now, d;
        a0_time_mono_now(&now);
        if (op == TWAIT) {
          a0_time_mono_add(now, a[3] == 0 ? -5000000ll : a[3] == 1 ? 3000000ll : 1000000000000ll, &d);
          dl = d.ts.tv_sec * 1000000000ull + d.ts.tv_nsec;
        } else {
          d = now;
          if (a[3] == 0) d.ts.tv_sec = -1;
          if (a[3] == 1) d.ts.tv_sec += 100, d.ts.tv_nsec = 1000000000;
          if (a[3] == 2) d.ts.tv_sec += 100, d.ts.tv_nsec = -1;
        }
        e = a0_transport_timedwait(lk, p, &d);
      }
      sh->inside[a[0]] = sh->inside[a[0]] - 1;
      r = enc(e);
      if (r == ETIMEDOUT && op == TWAIT && now_ns() + 1000000 < dl) r = kEarly;
      if (r == 0) {
        bool sat = false;
        p.fn(p.user_data, &sat);
        uint64_t lo, hi;
        a0_transport_seq_low(lk, &lo);
        a0_transport_seq_high(lk, &hi);
        r = sat ? seen(lo, hi) : kFalse;
        // What is there must be whole.
        bool em;
        a0_transport_empty(lk, &em);
        if (!em && a[1] != P_NEXT) {
          a0_transport_t keep = *tr;
          a0_transport_jump_tail(lk);
          a0_transport_frame_t* f;
          uint64_t v = 0;
          if (a0_transport_frame(lk, &f)) r = kTorn;
          else if (memcpy(&v, f->data, kSize), f->hdr.seq != hi || v != hi * 3) r = kTorn;
          tr->_seq = keep._seq;
          tr->_off = keep._off;
        }
      }
    }
  }
  e = a0_transport_unlock(lk);
  if (e) return 6000 + e;
  return r;
}

// State: 0 low, 1 high, then per handle {shutdown, waiters mask, cursor}.
int SD(int h) { return 2 + 3 * h; }
int WM(int h) { return 3 + 3 * h; }
int CU(int h) { return 4 + 3 * h; }

bool holds(const lin::State& s, const lin::Op& op) {
  bool empty = !s[1] || s[0] > s[1];
  switch (op.a[1]) {
    case P_EMPTY: return empty;
    case P_NONEMPTY: return !empty;
    case P_NEXT: return !empty && s[CU(op.a[0])] < s[1];
    case P_HIGH: return s[1] >= op.a[2];
    default: return s[0] >= op.a[2];
  }
}

void spec(const lin::State& s, int me, const lin::Op& op, int phase, std::vector<lin::Outcome>& o) {
  int h = op.a[0];
  lin::Outcome x;
  x.s = s;
  switch (op.code) {
    case WRITE:
      x.s[1]++;
      if (!x.s[0]) x.s[0] = x.s[1];
      if (x.s[1] - x.s[0] + 1 > kCap) x.s[0]++;
      o.push_back(x);
      return;
    case CLEAR:
      x.s[0] = s[1] + 1;
      o.push_back(x);
      return;
    case SHUTDOWN:
      if (phase == 0) {
        x.s[SD(h)] = 1;
        x.done = false;
        x.phase = 1;
        o.push_back(x);
      } else if (!s[WM(h)]) {
        o.push_back(x);
      }
      return;
  }
  if (phase == 0) {
    if (op.a[1] == P_NEXT && s[1] && s[0] <= s[1]) x.s[CU(h)] = s[1];
    if (s[SD(h)]) {
      x.res = ESHUTDOWN;
      o.push_back(x);
      return;
    }
    bool expired_ok = op.code == TWAIT && op.a[3] != 2;
    if (holds(x.s, op)) {
      lin::Outcome y = x;
      y.res = seen(s[0], s[1]);
      o.push_back(y);
      if (expired_ok) y.res = ETIMEDOUT, o.push_back(y);
      return;
    }
    if (op.code == BADTWAIT) {
      x.res = EINVAL;
      o.push_back(x);
      return;
    }
    if (expired_ok) {
      lin::Outcome y = x;
      y.res = ETIMEDOUT;
      o.push_back(y);
    }
    if (op.code == TWAIT && op.a[3] == 0) return;  // certainly expired
    x.s[WM(h)] |= 1 << me;
    x.done = false;
    x.phase = 1;
    o.push_back(x);
    return;
  }
  x.s[WM(h)] &= ~(1 << me);
  if (s[SD(h)]) {
    x.res = ESHUTDOWN;
    o.push_back(x);
  }
  if (holds(s, op)) {
    x.res = seen(s[0], s[1]);
    o.push_back(x);
  }
  if (op.code == TWAIT && op.a[3] == 1) {
    x.res = ETIMEDOUT;
    o.push_back(x);
  }
}

bool nonblocking(int me) { return me == ex.n - 1; }

bool gen(Ctx& ctx, int me, lin::Op& op) {
  Rng& r = ctx.rng;
  op.a[0] = me % kH;
  unsigned d = r.below(100);
  const lin::State& s = ex.mon.cs.begin()->s;
  if (nonblocking(me)) d = 55 + r.below(40);
  if (d < 55) {
    op.code = r.chance(60) ? WAIT : TWAIT;
    op.a[1] = r.below(kPreds);
    // The cursor belongs to the handle; only one actor may move it.
    if (op.a[1] == P_NEXT && me >= kH) op.a[1] = P_NONEMPTY;
    op.a[2] = (op.a[1] == P_HIGH ? s[1] : s[0]) + r.range(0, 3);
    op.a[3] = r.below(3);
  } else if (d < 78) {
    op.code = WRITE;
  } else if (d < 90) {
    op.code = CLEAR;
  } else if (d < 95) {
    op.code = BADTWAIT;
    op.a[1] = r.below(kPreds);
    if (op.a[1] == P_NEXT) op.a[1] = P_NONEMPTY;
    op.a[2] = (op.a[1] == P_HIGH ? s[1] : s[0]) + r.range(0, 3);
    op.a[3] = r.below(3);
  } else {
    op.code = SHUTDOWN;
    // Blocks until the waiters are gone, which they will be.
  }
  return true;
}

// Whoever still waits is satisfied, at the latest, by being shut down.
bool drain(Ctx&, int me, const lin::State& s, lin::Op& op) {
  if (me != ex.n - 1) return false;
  for (int i = 0; i < ex.n; i++) {
    int h = ex.mon.ops[i].a[0];
    if (ex.w.actors[i].st != act::St::Blocked || s[SD(h)]) continue;
    op.a[0] = h;
    op.code = SHUTDOWN;
    return true;
  }
  return false;
}

lin::State reset(Ctx& ctx) {
  memset((void*)sh, 0, sizeof(*sh));
  a0_arena_t ar{{sh->arena, kArena}, A0_ARENA_MODE_SHARED};
  for (int h = 0; h < kH; h++)
    if (a0_transport_init(&sh->h[h], ar)) ctx.harness_error("init");
  lin::State s(2 + 3 * kH, 0);
  lin::Op w;
  w.code = WRITE;
  int n = ctx.rng.below(5);
  for (int i = 0; i < n; i++) {
    int64_t a[6] = {0};
    exec(0, WRITE, a, nullptr);
    std::vector<lin::Outcome> o;
    spec(s, 0, w, 0, o);
    s = o[0].s;
  }
  return s;
}

int waiters = 0;
bool prelude(Ctx& ctx, int k, int& who, lin::Op& op) {
  if (k >= waiters) return false;
  who = k;
  for (int i = 0; i < 20; i++) {
    op = lin::Op();
    if (gen(ctx, who, op) && op.code == WAIT) return true;
  }
  op.code = WRITE;
  return true;
}

void begin(Ctx& ctx) {
  sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  ex.exec = exec;
  ex.spec = spec;
  ex.death = [](const lin::State& s, int, bool, std::vector<lin::State>& o) { o.push_back(s); };
  ex.reset = reset;
  ex.gen = gen;
  ex.drain = drain;
  ex.prelude = prelude;
  ex.interrupts = true;
  ex.name = [](const lin::Op& op) {
    if (op.code >= WRITE) return strf("%s(h%ld)", kNames[op.code], op.a[0]);
    return strf("%s(h%ld,%s,%ld,%ld)", kNames[op.code], op.a[0], kPredNames[op.a[1]], op.a[2], op.a[3]);
  };
  std::vector<bool> th;
  int n = 3 + ctx.worker % 3;
  for (int i = 0; i < n; i++) th.push_back((i + ctx.worker) % 3 == 0);
  reset(ctx);
  ex.start(th);
}

void run_case(Ctx& ctx) {
  ctx.desc("transport wait");
  waiters = ctx.rng.chance(60) ? ctx.rng.range(1, ex.n - 1) : 0;
  ex.run(ctx, ctx.rng.range(5, 20));
}
void end(Ctx&) { ex.w.shutdown(); }
}  // namespace

int main(int argc, char** argv) { return harness_main(argc, argv, run_case, begin, end); }
