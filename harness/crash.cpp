// C04: a process is killed at machine instructions of a write-path script; whoever comes
// next (a fresh opener, an existing handle, somebody blocked on the lock, a sleeping waiter)
// has to find one of the states the script passed through.
#include <dlfcn.h>

#include "actors.hpp"
#include "view.hpp"

namespace {

enum OpKind { OPEN, LOCK, ALLOC, COMMIT, CLEAR, UNLOCK, kKinds };
const char* kKindName[] = {"open", "lock", "alloc", "commit", "clear", "unlock"};
struct SOp {
  int kind;
  size_t size;
  uint64_t tag;
};
constexpr int kMaxOps = 24;
constexpr size_t kArenaMax = 3072;
constexpr size_t kData = 700;

struct Shared {
  SOp ops[kMaxOps];
  uint8_t data[kMaxOps][kData];
  int nops;
  volatile int milestone;  // operations that returned
  volatile int rc[kMaxOps];
  View wview, lview;
  volatile int werr, wpred, wready;
  size_t arena_size;
  int wkind;
  alignas(64) uint8_t arena[kArenaMax];
};
Shared* sh;
act::World w;

a0_arena_t arena() { return {{sh->arena, sh->arena_size}, A0_ARENA_MODE_SHARED}; }

enum { SCRIPT, WAITER, LOCKREAD };
a0_transport_t g_tr;  // the victim's handle, opened at the start of its script or before

// Operation `k` is single-stepped and stops before its instruction `n`.
int64_t run_script(bool opened, int k, uint64_t n) {
  a0_transport_t tr;
  a0_transport_locked_t lk{};
  a0_transport_frame_t* fr = nullptr;
  if (opened) {
    tr = g_tr;
    lk.transport = &tr;
  }
  for (int i = 0; i < sh->nops; i++) {
    a0_err_t e = A0_OK;
    const SOp& o = sh->ops[i];
    if (i == k) {
      act::tl_step.count = 0;
      act::tl_step.target = n;
      act::tl_step.active = true;
      act::tf_on();
    }
    switch (o.kind) {
      case OPEN: e = a0_transport_init(&tr, arena()); break;
      case LOCK: e = a0_transport_lock(&tr, &lk); break;
      case ALLOC:
        e = a0_transport_alloc(lk, o.size, &fr);
        if (!e) memcpy(fr->data, sh->data[i], o.size);
        break;
      case COMMIT: e = a0_transport_commit(lk); break;
      case CLEAR: e = a0_transport_clear(lk); break;
      case UNLOCK: e = a0_transport_unlock(lk); break;
    }
    sh->rc[i] = e;
    sh->milestone = i + 1;
    if (i == k) {
      act::tf_off();
      act::tl_step.active = false;
      w.slots[0].steps = act::tl_step.count;
    }
  }
  return 0;
}

enum { W_NEXT, W_NONEMPTY, W_EMPTY, kWKinds };

int64_t exec(int, int op, const int64_t* a, int64_t*) {
  if (op == SCRIPT) {
    return run_script(a[0], a[1], a[2]);
  }
  a0_transport_t tr;
  a0_transport_locked_t lk;
  if (op == LOCKREAD) {
    tr = g_tr;
    tr._arena = arena();
    if (a[0] && a0_transport_init(&tr, arena())) return 1;
    a0_transport_lock(&tr, &lk);
    collect(lk, &sh->lview);
    a0_transport_unlock(lk);
    return 0;
  }
  // WAITER: sleep until the condition holds, then say what is there.
  a0_err_t e = a0_transport_init(&tr, arena());
  if (e) return 1000 + e;
  e = a0_transport_lock(&tr, &lk);
  if (e) return 2000 + e;
  bool empty;
  a0_transport_empty(lk, &empty);
  if (!empty) a0_transport_jump_tail(lk);
  sh->wready = 1;
  a0_predicate_t p = sh->wkind == W_NEXT ? a0_transport_has_next_pred(&lk) : sh->wkind == W_NONEMPTY ? a0_transport_nonempty_pred(&lk) : a0_transport_empty_pred(&lk);
  sh->werr = a0_transport_wait(lk, p);
  bool sat = false;
  p.fn(p.user_data, &sat);
  sh->wpred = sat;
  collect(lk, &sh->wview);
  a0_transport_unlock(lk);
  return 0;
}

uint64_t next_tag = 1;

// The states a script passes through: chain[i] lists them for operation i, first = before it.
struct Chain {
  std::vector<std::vector<Model>> at;
  Model end;
};
Chain simulate(const Model& m0) {
  Chain c;
  Model m = m0;
  bool pending = false;
  Model::F pf{};
  for (int i = 0; i < sh->nops; i++) {
    const SOp& o = sh->ops[i];
    std::vector<Model> s{m};
    switch (o.kind) {
      case ALLOC: {
        size_t off;
        if (m.slot(o.size, &off)) {
          size_t n = m.evictions(off, o.size);
          for (size_t k = 0; k < n; k++) {
            m.evict(1);
            s.push_back(m);
          }
          pending = true;
          pf = {0, off, o.size, o.tag};
        }
        break;
      }
      case COMMIT:
        if (pending) m.append(pf.off, pf.size, pf.tag);
        pending = false;
        s.push_back(m);
        break;
      case CLEAR:
        m.clear();
        pending = false;
        s.push_back(m);
        break;
      case LOCK:
      case UNLOCK: pending = false; break;
    }
    c.at.push_back(s);
  }
  c.end = m;
  return c;
}

size_t pick_size(Rng& r) {
  switch (r.below(6)) {
    case 0: return 0;
    case 1: return r.below(16);
    case 2: return r.below(64);
    case 3: return 8 * r.below(20);
    case 4: return r.below(200);
    default: return std::min<size_t>(kData, r.below(sh->arena_size));
  }
}

// Writes through the survivor's own handle, keeping the model in step.
void survivor_write(Ctx& ctx, a0_transport_t* tr, Model& m, size_t size) {
  a0_transport_locked_t lk;
  CHECK_OR_FAIL(ctx, !a0_transport_lock(tr, &lk), "survivor-lock", "lock failed");
  a0_transport_frame_t* fr;
  a0_err_t e = a0_transport_alloc(lk, size, &fr);
  size_t off;
  bool fits = m.slot(size, &off);
  CHECK_OR_FAIL(ctx, fits == (e == A0_OK), "survivor-alloc", "alloc(%zu) gave %s, model says fits=%d", size, errname(e).c_str(), fits);
  if (fits) {
    m.evict(m.evictions(off, size));
    uint64_t tag = next_tag++;
    fill_pattern(fr->data, size, tag);
    m.append(off, size, tag);
    CHECK_OR_FAIL(ctx, !a0_transport_commit(lk), "survivor-commit", "commit failed");
  }
  CHECK_OR_FAIL(ctx, !a0_transport_unlock(lk), "survivor-unlock", "unlock failed");
}
View survivor_view(Ctx& ctx, a0_transport_t* tr) {
  View v;
  a0_transport_locked_t lk;
  CHECK_OR_FAIL(ctx, !a0_transport_lock(tr, &lk), "survivor-lock", "lock failed");
  collect(lk, &v);
  a0_transport_unlock(lk);
  return v;
}

void make_script(Ctx& ctx, bool open_first) {
  Rng& r = ctx.rng;
  int n = 0;
  auto add = [&](int k, size_t size = 0) {
    SOp& o = sh->ops[n];
    o = {k, size, 0};
    if (k == ALLOC) {
      o.tag = next_tag++;
      fill_pattern(sh->data[n], size, o.tag);
    }
    n++;
  };
  if (open_first) add(OPEN);
  int sections = r.range(1, 2);
  for (int s = 0; s < sections; s++) {
    add(LOCK);
    int k = r.range(1, 3);
    for (int i = 0; i < k; i++) {
      unsigned d = r.below(10);
      if (d < 7) add(ALLOC, pick_size(r)), add(COMMIT);
      else if (d < 8) add(CLEAR);
      else {
        add(ALLOC, pick_size(r));  // never committed
        break;
      }
    }
    add(UNLOCK);
  }
  sh->nops = n;
}

bool asleep(Ctx& ctx, int i) {
  w.settle(i);
  if (w.actors[i].st == act::St::Blocked) return true;
  if (w.actors[i].st == act::St::Idle) return false;
  ctx.harness_error("waiter neither asleep nor done");
}

// Waits until an actor finished or stopped; false when it sleeps for good.
bool wait_actor(int i) {
  uint64_t t0 = now_ns(CLOCK_MONOTONIC), nap = 20;
  if (w.actors[i].st == act::St::Blocked) w.actors[i].st = act::St::Running;
  for (;;) {
    if (w.finished(i) || w.slots[i].paused.load()) {
      w.settle(i);
      return true;
    }
    if (!w.thread_state(i)) {
      w.settle(i);
      return true;
    }
    if (now_ns(CLOCK_MONOTONIC) - t0 > 2000000000ull) {
      w.actors[i].st = act::St::Blocked;
      if (w.confirmed_stuck()) return false;
      w.actors[i].st = act::St::Running;
    }
    usleep(nap);
    if (nap < 2000) nap += nap / 4;
  }
}

struct Victim {
  bool opened_before;
  int waiter;      // -1 or kind
  bool locker;     // somebody blocks on the lock meanwhile
};

// Runs the script from the present arena to instruction `target`, kills, checks.
// Returns false when the script finished first (steps = its length).
bool crash_once(Ctx& ctx, const Victim& vc, const Chain& chain, const Model& m0, int kop, uint64_t target, uint64_t* steps, Model* out) {
  sh->milestone = 0;
  sh->wready = 0;
  sh->werr = -1;
  bool waiting = false;
  if (vc.waiter >= 0) {
    sh->wkind = vc.waiter;
    w.post(1, WAITER, {0, 0, 0, 0, 0, 0});
    waiting = asleep(ctx, 1);
  }
  w.post(0, SCRIPT, {vc.opened_before, kop, (int64_t)target, 0, 0, 0});
  act::St st = w.settle(0);
  if (st == act::St::Blocked && wait_actor(0)) st = w.actors[0].st;  // a woken waiter may hold the lock for a moment
  if (st == act::St::Blocked) ctx.fail("victim-blocked", "the script blocked although nobody holds the lock: " + strf("after %d ops", sh->milestone));
  bool killed = st == act::St::Paused;
  if (st == act::St::Dead) ctx.fail("victim-died", strf("the script died by itself after %d operations", sh->milestone));
  *steps = w.slots[0].steps;
  bool locking = false;
  uint64_t pc = w.slots[0].pc;
  Dl_info module{};
  if (dladdr((void*)pc, &module)) pc -= (uint64_t)module.dli_fbase;
  if (killed) {
    if (vc.locker) {
      w.post(2, LOCKREAD, {!vc.opened_before, 0, 0, 0, 0, 0});
      w.settle(2);
      locking = w.actors[2].st == act::St::Blocked;
    }
    w.kill_actor(0);
    w.spawn(0);
  }
  int ms = sh->milestone;
  for (int i = 0; i < ms; i++) {
    int want = A0_OK;
    if (sh->ops[i].kind == ALLOC) {
      size_t off;
      Model t = chain.at[i].back();
      if (!chain.at[i].front().slot(sh->ops[i].size, &off)) want = A0_ERR_FRAME_LARGE;
      (void)t;
    }
    CHECK_OR_FAIL(ctx, sh->rc[i] == want, "script-result", "operation %d (%s) returned %d, expected %d", i, kKindName[sh->ops[i].kind], sh->rc[i], want);
  }
  // The states that may be committed now.
  std::vector<Model> allowed;
  if (ms >= sh->nops) allowed.push_back(chain.end);
  else allowed = chain.at[ms];
  std::string where = strf("killed at instruction %lu (operation %d %s)", (unsigned long)target, ms, ms < sh->nops ? kKindName[sh->ops[ms].kind] : "end");
  // Somebody who was blocked on the lock gets it.
  if (killed && vc.locker) {
    if (!wait_actor(2)) {
      w.kill_actor(2);
      w.spawn(2);
      ctx.fail("locker-stuck", "a process blocked on the lock never got it: " + where);
    }
    if (locking) ctx.count("blocked_lockers_released");
    bool ok = false;
    // It may also have looked before the kill.
    for (auto& m : allowed) ok |= same(sh->lview, m);
    CHECK_OR_FAIL(ctx, ok, "locker-view", "%s; process taking over the lock sees %s; allowed e.g. %s", where.c_str(), show(sh->lview).c_str(), show(allowed[0]).c_str());
  }
  // A fresh opener, or a handle from before.
  a0_transport_t tr = g_tr;
  if (ctx.rng.chance(50) || !vc.opened_before) {
    a0_err_t e = a0_transport_init(&tr, arena());
    CHECK_OR_FAIL(ctx, !e, "survivor-open", "%s; open failed: %s", where.c_str(), errname(e).c_str());
  }
  View v = survivor_view(ctx, &tr);
  int match = -1;
  for (size_t i = 0; i < allowed.size(); i++)
    if (same(v, allowed[i])) match = i;
  if (match < 0) {
    std::string a;
    for (auto& m : allowed) a += " | " + show(m);
    ctx.fail("survivor-view:" + std::string(ms < sh->nops ? kKindName[sh->ops[ms].kind] : "end"), where + "; survivor sees " + show(v) + " ; allowed" + a);
  }
  Model m = allowed[match];
  std::vector<Model> later{m};
  int k = ctx.rng.below(3);
  for (int i = 0; i < k; i++) {
    Model before = m;
    size_t sz = pick_size(ctx.rng);
    size_t off;
    if (m.slot(sz, &off)) {
      size_t n = m.evictions(off, sz);
      Model t = m;
      for (size_t q = 0; q < n; q++) t.evict(1), later.push_back(t);
    }
    survivor_write(ctx, &tr, m, sz);
    later.push_back(m);
  }
  v = survivor_view(ctx, &tr);
  CHECK_OR_FAIL(ctx, same(v, m), "after-survivor-writes", "%s; after %d more writes sees %s; expected %s", where.c_str(), k, show(v).c_str(), show(m).c_str());
  if (vc.waiter >= 0) {
    // Make its condition true for sure, then it has to come back.
    for (int round = 0; round < 200 && !w.finished(1); round++) {
      if (vc.waiter == W_EMPTY) {
        a0_transport_locked_t lk;
        a0_transport_lock(&tr, &lk);
        a0_transport_clear(lk);
        a0_transport_unlock(lk);
        m.clear();
        later.push_back(m);
        break;
      }
      size_t sz = ctx.rng.below(8);
      size_t off;
      if (m.slot(sz, &off)) {
        size_t n = m.evictions(off, sz);
        Model t = m;
        for (size_t q = 0; q < n; q++) t.evict(1), later.push_back(t);
      }
      survivor_write(ctx, &tr, m, sz);
      later.push_back(m);
      if (round >= 1) break;
    }
    if (!wait_actor(1)) {
      w.kill_actor(1);
      w.spawn(1);
      ctx.fail("waiter-stuck", "a waiter whose condition became true never returned: " + where);
    }
    CHECK_OR_FAIL(ctx, w.slots[1].res == 0, "waiter-start", "waiter failed to start: %ld", w.slots[1].res);
    CHECK_OR_FAIL(ctx, sh->werr == A0_OK, "waiter-error", "%s; wait returned %d", where.c_str(), sh->werr);
    CHECK_OR_FAIL(ctx, sh->wpred, "waiter-condition", "%s; wait returned although its condition is false", where.c_str());
    // All states from the beginning of the script on.
    std::vector<Model> all;
    for (int i = 0; i <= ms && i < sh->nops; i++) all.insert(all.end(), chain.at[i].begin(), chain.at[i].end());
    if (ms >= sh->nops) all.push_back(chain.end);
    all.insert(all.end(), later.begin(), later.end());
    bool ok = false;
    for (auto& x : all) ok |= same(sh->wview, x);
    CHECK_OR_FAIL(ctx, ok, "waiter-view", "%s; woken waiter sees %s, which was never committed; state then %s", where.c_str(), show(sh->wview).c_str(), show(allowed[match]).c_str());
    if (waiting) ctx.count("sleeping_waiters_checked");
  }
  ctx.eval();
  if (killed) {
    ctx.count(std::string("killed_in_") + (ms < sh->nops ? kKindName[sh->ops[ms].kind] : "end"));
    if (allowed.size() > 1 || ms > 0)
      ctx.distinct(mix(mix(pc, ms < sh->nops ? sh->ops[ms].kind : 9), mix(mix(match, allowed.size()), vc.waiter + 10 * vc.locker)));
  }
  ctx.tick();
  if (out) *out = m;
  (void)m0;
  return killed;
}

std::vector<uint64_t> len[kKinds];

void run_case(Ctx& ctx) {
  Rng& r = ctx.rng;
  sh->arena_size = r.chance(50) ? r.range(400, 900) : r.range(400, kArenaMax);
  if (r.chance(60)) sh->arena_size &= ~7ull;
  memset(sh->arena, 0, sizeof(sh->arena));
  Model m;
  m.arena = sh->arena_size;
  m.start = m.hwm = Model::align(144);
  bool virgin = r.chance(10);
  ctx.desc("crash " + ctx.mode);
  if (!virgin) {
    CHECK_OR_FAIL(ctx, !a0_transport_init(&g_tr, arena()), "open", "open failed");
    int n = r.below(14);
    for (int i = 0; i < n; i++) survivor_write(ctx, &g_tr, m, pick_size(r));
  }
  // The actors work with the arena in place; the handle opened above is inherited.
  for (int i = 0; i < 3; i++) {
    w.kill_actor(i);
    w.spawn(i);
  }
  Victim vc;
  if (ctx.mode == "enum") {
    vc.opened_before = !virgin && r.chance(70);
    vc.waiter = r.chance(35) ? (int)r.below(kWKinds) : -1;
    vc.locker = r.chance(30);
    make_script(ctx, !vc.opened_before);
    Chain c = simulate(m);
    std::vector<uint8_t> snap(sh->arena, sh->arena + sh->arena_size);
    std::string s;
    for (int i = 0; i < sh->nops; i++) s += strf("%s%s ", kKindName[sh->ops[i].kind], sh->ops[i].kind == ALLOC ? strf("(%zu)", sh->ops[i].size).c_str() : "");
    ctx.log(strf("arena %zu frames %zu: %s waiter %d locker %d", sh->arena_size, m.frames.size(), s.c_str(), vc.waiter, vc.locker));
    uint64_t steps = 0, total = 0;
    for (int k = 0; k < sh->nops; k++) {
      uint64_t n = 1;
      for (;; n++) {
        memcpy(sh->arena, snap.data(), snap.size());
        if (!crash_once(ctx, vc, c, m, k, n, &steps, nullptr)) break;
      }
      total += n - 1;
    }
    ctx.count("scripts_enumerated");
    ctx.sample(ctx.trace + strf("-> killed at each of %lu instructions", (unsigned long)total));
    memset(sh->arena, 0, sizeof(sh->arena));
  } else {
    int rounds = r.range(3, 8);
    for (int i = 0; i < rounds; i++) {
      vc.opened_before = !virgin && r.chance(70);
      vc.waiter = r.chance(30) ? (int)r.below(kWKinds) : -1;
      vc.locker = r.chance(30);
      make_script(ctx, !vc.opened_before);
      Chain c = simulate(m);
      uint64_t steps;
      int kop = r.below(sh->nops);
      auto& seen = len[sh->ops[kop].kind];
      uint64_t target = 1 + r.below(seen.size() < 4 ? 200 : r.pick(seen) + 2);
      ctx.log(strf("[%d ops kill@%d.%lu]", sh->nops, kop, (unsigned long)target));
      if (!crash_once(ctx, vc, c, m, kop, target, &steps, &m)) {
        if (seen.size() < 16) seen.push_back(steps);
        else seen[r.below(16)] = steps;
      }
    }
    ctx.sample(ctx.trace);
  }
}

void begin(Ctx& ctx) {
  sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  sh->arena_size = 1000;
  a0_transport_init(&g_tr, arena());
  a0_transport_locked_t lk;
  a0_transport_lock(&g_tr, &lk);
  a0_transport_unlock(lk);
  w.init(3, exec, {false, false, false});
  (void)ctx;
}
void end(Ctx&) { w.shutdown(); }
}  // namespace

int main(int argc, char** argv) { return harness_main(argc, argv, run_case, begin, end); }
