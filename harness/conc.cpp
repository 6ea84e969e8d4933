// C05: concurrent writers and readers, stepped at instruction granularity (mode step) and
// running freely in threads and processes (mode stress).
#include <a0/time.h>

#include <atomic>
#include <thread>

#include "explore.hpp"
#include "tapi.hpp"

namespace {

constexpr int kCap = 4;
constexpr size_t kSize = 40;
constexpr size_t kArena = 144 + 80 * kCap + 1;
constexpr int kN = 6;

struct Shared {
  a0_transport_t h[kN];
  volatile int count[kN];
  alignas(64) uint8_t arena[1024];
};
Shared* sh;
Explorer ex;

enum { OPEN, WRITE, ABANDON, READ, BACK, SNAP, CLEAR };
const char* kNames[] = {"open", "write", "abandon", "read", "back", "snapshot", "clear"};
constexpr int64_t kTorn = 999999999, kBadWalk = 999999998;

int64_t enc(a0_err_t e) {
  if (e == A0_OK) return 0;
  if (e == A0_ERR_SYS) return a0_err_syscode;
  return 100000 + e;
}
int64_t shown(int64_t seq, int64_t tag) { return 1000000000 + seq * 1000000 + tag; }
int64_t snap_hash(uint64_t h, int64_t seq, int64_t tag) { return mix(h, shown(seq, tag)) & 0x3fffffffffffffffll; }

// The frame at the cursor, or kTorn.
int64_t look(a0_transport_locked_t lk) {
  a0_transport_frame_t* f;
  if (a0_transport_frame(lk, &f)) return kTorn;
  uint64_t tag;
  if (f->hdr.data_size != kSize) return kTorn;
  memcpy(&tag, f->data, 8);
  if (!check_pattern(f->data + 8, kSize - 8, tag)) return kTorn;
  return shown(f->hdr.seq, tag);
}

// a: 0 frames to write
int64_t exec(int me, int op, const int64_t* a, int64_t*) {
  a0_transport_t* tr = &sh->h[me];
  if (op == OPEN) {
    a0_transport_t fresh;
    int64_t r = enc(a0_transport_init(&fresh, {{sh->arena, kArena}, A0_ARENA_MODE_SHARED}));
    if (!r) *tr = fresh;
    return r;
  }
  a0_transport_locked_t lk;
  a0_err_t e = a0_transport_lock(tr, &lk);
  if (e) return 5000 + e;
  int64_t r = 0;
  switch (op) {
    case WRITE:
    case ABANDON:
      for (int i = 0; i < a[0] && !r; i++) {
        a0_transport_frame_t* f;
        r = enc(a0_transport_alloc(lk, kSize, &f));
        if (r) break;
        uint64_t tag = a[1] + i;
        memcpy(f->data, &tag, 8);
        fill_pattern(f->data + 8, kSize - 8, tag);
        if (op == WRITE) r = enc(a0_transport_commit(lk));
      }
      break;
    case READ:
      r = enc(a0_transport_step_next(lk));
      if (!r) r = look(lk);
      break;
    case BACK: {
      bool ok;
      a0_transport_iter_valid(lk, &ok);
      r = ok ? enc(a0_transport_step_prev(lk)) : -1;
      if (!r) r = look(lk);
      break;
    }
    case SNAP: {
      a0_transport_t keep = *tr;
      bool empty;
      a0_transport_empty(lk, &empty);
      uint64_t h = 1, lo, hi;
      a0_transport_seq_low(lk, &lo);
      a0_transport_seq_high(lk, &hi);
      if (!empty) {
        a0_transport_jump_head(lk);
        for (uint64_t s = lo;; s++) {
          int64_t x = look(lk);
          if (x == kTorn) r = kTorn;
          h = mix(h, x) & 0x3fffffffffffffffll;
          if (s == hi) break;
          if (a0_transport_step_next(lk)) {
            r = kBadWalk;
            break;
          }
        }
        bool more;
        a0_transport_has_next(lk, &more);
        if (more) r = kBadWalk;
      }
      if (!r) r = h;
      tr->_seq = keep._seq;
      tr->_off = keep._off;
      break;
    }
    case CLEAR: r = enc(a0_transport_clear(lk)); break;
  }
  e = a0_transport_unlock(lk);
  if (e) return 6000 + e;
  return r;
}

// State: 0 low, 1 high, 2.. tags of the frames (by seq % kCap), then a cursor per actor.
int TG(int64_t seq) { return 2 + seq % kCap; }
int CU(int me) { return 2 + kCap + me; }

void spec(const lin::State& s, int me, const lin::Op& op, int, std::vector<lin::Outcome>& o) {
  lin::Outcome x;
  x.s = s;
  bool empty = !s[1] || s[0] > s[1];
  auto evict_one = [&](int high) {
    // A frame that gets no room any more is gone even if the new one is never committed.
    if (x.s[0] && high - x.s[0] + 1 > kCap) x.s[0]++;
  };
  switch (op.code) {
    case OPEN: x.s[CU(me)] = 0; break;
    case WRITE:
      for (int i = 0; i < op.a[0]; i++) {
        x.s[1]++;
        if (!x.s[0]) x.s[0] = x.s[1];
        evict_one(x.s[1]);
        x.s[TG(x.s[1])] = op.a[1] + i;
      }
      break;
    case ABANDON: evict_one(x.s[1] + 1); break;
    case READ:
      if (empty || s[CU(me)] >= s[1]) x.res = 100000 + A0_ERR_RANGE;
      else {
        x.s[CU(me)] = std::max(s[CU(me)] + 1, s[0]);
        x.res = shown(x.s[CU(me)], s[TG(x.s[CU(me)])]);
      }
      break;
    case BACK:
      if (!s[CU(me)] || s[CU(me)] < s[0] || s[CU(me)] > s[1]) x.res = -1;
      else if (empty || s[CU(me)] <= s[0]) x.res = 100000 + A0_ERR_RANGE;
      else {
        x.s[CU(me)]--;
        x.res = shown(x.s[CU(me)], s[TG(x.s[CU(me)])]);
      }
      break;
    case SNAP: {
      uint64_t h = 1;
      if (!empty)
        for (int q = s[0]; q <= s[1]; q++) h = snap_hash(h, q, s[TG(q)]);
      x.res = h;
      break;
    }
    case CLEAR: x.s[0] = s[1] + 1; break;
  }
  o.push_back(x);
}

bool opened[kN];
int written[kN];
bool gen(Ctx& ctx, int me, lin::Op& op) {
  Rng& r = ctx.rng;
  unsigned d = r.below(100);
  if (!opened[me] || d < 4) {
    op.code = OPEN;
    opened[me] = true;
    return true;
  }
  if (d < 45) {
    op.code = WRITE;
    op.a[0] = r.chance(60) ? 1 : r.range(1, 6);
    op.a[1] = me * 100000 + written[me];
    written[me] += op.a[0];
  } else if (d < 50) {
    op.code = ABANDON;
    op.a[0] = 1;
    op.a[1] = 999000;
  } else if (d < 75) op.code = READ;
  else if (d < 80) op.code = BACK;
  else if (d < 95) op.code = SNAP;
  else op.code = CLEAR;
  return true;
}

lin::State reset(Ctx&) {
  memset((void*)sh, 0, sizeof(*sh));
  memset(opened, 0, sizeof(opened));
  memset(written, 0, sizeof(written));
  return lin::State(2 + kCap + kN, 0);
}

// Everybody takes a last look.
bool looked[kN];
bool drain(Ctx&, int me, const lin::State&, lin::Op& op) {
  if (looked[me] || !opened[me]) return false;
  looked[me] = true;
  op.code = SNAP;
  return true;
}

// ---- stress ----
constexpr int kMaxP = 8, kMaxW = 400, kMaxR = 20000;
struct WLog {
  std::atomic<uint32_t> n;
  uint64_t seq[kMaxW];
  uint32_t size[kMaxW];
};
struct RLog {
  std::atomic<uint32_t> n;
  struct {
    uint64_t seq;
    uint32_t who, cnt, size;
  } e[kMaxR];
};
struct Stress {
  std::atomic<uint32_t> go, ready, bad_gap, torn, order, cleared;
  std::atomic<uint64_t> detail[4];
  WLog w[kMaxP];
  RLog r[kMaxP];
  alignas(64) uint8_t arena[1 << 16];
};
Stress* st;

void participant(int me, bool writer, int n, size_t arena, uint64_t seed, bool cpp) {
  Rng g(seed);
  Tr t;
  st->ready++;
  while (!st->go) sched_yield();
  t.open({{st->arena, arena}, A0_ARENA_MODE_SHARED}, cpp);
  if (writer) {
    for (int i = 0; i < n; i++) {
      size_t size = 16 + (g.chance(80) ? g.below(80) : g.below(arena / 2));
      t.lock();
      a0_transport_frame_t* f;
      bool abandoned = false;
      if (!t.alloc(size, &f)) {
        uint32_t head[2] = {(uint32_t)me, (uint32_t)i};
        memcpy(f->data, head, 8);
        memcpy(f->data + 8, &size, 8);
        fill_pattern(f->data + 16, size - 16, me * 1000 + i);
        uint64_t seq = f->hdr.seq;
        if (g.chance(95)) {
          t.commit();
          st->w[me].seq[st->w[me].n] = seq;
          st->w[me].size[st->w[me].n] = i;
          st->w[me].n++;
        } else {
          abandoned = true;
        }
      }
      if (!abandoned && g.chance(1)) {
        t.clear();
        st->cleared++;
      }
      t.unlock();
      if (g.chance(20)) usleep(g.below(40));
    }
  } else {
    uint64_t last = 0;
    for (int i = 0; i < n * 6; i++) {
      t.lock();
      int burst = g.range(1, 3);
      while (burst-- && !t.step_next()) {
        a0_transport_frame_t* f;
        if (t.frame(&f)) {
          st->torn++;
          break;
        }
        uint32_t head[2];
        size_t size;
        memcpy(head, f->data, 8);
        memcpy(&size, f->data + 8, 8);
        uint64_t seq = f->hdr.seq, low;
        if (size != f->hdr.data_size || !check_pattern(f->data + 16, size - 16, head[0] * 1000 + head[1])) st->torn++;
        if (seq <= last) st->order++;
        t.seq_low(&low);
        if (seq != last + 1 && seq != low) {
          st->bad_gap++;
          st->detail[0] = last, st->detail[1] = seq, st->detail[2] = low;
        }
        last = seq;
        RLog& r = st->r[me];
        if (r.n < kMaxR) {
          auto& e = r.e[r.n];
          e.seq = seq, e.who = head[0], e.cnt = head[1], e.size = size;
          r.n++;
        }
      }
      t.unlock();
      if (g.chance(10)) usleep(g.below(60));
    }
  }
}

void stress_case(Ctx& ctx) {
  Rng& r = ctx.rng;
  ctx.desc("stress");
  memset((void*)st, 0, offsetof(Stress, w));
  for (int i = 0; i < kMaxP; i++) st->w[i].n = 0, st->r[i].n = 0;
  memset(st->arena, 0, sizeof(st->arena));
  size_t arena = r.chance(70) ? 512 + 16 * r.below(60) : r.range(2048, 65536);
  int np = r.range(2, kMaxP);
  std::vector<std::thread> th;
  std::vector<std::function<void()>> later;  // threads start once all processes are forked
  std::vector<pid_t> pids;
  std::string what;
  for (int i = 0; i < np; i++) {
    bool writer = i < 2 ? i == 0 : r.chance(55);
    bool proc = r.chance(40);
    uint64_t s = r.next();
    int n = r.range(20, kMaxW);
    bool cpp = r.chance(50);
    what += strf("%s%s%d ", proc ? "p" : "t", writer ? "W" : "R", n);
    if (proc) {
      pid_t p = fork();
      if (!p) {
        participant(i, writer, n, arena, s, cpp);
        _exit(0);
      }
      pids.push_back(p);
    } else {
      later.push_back([=] { participant(i, writer, n, arena, s, cpp); });
    }
  }
  for (auto& f : later) th.emplace_back(f);
  while (st->ready < (uint32_t)np) sched_yield();
  st->go = 1;
  for (auto& t : th) t.join();
  for (auto p : pids) {
    int w;
    waitpid(p, &w, 0);
    if (!WIFEXITED(w) || WEXITSTATUS(w)) ctx.fail("process-died", "a participant died");
  }
  CHECK_OR_FAIL(ctx, !st->torn, "torn", "a reader saw a frame that is not whole (arena %zu, %s)", arena, what.c_str());
  CHECK_OR_FAIL(ctx, !st->order, "order", "a reader went backwards (arena %zu, %s)", arena, what.c_str());
  CHECK_OR_FAIL(ctx, !st->bad_gap, "skipped", "a reader went from %lu to %lu with %lu available (arena %zu, %s)", (unsigned long)st->detail[0], (unsigned long)st->detail[1], (unsigned long)st->detail[2], arena, what.c_str());
  std::map<uint64_t, std::pair<int, int>> by_seq;
  uint64_t total = 0;
  for (int i = 0; i < np; i++)
    for (uint32_t k = 0; k < st->w[i].n; k++) {
      uint64_t q = st->w[i].seq[k];
      CHECK_OR_FAIL(ctx, by_seq.emplace(q, std::make_pair(i, (int)st->w[i].size[k])).second, "duplicate", "sequence number %lu was given twice", (unsigned long)q);
      CHECK_OR_FAIL(ctx, k == 0 || q > st->w[i].seq[k - 1], "writer-order", "a writer's frames are out of order");
      total++;
    }
  CHECK_OR_FAIL(ctx, by_seq.empty() || (by_seq.begin()->first == 1 && by_seq.rbegin()->first == total), "not-consecutive", "%lu frames but sequence numbers %lu..%lu", (unsigned long)total, (unsigned long)by_seq.begin()->first, (unsigned long)by_seq.rbegin()->first);
  uint64_t reads = 0;
  for (int i = 0; i < np; i++)
    for (uint32_t k = 0; k < st->r[i].n; k++) {
      auto& e = st->r[i].e[k];
      auto it = by_seq.find(e.seq);
      CHECK_OR_FAIL(ctx, it != by_seq.end() && it->second == std::make_pair((int)e.who, (int)e.cnt), "not-committed", "a reader saw frame %lu which is not what was committed under that number", (unsigned long)e.seq);
      reads++;
    }
  ctx.eval(total + reads);
  ctx.count("frames_written_concurrently", total);
  ctx.count("frames_read_concurrently", reads);
  if (!pids.empty() && reads) ctx.distinct(mix(hash_str(what), reads));
  ctx.sample(strf("arena %zu: %s-> %lu written, %lu read", arena, what.c_str(), (unsigned long)total, (unsigned long)reads));
}

void begin(Ctx& ctx) {
  if (ctx.mode == "stress") {
    st = (Stress*)mmap(0, sizeof(Stress), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    return;
  }
  sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  ex.exec = exec;
  ex.spec = spec;
  ex.death = [](const lin::State& s, int, bool, std::vector<lin::State>& o) { o.push_back(s); };
  ex.reset = reset;
  ex.gen = gen;
  ex.drain = drain;
  ex.name = [](const lin::Op& op) { return op.code == WRITE ? strf("write(%ld)", op.a[0]) : std::string(kNames[op.code]); };
  std::vector<bool> th;
  int n = 2 + ctx.worker % 4;
  for (int i = 0; i < n; i++) th.push_back((i + ctx.worker) % 3 == 0);
  reset(ctx);
  ex.start(th);
}
void run_case(Ctx& ctx) {
  if (ctx.mode == "stress") return stress_case(ctx);
  ctx.desc("stepped");
  memset(looked, 0, sizeof(looked));
  ex.run(ctx, ctx.rng.range(8, 40));
}
void end(Ctx& ctx) {
  if (ctx.mode != "stress") ex.w.shutdown();
}
}  // namespace

int main(int argc, char** argv) { return harness_main(argc, argv, run_case, begin, end); }
