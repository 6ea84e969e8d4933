// C01 (contents), C02 (accounting), C03 (cursors): random single-threaded histories on
// an exactly sized heap arena, checked after every step against the model.
#include "world.hpp"

namespace {

void run_case(Ctx& ctx) {
  World w(ctx);
  w.mode = ctx.mode;
  Rng& r = ctx.rng;
  size_t sizes[] = {300, 512, 700, 1024, 1500, 2048, 4096, 9000};
  w.mem_size = 200 + r.below(sizes[r.below(8)]);
  if (r.chance(3)) w.mem_size = 70000 + r.below(200000);
  w.mem = (uint8_t*)aligned_alloc(16, (w.mem_size + 15) / 16 * 16);
  if (w.mem_size % 16) {  // keep exact bounds visible to the address checker
    free(w.mem);
    w.mem = (uint8_t*)malloc(w.mem_size);
  }
  memset(w.mem, 0, w.mem_size);
  ctx.desc(strf("ring %s | arena %zu", w.mode.c_str(), w.mem_size));
  a0_arena_mode_t md = A0_ARENA_MODE_SHARED;
  w.open_handle(md);
  w.m.arena = w.mem_size;
  {
    size_t z = 0;
    w.h[0]->lock();
    w.h[0]->used_space(&z);
    w.h[0]->unlock();
    w.m.start = w.m.hwm = z;
    CHECK_OR_FAIL(ctx, z >= 64 && z <= 200, "fresh-used-space", "fresh transport uses %zu bytes", z);
  }
  ctx.log(strf("arena=%zu", w.mem_size));
  if (w.mode != "account" && r.chance(12)) {
    // Go on from a topic of the previous format that was cleared after very many writes.
    delete w.h[0];
    w.h.clear();
    w.cur.clear();
    memset(w.mem, 0, w.mem_size);
    uint64_t high = (1ull << r.range(7, 62)) - r.below(30), low = high + 1;
    w.mem[0] = w.mem[1] = 1;
    memcpy(w.mem + 56, &low, 8);
    memcpy(w.mem + 64, &high, 8);
    memcpy(w.mem + 128, &w.mem_size, 8);
    w.m.seq_high = high, w.m.seq_low = low;
    w.m.hwm = w.mem_size;
    w.open_handle(md);
    ctx.log(strf("after=%lu", high));
    ctx.count("high_sequences");
  }
  size_t nh = w.mode == "cursor" ? r.range(2, 4) : r.range(1, 2);
  for (size_t i = 1; i < nh + 1; i++) w.open_handle(md);
  // The last handle is the one that verifies; the others write and hold cursors.
  size_t steps = r.range(8, ctx.thorough ? 160 : 80);
  if (r.below(400) == 0) steps = 3000;
  for (size_t s = 0; s < steps; s++) {
    size_t vi = w.h.size() - 1;
    size_t i = r.below(vi);
    w.step(i, r, md);
  }
  ctx.count("frames_evicted", w.evicted);
  ctx.count("wraps", w.wraps);
  ctx.count("stale_cursor_checks", w.stale);
  ctx.count("resizes", w.resized);
  ctx.count("abandoned_writes", w.abandoned);
  if (w.evicted) ctx.distinct(w.sig);
  ctx.sample(ctx.trace);
}
}  // namespace

int main(int argc, char** argv) { return harness_main(argc, argv, run_case); }
