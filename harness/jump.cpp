// C13: jumping to and reading at arbitrary offsets. The arena ends at an unmapped page.
#include <a0/packet.h>
#include <a0/reader.h>
#include <a0/reader.hpp>

#include "tapi.hpp"

namespace {
uint8_t* window;  // guard page, pages, guard page
constexpr size_t kPages = 3, kPage = 4096;

int noted = 0;
struct Seen {
  int calls = 0;
  uint8_t* data = nullptr;
  size_t size = 0;
  uint64_t sum = 0;
};
void on_zc(void* u, a0_transport_locked_t, a0_flat_packet_t f) {
  Seen* s = (Seen*)u;
  s->calls++;
  s->data = f.buf.data;
  s->size = f.buf.size;
}

void run_case(Ctx& ctx) {
  Rng& r = ctx.rng;
  ctx.desc("jump");
  size_t size = 304 + 16 * r.below((kPages * kPage - 304) / 16 + 1);
  if (r.chance(60)) size = 304 + 16 * r.below(60);
  uint8_t* base = window + kPage + kPages * kPage - size;
  memset(window + kPage, 0, kPages * kPage);
  a0_arena_t arena{{base, size}, A0_ARENA_MODE_SHARED};
  Tr w, t;
  if (w.open(arena, false)) ctx.harness_error("open");
  t.open(arena, r.chance(50));
  struct Live {
    uint64_t seq;
    size_t off, size;
    uint64_t tag;
  };
  std::deque<Live> live;
  std::vector<Live> gone;
  uint64_t tag = 1;
  uint64_t h = size;
  auto write = [&] {
    size_t n = r.chance(50) ? r.below(40) : r.chance(70) ? r.below(size / 2) : r.below(size);
    if (r.chance(12)) n = size - 144 - kFrameHdr - (r.chance(50) ? 0 : r.below(40));  // (nearly) exact fit
    a0_transport_frame_t* f;
    w.lock();
    if (!w.alloc(n, &f)) {
      fill_pattern(f->data, n, tag);
      // Something that looks like frame headers, inside the data.
      for (size_t o = (uint8_t*)f->data - base; o + kFrameHdr <= (size_t)(f->data - base) + n; o++) {
        if (o % 16 || !r.chance(40)) continue;
        a0_transport_frame_hdr_t fake;
        static const size_t deltas[] = {0, 1, 16, 40, 41, 144};
        fake.seq = r.below(4) ? r.below(20) : r.next();
        fake.off = o;
        fake.next_off = r.next();
        fake.prev_off = r.next();
        switch (r.below(4)) {
          case 0: fake.data_size = size - o - kFrameHdr + r.below(3) - 1; break;
          case 1: fake.data_size = (size_t)0 - deltas[r.below(6)]; break;
          case 2: fake.data_size = (size_t)0 - o - kFrameHdr + r.below(64); break;
          default: fake.data_size = r.below(size);
        }
        memcpy(base + o, &fake, sizeof(fake));
      }
      Live l{f->hdr.seq, f->hdr.off, n, hash_bytes(f->data, n)};
      w.commit();
      uint64_t low;
      w.seq_low(&low);
      while (!live.empty() && live.front().seq < low) {
        gone.push_back(live.front());
        live.pop_front();
      }
      live.push_back(l);
      tag++;
      h = mix(h, n * 31 + l.off);
      if (l.off + kFrameHdr + n == size) ctx.count("frames_ending_with_the_arena");
    }
    w.unlock();
  };
  int rounds = r.range(1, 4);
  for (int round = 0; round < rounds; round++) {
    int writes = r.below(10);
    for (int i = 0; i < writes; i++) write();
    if (r.chance(8)) {
      w.lock();
      w.clear();
      w.unlock();
      for (auto& l : live) gone.push_back(l);
      live.clear();
    }
    std::vector<size_t> offs;
    for (auto& l : live) offs.push_back(l.off);
    for (auto& g : gone) offs.push_back(g.off);
    for (int i = 0; i < 40; i++) {
      static const size_t big[] = {(size_t)0, (size_t)1 << 63, (size_t)1 << 62, (size_t)1 << 32, (size_t)1 << 31};
      switch (r.below(5)) {
        case 0: offs.push_back(16 * r.below(size / 16 + 8)); break;
        case 1: offs.push_back(r.below(size + 64)); break;
        case 2: offs.push_back(size - 128 + 16 * r.below(12)); break;
        case 3: offs.push_back((size_t)0 - 16 * r.below(16)); break;
        default: offs.push_back(big[r.below(5)] - 16 * r.below(16) + (r.chance(20) ? r.below(16) : 0));
      }
    }
    for (size_t off : offs) {
      const Live* l = nullptr;
      for (auto& x : live)
        if (x.off == off) l = &x;
      ctx.desc(strf("jump|offset %zx of %zx", off, size));
      // A cursor somewhere sensible first.
      t.lock();
      if (!live.empty()) r.chance(50) ? t.jump_head() : t.jump_tail();
      a0_transport_frame_t *f0 = nullptr, *f1 = nullptr;
      if (!live.empty()) t.frame(&f0);
      a0_err_t e = t.jump(off);
      if (e) {
        CHECK_OR_FAIL(ctx, e == A0_ERR_RANGE, "jump-error", "jump to %zx failed with %s", off, errname(e).c_str());
        if (f0) t.frame(&f1);
        CHECK_OR_FAIL(ctx, f0 == f1, "jump-moved", "refused jump to %zx moved the cursor", off);
        if (l && l->off + kFrameHdr + l->size == size) {
          if (!noted++) ctx.known_violation("live-refused:ends-with-arena", strf("jump to the live frame at %zx (data %zu, arena %zu) refused", off, l->size, size));
          l = nullptr;
        }
        CHECK_OR_FAIL(ctx, !l, "live-refused", "jump to the live frame at %zx (data %zu, arena %zu) refused", off, l->size, size);
        ctx.count("refused");
      } else {
        CHECK_OR_FAIL(ctx, off % 16 == 0 && off <= size - kFrameHdr, "outside", "jump to %zx of %zx accepted", off, size);
        a0_transport_frame_hdr_t fh;
        memcpy(&fh, base + off, sizeof(fh));
        CHECK_OR_FAIL(ctx, fh.data_size <= size - kFrameHdr - off, "data-outside", "jump to %zx accepted although its data (%zx) leaves the arena (%zx)", off, fh.data_size, size);
        a0_transport_frame_t* f = nullptr;
        a0_err_t fe = t.frame(&f);
        CHECK_OR_FAIL(ctx, fe || ((uint8_t*)f == base + off), "frame-elsewhere", "frame after a jump is not at the offset");
        if (l) {
          CHECK_OR_FAIL(ctx, !fe && f->hdr.seq == l->seq && f->hdr.data_size == l->size && hash_bytes(f->data, l->size) == l->tag, "live-differs", "jump to a live frame shows something else");
          ctx.count("live_frames_reached");
        }
        ctx.count("accepted");
      }
      t.unlock();
      Seen s;
      a0_err_t e2;
      if (r.chance(50)) {
        e2 = a0_read_random_access(arena, off, {&s, on_zc});
      } else {
        e2 = guard([&] {
          a0::read_random_access(a0::Arena(a0::Buf(arena.buf.data, arena.buf.size), arena.mode), off, [&](a0::TransportLocked, a0::FlatPacket f) {
            s.calls++;
            s.data = f.c->buf.data;
            s.size = f.c->buf.size;
          });
        });
      }
      CHECK_OR_FAIL(ctx, s.calls == (e2 ? 0 : 1), "access-calls", "random access gave %s with %d callbacks", errname(e2).c_str(), s.calls);
      CHECK_OR_FAIL(ctx, !e || e2, "access-refused", "jump refuses %zx but random access does not", off);
      CHECK_OR_FAIL(ctx, !l || !e2, "live-refused:access", "random access to the live frame at %zx gave %s", off, errname(e2).c_str());
      if (s.calls) {
        CHECK_OR_FAIL(ctx, s.data == base + off + kFrameHdr && s.size <= size - off - kFrameHdr, "access-outside", "random access at %zx hands out memory outside the arena", off);
        s.sum = hash_bytes(s.data, s.size);
        CHECK_OR_FAIL(ctx, !l || (s.size == l->size && s.sum == l->tag), "live-differs:access", "random access to a live frame shows something else");
      }
      // The lock is free again.
      w.lock();
      w.unlock();
      ctx.eval();
      h = mix(h, e * 64 + !!l);
    }
    ctx.tick();
  }
  if (!live.empty()) ctx.distinct(h);
  ctx.sample(strf("arena %zu, %zu live, %zu gone frames", size, live.size(), gone.size()));
}
void begin(Ctx&) {
  window = (uint8_t*)mmap(0, (kPages + 2) * kPage, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  mprotect(window + kPage, kPages * kPage, PROT_READ | PROT_WRITE);
}
}  // namespace

int main(int argc, char** argv) { return harness_main(argc, argv, run_case, begin); }
