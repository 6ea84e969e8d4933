// A transport in some memory, handles on it and the model of what it should hold.
#pragma once
#include "tapi.hpp"

namespace {

struct World {
  Ctx& ctx;
  std::string mode;
  uint8_t* mem = nullptr;
  size_t mem_size = 0;
  bool owned = true;
  Model m;
  std::vector<Tr*> h;
  struct Cursor {
    bool set = false;
    uint64_t seq = 0;
    size_t off = 0;
  };
  std::vector<Cursor> cur;
  uint64_t sig = 0;
  unsigned wraps = 0, evicted = 0, stale = 0, resized = 0, abandoned = 0;
  size_t last_off = 0;

  explicit World(Ctx& c) : ctx(c) {}
  ~World() {
    for (auto* t : h) {
      if (t->locked) t->unlock();
      delete t;
    }
    if (owned) free(mem);
  }

  void open_handle(a0_arena_mode_t md = A0_ARENA_MODE_SHARED) {
    Tr* t = new Tr;
    a0_arena_t a{{mem, mem_size}, md};
    a0_err_t e = t->open(a, ctx.rng.chance(30));
    h.push_back(t);
    cur.push_back({});
    CHECK_OR_FAIL(ctx, e == A0_OK, "open-failed", "open returned %s", errname(e).c_str());
  }

  size_t pick_size() {
    Rng& r = ctx.rng;
    size_t a = m.arena;
    switch (r.below(14)) {
      case 0: return 0;
      case 1: return r.below(16);
      case 2: return r.below(a / 2 + 1);
      case 3: return r.below(a + 40);
      case 4: {  // ends near the end of the arena
        if (m.frames.empty()) break;
        size_t off = Model::align(m.frames.back().end());
        if (off + kFrameHdr < a) {
          size_t room = a - off - kFrameHdr;
          int64_t d = (int64_t)r.below(7) - 3;
          if ((int64_t)room + d >= 0) return room + d;
        }
        break;
      }
      case 5: {  // ends near the start of the oldest frame
        if (m.frames.empty()) break;
        size_t off = Model::align(m.frames.back().end());
        size_t to = m.frames.front().off;
        if (off + kFrameHdr < to) {
          int64_t room = to - off - kFrameHdr, d = (int64_t)r.below(5) - 2;
          if (room + d >= 0) return room + d;
        }
        break;
      }
      case 6: {  // from the start up to some frame boundary
        if (m.frames.empty()) break;
        auto& f = m.frames[r.below(m.frames.size())];
        size_t to = r.chance(50) ? f.off : f.end();
        if (m.start + kFrameHdr < to) {
          int64_t room = to - m.start - kFrameHdr, d = (int64_t)r.below(5) - 2;
          if (room + d >= 0) return room + d;
        }
        break;
      }
      case 7: {  // exactly the whole arena, give or take
        int64_t s = (int64_t)a - (int64_t)m.start - (int64_t)kFrameHdr + (int64_t)r.below(7) - 3;
        if (s >= 0) return s;
        break;
      }
      case 8:
        if (r.chance(20)) return SIZE_MAX - r.below(200);
        if (r.chance(20)) return a + r.below(1000);
        break;
      default: break;
    }
    return r.below(r.chance(70) ? 100 : 300);
  }

  a0_transport_frame_t* get(Tr& t, const Model::F& f, const char* what) {
    a0_transport_frame_t* fr = nullptr;
    a0_err_t e = t.frame(&fr);
    CHECK_OR_FAIL(ctx, e == A0_OK, "frame-refused", "%s: frame %lu of [%lu,%lu] refused: %s", what, f.seq, m.seq_low, m.seq_high, errname(e).c_str());
    CHECK_OR_FAIL(ctx, (uint8_t*)fr >= mem && (uint8_t*)fr + kFrameHdr <= mem + mem_size, "frame-outside", "%s: frame outside the arena", what);
    CHECK_OR_FAIL(ctx, fr->hdr.seq == f.seq, "wrong-frame", "%s: expected frame %lu, got %lu", what, f.seq, fr->hdr.seq);
    CHECK_OR_FAIL(ctx, fr->hdr.data_size == f.size, "wrong-size", "%s: frame %lu has size %lu, committed %lu", what, f.seq, fr->hdr.data_size, f.size);
    CHECK_OR_FAIL(ctx, (uint8_t*)fr->data + f.size <= mem + std::min(mem_size, m.arena), "frame-outside", "%s: frame %lu ends outside the arena", what, f.seq);
    CHECK_OR_FAIL(ctx, check_pattern(fr->data, f.size, f.tag), "bytes-changed", "%s: frame %lu does not have the committed bytes", what, f.seq);
    CHECK_OR_FAIL(ctx, ((uintptr_t)fr & (alignof(max_align_t) - 1)) == ((uintptr_t)mem & (alignof(max_align_t) - 1)), "misaligned", "%s: frame %lu misaligned", what, f.seq);
    return fr;
  }

  // Reads everything through a locked handle and compares with the model.
  void verify(Tr& t) {
    bool b = false;
    uint64_t u = 0;
    size_t z = 0;
    a0_err_t e = t.empty(&b);
    CHECK_OR_FAIL(ctx, !e && b == m.frames.empty(), "empty-wrong", "empty()=%d but %zu frames are held", b, m.frames.size());
    e = t.nonempty(&b);
    CHECK_OR_FAIL(ctx, !e && b != m.frames.empty(), "nonempty-wrong", "nonempty()=%d but %zu frames are held", b, m.frames.size());
    e = t.seq_high(&u);
    CHECK_OR_FAIL(ctx, !e && u == m.seq_high, "seq-high-wrong", "highest sequence %lu, expected %lu", u, m.seq_high);
    e = t.seq_low(&u);
    CHECK_OR_FAIL(ctx, !e && u == m.seq_low, "seq-low-wrong", "lowest sequence %lu, expected %lu", u, m.seq_low);
    if (mode == "account") {
      e = t.used_space(&z);
      CHECK_OR_FAIL(ctx, !e && z == m.hwm, "used-space-wrong", "used space %zu, expected %zu", z, m.hwm);
      CHECK_OR_FAIL(ctx, !e && z == m.extent(), "used-space-extent", "used space %zu, frames reach %zu", z, m.extent());
    }
    // A separate handle so that cursors under test stay put.
    e = t.jump_head();
    if (m.frames.empty()) {
      CHECK_OR_FAIL(ctx, e == A0_ERR_RANGE, "jump-empty", "jump to oldest on empty gives %s", errname(e).c_str());
      e = t.jump_tail();
      CHECK_OR_FAIL(ctx, e == A0_ERR_RANGE, "jump-empty", "jump to newest on empty gives %s", errname(e).c_str());
      e = t.has_next(&b);
      CHECK_OR_FAIL(ctx, !e && !b, "next-on-empty", "has_next on empty");
      e = t.has_prev(&b);
      CHECK_OR_FAIL(ctx, !e && !b, "prev-on-empty", "has_prev on empty");
      return;
    }
    CHECK_OR_FAIL(ctx, e == A0_OK, "jump-head", "jump to oldest gives %s", errname(e).c_str());
    for (size_t i = 0; i < m.frames.size(); i++) {
      get(t, m.frames[i], "forward walk");
      e = t.has_next(&b);
      CHECK_OR_FAIL(ctx, !e && b == (i + 1 < m.frames.size()), "has-next-wrong", "has_next=%d at %zu of %zu", b, i, m.frames.size());
      e = t.step_next();
      CHECK_OR_FAIL(ctx, (e == A0_OK) == (i + 1 < m.frames.size()), "step-next-wrong", "step_next %s at %zu of %zu", errname(e).c_str(), i, m.frames.size());
      if (e) CHECK_OR_FAIL(ctx, e == A0_ERR_RANGE, "step-next-wrong", "step past newest gives %s", errname(e).c_str());
    }
    e = t.jump_tail();
    CHECK_OR_FAIL(ctx, e == A0_OK, "jump-tail", "jump to newest gives %s", errname(e).c_str());
    for (size_t i = m.frames.size(); i-- > 0;) {
      get(t, m.frames[i], "backward walk");
      e = t.has_prev(&b);
      CHECK_OR_FAIL(ctx, !e && b == (i > 0), "has-prev-wrong", "has_prev=%d at %zu", b, i);
      e = t.step_prev();
      CHECK_OR_FAIL(ctx, (e == A0_OK) == (i > 0), "step-prev-wrong", "step_prev %s at %zu", errname(e).c_str(), i);
      if (e) CHECK_OR_FAIL(ctx, e == A0_ERR_RANGE, "step-prev-wrong", "step before oldest gives %s", errname(e).c_str());
    }
  }

  void check_forecast(Tr& t, size_t size) {
    bool ev = false;
    a0_err_t e = t.alloc_evicts(size, &ev);
    size_t off;
    if (!m.slot(size, &off)) {
      CHECK_OR_FAIL(ctx, e == A0_ERR_FRAME_LARGE, "forecast-oversize", "forecast for impossible size %zu (arena %zu) gives %s", size, m.arena, errname(e).c_str());
    } else {
      CHECK_OR_FAIL(ctx, e == A0_OK && ev == (m.evictions(off, size) > 0), "forecast-wrong", "forecast for %zu says %s/%d, expected %d", size, errname(e).c_str(), ev, m.evictions(off, size) > 0);
    }
  }

  void write(Tr& t, size_t size, bool commit) {
    size_t off = 0;
    bool ok = m.slot(size, &off);
    if (mode == "account") check_forecast(t, size);
    a0_transport_frame_t* fr = nullptr;
    a0_buf_t buf{};
    bool via = ctx.rng.chance(15);
    a0_err_t e = via ? t.alloc_via_allocator(size, &buf) : t.alloc(size, &fr);
    ctx.log(strf("%s%s(%zu)", via ? "A" : "a", commit ? "c" : "", size));
    if (!ok) {
      CHECK_OR_FAIL(ctx, e == A0_ERR_FRAME_LARGE, "oversize-accepted", "a frame of %zu bytes in an arena of %zu gives %s", size, m.arena, errname(e).c_str());
      sig = mix(sig, 3);
      return;
    }
    CHECK_OR_FAIL(ctx, e == A0_OK, "alloc-refused", "alloc of %zu gives %s although it fits", size, errname(e).c_str());
    size_t n = m.evictions(off, size);
    if (off < last_off) wraps++;
    last_off = off;
    evicted += n;
    uint64_t before_high = m.seq_high;
    m.evict(n);
    uint8_t* data = via ? buf.data : fr->data;
    if (via) CHECK_OR_FAIL(ctx, buf.size == size, "alloc-size", "allocator returned %zu bytes for %zu", buf.size, size);
    else {
      CHECK_OR_FAIL(ctx, fr->hdr.data_size == size, "alloc-size", "alloc returned %zu bytes for %zu", fr->hdr.data_size, size);
      CHECK_OR_FAIL(ctx, fr->hdr.seq == before_high + 1, "seq-assign", "new frame has sequence %lu after %lu", fr->hdr.seq, before_high);
    }
    CHECK_OR_FAIL(ctx, data >= mem + m.start && data + size <= mem + std::min(m.arena, mem_size), "frame-outside", "new frame [%ld,%ld) outside the arena of %zu", data - mem, data + size - mem, m.arena);
    // No storage of a surviving frame may be handed out.
    size_t lo = data - mem - kFrameHdr, hi = data - mem + size;
    for (auto& f : m.frames)
      CHECK_OR_FAIL(ctx, hi <= f.off || f.end() <= lo, "overlap", "new frame [%zu,%zu) overlaps live frame %lu [%zu,%zu)", lo, hi, f.seq, f.off, f.end());
    uint64_t tag = mix(ctx.case_id, before_high + 1000 * abandoned);
    fill_pattern(data, size, tag);
    if (commit) {
      e = t.commit();
      CHECK_OR_FAIL(ctx, e == A0_OK, "commit-failed", "commit gives %s", errname(e).c_str());
      m.append(off, size, tag);
      sig = mix(sig, 10 + (n > 0) + 2 * (off == m.start) + 4 * std::min<size_t>(m.frames.size(), 12));
    } else {
      abandoned++;
      e = t.unlock();
      e = e ? e : t.lock();
      CHECK_OR_FAIL(ctx, e == A0_OK, "relock", "relock gives %s", errname(e).c_str());
      sig = mix(sig, 100 + (n > 0));
    }
  }

  // ---- cursors -----------------------------------------------------------
  void sync_cursor(size_t i, const Model::F& f) {
    cur[i].set = true;
    cur[i].seq = f.seq;
    cur[i].off = f.off;
  }
  const Model::F* live(uint64_t seq) {
    for (auto& f : m.frames)
      if (f.seq == seq) return &f;
    return nullptr;
  }
  void check_cursor(size_t i) {
    Tr& t = *h[i];
    Cursor& c = cur[i];
    bool b;
    a0_err_t e;
    if (c.set) {
      const Model::F* f = live(c.seq);
      e = t.iter_valid(&b);
      CHECK_OR_FAIL(ctx, !e && b == !!f, "cursor-validity", "cursor on %lu reported %s; frames [%lu,%lu]", c.seq, b ? "valid" : "invalid", m.seq_low, m.seq_high);
      if (f) {
        get(t, *f, "cursor");
      } else {
        stale++;
        a0_transport_frame_t* fr;
        e = t.frame(&fr);
        CHECK_OR_FAIL(ctx, e != A0_OK, "stale-frame", "cursor on evicted frame %lu still gives a frame", c.seq);
      }
    }
    if (!c.set) {
      a0_transport_frame_t* fr;
      e = t.iter_valid(&b);
      CHECK_OR_FAIL(ctx, !e && !b, "unset-cursor-valid", "a cursor that was never placed is reported valid; frames [%lu,%lu]", m.seq_low, m.seq_high);
      e = t.frame(&fr);
      CHECK_OR_FAIL(ctx, e != A0_OK, "unset-cursor-frame", "a cursor that was never placed gives a frame; frames [%lu,%lu]", m.seq_low, m.seq_high);
    }
    bool want_next = !m.frames.empty() && c.seq < m.seq_high;
    e = t.has_next(&b);
    CHECK_OR_FAIL(ctx, !e && b == want_next, "cursor-has-next", "cursor at %lu has_next=%d, frames [%lu,%lu]", c.seq, b, m.seq_low, m.seq_high);
    bool want_prev = !m.frames.empty() && c.seq > m.seq_low;
    if (c.set && (live(c.seq) || c.seq < m.seq_low)) {
      e = t.has_prev(&b);
      CHECK_OR_FAIL(ctx, !e && b == want_prev, "cursor-has-prev", "cursor at %lu has_prev=%d, frames [%lu,%lu]", c.seq, b, m.seq_low, m.seq_high);
    }
  }
  void move_cursor(size_t i) {
    Tr& t = *h[i];
    Cursor& c = cur[i];
    a0_err_t e;
    int op = ctx.rng.below(4);
    ctx.log(strf("h%zu:%s", i, (const char*[]){"head", "tail", "next", "prev"}[op]));
    if (op == 0 || op == 1) {
      e = op == 0 ? t.jump_head() : t.jump_tail();
      CHECK_OR_FAIL(ctx, (e == A0_OK) == !m.frames.empty(), "cursor-jump", "jump gives %s with %zu frames", errname(e).c_str(), m.frames.size());
      if (!e) sync_cursor(i, op == 0 ? m.frames.front() : m.frames.back());
    } else if (op == 2) {
      bool want = !m.frames.empty() && c.seq < m.seq_high;
      e = t.step_next();
      CHECK_OR_FAIL(ctx, want ? e == A0_OK : e == A0_ERR_RANGE, "cursor-step-next", "step forward from %lu gives %s; frames [%lu,%lu]", c.seq, errname(e).c_str(), m.seq_low, m.seq_high);
      if (want) {
        const Model::F* f = c.seq < m.seq_low ? &m.frames.front() : live(c.seq + 1);
        if (!f) ctx.harness_error("model has no successor");
        sync_cursor(i, *f);
        get(t, *f, "after step forward");
      }
    } else {
      const Model::F* f = live(c.seq);
      if (c.set && !f && c.seq >= m.seq_low) return;  // not a position the API can produce
      bool want = f && c.seq > m.seq_low;
      e = t.step_prev();
      CHECK_OR_FAIL(ctx, want ? e == A0_OK : e == A0_ERR_RANGE, "cursor-step-prev", "step backward from %lu gives %s; frames [%lu,%lu]", c.seq, errname(e).c_str(), m.seq_low, m.seq_high);
      if (want) {
        f = live(c.seq - 1);
        sync_cursor(i, *f);
        get(t, *f, "after step backward");
      }
    }
    sig = mix(sig, 200 + op * 4 + (c.set && !live(c.seq) ? 1 : 0));
  }

  // One locked section of a few operations, then everything read back.
  void step(size_t i, Rng& r, a0_arena_mode_t md) {
    Tr& t = *h[i];
    a0_err_t e = t.lock();
    CHECK_OR_FAIL(ctx, e == A0_OK, "lock-failed", "lock gives %s", errname(e).c_str());
    unsigned batch = r.range(1, 3);
    for (unsigned b = 0; b < batch; b++) {
      unsigned op = r.below(100);
      bool cursor_mode = mode == "cursor";
      if (cursor_mode && op < 55) {
        check_cursor(i);
        move_cursor(i);
      } else if (op < 85) {
        write(t, pick_size(), true);
      } else if (op < 91) {
        write(t, pick_size(), false);
      } else if (op < 93) {
        e = t.clear();
        ctx.log("clear");
        CHECK_OR_FAIL(ctx, !e, "clear-failed", "clear gives %s", errname(e).c_str());
        m.clear();
        last_off = 0;
        sig = mix(sig, 300);
      } else if (mode == "account" && op < 98) {
        size_t lo = m.start > 8 ? m.start - 8 : 0, n;
        switch (r.below(4)) {
          case 0: n = m.hwm + r.below(5) - (r.chance(50) ? 1 : 0); break;
          case 1: n = mem_size; break;
          case 2: n = r.range(lo, mem_size); break;
          default: n = std::min(mem_size, m.hwm + r.below(300)); break;
        }
        if (n > mem_size) n = mem_size;
        e = t.resize(n);
        ctx.log(strf("resize(%zu)", n));
        bool ok = n >= m.extent();
        CHECK_OR_FAIL(ctx, ok ? e == A0_OK : e == A0_ERR_INVALID_ARG, "resize-wrong", "resize to %zu gives %s; frames reach %zu", n, errname(e).c_str(), m.extent());
        if (ok) m.arena = n, resized++;
        sig = mix(sig, 310 + ok);
      } else if (mode == "account") {
        for (int k = 0; k < 4; k++) check_forecast(t, pick_size());
      } else {
        // Unlock and relock: nothing may change.
        t.unlock();
        t.lock();
      }
      if (cursor_mode) check_cursor(i);
    }
    e = t.unlock();
    CHECK_OR_FAIL(ctx, e == A0_OK, "unlock-failed", "unlock gives %s", errname(e).c_str());
    if (r.chance(3)) {  // re-open: replaces the verifying handle
      Tr* v = h.back();
      h.pop_back();
      cur.pop_back();
      delete v;
      open_handle(md);
      ctx.log("reopen");
      sig = mix(sig, 320);
    }
    Tr& v = *h.back();
    v.lock();
    verify(v);
    v.unlock();
    ctx.eval();
  }
};
}  // namespace
