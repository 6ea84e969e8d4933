// What one participant sees in a transport, in a form that fits in shared memory.
#pragma once
#include "tapi.hpp"

struct View {
  static constexpr int kMax = 80;
  int bad;  // 0: walks forwards and backwards agreed
  uint64_t seq_low, seq_high;
  size_t used;
  int n;
  struct F {
    uint64_t seq;
    size_t off, size;
    uint64_t hash;
  } f[kMax];
};

// Walks the locked transport from head to tail and back.
inline void collect(a0_transport_locked_t lk, View* v) {
  v->bad = 0;
  v->n = 0;
  v->seq_low = v->seq_high = 0;
  v->used = 0;
  if (a0_transport_seq_low(lk, &v->seq_low) || a0_transport_seq_high(lk, &v->seq_high) || a0_transport_used_space(lk, &v->used)) {
    v->bad = 1;
    return;
  }
  bool empty = false;
  if (a0_transport_empty(lk, &empty)) {
    v->bad = 2;
    return;
  }
  if (empty) return;
  a0_transport_t saved = *lk.transport;
  auto done = [&](int code) {
    v->bad = code;
    lk.transport->_seq = saved._seq;
    lk.transport->_off = saved._off;
  };
  if (a0_transport_jump_head(lk)) return done(3);
  for (;;) {
    a0_transport_frame_t* fr;
    if (a0_transport_frame(lk, &fr)) return done(4);
    if (v->n >= View::kMax) return done(5);
    size_t off = (uint8_t*)fr - lk.transport->_arena.buf.data;
    if (off + kFrameHdr > lk.transport->_arena.buf.size || fr->hdr.data_size > lk.transport->_arena.buf.size - off - kFrameHdr) return done(6);
    if (fr->hdr.off != off) return done(12);
    v->f[v->n++] = {fr->hdr.seq, off, fr->hdr.data_size, hash_bytes(fr->data, fr->hdr.data_size)};
    bool more = false;
    if (a0_transport_has_next(lk, &more)) return done(7);
    if (!more) break;
    if (a0_transport_step_next(lk)) return done(8);
  }
  if (a0_transport_jump_tail(lk)) return done(9);
  for (int i = v->n - 1; i >= 0; i--) {
    a0_transport_frame_t* fr;
    if (a0_transport_frame(lk, &fr)) return done(10);
    if (fr->hdr.seq != v->f[i].seq || (size_t)((uint8_t*)fr - lk.transport->_arena.buf.data) != v->f[i].off) return done(11);
    bool more = false;
    a0_transport_has_prev(lk, &more);
    if (more != (i > 0)) return done(13);
    if (more && a0_transport_step_prev(lk)) return done(14);
  }
  done(0);
}

inline std::string show(const View& v) {
  std::string s = strf("bad=%d seq %lu..%lu used %zu:", v.bad, v.seq_low, v.seq_high, v.used);
  for (int i = 0; i < v.n; i++) s += strf(" %lu@%zu+%zu/%04lx", v.f[i].seq, v.f[i].off, v.f[i].size, v.f[i].hash & 0xffff);
  return s;
}

inline uint64_t pattern_hash(size_t n, uint64_t tag) {
  std::vector<uint8_t> b(n + 1);
  fill_pattern(b.data(), n, tag);
  return hash_bytes(b.data(), n);
}

inline std::string show(const Model& m) {
  std::string s = strf("seq %lu..%lu used %zu:", m.seq_low, m.seq_high, m.hwm);
  for (auto& f : m.frames) s += strf(" %lu@%zu+%zu/%04lx", f.seq, f.off, f.size, pattern_hash(f.size, f.tag) & 0xffff);
  return s;
}

// Does the view show exactly this model state?
inline bool same(const View& v, const Model& m, bool used = true) {
  if (v.bad || v.seq_low != m.seq_low || v.seq_high != m.seq_high || v.n != (int)m.frames.size()) return false;
  if (used && v.used != m.hwm) return false;
  for (int i = 0; i < v.n; i++) {
    auto& f = m.frames[i];
    if (v.f[i].seq != f.seq || v.f[i].off != f.off || v.f[i].size != f.size) return false;
    if (v.f[i].hash != pattern_hash(f.size, f.tag)) return false;
  }
  return true;
}
