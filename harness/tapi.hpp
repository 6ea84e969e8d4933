// One transport handle driven through the C or the C++ interface, plus a reference model.
#pragma once
#include <a0/transport.h>
#include <a0/transport.hpp>

#include <deque>
#include <exception>

#include "common.hpp"

inline a0_err_t map_exception(const std::exception& e) {
  for (int i = 1; i <= 11; i++) {
    a0_err_t err = (a0_err_t)i;
    if (err == A0_ERR_CUSTOM_MSG) continue;
    if (!strcmp(a0_strerror(err), e.what())) return err;
  }
  return A0_ERR_CUSTOM_MSG;
}

template <class F>
inline a0_err_t guard(F&& f) {
  try {
    f();
    return A0_OK;
  } catch (const std::exception& e) {
    return map_exception(e);
  }
}

struct Tr {
  a0_arena_t arena{};
  bool use_cpp = false;
  a0_transport_t c{};
  a0_transport_locked_t lk{};
  a0::Transport x;
  a0::TransportLocked xlk;
  bool locked = false;

  a0_err_t open(a0_arena_t a, bool cpp) {
    arena = a;
    use_cpp = cpp;
    if (!cpp) return a0_transport_init(&c, a);
    return guard([&] { x = a0::Transport(a0::Arena(a0::Buf(a.buf.data, a.buf.size), a.mode)); });
  }
  a0_err_t lock() {
    locked = true;
    if (!use_cpp) return a0_transport_lock(&c, &lk);
    return guard([&] { xlk = x.lock(); });
  }
  a0_err_t unlock() {
    locked = false;
    if (!use_cpp) return a0_transport_unlock(lk);
    return guard([&] { xlk = a0::TransportLocked(); });
  }
  a0_transport_locked_t& raw() { return use_cpp ? *xlk.c : lk; }

#define TAPI_GET(name, type)                                              \
  a0_err_t name(type* out) {                                              \
    if (!use_cpp) return a0_transport_##name(lk, out);                    \
    return guard([&] { *out = xlk.name(); });                             \
  }
#define TAPI_DO(name)                                                     \
  a0_err_t name() {                                                       \
    if (!use_cpp) return a0_transport_##name(lk);                         \
    return guard([&] { xlk.name(); });                                    \
  }
  TAPI_GET(empty, bool)
  TAPI_GET(seq_low, uint64_t)
  TAPI_GET(seq_high, uint64_t)
  TAPI_GET(used_space, size_t)
  TAPI_GET(iter_valid, bool)
  TAPI_GET(has_next, bool)
  TAPI_GET(has_prev, bool)
  TAPI_GET(frame, a0_transport_frame_t*)
  TAPI_DO(jump_head)
  TAPI_DO(jump_tail)
  TAPI_DO(step_next)
  TAPI_DO(step_prev)
  TAPI_DO(commit)
  TAPI_DO(clear)
  a0_err_t nonempty(bool* out) { return a0_transport_nonempty(raw(), out); }
  a0_err_t jump(size_t off) {
    if (!use_cpp) return a0_transport_jump(lk, off);
    return guard([&] { xlk.jump(off); });
  }
  a0_err_t resize(size_t n) {
    if (!use_cpp) return a0_transport_resize(lk, n);
    return guard([&] { xlk.resize(n); });
  }
  a0_err_t alloc(size_t n, a0_transport_frame_t** out) {
    if (!use_cpp) return a0_transport_alloc(lk, n, out);
    return guard([&] { *out = xlk.alloc(n); });
  }
  a0_err_t alloc_via_allocator(size_t n, a0_buf_t* out) {
    a0_alloc_t al;
    a0_err_t e = a0_transport_allocator(&raw(), &al);
    if (e) return e;
    return al.alloc(al.user_data, n, out);
  }
  a0_err_t alloc_evicts(size_t n, bool* out) {
    if (!use_cpp) return a0_transport_alloc_evicts(lk, n, out);
    return guard([&] { *out = xlk.alloc_evicts(n); });
  }
};

inline void fill_pattern(uint8_t* p, size_t n, uint64_t tag) {
  uint64_t h = tag * 0x9E3779B97F4A7C15ull + 7;
  for (size_t i = 0; i < n; i++) {
    if (i % 8 == 0) h = mix(h, i);
    p[i] = (uint8_t)(h >> (8 * (i % 8)));
  }
}
inline bool check_pattern(const uint8_t* p, size_t n, uint64_t tag) {
  uint64_t h = tag * 0x9E3779B97F4A7C15ull + 7;
  for (size_t i = 0; i < n; i++) {
    if (i % 8 == 0) h = mix(h, i);
    if (p[i] != (uint8_t)(h >> (8 * (i % 8)))) return false;
  }
  return true;
}

constexpr size_t kFrameHdr = sizeof(a0_transport_frame_hdr_t);

// Reference model: a list of frames in a ring of storage, and the placement rule
// (after the newest frame, or back to the start when that would not fit).
struct Model {
  struct F {
    uint64_t seq;
    size_t off, size;
    uint64_t tag;
    size_t end() const { return off + kFrameHdr + size; }
  };
  std::deque<F> frames;
  uint64_t seq_high = 0;
  uint64_t seq_low = 0;
  size_t arena = 0, start = 0;
  size_t hwm = 0;

  static size_t align(size_t n) { return (n + alignof(max_align_t) - 1) & ~(alignof(max_align_t) - 1); }
  bool slot(size_t size, size_t* off) const {
    if (size > arena) return false;
    size_t need = kFrameHdr + size;
    if (frames.empty()) *off = start;
    else {
      *off = align(frames.back().end());
      if (*off + need >= arena) *off = start;
    }
    return *off + need <= arena;
  }
  // How many of the oldest frames have to go for a frame of this size at off.
  size_t evictions(size_t off, size_t size) const {
    size_t need = kFrameHdr + size, n = 0;
    while (n < frames.size()) {
      const F& h = frames[n];
      bool hit = off < h.end() && h.off < off + need;
      bool behind = frames.back().off < h.off && off == start;
      if (!hit && !behind) break;
      n++;
    }
    return n;
  }
  void evict(size_t n) {
    for (size_t i = 0; i < n; i++) {
      size_t e = frames.front().end();
      frames.pop_front();
      seq_low++;
      if (frames.empty()) hwm = start;
      else if (hwm == e) hwm = frames.back().end();
    }
  }
  void append(size_t off, size_t size, uint64_t tag) {
    seq_high++;
    if (!seq_low) seq_low = seq_high;
    frames.push_back({seq_high, off, size, tag});
    if (hwm < frames.back().end()) hwm = frames.back().end();
  }
  void clear() {
    frames.clear();
    seq_low = seq_high + 1;
    hwm = start;
  }
  // The extent of storage the frames reach, worked out from scratch.
  size_t extent() const {
    size_t m = start;
    for (auto& f : frames) m = std::max(m, f.end());
    return m;
  }
};
