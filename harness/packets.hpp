// Packets as plain values, and everything a topic holds read without the library's readers.
#pragma once

#include <a0/packet.h>

#include <algorithm>
#include <thread>
#include <utility>

#include "tapi.hpp"

using Hdrs = std::vector<std::pair<std::string, std::string>>;

struct Pk {
  std::string id, payload;
  Hdrs hdrs;
  uint64_t seq = 0;
  size_t size = 0;  // serialized
  uint64_t raw = 0;  // hash of the serialized form

  std::vector<std::string> all(const std::string& k) const {
    std::vector<std::string> v;
    for (auto& h : hdrs)
      if (h.first == k) v.push_back(h.second);
    return v;
  }
  std::string one(const std::string& k) const {
    auto v = all(k);
    return v.size() == 1 ? v[0] : "";
  }
  bool same(const Pk& o) const { return id == o.id && payload == o.payload && hdrs == o.hdrs; }
};

// The serialized form: id, number of headers, (key, value) offsets, payload offset, contents.
inline bool parse_flat(const uint8_t* p, size_t n, Pk* out) {
  auto word = [&](size_t off) {
    size_t v;
    memcpy(&v, p + off, sizeof(v));
    return v;
  };
  const size_t w = sizeof(size_t), id = 37;
  if (n < id + 2 * w) return false;
  if (!memchr(p, 0, id)) return false;
  out->id = (const char*)p;
  out->size = n;
  out->raw = hash_bytes(p, n);
  size_t nh = word(id);
  if (nh > n / (2 * w) || id + w + nh * 2 * w + w > n) return false;
  auto str = [&](size_t off, std::string* s) {
    if (off >= n) return false;
    const void* e = memchr(p + off, 0, n - off);
    if (!e) return false;
    s->assign((const char*)p + off, (const uint8_t*)e - (p + off));
    return true;
  };
  out->hdrs.clear();
  for (size_t i = 0; i < nh; i++) {
    std::string k, v;
    if (!str(word(id + w + i * 2 * w), &k) || !str(word(id + 2 * w + i * 2 * w), &v)) return false;
    out->hdrs.push_back({k, v});
  }
  size_t po = word(id + w + nh * 2 * w);
  if (po > n) return false;
  out->payload.assign((const char*)p + po, n - po);
  return true;
}

struct Contents {
  std::string bad;
  uint64_t low = 0, high = 0;
  std::vector<Pk> pk;
};

// Everything in a topic, through a handle of its own.
inline Contents read_all(a0_arena_t arena) {
  Contents c;
  a0_transport_t t;
  a0_transport_locked_t lk;
  a0_err_t e = a0_transport_init(&t, arena);
  if (e) return c.bad = "opening: " + errname(e), c;
  e = a0_transport_lock(&t, &lk);
  if (e) return c.bad = "locking: " + errname(e), c;
  bool empty = true;
  a0_transport_seq_low(lk, &c.low);
  a0_transport_seq_high(lk, &c.high);
  a0_transport_empty(lk, &empty);
  if (!empty) {
    e = a0_transport_jump_head(lk);
    while (!e) {
      a0_transport_frame_t* fr;
      if ((e = a0_transport_frame(lk, &fr))) break;
      size_t off = (uint8_t*)fr - arena.buf.data;
      Pk p;
      if (off + kFrameHdr > arena.buf.size || fr->hdr.data_size > arena.buf.size - off - kFrameHdr ||
          !parse_flat(fr->data, fr->hdr.data_size, &p)) {
        c.bad = strf("packet %lu cannot be parsed", fr->hdr.seq);
        break;
      }
      p.seq = fr->hdr.seq;
      c.pk.push_back(p);
      bool more = false;
      if ((e = a0_transport_has_next(lk, &more)) || !more) break;
      e = a0_transport_step_next(lk);
    }
    if (e) c.bad = "walking: " + errname(e);
  }
  e = a0_transport_unlock(lk);
  if (e && c.bad.empty()) c.bad = "unlocking: " + errname(e);
  return c;
}

// The same from another thread: blocks if this one was left holding the lock.
inline Contents read_all_elsewhere(a0_arena_t arena) {
  Contents c;
  std::thread([&] { c = read_all(arena); }).join();
  return c;
}

inline std::string brief(const Pk& p) {
  std::string s = strf("#%lu id %.8s", p.seq, p.id.c_str());
  for (auto& h : p.hdrs) s += " " + h.first + "=" + h.second;
  return s + " payload " + p.payload.substr(0, 60) + strf("(%zu)", p.payload.size());
}

// A C packet with its headers spread over a chain of blocks.
struct CPacket {
  a0_packet_t p;
  Hdrs hdrs;
  std::string payload;
  std::vector<a0_packet_header_t> flat;
  std::vector<a0_packet_headers_block_t> blocks;
  CPacket(Rng& r, const Hdrs& h, const std::string& pay, bool chain = true) : hdrs(h), payload(pay) {
    a0_packet_init(&p);
    for (auto& x : hdrs) flat.push_back({x.first.c_str(), x.second.c_str()});
    blocks.reserve(hdrs.size() + 4);
    size_t i = 0;
    do {
      size_t n = chain ? r.below(flat.size() - i + 1) : flat.size() - i;
      blocks.push_back({flat.data() + i, n, nullptr});
      i += n;
    } while (i < flat.size() && blocks.size() < hdrs.size() + 2);
    if (i < flat.size()) blocks.push_back({flat.data() + i, flat.size() - i, nullptr});
    for (size_t b = 0; b + 1 < blocks.size(); b++) blocks[b].next_block = &blocks[b + 1];
    p.headers_block = blocks[0];
    p.payload = {(uint8_t*)payload.data(), payload.size()};
  }
};

inline Hdrs sorted(Hdrs h) {
  std::sort(h.begin(), h.end());
  return h;
}
