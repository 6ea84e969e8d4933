// C12: packets through serialization, deserialization, copies and flat access.
#include <a0/packet.h>
#include <a0/packet.hpp>

#include <algorithm>
#include <memory>

#include "common.hpp"

namespace {

using Hdrs = std::vector<std::pair<std::string, std::string>>;

struct Src {  // a packet with everything it points to, in exactly sized heap blocks
  a0_packet_t p;
  std::vector<std::unique_ptr<char[]>> strs;
  std::vector<std::unique_ptr<a0_packet_header_t[]>> arrays;
  std::vector<std::unique_ptr<a0_packet_headers_block_t>> blocks;
  std::unique_ptr<uint8_t[]> payload;
  Hdrs hdrs;
  std::string id, body;
  size_t content = 0;

  const char* str(const std::string& s) {
    strs.emplace_back(new char[s.size() + 1]);
    memcpy(strs.back().get(), s.c_str(), s.size() + 1);
    return strs.back().get();
  }
};

std::string random_str(Rng& r, size_t n) {
  std::string s;
  for (size_t i = 0; i < n; i++) s += (char)(1 + r.below(255));
  return s;
}
std::string random_key(Rng& r) {
  static const char* common[] = {"", "a", "ab", "abc", "key", "a0_dep", "a0_time_mono", "k", "ke"};
  if (r.chance(70)) return common[r.below(9)];
  return random_str(r, r.chance(80) ? r.below(12) : r.below(400));
}
size_t random_size(Rng& r) {
  switch (r.below(5)) {
    case 0: return 0;
    case 1: return r.below(4);
    case 2: return r.below(64);
    case 3: return r.below(1000);
    default: return r.below(20) ? r.below(300) : r.below(70000);
  }
}

void make(Rng& r, Src& s) {
  memset((void*)&s.p, 0, sizeof(s.p));
  a0_packet_init(&s.p);
  if (r.chance(20)) {  // any 36 characters will do as an id
    for (int i = 0; i < A0_UUID_SIZE; i++) s.p.id[i] = 1 + r.below(255);
    s.p.id[A0_UUID_SIZE] = 0;
  }
  s.id = s.p.id;
  int nblocks = r.chance(60) ? 1 : r.range(1, 5);
  a0_packet_headers_block_t* b = &s.p.headers_block;
  for (int k = 0; k < nblocks; k++) {
    size_t n = r.chance(25) ? 0 : r.chance(90) ? r.below(6) : r.below(40);
    b->size = n;
    b->headers = nullptr;
    if (n || r.chance(50)) {
      s.arrays.emplace_back(new a0_packet_header_t[n]);
      b->headers = s.arrays.back().get();
    }
    for (size_t i = 0; i < n; i++) {
      std::string key = random_key(r), val = random_str(r, r.chance(85) ? r.below(20) : r.below(600));
      b->headers[i] = {s.str(key), s.str(val)};
      s.hdrs.push_back({key, val});
      s.content += key.size() + val.size() + 2;
    }
    b->next_block = nullptr;
    if (k + 1 < nblocks) {
      s.blocks.emplace_back(new a0_packet_headers_block_t);
      b->next_block = s.blocks.back().get();
      b = s.blocks.back().get();
    }
  }
  size_t n = random_size(r);
  s.body.resize(n);
  for (auto& c : s.body) c = r.chance(30) ? 0 : r.next();
  s.payload.reset(new uint8_t[n]);
  memcpy(s.payload.get(), s.body.data(), n);
  s.p.payload = {s.payload.get(), n};
  s.content += n;
}

struct Mem {
  int fill;
  std::vector<std::unique_ptr<uint8_t[]>> held;
  std::vector<size_t> sizes;
};
a0_err_t mem_alloc(void* u, size_t n, a0_buf_t* out) {
  Mem* m = (Mem*)u;
  m->held.emplace_back(new uint8_t[n]);
  m->sizes.push_back(n);
  memset(m->held.back().get(), m->fill, n);
  *out = {m->held.back().get(), n};
  return A0_OK;
}
a0_alloc_t alloc_of(Mem& m) { return {&m, mem_alloc, nullptr}; }

std::string show(const Src& s) {
  std::string o = strf("%zu headers, payload %zu:", s.hdrs.size(), s.body.size());
  for (auto& h : s.hdrs) o += strf(" %zu/%zu", h.first.size(), h.second.size());
  return o;
}

#define EXPECT(cond, key, ...) CHECK_OR_FAIL(ctx, cond, key, __VA_ARGS__)

void expect_headers(Ctx& ctx, Hdrs want, Hdrs got, const char* where) {
  // The order of headers is not promised.
  std::sort(want.begin(), want.end());
  std::sort(got.begin(), got.end());
  EXPECT(want == got, strf("headers:%s", where), "%zu headers expected, %zu found, or their contents differ", want.size(), got.size());
}

Hdrs collect(Ctx& ctx, a0_packet_t* p) {
  Hdrs got;
  a0_packet_header_iterator_t it;
  a0_packet_header_t h;
  a0_packet_header_iterator_init(&it, p);
  a0_err_t e;
  while (!(e = a0_packet_header_iterator_next(&it, &h))) {
    got.push_back({h.key, h.val});
    if (got.size() > 100000) ctx.fail("iterate-endless", "iterator does not end");
  }
  EXPECT(e == A0_ERR_ITER_DONE, "iterate-end", "iterator ended with %s", errname(e).c_str());
  EXPECT(a0_packet_header_iterator_next(&it, &h) == A0_ERR_ITER_DONE, "iterate-end", "ended iterator goes on");
  return got;
}

void check_match(Ctx& ctx, const Src& s, a0_packet_t* p, a0_flat_packet_t* f) {
  std::vector<std::string> keys = {random_key(ctx.rng), "absent-key"};
  if (!s.hdrs.empty()) keys.push_back(ctx.rng.pick(s.hdrs).first);
  for (auto& k : keys) {
    Hdrs want, got;
    for (auto& h : s.hdrs)
      if (h.first == k) want.push_back(h);
    a0_packet_header_t h;
    std::unique_ptr<char[]> kk(new char[k.size() + 1]);
    memcpy(kk.get(), k.c_str(), k.size() + 1);
    if (p) {
      a0_packet_header_iterator_t it;
      a0_packet_header_iterator_init(&it, p);
      while (!a0_packet_header_iterator_next_match(&it, kk.get(), &h)) got.push_back({h.key, h.val});
    } else {
      a0_flat_packet_header_iterator_t it;
      a0_flat_packet_header_iterator_init(&it, f);
      while (!a0_flat_packet_header_iterator_next_match(&it, kk.get(), &h)) got.push_back({h.key, h.val});
    }
    expect_headers(ctx, want, got, p ? "match" : "flat-match");
  }
}

void check_packet(Ctx& ctx, const Src& s, a0_packet_t* p, const char* where) {
  EXPECT(s.id == std::string(p->id), strf("id:%s", where), "id changed");
  expect_headers(ctx, s.hdrs, collect(ctx, p), where);
  EXPECT(p->payload.size == s.body.size(), strf("payload-size:%s", where), "payload %zu instead of %zu", p->payload.size, s.body.size());
  EXPECT(!s.body.size() || !memcmp(p->payload.data, s.body.data(), s.body.size()), strf("payload:%s", where), "payload bytes differ");
  a0_packet_stats_t st;
  a0_packet_stats(*p, &st);
  size_t serial = sizeof(a0_uuid_t) + 8 + 16 * s.hdrs.size() + 8 + s.content;
  EXPECT(st.num_hdrs == s.hdrs.size() && st.content_size == s.content && st.serial_size == serial, strf("stats:%s", where),
         "stats %zu/%zu/%zu expected %zu/%zu/%zu", st.num_hdrs, st.content_size, st.serial_size, s.hdrs.size(), s.content, serial);
  check_match(ctx, s, p, nullptr);
}

bool inside(const void* p, const a0_buf_t& b) { return (uint8_t*)p >= b.data && (uint8_t*)p <= b.data + b.size; }

void check_owned(Ctx& ctx, a0_packet_t* p, const a0_buf_t& buf, const char* where) {
  bool ok = !p->payload.size || (inside(p->payload.data, buf) && inside(p->payload.data + p->payload.size, buf));
  ok = ok && (!p->headers_block.size || inside(p->headers_block.headers, buf)) && !p->headers_block.next_block;
  for (size_t i = 0; i < p->headers_block.size && ok; i++) ok = inside(p->headers_block.headers[i].key, buf) && inside(p->headers_block.headers[i].val, buf);
  EXPECT(ok, strf("alias:%s", where), "the copy refers to memory outside its own buffer");
}

void run_case(Ctx& ctx) {
  Rng& r = ctx.rng;
  ctx.desc("packet");
  auto s = std::make_unique<Src>();
  make(r, *s);
  ctx.log(show(*s));
  check_packet(ctx, *s, &s->p, "source");
  Src keep;  // expectations that outlive the source
  keep.hdrs = s->hdrs;
  keep.id = s->id;
  keep.body = s->body;
  keep.content = s->content;
  size_t serial = sizeof(a0_uuid_t) + 8 + 16 * s->hdrs.size() + 8 + s->content;

  Mem m1{0xEE}, m2{0x11};
  a0_flat_packet_t f1, f2;
  EXPECT(!a0_packet_serialize(s->p, alloc_of(m1), &f1), "serialize-fails", "serialize failed");
  EXPECT(!a0_packet_serialize(s->p, alloc_of(m2), r.chance(50) ? &f2 : nullptr), "serialize-fails", "serialize failed");
  f2.buf = {m2.held.back().get(), m2.sizes.back()};
  EXPECT(m1.sizes.size() == 1 && m1.sizes[0] == serial, "serialize-size", "asked for %zu bytes instead of %zu", m1.sizes[0], serial);
  EXPECT(f1.buf.size == serial && !memcmp(f1.buf.data, f2.buf.data, serial), "serialize-incomplete", "bytes of the serialized form were left unwritten");
  ctx.eval();

  Mem mc{0x77};
  a0_packet_t copy;
  a0_buf_t copybuf;
  EXPECT(!a0_packet_deep_copy(s->p, alloc_of(mc), &copy, &copybuf), "copy-fails", "deep copy failed");
  check_owned(ctx, &copy, copybuf, "copy");

  // The C++ wrapper of the same packet.
  {
    bool deleted = false;
    {
      a0::Packet x(s->p, [&](a0_packet_t*) { deleted = true; });
      Hdrs hs(x.headers().begin(), x.headers().end());
      expect_headers(ctx, keep.hdrs, hs, "cpp");
      EXPECT(std::string(x.id().data(), x.id().size()) == keep.id, "id:cpp", "id changed");
      EXPECT(x.payload().size() == keep.body.size() && (keep.body.empty() || !memcmp(x.payload().data(), keep.body.data(), keep.body.size())), "payload:cpp", "payload changed");
      check_packet(ctx, keep, x.c.get(), "cpp-c");
      EXPECT(!deleted, "cpp-deleter", "deleter ran early");
    }
    EXPECT(deleted, "cpp-deleter", "deleter did not run");
    std::unordered_multimap<std::string, std::string> mm(keep.hdrs.begin(), keep.hdrs.end());
    a0::Packet y = r.chance(50) ? a0::Packet(mm, keep.body) : a0::Packet(mm, a0::string_view(keep.body.data(), keep.body.size()), a0::ref);
    EXPECT(y.id().size() == A0_UUID_SIZE && y.id().data() != nullptr, "id:cpp-new", "new packet has no id");
    Src k2;
    k2.hdrs = keep.hdrs;
    k2.body = keep.body;
    k2.content = keep.content;
    k2.id = std::string(y.id().data(), y.id().size());
    check_packet(ctx, k2, y.c.get(), "cpp-new");
  }

  s.reset();  // copies have to live on without the source
  check_packet(ctx, keep, &copy, "copy");

  // The flat form in place.
  auto check_flat = [&](a0_flat_packet_t f, const char* where) {
    a0_uuid_t* id;
    a0_flat_packet_id(f, &id);
    EXPECT(std::string(*id) == keep.id, strf("id:%s", where), "id changed");
    a0_packet_stats_t st;
    a0_flat_packet_stats(f, &st);
    EXPECT(st.num_hdrs == keep.hdrs.size() && st.content_size == keep.content && st.serial_size == serial, strf("stats:%s", where), "stats %zu/%zu/%zu", st.num_hdrs, st.content_size, st.serial_size);
    a0_buf_t pl;
    a0_flat_packet_payload(f, &pl);
    EXPECT(pl.size == keep.body.size() && (!pl.size || !memcmp(pl.data, keep.body.data(), pl.size)), strf("payload:%s", where), "payload differs");
    Hdrs got, got2;
    a0_packet_header_t h;
    for (size_t i = 0; i < keep.hdrs.size(); i++) {
      EXPECT(!a0_flat_packet_header(f, i, &h), strf("headers:%s", where), "header %zu missing", i);
      got.push_back({h.key, h.val});
    }
    EXPECT(a0_flat_packet_header(f, keep.hdrs.size() + r.below(3), &h) != A0_OK, strf("headers:%s", where), "a header beyond the last one");
    expect_headers(ctx, keep.hdrs, got, where);
    a0_flat_packet_header_iterator_t it;
    a0_flat_packet_header_iterator_init(&it, &f);
    while (!a0_flat_packet_header_iterator_next(&it, &h)) got2.push_back({h.key, h.val});
    expect_headers(ctx, keep.hdrs, got2, where);
    check_match(ctx, keep, nullptr, &f);
    a0::FlatPacket x;
    x.c = std::make_shared<a0_flat_packet_t>(f);
    Hdrs got3;
    for (size_t i = 0; i < x.num_headers(); i++) {
      auto kv = x.header(i);
      got3.push_back({std::string(kv.first.data(), kv.first.size()), std::string(kv.second.data(), kv.second.size())});
    }
    expect_headers(ctx, keep.hdrs, got3, "flat-cpp");
    EXPECT(std::string(x.id().data(), x.id().size()) == keep.id, "id:flat-cpp", "id changed");
    EXPECT(x.payload().size() == keep.body.size(), "payload:flat-cpp", "payload size differs");
  };
  check_flat(f1, "flat");

  // Deserialize, then forget the flat form.
  Mem md{0x55};
  a0_packet_t back;
  a0_buf_t backbuf;
  EXPECT(!a0_packet_deserialize(f1, alloc_of(md), &back, &backbuf), "deserialize-fails", "deserialize failed");
  check_owned(ctx, &back, backbuf, "deserialize");
  m1.held.clear();
  check_packet(ctx, keep, &back, "deserialize");
  EXPECT(md.sizes.size() == 1 && md.sizes[0] == keep.hdrs.size() * sizeof(a0_packet_header_t) + keep.content, "deserialize-size", "asked for %zu bytes", md.sizes[0]);

  // And once more around.
  Mem m3{0x33};
  a0_flat_packet_t f3;
  a0_packet_serialize(r.chance(50) ? back : copy, alloc_of(m3), &f3);
  EXPECT(f3.buf.size == serial, "again-size", "serializing again gives %zu bytes instead of %zu", f3.buf.size, serial);
  check_flat(f3, "again");
  uint64_t h = keep.body.size() * 131 + keep.hdrs.size();
  for (auto& kv : keep.hdrs) h = mix(h, kv.first.size() * 1000 + kv.second.size());
  if (!keep.hdrs.empty()) ctx.distinct(h);
  if (keep.body.empty()) ctx.count("empty_payloads");
  ctx.count("headers", keep.hdrs.size());
  ctx.sample(ctx.trace);
}
}  // namespace

int main(int argc, char** argv) { return harness_main(argc, argv, run_case); }
