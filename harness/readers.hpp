// Polling readers of every flavour behind one interface.
#pragma once
#include <a0/pubsub.h>
#include <a0/pubsub.hpp>
#include <a0/reader.h>
#include <a0/reader.hpp>

#include <memory>

#include "tapi.hpp"

struct Got {
  a0_err_t err = A0_OK;
  int calls = 0;  // callbacks made (copying flavours: packets returned)
  std::string id, payload;
  std::vector<std::pair<std::string, std::string>> hdrs;
};

inline void take_flat(Got* g, a0_flat_packet_t f) {
  g->calls++;
  a0_uuid_t* id;
  a0_flat_packet_id(f, &id);
  g->id = std::string(*id);
  a0_buf_t b;
  a0_flat_packet_payload(f, &b);
  g->payload.assign((char*)b.data, b.size);
  a0_packet_stats_t st;
  a0_flat_packet_stats(f, &st);
  g->hdrs.clear();
  for (size_t i = 0; i < st.num_hdrs; i++) {
    a0_packet_header_t h;
    a0_flat_packet_header(f, i, &h);
    g->hdrs.push_back({h.key, h.val});
  }
}
inline void take_packet(Got* g, const a0_packet_t& p) {
  g->calls++;
  g->id = p.id;
  g->payload.assign((char*)p.payload.data, p.payload.size);
  g->hdrs.clear();
  for (const a0_packet_headers_block_t* b = &p.headers_block; b; b = b->next_block)
    for (size_t i = 0; i < b->size; i++) g->hdrs.push_back({b->headers[i].key, b->headers[i].val});
}
inline void take_cpp(Got* g, const a0::Packet& p) {
  g->calls++;
  g->id = std::string(p.id().data(), p.id().size());
  g->payload.assign(p.payload().data(), p.payload().size());
  g->hdrs.clear();
  for (auto& kv : p.headers()) g->hdrs.push_back(kv);
}
inline void on_flat(void* u, a0_transport_locked_t, a0_flat_packet_t f) { take_flat((Got*)u, f); }

struct HeapAlloc {  // exactly sized blocks, all freed by the owner
  std::vector<uint8_t*> blocks;
  static a0_err_t alloc(void* u, size_t n, a0_buf_t* out) {
    uint8_t* p = (uint8_t*)malloc(n ? n : 1);
    ((HeapAlloc*)u)->blocks.push_back(p);
    *out = {p, n};
    return A0_OK;
  }
  static a0_err_t dealloc(void* u, a0_buf_t b) {
    auto& v = ((HeapAlloc*)u)->blocks;
    for (size_t i = 0; i < v.size(); i++)
      if (v[i] == b.data) {
        v.erase(v.begin() + i);
        free(b.data);
        return A0_OK;
      }
    return A0_ERR_INVALID_ARG;
  }
  a0_alloc_t get() { return {this, alloc, dealloc}; }
  void release() {
    for (auto p : blocks) free(p);
    blocks.clear();
  }
  ~HeapAlloc() { release(); }
};

struct Poll {
  virtual ~Poll() {}
  virtual bool can_read() = 0;
  // how: 0 plain, 1 blocking, 2 timed
  virtual Got read(int how, a0_time_mono_t* deadline) = 0;
};

inline a0::Arena cpp_arena(a0_arena_t a) { return a0::Arena(a0::Buf(a.buf.data, a.buf.size), a.mode); }
inline a0::TimeMono cpp_time(a0_time_mono_t* t) {
  a0::TimeMono x = a0::TimeMono::now();
  *x.c = *t;
  return x;
}
inline a0::Reader::Options cpp_opts(a0_reader_options_t o) {
  return {(a0::Reader::Init)o.init, (a0::Reader::Iter)o.iter};
}

template <class T, a0_err_t (*Close)(T*), a0_err_t (*Can)(T*, bool*), a0_err_t (*Read)(T*, a0_zero_copy_callback_t),
          a0_err_t (*Block)(T*, a0_zero_copy_callback_t), a0_err_t (*Timed)(T*, a0_time_mono_t*, a0_zero_copy_callback_t)>
struct PollZc : Poll {
  std::unique_ptr<T> r{new T};
  ~PollZc() { Close(r.get()); }
  bool can_read() override {
    bool b = false;
    if (Can(r.get(), &b)) g_ctx()->fail("can-read-error", "can-read failed");
    return b;
  }
  Got read(int how, a0_time_mono_t* dl) override {
    Got g;
    a0_zero_copy_callback_t cb{&g, on_flat};
    g.err = how == 0 ? Read(r.get(), cb) : how == 1 ? Block(r.get(), cb) : Timed(r.get(), dl, cb);
    return g;
  }
};
template <class T, a0_err_t (*Close)(T*), a0_err_t (*Can)(T*, bool*), a0_err_t (*Read)(T*, a0_packet_t*),
          a0_err_t (*Block)(T*, a0_packet_t*), a0_err_t (*Timed)(T*, a0_time_mono_t*, a0_packet_t*)>
struct PollCopy : Poll {
  std::unique_ptr<T> r{new T};
  HeapAlloc heap;
  ~PollCopy() { Close(r.get()); }
  bool can_read() override {
    bool b = false;
    if (Can(r.get(), &b)) g_ctx()->fail("can-read-error", "can-read failed");
    return b;
  }
  Got read(int how, a0_time_mono_t* dl) override {
    Got g;
    a0_packet_t p;
    g.err = how == 0 ? Read(r.get(), &p) : how == 1 ? Block(r.get(), &p) : Timed(r.get(), dl, &p);
    if (!g.err) take_packet(&g, p);
    heap.release();
    return g;
  }
};
template <class T, class... A>
struct PollCppZc : Poll {
  T r;
  explicit PollCppZc(T t) : r(t) {}
  bool can_read() override { return r.can_read(); }
  Got read(int how, a0_time_mono_t* dl) override {
    Got g;
    auto fn = [&](a0::TransportLocked, a0::FlatPacket f) { take_flat(&g, *f.c); };
    g.err = guard([&] { how == 0 ? r.read(fn) : how == 1 ? r.read_blocking(fn) : r.read_blocking(cpp_time(dl), fn); });
    return g;
  }
};
template <class T>
struct PollCpp : Poll {
  T r;
  explicit PollCpp(T t) : r(t) {}
  bool can_read() override { return r.can_read(); }
  Got read(int how, a0_time_mono_t* dl) override {
    Got g;
    g.err = guard([&] { take_cpp(&g, how == 0 ? r.read() : how == 1 ? r.read_blocking() : r.read_blocking(cpp_time(dl))); });
    return g;
  }
};

constexpr int kPollFlavours = 8;
inline const char* poll_name(int f) {
  static const char* n[] = {"C zero-copy", "C copying", "C++ zero-copy", "C++ copying", "C subscriber zero-copy", "C subscriber copying", "C++ subscriber zero-copy", "C++ subscriber copying"};
  return n[f];
}
inline std::unique_ptr<Poll> make_poll(Ctx& ctx, int flavour, a0_arena_t arena, const std::string& topic, a0_reader_options_t o) {
  a0_pubsub_topic_t t{topic.c_str(), nullptr};
  a0_err_t e = A0_OK;
  std::unique_ptr<Poll> out;
  e = guard([&] {
    switch (flavour) {
      case 0: {
        auto* p = new PollZc<a0_reader_sync_zc_t, a0_reader_sync_zc_close, a0_reader_sync_zc_can_read, a0_reader_sync_zc_read, a0_reader_sync_zc_read_blocking, a0_reader_sync_zc_read_blocking_timeout>;
        out.reset(p);
        if (a0_reader_sync_zc_init(p->r.get(), arena, o)) ctx.harness_error("reader");
        break;
      }
      case 1: {
        auto* p = new PollCopy<a0_reader_sync_t, a0_reader_sync_close, a0_reader_sync_can_read, a0_reader_sync_read, a0_reader_sync_read_blocking, a0_reader_sync_read_blocking_timeout>;
        out.reset(p);
        if (a0_reader_sync_init(p->r.get(), arena, p->heap.get(), o)) ctx.harness_error("reader");
        break;
      }
      case 2: out.reset(new PollCppZc<a0::ReaderSyncZeroCopy>(a0::ReaderSyncZeroCopy(cpp_arena(arena), cpp_opts(o)))); break;
      case 3: out.reset(new PollCpp<a0::ReaderSync>(a0::ReaderSync(cpp_arena(arena), cpp_opts(o)))); break;
      case 4: {
        auto* p = new PollZc<a0_subscriber_sync_zc_t, a0_subscriber_sync_zc_close, a0_subscriber_sync_zc_can_read, a0_subscriber_sync_zc_read, a0_subscriber_sync_zc_read_blocking, a0_subscriber_sync_zc_read_blocking_timeout>;
        out.reset(p);
        if (a0_subscriber_sync_zc_init(p->r.get(), t, o)) ctx.harness_error("reader");
        break;
      }
      case 5: {
        auto* p = new PollCopy<a0_subscriber_sync_t, a0_subscriber_sync_close, a0_subscriber_sync_can_read, a0_subscriber_sync_read, a0_subscriber_sync_read_blocking, a0_subscriber_sync_read_blocking_timeout>;
        out.reset(p);
        if (a0_subscriber_sync_init(p->r.get(), t, p->heap.get(), o)) ctx.harness_error("reader");
        break;
      }
      case 6: out.reset(new PollCppZc<a0::SubscriberSyncZeroCopy>(a0::SubscriberSyncZeroCopy(a0::PubSubTopic(topic), cpp_opts(o)))); break;
      default: out.reset(new PollCpp<a0::SubscriberSync>(a0::SubscriberSync(a0::PubSubTopic(topic), cpp_opts(o))));
    }
  });
  if (e) ctx.fail("reader-create", strf("creating a %s reader failed with %s", poll_name(flavour), errname(e).c_str()));
  return out;
}

// A packet whose payload is a pattern given by its tag, written through a transport.
struct Pkts {
  struct P {
    uint64_t seq;
    std::string id;
    uint64_t tag;
    size_t size;
  };
  static std::string body(uint64_t tag, size_t n) {
    std::string s(n, 0);
    fill_pattern((uint8_t*)&s[0], n, tag);
    return s;
  }
  // Under the caller's lock. False if it does not fit.
  static bool write(Tr& w, uint64_t tag, size_t n, P* out) {
    a0_packet_t p;
    a0_packet_init(&p);
    std::string b = body(tag, n), t = std::to_string(tag);
    a0_packet_header_t h[2] = {{"tag", t.c_str()}, {"k", "v"}};
    p.headers_block = {h, tag % 3, nullptr};
    p.payload = {(uint8_t*)&b[0], b.size()};
    a0_packet_stats_t st;
    a0_packet_stats(p, &st);
    a0_transport_frame_t* f;
    if (w.alloc(st.serial_size, &f)) return false;
    a0_buf_t at{f->data, st.serial_size};
    a0_alloc_t into{&at, [](void* u, size_t, a0_buf_t* o) {
                      *o = *(a0_buf_t*)u;
                      return A0_OK;
                    },
                    nullptr};
    a0_packet_serialize(p, into, nullptr);
    *out = {f->hdr.seq, p.id, tag, n};
    w.commit();
    return true;
  }
  static bool same(const P& p, const Got& g) {
    if (g.id != p.id || g.payload != body(p.tag, p.size) || g.hdrs.size() != p.tag % 3) return false;
    for (auto& kv : g.hdrs)
      if (!(kv.first == "k" && kv.second == "v") && !(kv.first == "tag" && kv.second == std::to_string(p.tag))) return false;
    return true;
  }
};
