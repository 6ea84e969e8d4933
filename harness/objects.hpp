// Every kind of object the library offers, opened, used and closed in random ways.
#pragma once
#include <a0/cfg.h>
#include <a0/cfg.hpp>
#include <a0/deadman.h>
#include <a0/deadman.hpp>
#include <a0/discovery.h>
#include <a0/discovery.hpp>
#include <a0/file.h>
#include <a0/file.hpp>
#include <a0/log.h>
#include <a0/log.hpp>
#include <a0/middleware.h>
#include <a0/middleware.hpp>
#include <a0/prpc.h>
#include <a0/prpc.hpp>
#include <a0/pubsub.h>
#include <a0/pubsub.hpp>
#include <a0/pathglob.h>
#include <a0/reader.h>
#include <a0/reader.hpp>
#include <a0/rpc.h>
#include <a0/rpc.hpp>
#include <a0/uuid.h>
#include <a0/writer.h>
#include <a0/writer.hpp>

#include <atomic>
#include <memory>
#include <mutex>
#include <set>
#include <thread>

#include "packets.hpp"

namespace {

std::atomic<uint64_t> g_calls{0}, g_callbacks{0};

// The user's allocator: hands out blocks and frees what was not given back at its end.
struct Pool {
  std::mutex mu;
  std::set<void*> live;
  ~Pool() {
    for (void* p : live) free(p);
  }
  static a0_err_t get(void* u, size_t n, a0_buf_t* out) {
    Pool* p = (Pool*)u;
    out->data = (uint8_t*)malloc(n);
    out->size = n;
    std::lock_guard<std::mutex> g(p->mu);
    p->live.insert(out->data);
    return A0_OK;
  }
  static a0_err_t put(void* u, a0_buf_t b) {
    Pool* p = (Pool*)u;
    std::lock_guard<std::mutex> g(p->mu);
    p->live.erase(b.data);
    free(b.data);
    return A0_OK;
  }
  a0_alloc_t alloc(bool with_dealloc = true) { return {this, get, with_dealloc ? put : nullptr}; }
};

// Touches every byte of a packet, so that the address checker sees it.
inline uint64_t touch(a0_packet_t p) {
  uint64_t h = hash_bytes(p.payload.data, p.payload.size);
  a0_packet_header_iterator_t it;
  a0_packet_header_t hd;
  a0_packet_header_iterator_init(&it, &p);
  while (!a0_packet_header_iterator_next(&it, &hd)) h += strlen(hd.key) + strlen(hd.val);
  return h + strlen(p.id);
}
inline void touch(a0::Packet p) {
  volatile uint64_t s = 0;
  for (char c : p.payload()) s = s + c;
  for (auto& kv : p.headers()) s = s + kv.first.size() + kv.second.size();
  g_callbacks++;
}
inline void on_pkt(void*, a0_packet_t p) {
  volatile uint64_t x = touch(p);
  (void)x;
  g_callbacks++;
}
inline void on_zc(void*, a0_transport_locked_t, a0_flat_packet_t f) {
  volatile uint64_t x = hash_bytes(f.buf.data, f.buf.size);
  (void)x;
  g_callbacks++;
}

struct Obj {
  std::string kind;
  bool shareable = false;  // several threads may use it at once
  std::function<void(Rng&)> use = [](Rng&) {};
  std::function<void()> close = [] {};
};
using ObjP = std::unique_ptr<Obj>;

struct Env {
  std::string prefix;  // of topic names
  int ntopics = 2;
  bool may_block = true;

  std::string topic(Rng& r) const { return prefix + strf("t%d", (int)r.below(ntopics)); }
};

struct Pay {
  std::string body;
  Hdrs h;
  explicit Pay(Rng& r, bool json = false) {
    body = json ? strf("{\"a\":%d,\"b\":{\"c\":\"%s\"}}", (int)r.below(100), std::string(r.below(40), 'q').c_str()) : std::string(r.below(r.chance(90) ? 60 : 600), 'x');
    if (!json)
      for (size_t i = r.below(4); i > 0; i--) h.push_back({strf("h%d", (int)r.below(3)), strf("%d", (int)r.below(1000))});
  }
};
inline a0_file_options_t small_file(Rng& r) {
  a0_file_options_t o = A0_FILE_OPTIONS_DEFAULT;
  o.create_options.size = r.chance(5) ? o.create_options.size : 4096 * (4 + r.below(8));
  return o;
}
inline a0::File::Options small_file_cpp(Rng& r) {
  a0::File::Options o = a0::File::Options::DEFAULT;
  o.create_options.size = small_file(r).create_options.size;
  return o;
}
inline a0_reader_options_t ropts(Rng& r) { return {(a0_reader_init_t)r.below(3), (a0_reader_iter_t)r.below(2)}; }
inline a0::Reader::Options ropts_cpp(Rng& r) { return {(a0::Reader::Init)r.below(3), (a0::Reader::Iter)r.below(2)}; }
inline a0_time_mono_t soon(int64_t ns) {
  a0_time_mono_t t;
  a0_time_mono_now(&t);
  a0_time_mono_add(t, ns, &t);
  return t;
}
inline a0_middleware_t middleware(Rng& r) {
  switch (r.below(7)) {
    case 0: return a0_add_time_mono_header();
    case 1: return a0_add_time_wall_header();
    case 2: return a0_add_writer_id_header();
    case 3: return a0_add_writer_seq_header();
    case 4: return a0_add_transport_seq_header();
    case 5: return a0_add_standard_headers();
    default: {
      a0_middleware_t m;
      a0_middleware_compose(a0_add_writer_id_header(), a0_add_time_mono_header(), &m);
      return m;
    }
  }
}
inline a0::Middleware middleware_cpp(Rng& r) {
  switch (r.below(6)) {
    case 0: return a0::add_time_mono_header();
    case 1: return a0::add_time_wall_header();
    case 2: return a0::add_writer_id_header();
    case 3: return a0::add_writer_seq_header();
    case 4: return a0::add_transport_seq_header();
    default: return a0::add_standard_headers();
  }
}

struct Problem {
  std::string what;
};
#define OK_OR(what, expr)                                                      \
  do {                                                                         \
    a0_err_t e__ = (expr);                                                     \
    if (e__) throw Problem{strf("%s gives %s", what, errname(e__).c_str())};   \
    g_calls++;                                                                 \
  } while (0)
// A call that may find nothing to do.
#define MAY(expr)  \
  do {             \
    (void)(expr);  \
    g_calls++;     \
  } while (0)

template <class T>
std::shared_ptr<T> held() { return std::make_shared<T>(); }

inline std::string root_path(const Env& e, const std::string& t) { return std::string(getenv("A0_ROOT")) + "/" + t + ".raw.a0"; }

// ---- files, raw readers and writers -------------------------------------------

struct CFile {
  a0_file_t f{};
  ~CFile() {
    if (f.path) a0_file_close(&f);  // whatever was to use it could not be opened
  }
  void open(Rng& r, const std::string& path) {
    a0_file_options_t o = small_file(r);
    OK_OR("opening a file", a0_file_open(path.c_str(), r.chance(80) ? &o : nullptr, &f));
  }
};

inline ObjP make_file(const Env& e, Rng& r) {
  auto o = ObjP(new Obj);
  std::string p = root_path(e, e.topic(r));
  if (r.chance(50)) {
    o->kind = "file";
    auto path = std::make_shared<std::string>(p);
    auto f = held<CFile>();
    f->open(r, *path);
    o->use = [f](Rng&) {
      volatile uint8_t b = f->f.arena.buf.data[f->f.arena.buf.size - 1];
      (void)b;
    };
    o->close = [f, path] { OK_OR("closing a file", a0_file_close(&f->f)); };
  } else {
    o->kind = "C++ file";
    auto f = std::make_shared<a0::File>(p, small_file_cpp(r));
    o->use = [f](Rng&) {
      f->path();
      f->stat();
      a0::Arena a = *f;
    };
    o->close = [f]() mutable { f.reset(); };
    auto raw = std::make_shared<std::shared_ptr<a0::File>>(f);
    o->use = [raw](Rng&) { (*raw)->path(); };
    o->close = [raw] { raw->reset(); };
  }
  return o;
}

inline ObjP make_writer(const Env& e, Rng& r) {
  auto o = ObjP(new Obj);
  o->shareable = true;
  std::string p = root_path(e, e.topic(r));
  if (r.chance(60)) {
    o->kind = "writer";
    struct S {
      std::string path;
      CFile f;
      std::vector<std::unique_ptr<a0_writer_t>> w;
    };
    auto s = held<S>();
    s->path = p;
    s->f.open(r, s->path);
    s->w.emplace_back(new a0_writer_t);
    OK_OR("a writer", a0_writer_init(s->w[0].get(), s->f.f.arena));
    for (size_t i = r.below(3); i > 0; i--) OK_OR("pushing", a0_writer_push(s->w.back().get(), middleware(r)));
    for (size_t i = r.below(3); i > 0; i--) {
      std::unique_ptr<a0_writer_t> n(new a0_writer_t);
      OK_OR("wrapping", a0_writer_wrap(s->w.back().get(), middleware(r), n.get()));
      s->w.push_back(std::move(n));
    }
    o->use = [s](Rng& r) {
      Pay p(r);
      CPacket c(r, p.h, p.body);
      OK_OR("writing", a0_writer_write(s->w[r.below(s->w.size())].get(), c.p));
    };
    o->close = [s] {
      while (!s->w.empty()) {
        OK_OR("closing a writer", a0_writer_close(s->w.back().get()));
        s->w.pop_back();
      }
      OK_OR("closing a file", a0_file_close(&s->f.f));
    };
  } else {
    o->kind = "C++ writer";
    struct S {
      a0::File f;
      a0::Writer w, w2;
    };
    auto s = std::make_shared<std::unique_ptr<S>>(new S);
    (*s)->f = a0::File(p, small_file_cpp(r));
    (*s)->w = a0::Writer((*s)->f);
    if (r.chance(50)) (*s)->w.push(middleware_cpp(r));
    (*s)->w2 = r.chance(50) ? (*s)->w.wrap(middleware_cpp(r)) : (*s)->w;
    o->use = [s](Rng& r) {
      Pay p(r);
      (r.chance(50) ? (*s)->w : (*s)->w2).write(p.body);
      g_calls++;
    };
    o->close = [s] {
      (*s)->w2 = a0::Writer();
      (*s)->w = a0::Writer();
      s->reset();
    };
  }
  return o;
}

inline ObjP make_reader(const Env& e, Rng& r) {
  auto o = ObjP(new Obj);
  std::string p = root_path(e, e.topic(r));
  bool block = e.may_block;
  int k = r.below(8);
  struct S {
    std::string path;
    CFile f;
    Pool pool;
    a0_reader_sync_zc_t sz;
    a0_reader_sync_t sy;
    a0_reader_zc_t z;
    a0_reader_t t;
  };
  if (k < 4) {
    const char* names[] = {"sync zc reader", "sync reader", "zc reader", "reader"};
    o->kind = names[k];
    auto s = held<S>();
    s->path = p;
    s->f.open(r, s->path);
    a0_arena_t a = s->f.f.arena;
    if (k == 0) OK_OR("a reader", a0_reader_sync_zc_init(&s->sz, a, ropts(r)));
    if (k == 1) OK_OR("a reader", a0_reader_sync_init(&s->sy, a, s->pool.alloc(r.chance(50)), ropts(r)));
    if (k == 2) OK_OR("a reader", a0_reader_zc_init(&s->z, a, ropts(r), {nullptr, on_zc}));
    if (k == 3) OK_OR("a reader", a0_reader_init(&s->t, a, s->pool.alloc(), ropts(r), {nullptr, on_pkt}));
    o->use = [s, k, block](Rng& r) {
      bool b;
      a0_packet_t p;
      a0_time_mono_t t = soon(block ? r.below(200000) : -1);
      if (k == 0) {
        OK_OR("can_read", a0_reader_sync_zc_can_read(&s->sz, &b));
        if (r.chance(70)) MAY(a0_reader_sync_zc_read(&s->sz, {nullptr, on_zc}));
        else MAY(a0_reader_sync_zc_read_blocking_timeout(&s->sz, &t, {nullptr, on_zc}));
      } else if (k == 1) {
        OK_OR("can_read", a0_reader_sync_can_read(&s->sy, &b));
        a0_err_t e = r.chance(70) ? a0_reader_sync_read(&s->sy, &p) : a0_reader_sync_read_blocking_timeout(&s->sy, &t, &p);
        if (!e) on_pkt(nullptr, p);
        g_calls++;
      } else {
        // Where a frame is, or was a moment ago.
        a0_transport_t t;
        a0_transport_locked_t lk;
        a0_transport_frame_t* fr;
        size_t off = 0;
        OK_OR("a transport", a0_transport_init(&t, s->f.f.arena));
        OK_OR("locking", a0_transport_lock(&t, &lk));
        if (!(r.chance(50) ? a0_transport_jump_head(lk) : a0_transport_jump_tail(lk)) && !a0_transport_frame(lk, &fr)) off = (uint8_t*)fr - s->f.f.arena.buf.data;
        OK_OR("unlocking", a0_transport_unlock(lk));
        if (off) MAY(a0_read_random_access(s->f.f.arena, off, {nullptr, on_zc}));
      }
    };
    o->close = [s, k] {
      if (k == 0) OK_OR("closing a reader", a0_reader_sync_zc_close(&s->sz));
      if (k == 1) OK_OR("closing a reader", a0_reader_sync_close(&s->sy));
      if (k == 2) OK_OR("closing a reader", a0_reader_zc_close(&s->z));
      if (k == 3) OK_OR("closing a reader", a0_reader_close(&s->t));
      OK_OR("closing a file", a0_file_close(&s->f.f));
    };
  } else {
    struct X {
      a0::File f;
      a0::ReaderSyncZeroCopy sz;
      a0::ReaderSync sy;
      a0::ReaderZeroCopy z;
      a0::Reader t;
    };
    const char* names[] = {"C++ sync zc reader", "C++ sync reader", "C++ zc reader", "C++ reader"};
    o->kind = names[k - 4];
    auto s = std::make_shared<std::unique_ptr<X>>(new X);
    X& x = **s;
    x.f = a0::File(p, small_file_cpp(r));
    if (k == 4) x.sz = a0::ReaderSyncZeroCopy(x.f, ropts_cpp(r));
    if (k == 5) x.sy = a0::ReaderSync(x.f, ropts_cpp(r));
    if (k == 6) x.z = a0::ReaderZeroCopy(x.f, ropts_cpp(r), [](a0::TransportLocked, a0::FlatPacket f) { g_callbacks += f.payload().size() > 0; });
    if (k == 7) x.t = a0::Reader(x.f, ropts_cpp(r), [](a0::Packet p) { touch(p); });
    o->use = [s, k, block](Rng& r) {
      X& x = **s;
      try {
        auto t = a0::TimeMono::now() + std::chrono::nanoseconds(block ? r.below(200000) : 0);
        auto cb = [](a0::TransportLocked, a0::FlatPacket f) { g_callbacks += f.payload().size() > 0; };
        if (k == 4) {
          x.sz.can_read();
          if (r.chance(60)) x.sz.read(cb);
          else x.sz.read_blocking(t, cb);
        }
        if (k == 5) {
          x.sy.can_read();
          touch(r.chance(60) ? x.sy.read() : x.sy.read_blocking(t));
        }
      } catch (const std::exception&) {
      }
      g_calls++;
    };
    o->close = [s] {
      X& x = **s;
      x.sz = {};
      x.sy = {};
      x.z = {};
      x.t = {};
      s->reset();
    };
  }
  return o;
}

// ---- publishers and subscribers -------------------------------------------------

inline ObjP make_publisher(const Env& e, Rng& r) {
  auto o = ObjP(new Obj);
  o->shareable = true;
  std::string t = e.topic(r);
  if (r.chance(50)) {
    o->kind = "publisher";
    auto p = held<a0_publisher_t>();
    auto fo = small_file(r);
    OK_OR("a publisher", a0_publisher_init(p.get(), {t.c_str(), r.chance(80) ? &fo : nullptr}));
    if (r.chance(30)) {
      a0_writer_t* w;
      OK_OR("publisher's writer", a0_publisher_writer(p.get(), &w));
      OK_OR("pushing", a0_writer_push(w, middleware(r)));
    }
    o->use = [p](Rng& r) {
      Pay y(r);
      CPacket c(r, y.h, y.body);
      OK_OR("publishing", a0_publisher_pub(p.get(), c.p));
    };
    o->close = [p] { OK_OR("closing a publisher", a0_publisher_close(p.get())); };
  } else {
    o->kind = "C++ publisher";
    auto p = std::make_shared<a0::Publisher>(a0::PubSubTopic(t, small_file_cpp(r)));
    o->use = [p](Rng& r) {
      Pay y(r);
      if (r.chance(80)) p->pub({y.h.begin(), y.h.end()}, y.body);
      else p->writer().write(y.body);
      g_calls++;
    };
    o->close = [p] { *p = a0::Publisher(); };
  }
  return o;
}

inline ObjP make_subscriber(const Env& e, Rng& r) {
  auto o = ObjP(new Obj);
  std::string t = e.topic(r);
  bool block = e.may_block;
  int k = r.below(8);
  if (k < 4) {
    struct S {
      Pool pool;
      a0_subscriber_sync_zc_t sz;
      a0_subscriber_sync_t sy;
      a0_subscriber_zc_t z;
      a0_subscriber_t t;
    };
    const char* names[] = {"sync zc subscriber", "sync subscriber", "zc subscriber", "subscriber"};
    o->kind = names[k];
    auto s = held<S>();
    auto fo = small_file(r);
    a0_pubsub_topic_t tp = {t.c_str(), &fo};
    if (k == 0) OK_OR("a subscriber", a0_subscriber_sync_zc_init(&s->sz, tp, ropts(r)));
    if (k == 1) OK_OR("a subscriber", a0_subscriber_sync_init(&s->sy, tp, s->pool.alloc(), ropts(r)));
    if (k == 2) OK_OR("a subscriber", a0_subscriber_zc_init(&s->z, tp, ropts(r), {nullptr, on_zc}));
    if (k == 3) OK_OR("a subscriber", a0_subscriber_init(&s->t, tp, s->pool.alloc(), ropts(r), {nullptr, on_pkt}));
    o->use = [s, k, block](Rng& r) {
      bool b;
      a0_packet_t p;
      a0_time_mono_t t = soon(block ? r.below(200000) : -1);
      if (k == 0) {
        OK_OR("can_read", a0_subscriber_sync_zc_can_read(&s->sz, &b));
        if (r.chance(60)) MAY(a0_subscriber_sync_zc_read(&s->sz, {nullptr, on_zc}));
        else MAY(a0_subscriber_sync_zc_read_blocking_timeout(&s->sz, &t, {nullptr, on_zc}));
      } else if (k == 1) {
        OK_OR("can_read", a0_subscriber_sync_can_read(&s->sy, &b));
        a0_err_t e = r.chance(60) ? a0_subscriber_sync_read(&s->sy, &p) : a0_subscriber_sync_read_blocking_timeout(&s->sy, &t, &p);
        if (!e) on_pkt(nullptr, p);
        g_calls++;
      }
    };
    o->close = [s, k] {
      if (k == 0) OK_OR("closing a subscriber", a0_subscriber_sync_zc_close(&s->sz));
      if (k == 1) OK_OR("closing a subscriber", a0_subscriber_sync_close(&s->sy));
      if (k == 2) OK_OR("closing a subscriber", a0_subscriber_zc_close(&s->z));
      if (k == 3) OK_OR("closing a subscriber", a0_subscriber_close(&s->t));
    };
  } else {
    struct X {
      a0::SubscriberSyncZeroCopy sz;
      a0::SubscriberSync sy;
      a0::SubscriberZeroCopy z;
      a0::Subscriber t;
    };
    const char* names[] = {"C++ sync zc subscriber", "C++ sync subscriber", "C++ zc subscriber", "C++ subscriber"};
    o->kind = names[k - 4];
    auto s = std::make_shared<std::unique_ptr<X>>(new X);
    X& x = **s;
    a0::PubSubTopic tp(t, small_file_cpp(r));
    if (k == 4) x.sz = a0::SubscriberSyncZeroCopy(tp, ropts_cpp(r));
    if (k == 5) x.sy = a0::SubscriberSync(tp, ropts_cpp(r));
    if (k == 6) x.z = a0::SubscriberZeroCopy(tp, ropts_cpp(r), [](a0::TransportLocked, a0::FlatPacket f) { g_callbacks += f.payload().size() > 0; });
    if (k == 7) x.t = a0::Subscriber(tp, ropts_cpp(r), [](a0::Packet p) { touch(p); });
    o->use = [s, k, block](Rng& r) {
      X& x = **s;
      try {
        auto t = a0::TimeMono::now() + std::chrono::nanoseconds(block ? r.below(200000) : 0);
        auto cb = [](a0::TransportLocked, a0::FlatPacket f) { g_callbacks += f.payload().size() > 0; };
        if (k == 4) {
          x.sz.can_read();
          if (r.chance(60)) x.sz.read(cb);
          else x.sz.read_blocking(t, cb);
        }
        if (k == 5) {
          x.sy.can_read();
          touch(r.chance(60) ? x.sy.read() : x.sy.read_blocking(t));
        }
      } catch (const std::exception&) {
      }
      g_calls++;
    };
    o->close = [s] { s->reset(); };
  }
  return o;
}

// ---- RPC ------------------------------------------------------------------------

inline ObjP make_rpc_server(const Env& e, Rng& r) {
  auto o = ObjP(new Obj);
  std::string t = e.topic(r);
  int answers = r.below(3);
  if (r.chance(50)) {
    o->kind = "rpc server";
    struct S {
      Pool pool;
      a0_rpc_server_t s;
      int answers;
      static void onreq(void* u, a0_rpc_request_t q) {
        on_pkt(nullptr, q.pkt);
        a0_packet_t p;
        a0_packet_init(&p);
        for (int i = ((S*)u)->answers; i > 0; i--) MAY(a0_rpc_server_reply(q, p));
      }
      static void oncancel(void*, a0_uuid_t) { g_callbacks++; }
    };
    auto s = held<S>();
    s->answers = answers;
    auto fo = small_file(r);
    OK_OR("an rpc server", a0_rpc_server_init(&s->s, {t.c_str(), &fo}, s->pool.alloc(), {s.get(), S::onreq}, {nullptr, r.chance(70) ? S::oncancel : nullptr}));
    o->close = [s] { OK_OR("closing an rpc server", a0_rpc_server_close(&s->s)); };
  } else {
    o->kind = "C++ rpc server";
    std::function<void(a0::string_view)> oc;
    if (r.chance(70)) oc = [](a0::string_view) { g_callbacks++; };
    auto s = std::make_shared<a0::RpcServer>(
        a0::RpcTopic(t, small_file_cpp(r)),
        [answers](a0::RpcRequest q) {
          touch(q.pkt());
          for (int i = answers; i > 0; i--) q.reply("re");
        },
        oc);
    o->close = [s] { *s = a0::RpcServer(); };
  }
  return o;
}

inline ObjP make_rpc_client(const Env& e, Rng& r) {
  auto o = ObjP(new Obj);
  o->shareable = true;
  std::string t = e.topic(r);
  bool block = e.may_block;
  if (r.chance(50)) {
    o->kind = "rpc client";
    struct S {
      Pool pool, pool2;
      a0_rpc_client_t c;
    };
    auto s = held<S>();
    auto fo = small_file(r);
    OK_OR("an rpc client", a0_rpc_client_init(&s->c, {t.c_str(), &fo}, s->pool.alloc()));
    o->use = [s, block](Rng& r) {
      Pay y(r);
      CPacket c(r, y.h, y.body);
      a0_packet_t out;
      if (block && r.chance(20)) {
        a0_time_mono_t t = soon(r.below(3000000));
        if (!a0_rpc_client_send_blocking_timeout(&s->c, c.p, &t, s->pool2.alloc(), &out)) on_pkt(nullptr, out);
        return;
      }
      OK_OR("sending", a0_rpc_client_send(&s->c, c.p, {nullptr, r.chance(85) ? on_pkt : nullptr}));
      if (r.chance(30)) MAY(a0_rpc_client_cancel(&s->c, c.p.id));
    };
    o->close = [s] { OK_OR("closing an rpc client", a0_rpc_client_close(&s->c)); };
  } else {
    o->kind = "C++ rpc client";
    auto s = std::make_shared<a0::RpcClient>(a0::RpcTopic(t, small_file_cpp(r)));
    o->use = [s, block](Rng& r) {
      Pay y(r);
      if (block && r.chance(20)) {
        try {
          touch(s->send_blocking(y.body, a0::TimeMono::now() + std::chrono::nanoseconds(r.below(3000000))));
        } catch (const std::exception&) {
        }
      } else if (r.chance(30)) {
        auto f = s->send(y.body);
        if (block && r.chance(50) && f.wait_for(std::chrono::microseconds(r.below(500))) == std::future_status::ready) touch(f.get());
      } else {
        a0::Packet p(y.body);
        std::string id(p.id());
        s->send(p, r.chance(85) ? std::function<void(a0::Packet)>([](a0::Packet q) { touch(q); }) : nullptr);
        if (r.chance(30)) s->cancel(id);
      }
      g_calls++;
    };
    o->close = [s] { *s = a0::RpcClient(); };
  }
  return o;
}

inline ObjP make_prpc_server(const Env& e, Rng& r) {
  auto o = ObjP(new Obj);
  std::string t = e.topic(r);
  int answers = r.below(4);
  if (r.chance(50)) {
    o->kind = "prpc server";
    struct S {
      Pool pool;
      a0_prpc_server_t s;
      int answers;
      static void onconn(void* u, a0_prpc_connection_t q) {
        on_pkt(nullptr, q.pkt);
        int n = ((S*)u)->answers;
        for (int i = 0; i < n; i++) {
          a0_packet_t p;
          a0_packet_init(&p);
          MAY(a0_prpc_server_send(q, p, i == n - 1));
        }
      }
      static void oncancel(void*, a0_uuid_t) { g_callbacks++; }
    };
    auto s = held<S>();
    s->answers = answers;
    auto fo = small_file(r);
    OK_OR("a prpc server", a0_prpc_server_init(&s->s, {t.c_str(), &fo}, s->pool.alloc(), {s.get(), S::onconn}, {nullptr, r.chance(70) ? S::oncancel : nullptr}));
    o->close = [s] { OK_OR("closing a prpc server", a0_prpc_server_close(&s->s)); };
  } else {
    o->kind = "C++ prpc server";
    std::function<void(a0::string_view)> oc;
    if (r.chance(70)) oc = [](a0::string_view) { g_callbacks++; };
    auto s = std::make_shared<a0::PrpcServer>(
        a0::PrpcTopic(t, small_file_cpp(r)),
        [answers](a0::PrpcConnection q) {
          touch(q.pkt());
          for (int i = 0; i < answers; i++) q.send("re", i == answers - 1);
        },
        oc);
    o->close = [s] { *s = a0::PrpcServer(); };
  }
  return o;
}

inline ObjP make_prpc_client(const Env& e, Rng& r) {
  auto o = ObjP(new Obj);
  o->shareable = true;
  std::string t = e.topic(r);
  if (r.chance(50)) {
    o->kind = "prpc client";
    struct S {
      Pool pool;
      a0_prpc_client_t c;
      static void onprog(void*, a0_packet_t p, bool) { on_pkt(nullptr, p); }
    };
    auto s = held<S>();
    auto fo = small_file(r);
    OK_OR("a prpc client", a0_prpc_client_init(&s->c, {t.c_str(), &fo}, s->pool.alloc()));
    o->use = [s](Rng& r) {
      Pay y(r);
      CPacket c(r, y.h, y.body);
      OK_OR("connecting", a0_prpc_client_connect(&s->c, c.p, {nullptr, r.chance(85) ? S::onprog : nullptr}));
      if (r.chance(30)) MAY(a0_prpc_client_cancel(&s->c, c.p.id));
    };
    o->close = [s] { OK_OR("closing a prpc client", a0_prpc_client_close(&s->c)); };
  } else {
    o->kind = "C++ prpc client";
    auto s = std::make_shared<a0::PrpcClient>(a0::PrpcTopic(t, small_file_cpp(r)));
    o->use = [s](Rng& r) {
      Pay y(r);
      a0::Packet p(y.body);
      std::string id(p.id());
      s->connect(p, r.chance(85) ? std::function<void(a0::Packet, bool)>([](a0::Packet q, bool) { touch(q); }) : nullptr);
      if (r.chance(30)) s->cancel(id);
      g_calls++;
    };
    o->close = [s] { *s = a0::PrpcClient(); };
  }
  return o;
}

// ---- logs -------------------------------------------------------------------------

inline ObjP make_logger(const Env& e, Rng& r) {
  auto o = ObjP(new Obj);
  o->shareable = true;
  std::string t = e.topic(r);
  if (r.chance(50)) {
    o->kind = "logger";
    auto s = held<a0_logger_t>();
    auto fo = small_file(r);
    OK_OR("a logger", a0_logger_init(s.get(), {t.c_str(), &fo}));
    o->use = [s](Rng& r) {
      Pay y(r);
      CPacket c(r, y.h, y.body);
      OK_OR("logging", a0_logger_log(s.get(), (a0_log_level_t)r.below(5), c.p));
    };
    o->close = [s] { OK_OR("closing a logger", a0_logger_close(s.get())); };
  } else {
    o->kind = "C++ logger";
    auto s = std::make_shared<a0::Logger>(a0::LogTopic(t, small_file_cpp(r)));
    o->use = [s](Rng& r) {
      Pay y(r);
      s->log((a0::LogLevel)r.below(5), y.body);
      g_calls++;
    };
    o->close = [s] { *s = a0::Logger(); };
  }
  return o;
}

inline ObjP make_listener(const Env& e, Rng& r) {
  auto o = ObjP(new Obj);
  std::string t = e.topic(r);
  if (r.chance(50)) {
    o->kind = "log listener";
    struct S {
      Pool pool;
      a0_log_listener_t l;
    };
    auto s = held<S>();
    auto fo = small_file(r);
    OK_OR("a listener", a0_log_listener_init(&s->l, {t.c_str(), &fo}, s->pool.alloc(), (a0_log_level_t)r.below(5), ropts(r), {nullptr, on_pkt}));
    o->close = [s] { OK_OR("closing a listener", a0_log_listener_close(&s->l)); };
  } else {
    o->kind = "C++ log listener";
    auto s = std::make_shared<a0::LogListener>(a0::LogTopic(t, small_file_cpp(r)), (a0::LogLevel)r.below(5), ropts_cpp(r), [](a0::Packet p) { touch(p); });
    o->close = [s] { *s = a0::LogListener(); };
  }
  return o;
}

// ---- configuration ------------------------------------------------------------------

inline ObjP make_cfg(const Env& e, Rng& r) {
  auto o = ObjP(new Obj);
  o->shareable = true;
  std::string t = e.topic(r);
  bool block = e.may_block;
  if (r.chance(50)) {
    o->kind = "cfg";
    auto s = held<a0_cfg_t>();
    auto fo = small_file(r);
    OK_OR("a configuration", a0_cfg_init(s.get(), {t.c_str(), &fo}));
    o->use = [s, block](Rng& r) {
      Pay y(r, true);
      CPacket c(r, y.h, y.body);
      Pool pool;
      a0_packet_t out;
      bool b;
      a0_time_mono_t t = soon(block ? r.below(200000) : -1);
      switch (r.below(5)) {
        case 0: OK_OR("writing a configuration", a0_cfg_write(s.get(), c.p)); break;
        case 1: OK_OR("writing a configuration", a0_cfg_write_if_empty(s.get(), c.p, &b)); break;
        case 2: OK_OR("merging", a0_cfg_mergepatch(s.get(), c.p)); break;
        case 3: if (!a0_cfg_read(s.get(), pool.alloc(), &out)) on_pkt(nullptr, out); break;
        default: if (!a0_cfg_read_blocking_timeout(s.get(), pool.alloc(), &t, &out)) on_pkt(nullptr, out); break;
      }
      g_calls++;
    };
    o->close = [s] { OK_OR("closing a configuration", a0_cfg_close(s.get())); };
  } else {
    o->kind = "C++ cfg";
    struct X {
      a0::Cfg c;
      std::vector<a0::Cfg::Var<int>> vars;
      std::mutex mu;  // variables are the user's to protect
    };
    auto s = std::make_shared<std::unique_ptr<X>>(new X);
    (*s)->c = a0::Cfg(a0::CfgTopic(t, small_file_cpp(r)));
    o->use = [s, block](Rng& r) {
      X& x = **s;
      Pay y(r, true);
      g_calls++;
      try {
        switch (r.below(7)) {
          case 0: x.c.write(y.body); break;
          case 1: x.c.write_if_empty(y.body); break;
          case 2: x.c.mergepatch(y.body); break;
          case 3: touch(x.c.read()); break;
          case 4: touch(x.c.read_blocking(a0::TimeMono::now() + std::chrono::nanoseconds(block ? r.below(200000) : 0))); break;
          case 5: {
            std::lock_guard<std::mutex> g(x.mu);
            if (x.vars.size() < 4 || r.chance(50)) x.vars.push_back(x.c.var<int>("/a"));
            else x.vars.erase(x.vars.begin() + r.below(x.vars.size()));
            break;
          }
          default: {
            std::lock_guard<std::mutex> g(x.mu);
            x.c.update_var();
            for (auto& v : x.vars) (void)*v;
            break;
          }
        }
      } catch (const std::exception&) {
      }
    };
    o->close = [s] { s->reset(); };
  }
  return o;
}

inline ObjP make_watcher(const Env& e, Rng& r) {
  auto o = ObjP(new Obj);
  std::string t = e.topic(r);
  int k = r.below(3);
  if (k == 0) {
    o->kind = "cfg watcher";
    struct S {
      Pool pool;
      a0_cfg_watcher_t w;
    };
    auto s = held<S>();
    auto fo = small_file(r);
    OK_OR("a watcher", a0_cfg_watcher_init(&s->w, {t.c_str(), &fo}, s->pool.alloc(), {nullptr, on_pkt}));
    o->close = [s] { OK_OR("closing a watcher", a0_cfg_watcher_close(&s->w)); };
  } else {
    o->kind = k == 1 ? "C++ cfg watcher" : "C++ json watcher";
    a0::CfgTopic tp(t, small_file_cpp(r));
    auto s = std::make_shared<a0::CfgWatcher>();
    if (k == 1) *s = a0::CfgWatcher(tp, std::function<void(a0::Packet)>([](a0::Packet p) { touch(p); }));
    else *s = a0::CfgWatcher(tp, std::function<void(const nlohmann::json&)>([](const nlohmann::json& j) { g_callbacks += j.size() > 0; }));
    o->close = [s] { *s = a0::CfgWatcher(); };
  }
  return o;
}

inline bool asleep(int tid) {
  char buf[600] = {};
  int fd = open(strf("/proc/self/task/%d/stat", tid).c_str(), O_RDONLY | O_CLOEXEC);
  if (fd < 0) return true;
  ssize_t n = read(fd, buf, sizeof(buf) - 1);
  ::close(fd);
  const char* p = n > 0 ? strrchr(buf, ')') : nullptr;
  return p && p[2] == 'S';
}

// ---- dead-man's switches, discovery ---------------------------------------------------

inline ObjP make_deadman(const Env& e, Rng& r) {
  auto o = ObjP(new Obj);
  std::string t = e.topic(r);
  bool block = e.may_block;
  if (r.chance(60)) {
    o->kind = "deadman";
    struct S {
      a0_deadman_t d;
      std::thread blocked;
      std::atomic<int> where{0};
    };
    auto s = held<S>();
    OK_OR("a dead-man's switch", a0_deadman_init(&s->d, {t.c_str()}));
    o->use = [s, block](Rng& r) {
      a0_deadman_state_t st;
      uint64_t tkn = 0;
      a0_time_mono_t t = soon(block ? r.below(200000) : -1);
      if (s->blocked.joinable()) return;
      g_calls++;
      switch (r.below(7)) {
        case 0: MAY(a0_deadman_trytake(&s->d)); break;
        case 1: MAY(a0_deadman_timedtake(&s->d, &t)); break;
        case 2: MAY(a0_deadman_release(&s->d)); break;
        case 3: OK_OR("state", a0_deadman_state(&s->d, &st)); break;
        case 4: MAY(a0_deadman_timedwait_taken(&s->d, &t, &tkn)); break;
        case 5: {
          OK_OR("state", a0_deadman_state(&s->d, &st));
          MAY(a0_deadman_timedwait_released(&s->d, &t, st.tkn));
          break;
        }
        default:
          if (!block || r.chance(60)) break;
          // Somebody waits on this handle until it is closed, or longer than anybody takes to.
          OK_OR("state", a0_deadman_state(&s->d, &st));
          if (st.is_owner) break;
          s->where = 0;
          s->blocked = std::thread([s, st] {
            s->where = a0_tid();
            if (st.is_locked) a0_deadman_wait_released(&s->d, st.tkn);
            else a0_deadman_wait_taken(&s->d, nullptr);
            s->where = -1;
          });
          // It must have made its call before the handle may be closed.
          while (s->where == 0 || (s->where > 0 && !asleep(s->where))) usleep(50);
          break;
      }
    };
    o->close = [s] {
      OK_OR("closing a dead-man's switch", a0_deadman_close(&s->d));
      if (s->blocked.joinable()) s->blocked.join();
    };
  } else {
    o->kind = "C++ deadman";
    auto s = std::make_shared<a0::Deadman>(a0::DeadmanTopic(t));
    o->use = [s, block](Rng& r) {
      g_calls++;
      try {
        auto t = a0::TimeMono::now() + std::chrono::nanoseconds(block ? r.below(200000) : 0);
        switch (r.below(5)) {
          case 0: s->try_take(); break;
          case 1: s->take(t); break;
          case 2: s->release(); break;
          case 3: s->wait_taken(t); break;
          default: s->wait_released(s->state().tkn, t); break;
        }
      } catch (const std::exception&) {
      }
    };
    o->close = [s] { *s = a0::Deadman(); };
  }
  return o;
}

inline ObjP make_discovery(const Env& e, Rng& r) {
  auto o = ObjP(new Obj);
  std::string root = getenv("A0_ROOT");
  const char* pats[] = {"/**/*.a0", "/*.a0", "/**/*.pubsub.a0", "/*/*/x*.a0"};
  std::string pat = root + pats[r.below(4)];
  if (r.chance(50)) {
    o->kind = "discovery";
    struct S {
      a0_discovery_t d;
      static void found(void*, const char* p) { g_callbacks += strlen(p) > 0; }
    };
    auto s = held<S>();
    OK_OR("a discovery", a0_discovery_init(&s->d, pat.c_str(), {nullptr, S::found}));
    o->close = [s] { OK_OR("closing a discovery", a0_discovery_close(&s->d)); };
  } else {
    o->kind = "C++ discovery";
    auto s = std::make_shared<a0::Discovery>(pat, [](const std::string& p) { g_callbacks += p.size() > 0; });
    o->close = [s] { *s = a0::Discovery(); };
  }
  std::string px = e.prefix;
  o->use = [root, px](Rng& r) {
    std::string d = root + "/" + px + strf("d%d", (int)r.below(3));
    mkdir(d.c_str(), 0777);
    std::string f = d + strf("/x%d.a0", (int)r.below(4));
    int fd = open(f.c_str(), O_RDWR | O_CREAT | O_CLOEXEC, 0666);
    if (fd >= 0) ::close(fd);
    if (r.chance(30)) unlink(f.c_str());
    g_calls++;
  };
  return o;
}

// ---- the transport itself, and what needs no object -----------------------------------

inline ObjP make_transport(const Env& e, Rng& r) {
  auto o = ObjP(new Obj);
  o->kind = "transport";
  struct S {
    std::string path;
    CFile f;
    a0_transport_t t;
  };
  auto s = held<S>();
  s->path = root_path(e, e.topic(r));
  s->f.open(r, s->path);
  OK_OR("a transport", a0_transport_init(&s->t, s->f.f.arena));
  bool block = e.may_block;
  o->use = [s, block](Rng& r) {
    a0_transport_locked_t lk;
    OK_OR("locking", a0_transport_lock(&s->t, &lk));
    for (size_t i = r.range(1, 4); i > 0; i--) {
      bool b = false;
      size_t n;
      uint64_t q;
      a0_transport_frame_t* fr;
      a0_time_mono_t t = soon(block ? r.below(200000) : -1);
      switch (r.below(8)) {
        case 0:
        case 1: {
          // What readers expect to find is a packet.
          CPacket c(r, {}, std::string(r.below(50), 'y'));
          a0_alloc_t al;
          OK_OR("allocating", a0_transport_allocator(&lk, &al));
          a0_flat_packet_t fp;
          OK_OR("serializing", a0_packet_serialize(c.p, al, &fp));
          if (r.chance(85)) OK_OR("committing", a0_transport_commit(lk));
          else i = 1;  // given up: the lock is released without it
          break;
        }
        case 2: MAY(a0_transport_jump_head(lk)); break;
        case 3: MAY(a0_transport_jump_tail(lk)); break;
        case 4:
          if (!a0_transport_has_next(lk, &b) && b) MAY(a0_transport_step_next(lk));
          break;
        case 5: MAY(a0_transport_timedwait(lk, a0_transport_has_next_pred(&lk), &t)); break;
        case 6:
          MAY(a0_transport_used_space(lk, &n));
          MAY(a0_transport_seq_low(lk, &q));
          MAY(a0_transport_seq_high(lk, &q));
          MAY(a0_transport_empty(lk, &b));
          break;
        default:
          if (!a0_transport_iter_valid(lk, &b) && b && !a0_transport_frame(lk, &fr)) {
            size_t at = (uint8_t*)fr - s->f.f.arena.buf.data;
            if (at > s->f.f.arena.buf.size - kFrameHdr || fr->hdr.data_size > s->f.f.arena.buf.size - kFrameHdr - at) {
              a0_transport_seq_low(lk, &q);
              uint64_t hi;
              a0_transport_seq_high(lk, &hi);
              std::string w = strf("a valid position (%lu at %zu; %lu..%lu are held) is no frame: number %lu, size %zu", (unsigned long)s->t._seq, s->t._off, (unsigned long)q, (unsigned long)hi, (unsigned long)fr->hdr.seq, fr->hdr.data_size);
              a0_transport_unlock(lk);
              throw Problem{w};
            }
            volatile uint64_t h = hash_bytes(fr->data, fr->hdr.data_size);
            (void)h;
          }
      }
    }
    OK_OR("unlocking", a0_transport_unlock(lk));
  };
  o->close = [s] { OK_OR("closing a file", a0_file_close(&s->f.f)); };
  return o;
}

inline ObjP make_nothing(const Env& e, Rng&) {
  auto o = ObjP(new Obj);
  o->kind = "utilities";
  o->shareable = true;
  std::string root = getenv("A0_ROOT");
  o->use = [root](Rng& r) {
    g_calls++;
    switch (r.below(6)) {
      case 0: {
        a0_uuid_t u;
        a0_uuidv4(u);
        break;
      }
      case 1: {
        a0_time_wall_t w;
        char s[36];
        a0_time_wall_now(&w);
        a0_time_wall_str(w, s);
        a0_time_wall_parse(s, &w);
        break;
      }
      case 2: {
        a0_time_mono_t m;
        char s[20];
        a0_time_mono_now(&m);
        a0_time_mono_str(m, s);
        a0_time_mono_parse(s, &m);
        break;
      }
      case 3: {
        a0_file_iter_t it;
        a0_file_iter_entry_t en;
        if (a0_file_iter_init(&it, root.c_str())) break;
        while (!a0_file_iter_next(&it, &en)) {
        }
        a0_file_iter_close(&it);
        break;
      }
      case 4: {
        Pay y(r);
        a0::Packet p({y.h.begin(), y.h.end()}, y.body);
        touch(p);
        break;
      }
      default: {
        a0_file_t f;
        a0_err_t er = a0_file_open((root + "/void.a0/x").c_str(), nullptr, &f) ? A0_OK : a0_file_close(&f);
        a0_file_remove((root + "/missing").c_str());
        a0_strerror(er);
      }
    }
  };
  return o;
}

using Maker = ObjP (*)(const Env&, Rng&);
const Maker kMakers[] = {make_file,       make_writer,     make_reader,      make_publisher, make_subscriber, make_rpc_server, make_rpc_client,
                         make_prpc_server, make_prpc_client, make_logger,      make_listener,  make_cfg,        make_watcher,    make_deadman,
                         make_discovery, make_transport, make_nothing};
constexpr int kNMakers = sizeof(kMakers) / sizeof(kMakers[0]);

}  // namespace
