// The caller's allocator fails, or a thread cannot be started.
#include <a0/err.h>

#include <condition_variable>

#include "fsutil.hpp"
#include "nothread.hpp"
#include "objects.hpp"

namespace {

// ---------------------------------------------------------------- allocator

// Grants exactly sized blocks, or refuses as planned.
struct Scarce {
  std::mutex mu;
  std::vector<int> plan;  // by call: 0 grant, else the number of the refusal; calls beyond it are granted
  size_t calls = 0, granted = 0, refused = 0;
  std::vector<size_t> refusals;  // the calls that were refused
  std::set<void*> live;
  bool bad_free = false;
  ~Scarce() {
    for (void* p : live) free(p);
  }
  static a0_err_t refusal(int k) {
    switch (k) {
      case 1: return (a0_err_syscode = ENOMEM, A0_ERR_SYS);
      case 2: return (a0_err_syscode = EAGAIN, A0_ERR_SYS);
      case 3: return A0_ERR_NOT_FOUND;
      case 4: return A0_ERR_RANGE;
      default: return A0_ERR_AGAIN;
    }
  }
  static a0_err_t get(void* u, size_t n, a0_buf_t* out) {
    Scarce* s = (Scarce*)u;
    std::lock_guard<std::mutex> g(s->mu);
    size_t i = s->calls++;
    if (i < s->plan.size() && s->plan[i]) {
      s->refused++;
      s->refusals.push_back(i);
      return refusal(s->plan[i]);
    }
    s->granted++;
    *out = {(uint8_t*)malloc(n ? n : 1), n};
    s->live.insert(out->data);
    return A0_OK;
  }
  static a0_err_t put(void* u, a0_buf_t b) {
    Scarce* s = (Scarce*)u;
    std::lock_guard<std::mutex> g(s->mu);
    if (!s->live.erase(b.data)) {
      s->bad_free = true;
      return A0_ERR_INVALID_ARG;
    }
    free(b.data);
    return A0_OK;
  }
  a0_alloc_t alloc() { return {this, get, put}; }
};

std::string named(uint64_t n, Rng& r) { return strf("%lu:", n) + std::string(r.below(r.chance(80) ? 40 : 900), 'p'); }
uint64_t number(const std::string& payload) { return payload.find(':') == std::string::npos ? ~0ull : strtoull(payload.c_str(), nullptr, 10); }
std::string text(a0_buf_t b) { return std::string((char*)b.data, b.size); }

// Polling reads: topic contents are all kept, so the model is the list of payloads.
void polling(Ctx& x) {
  Rng& r = x.rng;
  int how = r.below(4);  // reader, subscriber, configuration, request
  static const char* kHow[] = {"reader", "subscriber", "configuration", "request"};
  std::string topic = strf("p%lu", (unsigned long)x.case_id % 50);
  static const char* kSuffix[] = {".raw.a0", ".pubsub.a0", ".cfg.a0", ".rpc.a0"};
  std::string path = x.scratch + "/root/" + topic + kSuffix[how];
  unlink(path.c_str());
  x.desc(strf("allocator fails | %s", kHow[how]));
  a0_file_options_t fo = A0_FILE_OPTIONS_DEFAULT;
  fo.create_options.size = 1 << 19;
  a0_file_t f;
  a0_writer_t w;
  if (a0_file_open(path.c_str(), &fo, &f) || a0_writer_init(&w, f.arena)) x.harness_error("cannot open the topic");
  std::vector<std::string> all;
  auto write = [&] {
    std::string p = named(all.size(), r);
    Hdrs h;
    for (size_t i = r.below(3); i > 0; i--) h.push_back({strf("k%lu", i), std::string(r.below(30), 'v')});
    CPacket c(r, h, p);
    if (a0_writer_write(&w, c.p)) x.harness_error("cannot write");
    all.push_back(p);
  };
  for (size_t i = r.below(6); i > 0; i--) write();
  Scarce s;
  bool newest = r.chance(40);
  a0_reader_options_t ro = {r.chance(70) ? A0_INIT_OLDEST : A0_INIT_MOST_RECENT, newest ? A0_ITER_NEWEST : A0_ITER_NEXT};
  size_t start = ro.init == A0_INIT_OLDEST || all.empty() ? 0 : all.size() - 1;
  a0_reader_sync_t rd;
  a0_subscriber_sync_t sub;
  a0_cfg_t cfg;
  a0_rpc_client_t cl;
  a0_rpc_server_t sv;
  Pool pool;
  a0_err_t e = A0_OK;
  if (how == 0) e = a0_reader_sync_init(&rd, f.arena, s.alloc(), ro);
  if (how == 1) e = a0_subscriber_sync_init(&sub, {topic.c_str(), &fo}, s.alloc(), ro);
  if (how == 2) e = a0_cfg_init(&cfg, {topic.c_str(), &fo});
  if (how == 3) {
    e = a0_rpc_client_init(&cl, {topic.c_str(), &fo}, pool.alloc());
    if (!e)
      e = a0_rpc_server_init(&sv, {topic.c_str(), &fo}, pool.alloc(), {nullptr, [](void*, a0_rpc_request_t q) {
                               std::string back = "re:" + text(q.pkt.payload);
                               a0_packet_t p;
                               a0_packet_init(&p);
                               p.payload = {(uint8_t*)back.data(), back.size()};
                               a0_rpc_server_reply(q, p);
                             }}, {nullptr, nullptr});
  }
  if (e) x.harness_error("cannot set up: " + errname(e));
  // The position: everything below lo was delivered or refused; the next one delivered is lo or (if refused) lo - 1.
  int64_t next = start, last_refused = -1, last = -1;
  size_t steps = r.range(6, 24), refusals = 0, reads = 0;
  uint64_t sig = how * 8 + newest * 4 + ro.init;
  for (size_t i = 0; i < steps; i++) {
    x.tick();
    if (how != 3 && r.chance(45)) {
      write();
      sig = mix(sig, 1);
      continue;
    }
    size_t c0 = s.calls, g0 = s.granted, f0 = s.refused;
    if (r.chance(40)) {
      // refuse one of the calls to come
      s.plan.resize(s.calls);
      size_t ahead = how == 3 ? r.below(3) : 0;
      s.plan.resize(s.calls + ahead, 0);
      s.plan.push_back(1 + r.below(5));
    } else {
      s.plan.resize(s.calls);
    }
    a0_packet_t p;
    memset(&p, 0xdb, sizeof(p));
    a0_time_mono_t t = soon(r.chance(50) ? -1 : r.below(300000));
    bool timed = r.chance(40);
    std::string sent;
    if (how == 0) e = timed ? a0_reader_sync_read_blocking_timeout(&rd, &t, &p) : a0_reader_sync_read(&rd, &p);
    if (how == 1) e = timed ? a0_subscriber_sync_read_blocking_timeout(&sub, &t, &p) : a0_subscriber_sync_read(&sub, &p);
    if (how == 2) e = timed ? a0_cfg_read_blocking_timeout(&cfg, s.alloc(), &t, &p) : a0_cfg_read(&cfg, s.alloc(), &p);
    if (how == 3) {
      sent = named(i, r);
      a0_packet_t q;
      a0_packet_init(&q);
      q.payload = {(uint8_t*)sent.data(), sent.size()};
      e = a0_rpc_client_send_blocking(&cl, q, s.alloc(), &p);
    }
    int sys = a0_err_syscode;
    reads++;
    x.eval();
    bool refused = s.refused > f0, granted = s.granted > g0;
    sig = mix(sig, 2 + refused * 2 + granted);
    std::string what = strf("%s, read %zu (%s): %zu allocations asked for, %zu granted, %zu refused, gives %s", kHow[how], reads, timed ? "timed" : "plain", s.calls - c0, s.granted - g0, s.refused - f0,
                            errname(e).c_str());
    x.log(strf("%s%s->%s", timed ? "timed " : "", refused ? "refused" : granted ? "granted" : "nothing", errname(e).c_str()));
    if (refused) {
      refusals++;
      int k = s.plan[s.refusals.back()];
      a0_err_t want = Scarce::refusal(k);
      int want_sys = a0_err_syscode;
      CHECK_OR_FAIL(x, e != A0_OK, "refusal-hidden", "the allocator failed but the call succeeded: %s", what.c_str());
      CHECK_OR_FAIL(x, e == want && (e != A0_ERR_SYS || sys == want_sys), "wrong-error", "the allocator failed with %s: %s", errname(want).c_str(), what.c_str());
      if (how < 2) {
        if (newest) next = std::max<int64_t>(next, (int64_t)all.size() - 1);
        last_refused = newest || last < 0 ? (int64_t)all.size() - 1 : next;
        if (!newest) next++;
      }
      x.count("refused_reads");
      continue;
    }
    if (!granted) {
      CHECK_OR_FAIL(x, e != A0_OK, "nothing-allocated", "a packet without memory: %s", what.c_str());
      bool none = how == 2 ? all.empty() : how < 2;
      CHECK_OR_FAIL(x, none || (timed && e == A0_ERR_SYS && sys == ETIMEDOUT), "read-failed", "%s", what.c_str());
      x.count("found_nothing");
      continue;
    }
    CHECK_OR_FAIL(x, e == A0_OK, "read-failed", "every allocation was granted: %s", what.c_str());
    std::string got = text(p.payload);
    if (how == 3) {
      CHECK_OR_FAIL(x, got == "re:" + sent, "wrong-packet", "answer '%s' to '%s': %s", got.substr(0, 20).c_str(), sent.substr(0, 20).c_str(), what.c_str());
    } else {
      uint64_t n = number(got);
      CHECK_OR_FAIL(x, n < all.size() && got == all[n], "wrong-packet", "a packet that was never written: '%s': %s", got.substr(0, 20).c_str(), what.c_str());
      if (how == 2) CHECK_OR_FAIL(x, n + 1 == all.size(), "wrong-packet", "value %lu of %zu: %s", n, all.size(), what.c_str());
      if (how < 2) {
        CHECK_OR_FAIL(x, (int64_t)n > last, "wrong-packet", "packet %lu after packet %ld: %s", n, (long)last, what.c_str());
        // Whether the refused packet comes again or is passed over is left open; nothing else may be.
        if (!newest) CHECK_OR_FAIL(x, (int64_t)n == next || (last_refused >= 0 && (int64_t)n >= std::min<int64_t>(last_refused, next) && (int64_t)n <= next), "wrong-packet", "packet %lu where packet %ld is next (the last refused is %ld): %s", n, (long)next, (long)last_refused, what.c_str());
        last = n;
        next = n + 1;
        last_refused = -1;
      }
    }
    x.count("granted_reads");
    {
      std::lock_guard<std::mutex> g(s.mu);
      for (void* q : s.live) free(q);
      s.live.clear();
    }
  }
  if (how == 0) a0_reader_sync_close(&rd);
  if (how == 1) a0_subscriber_sync_close(&sub);
  if (how == 2) a0_cfg_close(&cfg);
  if (how == 3) {
    a0_rpc_client_close(&cl);
    a0_rpc_server_close(&sv);
  }
  a0_writer_close(&w);
  a0_file_close(&f);
  if (refusals) x.distinct(sig);
  x.count(strf("polled_%s", kHow[how]));
  x.sample(strf("%s %s: ", kHow[how], newest ? "newest" : "sequential") + x.trace);
}

// Background readers: exactly the packets are left out whose memory was refused.
struct Seen {
  std::mutex mu;
  std::condition_variable cv;
  std::vector<std::string> got;
  std::string end;
  bool ended = false;
  void take(const std::string& p) {
    std::lock_guard<std::mutex> g(mu);
    got.push_back(p);
    if (p == end) {
      ended = true;
      cv.notify_all();
    }
  }
  static void on(void* u, a0_packet_t p) { ((Seen*)u)->take(text(p.payload)); }
};

void background(Ctx& x) {
  Rng& r = x.rng;
  enum { READER, SUBSCRIBER, LISTENER, WATCHER, RPC_SERVER, RPC_CLIENT, PRPC_SERVER, PRPC_CLIENT, KINDS };
  static const char* kNames[] = {"reader", "subscriber", "listener", "watcher", "rpc server", "rpc client", "prpc server", "prpc client"};
  static const char* kSuffix[] = {".raw.a0", ".pubsub.a0", ".log.a0", ".cfg.a0", ".rpc.a0", ".rpc.a0", ".prpc.a0", ".prpc.a0"};
  int kind = r.below(KINDS);
  std::string topic = strf("b%lu", (unsigned long)x.case_id % 50);
  std::string path = x.scratch + "/root/" + topic + kSuffix[kind];
  unlink(path.c_str());
  x.desc(strf("allocator fails | background %s", kNames[kind]));
  a0_file_options_t fo = A0_FILE_OPTIONS_DEFAULT;
  fo.create_options.size = 1 << 19;
  size_t n = r.range(3, 16);
  Scarce s;
  Pool pool;
  bool answers = kind == RPC_CLIENT || kind == PRPC_CLIENT;
  size_t packets = answers ? 2 * n : n;
  for (size_t i = 0; i < packets; i++) s.plan.push_back(r.chance(35) ? 1 + r.below(5) : 0);
  Seen seen;
  seen.end = "the end";
  a0_file_t f;
  a0_writer_t w;
  if (a0_file_open(path.c_str(), &fo, &f) || a0_writer_init(&w, f.arena)) x.harness_error("cannot open the topic");
  a0_reader_t rd;
  a0_subscriber_t sub;
  a0_log_listener_t ll;
  a0_logger_t lg;
  a0_cfg_watcher_t cw;
  a0_rpc_server_t rs;
  a0_rpc_client_t rc;
  a0_prpc_server_t ps;
  a0_prpc_client_t pc;
  a0_err_t e = A0_OK;
  a0_reader_options_t ro = {r.chance(50) ? A0_INIT_OLDEST : A0_INIT_AWAIT_NEW, A0_ITER_NEXT};
  size_t early = kind == READER || kind == SUBSCRIBER ? r.below(n) : 0;
  if (kind > SUBSCRIBER) ro.init = A0_INIT_AWAIT_NEW;
  if (ro.init != A0_INIT_OLDEST) early = 0;
  std::vector<std::string> sent;
  auto raw_write = [&](const std::string& p) {
    CPacket c(r, {}, p);
    if (a0_writer_write(&w, c.p)) x.harness_error("cannot write");
  };
  for (size_t i = 0; i < early; i++) sent.push_back(named(i, r)), raw_write(sent.back());
  // Answers are kept until the requests have been seen by the server.
  struct Asked {
    std::mutex mu;
    std::condition_variable cv;
    std::vector<std::pair<std::string, std::string>> q;  // id, payload
  } asked;
  switch (kind) {
    case READER: e = a0_reader_init(&rd, f.arena, s.alloc(), ro, {&seen, Seen::on}); break;
    case SUBSCRIBER: e = a0_subscriber_init(&sub, {topic.c_str(), &fo}, s.alloc(), ro, {&seen, Seen::on}); break;
    case LISTENER:
      e = a0_log_listener_init(&ll, {topic.c_str(), &fo}, s.alloc(), A0_LOG_LEVEL_DBG, ro, {&seen, Seen::on});
      if (!e) e = a0_logger_init(&lg, {topic.c_str(), &fo});
      break;
    case WATCHER: e = a0_cfg_watcher_init(&cw, {topic.c_str(), &fo}, s.alloc(), {&seen, Seen::on}); break;
    case RPC_SERVER:
    case RPC_CLIENT:
      e = a0_rpc_server_init(&rs, {topic.c_str(), &fo}, kind == RPC_SERVER ? s.alloc() : pool.alloc(), {kind == RPC_SERVER ? (void*)&seen : (void*)&asked, kind == RPC_SERVER ? [](void* u, a0_rpc_request_t q) { Seen::on(u, q.pkt); } : [](void* u, a0_rpc_request_t q) {
                               Asked* a = (Asked*)u;
                               std::lock_guard<std::mutex> g(a->mu);
                               a->q.push_back({q.pkt.id, text(q.pkt.payload)});
                               a->cv.notify_all();
                             }}, {nullptr, nullptr});
      if (!e) e = a0_rpc_client_init(&rc, {topic.c_str(), &fo}, kind == RPC_CLIENT ? s.alloc() : pool.alloc());
      break;
    case PRPC_SERVER:
    case PRPC_CLIENT:
      e = a0_prpc_server_init(&ps, {topic.c_str(), &fo}, kind == PRPC_SERVER ? s.alloc() : pool.alloc(), {kind == PRPC_SERVER ? (void*)&seen : (void*)&asked, kind == PRPC_SERVER ? [](void* u, a0_prpc_connection_t q) { Seen::on(u, q.pkt); } : [](void* u, a0_prpc_connection_t q) {
                                Asked* a = (Asked*)u;
                                std::lock_guard<std::mutex> g(a->mu);
                                a->q.push_back({q.pkt.id, text(q.pkt.payload)});
                                a->cv.notify_all();
                              }}, {nullptr, nullptr});
      if (!e) e = a0_prpc_client_init(&pc, {topic.c_str(), &fo}, kind == PRPC_CLIENT ? s.alloc() : pool.alloc());
      break;
  }
  if (e) x.harness_error("cannot set up: " + errname(e));
  auto ask = [&](const std::string& p) {
    a0_packet_t q;
    a0_packet_init(&q);
    q.payload = {(uint8_t*)p.data(), p.size()};
    a0_err_t e;
    if (kind == LISTENER) e = a0_logger_log(&lg, (a0_log_level_t)(A0_LOG_LEVEL_CRIT + r.below(5)), q);
    else if (kind == RPC_SERVER || kind == RPC_CLIENT) e = a0_rpc_client_send(&rc, q, {&seen, Seen::on});
    else if (kind == PRPC_SERVER || kind == PRPC_CLIENT) e = a0_prpc_client_connect(&pc, q, {&seen, [](void* u, a0_packet_t p, bool) { Seen::on(u, p); }});
    else return raw_write(p);
    if (e) x.harness_error("cannot write: " + errname(e));
  };
  for (size_t i = early; i < n; i++) {
    sent.push_back(named(i, r));
    ask(sent.back());
    if (r.chance(20)) usleep(r.below(200));
    x.tick();
  }
  auto answer = [&](const std::string& id, const std::string& p) {
    a0_packet_t q;
    a0_packet_init(&q);
    q.payload = {(uint8_t*)p.data(), p.size()};
    a0_packet_t to;
    memset(&to, 0, sizeof(to));
    memcpy(to.id, id.c_str(), 37);
    a0_err_t e = kind == RPC_CLIENT ? a0_rpc_server_reply({&rs, to}, q) : a0_prpc_server_send({&ps, to}, q, r.chance(50));
    if (e) x.harness_error("cannot answer: " + errname(e));
  };
  std::vector<std::string> want;
  auto kept = [&](size_t k) { return k >= s.plan.size() || !s.plan[k]; };
  if (answers) {
    {
      std::unique_lock<std::mutex> l(asked.mu);
      asked.cv.wait(l, [&] { return asked.q.size() == n; });
    }
    for (size_t i = 0; i < n; i++) {
      std::string back = "re:" + asked.q[i].second;
      answer(asked.q[i].first, back);
      if (kept(n + i)) want.push_back(back);
    }
    ask(seen.end + "?");
    {
      std::unique_lock<std::mutex> l(asked.mu);
      asked.cv.wait(l, [&] { return asked.q.size() == n + 1; });
    }
    answer(asked.q[n].first, seen.end);
  } else {
    for (size_t i = 0; i < n; i++)
      if (kept(i)) want.push_back(sent[i]);
    if (kind == WATCHER) {
      std::lock_guard<std::mutex> g(s.mu);
      s.plan.resize(std::min(s.plan.size(), s.calls));
    }
    ask(seen.end);
  }
  want.push_back(seen.end);
  {
    std::unique_lock<std::mutex> l(seen.mu);
    seen.cv.wait(l, [&] { return seen.ended; });
  }
  switch (kind) {
    case READER: e = a0_reader_close(&rd); break;
    case SUBSCRIBER: e = a0_subscriber_close(&sub); break;
    case LISTENER: e = a0_log_listener_close(&ll), a0_logger_close(&lg); break;
    case WATCHER: e = a0_cfg_watcher_close(&cw); break;
    case RPC_SERVER:
    case RPC_CLIENT: e = a0_rpc_client_close(&rc), a0_rpc_server_close(&rs); break;
    default: e = a0_prpc_client_close(&pc), a0_prpc_server_close(&ps); break;
  }
  CHECK_OR_FAIL(x, !e, "close-failed", "closing gives %s", errname(e).c_str());
  a0_writer_close(&w);
  a0_file_close(&f);
  std::string what = strf("%s, %zu packets, %zu allocations, %zu refused", kNames[kind], packets, s.calls, s.refused);
  x.eval(n);
  if (kind == WATCHER) {
    // Newest first: some are passed over anyway.
    int64_t last = -1;
    for (size_t i = 0; i + 1 < seen.got.size(); i++) {
      int64_t k = number(seen.got[i]);
      CHECK_OR_FAIL(x, k > last && k < (int64_t)sent.size() && seen.got[i] == sent[k], "wrong-packet", "callback %zu got '%s': %s", i, seen.got[i].substr(0, 20).c_str(), what.c_str());
      last = k;
    }
    CHECK_OR_FAIL(x, seen.got.size() == s.granted, "wrong-packet", "%zu callbacks with %zu allocations granted: %s", seen.got.size(), s.granted, what.c_str());
  } else if (s.calls != packets + 1 + answers) {
    // Not one allocation per packet: which one was refused for which packet is not known.
    size_t k = 0;
    for (size_t i = 0; i + 1 < seen.got.size(); i++) {
      while (k < n && seen.got[i] != (answers ? "re:" : "") + sent[k]) k++;
      CHECK_OR_FAIL(x, k++ < n, "wrong-packet", "callback %zu got '%s': %s", i, seen.got[i].substr(0, 20).c_str(), what.c_str());
    }
    CHECK_OR_FAIL(x, seen.got.size() + s.refused >= n + 1, "wrong-packet", "only %zu callbacks: %s", seen.got.size(), what.c_str());
    x.count("imprecise");
  } else {
    for (size_t i = 0; i < std::max(want.size(), seen.got.size()); i++) {
      std::string a = i < want.size() ? want[i] : "(nothing)", b = i < seen.got.size() ? seen.got[i] : "(nothing)";
      CHECK_OR_FAIL(x, a == b, "wrong-packet", "callback %zu got '%s', expected '%s': %s", i, b.substr(0, 20).c_str(), a.substr(0, 20).c_str(), what.c_str());
    }
  }
  CHECK_OR_FAIL(x, !s.bad_free, "bad-free", "memory was given back that was never granted: %s", what.c_str());
  CHECK_OR_FAIL(x, s.live.empty(), "memory-kept", "%zu blocks were never given back: %s", s.live.size(), what.c_str());
  uint64_t sig = kind;
  for (size_t k : s.refusals) sig = mix(sig, k);
  if (s.refused) x.distinct(sig);
  x.count("refused_packets", s.refused);
  x.count("delivered_packets", seen.got.size());
  x.count(std::string("in_background_") + (kind < RPC_SERVER ? kNames[kind] : kind < PRPC_SERVER ? "rpc" : "prpc"));
  x.sample(what);
}

// ---------------------------------------------------------------- threads

size_t listed(const char* dir) {
  size_t n = 0;
  DIR* d = opendir(dir);
  while (dirent* e = readdir(d)) n += e->d_name[0] != '.';
  closedir(d);
  return n;
}
size_t mapped(const std::string& below) {
  size_t n = 0;
  FILE* f = fopen("/proc/self/maps", "re");
  char line[1200];
  while (fgets(line, sizeof(line), f)) n += strstr(line, below.c_str()) != nullptr;
  fclose(f);
  return n;
}

void threads(Ctx& x) {
  Rng& r = x.rng;
  Env env;
  env.prefix = strf("th%lu_", (unsigned long)x.case_id % 20);
  env.ntopics = 1;
  std::string root = x.scratch + "/root/";
  int maker = r.below(kNMakers);
  uint64_t seed = r.next();
  x.desc(strf("no thread | maker %d", maker));
  std::unique_ptr<Obj> other;
  // Somebody else uses the topic meanwhile.
  if (r.chance(50)) {
    do {
      if (other) other->close();
      Rng q(r.next());
      other = kMakers[r.below(kNMakers)](env, q);
    } while (other->kind.find("discovery") != std::string::npos);  // opens files whenever it likes
  }
  struct Keep {  // after a violation nothing is closed
    ObjP& o;
    bool done = false;
    ~Keep() {
      if (!done) o.release();
    }
  } keep_other{other};
  size_t fd0 = listed("/proc/self/fd"), map0 = mapped(root), th0 = listed("/proc/self/task");
  bool made = false;
  std::string err, kind;
  g_refused_threads = 0;
  g_refuse_threads = 1 + r.below(2);
  ObjP o;
  Keep keep{o};
  try {
    Rng q(seed);
    o = kMakers[maker](env, q);
    made = true;
    kind = o->kind;
  } catch (const Problem& p) {
    err = p.what;
  } catch (const std::exception& p) {
    err = p.what();
  }
  g_refuse_threads = 0;
  int refused = g_refused_threads;
  x.eval();
  if (refused) {
    CHECK_OR_FAIL(x, !made, "claims-to-run", "%s was created although its thread could not be started", kind.c_str());
    // A thread that was joined can still be on its way out in the kernel.
    for (int i = 0; i < 3000 && listed("/proc/self/task") > th0; i++) usleep(10000), x.tick();
    CHECK_OR_FAIL(x, listed("/proc/self/task") <= th0, "threads-kept", "a thread is left of what could not be created (%s)", err.c_str());
    CHECK_OR_FAIL(x, listed("/proc/self/fd") == fd0, "descriptors-kept", "%zu descriptors before, %zu after what could not be created (%s)", fd0, listed("/proc/self/fd"), err.c_str());
    CHECK_OR_FAIL(x, mapped(root) == map0, "mappings-kept", "%zu mapped files before, %zu after what could not be created (%s)", map0, mapped(root), err.c_str());
    x.count("refused_threads");
  } else {
    CHECK_OR_FAIL(x, made, "call-failed", "%s", err.c_str());
    x.count("made_without_thread");
  }
  // Now it works.
  try {
    if (refused) {
      Rng q(seed);
      o = kMakers[maker](env, q);
    }
    for (int i = 0; i < 4; i++) {
      o->use(r);
      if (other) other->use(r);
      x.tick();
    }
    o->close();
    if (other) other->close();
  } catch (const Problem& p) {
    x.fail("call-failed", p.what);
  } catch (const std::exception& p) {
    x.fail("call-failed", p.what());
  }
  keep.done = keep_other.done = true;
  if (refused) x.distinct(mix(hash_str(o->kind), (other ? hash_str(other->kind) : 0)));
  if (refused) x.count("then_made:" + o->kind);
  x.sample(strf("%s: %d refused: %s", o->kind.c_str(), refused, err.c_str()));
}

void run_case(Ctx& x) {
  switch (x.case_id % 3) {
    case 0: return polling(x);
    case 1: return background(x);
    default: return threads(x);
  }
}
}  // namespace

int main(int argc, char** argv) { return harness_main(argc, argv, run_case); }
