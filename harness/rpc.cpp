// C25 (mode rpc): requests and answers; C26 (mode prpc): progress streams.
#include <a0/file.h>
#include <a0/packet.hpp>
#include <a0/prpc.h>
#include <a0/prpc.hpp>
#include <a0/rpc.h>
#include <a0/rpc.hpp>
#include <a0/time.h>
#include <a0/time.hpp>
#include <a0/writer.h>

#include <atomic>
#include <condition_variable>
#include <deque>
#include <future>
#include <memory>
#include <mutex>
#include <thread>

#include "packets.hpp"

namespace {
std::string topic_file(Ctx& x, const std::string& name, const char* ext) { return x.scratch + "/root/" + name + ext; }
a0_file_options_t file_opts(size_t size) {
  a0_file_options_t o = A0_FILE_OPTIONS_DEFAULT;
  o.create_options.size = size;
  return o;
}
a0::File::Options xfile_opts(size_t size) {
  a0::File::Options o = a0::File::Options::DEFAULT;
  o.create_options.size = size;
  return o;
}

std::atomic<uint64_t> g_clock;
std::atomic<uint64_t> g_own_close_tries, g_own_close_ok;  // closes from the object's own callback
uint64_t stamp() { return ++g_clock; }

void dawdle(Rng& r) {
  switch (r.below(12)) {
    case 0: usleep(r.below(300)); break;
    case 1:
    case 2: sched_yield(); break;
    case 3:
      for (volatile int i = 0, n = (int)r.below(3000); i < n; i = i + 1) {
      }
    default:;
  }
}

// A library-side buffer that only lives until the next packet, and never longer.
struct Scratch {
  std::vector<std::unique_ptr<uint8_t[]>> old;
  a0_alloc_t alloc() {
    return {this,
            [](void* u, size_t n, a0_buf_t* out) {
              auto* s = (Scratch*)u;
              s->old.clear();
              s->old.emplace_back(new uint8_t[n]);
              *out = {s->old.back().get(), n};
              return A0_OK;
            },
            nullptr};
  }
};

Hdrs some_headers(Rng& r, const std::string& other_id) {
  Hdrs h;
  if (r.chance(70)) return h;
  for (size_t i = 0, n = r.below(4); i < n; i++) h.push_back({strf("k%lu", r.below(5)), std::string(r.below(20), 'v')});
  // headers handed on from some other exchange
  if (!other_id.empty() && r.chance(50)) {
    static const char* kNames[] = {"a0_req_id", "a0_conn_id", "a0_dep", "a0_rpc_type", "a0_prpc_type"};
    static const char* kTypes[] = {"response", "request", "cancel", "progress", "complete", "connect"};
    for (size_t i = 0, n = 1 + r.below(3); i < n; i++) {
      int k = (int)r.below(5);
      h.push_back({kNames[k], k < 3 ? other_id : kTypes[r.below(6)]});
    }
  }
  return h;
}

Hdrs headers_of(const a0_packet_t& p) {
  Hdrs h;
  a0_packet_header_iterator_t it;
  a0_packet_header_t hd;
  a0_packet_header_iterator_init(&it, (a0_packet_t*)&p);
  while (!a0_packet_header_iterator_next(&it, &hd)) h.push_back({hd.key, hd.val});
  return h;
}
bool includes(const Hdrs& all, const Hdrs& want) {
  Hdrs a = sorted(all), w = sorted(want);
  return std::includes(a.begin(), a.end(), w.begin(), w.end());
}
std::string str(a0_buf_t b) { return std::string((char*)b.data, b.size); }

// A packet that means nothing to anybody.
void write_noise(Rng& r, a0_writer_t* w, const char* id_key, const char* type_key, const std::vector<const char*>& answers, const std::string& real_id) {
  static const std::string kBad[] = {"", "x", std::string(35, 'F'), std::string(37, 'F'), std::string(100, '0'), "00000000-0000-4000-8000-000000000000",
                                     std::string(36, '\xff'), "\xc3\xa9\x80--not-an-id-but-just-as-long--\xfe\xf0\x9f"};
  Hdrs h;
  std::string pay = "noise";
  switch (r.below(5)) {
    case 0: break;
    case 1:  // no type, or a strange one
      h.push_back({id_key, real_id});
      if (r.chance(50)) h.push_back({type_key, "other"});
      break;
    case 2:  // no id
      h.push_back({type_key, answers[r.below(answers.size())]});
      break;
    case 3:  // nobody's id
      h.push_back({type_key, answers[r.below(answers.size())]});
      h.push_back({id_key, kBad[r.below(8)]});
      break;
    case 4:  // a cancellation of nothing
      h.push_back({type_key, "cancel"});
      if (r.chance(50)) h.push_back({id_key, kBad[r.below(8)]});
      pay = std::string(r.chance(50) ? r.below(37) : 36, 'C');
  }
  if (r.chance(30)) std::reverse(h.begin(), h.end());
  CPacket p(r, h, pay);
  a0_writer_write(w, p.p);
}

// ---------------------------------------------------------------- requests and answers

struct Answer {
  int server;
  uint64_t t0, t1;
  a0_err_t err;
  std::string id, payload;
  Hdrs hdrs;
};
struct Got {
  uint64_t t;
  std::string id, payload;
  Hdrs hdrs;
  std::shared_ptr<a0::Packet> kept;
};
enum How { CALLBACK, NO_CALLBACK, FUTURE, BLOCKING, TIMED };
static const char* kHow[] = {"callback", "no callback", "future", "blocking", "timed"};

struct Req {
  uint64_t no;
  int client, how;
  std::string id, payload;
  Hdrs hdrs;
  // plan
  int replies = 1;
  bool inline_reply = true;
  bool cancel_when_seen = false;
  bool others_reply = false;
  // history
  uint64_t t0 = 0, t1 = 0;
  a0_err_t err = A0_OK;
  int syscode = 0;
  uint64_t deadline = 0, returned = 0;
  uint64_t c0 = 0, c1 = 0;  // first cancellation by its client
  uint64_t foreign_c0 = 0;
  int cancels = 0;
  std::vector<Got> got;
  std::vector<Answer> answers;
  bool seen = false;
};

struct Delivery {
  uint64_t t;
  std::string payload, id;
  Hdrs hdrs;
};

struct Shared {
  std::mutex mu;
  std::condition_variable cv;
  std::vector<std::unique_ptr<Req>> reqs;
  std::map<std::string, Req*> by_id;
  std::deque<Req*> to_cancel;
  std::deque<std::string> recent;
  bool stop = false;
  uint64_t seed;

  Req* add(Rng& r, int client, int how) {
    std::unique_lock<std::mutex> lk(mu);
    reqs.emplace_back(new Req());
    Req* q = reqs.back().get();
    q->no = reqs.size() - 1;
    q->client = client;
    q->how = how;
    q->payload = strf("R%lu|", q->no) + std::string(r.below(r.chance(10) ? 2000 : 60), (char)('a' + q->no % 26));
    return q;
  }
  std::string any_id(Rng& r) {
    std::unique_lock<std::mutex> lk(mu);
    return recent.empty() ? "" : recent[r.below(recent.size())];
  }
};
Req* find(Shared& s, const std::string& id) {
  auto it = s.by_id.find(id);
  return it == s.by_id.end() ? nullptr : it->second;
}

struct Server {
  Shared* s;
  int index;
  bool cpp, null_oncancel;
  Scratch scratch;
  a0_rpc_server_t c{};
  a0::RpcServer x;
  uint64_t i0 = 0, i1 = 0, c0 = 0, c1 = 0;
  bool forever = true;
  // under s->mu
  std::map<std::string, std::vector<Delivery>> seen;
  std::map<std::string, int> cancelled;
  uint64_t late = 0, unknown = 0, sentinels = 0;
  Rng rng{1};
  // answers given later by another thread
  struct Job {
    Req* q;
    char id[37];
    a0::RpcRequest xr;
    int k;
  };
  std::deque<Job> jobs;
  bool stop = false, busy = false;
  std::thread worker;

  void answer(Rng& r, Req* q, const char* id, a0::RpcRequest* xr, int k, const a0_packet_t* whole) {
    Answer a;
    a.server = index;
    a.payload = q ? strf("A%lu.%d.%d|", q->no, index, k) + std::string(r.below(r.chance(10) ? 1500 : 50), (char)('A' + index)) : std::string("E");
    a.hdrs = some_headers(r, s->any_id(r));
    CPacket p(r, a.hdrs, a.payload);
    a.id = p.p.id;
    a.t0 = stamp();
    if (xr) {
      a.err = guard([&] { xr->reply(a0::Packet(p.p, nullptr)); });
    } else {
      a0_rpc_request_t req{&c, {}};
      if (whole) req.pkt = *whole;
      memcpy(req.pkt.id, id, 37);
      a.err = a0_rpc_server_reply(req, p.p);
    }
    a.t1 = stamp();
    if (!q) return;
    std::unique_lock<std::mutex> lk(s->mu);
    q->answers.push_back(a);
    s->cv.notify_all();
  }

  void try_own_close() {
    if (cpp || rng.below(12)) return;
    g_own_close_tries++;
    if (!a0_rpc_server_close(&c)) g_own_close_ok++;
  }
  void on_request(const a0_packet_t& pkt, a0::RpcRequest* xr) {
    Delivery d{stamp(), str(pkt.payload), pkt.id, headers_of(pkt)};
    Req* q = nullptr;
    {
      std::unique_lock<std::mutex> lk(s->mu);
      if (c1) late++;
      if (d.payload[0] == 'S') {
        sentinels++;
        s->cv.notify_all();
        return;
      }
      if (d.payload[0] != 'E') {
        q = find(*s, d.id);
        if (!q) {
          unknown++;
          return;
        }
        seen[d.id].push_back(d);
        if (index == 0 && !q->seen) {
          q->seen = true;
          if (q->cancel_when_seen) s->to_cancel.push_back(q);
          s->cv.notify_all();
        }
      }
    }
    if (!q) {
      if (index == 0) answer(rng, nullptr, pkt.id, xr, 0, &pkt);
      return;
    }
    try_own_close();
    if (index != 0 && !q->others_reply) return;
    for (int k = 0; k < q->replies; k++) {
      bool now = k == 0 ? q->inline_reply : rng.chance(50);
      dawdle(rng);
      if (now) {
        answer(rng, q, pkt.id, xr, k, &pkt);
      } else {
        std::unique_lock<std::mutex> lk(s->mu);
        Job j;
        j.q = q;
        memcpy(j.id, pkt.id, 37);
        if (xr) j.xr = *xr;
        j.k = k;
        jobs.push_back(std::move(j));
        s->cv.notify_all();
      }
    }
  }
  void on_cancel(const std::string& id) {
    std::unique_lock<std::mutex> lk(s->mu);
    if (c1) late++;
    cancelled[id]++;
    s->cv.notify_all();
  }

  a0_err_t open(const std::string& name, size_t size) {
    rng = Rng(mix(s->seed, 77 + index));
    auto o = file_opts(size);
    i0 = stamp();
    a0_err_t e;
    if (cpp) {
      std::function<void(a0::string_view)> oc;
      if (!null_oncancel) oc = [this](a0::string_view id) { on_cancel(std::string(id.data(), id.size())); };
      e = guard([&] {
        x = a0::RpcServer(a0::RpcTopic(name, xfile_opts(size)), [this](a0::RpcRequest q) {
          a0::Packet p = q.pkt();
          on_request(*p.c, &q); }, oc);
      });
    } else {
      e = a0_rpc_server_init(&c, {name.c_str(), &o}, scratch.alloc(),
                             {this, [](void* u, a0_rpc_request_t q) { ((Server*)u)->on_request(q.pkt, nullptr); }},
                             {this, null_oncancel ? nullptr : +[](void* u, a0_uuid_t id) { ((Server*)u)->on_cancel(id); }});
    }
    i1 = stamp();
    if (e) return e;
    worker = std::thread([this] {
      Rng r(mix(s->seed, 1000 + index));
      std::unique_lock<std::mutex> lk(s->mu);
      while (true) {
        s->cv.wait(lk, [&] { return stop || !jobs.empty(); });
        if (jobs.empty()) return;
        size_t i = r.below(jobs.size());
        Job j = jobs[i];
        jobs.erase(jobs.begin() + i);
        busy = true;
        lk.unlock();
        dawdle(r);
        answer(r, j.q, j.id, j.xr.c ? &j.xr : nullptr, j.k, nullptr);
        j.xr = a0::RpcRequest();
        lk.lock();
        busy = false;
        s->cv.notify_all();
      }
    });
    return A0_OK;
  }
  void finish_worker(bool drop) {
    {
      std::unique_lock<std::mutex> lk(s->mu);
      stop = true;
      if (drop) jobs.clear();
      s->cv.notify_all();
    }
    if (worker.joinable()) worker.join();
  }
  void close() {
    c0 = stamp();
    if (cpp) x = a0::RpcServer();
    else a0_rpc_server_close(&c);
    uint64_t t = stamp();
    std::unique_lock<std::mutex> lk(s->mu);
    c1 = t;
    jobs.clear();
  }
};

struct Client {
  Shared* s;
  int index;
  bool cpp;
  bool early_close = false;
  Scratch scratch;
  a0_rpc_client_t c{};
  a0::RpcClient x;
  uint64_t c1 = 0, late = 0;
  int done_sentinel = 0;
  std::vector<std::pair<Req*, std::future<a0::Packet>>> futures;  // under s->mu

  a0_err_t open(const std::string& name, size_t size) {
    auto o = file_opts(size);
    if (cpp) return guard([&] { x = a0::RpcClient(a0::RpcTopic(name, xfile_opts(size))); });
    return a0_rpc_client_init(&c, {name.c_str(), &o}, scratch.alloc());
  }
  struct Cb {
    Client* cl;
    Req* q;
  };
  std::deque<Cb> cbs;

  void on_answer(Req* q, const a0_packet_t& p, const a0::Packet* keep) {
    Got g{stamp(), p.id, str(p.payload), headers_of(p), nullptr};
    if (!cpp && mix(s->seed, stamp()) % 8 == 0) {
      g_own_close_tries++;
      if (!a0_rpc_client_close(&c)) g_own_close_ok++;
    }
    if (keep) g.kept = std::make_shared<a0::Packet>(*keep);
    std::unique_lock<std::mutex> lk(s->mu);
    if (c1) late++;
    if (!q) {
      done_sentinel++;
    } else {
      q->got.push_back(g);
    }
    s->cv.notify_all();
  }
  // Sends q (or, if null, the packet that marks the end).
  void send(Rng& r, Req* q, uint64_t timeout_ns = 0) {
    Hdrs h;
    if (q) h = some_headers(r, s->any_id(r));
    CPacket p(r, h, q ? q->payload : std::string("E"));
    int how = q ? q->how : (int)CALLBACK;
    Cb* cb;
    {
      std::unique_lock<std::mutex> lk(s->mu);
      if (q) {
        q->id = p.p.id;
        q->hdrs = h;
        s->by_id[q->id] = q;
        s->recent.push_back(q->id);
        if (s->recent.size() > 8) s->recent.pop_front();
      }
      cbs.push_back({this, q});
      cb = &cbs.back();
    }
    a0_packet_callback_t ccb = {cb, [](void* u, a0_packet_t a) { ((Cb*)u)->cl->on_answer(((Cb*)u)->q, a, nullptr); }};
    a0_err_t e = A0_OK;
    uint64_t t0 = stamp(), t1;
    if (q) q->t0 = t0;
    a0_err_syscode = 0;
    Got g;
    bool have = false;
    if (how == BLOCKING || how == TIMED) {
      a0_time_mono_t dl{};
      if (how == TIMED) {
        uint64_t at = now_ns() + timeout_ns;
        dl.ts.tv_sec = at / 1000000000;
        dl.ts.tv_nsec = at % 1000000000;
        q->deadline = at;
      }
      if (cpp) {
        a0::TimeMono tm;
        if (how == TIMED) tm.c = std::make_shared<a0_time_mono_t>(dl);
        bool timedout = false;
        try {
          a0::Packet a = how == TIMED ? x.send_blocking(a0::Packet(p.p, nullptr), tm) : x.send_blocking(a0::Packet(p.p, nullptr));
          g = {stamp(), a.c->id, str(a.c->payload), headers_of(*a.c), std::make_shared<a0::Packet>(a)};
          have = true;
        } catch (const std::exception& ex) {
          e = map_exception(ex);
          timedout = !strcmp(ex.what(), strerror(ETIMEDOUT));
        }
        if (timedout) {
          e = A0_ERR_SYS;
          q->syscode = ETIMEDOUT;
        }
      } else {
        Scratch mine;
        a0_packet_t a;
        e = how == TIMED ? a0_rpc_client_send_blocking_timeout(&c, p.p, &dl, mine.alloc(), &a) : a0_rpc_client_send_blocking(&c, p.p, mine.alloc(), &a);
        q->syscode = a0_err_syscode;
        if (!e) g = {stamp(), a.id, str(a.payload), headers_of(a), nullptr}, have = true;
      }
      q->returned = now_ns();
    } else if (cpp) {
      e = guard([&] {
        a0::Packet xp(p.p, nullptr);
        if (how == FUTURE) {
          auto f = x.send(xp);
          std::unique_lock<std::mutex> lk(s->mu);
          futures.emplace_back(q, std::move(f));
        } else if (how == CALLBACK) {
          x.send(xp, [this, q](a0::Packet a) { on_answer(q, *a.c, &a); });
        } else {
          x.send(xp, nullptr);
        }
      });
    } else {
      e = a0_rpc_client_send(&c, p.p, how == CALLBACK ? ccb : a0_packet_callback_t{nullptr, nullptr});
    }
    t1 = stamp();
    if (!q) return;
    std::unique_lock<std::mutex> lk(s->mu);
    q->t1 = t1;
    q->err = e;
    if (have) q->got.push_back(g);
    s->cv.notify_all();
  }
  a0_err_t cancel(Req* q, bool own) {
    {
      std::unique_lock<std::mutex> lk(s->mu);
      q->cancels++;
      uint64_t t = stamp();
      if (own && !q->c0) q->c0 = t;
      if (!own && !q->foreign_c0) q->foreign_c0 = t;
    }
    char id[37];
    memcpy(id, q->id.c_str(), 37);
    a0_err_t e = cpp ? guard([&] { x.cancel(q->id); }) : a0_rpc_client_cancel(&c, id);
    uint64_t t1 = stamp();
    std::unique_lock<std::mutex> lk(s->mu);
    if (own && !q->c1) q->c1 = t1;
    return e;
  }
  void close() {
    if (cpp) x = a0::RpcClient();
    else a0_rpc_client_close(&c);
    uint64_t t = stamp();
    std::unique_lock<std::mutex> lk(s->mu);
    c1 = t;
  }
};

std::string describe(const Req& q) {
  std::string d = strf("request %lu (%s, client %d, planned answers %d%s%s) sent %lu..%lu result %s", q.no, kHow[q.how], q.client, q.replies, q.inline_reply ? " at once" : "",
                       q.others_reply ? " by all" : "", q.t0, q.t1, errname(q.err).c_str());
  if (q.cancels) d += strf(", cancelled %d times %lu..%lu", q.cancels, q.c0 ? q.c0 : q.foreign_c0, q.c1);
  for (auto& a : q.answers) d += strf(", answer '%s' %lu..%lu %s", a.payload.substr(0, 12).c_str(), a.t0, a.t1, errname(a.err).c_str());
  for (auto& g : q.got) d += strf(", got '%s' at %lu", g.payload.substr(0, 12).c_str(), g.t);
  return d;
}

void run_rpc(Ctx& x) {
  Rng& r = x.rng;
  std::string name = strf("q%lu", x.case_id), path = topic_file(x, name, ".rpc.a0");
  Shared s;
  s.seed = r.next();
  g_clock = 0;
  bool burst = r.chance(8);  // many outstanding at once
  int ncl = 1 + (int)r.below(4), nsv = r.chance(50) ? 1 : 1 + (int)r.below(3);
  int nthr = 1 + (int)r.below(2);
  int per = burst ? 60 + (int)r.below(200) : 1 + (int)r.below(r.chance(50) ? 6 : 25);
  size_t size = 1 << 24;
  x.desc(strf("rpc | %d clients x %d threads x %d, %d servers", ncl, nthr, per, nsv));

  std::vector<std::unique_ptr<Server>> sv;
  for (int i = 0; i < nsv; i++) {
    sv.emplace_back(new Server());
    sv[i]->s = &s;
    sv[i]->index = i;
    sv[i]->cpp = r.chance(50);
    sv[i]->null_oncancel = r.chance(10);
    sv[i]->forever = i == 0 || r.chance(40);
  }
  a0_err_t e;
  for (auto& v : sv)
    if (v->forever && (e = v->open(name, size))) x.fail("open", "opening a server failed: " + errname(e));
  std::vector<std::unique_ptr<Client>> cl;
  for (int i = 0; i < ncl; i++) {
    cl.emplace_back(new Client());
    cl[i]->s = &s;
    cl[i]->index = i;
    cl[i]->cpp = r.chance(50);
    cl[i]->early_close = i > 0 && r.chance(35);
    if ((e = cl[i]->open(name, size))) x.fail("open", "opening a client failed: " + errname(e));
  }
  a0_file_t f;
  auto o = file_opts(size);
  a0_writer_t noise;
  if (a0_file_open(path.c_str(), &o, &f) || a0_writer_init(&noise, f.arena)) x.harness_error("cannot open the topic");

  // those who come and go
  std::atomic<bool> over{false};
  std::vector<std::thread> coming;
  std::atomic<int> came{0};
  for (auto& v : sv)
    if (!v->forever)
      coming.emplace_back([&, seed = r.next(), sp = v.get()] {
        Rng q(seed);
        usleep(q.below(1500));
        if (sp->open(name, size)) return;
        usleep(q.below(3000));
        sp->finish_worker(true);
        // what is queued from now on is never answered
        sp->close();
        came++;
      });
  std::thread canceller([&, seed = r.next()] {
    Rng q(seed);
    std::unique_lock<std::mutex> lk(s.mu);
    while (true) {
      s.cv.wait(lk, [&] { return s.stop || !s.to_cancel.empty(); });
      if (s.to_cancel.empty()) return;
      Req* t = s.to_cancel.front();
      s.to_cancel.pop_front();
      lk.unlock();
      dawdle(q);
      int who = t->how >= BLOCKING && q.chance(40) ? 0 : t->client;
      cl[who]->cancel(t, who == t->client);
      lk.lock();
      s.cv.notify_all();
    }
  });

  std::vector<std::thread> th;
  std::vector<std::atomic<int>> left(ncl);
  for (int c = 0; c < ncl; c++) {
    left[c] = nthr;
    for (int t = 0; t < nthr; t++)
      th.emplace_back([&, c, seed = r.next()] {
        Rng q(seed);
        std::vector<Req*> mine;
        for (int i = 0; i < per; i++) {
          dawdle(q);
          if (!mine.empty() && q.chance(12)) {
            Req* v = q.pick(mine);
            if (!v->cancel_when_seen) cl[c]->cancel(v, true);
            continue;
          }
          if (q.chance(5)) {
            write_noise(q, &noise, "a0_req_id", "a0_rpc_type", {"response"}, s.any_id(q));
            continue;
          }
          int how = burst ? (q.chance(90) ? CALLBACK : NO_CALLBACK) : (int)q.below(5);
          if (how == FUTURE && !cl[c]->cpp) how = CALLBACK;
          Req* v = s.add(q, c, how);
          v->replies = q.chance(75) ? 1 : (int)q.below(4);
          v->inline_reply = burst ? false : q.chance(60);
          v->others_reply = q.chance(40);
          if (how == BLOCKING) {
            if (q.chance(25)) v->replies = 0, v->cancel_when_seen = true;
            else if (!v->replies) v->replies = 1;
            else if (q.chance(10)) v->cancel_when_seen = true;
          } else if (how == CALLBACK || how == TIMED) {
            v->cancel_when_seen = !cl[c]->early_close && q.chance(10);
          }
          // (whoever cancels for a client that closes early might come too late)
          if (how == BLOCKING && cl[c]->early_close && !v->replies) v->replies = 1;
          if (cl[c]->early_close) v->cancel_when_seen = false;
          uint64_t to = q.chance(30) ? 0 : q.chance(50) ? q.below(500000) : q.chance(80) ? q.below(20000000) : 60000000000ull;
          if (how == TIMED && v->replies == 0 && to > 20000000) to = 10000000;
          cl[c]->send(q, v, to);
          if (how == CALLBACK || how == NO_CALLBACK || how == FUTURE) mine.push_back(v);
        }
        if (--left[c] == 0 && cl[c]->early_close) cl[c]->close();
      });
  }
  for (auto& t : th) t.join();
  for (auto& t : coming) t.join();
  {
    // the cancellations still to be made
    std::unique_lock<std::mutex> lk(s.mu);
    s.cv.wait(lk, [&] {
      for (auto& q : s.reqs)
        if (q->cancel_when_seen && !q->err && !q->seen) return false;
      return s.to_cancel.empty();
    });
    s.stop = true;
    s.cv.notify_all();
  }
  canceller.join();
  // Everything has been asked: let every server get to the end of it.
  {
    a0_packet_header_t hd = {"a0_rpc_type", "request"};
    a0_packet_t p;
    a0_packet_init(&p);
    p.headers_block = {&hd, 1, nullptr};
    p.payload = {(uint8_t*)"S", 1};
    if (a0_writer_write(&noise, p)) x.harness_error("cannot write");
    std::unique_lock<std::mutex> lk(s.mu);
    s.cv.wait(lk, [&] {
      for (auto& v : sv)
        if (v->forever && (!v->sentinels || !v->jobs.empty() || v->busy)) return false;
      return true;
    });
  }
  // Everything has been answered: let every client get to the end of it.
  for (auto& c : cl)
    if (!c->early_close) c->send(r, nullptr);
  {
    std::unique_lock<std::mutex> lk(s.mu);
    s.cv.wait(lk, [&] {
      for (auto& c : cl)
        if (!c->early_close && !c->done_sentinel) return false;
      return true;
    });
  }
  // The answers promised.
  for (auto& c : cl)
    for (auto& fu : c->futures) {
      Req* q = fu.first;
      if (fu.second.wait_for(std::chrono::seconds(0)) == std::future_status::ready) {
        try {
          a0::Packet a = fu.second.get();
          q->got.push_back({0, a.c->id, str(a.c->payload), headers_of(*a.c), nullptr});
        } catch (const std::future_error&) {
          // its client is gone
          if (!c->early_close) q->got.push_back({0, "", "broken promise", {}, nullptr});
        }
      }
    }
  for (auto& c : cl)
    if (!c->early_close) c->close();
  for (auto& v : sv)
    if (v->forever) {
      v->finish_worker(false);
      v->close();
    }
  a0_writer_close(&noise);
  a0_file_close(&f);
  unlink(path.c_str());

  uint64_t shape = 1;
  for (auto& qp : s.reqs) {
    Req& q = *qp;
    Client& c = *cl[q.client];
    auto D = [&] { return describe(q); };
    std::vector<Answer*> ok;
    for (auto& a : q.answers)
      if (!a.err) ok.push_back(&a);
    for (auto& a : q.answers) CHECK_OR_FAIL(x, !a.err, "reply-failed", "an answer could not be given: %s", D().c_str());
    for (auto& g : q.got) {
      Answer* from = nullptr;
      for (auto* a : ok)
        if (a->id == g.id) from = a;
      CHECK_OR_FAIL(x, from, "foreign-answer", "got a packet that is no answer to the request: '%s': %s", g.payload.substr(0, 40).c_str(), D().c_str());
      CHECK_OR_FAIL(x, from->payload == g.payload && includes(g.hdrs, from->hdrs), "answer-changed", "the answer is not what the server sent: %s", D().c_str());
      CHECK_OR_FAIL(x, !(q.c1 && from->t0 > q.c1 && q.how < BLOCKING), "answer-after-cancel", "an answer given after the cancellation was delivered: %s", D().c_str());
      if (g.kept) CHECK_OR_FAIL(x, g.kept->c->id == g.id && str(g.kept->c->payload) == g.payload, "answer-not-kept", "the packet given to the callback changed afterwards: %s", D().c_str());
    }
    if (q.how < BLOCKING) {
      CHECK_OR_FAIL(x, !q.err, "send-failed", "%s", D().c_str());
      CHECK_OR_FAIL(x, q.got.size() <= 1, "answered-twice", "the callback ran %zu times: %s", q.got.size(), D().c_str());
      if (q.how != NO_CALLBACK && !c.early_close && !q.c0) CHECK_OR_FAIL(x, q.got.size() == (ok.empty() ? 0 : 1), "answer-lost", "the callback ran %zu times: %s", q.got.size(), D().c_str());
      if (q.how != NO_CALLBACK && q.c0) {
        bool before = false;  // an answer given before the cancellation began
        for (auto* a : ok) before |= a->t0 < q.c1;
        if (!before) CHECK_OR_FAIL(x, q.got.empty(), "answer-after-cancel", "%s", D().c_str());
        x.count(q.got.empty() ? "cancelled_in_time" : "cancelled_too_late");
      }
      if (c.early_close && q.got.empty() && !ok.empty()) x.count("closed_before_answer");
      x.count("callbacks", q.got.size());
    } else {
      uint64_t c0 = q.c0 && q.foreign_c0 ? std::min(q.c0, q.foreign_c0) : q.c0 ? q.c0 : q.foreign_c0;
      bool timeout = q.err == A0_ERR_SYS && q.syscode == ETIMEDOUT;
      if (!q.err) {
        CHECK_OR_FAIL(x, q.got.size() == 1, "blocking", "%s", D().c_str());
        bool after = q.c1 != 0;
        for (auto* a : ok) after &= a->t0 > q.c1;
        CHECK_OR_FAIL(x, !after, "answer-after-cancel", "a blocking call cancelled before it was answered returned an answer: %s", D().c_str());
        x.count("blocking_answered");
      } else if (q.err == A0_ERR_CANCELLED) {
        CHECK_OR_FAIL(x, c0 && c0 < q.t1, "cancelled-unasked", "%s", D().c_str());
        x.count("blocking_cancelled");
      } else if (timeout) {
        CHECK_OR_FAIL(x, q.how == TIMED, "timeout-unasked", "%s", D().c_str());
        CHECK_OR_FAIL(x, q.returned >= q.deadline, "early-timeout", "timed out %ld ns early: %s", (long)(q.deadline - q.returned), D().c_str());
        x.count("blocking_timed_out");
      } else {
        x.fail("blocking", "unexpected result: " + D());
      }
    }
    for (auto& v : sv) {
      auto it = v->seen.find(q.id);
      size_t n = it == v->seen.end() ? 0 : it->second.size();
      CHECK_OR_FAIL(x, n <= 1, "request-twice", "server %d was given it %zu times: %s", v->index, n, D().c_str());
      bool must = v->forever;
      if (must) CHECK_OR_FAIL(x, n == 1, "request-lost", "server %d was never given it: %s", v->index, D().c_str());
      if (n) {
        Delivery& d = it->second[0];
        CHECK_OR_FAIL(x, d.payload == q.payload && includes(d.hdrs, q.hdrs), "request-changed", "server %d got '%s': %s", v->index, d.payload.substr(0, 50).c_str(), D().c_str());
        CHECK_OR_FAIL(x, d.t > q.t0, "request-early", "%s", D().c_str());
      }
      int told = v->cancelled.count(q.id) ? v->cancelled[q.id] : 0;
      if (v->forever && !v->null_oncancel) CHECK_OR_FAIL(x, told == q.cancels, "cancel-told", "server %d was told %d times: %s", v->index, told, D().c_str());
      else CHECK_OR_FAIL(x, told <= q.cancels, "cancel-told", "server %d was told %d times: %s", v->index, told, D().c_str());
      x.count("cancels_told", told);
      x.count("requests_delivered", n);
      x.eval();
    }
    x.eval();
    shape = mix(shape, mix(q.how * 64 + q.replies * 8 + q.got.size(), mix(q.t1 - q.t0, q.answers.size() * 16 + (q.c0 != 0))));
  }
  for (auto& v : sv) {
    CHECK_OR_FAIL(x, !v->unknown, "unknown-request", "server %d was given %lu requests nobody made", v->index, v->unknown);
    CHECK_OR_FAIL(x, !v->late, "after-close", "server %d: %lu callbacks after it was closed", v->index, v->late);
    for (auto& kv : v->cancelled) CHECK_OR_FAIL(x, s.by_id.count(kv.first), "cancel-unknown", "server %d was told of the cancellation of '%s'", v->index, kv.first.c_str());
  }
  for (auto& c : cl) {
    CHECK_OR_FAIL(x, !c->late, "after-close", "client %d: %lu callbacks after it was closed", c->index, c->late);
    CHECK_OR_FAIL(x, c->early_close || c->done_sentinel == 1, "answered-twice", "client %d: the last callback ran %d times", c->index, c->done_sentinel);
  }
  x.count("servers_came_and_went", came);
  x.distinct(shape);
  if (s.reqs.size() > 2) x.sample(describe(*s.reqs[s.reqs.size() / 2]));
}

// ---------------------------------------------------------------- progress streams

struct Msg {
  std::string id, payload;
  Hdrs hdrs;
  bool done;
  uint64_t t0 = 0, t1 = 0;
  a0_err_t err = A0_OK;
};
struct Conn {
  uint64_t no;
  int client;
  std::string id, payload;
  Hdrs hdrs;
  // plan
  int n = 1;              // messages
  bool complete = true;   // the last of them is
  int extra = 0;          // messages sent after completion
  bool inline_send = true;
  bool no_callback = false;
  int cancel_in_callback = -1;  // at the k-th message, from the callback itself
  // history
  uint64_t t0 = 0, t1 = 0, c0 = 0, c1 = 0;
  a0_err_t err = A0_OK;
  int cancels = 0, foreign = 0;
  std::vector<Msg> sent;
  struct In {
    uint64_t t0, t1;
    std::string id, payload;
    bool done;
    Hdrs hdrs;
    std::shared_ptr<a0::Packet> kept;
  };
  std::vector<In> got;
};

struct PShared {
  std::mutex mu;
  std::condition_variable cv;
  std::vector<std::unique_ptr<Conn>> conns;
  std::map<std::string, Conn*> by_id;
  uint64_t seed;
  std::deque<std::string> recent;
  std::string any_id(Rng& r) {
    std::unique_lock<std::mutex> lk(mu);
    return recent.empty() ? "" : recent[r.below(recent.size())];
  }
};

struct PServer {
  PShared* s;
  int index;
  bool cpp, null_oncancel, forever = true;
  Scratch scratch;
  a0_prpc_server_t c{};
  a0::PrpcServer x;
  Rng rng{1};
  uint64_t c1 = 0, late = 0, unknown = 0, sentinels = 0;
  std::map<std::string, std::vector<Delivery>> seen;
  std::map<std::string, int> cancelled;
  struct Job {
    Conn* q;
    char id[37];
    a0::PrpcConnection xc;
    int next;
  };
  std::deque<Job> jobs;
  int stop = 0, busy = 0;
  std::vector<std::thread> workers;

  void send(Rng& r, Conn* q, const char* id, a0::PrpcConnection* xc, const a0_packet_t* whole, int k) {
    Msg m;
    m.done = !q || (q->complete && k == q->n - 1) || (k >= q->n && r.chance(30));
    m.payload = q ? strf("M%lu.%d|", q->no, k) + std::string(r.below(r.chance(10) ? 1500 : 40), 'm') : std::string("E");
    if (q) m.hdrs = some_headers(r, s->any_id(r));
    CPacket p(r, m.hdrs, m.payload);
    m.id = p.p.id;
    m.t0 = stamp();
    if (xc) {
      m.err = guard([&] { xc->send(a0::Packet(p.p, nullptr), m.done); });
    } else {
      a0_prpc_connection_t cn{&c, {}};
      if (whole) cn.pkt = *whole;
      memcpy(cn.pkt.id, id, 37);
      m.err = a0_prpc_server_send(cn, p.p, m.done);
    }
    m.t1 = stamp();
    if (!q) return;
    std::unique_lock<std::mutex> lk(s->mu);
    q->sent.push_back(m);
    s->cv.notify_all();
  }
  void on_connect(const a0_packet_t& pkt, a0::PrpcConnection* xc) {
    Delivery d{stamp(), str(pkt.payload), pkt.id, headers_of(pkt)};
    Conn* q = nullptr;
    {
      std::unique_lock<std::mutex> lk(s->mu);
      if (c1) late++;
      if (d.payload[0] == 'S') {
        sentinels++;
        s->cv.notify_all();
        return;
      }
      if (d.payload[0] != 'E') {
        auto it = s->by_id.find(d.id);
        if (it == s->by_id.end()) {
          unknown++;
          return;
        }
        q = it->second;
        seen[d.id].push_back(d);
        s->cv.notify_all();
      }
    }
    if (!cpp && rng.below(12) == 0) {
      g_own_close_tries++;
      if (!a0_prpc_server_close(&c)) g_own_close_ok++;
    }
    if (index != 0) return;  // one server does the talking
    if (!q) {
      send(rng, nullptr, pkt.id, xc, &pkt, 0);
      return;
    }
    int k = 0, now = q->inline_send ? (rng.chance(70) ? q->n + q->extra : (int)rng.below(q->n + 1)) : 0;
    for (; k < now; k++) {
      dawdle(rng);
      send(rng, q, pkt.id, xc, &pkt, k);
    }
    if (k < q->n + q->extra) {
      std::unique_lock<std::mutex> lk(s->mu);
      Job j;
      j.q = q;
      memcpy(j.id, pkt.id, 37);
      if (xc) j.xc = *xc;
      j.next = k;
      jobs.push_back(std::move(j));
      s->cv.notify_all();
    }
  }
  void on_cancel(const std::string& id) {
    std::unique_lock<std::mutex> lk(s->mu);
    if (c1) late++;
    cancelled[id]++;
    s->cv.notify_all();
  }
  a0_err_t open(const std::string& name, size_t size) {
    rng = Rng(mix(s->seed, 77 + index));
    auto o = file_opts(size);
    a0_err_t e;
    if (cpp) {
      std::function<void(a0::string_view)> oc;
      if (!null_oncancel) oc = [this](a0::string_view id) { on_cancel(std::string(id.data(), id.size())); };
      e = guard([&] {
        x = a0::PrpcServer(a0::PrpcTopic(name, xfile_opts(size)), [this](a0::PrpcConnection q) {
          a0::Packet p = q.pkt();
          on_connect(*p.c, &q); }, oc);
      });
    } else {
      e = a0_prpc_server_init(&c, {name.c_str(), &o}, scratch.alloc(),
                              {this, [](void* u, a0_prpc_connection_t q) { ((PServer*)u)->on_connect(q.pkt, nullptr); }},
                              {this, null_oncancel ? nullptr : +[](void* u, a0_uuid_t id) { ((PServer*)u)->on_cancel(id); }});
    }
    if (e) return e;
    // Each connection has one sender at a time; a sender goes from connection to connection.
    for (int w = 0, n = index == 0 ? 1 + (int)rng.below(3) : 0; w < n; w++)
      workers.emplace_back([this, w] {
        Rng r(mix(s->seed, 1000 + w));
        std::unique_lock<std::mutex> lk(s->mu);
        while (true) {
          s->cv.wait(lk, [&] { return stop || !jobs.empty(); });
          if (jobs.empty()) return;
          size_t i = r.below(jobs.size());
          Job j = jobs[i];
          jobs.erase(jobs.begin() + i);
          busy++;
          lk.unlock();
          for (int k = 0, n = 1 + (int)r.below(4); k < n && j.next < j.q->n + j.q->extra; k++) {
            dawdle(r);
            send(r, j.q, j.id, j.xc.c ? &j.xc : nullptr, nullptr, j.next++);
          }
          lk.lock();
          busy--;
          if (j.next < j.q->n + j.q->extra) jobs.push_back(j);
          s->cv.notify_all();
        }
      });
    return A0_OK;
  }
  void finish() {
    {
      std::unique_lock<std::mutex> lk(s->mu);
      stop = 1;
      s->cv.notify_all();
    }
    for (auto& t : workers) t.join();
    workers.clear();
  }
  void close() {
    if (cpp) x = a0::PrpcServer();
    else a0_prpc_server_close(&c);
    uint64_t t = stamp();
    std::unique_lock<std::mutex> lk(s->mu);
    c1 = t;
  }
};

struct PClient {
  PShared* s;
  int index;
  bool cpp, early_close = false;
  Scratch scratch;
  a0_prpc_client_t c{};
  a0::PrpcClient x;
  uint64_t c1 = 0, late = 0;
  int ended = 0;
  std::vector<uint64_t> begins;  // of all callbacks, under s->mu
  struct Cb {
    PClient* cl;
    Conn* q;
  };
  std::deque<Cb> cbs;
  Rng rng{1};

  a0_err_t open(const std::string& name, size_t size) {
    rng = Rng(mix(s->seed, 5000 + index));
    auto o = file_opts(size);
    if (cpp) return guard([&] { x = a0::PrpcClient(a0::PrpcTopic(name, xfile_opts(size))); });
    return a0_prpc_client_init(&c, {name.c_str(), &o}, scratch.alloc());
  }
  void on_progress(Conn* q, const a0_packet_t& p, bool done, const a0::Packet* keep) {
    Conn::In g{stamp(), 0, p.id, str(p.payload), done, headers_of(p), nullptr};
    if (keep) g.kept = std::make_shared<a0::Packet>(*keep);
    size_t at = 0;
    bool cancel_now = false;
    {
      std::unique_lock<std::mutex> lk(s->mu);
      if (c1) late++;
      begins.push_back(g.t0);
      if (q) {
        at = q->got.size();
        q->got.push_back(g);
        cancel_now = q->cancel_in_callback == (int)at;
      }
    }
    dawdle(rng);
    if (cancel_now) cancel(q, true);
    if (!cpp && rng.below(12) == 0) {
      g_own_close_tries++;
      if (!a0_prpc_client_close(&c)) g_own_close_ok++;
    }
    std::unique_lock<std::mutex> lk(s->mu);
    if (q) q->got[at].t1 = stamp();
    else ended++;
    s->cv.notify_all();
  }
  void connect(Rng& r, Conn* q) {
    Hdrs h;
    if (q) h = some_headers(r, s->any_id(r));
    CPacket p(r, h, q ? q->payload : std::string("E"));
    Cb* cb;
    {
      std::unique_lock<std::mutex> lk(s->mu);
      if (q) {
        q->id = p.p.id;
        q->hdrs = h;
        s->by_id[q->id] = q;
        s->recent.push_back(q->id);
        if (s->recent.size() > 8) s->recent.pop_front();
      }
      cbs.push_back({this, q});
      cb = &cbs.back();
    }
    bool none = q && q->no_callback;
    uint64_t t0 = stamp();
    a0_err_t e;
    if (cpp) {
      e = guard([&] {
        a0::Packet xp(p.p, nullptr);
        if (none) x.connect(xp, nullptr);
        else x.connect(xp, [this, q](a0::Packet a, bool done) { on_progress(q, *a.c, done, &a); });
      });
    } else {
      a0_prpc_progress_callback_t ccb = {cb, [](void* u, a0_packet_t a, bool done) { ((Cb*)u)->cl->on_progress(((Cb*)u)->q, a, done, nullptr); }};
      if (none) ccb = {nullptr, nullptr};
      e = a0_prpc_client_connect(&c, p.p, ccb);
    }
    uint64_t t1 = stamp();
    if (!q) return;
    std::unique_lock<std::mutex> lk(s->mu);
    q->t0 = t0;
    q->t1 = t1;
    q->err = e;
  }
  void cancel(Conn* q, bool own) {
    {
      std::unique_lock<std::mutex> lk(s->mu);
      q->cancels++;
      if (!own) q->foreign++;
      if (own && !q->c0) q->c0 = stamp();
    }
    char id[37];
    memcpy(id, q->id.c_str(), 37);
    if (cpp) guard([&] { x.cancel(q->id); });
    else a0_prpc_client_cancel(&c, id);
    uint64_t t1 = stamp();
    std::unique_lock<std::mutex> lk(s->mu);
    if (own && !q->c1) q->c1 = t1;
  }
  void close() {
    if (cpp) x = a0::PrpcClient();
    else a0_prpc_client_close(&c);
    uint64_t t = stamp();
    std::unique_lock<std::mutex> lk(s->mu);
    c1 = t;
  }
};

std::string describe(const Conn& q) {
  std::string d = strf("connection %lu (client %d, %d messages%s%s) made %lu..%lu result %s", q.no, q.client, q.n, q.complete ? " then complete" : "", q.inline_send ? " at once" : "", q.t0, q.t1,
                       errname(q.err).c_str());
  if (q.cancels) d += strf(", cancelled %d times (%d by others) %lu..%lu", q.cancels, q.foreign, q.c0, q.c1);
  for (auto& m : q.sent) d += strf(", sent '%s'%s %lu..%lu %s", m.payload.substr(0, 8).c_str(), m.done ? " last" : "", m.t0, m.t1, errname(m.err).c_str());
  for (auto& g : q.got) d += strf(", got '%s'%s %lu..%lu", g.payload.substr(0, 8).c_str(), g.done ? " last" : "", g.t0, g.t1);
  return d;
}

void run_prpc(Ctx& x) {
  Rng& r = x.rng;
  std::string name = strf("p%lu", x.case_id), path = topic_file(x, name, ".prpc.a0");
  PShared s;
  s.seed = r.next();
  g_clock = 0;
  int ncl = 1 + (int)r.below(4), nsv = r.chance(60) ? 1 : 1 + (int)r.below(3), nthr = 1 + (int)r.below(2);
  int per = r.chance(5) ? 40 + (int)r.below(100) : 1 + (int)r.below(r.chance(50) ? 4 : 15);
  size_t size = 1 << 24;
  x.desc(strf("prpc | %d clients x %d threads x %d, %d servers", ncl, nthr, per, nsv));
  a0_err_t e;
  std::vector<std::unique_ptr<PServer>> sv;
  for (int i = 0; i < nsv; i++) {
    sv.emplace_back(new PServer());
    sv[i]->s = &s;
    sv[i]->index = i;
    sv[i]->cpp = r.chance(50);
    sv[i]->null_oncancel = r.chance(10);
    sv[i]->forever = i == 0 || r.chance(50);
    if (sv[i]->forever && (e = sv[i]->open(name, size))) x.fail("open", "opening a server failed: " + errname(e));
  }
  std::vector<std::unique_ptr<PClient>> cl;
  for (int i = 0; i < ncl; i++) {
    cl.emplace_back(new PClient());
    cl[i]->s = &s;
    cl[i]->index = i;
    cl[i]->cpp = r.chance(50);
    cl[i]->early_close = i > 0 && r.chance(35);
    if ((e = cl[i]->open(name, size))) x.fail("open", "opening a client failed: " + errname(e));
  }
  a0_file_t f;
  auto o = file_opts(size);
  a0_writer_t noise;
  if (a0_file_open(path.c_str(), &o, &f) || a0_writer_init(&noise, f.arena)) x.harness_error("cannot open the topic");
  std::vector<std::thread> coming;
  for (auto& v : sv)
    if (!v->forever)
      coming.emplace_back([&, seed = r.next(), sp = v.get()] {
        Rng q(seed);
        usleep(q.below(1500));
        if (sp->open(name, size)) return;
        usleep(q.below(3000));
        sp->close();
      });
  std::vector<std::thread> th;
  std::vector<std::atomic<int>> left(ncl);
  for (int c = 0; c < ncl; c++) {
    left[c] = nthr;
    for (int t = 0; t < nthr; t++)
      th.emplace_back([&, c, seed = r.next()] {
        Rng q(seed);
        std::vector<Conn*> mine;
        for (int i = 0; i < per; i++) {
          dawdle(q);
          if (!mine.empty() && q.chance(15)) {
            cl[c]->cancel(q.pick(mine), true);
            continue;
          }
          if (q.chance(6)) {
            // somebody else's connection: only the servers are told
            Conn* v = nullptr;
            {
              std::unique_lock<std::mutex> lk(s.mu);
              if (!s.conns.empty()) v = s.conns[q.below(s.conns.size())].get();
              if (v && (v->id.empty() || v->client == c)) v = nullptr;
            }
            if (v) cl[c]->cancel(v, false);
            continue;
          }
          if (q.chance(5)) {
            write_noise(q, &noise, "a0_conn_id", "a0_prpc_type", {"progress", "complete"}, s.any_id(q));
            continue;
          }
          Conn* v;
          {
            std::unique_lock<std::mutex> lk(s.mu);
            s.conns.emplace_back(new Conn());
            v = s.conns.back().get();
            v->no = s.conns.size() - 1;
          }
          v->client = c;
          v->payload = strf("P%lu|", v->no) + std::string(q.below(60), 'p');
          v->n = q.chance(60) ? 1 + (int)q.below(4) : q.chance(80) ? (int)q.below(20) : (int)q.below(100);
          v->complete = q.chance(75);
          if (v->n == 0) v->complete = false;
          v->extra = v->complete && q.chance(20) ? 1 + (int)q.below(3) : 0;
          v->inline_send = q.chance(50);
          v->no_callback = q.chance(4);
          if (!cl[c]->early_close && q.chance(12)) v->cancel_in_callback = (int)q.below(3);
          cl[c]->connect(q, v);
          mine.push_back(v);
        }
        if (--left[c] == 0 && cl[c]->early_close) cl[c]->close();
      });
  }
  for (auto& t : th) t.join();
  for (auto& t : coming) t.join();
  auto sentinel = [&](uint64_t n) {
    a0_packet_header_t hd = {"a0_prpc_type", "connect"};
    a0_packet_t p;
    a0_packet_init(&p);
    p.headers_block = {&hd, 1, nullptr};
    p.payload = {(uint8_t*)"S", 1};
    if (a0_writer_write(&noise, p)) x.harness_error("cannot write");
    std::unique_lock<std::mutex> lk(s.mu);
    s.cv.wait(lk, [&] {
      for (auto& v : sv)
        if (v->forever && (v->sentinels < n || !v->jobs.empty() || v->busy)) return false;
      return true;
    });
  };
  sentinel(1);
  for (auto& c : cl)
    if (!c->early_close) c->connect(r, nullptr);
  {
    std::unique_lock<std::mutex> lk(s.mu);
    s.cv.wait(lk, [&] {
      for (auto& c : cl)
        if (!c->early_close && !c->ended) return false;
      return true;
    });
  }
  sentinel(2);  // cancellations made by callbacks
  for (auto& c : cl)
    if (!c->early_close) c->close();
  for (auto& v : sv)
    if (v->forever) {
      v->finish();
      v->close();
    }
  a0_writer_close(&noise);
  a0_file_close(&f);
  unlink(path.c_str());

  uint64_t shape = 2;
  for (auto& qp : s.conns) {
    Conn& q = *qp;
    PClient& c = *cl[q.client];
    auto D = [&] { return describe(q); };
    CHECK_OR_FAIL(x, !q.err, "connect-failed", "%s", D().c_str());
    std::vector<Msg*> due;  // what the client is to get, at most
    for (auto& m : q.sent) {
      CHECK_OR_FAIL(x, !m.err, "send-failed", "%s", D().c_str());
      if (due.empty() || !due.back()->done) due.push_back(&m);
    }
    for (size_t i = 0; i < q.got.size(); i++) {
      auto& g = q.got[i];
      bool any = false;
      for (auto& m : q.sent) any |= m.id == g.id;
      CHECK_OR_FAIL(x, any, "foreign-message", "message %zu is not one the server sent on this connection: '%s': %s", i, g.payload.substr(0, 40).c_str(), D().c_str());
      CHECK_OR_FAIL(x, i < due.size(), "after-completion", "message %zu came after completion: %s", i, D().c_str());
      CHECK_OR_FAIL(x, due[i]->id == g.id, "order", "message %zu is lost, repeated or out of order: %s", i, D().c_str());
      CHECK_OR_FAIL(x, due[i]->payload == g.payload && includes(g.hdrs, due[i]->hdrs), "changed", "message %zu changed: %s", i, D().c_str());
      CHECK_OR_FAIL(x, due[i]->done == g.done, "done-flag", "message %zu has completion flag %d: %s", i, g.done, D().c_str());
      CHECK_OR_FAIL(x, g.t0 > due[i]->t0, "early", "%s", D().c_str());
      if (g.kept) CHECK_OR_FAIL(x, g.kept->c->id == g.id && str(g.kept->c->payload) == g.payload, "not-kept", "the packet given to the callback changed afterwards: %s", D().c_str());
    }
    if (!q.c0 && !c.early_close && !q.no_callback) CHECK_OR_FAIL(x, q.got.size() == due.size(), "lost", "%zu of %zu messages arrived: %s", q.got.size(), due.size(), D().c_str());
    if (q.c1) {
      // One callback may already have been on its way when the cancellation returned.
      uint64_t first = ~0ull;
      for (auto b : c.begins)
        if (b > q.c1) first = std::min(first, b);
      for (auto& g : q.got)
        if (g.t0 < q.c1 && g.t1 > q.c1) first = 0;
      for (auto& g : q.got)
        if (g.t0 > q.c1) {
          CHECK_OR_FAIL(x, g.t0 == first, "after-cancel", "message '%s' was delivered at %lu after the cancellation: %s", g.payload.substr(0, 8).c_str(), g.t0, D().c_str());
          x.count("on_its_way_at_cancel");
        }
      if (q.got.size() < due.size()) x.count("cut_by_cancel");
    }
    if (c.early_close && q.got.size() < due.size()) x.count("cut_by_close");
    for (auto& v : sv) {
      auto it = v->seen.find(q.id);
      size_t n = it == v->seen.end() ? 0 : it->second.size();
      CHECK_OR_FAIL(x, n <= 1, "connect-twice", "server %d: %s", v->index, D().c_str());
      if (v->forever) CHECK_OR_FAIL(x, n == 1, "connect-lost", "server %d: %s", v->index, D().c_str());
      if (n) CHECK_OR_FAIL(x, it->second[0].payload == q.payload && includes(it->second[0].hdrs, q.hdrs), "connect-changed", "server %d: %s", v->index, D().c_str());
      int told = v->cancelled.count(q.id) ? v->cancelled[q.id] : 0;
      if (v->forever && !v->null_oncancel) CHECK_OR_FAIL(x, told == q.cancels, "cancel-told", "server %d was told %d times: %s", v->index, told, D().c_str());
      else CHECK_OR_FAIL(x, told <= q.cancels, "cancel-told", "server %d was told %d times: %s", v->index, told, D().c_str());
      x.count("cancels_told", told);
      x.eval();
    }
    x.count("messages", q.got.size());
    x.count("completed", !q.got.empty() && q.got.back().done);
    x.count("extra_after_completion", q.extra);
    x.count("foreign_cancels", q.foreign);
    x.eval(1 + q.got.size());
    for (auto& g : q.got) shape = mix(shape, g.t0);
    shape = mix(shape, q.c1);
  }
  for (auto& v : sv) {
    CHECK_OR_FAIL(x, !v->unknown, "unknown-connect", "server %d was given %lu connections nobody made", v->index, v->unknown);
    CHECK_OR_FAIL(x, !v->late, "after-close", "server %d: %lu callbacks after it was closed", v->index, v->late);
    for (auto& kv : v->cancelled) CHECK_OR_FAIL(x, s.by_id.count(kv.first), "cancel-unknown", "server %d was told of the cancellation of '%s'", v->index, kv.first.c_str());
  }
  for (auto& c : cl) CHECK_OR_FAIL(x, !c->late, "after-close", "client %d: %lu callbacks after it was closed", c->index, c->late);
  x.distinct(shape);
  if (!s.conns.empty()) x.sample(describe(*s.conns[s.conns.size() / 2]));
}

void run_case(Ctx& x) {
  g_own_close_tries = g_own_close_ok = 0;
  if (x.mode == "prpc") run_prpc(x);
  else run_rpc(x);
  CHECK_OR_FAIL(x, !g_own_close_ok, "close-own-callback", "a close from the object's own callback succeeded while that callback runs");
  x.count("closes_in_own_callback", g_own_close_tries);
}
}  // namespace

int main(int argc, char** argv) { return harness_main(argc, argv, run_case); }
