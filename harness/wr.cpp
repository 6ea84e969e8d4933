// C22 (mode headers), C23 (mode chain), C33 (mode big): what writers put into a topic.
#include <a0/cfg.h>
#include <a0/cfg.hpp>
#include <a0/file.h>
#include <a0/log.h>
#include <a0/log.hpp>
#include <a0/middleware.h>
#include <a0/middleware.hpp>
#include <a0/prpc.h>
#include <a0/prpc.hpp>
#include <a0/pubsub.h>
#include <a0/pubsub.hpp>
#include <a0/rpc.h>
#include <a0/rpc.hpp>
#include <a0/writer.h>
#include <a0/writer.hpp>

#include <nlohmann/json.hpp>

#include <atomic>
#include <memory>
#include <set>
#include <thread>

#include "packets.hpp"

namespace {

// Every kind of topic uses the same file name, so that all kinds of writers can share one file.
std::string topic_file(Ctx& x, const std::string& name) { return x.scratch + "/root/" + name + ".a0"; }

a0_file_options_t file_opts(size_t size) {
  a0_file_options_t o = A0_FILE_OPTIONS_DEFAULT;
  o.create_options.size = size;
  return o;
}

a0_err_t noise_process(void* u, a0_packet_t* p, a0_middleware_chain_t ch) {
  for (volatile int i = 0; i < (int)(intptr_t)u; i++) {}
  if ((intptr_t)u & 1) sched_yield();
  return a0_middleware_chain(ch, p);
}
a0_err_t noise_locked(void* u, a0_transport_locked_t, a0_packet_t* p, a0_middleware_chain_t ch) {
  return noise_process(u, p, ch);
}
a0_middleware_t noise(int n) { return {(void*)(intptr_t)n, nullptr, noise_process, noise_locked}; }

//////////////////////////////////////////////////////////////////////////////
// headers

struct Rec {
  char id[37];
  int writer, thread, n;
  int std_headers;
  uint64_t t0, t1;
  a0_err_t err;
};

Hdrs user_headers(uint64_t key) {
  Rng r(key);
  Hdrs h;
  size_t n = r.below(5);
  for (size_t i = 0; i < n; i++) {
    std::string v(r.below(30), 'v');
    for (auto& c : v) c = 'a' + r.below(26);
    h.push_back({r.chance(20) ? "same" : r.chance(10) ? "a0_time_mon" : strf("k%lu", r.below(40)), v});
  }
  return h;
}

std::string user_payload(uint64_t key, size_t max) {
  Rng r(mix(key, 77));
  std::string s(r.below(max), 0);
  for (auto& c : s) c = (char)r.next();
  return s;
}

struct AnyWriter {
  int kind;
  bool std_headers = true;
  bool level = false;
  a0_file_t file{};
  a0_writer_t w{};
  a0_publisher_t pub{};
  a0_logger_t log{};
  a0_cfg_t cfg{};
  a0::Publisher xpub;
  a0::Writer xw, xw2;
  a0::Logger xlog;
  a0::Cfg xcfg;
  a0_writer_t outer{};

  static constexpr int kKinds = 12;
  a0_err_t open(Ctx& x, Rng& r, const std::string& name, size_t size) {
    auto o = file_opts(size);
    a0::File::Options xo = a0::File::Options::DEFAULT;
    xo.create_options.size = size;
    std::string path = topic_file(x, name);
    switch (kind) {
      case 0:
      case 1:
      case 9:
      case 10:
      case 11: {
        a0_err_t e = a0_file_open(path.c_str(), &o, &file);
        if (!e) e = a0_writer_init(&w, file.arena);
        if (e) return e;
        if (kind == 0) {
          std_headers = false;
          return A0_OK;
        }
        if (kind == 1) return a0_writer_push(&w, a0_add_standard_headers());
        if (kind == 11) return a0_writer_wrap(&w, a0_add_standard_headers(), &outer);
        // each header on its own, in any order, with delays in between
        std::vector<a0_middleware_t> ms = {a0_add_time_mono_header(), a0_add_time_wall_header(), a0_add_writer_id_header(),
                                           a0_add_writer_seq_header(), a0_add_transport_seq_header()};
        if (kind == 10)
          for (int i = 0; i < 3; i++) ms.push_back(noise((int)r.below(20000)));
        for (size_t i = ms.size(); i > 1; i--) std::swap(ms[i - 1], ms[r.below(i)]);
        for (auto& m : ms)
          if ((e = a0_writer_push(&w, m))) return e;
        return A0_OK;
      }
      case 2: return a0_publisher_init(&pub, {name.c_str(), &o});
      case 3: level = true; return a0_logger_init(&log, {name.c_str(), &o});
      case 4: return a0_cfg_init(&cfg, {name.c_str(), &o});
      case 5: return guard([&] { xpub = a0::Publisher(a0::PubSubTopic(name, xo)); });
      case 6: return guard([&] {
        xw = a0::Writer(a0::File(path, xo));
        if (r.chance(50)) xw.push(a0::add_standard_headers());
        else {
          xw2 = xw.wrap(a0::add_standard_headers());
          std::swap(xw, xw2);
        }
      });
      case 7: level = true; return guard([&] { xlog = a0::Logger(a0::LogTopic(name, xo)); });
      default: return guard([&] { xcfg = a0::Cfg(a0::CfgTopic(name, xo)); });
    }
  }
  a0_err_t write(Rng& r, const Hdrs& h, const std::string& pay, char* id) {
    if (kind >= 5 && kind <= 8) {
      std::unordered_multimap<std::string, std::string> mm;
      for (auto& e : h) mm.insert(e);
      a0::Packet p(mm, pay);
      memcpy(id, std::string(p.id()).c_str(), 37);
      return guard([&] {
        switch (kind) {
          case 5: xpub.pub(p); break;
          case 6: xw.write(p); break;
          case 7: xlog.warn(p); break;
          default: xcfg.write(p);
        }
      });
    }
    CPacket p(r, h, pay);
    memcpy(id, p.p.id, 37);
    switch (kind) {
      case 2: return a0_publisher_pub(&pub, p.p);
      case 3: return a0_logger_warn(&log, p.p);
      case 4: return a0_cfg_write(&cfg, p.p);
      case 11: return a0_writer_write(&outer, p.p);
      default: return a0_writer_write(&w, p.p);
    }
  }
  void close() {
    switch (kind) {
      case 2: a0_publisher_close(&pub); break;
      case 3: a0_logger_close(&log); break;
      case 4: a0_cfg_close(&cfg); break;
      case 5: xpub = {}; break;
      case 6: xw = {}; xw2 = {}; break;
      case 7: xlog = {}; break;
      case 8: xcfg = a0::Cfg(); break;
      case 11: a0_writer_close(&outer); /* fall through */
      default:
        a0_writer_close(&w);
        a0_file_close(&file);
    }
  }
};

bool all_digits(const std::string& s) { return !s.empty() && s.size() < 20 && s.find_first_not_of("0123456789") == std::string::npos; }
bool is_uuid(const std::string& s) {
  if (s.size() != 36) return false;
  for (size_t i = 0; i < 36; i++) {
    bool dash = i == 8 || i == 13 || i == 18 || i == 23;
    if (dash != (s[i] == '-')) return false;
    if (!dash && !strchr("0123456789abcdefABCDEF", s[i])) return false;
  }
  return true;
}
// "2021-01-01T00:00:00.000000000-00:00" to seconds, or -1
long wall_seconds(const std::string& s) {
  if (s.size() != 35) return -1;
  const char* f = "dddd-dd-ddTdd:dd:dd.ddddddddd-00:00";
  for (int i = 0; i < 35; i++) {
    if (f[i] == 'd' ? !isdigit((unsigned char)s[i]) : s[i] != f[i]) return -1;
  }
  struct tm t = {};
  t.tm_year = atoi(s.substr(0, 4).c_str()) - 1900;
  t.tm_mon = atoi(s.substr(5, 2).c_str()) - 1;
  t.tm_mday = atoi(s.substr(8, 2).c_str());
  t.tm_hour = atoi(s.substr(11, 2).c_str());
  t.tm_min = atoi(s.substr(14, 2).c_str());
  t.tm_sec = atoi(s.substr(17, 2).c_str());
  return timegm(&t);
}

// Many writes through one writer, so that the counters get long.
void run_count(Ctx& x) {
  Rng& r = x.rng;
  std::string name = strf("n%lu", x.case_id);
  AnyWriter w;
  w.kind = 1 + (int)r.below(AnyWriter::kKinds - 1);
  x.desc(strf("headers | many writes of kind %d", w.kind));
  if (w.open(x, r, name, 8192)) x.fail("open", "opening failed");
  a0_file_t f;
  auto o = file_opts(8192);
  a0_transport_t t;
  a0_transport_locked_t lk;
  if (a0_file_open(topic_file(x, name).c_str(), &o, &f) || a0_transport_init(&t, f.arena)) x.fail("open", "opening failed");
  uint64_t n = 10050 + r.below(300);
  std::string mono;
  for (uint64_t i = 0; i < n; i++) {
    char id[37];
    a0_err_t e = w.write(r, {}, "x", id);
    CHECK_OR_FAIL(x, !e, "write-failed", "write %lu failed: %s", i, errname(e).c_str());
    a0_transport_frame_t* fr;
    if (a0_transport_lock(&t, &lk)) x.fail("left-locked", "locking failed");
    Pk p;
    if (a0_transport_jump_tail(lk) || a0_transport_frame(lk, &fr) || !parse_flat(fr->data, fr->hdr.data_size, &p)) x.fail("unreadable", "the newest packet cannot be read");
    a0_transport_unlock(lk);
    CHECK_OR_FAIL(x, p.id == id && p.payload == "x", "payload", "another packet is the newest");
    CHECK_OR_FAIL(x, p.one("a0_writer_seq") == std::to_string(i), "writer-seq", "write %lu has writer sequence '%s'", i, p.one("a0_writer_seq").c_str());
    CHECK_OR_FAIL(x, p.one("a0_transport_seq") == std::to_string(i), "transport-seq", "write %lu has transport sequence '%s'", i, p.one("a0_transport_seq").c_str());
    CHECK_OR_FAIL(x, p.one("a0_time_mono") >= mono, "mono-order", "time went back");
    mono = p.one("a0_time_mono");
    x.eval();
    if (i % 256 == 0) x.tick();
  }
  w.close();
  a0_file_close(&f);
  unlink(topic_file(x, name).c_str());
  x.count("long_histories");
}

void run_headers(Ctx& x) {
  Rng& r = x.rng;
  if (r.chance(1) && r.chance(30)) return run_count(x);
  std::string name = strf("h%lu", x.case_id);
  std::string path = topic_file(x, name);
  int nproc = r.chance(50) ? 1 : 1 + r.below(3);
  int nwr = 1 + r.below(nproc == 1 ? 4 : 2);  // per process
  int nthr = 1 + r.below(4);                 // per process; all share its writers
  int per = r.chance(30) ? 1 + r.below(6) : 1 + r.below(40);
  size_t maxpay = 1 + r.below(300);
  bool evict = r.chance(30);
  size_t size = evict ? 4096 + r.below(8000) : 256 + (size_t)nproc * nthr * per * (maxpay + 1200);
  uint64_t key = r.next();
  long wall0 = time(nullptr);
  size_t total = (size_t)nproc * nthr * per;
  Rec* recs = (Rec*)mmap(0, total * sizeof(Rec), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::atomic<int>* gate = (std::atomic<int>*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::vector<int> kinds;
  for (int i = 0; i < nproc * nwr; i++) kinds.push_back(r.chance(8) ? 0 : 1 + (int)r.below(AnyWriter::kKinds - 1));
  std::string kd;
  for (int k : kinds) kd += strf("%d,", k);
  x.desc(strf("headers | %d processes x %d threads sharing writers of kinds %s, %d writes each", nproc, nthr, kd.c_str(), per));

  auto process = [&](int pr) {
    Rng lr(mix(key, 1000 + pr));
    std::vector<std::unique_ptr<AnyWriter>> ws;
    for (int i = 0; i < nwr; i++) {
      ws.emplace_back(new AnyWriter);
      ws.back()->kind = kinds[pr * nwr + i];
      a0_err_t e = ws.back()->open(x, lr, name, size);
      if (e) _exit(40);
    }
    std::atomic<int> ready{0};
    auto body = [&](int th) {
      Rng tr(mix(key, 5000 + pr * 64 + th));
      ready++;
      while (ready < nthr) sched_yield();
      for (int n = 0; n < per; n++) {
        size_t slot = ((size_t)pr * nthr + th) * per + n;
        Rec& rec = recs[slot];
        int wi = (int)tr.below(nwr);
        AnyWriter& w = *ws[wi];
        rec.writer = pr * nwr + wi;
        rec.thread = pr * nthr + th;
        rec.n = n;
        rec.std_headers = w.std_headers;
        uint64_t uk = mix(key, 100000 + slot);
        Hdrs h = user_headers(uk);
        std::string pay = user_payload(uk, maxpay);
        rec.t0 = now_ns();
        rec.err = w.write(tr, h, pay, rec.id);
        rec.t1 = now_ns();
      }
    };
    std::vector<std::thread> ts;
    for (int t = 1; t < nthr; t++) ts.emplace_back(body, t);
    body(0);
    for (auto& t : ts) t.join();
    for (auto& w : ws) w->close();
  };

  std::vector<pid_t> kids;
  for (int p = 1; p < nproc; p++) {
    pid_t pid = fork();
    if (pid == 0) {
      gate[0]++;
      while (gate[0] < nproc) sched_yield();
      process(p);
      _exit(0);
    }
    kids.push_back(pid);
  }
  gate[0]++;
  while (gate[0] < nproc) sched_yield();
  process(0);
  for (pid_t k : kids) {
    int st;
    waitpid(k, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st)) x.fail("writer-process-died", strf("a writing process ended with status %x", st));
  }
  a0_file_t f;
  auto o = file_opts(size);
  if (a0_file_open(path.c_str(), &o, &f)) x.harness_error("cannot open the topic");
  Contents c = read_all(f.arena);
  a0_file_close(&f);
  unlink(path.c_str());

  std::map<std::string, Rec*> by_id;
  bool ok = true;
  for (size_t i = 0; i < total; i++) {
    if (recs[i].err) x.fail("write-failed", strf("a write of a packet that fits failed: %s", errname(recs[i].err).c_str()));
    by_id[recs[i].id] = &recs[i];
  }
  CHECK_OR_FAIL(x, c.bad.empty(), "unreadable", "the topic cannot be read afterwards: %s", c.bad.c_str());
  CHECK_OR_FAIL(x, c.high == total, "count", "%zu writes, but the newest sequence number is %lu", total, c.high);
  if (!evict) CHECK_OR_FAIL(x, c.pk.size() == total, "count", "%zu writes, %zu packets", total, c.pk.size());
  uint64_t last_mono = 0;
  std::map<int, std::string> wid;
  std::map<std::string, int> wid_owner;
  std::map<int, std::set<uint64_t>> wseq;
  std::map<std::pair<int, int>, long> last_in_thread;
  std::map<int, int> last_n;
  uint64_t switches = 0;
  int prev_thread = -1;
  uint64_t h = 0;
  for (auto& p : c.pk) {
    auto it = by_id.find(p.id);
    CHECK_OR_FAIL(x, it != by_id.end(), "id", "packet with an id nobody wrote: %s", brief(p).c_str());
    Rec& rec = *it->second;
    size_t slot = &rec - recs;
    by_id.erase(it);
    h = mix(h, rec.thread * 64 + rec.writer);
    if (prev_thread >= 0 && prev_thread != rec.thread) switches++;
    prev_thread = rec.thread;
    uint64_t uk = mix(key, 100000 + slot);
    CHECK_OR_FAIL(x, p.payload == user_payload(uk, maxpay), "payload", "payload changed: %s", brief(p).c_str());
    Hdrs want = user_headers(uk), rest;
    int kind = kinds[rec.writer];
    if (kind == 3 || kind == 7) want.push_back({"a0_log_level", "WARN"});
    static const std::set<std::string> kStd = {"a0_time_mono", "a0_time_wall", "a0_writer_id", "a0_writer_seq", "a0_transport_seq"};
    for (auto& hd : p.hdrs)
      if (!kStd.count(hd.first)) rest.push_back(hd);
    CHECK_OR_FAIL(x, sorted(rest) == sorted(want), "headers", "the caller's headers changed (%zu wanted): %s", want.size(), brief(p).c_str());
    x.eval();
    auto ln = last_n.find(rec.thread);
    CHECK_OR_FAIL(x, ln == last_n.end() || ln->second < rec.n, "order", "one thread's writes are out of order: %s", brief(p).c_str());
    last_n[rec.thread] = rec.n;
    if (!rec.std_headers) {
      CHECK_OR_FAIL(x, p.hdrs.size() == want.size(), "headers", "headers nobody asked for: %s", brief(p).c_str());
      continue;
    }
    for (auto& k : kStd) CHECK_OR_FAIL(x, p.all(k).size() == 1, "standard-count", "%zu %s headers: %s", p.all(k).size(), k.c_str(), brief(p).c_str());
    std::string mono = p.one("a0_time_mono"), wall = p.one("a0_time_wall"), id = p.one("a0_writer_id"), ws = p.one("a0_writer_seq"), ts = p.one("a0_transport_seq");
    CHECK_OR_FAIL(x, all_digits(mono) && mono.size() == 19, "mono-form", "bad monotonic time '%s'", mono.c_str());
    uint64_t m = strtoull(mono.c_str(), 0, 10);
    CHECK_OR_FAIL(x, m >= rec.t0 && m <= rec.t1, "mono-value", "monotonic time %lu is outside the call %lu..%lu", m, rec.t0, rec.t1);
    CHECK_OR_FAIL(x, m >= last_mono, "mono-order", "monotonic time %lu after %lu in transport order (packet %lu)", m, last_mono, p.seq);
    last_mono = m;
    long wsec = wall_seconds(wall);
    CHECK_OR_FAIL(x, wsec >= wall0 - 60 && wsec <= time(nullptr) + 60, "wall-value", "wall time '%s' is not now", wall.c_str());
    CHECK_OR_FAIL(x, is_uuid(id), "writer-id-form", "bad writer id '%s'", id.c_str());
    if (!wid.count(rec.writer)) wid[rec.writer] = id;
    CHECK_OR_FAIL(x, wid[rec.writer] == id, "writer-id-constant", "writer %d has ids %s and %s", rec.writer, wid[rec.writer].c_str(), id.c_str());
    if (!wid_owner.count(id)) wid_owner[id] = rec.writer;
    CHECK_OR_FAIL(x, wid_owner[id] == rec.writer, "writer-id-distinct", "writers %d and %d share the id %s", rec.writer, wid_owner[id], id.c_str());
    CHECK_OR_FAIL(x, all_digits(ts) && strtoull(ts.c_str(), 0, 10) == p.seq - 1, "transport-seq", "transport sequence header '%s' on packet %lu, %lu were committed before", ts.c_str(), p.seq, p.seq - 1);
    CHECK_OR_FAIL(x, all_digits(ws), "writer-seq-form", "bad writer sequence '%s'", ws.c_str());
    uint64_t wsn = strtoull(ws.c_str(), 0, 10);
    CHECK_OR_FAIL(x, wseq[rec.writer].insert(wsn).second, "writer-seq-repeat", "writer %d used sequence value %lu twice", rec.writer, wsn);
    auto lk = std::make_pair(rec.writer, rec.thread);
    CHECK_OR_FAIL(x, !last_in_thread.count(lk) || last_in_thread[lk] < (long)wsn, "writer-seq-order", "sequence value %lu after %ld in one thread", wsn, last_in_thread[lk]);
    last_in_thread[lk] = (long)wsn;
  }
  std::map<int, uint64_t> writes;
  for (size_t i = 0; i < total; i++) writes[recs[i].writer]++;
  for (auto& e : wseq) {
    CHECK_OR_FAIL(x, *e.second.rbegin() < writes[e.first], "writer-seq-gap", "writer %d wrote %lu packets but used sequence value %lu", e.first, writes[e.first], *e.second.rbegin());
    if (!evict) CHECK_OR_FAIL(x, e.second.size() == writes[e.first], "writer-seq-gap", "writer %d skipped sequence values", e.first);
  }
  (void)ok;
  x.count("packets", c.pk.size());
  x.count("switches_between_threads", switches);
  if (nthr > 1) x.count("shared_writer_histories");
  if (nproc > 1) x.count("multi_process_histories");
  if (switches || total < 4) x.distinct(mix(h, total));
  if (c.pk.size() > 3) x.sample(strf("%d processes x %d threads, writers %s: %zu packets, %lu switches; last: ", nproc, nthr, kd.c_str(), c.pk.size(), switches) + brief(c.pk.back()));
  munmap(recs, total * sizeof(Rec));
  munmap((void*)gate, 4096);
}

//////////////////////////////////////////////////////////////////////////////
// chain

enum Act { PASS, STOP_OK, STOP_ERR, PASS_THEN_ERR };
struct Leaf {
  int idx;
  bool has_process, has_locked, has_close;
  int owner;  // writer that closes it
  int closed = 0;
  a0_err_t close_err = A0_OK;
  // behaviour of the current write
  Act up = PASS, lk = PASS;
  a0_err_t up_err = A0_OK, lk_err = A0_OK;
  bool add_hdr_up = false, add_hdr_lk = false, set_payload = false;
  std::string pay;
};
struct ChainWorld {
  std::vector<int> events;  // leaf*2 + phase
  std::vector<uint64_t> high_seen;
  bool closed_in_write = false;
};
ChainWorld* g_cw;
Leaf* g_self(void* u) { return (Leaf*)u; }

a0_err_t custom_err(a0_err_t e) {
  if (e == A0_ERR_CUSTOM_MSG) strcpy(a0_err_msg, "stopped by a middleware");
  if (e == A0_ERR_SYS) a0_err_syscode = EXDEV;
  return e;
}

a0_err_t leaf_pass(Leaf* l, bool locked, a0_packet_t* p, a0_middleware_chain_t ch) {
  std::string k = strf("m%d%s", l->idx, locked ? "L" : "U");
  a0_packet_header_t hdr = {k.c_str(), "x"};
  a0_packet_headers_block_t prev = p->headers_block;
  if (locked ? l->add_hdr_lk : l->add_hdr_up) p->headers_block = {&hdr, 1, &prev};
  if (!locked && l->set_payload) p->payload = {(uint8_t*)l->pay.data(), l->pay.size()};
  return a0_middleware_chain(ch, p);
}
a0_err_t leaf_process(void* u, a0_packet_t* p, a0_middleware_chain_t ch) {
  Leaf* l = g_self(u);
  g_cw->events.push_back(l->idx * 2);
  if (l->up == STOP_OK) return A0_OK;
  if (l->up == STOP_ERR) return custom_err(l->up_err);
  a0_err_t e = leaf_pass(l, false, p, ch);
  return l->up == PASS_THEN_ERR && !e ? custom_err(l->up_err) : e;
}
a0_err_t leaf_locked(void* u, a0_transport_locked_t tlk, a0_packet_t* p, a0_middleware_chain_t ch) {
  Leaf* l = g_self(u);
  g_cw->events.push_back(l->idx * 2 + 1);
  uint64_t hi = 0;
  if (!tlk.transport || a0_transport_seq_high(tlk, &hi)) hi = ~0ull;
  g_cw->high_seen.push_back(hi);
  if (l->lk == STOP_OK || l->lk == STOP_ERR) {
    a0_transport_unlock(tlk);
    return l->lk == STOP_OK ? A0_OK : custom_err(l->lk_err);
  }
  if (l->idx & 1) sched_yield();
  a0_err_t e = leaf_pass(l, true, p, ch);
  return l->lk == PASS_THEN_ERR && !e ? custom_err(l->lk_err) : e;
}
a0_err_t leaf_close(void* u) {
  g_self(u)->closed++;
  return custom_err(g_self(u)->close_err);
}
a0_middleware_t leaf_mw(Leaf* l) {
  return {l, l->has_close ? leaf_close : nullptr, l->has_process ? leaf_process : nullptr, l->has_locked ? leaf_locked : nullptr};
}

void run_chain(Ctx& x) {
  Rng& r = x.rng;
  ChainWorld cw;
  g_cw = &cw;
  std::vector<std::unique_ptr<Leaf>> leaves;
  size_t asz = 60000;
  static uint8_t* mem = (uint8_t*)mmap(0, 65536, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset(mem, 0, asz);
  a0_arena_t arena = {{mem, asz}, A0_ARENA_MODE_SHARED};
  int budget = 1 + (int)r.below(6);
  bool use_cpp = r.chance(40);

  // writers: base and wrappers around it
  std::vector<std::unique_ptr<a0_writer_t>> w;
  std::vector<a0::Writer> xw;
  std::vector<int> under;                    // index of the writer beneath, or -1
  std::vector<std::vector<int>> own;         // leaves of that writer, in order
  std::string how;
  // A random tree of leaves; appends them in order to out.
  std::function<a0_middleware_t(int, int, std::vector<int>*)> tree = [&](int n, int owner, std::vector<int>* out) -> a0_middleware_t {
    if (n == 1) {
      leaves.emplace_back(new Leaf);
      Leaf* l = leaves.back().get();
      l->idx = (int)leaves.size() - 1;
      l->owner = owner;
      l->has_process = r.chance(75);
      l->has_locked = r.chance(75);
      l->has_close = r.chance(85);
      // What a close answers must not keep the others from being closed.
      if (l->has_close && r.chance(15)) {
        l->close_err = r.chance(50) ? A0_ERR_INVALID_ARG : A0_ERR_CUSTOM_MSG;
        x.count("failing_closes");
      }
      out->push_back(l->idx);
      how += strf("%d%s%s", l->idx, l->has_process ? "u" : "", l->has_locked ? "l" : "");
      return leaf_mw(l);
    }
    int a = 1 + (int)r.below(n - 1);
    how += "(";
    a0_middleware_t ma = tree(a, owner, out);
    how += " ";
    a0_middleware_t mb = tree(n - a, owner, out);
    how += ")";
    a0_middleware_t m;
    if (r.chance(30)) {
      m = ma;  // the result may overwrite an argument
      if (a0_middleware_compose(m, mb, &m)) x.fail("compose", "composing failed");
    } else if (a0_middleware_compose(ma, mb, &m)) x.fail("compose", "composing failed");
    return m;
  };
  if (use_cpp) {
    xw.emplace_back(a0::Arena(a0::Buf(mem, asz), A0_ARENA_MODE_SHARED));
  } else {
    w.emplace_back(new a0_writer_t);
    if (a0_writer_init(w.back().get(), arena)) x.fail("init", "opening a writer failed");
  }
  under.push_back(-1);
  own.push_back({});
  auto nwriters = [&] { return under.size(); };
  auto push = [&](size_t wi, a0_middleware_t m) {
    if (use_cpp) {
      a0::Middleware xm;
      xm.c = std::make_shared<a0_middleware_t>(m);
      return guard([&] { xw[wi].push(xm); });
    }
    return a0_writer_push(w[wi].get(), m);
  };
  std::vector<Contents> dummy;
  Contents before = read_all(arena);
  uint64_t h = 1;
  int writes = 0, stops = 0;
  std::atomic<bool> stop_rival{false};
  std::atomic<int> rival_left{0};
  std::thread rival;
  bool with_rival = r.chance(25);
  if (with_rival)
    rival = std::thread([&] {
      a0_writer_t rw;
      if (a0_writer_init(&rw, arena)) return;
      uint64_t n = 0;
      while (!stop_rival) {
        if (rival_left.fetch_sub(1) <= 0) {  // a few packets at each write, never enough to evict it
          rival_left = 0;
          usleep(20);
          continue;
        }
        a0_packet_t p;
        a0_packet_init(&p);
        uint8_t b = 0;
        p.payload = {&b, 1};
        a0_writer_write(&rw, p);
        if (++n % 4 == 0) usleep(50);
      }
      a0_writer_close(&rw);
    });
  struct Joiner {
    std::atomic<bool>& s;
    std::thread& t;
    ~Joiner() {
      s = true;
      if (t.joinable()) t.join();
    }
  } joiner{stop_rival, rival};

  auto do_write = [&](size_t wi) {
    std::vector<int> order;
    for (int k = (int)wi; k >= 0; k = under[k]) order.insert(order.end(), own[k].begin(), own[k].end());
    for (auto& l : leaves) {
      l->up = l->lk = PASS;
      l->add_hdr_up = r.chance(40);
      l->add_hdr_lk = r.chance(40);
      l->set_payload = r.chance(15);
      l->pay = strf("from %d", l->idx);
    }
    static const a0_err_t kErrs[] = {A0_ERR_SYS, A0_ERR_CUSTOM_MSG, A0_ERR_INVALID_ARG, A0_ERR_RANGE, A0_ERR_AGAIN, A0_ERR_NOT_FOUND, A0_ERR_CANCELLED};
    if (!order.empty() && r.chance(55)) {
      int n = 1 + (int)r.below(2);
      for (int i = 0; i < n; i++) {
        Leaf& l = *leaves[order[r.below(order.size())]];
        Act a = (Act)(1 + r.below(3));
        a0_err_t e = kErrs[r.below(7)];
        if (r.chance(50)) l.up = a, l.up_err = e;
        else l.lk = a, l.lk_err = e;
      }
    }
    Hdrs uh = user_headers(r.next());
    std::string pay = user_payload(r.next(), 40);
    CPacket cp(r, uh, pay);
    // what has to happen
    std::vector<int> want_ev;
    Hdrs want_h = uh;
    std::string want_pay = pay;
    a0_err_t want = A0_OK;
    bool reaches = true;
    for (int phase = 0; phase < 2 && reaches; phase++)
      for (int i : order) {
        Leaf& l = *leaves[i];
        if (!(phase ? l.has_locked : l.has_process)) continue;
        want_ev.push_back(i * 2 + phase);
        Act a = phase ? l.lk : l.up;
        if (a == STOP_OK || a == STOP_ERR) {
          reaches = false;
          want = a == STOP_OK ? A0_OK : phase ? l.lk_err : l.up_err;
          break;
        }
        if (phase ? l.add_hdr_lk : l.add_hdr_up) want_h.push_back({strf("m%d%s", i, phase ? "L" : "U"), "x"});
        if (!phase && l.set_payload) want_pay = l.pay;
      }
    // An error given after passing on replaces success, innermost first.
    std::vector<std::pair<int, int>> path;
    for (int e : want_ev) path.push_back({e / 2, e % 2});
    for (size_t i = path.size(); i-- > 0;) {
      Leaf& l = *leaves[path[i].first];
      Act a = path[i].second ? l.lk : l.up;
      if (a == PASS_THEN_ERR && !want) want = path[i].second ? l.lk_err : l.up_err;
    }
    cw.events.clear();
    cw.high_seen.clear();
    x.desc(strf("chain | %s | write through %zu%s", how.c_str(), wi, with_rival ? " with a rival" : ""));
    a0_err_t got;
    bool by_exception = use_cpp && r.chance(50);
    rival_left = 12;
    if (by_exception) got = guard([&] {
      a0::Packet xp(cp.p, nullptr);
      xw[wi].write(xp);
    });
    else got = a0_writer_write(use_cpp ? &*xw[wi].c : w[wi].get(), cp.p);
    std::string acts;
    for (int i : order) acts += strf("%d:%d/%d ", i, leaves[i]->up, leaves[i]->lk);
    std::string evs;
    for (int e : cw.events) evs += strf("%d%c ", e / 2, e % 2 ? 'l' : 'u');
    std::string ctx = strf("writer %zu of %s, acts %s: steps run %s, result %s", wi, how.c_str(), acts.c_str(), evs.c_str(), errname(got).c_str());
    x.log(ctx);
    CHECK_OR_FAIL(x, cw.events == want_ev, "steps", "wrong steps were run: %s", ctx.c_str());
    bool same_err = got == want;
    if (by_exception && want == A0_ERR_SYS) same_err = got != A0_OK;  // the text says which, not the code
    CHECK_OR_FAIL(x, same_err, "error", "expected result %s: %s", errname(want).c_str(), ctx.c_str());
    if (want == A0_ERR_SYS && !by_exception) CHECK_OR_FAIL(x, a0_err_syscode == EXDEV, "error", "the system code was lost: %s", ctx.c_str());
    if (want == A0_ERR_CUSTOM_MSG && !by_exception) CHECK_OR_FAIL(x, !strcmp(a0_err_msg, "stopped by a middleware"), "error", "the message was lost: %s", ctx.c_str());
    Contents after = read_all_elsewhere(arena);
    CHECK_OR_FAIL(x, after.bad.empty(), "left-locked", "afterwards the transport is not usable (%s): %s", after.bad.c_str(), ctx.c_str());
    std::vector<const Pk*> mine;
    for (auto& p : after.pk)
      if (p.id == cp.p.id) mine.push_back(&p);
    CHECK_OR_FAIL(x, mine.size() == (reaches ? 1 : 0), "packets", "%zu packets written instead of %d: %s", mine.size(), reaches ? 1 : 0, ctx.c_str());
    if (!with_rival) {
      CHECK_OR_FAIL(x, after.high == before.high + (reaches ? 1 : 0), "packets", "sequence numbers went from %lu to %lu: %s", before.high, after.high, ctx.c_str());
    }
    if (reaches) {
      CHECK_OR_FAIL(x, mine[0]->payload == want_pay, "packet", "wrong payload: %s", ctx.c_str());
      CHECK_OR_FAIL(x, sorted(mine[0]->hdrs) == sorted(want_h), "packet", "wrong headers: %s: %s", brief(*mine[0]).c_str(), ctx.c_str());
      for (uint64_t hs : cw.high_seen)
        CHECK_OR_FAIL(x, hs + 1 == mine[0]->seq, "not-locked", "a locked step saw %lu packets but its packet became number %lu: %s", hs, mine[0]->seq, ctx.c_str());
    } else {
      for (uint64_t hs : cw.high_seen) CHECK_OR_FAIL(x, hs == cw.high_seen[0], "not-locked", "the transport changed between locked steps: %s", ctx.c_str());
      stops++;
    }
    before = after;
    for (auto& l : leaves) CHECK_OR_FAIL(x, l->closed == 0, "closed-early", "middleware %d was closed by a write: %s", l->idx, ctx.c_str());
    h = mix(h, hash_str(how + acts));
    writes++;
    x.eval();
  };

  int steps = 0;
  while (budget > 0 || steps < 3) {
    steps++;
    if (budget > 0) {
      int n = 1 + (int)r.below(budget);
      budget -= n;
      if (nwriters() < 4 && r.chance(45)) {
        size_t in = r.below(nwriters());
        std::vector<int> ls;
        how += strf(" wrap%zu=", in);
        a0_middleware_t m = tree(n, (int)nwriters(), &ls);
        if (use_cpp) {
          a0::Middleware xm;
          xm.c = std::make_shared<a0_middleware_t>(m);
          a0::Writer nw = xw[in].wrap(xm);
          xw.push_back(nw);
        } else {
          w.emplace_back(new a0_writer_t);
          if (a0_writer_wrap(w[in].get(), m, w.back().get())) x.fail("wrap", "wrapping failed");
        }
        under.push_back((int)in);
        own.push_back(ls);
      } else {
        size_t to = r.below(nwriters());
        std::vector<int> ls;
        how += strf(" push%zu=", to);
        a0_middleware_t m = tree(n, (int)to, &ls);
        if (push(to, m)) x.fail("push", "pushing failed");
        own[to].insert(own[to].begin(), ls.begin(), ls.end());
      }
    }
    int k = 1 + (int)r.below(4);
    for (int i = 0; i < k; i++) do_write(r.below(nwriters()));
  }
  // Close, outermost first; after each close exactly its own middleware is closed.
  std::vector<bool> shut(nwriters(), false);
  x.desc(strf("chain | %s | close", how.c_str()));
  if (use_cpp) {
    // handles go in any order; a writer stays while a wrapper needs it
    std::vector<size_t> ord;
    for (size_t i = 0; i < xw.size(); i++) ord.push_back(i);
    for (size_t i = ord.size(); i > 1; i--) std::swap(ord[i - 1], ord[r.below(i)]);
    std::vector<bool> released(xw.size(), false);
    for (size_t i : ord) {
      xw[i] = a0::Writer();
      released[i] = true;
      for (size_t k = 0; k < xw.size(); k++) {
        bool needed = !released[k];
        for (size_t j = 0; j < xw.size(); j++)
          if (!released[j])
            for (int u = under[j]; u >= 0; u = under[u])
              if (u == (int)k) needed = true;
        shut[k] = !needed;
      }
      for (auto& l : leaves) {
        int want = l->has_close && shut[l->owner] ? 1 : 0;
        CHECK_OR_FAIL(x, l->closed == want, "close-count", "middleware %d closed %d times instead of %d after releasing writer %zu of %s", l->idx, l->closed, want, i, how.c_str());
      }
    }
  } else {
    for (size_t i = w.size(); i-- > 0;) {
      a0_err_t e = a0_writer_close(w[i].get());
      bool may_fail = false;
      for (auto& l : leaves)
        if (l->owner == (int)i && l->close_err) may_fail = true;
      CHECK_OR_FAIL(x, !e || may_fail, "close", "closing failed: %s", errname(e).c_str());
      shut[i] = true;
      for (auto& l : leaves) {
        int want = l->has_close && shut[l->owner] ? 1 : 0;
        CHECK_OR_FAIL(x, l->closed == want, "close-count", "middleware %d closed %d times instead of %d after closing writer %zu of %s", l->idx, l->closed, want, i, how.c_str());
      }
    }
  }
  x.count("writes", writes);
  x.count("stopped_writes", stops);
  if (with_rival) x.count("writes_with_rival", writes);
  if (nwriters() > 1) x.count("wrapped_writers");
  if (leaves.size() > 1) x.distinct(h);
  x.sample(how + strf(": %d writes, %d stopped", writes, stops));
}

//////////////////////////////////////////////////////////////////////////////
// big

void run_big(Ctx& x) {
  Rng& r = x.rng;
  std::string name = strf("b%lu", x.case_id);
  std::string path = topic_file(x, name);
  size_t size = r.chance(20) ? 160 + r.below(500) : r.chance(80) ? 600 + r.below(5000) : 5000 + r.below(60000);
  auto o = file_opts(size);
  a0::File::Options xo = a0::File::Options::DEFAULT;
  xo.create_options.size = size;
  a0_file_t f;
  if (a0_file_open(path.c_str(), &o, &f)) x.harness_error("cannot create the topic");
  struct Cleanup {
    std::function<void()> fn;
    ~Cleanup() { fn(); }
  };
  Cleanup cl1{[&] {
    a0_file_close(&f);
    unlink(path.c_str());
  }};
  a0_writer_t plain;
  if (a0_writer_init(&plain, f.arena)) x.fail("init", "opening a writer failed");
  Cleanup cl2{[&] { a0_writer_close(&plain); }};

  static const char* kLayer[] = {"writer", "writer with headers", "publisher", "C++ publisher", "logger", "C++ logger", "cfg write", "cfg write-if-empty", "cfg merge",
                                 "C++ cfg write", "C++ cfg write-if-empty", "C++ cfg merge", "rpc send", "rpc reply", "rpc cancel", "C++ rpc send", "prpc connect", "prpc send", "prpc cancel",
                                 "C++ prpc connect", "C++ writer", "rpc blocking send", "transport"};
  int layer = (int)r.below(sizeof(kLayer) / sizeof(*kLayer));
  AnyWriter aw;
  aw.kind = -1;
  a0_rpc_client_t rc;
  a0_rpc_server_t rs;
  a0_prpc_client_t pc;
  a0_prpc_server_t ps;
  a0::RpcClient xrc;
  a0::PrpcClient xpc;
  static std::atomic<int> calls;
  calls = 0;
  static const int kKind[] = {0, 1, 2, 5, 3, 7, 4, 4, 4, 8, 8, 8, -1, -1, -1, -1, -1, -1, -1, -1, 6, -1, -1};
  aw.kind = kKind[layer];
  a0_err_t e = A0_OK;
  a0_alloc_t heap = {nullptr, [](void*, size_t n, a0_buf_t* b) { *b = {(uint8_t*)malloc(n ? n : 1), n}; return b->data ? A0_OK : A0_ERR_INVALID_ARG; },
                     [](void*, a0_buf_t b) { free(b.data); return A0_OK; }};
  if (aw.kind >= 0) e = aw.open(x, r, name, size);
  else if (layer == 12 || layer == 14 || layer == 21) e = a0_rpc_client_init(&rc, {name.c_str(), &o}, heap);
  else if (layer == 13) e = a0_rpc_server_init(&rs, {name.c_str(), &o}, heap, {nullptr, [](void*, a0_rpc_request_t) {}}, {nullptr, nullptr});
  else if (layer == 15) e = guard([&] { xrc = a0::RpcClient(a0::RpcTopic(name, xo)); });
  else if (layer == 16 || layer == 18) e = a0_prpc_client_init(&pc, {name.c_str(), &o}, heap);
  else if (layer == 17) e = a0_prpc_server_init(&ps, {name.c_str(), &o}, heap, {nullptr, [](void*, a0_prpc_connection_t) {}}, {nullptr, nullptr});
  else if (layer == 19) e = guard([&] { xpc = a0::PrpcClient(a0::PrpcTopic(name, xo)); });
  CHECK_OR_FAIL(x, !e, "open", "%s: opening failed: %s", kLayer[layer], errname(e).c_str());
  Cleanup cl3{[&] {
    if (aw.kind >= 0) aw.close();
    else if (layer == 12 || layer == 14 || layer == 21) a0_rpc_client_close(&rc);
    else if (layer == 13) a0_rpc_server_close(&rs);
    else if (layer == 16 || layer == 18) a0_prpc_client_close(&pc);
    else if (layer == 17) a0_prpc_server_close(&ps);
  }};

  bool merge = layer == 8 || layer == 11, cond = layer == 7 || layer == 10;
  // Fill it: nothing, something, or round and round.
  auto plain_write = [&](const std::string& pay, char* id = nullptr) {
    CPacket p(r, {}, pay);
    if (id) memcpy(id, p.p.id, 37);
    return a0_writer_write(&plain, p.p);
  };
  int fill = (int)r.below(3);
  std::string base_json;
  size_t cap = size > 144 + 40 + 37 + 16 ? size - 144 - 40 - 37 - 16 : 0;  // what a plain packet can carry
  if (!cond)
    for (int i = 0, n = fill == 0 ? 0 : fill == 1 ? 1 + (int)r.below(3) : 5 + (int)r.below(30); i < n && cap; i++) {
      e = plain_write(std::string(r.below(std::min<size_t>(cap, 400)), 'f'));
      CHECK_OR_FAIL(x, !e, "small-refused", "a packet that fits was refused in a topic of %zu: %s", size, errname(e).c_str());
    }
  nlohmann::json doc;
  if (merge && cap > 30 && r.chance(85)) {
    doc = {{"a", std::string(r.below(cap / 2), 'q')}, {"b", 1}};
    base_json = doc.dump();
    if (base_json.size() < cap && plain_write(base_json)) x.fail("small-refused", "a packet that fits was refused");
  }
  Contents before = read_all(f.arena);
  CHECK_OR_FAIL(x, before.bad.empty(), "unreadable", "%s", before.bad.c_str());
  int tries = 1 + (int)r.below(4);
  for (int t = 0; t < tries; t++) {
    // a size around what fits, or far beyond
    size_t n;
    switch (r.below(6)) {
      case 0: n = size + r.below(3 * size); break;
      case 1: n = size - std::min<size_t>(size, r.below(700)); break;
      case 2: n = r.chance(20) ? 1000000 : 100000; break;
      case 3: n = r.below(size); break;
      default: n = cap > 700 ? cap - r.below(700) : r.below(cap + 200); break;
    }
    Hdrs uh = user_headers(r.next());
    if (r.chance(10)) uh.push_back({"big", std::string(r.below(size + 100), 'h')});
    std::string pay(n, 0);
    for (size_t i = 0; i < n; i++) pay[i] = 'A' + (i * 7 + t) % 26;
    nlohmann::json patch;
    bool existing_json = merge && !before.pk.empty() && !nlohmann::json::parse(before.pk.back().payload, nullptr, false).is_discarded();
    if (merge) {
      patch = {{strf("p%d", t), pay}};
      pay = patch.dump();
    }
    std::string want_pay = pay, id;
    bool fails_anyway = merge && !before.pk.empty() && !existing_json;
    if (merge && existing_json) {
      nlohmann::json d = nlohmann::json::parse(before.pk.back().payload);
      d.merge_patch(patch);
      want_pay = d.dump();
    }
    if (layer == 14 || layer == 18) uh.clear();
    CPacket cp(r, uh, pay);
    char idbuf[37];
    memcpy(idbuf, cp.p.id, 37);
    std::unordered_multimap<std::string, std::string> mm(uh.begin(), uh.end());
    bool xwritten = false, was_empty = before.pk.empty();
    uint64_t lb = 37 + 8 + 8 + want_pay.size(), ub;
    for (auto& hd : uh) lb += 16 + hd.first.size() + hd.second.size() + 2;
    if (layer == 14 || layer == 18) lb = 37 + 16 + 37;
    ub = lb + (layer == 0 || layer == 22 ? 0 : 800);
    x.desc(strf("big | %s into a topic of %zu holding %zu, payload %zu", kLayer[layer], size, before.pk.size(), n));
    switch (layer) {
      case 7: e = a0_cfg_write_if_empty(&aw.cfg, cp.p, &xwritten); break;
      case 8: e = a0_cfg_mergepatch(&aw.cfg, cp.p); break;
      case 10: e = guard([&] { a0::Packet p(cp.p, nullptr); xwritten = aw.xcfg.write_if_empty(p); }); break;
      case 11: e = guard([&] { a0::Packet p(cp.p, nullptr); aw.xcfg.mergepatch(p); }); break;
      case 12: e = a0_rpc_client_send(&rc, cp.p, {nullptr, [](void*, a0_packet_t) { calls++; }}); break;
      case 13: e = a0_rpc_server_reply({&rs, before.pk.empty() ? cp.p : cp.p}, cp.p); break;
      case 14: e = a0_rpc_client_cancel(&rc, cp.p.id); break;
      case 15: e = guard([&] { a0::Packet p(cp.p, nullptr); xrc.send(p, [](a0::Packet) { calls++; }); }); break;
      case 16: e = a0_prpc_client_connect(&pc, cp.p, {nullptr, [](void*, a0_packet_t, bool) { calls++; }}); break;
      case 17: e = a0_prpc_server_send({&ps, cp.p}, cp.p, r.chance(50)); break;
      case 18: e = a0_prpc_client_cancel(&pc, cp.p.id); break;
      case 19: e = guard([&] { a0::Packet p(cp.p, nullptr); xpc.connect(p, [](a0::Packet, bool) { calls++; }); }); break;
      case 21: {
        a0_packet_t out;
        a0_time_mono_t past;
        a0_time_mono_now(&past);
        e = a0_rpc_client_send_blocking_timeout(&rc, cp.p, &past, heap, &out);
        break;
      }
      case 22: {
        a0_transport_t tr;
        a0_transport_locked_t lk;
        a0_alloc_t al;
        e = a0_transport_init(&tr, f.arena);
        if (!e) e = a0_transport_lock(&tr, &lk);
        if (e) x.fail("left-locked", "cannot lock: " + errname(e));
        a0_transport_allocator(&lk, &al);
        e = a0_packet_serialize(cp.p, al, nullptr);
        if (!e) e = a0_transport_commit(lk);
        a0_transport_unlock(lk);
        break;
      }
      default: {
        // through the same object as before, id chosen by the packet
        Hdrs hh = uh;
        std::string pp = pay;
        if (aw.kind >= 5 && aw.kind <= 8) {
          e = aw.write(r, hh, pp, idbuf);
        } else if (aw.kind == 2) e = a0_publisher_pub(&aw.pub, cp.p);
        else if (aw.kind == 3) e = a0_logger_warn(&aw.log, cp.p);
        else if (aw.kind == 4) e = a0_cfg_write(&aw.cfg, cp.p);
        else e = a0_writer_write(&aw.w, cp.p);
      }
    }
    std::string what = strf("%s, topic of %zu bytes holding %zu packets, payload %zu (serialized %lu..%lu): %s", kLayer[layer], size, before.pk.size(), want_pay.size(), lb, ub, errname(e).c_str());
    x.log(what);
    Contents after = read_all_elsewhere(f.arena);
    CHECK_OR_FAIL(x, after.bad.empty(), "left-unusable", "afterwards the topic is not usable (%s): %s", after.bad.c_str(), what.c_str());
    bool blocking_sent = layer == 21 && after.high == before.high + 1;
    bool wrote = (!e || blocking_sent) && !(cond && !was_empty);
    if (layer == 21 && e && !blocking_sent) wrote = false;
    if (wrote) {
      CHECK_OR_FAIL(x, after.high == before.high + 1 && !after.pk.empty(), "lost", "reported as written but nothing new is there: %s", what.c_str());
      const Pk& p = after.pk.back();
      if (layer == 14 || layer == 18) CHECK_OR_FAIL(x, std::string(p.payload.c_str()) == std::string(cp.p.id), "lost", "the cancellation is wrong: %s", what.c_str());
      else {
        CHECK_OR_FAIL(x, p.id == std::string(idbuf), "lost", "reported as written but another packet is there: %s", what.c_str());
        bool pay_ok = p.payload == want_pay;
        if (merge && existing_json) pay_ok = nlohmann::json::parse(p.payload, nullptr, false) == nlohmann::json::parse(want_pay);
        CHECK_OR_FAIL(x, pay_ok, "damaged", "payload of %zu bytes differs: %s", p.payload.size(), what.c_str());
        for (auto& hd : uh) {
          auto v = p.all(hd.first);
          CHECK_OR_FAIL(x, std::count(v.begin(), v.end(), hd.second) > 0, "damaged", "a header is missing: %s", what.c_str());
        }
      }
      CHECK_OR_FAIL(x, !fails_anyway, "merged-into-nonjson", "a patch was applied to something that is not JSON: %s", what.c_str());
      CHECK_OR_FAIL(x, size >= 144 + 40 + lb, "impossible", "something larger than the topic was written: %s", what.c_str());
      // what else is there was there before
      size_t keep = after.pk.size() - 1;
      CHECK_OR_FAIL(x, keep <= before.pk.size(), "changed", "packets appeared: %s", what.c_str());
      for (size_t i = 0; i < keep; i++) {
        auto &a = after.pk[i], &b = before.pk[before.pk.size() - keep + i];
        CHECK_OR_FAIL(x, a.seq == b.seq && a.raw == b.raw, "changed", "packet %lu changed: %s", b.seq, what.c_str());
      }
      x.count("fitted");
    } else {
      if (!(cond && !was_empty)) CHECK_OR_FAIL(x, fails_anyway || size < 144 + 40 + ub + 64, "small-refused", "refused although it fits: %s", what.c_str());
      if (layer == 21) CHECK_OR_FAIL(x, e == A0_ERR_FRAME_LARGE, "error", "unexpected error: %s", what.c_str());
      CHECK_OR_FAIL(x, after.high == before.high && after.low == before.low && after.pk.size() == before.pk.size(), "changed", "a refused write changed the topic from %lu..%lu to %lu..%lu: %s",
                    before.low, before.high, after.low, after.high, what.c_str());
      for (size_t i = 0; i < after.pk.size(); i++)
        CHECK_OR_FAIL(x, after.pk[i].seq == before.pk[i].seq && after.pk[i].raw == before.pk[i].raw, "changed", "packet %lu changed: %s", before.pk[i].seq, what.c_str());
      if (e) x.count("refused");
      if (e) x.count(strf("refused_%s", kLayer[layer]));
    }
    if (cond) CHECK_OR_FAIL(x, e || xwritten == wrote, "told-wrong", "write-if-empty said %d: %s", xwritten, what.c_str());
    x.eval();
    if (e) x.distinct(mix(mix(hash_str(kLayer[layer]), size), mix(n, before.high)));
    // The next write, by someone else and then by the same one, works.
    if (!cond && cap > 0 && r.chance(70)) {
      std::string small = merge ? "{\"z\":1}" : std::string(r.below(std::min<size_t>(cap, 60)), 's');
      if (small.size() <= cap) {
        char sid[37];
        a0_err_t e2 = plain_write(small, sid);
        CHECK_OR_FAIL(x, !e2, "next-refused", "the next write failed with %s after: %s", errname(e2).c_str(), what.c_str());
        after = read_all(f.arena);
        CHECK_OR_FAIL(x, after.bad.empty() && !after.pk.empty() && after.pk.back().id == sid && after.pk.back().payload == small, "next-lost", "the next write is not there after: %s", what.c_str());
        x.count("next_writes");
      }
    }
    before = after;
  }
  x.sample(strf("topic of %zu bytes, %s, packets %lu..%lu", size, kLayer[layer], before.low, before.high));
}

void begin(Ctx&) {
  for (const char* k : {"CFG", "LOG", "PRPC", "PUBSUB", "RPC"}) setenv((std::string("A0_TOPIC_TMPL_") + k).c_str(), "{topic}.a0", 1);
}

void run_case(Ctx& x) {
  if (x.mode == "headers") run_headers(x);
  else if (x.mode == "chain") run_chain(x);
  else run_big(x);
}
}  // namespace

int main(int argc, char** argv) { return harness_main(argc, argv, run_case, begin); }
