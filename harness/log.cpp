// C27: log listeners and the levels of what they are given.
#include <a0/file.h>
#include <a0/log.h>
#include <a0/log.hpp>
#include <a0/packet.hpp>
#include <a0/reader.hpp>
#include <a0/writer.h>

#include <atomic>
#include <condition_variable>
#include <memory>
#include <mutex>
#include <thread>

#include "packets.hpp"

namespace {
a0_file_options_t file_opts(size_t size) {
  a0_file_options_t o = A0_FILE_OPTIONS_DEFAULT;
  o.create_options.size = size;
  return o;
}
a0::File::Options xfile_opts(size_t size) {
  a0::File::Options o = a0::File::Options::DEFAULT;
  o.create_options.size = size;
  return o;
}
static const char* kLevels[] = {"CRIT", "ERR", "WARN", "INFO", "DBG", "UNKNOWN"};
std::string str(a0_buf_t b) { return std::string((char*)b.data, b.size); }
Hdrs headers_of(const a0_packet_t& p) {
  Hdrs h;
  a0_packet_header_iterator_t it;
  a0_packet_header_t hd;
  a0_packet_header_iterator_init(&it, (a0_packet_t*)&p);
  while (!a0_packet_header_iterator_next(&it, &hd)) h.push_back({hd.key, hd.val});
  return h;
}

struct Msg {
  int level;  // -1: none
  Hdrs hdrs;
  std::string payload;
  bool via_logger;
};

struct Logger {
  bool cpp;
  a0_logger_t c{};
  a0::Logger x;
  a0_err_t open(const std::string& name, size_t size) {
    auto o = file_opts(size);
    if (cpp) return guard([&] { x = a0::Logger(a0::LogTopic(name, xfile_opts(size))); });
    return a0_logger_init(&c, {name.c_str(), &o});
  }
  a0_err_t log(Rng& r, int level, const CPacket& p) {
    bool named = level < 5 && r.chance(60);
    if (!cpp) {
      if (!named) return a0_logger_log(&c, (a0_log_level_t)level, p.p);
      switch (level) {
        case 0: return a0_logger_crit(&c, p.p);
        case 1: return a0_logger_err(&c, p.p);
        case 2: return a0_logger_warn(&c, p.p);
        case 3: return a0_logger_info(&c, p.p);
        default: return a0_logger_dbg(&c, p.p);
      }
    }
    return guard([&] {
      a0::Packet xp(p.p, nullptr);
      if (!named) return x.log((a0::LogLevel)level, xp);
      switch (level) {
        case 0: return x.crit(xp);
        case 1: return x.err(xp);
        case 2: return x.warn(xp);
        case 3: return x.info(xp);
        default: return x.dbg(xp);
      }
    });
  }
  void close() {
    if (cpp) x = a0::Logger();
    else a0_logger_close(&c);
  }
};

struct Shared {
  std::mutex mu;
  std::condition_variable cv;
  std::map<std::string, Msg> sent;
};

struct Listener {
  Shared* s;
  bool cpp, slow, early_close;
  int level, init, iter;
  std::vector<uint8_t> buf;
  std::unique_ptr<uint8_t[]> last;
  a0_log_listener_t c{};
  a0::LogListener x;
  uint64_t lo = 0, hi = 0;  // topic positions before and after opening
  struct In {
    std::string id, payload;
    Hdrs hdrs;
    std::shared_ptr<a0::Packet> kept;
  };
  std::vector<In> got;
  bool ended = false, closed = false;
  int late = 0;
  Rng rng{1};

  void on(const a0_packet_t& p, const a0::Packet* keep) {
    In g{p.id, str(p.payload), headers_of(p), nullptr};
    if (keep) g.kept = std::make_shared<a0::Packet>(*keep);
    if (slow) usleep(rng.below(200));
    std::unique_lock<std::mutex> lk(s->mu);
    if (closed) late++;
    got.push_back(g);
    if (g.payload == "END") {
      ended = true;
      s->cv.notify_all();
    }
  }
  a0_err_t open(const std::string& name, size_t size) {
    auto o = file_opts(size);
    if (cpp) {
      return guard([&] {
        a0::LogTopic t(name, xfile_opts(size));
        auto fn = [this](a0::Packet p) { on(*p.c, &p); };
        a0::Reader::Init in = init == 0 ? a0::INIT_OLDEST : init == 1 ? a0::INIT_MOST_RECENT : a0::INIT_AWAIT_NEW;
        a0::Reader::Iter it = iter == 0 ? a0::ITER_NEXT : a0::ITER_NEWEST;
        if (level == A0_LOG_LEVEL_INFO && rng.chance(40)) x = a0::LogListener(t, in, it, fn);
        else if (iter == 0 && rng.chance(30)) x = a0::LogListener(t, (a0::LogLevel)level, in, fn);
        else if (rng.chance(50)) x = a0::LogListener(t, (a0::LogLevel)level, in, it, fn);
        else x = a0::LogListener(t, (a0::LogLevel)level, a0::Reader::Options(in, it), fn);
      });
    }
    a0_alloc_t al = {this,
                     [](void* u, size_t n, a0_buf_t* out) {
                       auto* l = (Listener*)u;
                       l->last.reset(new uint8_t[n]);
                       *out = {l->last.get(), n};
                       return A0_OK;
                     },
                     nullptr};
    a0_reader_options_t ro;
    ro.init = init == 0 ? A0_INIT_OLDEST : init == 1 ? A0_INIT_MOST_RECENT : A0_INIT_AWAIT_NEW;
    ro.iter = iter == 0 ? A0_ITER_NEXT : A0_ITER_NEWEST;
    return a0_log_listener_init(&c, {name.c_str(), &o}, al, (a0_log_level_t)level, ro, {this, [](void* u, a0_packet_t p) { ((Listener*)u)->on(p, nullptr); }});
  }
  void close() {
    if (cpp) x = a0::LogListener();
    else a0_log_listener_close(&c);
    std::unique_lock<std::mutex> lk(s->mu);
    closed = true;
  }
  std::string name() const {
    static const char* in[] = {"oldest", "most recent", "await new"};
    return strf("%s listener at %s, %s, %s, given %zu", cpp ? "C++" : "C", kLevels[level], in[init], iter ? "newest" : "next", got.size());
  }
};

void run_case(Ctx& x) {
  Rng& r = x.rng;
  std::string name = strf("l%lu", x.case_id), path = x.scratch + "/root/" + name + ".log.a0";
  Shared s;
  bool small = r.chance(15);
  size_t size = small ? 3000 + r.below(6000) : 1 << 22;
  int nlog = 1 + (int)r.below(4), nlis = 1 + (int)r.below(5);
  int pre = r.chance(40) ? 0 : (int)r.below(12), per = 1 + (int)r.below(r.chance(60) ? 8 : 40);
  x.desc(strf("log | %d loggers x %d after %d, %d listeners, topic of %zu", nlog, per, pre, nlis, size));
  a0_file_t f;
  auto o = file_opts(size);
  a0_writer_t raw;
  a0_transport_t tr;
  if (a0_file_open(path.c_str(), &o, &f) || a0_writer_init(&raw, f.arena) || a0_transport_init(&tr, f.arena)) x.harness_error("cannot open the topic");
  auto high = [&] {
    a0_transport_locked_t lk;
    uint64_t v = 0;
    bool empty = true;
    a0_transport_lock(&tr, &lk);
    a0_transport_empty(lk, &empty);
    a0_transport_seq_high(lk, &v);
    a0_transport_unlock(lk);
    return empty ? (uint64_t)0 : v;
  };
  std::vector<std::unique_ptr<Logger>> lg;
  for (int i = 0; i < nlog; i++) {
    lg.emplace_back(new Logger());
    lg[i]->cpp = r.chance(50);
    a0_err_t e = lg[i]->open(name, size);
    CHECK_OR_FAIL(x, !e, "open", "opening a logger failed: %s", errname(e).c_str());
  }
  std::atomic<int> failed{0};
  std::atomic<uint64_t> serial{0};
  auto say = [&](Rng& q, int who) {
    Msg m;
    m.level = q.chance(5) ? 5 : (int)q.below(5);
    m.payload = strf("%lu:", serial++) + std::string(q.below(q.chance(10) ? 600 : 30), 'z');
    for (size_t i = 0, n = q.below(4); i < n; i++) m.hdrs.push_back({strf("h%lu", q.below(4)), std::string(q.below(12), 'y')});
    if (q.chance(8)) m.hdrs.push_back({q.chance(50) ? "a0_log_leve" : "a0_log_level_", kLevels[q.below(5)]});
    m.via_logger = !q.chance(15);
    a0_err_t e;
    if (m.via_logger) {
      // passed on from another log
      if (q.chance(8)) m.hdrs.push_back({"a0_log_level", kLevels[q.below(5)]});
      CPacket p(q, m.hdrs, m.payload);
      {
        std::unique_lock<std::mutex> lk(s.mu);
        s.sent[p.p.id] = m;
      }
      e = lg[who]->log(q, m.level, p);
    } else {
      if (q.chance(60)) m.level = -1;
      else if (m.level == 5) {
        static const char* kOdd[] = {"", "warn", "FATAL", "CRI", "CRITICAL", "ERROR", "0", "INFO ", "DB"};
        m.hdrs.push_back({"a0_log_level", kOdd[q.below(9)]});
      } else m.hdrs.push_back({"a0_log_level", kLevels[m.level]});
      CPacket p(q, m.hdrs, m.payload);
      {
        std::unique_lock<std::mutex> lk(s.mu);
        s.sent[p.p.id] = m;
      }
      e = a0_writer_write(&raw, p.p);
    }
    if (e) failed++;
  };
  for (int i = 0; i < pre; i++) say(r, (int)r.below(nlog));

  std::vector<std::unique_ptr<Listener>> ls;
  for (int i = 0; i < nlis; i++) {
    ls.emplace_back(new Listener());
    auto& l = *ls[i];
    l.s = &s;
    l.cpp = r.chance(50);
    l.slow = r.chance(25);
    l.early_close = r.chance(15);
    l.level = r.chance(5) ? 5 : (int)r.below(5);
    l.init = (int)r.below(3);
    l.iter = r.chance(25);
    l.rng = Rng(r.next());
  }
  auto open_one = [&](Listener& l) {
    l.lo = high();
    if (l.open(name, size)) failed++;
    l.hi = high();
  };
  std::vector<std::thread> th;
  std::vector<Listener*> later;
  for (auto& l : ls)
    if (r.chance(60)) open_one(*l);
    else later.push_back(l.get());
  for (int i = 0; i < nlog; i++)
    th.emplace_back([&, i, seed = r.next()] {
      Rng q(seed);
      for (int k = 0; k < per; k++) {
        say(q, i);
        if (q.chance(10)) usleep(q.below(200));
        else if (q.chance(20)) sched_yield();
      }
    });
  for (auto* l : later) {
    if (r.chance(50)) usleep(r.below(300));
    open_one(*l);
  }
  for (auto& l : ls)
    if (l->early_close) {
      if (r.chance(50)) usleep(r.below(1000));
      l->close();
    }
  for (auto& t : th) t.join();
  {
    Msg m;
    m.level = 0;
    m.payload = "END";
    m.via_logger = true;
    CPacket p(r, {}, "END");
    s.sent[p.p.id] = m;
    if (lg[0]->log(r, 0, p)) failed++;
    std::unique_lock<std::mutex> lk(s.mu);
    s.cv.wait(lk, [&] {
      for (auto& l : ls)
        if (!l->early_close && !l->ended) return false;
      return true;
    });
  }
  for (auto& l : ls)
    if (!l->early_close) l->close();
  Contents c = read_all(f.arena);
  for (auto& g : lg) g->close();
  a0_writer_close(&raw);
  a0_file_close(&f);
  unlink(path.c_str());
  CHECK_OR_FAIL(x, !failed, "failed", "%d calls failed", failed.load());
  CHECK_OR_FAIL(x, c.bad.empty(), "unreadable", "%s", c.bad.c_str());
  if (!small) CHECK_OR_FAIL(x, c.pk.size() == s.sent.size(), "unwritten", "%zu of %zu messages are in the topic", c.pk.size(), s.sent.size());
  for (auto& p : c.pk) {
    auto it = s.sent.find(p.id);
    CHECK_OR_FAIL(x, it != s.sent.end(), "unknown", "a message nobody logged: %s", brief(p).c_str());
    Msg& m = it->second;
    CHECK_OR_FAIL(x, p.payload == m.payload, "payload", "payload changed: %s", brief(p).c_str());
    if (m.via_logger) CHECK_OR_FAIL(x, !p.all("a0_log_level").empty() && p.all("a0_log_level")[0] == kLevels[m.level], "level", "logged at %s: %s", kLevels[m.level], brief(p).c_str());
    Hdrs have = sorted(p.hdrs), want = sorted(m.hdrs);
    CHECK_OR_FAIL(x, std::includes(have.begin(), have.end(), want.begin(), want.end()), "headers", "headers are missing: %s", brief(p).c_str());
    x.eval();
  }
  for (auto& lp : ls) {
    Listener& l = *lp;
    CHECK_OR_FAIL(x, !l.late, "after-close", "%d messages after closing: %s", l.late, l.name().c_str());
    std::map<std::string, size_t> at;
    for (size_t i = 0; i < c.pk.size(); i++) at[c.pk[i].id] = i;
    size_t prev = 0;
    bool first = true;
    for (auto& g : l.got) {
      auto sit = s.sent.find(g.id);
      CHECK_OR_FAIL(x, sit != s.sent.end(), "unknown", "given a message nobody logged: %s", l.name().c_str());
      Msg& m = sit->second;
      CHECK_OR_FAIL(x, m.level >= 0, "no-level", "given a message without a level: '%s': %s", g.payload.c_str(), l.name().c_str());
      CHECK_OR_FAIL(x, m.level <= l.level, "less-severe", "given a message logged at %s: '%s': %s", kLevels[m.level], g.payload.c_str(), l.name().c_str());
      CHECK_OR_FAIL(x, g.payload == m.payload, "payload", "payload changed: '%s': %s", g.payload.c_str(), l.name().c_str());
      if (g.kept) CHECK_OR_FAIL(x, g.kept->c->id == g.id && str(g.kept->c->payload) == g.payload, "not-kept", "the packet given to the callback changed afterwards: %s", l.name().c_str());
      auto it = at.find(g.id);
      Hdrs want = sorted(m.hdrs), have = sorted(g.hdrs);
      CHECK_OR_FAIL(x, std::includes(have.begin(), have.end(), want.begin(), want.end()), "headers", "headers are missing from '%s': %s", g.payload.c_str(), l.name().c_str());
      if (it == at.end()) {
        CHECK_OR_FAIL(x, small && first, "order", "out of order: '%s': %s", g.payload.c_str(), l.name().c_str());
        continue;  // evicted since
      }
      CHECK_OR_FAIL(x, have == sorted(c.pk[it->second].hdrs), "headers", "headers changed in '%s': %s", g.payload.c_str(), l.name().c_str());
      CHECK_OR_FAIL(x, first || it->second > prev, "order", "out of order or repeated: '%s': %s", g.payload.c_str(), l.name().c_str());
      prev = it->second;
      first = false;
      x.eval();
    }
    x.count("delivered", l.got.size());
    x.distinct(mix(l.level * 64 + l.init * 16 + l.iter * 4 + l.cpp, mix(l.got.size(), hash_str(l.got.empty() ? "" : l.got[l.got.size() / 2].payload))));
    for (auto& p : c.pk) x.count(s.sent[p.id].level < 0 ? "without_level" : strf("logged_%s_heard_at_%s", kLevels[s.sent[p.id].level], kLevels[l.level]));
    if (small || l.early_close || l.iter) {
      x.count(small ? "evicting" : l.early_close ? "closed_early" : "newest_only");
      continue;
    }
    // All that is severe enough from one of the possible starting points on.
    uint64_t from_lo, from_hi;
    if (l.init == 0) from_lo = from_hi = 0;
    else if (l.init == 1) from_lo = l.lo ? l.lo : 1, from_hi = l.hi ? std::max(l.hi, from_lo) : 1;
    else from_lo = l.lo + 1, from_hi = l.hi + 1;
    uint64_t base = c.pk[0].seq;  // of the first message ever
    bool okay = false;
    std::string best;
    // Sequence numbers start at base; high() counts from there.
    for (uint64_t from = from_lo; from <= from_hi && !okay; from++) {
      std::vector<const Pk*> want;
      for (auto& p : c.pk)
        if (p.seq >= from && s.sent[p.id].level >= 0 && s.sent[p.id].level <= l.level) want.push_back(&p);
      okay = want.size() == l.got.size();
      for (size_t i = 0; okay && i < want.size(); i++) okay = want[i]->id == l.got[i].id;
      best = strf("%zu expected", want.size());
    }
    CHECK_OR_FAIL(x, okay, "missed", "not every message that is severe enough was given (%s, topic starts at %lu, opened between %lu and %lu): %s", best.c_str(), base, l.lo, l.hi, l.name().c_str());
    x.count("complete_streams");
  }
  x.sample(ls[0]->name() + strf(" of %zu messages", c.pk.size()));
}
}  // namespace

int main(int argc, char** argv) { return harness_main(argc, argv, run_case); }
