// C11: background readers of every flavour: what they deliver, and how they stop.
#include <a0/file.h>

#include <atomic>
#include <condition_variable>
#include <mutex>
#include <thread>

#include "readers.hpp"

namespace {
constexpr int kFlavours = 8;
const char* kNames[] = {"C zero-copy", "C copying", "C++ zero-copy", "C++ copying", "C subscriber zero-copy", "C subscriber copying", "C++ subscriber zero-copy", "C++ subscriber copying"};

struct World {
  std::mutex m;
  std::condition_variable cv;
  std::map<std::string, Pkts::P> by_id;  // every packet ever committed
  std::atomic<uint64_t> low{0};          // lower bound of what writers have seen evicted
  std::string bad_key, bad;              // first complaint, from any thread

  void complain(const std::string& key, const std::string& what) {
    std::lock_guard<std::mutex> g(m);
    if (bad.empty()) {
      bad_key = key;
      bad = what;
    }
    cv.notify_all();
  }
};

struct R {
  World* w;
  int flavour;
  a0_reader_options_t o;
  uint64_t start = 0;                  // nothing up to this may be delivered
  std::atomic<uint64_t> must{~0ull};   // everything after this has to be delivered (or gone first)
  Tr probe;            // to ask for the oldest packet when the lock is not held by the callback
  std::atomic<bool> closed{false};
  std::atomic<int> inside{0};
  std::atomic<uint64_t> last{0};
  std::atomic<uint64_t> calls{0};
  std::atomic<uint64_t> skipped{0};
  std::atomic<uint64_t> rnd{1};
  int slow = 0;
  std::atomic<int> self_close{0};  // callbacks until one of them tries to close its own reader (0: never)
  std::atomic<int> self_closed{0};

  HeapAlloc* heap = nullptr;
  a0_reader_zc_t c0;
  a0_reader_t c1;
  a0::ReaderZeroCopy c2;
  a0::Reader c3;
  a0_subscriber_zc_t c4;
  a0_subscriber_t c5;
  a0::SubscriberZeroCopy c6;
  a0::Subscriber c7;

  std::string who() { return strf("%s reader, start %d, step %d", kNames[flavour], o.init, o.iter); }

  // tlk: the lock is held by the reader
  void deliver(const Got& g, a0_transport_locked_t* tlk) {
    if (closed) w->complain("after-close", who() + " called back after its close returned");
    if (inside++) w->complain("overlap", who() + " called back while a callback runs");
    calls++;
    Pkts::P p;
    bool known;
    // (The writer noted it before it let go of the topic's lock.)
    {
      std::lock_guard<std::mutex> l(w->m);
      auto it = w->by_id.find(g.id);
      if ((known = it != w->by_id.end())) p = it->second;
    }
    if (!known) {
      w->complain("unknown", who() + " delivered a packet that was never written");
    } else {
      if (!Pkts::same(p, g)) w->complain("contents", who() + " delivered changed contents");
      uint64_t prev = last ? (uint64_t)last : start;
      if (p.seq <= prev)
        w->complain("order", strf("%s delivered packet %lu after %lu", who().c_str(), (unsigned long)p.seq, (unsigned long)prev));
      uint64_t from = last ? prev : (uint64_t)must;
      if (o.iter == A0_ITER_NEXT && from != ~0ull && p.seq > from + 1) {
        uint64_t low = 0;
        if (tlk) a0_transport_seq_low(*tlk, &low);
        else {
          probe.lock();
          probe.seq_low(&low);
          probe.unlock();
        }
        if (tlk ? low != p.seq : low < p.seq)
          w->complain("skipped", strf("%s went from packet %lu to %lu although the oldest available is %lu", who().c_str(), (unsigned long)from, (unsigned long)p.seq, (unsigned long)low));
        skipped++;
      }
      if (o.iter == A0_ITER_NEWEST && tlk && last) {
        uint64_t high = 0;
        a0_transport_seq_high(*tlk, &high);
        if (p.seq != high) w->complain("not-newest", strf("%s delivered packet %lu when %lu is the newest", who().c_str(), (unsigned long)p.seq, (unsigned long)high));
      }
      std::lock_guard<std::mutex> l(w->m);
      last = p.seq;
      w->cv.notify_all();
    }
    if (slow) {
      uint64_t x = mix(rnd++, 5);
      if (x % 3 == 0) usleep(x % (slow * 100));
    }
    if (self_close && !--self_close) {
      a0_err_t e = flavour == 0 ? a0_reader_zc_close(&c0) : flavour == 1 ? a0_reader_close(&c1) : flavour == 4 ? a0_subscriber_zc_close(&c4) : a0_subscriber_close(&c5);
      self_closed++;
      if (!e) w->complain("close-own-callback", who() + ": a close from its own callback succeeded while that callback runs");
    }
    inside--;
  }
  void on_zc(a0_transport_locked_t tlk, a0_flat_packet_t f) {
    Got g, again;
    take_flat(&g, f);
    deliver(g, &tlk);
    take_flat(&again, f);
    if (again.id != g.id || again.payload != g.payload || again.hdrs != g.hdrs) w->complain("unstable", who() + ": packet changed during its callback");
  }
  static void on_zc_c(void* u, a0_transport_locked_t tlk, a0_flat_packet_t f) { ((R*)u)->on_zc(tlk, f); }
  static void on_c(void* u, a0_packet_t p) {
    R* r = (R*)u;
    Got g, again;
    take_packet(&g, p);
    r->deliver(g, nullptr);
    take_packet(&again, p);
    if (again.id != g.id || again.payload != g.payload || again.hdrs != g.hdrs) r->w->complain("unstable", r->who() + ": packet changed during its callback");
  }
  void on_cpp(const a0::Packet& p) {
    Got g, again;
    take_cpp(&g, p);
    deliver(g, nullptr);
    take_cpp(&again, p);
    if (again.id != g.id || again.payload != g.payload) w->complain("unstable", who() + ": packet changed during its callback");
  }
  a0_err_t open(a0_arena_t arena, const std::string& topic) {
    a0_pubsub_topic_t t{topic.c_str(), nullptr};
    auto zc = [this](a0::TransportLocked l, a0::FlatPacket f) { on_zc(*l.c, *f.c); };
    auto cp = [this](a0::Packet p) { on_cpp(p); };
    switch (flavour) {
      case 0: return a0_reader_zc_init(&c0, arena, o, {this, on_zc_c});
      case 1: heap = new HeapAlloc; return a0_reader_init(&c1, arena, heap->get(), o, {this, on_c});
      case 2: return guard([&] { c2 = a0::ReaderZeroCopy(cpp_arena(arena), cpp_opts(o), zc); });
      case 3: return guard([&] { c3 = a0::Reader(cpp_arena(arena), cpp_opts(o), cp); });
      case 4: return a0_subscriber_zc_init(&c4, t, o, {this, on_zc_c});
      case 5: heap = new HeapAlloc; return a0_subscriber_init(&c5, t, heap->get(), o, {this, on_c});
      case 6: return guard([&] { c6 = a0::SubscriberZeroCopy(a0::PubSubTopic(topic), cpp_opts(o), zc); });
      default: return guard([&] { c7 = a0::Subscriber(a0::PubSubTopic(topic), cpp_opts(o), cp); });
    }
  }
  a0_err_t close() {
    a0_err_t e = A0_OK;
    switch (flavour) {
      case 0: e = a0_reader_zc_close(&c0); break;
      case 1: e = a0_reader_close(&c1); break;
      case 2: c2 = {}; break;
      case 3: c3 = {}; break;
      case 4: e = a0_subscriber_zc_close(&c4); break;
      case 5: e = a0_subscriber_close(&c5); break;
      case 6: c6 = {}; break;
      default: c7 = {};
    }
    closed = true;
    if (inside) w->complain("close-during-callback", who() + ": close returned while a callback runs");
    return e;
  }
  ~R() { delete heap; }
};

void run_case(Ctx& ctx) {
  Rng& r = ctx.rng;
  ctx.desc("background reader");
  std::string topic = strf("t%lu", (unsigned long)ctx.case_id);
  a0_file_options_t fo = A0_FILE_OPTIONS_DEFAULT;
  fo.create_options.size = r.chance(80) ? 1024 + 16 * r.below(100) : 4096 + r.below(20000);
  a0_file_t file;
  std::string path = topic + ".pubsub.a0";
  if (a0_file_open(path.c_str(), &fo, &file)) ctx.harness_error("file");
  std::unique_ptr<World> world(new World);
  World& w = *world;
  std::vector<std::unique_ptr<R>> rs, old;
  std::atomic<uint64_t> tag{r.below(1000)};
  uint64_t high = 0;  // newest, kept by whoever holds the topic's lock
  std::atomic<uint64_t> writes{0};

  auto write_some = [&](Tr& t, Rng& g) {
    t.lock();
    if (g.chance(6)) t.clear();
    int n = g.chance(70) ? 1 : g.below(8);
    for (int i = 0; i < n; i++) {
      Pkts::P p;
      size_t size = g.chance(80) ? g.below(100) : g.below(fo.create_options.size / 2);
      if (!Pkts::write(t, tag++, size, &p)) continue;
      std::lock_guard<std::mutex> l(w.m);
      w.by_id[p.id] = p;
      high = p.seq;
      writes++;
    }
    t.unlock();
  };
  Tr t;
  if (t.open(file.arena, false)) ctx.harness_error("open");
  int before = r.chance(30) ? 0 : r.below(8);
  for (int i = 0; i < before; i++) write_some(t, r);

  int nw = r.range(1, 3);
  std::atomic<bool> stop{false};
  std::vector<std::thread> writers;
  auto start_writers = [&] {
    for (int i = 0; i < nw; i++) {
      uint64_t s = r.next();
      int n = r.below(25);
      writers.emplace_back([&, s, n] {
        Rng g(s);
        Tr wt;
        wt.open(file.arena, g.chance(50));
        for (int k = 0; k < n && !stop; k++) {
          write_some(wt, g);
          if (g.chance(30)) usleep(g.below(150));
          else if (g.chance(30)) sched_yield();
        }
      });
    }
  };
  uint64_t h = 0;
  auto add_reader = [&] {
    std::unique_ptr<R> x(new R);
    x->w = &w;
    x->flavour = r.below(kFlavours);
    x->o = {(a0_reader_init_t)r.below(3), (a0_reader_iter_t)r.below(2)};
    x->slow = r.chance(40) ? r.range(1, 8) : 0;
    x->rnd = r.next() | 1;
    bool c_api = x->flavour < 2 || x->flavour == 4 || x->flavour == 5;
    if (c_api && r.chance(20)) x->self_close = r.range(1, 4);
    x->probe.open(file.arena, false);
    // Among writers, creation sees some state between two looks.
    auto look = [&](uint64_t* from) {
      uint64_t lo, hi;
      bool empty;
      t.lock();
      t.seq_low(&lo);
      t.seq_high(&hi);
      t.empty(&empty);
      t.unlock();
      *from = empty || x->o.init == A0_INIT_AWAIT_NEW ? hi : x->o.init == A0_INIT_OLDEST ? lo - 1 : hi - 1;
      return empty;
    };
    bool quiet = writers.empty();
    bool empty = look(&x->start);
    if (quiet) x->must = x->start;
    a0_err_t e = x->open(file.arena, topic);
    if (e) ctx.fail("create", strf("creating a %s failed with %s", x->who().c_str(), errname(e).c_str()));
    if (!quiet) {
      uint64_t m;
      look(&m);
      x->must = m;
    }
    h = mix(h, x->flavour * 12 + x->o.init * 4 + x->o.iter * 2 + empty + 100 * quiet);
    if (!quiet) ctx.count("readers_started_among_writers");
    ctx.log(x->who() + (quiet ? "" : " (among writers)"));
    rs.push_back(std::move(x));
  };
  auto finish_reader = [&](size_t i) {
    R& x = *rs[i];
    ctx.desc("close|" + x.who());
    a0_err_t e = x.close();
    if (e) w.complain("close-error", strf("%s: close gave %s", x.who().c_str(), errname(e).c_str()));
    ctx.count("closes");
    ctx.count("callbacks", x.calls);
    ctx.count("gaps_checked", x.skipped);
    ctx.count("closes_in_own_callback", x.self_closed);
    old.push_back(std::move(rs[i]));
    rs.erase(rs.begin() + i);
  };

  int nr = r.range(1, 3);
  for (int i = 0; i < nr; i++) add_reader();
  if (r.chance(15)) finish_reader(r.below(rs.size()));  // before its thread has done anything
  start_writers();
  if (r.chance(40)) add_reader();
  if (r.chance(40) && rs.size()) {
    if (r.chance(70)) usleep(r.below(300));
    finish_reader(r.below(rs.size()));
    ctx.count("closes_among_writers");
  }
  for (auto& x : writers) x.join();
  // The last packet written reaches every reader that is still open.
  t.lock();
  Pkts::P p;
  bool wrote = Pkts::write(t, tag++, r.below(60), &p);
  if (wrote) {
    std::lock_guard<std::mutex> l(w.m);
    w.by_id[p.id] = p;
  }
  t.unlock();
  ctx.desc("the last packet reaches every background reader");
  if (wrote) {
    std::unique_lock<std::mutex> l(w.m);
    w.cv.wait(l, [&] {
      if (!w.bad.empty()) return true;
      for (auto& x : rs)
        if (x->last != p.seq) return false;
      return true;
    });
    ctx.count("converged", rs.size());
  }
  while (!rs.empty()) finish_reader(r.below(rs.size()));
  // Nobody is listening any more.
  write_some(t, r);
  for (auto& x : old) {
    ctx.eval(x->calls + 1);
    h = mix(h, x->calls);
  }
  if (!w.bad.empty()) {
    std::string k = w.bad_key, b = w.bad;
    ctx.violation(k, b);
  }
  ctx.distinct(mix(h, writes));
  ctx.sample(strf("%lu packets by %d writers: %s", (unsigned long)writes, nw, ctx.trace.c_str()));
  old.clear();
  a0_file_close(&file);
  a0_file_remove(path.c_str());
}
}  // namespace

int main(int argc, char** argv) { return harness_main(argc, argv, run_case); }
