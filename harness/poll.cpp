// C10: polling readers of every flavour, start mode and step mode against a model.
#include <a0/file.h>

#include <thread>

#include "readers.hpp"

namespace {
struct R {
  std::unique_ptr<Poll> p;
  int flavour;
  a0_reader_options_t o;
  uint64_t at = 0;  // the packet it stands on
  bool first = true;
};

void run_case(Ctx& ctx) {
  Rng& r = ctx.rng;
  std::string topic = strf("t%lu", (unsigned long)ctx.case_id);
  a0_file_options_t fo = A0_FILE_OPTIONS_DEFAULT;
  fo.create_options.size = r.chance(80) ? 1024 + 16 * r.below(100) : 4096 + r.below(20000);
  a0_file_t file;
  std::string path = topic + ".pubsub.a0";
  if (a0_file_open(path.c_str(), &fo, &file)) ctx.harness_error("file");
  struct Gone {
    a0_file_t* f;
    std::string p;
    ~Gone() {
      a0_file_close(f);
      a0_file_remove(p.c_str());
    }
  } gone{&file, path};
  Tr w;
  if (w.open(file.arena, false)) ctx.harness_error("open");
  std::deque<Pkts::P> live;
  uint64_t tag = r.below(1000);
  std::vector<R> rs;
  uint64_t h = fo.create_options.size;
  bool evicted = false;

  auto write_locked = [&] {
    size_t n = r.chance(70) ? r.below(120) : r.below(fo.create_options.size);
    Pkts::P p;
    if (!Pkts::write(w, tag, n, &p)) {
      // Eviction may have happened before the refusal? No: a refused write changes nothing.
      return;
    }
    tag++;
    uint64_t low;
    w.seq_low(&low);
    while (!live.empty() && live.front().seq < low) {
      live.pop_front();
      evicted = true;
    }
    live.push_back(p);
  };
  auto change = [&] {  // one lock hold: what a blocked reader finds next is determined
    w.lock();
    if (r.chance(12)) {
      w.clear();
      live.clear();
      h = mix(h, 77);
      ctx.count("clears");
    }
    int n = r.chance(60) ? 1 : r.below(6);
    for (int i = 0; i < n; i++) write_locked();
    h = mix(h, n);
    w.unlock();
  };
  auto expect = [&](R& x) -> const Pkts::P* {
    if (live.empty()) return nullptr;
    if (x.first && x.o.init != A0_INIT_AWAIT_NEW)
      for (auto& p : live)
        if (p.seq == x.at) return &p;
    if (x.o.iter == A0_ITER_NEWEST) return live.back().seq > x.at ? &live.back() : nullptr;
    for (auto& p : live)
      if (p.seq > x.at) return &p;
    return nullptr;
  };
  auto where = [&](R& x) {
    return strf("%s reader, start %d, step %d, standing on %lu%s, packets %lu..%lu", poll_name(x.flavour), x.o.init, x.o.iter, (unsigned long)x.at, x.first ? " (nothing read yet)" : "",
                live.empty() ? 0ul : (unsigned long)live.front().seq, live.empty() ? 0ul : (unsigned long)live.back().seq);
  };
  auto judge = [&](R& x, const Got& g, const Pkts::P* want, const char* what) {
    ctx.eval();
    CHECK_OR_FAIL(ctx, !g.err, strf("missed:%s", what), "%s read gave %s instead of packet %lu: %s", what, errname(g.err).c_str(), (unsigned long)want->seq, where(x).c_str());
    CHECK_OR_FAIL(ctx, g.calls == 1, "callbacks", "%s read called back %d times: %s", what, g.calls, where(x).c_str());
    if (!Pkts::same(*want, g)) {
      std::string saw = "something never written or changed";
      for (auto& p : live)
        if (p.id == g.id) saw = strf("packet %lu%s", (unsigned long)p.seq, Pkts::same(p, g) ? "" : " with wrong contents");
      ctx.fail(strf("wrong:%s", what), strf("%s read gave %s instead of packet %lu: %s", what, saw.c_str(), (unsigned long)want->seq, where(x).c_str()));
    }
    x.at = want->seq;
    x.first = false;
    ctx.count("packets_read");
  };

  int steps = r.range(6, 40);
  for (int s = 0; s < steps; s++) {
    ctx.tick();
    int k = r.below(100);
    if (rs.empty() || (k < 12 && rs.size() < 5)) {
      R x;
      x.flavour = r.below(kPollFlavours);
      x.o = {(a0_reader_init_t)r.below(3), (a0_reader_iter_t)r.below(2)};
      x.p = make_poll(ctx, x.flavour, file.arena, topic, x.o);
      if (!live.empty()) x.at = x.o.init == A0_INIT_OLDEST ? live.front().seq : live.back().seq;
      h = mix(h, 1000 + x.flavour * 6 + x.o.init * 2 + x.o.iter + 100 * live.empty());
      ctx.log(strf("reader%zu=%s/%d/%d", rs.size(), poll_name(x.flavour), x.o.init, x.o.iter));
      rs.push_back(std::move(x));
    } else if (k < 40) {
      change();
      ctx.log(strf("write->%lu..%lu", live.empty() ? 0ul : (unsigned long)live.front().seq, live.empty() ? 0ul : (unsigned long)live.back().seq));
    } else if (k < 43 && rs.size() > 1) {
      rs.erase(rs.begin() + r.below(rs.size()));
    } else {
      R& x = rs[r.below(rs.size())];
      const Pkts::P* want = expect(x);
      bool can = x.p->can_read();
      CHECK_OR_FAIL(ctx, can == !!want, "can-read", "can-read says %d: %s", can, where(x).c_str());
      int how = r.below(3);
      h = mix(h, 5000 + how * 4 + !!want * 2 + x.first);
      ctx.desc(strf("poll|%s read %d", poll_name(x.flavour), how));
      a0_time_mono_t now, dl;
      a0_time_mono_now(&now);
      if (want) {
        a0_time_mono_add(now, 1000000000000ll, &dl);
        if (how == 2 && r.chance(10)) {
          // A deadline already past: the packet or a timeout, and nothing lost.
          a0_time_mono_add(now, -(int64_t)r.below(1000000), &dl);
          if (now.ts.tv_sec < 1) continue;
          Got g = x.p->read(2, &dl);
          if (!g.err) judge(x, g, want, "timed");
          else {
            CHECK_OR_FAIL(ctx, !g.calls, "late-callback", "a timed out read called back");
            CHECK_OR_FAIL(ctx, x.p->can_read(), "consumed", "a timed out read consumed a packet: %s", where(x).c_str());
          }
          continue;
        }
        Got g = x.p->read(how, &dl);
        judge(x, g, want, how == 0 ? "plain" : how == 1 ? "blocking" : "timed");
      } else if (how == 0 || r.chance(50)) {
        Got g = x.p->read(0, nullptr);
        ctx.eval();
        CHECK_OR_FAIL(ctx, g.err == A0_ERR_AGAIN && !g.calls, "nothing", "plain read with nothing new gave %s and %d callbacks: %s", errname(g.err).c_str(), g.calls, where(x).c_str());
        ctx.count("nothing_new");
      } else if (how == 2 && r.chance(30)) {
        a0_time_mono_add(now, r.below(400000), &dl);
        Got g = x.p->read(2, &dl);
        uint64_t t = now_ns();
        ctx.eval();
        CHECK_OR_FAIL(ctx, g.err && !g.calls, "timed-nothing", "timed read with nothing new succeeded: %s", where(x).c_str());
        if (x.flavour % 4 < 2) CHECK_OR_FAIL(ctx, g.err == A0_ERR_SYS && a0_err_syscode == ETIMEDOUT, "timeout-error", "timed read with nothing new gave %s", errname(g.err).c_str());
        CHECK_OR_FAIL(ctx, t >= dl.ts.tv_sec * 1000000000ull + dl.ts.tv_nsec, "early-timeout", "timed out before the deadline");
        CHECK_OR_FAIL(ctx, !x.p->can_read(), "timeout-changes", "can-read changed by a timeout");
        ctx.count("timeouts");
      } else {
        // Another thread blocks in the read; then the contents change until it has something.
        a0_time_mono_add(now, 1000000000000ll, &dl);
        Got g;
        volatile bool done = false;
        bool spin = r.chance(50);
        std::thread th([&] {
          g = x.p->read(how, &dl);
          done = true;
        });
        if (spin) usleep(r.below(200));
        int tries = 0;
        while (!(want = expect(x))) {
          change();
          if (++tries > 200) {  // nothing fits any more: make room
            w.lock();
            w.clear();
            live.clear();
            Pkts::P p;
            if (Pkts::write(w, tag++, 1, &p)) live.push_back(p);
            w.unlock();
          }
        }
        th.join();
        judge(x, g, want, how == 1 ? "woken" : "woken-timed");
        ctx.count("woken");
      }
    }
  }
  if (evicted) ctx.count("histories_with_eviction");
  if (rs.size() && live.size()) ctx.distinct(h);
  ctx.sample(ctx.trace);
}
}  // namespace

int main(int argc, char** argv) { return harness_main(argc, argv, run_case); }
