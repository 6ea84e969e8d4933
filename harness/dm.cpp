// C14, C15 on the topic level: handles opened, closed and abandoned on real files, one command after the other,
// with blocked calls pending meanwhile.
#include <a0/deadman.h>
#include <a0/deadman.hpp>
#include <a0/mtx.h>
#include <a0/tid.h>
#include <a0/time.hpp>

#include <sys/stat.h>

#include <atomic>
#include <condition_variable>
#include <functional>
#include <memory>
#include <mutex>
#include <set>
#include <stdexcept>
#include <thread>

#include "common.hpp"

namespace {

// A thread that does what it is told.
struct Exec {
  std::mutex mu;
  std::condition_variable cv;
  std::function<void()> job;
  bool busy = false, quit = false;
  int tid = 0;
  std::thread th;
  void start() {
    quit = false;
    th = std::thread([this] {
      std::unique_lock<std::mutex> l(mu);
      tid = a0_tid();
      cv.notify_all();
      for (;;) {
        cv.wait(l, [&] { return busy || quit; });
        if (!busy) return;
        auto j = std::move(job);
        l.unlock();
        j();
        l.lock();
        busy = false;
        cv.notify_all();
      }
    });
    std::unique_lock<std::mutex> l(mu);
    cv.wait(l, [&] { return tid != 0; });
  }
  void stop() {
    {
      std::unique_lock<std::mutex> l(mu);
      quit = true;
      cv.notify_all();
    }
    th.join();
    tid = 0;
  }
  void post(std::function<void()> j) {
    std::unique_lock<std::mutex> l(mu);
    job = std::move(j);
    busy = true;
    cv.notify_all();
  }
  bool done() {
    std::unique_lock<std::mutex> l(mu);
    return !busy;
  }
  void wait() {
    std::unique_lock<std::mutex> l(mu);
    cv.wait(l, [&] { return !busy; });
  }
};

enum { TAKE, TRY, TIMED, RELEASE, WTAKEN, TWTAKEN, WREL, TWREL, STATE };
const char* kNames[] = {"take", "trytake", "timedtake", "release", "wait_taken", "timedwait_taken", "wait_released", "timedwait_released", "state"};

struct Handle {
  Exec ex;
  bool open = false, cpp = false;
  a0_deadman_t c;
  a0::Deadman x;
  // the call under way
  int op = -1;
  uint64_t arg = 0;
  int res = 0;
  uint64_t tkn = 0;
  a0_deadman_state_t st = {};
  int fd = -1;
  bool early = false;
  std::atomic<bool> entered{false};
  bool asleep() {
    if (!entered) return false;
    char buf[512];
    FILE* f = fopen(strf("/proc/self/task/%d/stat", ex.tid).c_str(), "re");
    if (!f) return false;
    size_t k = fread(buf, 1, sizeof buf - 1, f);
    fclose(f);
    buf[k] = 0;
    char* p = strrchr(buf, ')');
    return p && p[2] == 'S';
  }
};

// 0, an errno, or 10000 + another error. C++ hides a dead previous holder, and why an attempt failed.
void call(Handle* h, int op, uint64_t arg, int64_t delay) {
  a0_time_mono_t now, dl;
  a0_time_mono_now(&now);
  a0_time_mono_add(now, delay, &dl);
  a0_deadman_t* d = &h->c;
  h->tkn = 0;
  a0_err_t e = A0_OK;
  h->entered = true;
  a0_err_syscode = 0;
  if (h->cpp) {
    h->res = 0;
    try {
      a0::TimeMono t;
      t.c = std::make_shared<a0_time_mono_t>(dl);
      switch (op) {
        case TAKE: h->x.take(); break;
        case TRY: h->res = h->x.try_take() ? 0 : EBUSY; break;
        case TIMED: h->x.take(t); break;
        case RELEASE: h->x.release(); break;
        case WTAKEN: h->tkn = h->x.wait_taken(); break;
        case TWTAKEN: h->tkn = h->x.wait_taken(t); break;
        case WREL: h->x.wait_released(arg); break;
        case TWREL: h->x.wait_released(arg, t); break;
        case STATE: {
          auto s = h->x.state();
          h->st.is_locked = s.is_taken;
          h->st.is_owner = s.is_owner;
          h->st.owner_tid = s.owner_tid;
          h->st.tkn = s.tkn;
        }
      }
    } catch (const std::runtime_error& ex) {
      h->res = strcmp(ex.what(), strerror(a0_err_syscode)) ? 9999 : a0_err_syscode;
    }
  } else {
    switch (op) {
      case TAKE: e = a0_deadman_take(d); break;
      case TRY: e = a0_deadman_trytake(d); break;
      case TIMED: e = a0_deadman_timedtake(d, &dl); break;
      case RELEASE: e = a0_deadman_release(d); break;
      case WTAKEN: e = a0_deadman_wait_taken(d, &h->tkn); break;
      case TWTAKEN: e = a0_deadman_timedwait_taken(d, &dl, &h->tkn); break;
      case WREL: e = a0_deadman_wait_released(d, arg); break;
      case TWREL: e = a0_deadman_timedwait_released(d, &dl, arg); break;
      case STATE: e = a0_deadman_state(d, &h->st); break;
    }
    h->res = e == A0_OK ? 0 : e == A0_ERR_SYS ? a0_err_syscode : 10000 + e;
  }
  a0_time_mono_t end;
  a0_time_mono_now(&end);
  h->early = h->res == ETIMEDOUT && (end.ts.tv_sec < dl.ts.tv_sec || (end.ts.tv_sec == dl.ts.tv_sec && end.ts.tv_nsec < dl.ts.tv_nsec));
}

void run_case(Ctx& x) {
  Rng& r = x.rng;
  std::string name = strf("t%lu", (unsigned long)x.case_id);
  std::string file = x.scratch + "/root/" + name + ".deadman";
  int n = (int)r.range(2, 5);
  auto& hs = *new std::vector<std::unique_ptr<Handle>>;  // left alone if the case fails
  for (int i = 0; i < n; i++) {
    hs.emplace_back(new Handle);
    hs[i]->ex.start();
  }
  // The model.
  int owner = -1;
  bool died = false;
  uint64_t tkn = 0;  // of the current period, 0 if nobody has seen it yet
  std::set<uint64_t> old;
  std::vector<uint64_t> old_list;
  std::string how;
  std::set<int> used;
  uint64_t shape = n;

  auto say = [&](const std::string& s) {
    how += s + " ";
    x.log(s);
    x.desc("deadman topic | " + how.substr(how.size() > 300 ? how.size() - 300 : 0));
  };
  auto saw_token = [&](Handle* h, uint64_t t, const char* where) {
    if (!tkn) {
      CHECK_OR_FAIL(x, !old.count(t), "token-reused", "%s gave token %lu of an earlier period: %s", where, (unsigned long)t, how.c_str());
      tkn = t;
    }
    CHECK_OR_FAIL(x, t == tkn, "token-differs", "%s gave token %lu, others %lu: %s", where, (unsigned long)t, (unsigned long)tkn, how.c_str());
  };
  auto open = [&](int i) {
    Handle* h = hs[i].get();
    h->cpp = r.chance(40);
    say(strf("open%s(%d)", h->cpp ? "++" : "", i));
    h->ex.post([&, h] {
      if (h->cpp) {
        try {
          h->x = a0::Deadman(a0::DeadmanTopic(name));
          h->res = 0;
        } catch (const std::exception&) {
          h->res = 1;
        }
      } else {
        h->res = a0_deadman_init(&h->c, {name.c_str()});
      }
    });
    h->ex.wait();
    CHECK_OR_FAIL(x, !h->res, "open", "opening failed: %s", how.c_str());
    h->open = true;
    h->fd = -1;
    for (auto& o : hs)
      if (o->open) used.insert(o->fd);
    for (int fd = 3; fd < 1024 && h->fd < 0; fd++) {
      char buf[4096];
      ssize_t k = readlink(strf("/proc/self/fd/%d", fd).c_str(), buf, sizeof buf);
      if (k > 0 && std::string(buf, k) == file && !used.count(fd)) h->fd = fd;
    }
    used.clear();
  };
  // A period begins or ends.
  auto taken_by = [&](int i, int res, bool cpp) {
    CHECK_OR_FAIL(x, res == 0 || res == EOWNERDEAD, "take-failed", "take gave %d: %s", res, how.c_str());
    if (!cpp) CHECK_OR_FAIL(x, (res == EOWNERDEAD) == died, "death-report", "take says %d although the previous holder %s: %s", res, died ? "died" : "did not die", how.c_str());
    owner = i;
    died = false;
    tkn = 0;
  };
  auto period_over = [&] {
    if (tkn) {
      old.insert(tkn);
      old_list.push_back(tkn);
    }
    owner = -1;
    tkn = 0;
  };
  // Lets every pending call return that has to, and checks that they do; the others stay.
  auto settle = [&] {
    for (bool again = true; again;) {
      again = false;
      for (int i = 0; i < n; i++) {
        Handle* h = hs[i].get();
        if (h->op < 0) continue;
        bool must = h->op == WTAKEN ? owner >= 0 : h->op == WREL ? old.count(h->arg) : false;
        if (!must) continue;
        h->ex.wait();
        CHECK_OR_FAIL(x, h->res == 0 || (h->res == EOWNERDEAD && !h->cpp), "pending-failed", "%s of handle %d ended with %d: %s", kNames[h->op], i, h->res, how.c_str());
        if (h->op == WTAKEN) saw_token(h, h->tkn, "a pending wait");
        x.count("pending_returned");
        h->op = -1;
        again = true;
      }
      if (owner < 0) {
        // One of those who want it gets it.
        std::vector<int> want;
        for (int i = 0; i < n; i++)
          if (hs[i]->op == TAKE) want.push_back(i);
        if (!want.empty()) {
          int got = -1;
          while (got < 0) {
            for (int i : want)
              if (hs[i]->ex.done()) got = i;
            if (got < 0) usleep(50);
          }
          Handle* h = hs[got].get();
          taken_by(got, h->res, h->cpp);
          h->op = -1;
          say(strf("[%d got it]", got));
          x.count("pending_takes");
          again = true;
        }
      }
    }
    for (int i = 0; i < n; i++)
      if (hs[i]->op >= 0) CHECK_OR_FAIL(x, !hs[i]->ex.done(), "returned-early", "%s of handle %d returned %d without reason: %s", kNames[hs[i]->op], i, hs[i]->res, how.c_str());
  };
  auto token_of_now = [&](int i) {
    Handle* h = hs[i].get();
    h->ex.post([h] { call(h, WTAKEN, 0, 0); });
    h->ex.wait();
    CHECK_OR_FAIL(x, !h->res, "wait-taken", "wait for a held switch gave %d: %s", h->res, how.c_str());
    saw_token(h, h->tkn, "a wait");
  };

  for (int i = 0; i < n; i++)
    if (r.chance(80)) open(i);
  int steps = (int)r.range(10, 40);
  for (int k = 0; k < steps; k++) {
    int i = (int)r.below(n);
    Handle* h = hs[i].get();
    if (!h->open) {
      open(i);
      continue;
    }
    if (h->op >= 0) {
      // A pending call; now and then its handle is closed under it.
      if (h->cpp || !r.chance(25)) continue;
      // It has to be on its way for the close to find it.
      while (!h->asleep() && !h->ex.done()) usleep(20);
      say(strf("close-under-%s(%d)", kNames[h->op], i));
      a0_err_t e = a0_deadman_close(&h->c);
      CHECK_OR_FAIL(x, !e, "close", "closing failed: %s", how.c_str());
      h->ex.wait();
      CHECK_OR_FAIL(x, h->res == ESHUTDOWN, "close-interrupts", "%s ended with %d when its handle was closed: %s", kNames[h->op], h->res, how.c_str());
      h->op = -1;
      h->open = false;
      x.count("closed_under_pending");
      settle();
      continue;
    }
    unsigned d = r.below(100);
    shape = mix(shape, d * 64 + i * 8 + (owner + 1));
    if (d < 12) {  // close, by the thread that used it
      say(strf("close(%d)", i));
      h->ex.post([h] {
        h->res = 0;
        if (h->cpp) h->x = a0::Deadman();
        else h->res = a0_deadman_close(&h->c);
      });
      h->ex.wait();
      CHECK_OR_FAIL(x, !h->res, "close", "closing failed with %d: %s", h->res, how.c_str());
      h->open = false;
      if (owner == i) {
        if (!tkn) {
          for (int j = 0; j < n; j++)
            if (hs[j]->op == WREL) x.fail("harness", "unknown token awaited");
        }
        period_over();
        x.count("closed_by_holder");
      }
      settle();
      continue;
    }
    if (d < 18) {  // the thread ends
      say(strf("thread-ends(%d)", i));
      h->ex.stop();
      if (owner == i) {
        // Handles belong to their thread: this one is of no use to anyone now, not even for closing.
        if (h->fd >= 0) close(h->fd);
        if (h->cpp) new std::shared_ptr<a0_deadman_t>(h->x.c);
        h->x = a0::Deadman();
        h->open = false;
        period_over();
        died = true;
        x.count("holder_died");
      }
      h->ex.start();
      settle();
      continue;
    }
    int op = d < 30 ? TAKE : d < 45 ? TRY : d < 52 ? TIMED : d < 66 ? RELEASE : d < 73 ? WTAKEN : d < 78 ? TWTAKEN : d < 88 ? WREL : d < 93 ? TWREL : STATE;
    int64_t delay = r.chance(50) ? -1000000 : r.chance(50) ? 300000 : 2000000;
    uint64_t arg = 0;
    if (op == WREL || op == TWREL) {
      if (owner >= 0 && !tkn && r.chance(80)) token_of_now(i);
      if (owner >= 0 && tkn && r.chance(75)) arg = tkn;
      else if (!old_list.empty()) arg = r.pick(old_list);
      else continue;
      if (owner == i && arg == tkn && op == WREL) continue;  // waiting for oneself
    }
    if (op == TAKE && owner == i) op = RELEASE;
    say(strf("%s(%d%s)", kNames[op], i, arg ? strf(",%lu", (unsigned long)arg).c_str() : ""));
    bool blocks = (op == TAKE && owner >= 0) || (op == WTAKEN && owner < 0) || (op == WREL && owner >= 0 && arg == tkn);
    h->entered = false;
    h->ex.post([h, op, arg, delay] { call(h, op, arg, delay); });
    if (blocks) {
      h->op = op;
      h->arg = arg;
      x.count("pending_calls");
      continue;
    }
    h->ex.wait();
    x.eval();
    CHECK_OR_FAIL(x, !h->early, "early", "%s timed out before its deadline: %s", kNames[op], how.c_str());
    auto expect = [&](int want) { CHECK_OR_FAIL(x, h->res == want, strf("result:%s", kNames[op]).c_str(), "%s of handle %d gave %d instead of %d: %s", kNames[op], i, h->res, want, how.c_str()); };
    switch (op) {
      case TAKE: taken_by(i, h->res, h->cpp); break;
      case TRY:
        if (owner < 0) taken_by(i, h->res, h->cpp);
        else expect(owner == i ? 0 : EBUSY);
        break;
      case TIMED:
        if (owner < 0) taken_by(i, h->res, h->cpp);
        else expect(owner == i ? 0 : ETIMEDOUT);
        break;
      case RELEASE:
        expect(owner == i ? 0 : EPERM);
        if (owner == i) period_over();
        break;
      case WTAKEN:
        expect(0);
        saw_token(h, h->tkn, "a wait");
        break;
      case TWTAKEN:
        expect(owner >= 0 ? 0 : ETIMEDOUT);
        if (owner >= 0) saw_token(h, h->tkn, "a timed wait");
        break;
      case WREL: expect(0); break;
      case TWREL: expect(owner >= 0 && arg == tkn ? ETIMEDOUT : 0); break;
      case STATE:
        expect(0);
        CHECK_OR_FAIL(x, h->st.is_locked == (owner >= 0), "state", "state says taken=%d: %s", h->st.is_locked, how.c_str());
        CHECK_OR_FAIL(x, h->st.is_owner == (owner == i), "state", "state says holding=%d to handle %d: %s", h->st.is_owner, i, how.c_str());
        if (owner >= 0) {
          CHECK_OR_FAIL(x, (int)h->st.owner_tid == hs[owner]->ex.tid, "state", "state names holder %d instead of %d: %s", (int)h->st.owner_tid, hs[owner]->ex.tid, how.c_str());
          saw_token(h, h->st.tkn, "the state");
        }
        break;
    }
    settle();
  }
  // Everybody goes; whoever is still blocked belongs to a handle that can be closed under it.
  say("end");
  if (owner >= 0 && hs[owner]->op < 0) {
    Handle* h = hs[owner].get();
    if (!tkn) token_of_now(owner);
    h->ex.post([h] { call(h, RELEASE, 0, 0); });
    h->ex.wait();
    CHECK_OR_FAIL(x, !h->res, "release", "last release gave %d: %s", h->res, how.c_str());
    period_over();
    settle();
  }
  for (int guard = 0; guard < 20; guard++) {
    bool pending = false;
    for (int i = 0; i < n; i++) pending |= hs[i]->op >= 0;
    if (!pending) break;
    if (owner < 0) {  // only waits for it to be taken are left
      int i = -1;
      for (int k = 0; k < n; k++)
        if (hs[k]->op < 0) i = k;
      if (i < 0) {
        a0::Deadman last{a0::DeadmanTopic(name)};
        CHECK_OR_FAIL(x, last.try_take(), "take-failed", "a free switch could not be taken: %s", how.c_str());
        owner = 1000;
        died = false;
        tkn = 0;
        settle();
        last.release();
        period_over();
        continue;
      }
      if (!hs[i]->open) open(i);
      Handle* h = hs[i].get();
      h->ex.post([h] { call(h, TRY, 0, 0); });
      h->ex.wait();
      taken_by(i, h->res, h->cpp);
      settle();
    }
    Handle* h = hs[owner].get();
    h->ex.post([h] { call(h, RELEASE, 0, 0); });
    h->ex.wait();
    CHECK_OR_FAIL(x, !h->res, "release", "last release gave %d: %s", h->res, how.c_str());
    period_over();
    settle();
  }
  for (int i = 0; i < n; i++) {
    Handle* h = hs[i].get();
    h->ex.post([h] {
      if (!h->open) return;
      if (h->cpp) h->x = a0::Deadman();
      else a0_deadman_close(&h->c);
    });
    h->ex.wait();
    h->ex.stop();
  }
  delete &hs;
  unlink(file.c_str());
  x.distinct(shape);
  x.sample(how);
}
}  // namespace

int main(int argc, char** argv) { return harness_main(argc, argv, run_case); }
