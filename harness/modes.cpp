// C34 (modes): one file used through a series of shared, exclusive and read-only openings,
// some of them ending in the middle of a write; the bytes of the file are watched from
// outside while it is open read-only.
// C35 (oldformat): images in the previous storage format, written by a model of the old
// writer, opened in any mode and then used as above.
#include <a0/file.h>
#include <a0/reader.h>
#include <a0/reader.hpp>
#include <a0/writer.h>
#include <sys/wait.h>

#include <thread>

#include "fsutil.hpp"
#include "packets.hpp"
#include "world.hpp"

namespace {

std::string slurp(const std::string& p) {
  std::string s;
  int fd = open(p.c_str(), O_RDONLY | O_CLOEXEC);
  if (fd < 0) return "?";
  struct stat st;
  fstat(fd, &st);
  s.resize(st.st_size);
  if (pread(fd, &s[0], s.size(), 0) != (ssize_t)s.size()) s = "?";
  close(fd);
  return s;
}

bool refused(a0_err_t e) { return e == A0_ERR_SYS && (a0_err_syscode == EPERM || a0_err_syscode == EACCES); }

// A call through the C++ interface that has to be refused.
template <class F>
bool refused_cpp(F&& f, std::string* got) {
  try {
    f();
  } catch (const std::exception& e) {
    *got = e.what();
    return *got == strerror(EPERM) || *got == strerror(EACCES);
  }
  *got = "success";
  return false;
}

const char* kMode[] = {"shared", "exclusive", "readonly"};

struct File {
  a0_file_t f{};
  bool open_ = false;
  a0_err_t open(const std::string& path, a0_arena_mode_t md, size_t size) {
    a0_file_options_t o = A0_FILE_OPTIONS_DEFAULT;
    o.create_options.size = size;
    o.create_options.mode = 0644;
    o.open_options.arena_mode = md;
    a0_err_t e = a0_file_open(path.c_str(), &o, &f);
    open_ = !e;
    return e;
  }
  void close() {
    if (open_) a0_file_close(&f);
    open_ = false;
  }
  ~File() { close(); }
};

struct Case {
  Ctx& ctx;
  Rng& r;
  World w;
  std::string path;
  size_t size = 0;
  bool started = false;   // the storage start is known
  bool cleared = true;    // used space is exact (it is an upper bound after a conversion)
  unsigned ro = 0, ex = 0, sh = 0, crashed = 0, refusals = 0;
  uint64_t sig = 0;

  explicit Case(Ctx& c) : ctx(c), r(c.rng), w(c) { w.owned = false; }

  void drop_handles() {
    for (auto* t : w.h) {
      if (t->locked) t->unlock();
      delete t;
    }
    w.h.clear();
    w.cur.clear();
  }

  struct Drop {  // before the file goes
    Case& c;
    ~Drop() { c.drop_handles(); }
  };
  void attach(File& f, a0_arena_mode_t md) {
    a0_err_t e = f.open(path, md, size);
    CHECK_OR_FAIL(ctx, !e, "open-refused", "opening the file %s gives %s", kMode[md], errname(e).c_str());
    CHECK_OR_FAIL(ctx, f.f.arena.buf.size == size && f.f.arena.mode == md, "arena-wrong", "opened %s: %zu bytes, mode %d", kMode[md], f.f.arena.buf.size, f.f.arena.mode);
    w.mem = f.f.arena.buf.data;
    w.mem_size = size;
    w.last_off = 0;
  }
  void know_start() {
    if (started) return;
    size_t z = 0;
    w.h[0]->lock();
    w.h[0]->used_space(&z);
    w.h[0]->unlock();
    w.m.start = w.m.hwm = z;
    CHECK_OR_FAIL(ctx, z >= 64 && z <= 200, "fresh-used-space", "a fresh file uses %zu bytes", z);
    started = true;
  }
  std::string pick_mode() {
    std::string all[] = {"contents", "cursor", "account"};
    return all[r.below(cleared ? 3 : 2)];
  }

  // Reads and writes through a shared or an exclusive opening.
  void use(a0_arena_mode_t md) {
    ctx.log(kMode[md]);
    (md == A0_ARENA_MODE_SHARED ? sh : ex)++;
    File f;
    Drop drop{*this};
    attach(f, md);
    w.mode = pick_mode();
    size_t nh = r.range(2, 3);
    for (size_t i = 0; i < nh; i++) w.open_handle(md);
    know_start();
    {
      Tr& v = *w.h.back();
      v.lock();
      w.verify(v);
      v.unlock();
      ctx.eval();
    }
    size_t n = r.range(1, ctx.thorough ? 24 : 12);
    for (size_t s = 0; s < n; s++) {
      if (!cleared) upper_bound(*w.h[r.below(w.h.size() - 1)]);
      w.step(r.below(w.h.size() - 1), r, md);
    }
    if (w.m.frames.empty() && w.m.hwm == w.m.start) cleared = true;
    if (md == A0_ARENA_MODE_EXCLUSIVE) {
      if (r.chance(30)) unlocked_elsewhere();
      if (r.chance(50)) waits(*w.h[r.below(w.h.size())], md);
      if (r.chance(20)) {  // left in the middle of a write
        Tr& t = *w.h[0];
        t.lock();
        begin_write(t, w.mem, true);
        t.locked = false;
        crashed++;
        ctx.log("left-open");
        sig = mix(sig, 77);
      }
    }
    sig = mix(mix(sig, md), w.sig);
    drop_handles();
    w.mem = nullptr;
  }

  // Frames may not be cut off by resizing, even where the space used is not known exactly.
  void upper_bound(Tr& t) {
    t.lock();
    size_t z = 0, reach = w.m.extent();
    a0_err_t e = t.used_space(&z);
    CHECK_OR_FAIL(ctx, !e && z >= reach && z <= size, "used-space-bound", "used space %zu in a file of %zu, frames reach %zu", z, size, reach);
    if (!w.m.frames.empty()) {
      size_t n = reach - 1 - r.below(r.chance(50) ? 1 : reach - 1);
      e = t.resize(n);
      CHECK_OR_FAIL(ctx, e == A0_ERR_INVALID_ARG, "resize-wrong", "resize to %zu gives %s; frames reach %zu", n, errname(e).c_str(), reach);
    }
    t.unlock();
  }

  // An allocation that is never committed. Evictions are kept.
  void begin_write(Tr& t, uint8_t* mem, bool track) {
    size_t n = w.pick_size(), off;
    a0_transport_frame_t* fr;
    bool ok = w.m.slot(n, &off);
    a0_err_t e = t.alloc(n, &fr);
    if (track) CHECK_OR_FAIL(ctx, ok == (e == A0_OK), "alloc-refused", "alloc of %zu gives %s", n, errname(e).c_str());
    if (!e) memset(fr->data, 0xEE, n);
    if (ok) w.m.evict(w.m.evictions(off, n));
    (void)mem;
  }

  // A process that writes through a shared opening and dies in the middle of it.
  void crash() {
    ctx.log("crash");
    crashed++;
    sig = mix(sig, 88);
    uint64_t s = r.next();
    Rng mine(s);
    std::swap(mine, ctx.rng);  // what is written is decided in both processes
    pid_t p = fork();
    if (p < 0) ctx.harness_error("fork");
    if (p == 0) {
      File f;
      if (f.open(path, A0_ARENA_MODE_SHARED, size)) _exit(2);
      Tr t;
      if (t.open(f.f.arena, false)) _exit(2);
      t.lock();
      begin_write(t, f.f.arena.buf.data, false);
      _exit(0);
    }
    int st = 0;
    waitpid(p, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st)) ctx.fail("writer-died", strf("a process writing through a shared opening ended with status %x", st));
    size_t n = w.pick_size(), off;
    if (w.m.slot(n, &off)) w.m.evict(w.m.evictions(off, n));
    std::swap(mine, ctx.rng);
  }

  // Another thread works while this one is between lock and unlock.
  void unlocked_elsewhere() {
    Tr& a = *w.h[0];
    a.lock();
    ctx.log("meanwhile");
    size_t n = 0;
    a0_err_t e = A0_OK;
    a0_arena_t arena = a.arena;
    std::thread th([&] {
      a0_transport_t t;
      a0_transport_locked_t lk;
      e = a0_transport_init(&t, arena);
      if (e) return;
      a0_transport_lock(&t, &lk);
      e = a0_transport_jump_head(lk);
      if (!e)
        for (n = 1; !a0_transport_step_next(lk);) n++;
      else if (e == A0_ERR_RANGE) e = A0_OK;
      a0_transport_unlock(lk);
    });
    th.join();
    a.unlock();
    CHECK_OR_FAIL(ctx, !e && n == w.m.frames.size(), "exclusive-read", "a second handle sees %zu of %zu frames (%s)", n, w.m.frames.size(), errname(e).c_str());
    ctx.count("unlocked_uses");
    ctx.eval();
  }

  // No form of waiting may block.
  void waits(Tr& t, a0_arena_mode_t md) {
    t.lock();
    a0_transport_locked_t& lk = t.raw();
    a0_predicate_t p[] = {a0_transport_empty_pred(&lk), a0_transport_nonempty_pred(&lk), a0_transport_has_next_pred(&lk)};
    int k = r.below(3);
    int how = r.below(t.use_cpp ? 5 : 3);
    ctx.log(strf("wait%d.%d", k, how));
    std::string got;
    bool ok;
    a0_time_mono_t soon;
    a0_time_mono_now(&soon);
    a0_time_mono_add(soon, r.chance(50) ? 3600000000000ll : -1000000, &soon);
    if (how == 0) {
      a0_err_t e = a0_transport_wait(lk, p[k]);
      ok = refused(e), got = errname(e);
    } else if (how < 3) {
      a0_err_t e = a0_transport_timedwait(lk, p[k], how == 1 ? A0_TIMEOUT_NEVER : &soon);
      ok = refused(e), got = errname(e);
    } else if (how == 3) {
      ok = refused_cpp([&] { t.xlk.wait([] { return false; }); }, &got);
    } else {
      ok = refused_cpp([&] { t.xlk.wait_for([] { return false; }, std::chrono::hours(1)); }, &got);
    }
    CHECK_OR_FAIL(ctx, ok, "wait-accepted", "waiting in %s mode gives %s", kMode[md], got.c_str());
    t.unlock();
    refusals++;
    ctx.eval();
  }

  void read_only() {
    ctx.log("readonly");
    ro++;
    bool fresh = access(path.c_str(), F_OK) != 0;
    std::string before = fresh ? std::string(size, 0) : slurp(path);
    File f;
    Drop drop{*this};
    attach(f, A0_ARENA_MODE_READONLY);
    auto same = [&](const char* what) {
      std::string now = slurp(path);
      if (now == before) return;
      size_t at = 0;
      while (at < now.size() && at < before.size() && now[at] == before[at]) at++;
      ctx.fail("file-changed", strf("the file changed at byte %zu of %zu after %s through a read-only opening", at, before.size(), what));
    };
    w.mode = pick_mode();
    size_t nh = r.range(1, 3);
    for (size_t i = 0; i < nh; i++) w.open_handle(A0_ARENA_MODE_READONLY);
    same("opening");
    if (!started) know_start();
    size_t n = r.range(2, 14);
    for (size_t s = 0; s < n; s++) {
      size_t i = r.below(nh);
      Tr& t = *w.h[i];
      const char* what = "reading";
      unsigned op = r.below(100);
      if (op >= 75) {
        waits(t, A0_ARENA_MODE_READONLY);
        same("waiting");
        continue;
      }
      a0_err_t e = t.lock();
      CHECK_OR_FAIL(ctx, !e, "lock-failed", "lock gives %s", errname(e).c_str());
      if (op < 25) {
        Tr v;
        e = v.open(f.f.arena, r.chance(40));
        CHECK_OR_FAIL(ctx, !e, "open-failed", "open gives %s", errname(e).c_str());
        v.lock();
        w.verify(v);
        v.unlock();
      } else if (op < 40) {
        w.check_cursor(i);
        w.move_cursor(i);
        w.check_cursor(i);
      } else if (op < 45) {
        w.check_forecast(t, w.pick_size());
        what = "forecasting";
      } else if (op < 50 && !w.m.frames.empty()) {
        auto& fr = w.m.frames[r.below(w.m.frames.size())];
        if (fr.end() == w.m.arena) {  // refused in every mode, see C13
          t.unlock();
          continue;
        }
        e = t.jump(fr.off);
        CHECK_OR_FAIL(ctx, !e, "jump-refused", "jump to frame %lu gives %s", fr.seq, errname(e).c_str());
        w.get(t, fr, "jump");
        w.sync_cursor(i, fr);
      } else {
        refuse_write(t, &what);
      }
      t.unlock();
      same(what);
      ctx.eval();
    }
    {
      Tr v;
      v.open(f.f.arena, false);
      v.lock();
      w.verify(v);
      v.unlock();
      ctx.eval();
    }
    sig = mix(mix(sig, 2), w.sig);
    drop_handles();
    w.mem = nullptr;
    f.close();
    same("closing");
  }

  void refuse_write(Tr& t, const char** what) {
    size_t n = w.pick_size();
    std::string got;
    bool ok;
    a0_transport_frame_t* fr = nullptr;
    a0_buf_t buf;
    a0_err_t e = A0_OK;
    switch (r.below(6)) {
      case 0:
      case 1:
        *what = "alloc";
        if (t.use_cpp) ok = refused_cpp([&] { t.xlk.alloc(n); }, &got);
        else e = a0_transport_alloc(t.lk, n, &fr), ok = refused(e), got = errname(e);
        break;
      case 2:
        *what = "allocator";
        e = t.alloc_via_allocator(n, &buf), ok = refused(e), got = errname(e);
        break;
      case 3:
        *what = "clear";
        e = a0_transport_clear(t.raw()), ok = refused(e), got = errname(e);
        break;
      case 4:
        *what = "resize";
        e = a0_transport_resize(t.raw(), r.chance(50) ? size : r.range(w.m.extent(), size)), ok = refused(e), got = errname(e);
        break;
      default:
        *what = "commit";
        if (t.use_cpp) ok = refused_cpp([&] { t.xlk.commit(); }, &got);
        else e = a0_transport_commit(t.lk), ok = refused(e), got = errname(e);
        break;
    }
    ctx.log(*what);
    CHECK_OR_FAIL(ctx, ok, "write-accepted", "%s through a read-only opening gives %s", *what, got.c_str());
    refusals++;
  }

  void session() {
    switch (r.below(10)) {
      case 0: case 1: case 2: use(A0_ARENA_MODE_SHARED); break;
      case 3: case 4: case 5: use(A0_ARENA_MODE_EXCLUSIVE); break;
      case 6: if (started) { crash(); break; }  // fallthrough
      default: read_only(); break;
    }
  }

  void finish() {
    use(A0_ARENA_MODE_SHARED);
    ctx.count("shared_openings", sh);
    ctx.count("exclusive_openings", ex);
    ctx.count("read_only_openings", ro);
    ctx.count("left_in_mid_write", crashed);
    ctx.count("refusals", refusals);
    ctx.count("frames_evicted", w.evicted);
    ctx.sample(ctx.trace);
  }

  size_t pick_file_size() {
    size_t sizes[] = {300, 700, 1500, 4096, 9000};
    size_t n = 200 + r.below(sizes[r.below(5)]);
    return r.chance(20) ? (n + 4095) / 4096 * 4096 : n;
  }
};

std::string new_path(Ctx& ctx) {
  static unsigned n;
  std::string d = ctx.scratch + "/u";
  return d + strf("/m%u.a0", n++);
}

void run_modes(Ctx& ctx) {
  Case c(ctx);
  c.path = new_path(ctx);
  c.size = c.w.m.arena = c.pick_file_size();
  ctx.desc(strf("modes | file of %zu", c.size));
  size_t n = ctx.rng.range(3, ctx.thorough ? 14 : 9);
  for (size_t i = 0; i < n; i++) c.session();
  c.finish();
  if (c.ro && c.ex) ctx.distinct(c.sig);
  unlink(c.path.c_str());
}

// ---- packets through readers and writers ------------------------------------

void collect_cb(void* u, a0_transport_locked_t, a0_flat_packet_t fp) {
  Pk p;
  if (!parse_flat(fp.buf.data, fp.buf.size, &p)) p.id = "malformed";
  ((std::vector<Pk>*)u)->push_back(p);
}

void run_packets(Ctx& ctx) {
  Rng& r = ctx.rng;
  std::string path = new_path(ctx);
  size_t size = 1024 + r.below(8000);
  ctx.desc(strf("modes | packets in a file of %zu", size));
  std::vector<Pk> want;  // what a shared opening shows
  uint64_t sig = 0;
  size_t sessions = r.range(2, 5);
  for (size_t s = 0; s < sessions; s++) {
    a0_arena_mode_t md = r.chance(50) ? A0_ARENA_MODE_SHARED : A0_ARENA_MODE_EXCLUSIVE;
    File f;
    a0_err_t e = f.open(path, md, size);
    CHECK_OR_FAIL(ctx, !e, "open-refused", "opening the file %s gives %s", kMode[md], errname(e).c_str());
    a0_writer_t wr;
    e = a0_writer_init(&wr, f.f.arena);
    CHECK_OR_FAIL(ctx, !e, "writer-init", "writer on %s gives %s", kMode[md], errname(e).c_str());
    size_t n = r.below(8);
    std::vector<Pk> sent;
    for (size_t i = 0; i < n; i++) {
      std::string pl(r.below(300), 'a' + r.below(26));
      CPacket p(r, {{"k", strf("%zu", i)}}, pl);
      e = a0_writer_write(&wr, p.p);
      CHECK_OR_FAIL(ctx, !e, "write-failed", "write through %s gives %s", kMode[md], errname(e).c_str());
      Pk q;
      q.id = p.p.id;
      q.payload = pl;
      sent.push_back(q);
    }
    a0_writer_close(&wr);
    ctx.log(strf("%s: %zu packets", kMode[md], n));
    f.close();
    File g;
    g.open(path, A0_ARENA_MODE_SHARED, size);
    Contents c = read_all(g.f.arena);
    if (!c.bad.empty()) ctx.fail("unreadable", c.bad);
    // What is left has to be the newest of what was there and what was sent.
    std::vector<Pk> all = want;
    all.insert(all.end(), sent.begin(), sent.end());
    CHECK_OR_FAIL(ctx, c.pk.size() <= all.size() && (c.pk.size() > 0) == (all.size() > 0), "contents", "%zu packets after %zu", c.pk.size(), all.size());
    for (size_t i = 0; i < c.pk.size(); i++) {
      auto& a = all[all.size() - c.pk.size() + i];
      CHECK_OR_FAIL(ctx, a.id == c.pk[i].id && a.payload == c.pk[i].payload, "contents", "packet %zu of %zu is not the one written", i, c.pk.size());
    }
    want = c.pk;
    g.close();
    ctx.eval();

    // The same through each mode.
    md = r.chance(70) ? A0_ARENA_MODE_READONLY : A0_ARENA_MODE_EXCLUSIVE;
    std::string before = slurp(path);
    File h;
    e = h.open(path, md, size);
    CHECK_OR_FAIL(ctx, !e, "open-refused", "opening the file %s gives %s", kMode[md], errname(e).c_str());
    unsigned what = r.below(6);
    ctx.log(strf("%s reads %u", kMode[md], what));
    std::vector<Pk> got;
    a0_reader_options_t ro = {A0_INIT_OLDEST, A0_ITER_NEXT};
    if (what == 0) {
      a0_reader_sync_zc_t rd;
      e = a0_reader_sync_zc_init(&rd, h.f.arena, ro);
      CHECK_OR_FAIL(ctx, !e, "reader-init", "reader gives %s", errname(e).c_str());
      bool can = false;
      while (!a0_reader_sync_zc_can_read(&rd, &can) && can && got.size() <= want.size())
        if ((e = a0_reader_sync_zc_read(&rd, {&got, collect_cb}))) ctx.fail("read-failed", errname(e));
      // Nothing is left: waiting for more has to be refused.
      a0_time_mono_t soon;
      a0_time_mono_now(&soon);
      a0_time_mono_add(soon, 3600000000000ll, &soon);
      e = r.chance(50) ? a0_reader_sync_zc_read_blocking(&rd, {&got, collect_cb}) : a0_reader_sync_zc_read_blocking_timeout(&rd, &soon, {&got, collect_cb});
      CHECK_OR_FAIL(ctx, refused(e), "wait-accepted", "a blocking read with nothing left in %s mode gives %s", kMode[md], errname(e).c_str());
      a0_reader_sync_zc_close(&rd);
    } else if (what == 1) {
      guard([&] {
        a0::ReaderSync rd(a0::Arena(a0::Buf(h.f.arena.buf.data, h.f.arena.buf.size), md), a0::Reader::Options{a0::Reader::Init::OLDEST, a0::Reader::Iter::NEXT});
        while (rd.can_read() && got.size() <= want.size()) {
          a0::Packet p = rd.read();
          Pk q;
          q.id = std::string(p.id());
          q.payload = std::string(p.payload());
          for (auto& kv : p.headers()) q.hdrs.push_back(kv);
          got.push_back(q);
        }
        std::string err;
        if (!refused_cpp([&] { rd.read_blocking(); }, &err)) ctx.fail("wait-accepted", strf("a blocking read with nothing left in %s mode gives %s", kMode[md], err.c_str()));
      });
    } else if (what == 2) {
      File m;
      m.open(path, A0_ARENA_MODE_SHARED, size);
      std::vector<size_t> offs;
      a0_transport_t t;
      a0_transport_locked_t lk;
      a0_transport_init(&t, m.f.arena);
      a0_transport_lock(&t, &lk);
      if (!a0_transport_jump_head(lk)) do {
          a0_transport_frame_t* fr;
          a0_transport_frame(lk, &fr);
          offs.push_back(fr->hdr.off);
        } while (!a0_transport_step_next(lk));
      a0_transport_unlock(lk);
      m.close();
      before = slurp(path);
      for (size_t o : offs)
        if ((e = a0_read_random_access(h.f.arena, o, {&got, collect_cb}))) ctx.fail("read-failed", errname(e));
    } else if (what == 3) {
      // A background reader cannot wait in these modes; it has to end and close.
      struct None {
        static void cb(void* u, a0_transport_locked_t, a0_flat_packet_t) { __atomic_add_fetch((unsigned*)u, 1, __ATOMIC_RELAXED); }
      };
      unsigned seen = 0;
      a0_reader_zc_t rd;
      e = a0_reader_zc_init(&rd, h.f.arena, ro, {&seen, None::cb});
      CHECK_OR_FAIL(ctx, !e, "reader-init", "reader gives %s", errname(e).c_str());
      if (r.chance(50)) usleep(r.below(2000));
      a0_reader_zc_close(&rd);
      got = want;
    } else if (what == 4) {
      Contents c = read_all(h.f.arena);
      if (!c.bad.empty()) ctx.fail("unreadable", c.bad);
      got = c.pk;
    } else {
      a0_writer_t x;
      e = a0_writer_init(&x, h.f.arena);
      CHECK_OR_FAIL(ctx, !e, "writer-init", "writer on %s gives %s", kMode[md], errname(e).c_str());
      CPacket p(r, {}, std::string(r.below(100), 'z'));
      if (md == A0_ARENA_MODE_READONLY) {
        e = a0_writer_write(&x, p.p);
        CHECK_OR_FAIL(ctx, refused(e), "write-accepted", "a writer on a read-only opening gives %s", errname(e).c_str());
        ctx.count("refusals");
      }
      a0_writer_close(&x);
      got = read_all(h.f.arena).pk;
    }
    CHECK_OR_FAIL(ctx, got.size() == want.size(), "contents", "%zu packets read through %s, %zu through shared", got.size(), kMode[md], want.size());
    for (size_t i = 0; i < got.size(); i++) {
      std::string a = got[i].payload, b = want[i].payload;
      CHECK_OR_FAIL(ctx, got[i].id == want[i].id && a == b, "contents", "packet %zu read through %s differs", i, kMode[md]);
    }
    h.close();
    if (md == A0_ARENA_MODE_READONLY && slurp(path) != before) ctx.fail("file-changed", "the file changed while open read-only");
    sig = mix(mix(sig, md * 8 + what), want.size());
    ctx.count(md == A0_ARENA_MODE_READONLY ? "read_only_openings" : "exclusive_openings");
    ctx.eval();
  }
  ctx.distinct(sig);
  unlink(path.c_str());
}

// ---- the previous format -----------------------------------------------------

struct OldState {
  uint64_t low, high, head, tail;
};
constexpr size_t kOldStart = 144;

void run_old(Ctx& ctx) {
  Rng& r = ctx.rng;
  Case c(ctx);
  c.path = new_path(ctx);
  c.size = c.w.m.arena = c.pick_file_size();
  Model& m = c.w.m;
  m.start = m.hwm = kOldStart;
  c.started = true;
  std::string img(c.size, 0);
  uint8_t* p = (uint8_t*)&img[0];
  auto put = [&](size_t off, uint64_t v) { memcpy(p + off, &v, 8); };
  if (r.chance(15)) m.seq_high = r.below(1ull << 40), m.seq_low = m.seq_high ? m.seq_high + 1 : 0;
  OldState now{}, prev{};
  auto state = [&] { return OldState{m.seq_low, m.seq_high, m.frames.empty() ? 0 : m.frames.front().off, m.frames.empty() ? 0 : m.frames.back().off}; };
  prev = now = state();
  size_t n = r.below(r.chance(20) ? 60 : 12);
  uint64_t last_tail = 0;
  auto place = [&](size_t off, size_t sz, uint64_t seq, uint64_t tag) {
    uint64_t tail = m.frames.empty() ? 0 : m.frames.back().off;
    put(off, seq), put(off + 8, off), put(off + 16, 0), put(off + 24, tail), put(off + 32, sz);
    if (tail) put(tail + 16, off);
    fill_pattern(p + off + kFrameHdr, sz, tag);
  };
  unsigned evicted = 0;
  for (size_t i = 0; i < n; i++) {
    prev = state();
    if (r.chance(4)) {
      m.clear();
      continue;
    }
    size_t sz = c.w.pick_size(), off;
    if (!m.slot(sz, &off)) continue;
    size_t k = m.evictions(off, sz);
    evicted += k;
    m.evict(k);
    uint64_t tag = mix(ctx.case_id * 77, i);
    place(off, sz, m.seq_high + 1, tag);
    m.append(off, sz, tag);
    last_tail = off;
  }
  now = state();
  bool torn = r.chance(25);
  size_t sz = r.below(60), off;
  if (torn && m.slot(sz, &off) && !m.evictions(off, sz)) place(off, sz, m.seq_high + 1, 1);  // a write that was never finished
  // Header.
  p[0] = p[1] = 1;
  if (r.chance(50))
    for (size_t i = 2; i < 56; i++) p[i] = r.chance(50) ? r.next() : 0;
  unsigned idx = r.below(2);
  OldState other = now;
  switch (r.below(4)) {
    case 0: break;
    case 1: other = prev; break;
    case 2: other = {m.seq_low, m.seq_high + 1, now.head, last_tail}; break;
    default: other = {r.next(), r.next(), r.next(), r.next()}; break;
  }
  auto page = [&](unsigned i, const OldState& s) { put(56 + 32 * i, s.low), put(64 + 32 * i, s.high), put(72 + 32 * i, s.head), put(80 + 32 * i, s.tail); };
  page(idx, now);
  page(!idx, other);
  uint32_t cp = idx;
  memcpy(p + 120, &cp, 4);
  if (r.chance(20)) memset(p + 124, 0xA5, 4);
  put(128, c.size);
  m.hwm = c.size;
  c.cleared = false;
  ctx.desc(strf("oldformat | file of %zu, %zu frames [%lu,%lu], copy %u", c.size, m.frames.size(), m.seq_low, m.seq_high, idx));
  ctx.log(strf("old image: %zu bytes, %zu frames, copy %u", c.size, m.frames.size(), idx));
  int fd = open(c.path.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0644);
  if (fd < 0 || write(fd, img.data(), img.size()) != (ssize_t)img.size()) ctx.harness_error("cannot write the image");
  close(fd);
  size_t held = m.frames.size();
  uint64_t sig = mix(mix(held, idx), evicted);
  unsigned first = r.below(3);
  if (first == 2) {
    c.read_only();
    if (r.chance(30)) c.read_only();
    first = r.below(2);
  }
  c.use(first ? A0_ARENA_MODE_EXCLUSIVE : A0_ARENA_MODE_SHARED);
  size_t more = r.below(ctx.thorough ? 8 : 4);
  for (size_t i = 0; i < more; i++) c.session();
  c.finish();
  ctx.count("old_frames", held);
  ctx.count(idx ? "second_copy_current" : "first_copy_current");
  if (evicted) ctx.count("images_with_evictions");
  if (torn) ctx.count("images_with_a_torn_write");
  ctx.distinct(mix(sig, c.sig));
  unlink(c.path.c_str());
}

void begin(Ctx& ctx) { become_nobody(ctx); }

void run_case(Ctx& ctx) {
  if (ctx.mode == "oldformat") run_old(ctx);
  else if (ctx.rng.chance(25)) run_packets(ctx);
  else run_modes(ctx);
}
}  // namespace

int main(int argc, char** argv) { return harness_main(argc, argv, run_case, begin); }
