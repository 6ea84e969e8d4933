// C24 (mode merge): conditional and merging writes; C28 (mode watch): readers and watchers of a configuration.
#include <a0/cfg.h>
#include <a0/cfg.hpp>
#include <a0/file.h>
#include <a0/middleware.h>
#include <a0/time.hpp>
#include <a0/writer.h>
#include <a0/writer.hpp>

#include <nlohmann/json.hpp>

#include <atomic>
#include <condition_variable>
#include <memory>
#include <mutex>
#include <thread>

#include "packets.hpp"

namespace {
using json = nlohmann::json;

std::string topic_file(Ctx& x, const std::string& name) { return x.scratch + "/root/" + name + ".cfg.a0"; }
a0_file_options_t file_opts(size_t size) {
  a0_file_options_t o = A0_FILE_OPTIONS_DEFAULT;
  o.create_options.size = size;
  return o;
}
a0::File::Options xfile_opts(size_t size) {
  a0::File::Options o = a0::File::Options::DEFAULT;
  o.create_options.size = size;
  return o;
}

json random_json(Rng& r, int depth, int width) {
  switch (r.below(depth > 0 ? 9 : 6)) {
    case 0: return (int64_t)(r.next() >> r.below(64));
    case 1: return nullptr;
    case 2: return r.chance(50);
    case 3: return (double)(int64_t)r.below(1000000) / 64;
    case 4: {
      static const char* s[] = {"", "x", "q\"uote", "back\\slash/", "\xc3\xa9t\xc3\xa9", "line\nbreak", "\xf0\x9f\x98\x80", "\x01", "null"};
      return s[r.below(9)];
    }
    case 5: return std::string(r.below(40), 's');
    case 6: {
      json a = json::array();
      for (size_t i = 0, n = r.below(width + 1); i < n; i++) a.push_back(random_json(r, depth - 1, width));
      return a;
    }
    default: {
      json o = json::object();
      for (size_t i = 0, n = r.below(width + 1); i < n; i++) o[strf("%c%s", (int)('a' + r.below(5)), r.chance(10) ? "/~" : "")] = random_json(r, depth - 1, width);
      return o;
    }
  }
}

std::string broken_json(Rng& r) {
  static const char* s[] = {"", "{", "{\"a\":}", "[1,2", "not json", "{\"a\":1}}", "\"open", "{'a':1}", "{\"a\" 1}", "nul", "\xff\xfe", "1 2"};
  return s[r.below(12)];
}

enum Op { WRITE, IF_EMPTY, MERGE };
struct Rec {
  char id[37];
  int op, actor;
  a0_err_t err;
  int written;
  uint64_t t0, t1;
  size_t len;
  char body[3000];
};

// One process' or thread's way of using the configuration.
struct Handle {
  int kind;
  a0_cfg_t c{};
  a0::Cfg x;
  a0_file_t f{};
  a0_writer_t w{};
  a0::Writer xw;
  a0_err_t open(Ctx& ctx, const std::string& name, size_t size) {
    auto o = file_opts(size);
    a0_err_t e;
    switch (kind) {
      case 0: return a0_cfg_init(&c, {name.c_str(), &o});
      case 1: return guard([&] { x = a0::Cfg(a0::CfgTopic(name, xfile_opts(size))); });
      case 2:
        e = a0_file_open(topic_file(ctx, name).c_str(), &o, &f);
        return e ? e : a0_writer_init(&w, f.arena);
      default: return guard([&] { xw = a0::Writer(a0::File(topic_file(ctx, name), xfile_opts(size))); });
    }
  }
  a0_err_t go(Rng& r, int op, const std::string& body, bool* written, char* id) {
    CPacket p(r, {}, body);
    memcpy(id, p.p.id, 37);
    switch (kind) {
      case 0: return op == WRITE ? a0_cfg_write(&c, p.p) : op == IF_EMPTY ? a0_cfg_write_if_empty(&c, p.p, written) : a0_cfg_mergepatch(&c, p.p);
      case 1: return guard([&] {
        a0::Packet xp(p.p, nullptr);
        if (op == WRITE) x.write(xp);
        else if (op == IF_EMPTY) *written = x.write_if_empty(xp);
        else x.mergepatch(xp);
      });
      case 2: {
        if (op == WRITE) return a0_writer_write(&w, p.p);
        a0_writer_t out;
        a0_writer_wrap(&w, op == IF_EMPTY ? a0_write_if_empty(written) : a0_json_mergepatch(), &out);
        a0_err_t e = a0_writer_write(&out, p.p);
        a0_writer_close(&out);
        return e;
      }
      default: return guard([&] {
        a0::Packet xp(p.p, nullptr);
        if (op == WRITE) xw.write(xp);
        else xw.wrap(op == IF_EMPTY ? a0::write_if_empty(written) : a0::json_mergepatch()).write(xp);
      });
    }
  }
  void close() {
    switch (kind) {
      case 0: a0_cfg_close(&c); break;
      case 1: x = a0::Cfg(); break;
      case 2:
        a0_writer_close(&w);
        a0_file_close(&f);
        break;
      default: xw = a0::Writer();
    }
  }
};

void run_merge(Ctx& x) {
  Rng& r = x.rng;
  std::string name = strf("m%lu", x.case_id), path = topic_file(x, name);
  int nproc = 1 + (int)r.below(4), nthr = 1 + (int)r.below(3);
  if (nproc * nthr == 1) nthr = 2;
  int na = nproc * nthr;
  int per = 1 + (int)r.below(r.chance(50) ? 3 : 12);
  size_t total = (size_t)na * per;
  bool evict = r.chance(12);
  size_t size = evict ? 6000 : 4096 + total * 12000;
  int pw = r.chance(30) ? 0 : (int)r.below(30), pe = (int)r.below(60), pbad = r.chance(40) ? 15 : 0;
  bool preset = r.chance(40);
  uint64_t key = r.next();
  struct Shared {
    std::atomic<int> gate;
    std::atomic<int> failed;
  };
  Shared* sh = (Shared*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  Rec* recs = (Rec*)mmap(0, (total + 1) * sizeof(Rec), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  auto o = file_opts(size);
  a0_file_t f;
  if (a0_file_open(path.c_str(), &o, &f)) x.harness_error("cannot create the topic");
  x.desc(strf("merge | %d processes x %d threads x %d operations%s%s", nproc, nthr, per, preset ? ", preset" : "", evict ? ", small topic" : ""));
  size_t used = total;
  auto body_for = [&](Rng& lr, int op) {
    for (;;) {
      std::string b;
      if (lr.chance(pbad)) b = broken_json(lr);
      else {
        json j = random_json(lr, 4, 4);
        if (lr.chance(70) && !j.is_object()) j = json{{strf("k%lu", lr.below(30)), j}};
        if (lr.chance(40)) j[strf("u%lu", lr.below(1000000))] = 1;
        if (op == MERGE && lr.chance(10)) j = json{{"a", nullptr}};
        b = j.dump();
      }
      if (b.size() < 700) return b;
    }
  };
  auto act = [&](Handle& h, Rng& lr, Rec& rec, int actor, int op) {
    std::string b;
    try {
      b = body_for(lr, op);
    } catch (const std::exception&) {
      b = "{\"a\":1}";
    }
    rec.op = op;
    rec.actor = actor;
    rec.len = b.size();
    memcpy(rec.body, b.data(), b.size());
    bool written = false;
    rec.t0 = now_ns();
    rec.err = h.go(lr, op, b, &written, rec.id);
    rec.t1 = now_ns();
    rec.written = written;
  };
  if (preset) {
    Handle h;
    h.kind = (int)r.below(4);
    if (h.open(x, name, size)) x.fail("open", "opening the configuration failed");
    Rng lr(mix(key, 3));
    act(h, lr, recs[total], -1, WRITE);
    used = total + 1;
    h.close();
  }
  auto process = [&](int pr) {
    std::vector<std::thread> ts;
    std::vector<std::unique_ptr<Handle>> hs;
    // threads have their own handle, or share one
    Rng pr_r(mix(key, 20 + pr));
    bool share = pr_r.chance(40);
    for (int t = 0; t < (share ? 1 : nthr); t++) {
      hs.emplace_back(new Handle);
      hs.back()->kind = (int)pr_r.below(4);
      if (hs.back()->open(x, name, size)) {
        sh->failed++;
        return;
      }
    }
    auto body = [&](int th) {
      int actor = pr * nthr + th;
      Rng lr(mix(key, 100 + actor));
      sh->gate++;
      while (sh->gate < na && !sh->failed) sched_yield();
      for (int i = 0; i < per; i++) {
        int op = (int)lr.below(100) < pe && i == 0 ? IF_EMPTY : lr.chance(pw) ? WRITE : lr.chance(8) ? IF_EMPTY : MERGE;
        act(*hs[share ? 0 : th], lr, recs[(size_t)actor * per + i], actor, op);
      }
    };
    for (int t = 1; t < nthr; t++) ts.emplace_back(body, t);
    body(0);
    for (auto& t : ts) t.join();
    for (auto& h : hs) h->close();
  };
  std::vector<pid_t> kids;
  for (int p = 1; p < nproc; p++) {
    pid_t pid = fork();
    if (!pid) {
      process(p);
      _exit(0);
    }
    kids.push_back(pid);
  }
  process(0);
  for (pid_t k : kids) {
    int st;
    waitpid(k, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st)) x.fail("process-died", strf("a process ended with status %x", st));
  }
  if (sh->failed) x.fail("open", "opening the configuration failed");
  Contents c = read_all(f.arena);
  // The value seen by a plain read at the end.
  std::string final_read;
  {
    a0_cfg_t cfg;
    auto oo = file_opts(size);
    std::vector<uint8_t> buf;
    a0_alloc_t al = {&buf, [](void* u, size_t n, a0_buf_t* b) { auto* v = (std::vector<uint8_t>*)u; v->resize(n + 1); *b = {v->data(), n}; return A0_OK; }, nullptr};
    if (a0_cfg_init(&cfg, {name.c_str(), &oo})) x.fail("open", "opening failed");
    a0_packet_t p;
    if (!a0_cfg_read(&cfg, al, &p)) final_read = std::string((char*)p.id);
    // and the topic is usable
    CPacket cp(r, {}, "{}");
    a0_err_t e = a0_cfg_write(&cfg, cp.p);
    CHECK_OR_FAIL(x, !e, "unusable", "the topic refuses writes afterwards: %s", errname(e).c_str());
    a0_cfg_close(&cfg);
  }
  a0_file_close(&f);
  unlink(path.c_str());
  CHECK_OR_FAIL(x, c.bad.empty(), "unreadable", "%s", c.bad.c_str());

  // Every packet belongs to a successful operation and every successful one has a packet.
  std::map<std::string, size_t> rec_of;
  for (size_t i = 0; i < used; i++)
    if (recs[i].id[0]) rec_of[recs[i].id] = i;
  std::vector<long> seq_of(used, -1);
  for (auto& p : c.pk) {
    auto it = rec_of.find(p.id);
    CHECK_OR_FAIL(x, it != rec_of.end(), "foreign", "a packet nobody wrote: %s", brief(p).c_str());
    CHECK_OR_FAIL(x, seq_of[it->second] < 0, "twice", "an update was written twice: %s", brief(p).c_str());
    seq_of[it->second] = (long)p.seq;
  }
  static const char* kOp[] = {"write", "write-if-empty", "merge"};
  auto body = [&](size_t i) { return std::string(recs[i].body, recs[i].len); };
  auto show = [&](size_t i) { return strf("%s by %d of '%s' -> %s%s seq %ld", kOp[recs[i].op], recs[i].actor, body(i).substr(0, 150).c_str(), errname(recs[i].err).c_str(), recs[i].written ? " written" : "", seq_of[i]); };
  size_t ok_count = 0;
  uint64_t h = 0;
  for (size_t i = 0; i < used; i++) {
    Rec& q = recs[i];
    bool expect = !q.err && (q.op != IF_EMPTY || q.written);
    if (q.op == WRITE) CHECK_OR_FAIL(x, !q.err, "write-failed", "%s", show(i).c_str());
    if (q.op == IF_EMPTY) CHECK_OR_FAIL(x, !q.err, "write-failed", "%s", show(i).c_str());
    if (expect) ok_count++;
    if (!expect) CHECK_OR_FAIL(x, seq_of[i] < 0, "wrote-anyway", "an operation that reported no write wrote: %s", show(i).c_str());
    else if (!evict) CHECK_OR_FAIL(x, seq_of[i] > 0, "lost", "an operation that reported success wrote nothing: %s", show(i).c_str());
  }
  CHECK_OR_FAIL(x, c.high == ok_count, "count", "%zu operations succeeded, %lu packets were written", ok_count, c.high);
  CHECK_OR_FAIL(x, c.pk.empty() == final_read.empty() && (c.pk.empty() || c.pk.back().id == final_read), "final", "a read afterwards gave packet '%s'", final_read.c_str());
  // Follow the values.
  bool have_prev = false, prev_ok = false;
  json prev;
  size_t merges = 0;
  std::vector<std::pair<uint64_t, bool>> kind_of;  // seq -> is JSON
  uint64_t max_t0 = 0;
  for (auto& p : c.pk) {
    size_t i = rec_of[p.id];
    Rec& q = recs[i];
    CHECK_OR_FAIL(x, max_t0 <= q.t1, "order", "an operation that returned before another began took effect after it: %s", show(i).c_str());
    max_t0 = std::max(max_t0, q.t0);
    h = mix(h, q.actor * 4 + q.op);
    if (q.op != MERGE || p.seq == 1) {
      CHECK_OR_FAIL(x, p.payload == body(i), "value", "the value is not what was written: %s", show(i).c_str());
      if (q.op == IF_EMPTY) CHECK_OR_FAIL(x, p.seq == 1, "not-empty", "write-if-empty wrote into a topic that was not empty: %s", show(i).c_str());
    } else if (have_prev) {
      json patch = json::parse(body(i), nullptr, false);
      CHECK_OR_FAIL(x, prev_ok && !patch.is_discarded(), "merged-nonjson", "a merge involving something that is not JSON succeeded: %s", show(i).c_str());
      json want = prev;
      want.merge_patch(patch);
      json got = json::parse(p.payload, nullptr, false);
      CHECK_OR_FAIL(x, got == want, "merge-result", "merging '%s' into '%s' gave '%s'", body(i).substr(0, 300).c_str(), prev.dump().substr(0, 300).c_str(), p.payload.substr(0, 300).c_str());
      merges++;
    }
    prev = json::parse(p.payload, nullptr, false);
    prev_ok = !prev.is_discarded();
    have_prev = true;
    x.eval();
  }
  // Refusals have to have a reason.
  size_t refused = 0, not_first = 0;
  for (size_t i = 0; i < used && !evict; i++) {
    Rec& q = recs[i];
    if (q.op == MERGE && q.err) {
      refused++;
      bool reason = json::parse(body(i), nullptr, false).is_discarded();
      if (reason) {
        // only with a value there
        bool any = false;
        for (auto& p : c.pk) any |= recs[rec_of[p.id]].t0 < q.t1;
        CHECK_OR_FAIL(x, any, "refused", "a patch was refused although nothing was there to merge into: %s", show(i).c_str());
        continue;
      }
      for (size_t k = 0; k < c.pk.size() && !reason; k++) {
        if (!json::parse(c.pk[k].payload, nullptr, false).is_discarded()) continue;
        uint64_t from = recs[rec_of[c.pk[k].id]].t0;
        uint64_t to = k + 1 < c.pk.size() ? recs[rec_of[c.pk[k + 1].id]].t1 : ~0ull;
        reason = from < q.t1 && to > q.t0;
      }
      CHECK_OR_FAIL(x, reason, "refused", "a valid patch was refused: %s", show(i).c_str());
    }
    if (q.op == IF_EMPTY && !q.written) {
      not_first++;
      bool any = false;
      for (auto& p : c.pk) any |= recs[rec_of[p.id]].t0 < q.t1;
      CHECK_OR_FAIL(x, any, "nobody-wrote", "write-if-empty reported an existing value but nobody had written: %s", show(i).c_str());
    }
  }
  x.count("merges", merges);
  x.count("refused", refused);
  x.count("if_empty_lost", not_first);
  size_t sw = 0;
  for (size_t i = 1; i < c.pk.size(); i++) sw += recs[rec_of[c.pk[i].id]].actor != recs[rec_of[c.pk[i - 1].id]].actor;
  x.count("switches", sw);
  if (sw > 0) x.distinct(h);
  if (merges) x.sample(strf("%d actors: %zu packets, %zu merges, %zu refused, %zu switches, value %s", na, c.pk.size(), merges, refused, sw, prev.is_discarded() ? "-" : prev.dump(-1, ' ', true).substr(0, 200).c_str()));
  munmap(sh, 4096);
  munmap(recs, (total + 1) * sizeof(Rec));
}

// Large documents, one at a time.
void run_large(Ctx& x) {
  Rng& r = x.rng;
  std::string name = strf("l%lu", x.case_id);
  Handle h;
  h.kind = (int)r.below(4);
  size_t size = 8 << 20;
  if (h.open(x, name, size)) x.fail("open", "opening failed");
  json model;
  size_t n = r.below(r.chance(30) ? 20000 : 2000);
  for (size_t i = 0; i < n; i++) model[strf("key%zu", i)] = std::string(r.below(60), 'v');
  if (r.chance(20)) model["big"] = std::string(r.below(900000), 'b');
  model["x"] = 0;
  x.desc(strf("merge | large document of %zu bytes, kind %d", model.dump().size(), h.kind));
  bool w;
  char id[37];
  a0_err_t e = h.go(r, WRITE, model.dump(), &w, id);
  CHECK_OR_FAIL(x, !e, "write-failed", "%s", errname(e).c_str());
  for (int i = 0; i < 3; i++) {
    json patch = random_json(r, 4, 6);
    if (!patch.is_object()) patch = json{{"p", patch}};
    for (size_t k = 0, m = r.below(n / 2 + 1); k < m; k++) patch[strf("key%lu", r.below(n))] = r.chance(30) ? json(nullptr) : json(std::string(r.below(50), 'w'));
    model.merge_patch(patch);
    e = h.go(r, MERGE, patch.dump(), &w, id);
    CHECK_OR_FAIL(x, !e, "refused", "merging a patch of %zu bytes into %zu: %s", patch.dump().size(), model.dump().size(), errname(e).c_str());
    a0_file_t f;
    auto o = file_opts(size);
    if (a0_file_open(topic_file(x, name).c_str(), &o, &f)) x.harness_error("open");
    Contents c = read_all_elsewhere(f.arena);
    a0_file_close(&f);
    CHECK_OR_FAIL(x, c.bad.empty() && !c.pk.empty() && json::parse(c.pk.back().payload, nullptr, false) == model, "merge-result", "merging into a large document gave something else");
    x.eval();
  }
  h.close();
  unlink(topic_file(x, name).c_str());
  x.count("large_documents");
  x.distinct(mix(n, model.size()));
}

//////////////////////////////////////////////////////////////////////////////
// watch

struct WRec {
  int seq;  // position in the order written
  uint64_t t0, t1;
};

struct World {
  std::mutex m;
  std::condition_variable cv;
  std::string key, what;
  void complain(const std::string& k, const std::string& w) {
    std::lock_guard<std::mutex> g(m);
    if (key.empty()) key = k, what = w;
    cv.notify_all();
  }
};

struct Watch {
  World* w;
  int kind, slow;
  uint64_t opened;  // before it was created
  std::vector<std::pair<long, uint64_t>> got;  // transport sequence, when
  std::atomic<bool> closed{false};
  std::atomic<int> inside{0};
  long last = -1;
  a0_cfg_watcher_t c{};
  a0::CfgWatcher x;
  std::vector<uint8_t> buf;
  Rng r;

  void deliver(long seq) {
    inside++;
    if (closed) w->complain("called-after-close", strf("a watcher of kind %d was called after closing", kind));
    {
      std::lock_guard<std::mutex> g(w->m);
      if (seq <= last && w->key.empty()) {
        w->key = "not-newer";
        w->what = strf("a watcher of kind %d was called with value %ld after %ld", kind, seq, last);
      }
      got.push_back({seq, now_ns()});
      last = seq;
      w->cv.notify_all();
    }
    if (slow) {
      if (r.chance(30)) usleep(r.below(slow));
      else sched_yield();
    }
    inside--;
  }
  // The values are "{"n":i}": i is filled in from the packet's transport sequence by the reader.
  static long seq_of(const std::string& payload) {
    json j = json::parse(payload, nullptr, false);
    if (j.is_discarded() || !j.is_object() || !j.contains("v")) return -2;
    return j["v"].get<long>();
  }
  a0_err_t open(const std::string& name, size_t size) {
    auto o = file_opts(size);
    opened = now_ns();
    if (kind == 0) {
      a0_alloc_t al = {&buf, [](void* u, size_t n, a0_buf_t* b) { auto* v = (std::vector<uint8_t>*)u; v->resize(n + 1); *b = {v->data(), n}; return A0_OK; }, nullptr};
      return a0_cfg_watcher_init(&c, {name.c_str(), &o}, al, {this, [](void* u, a0_packet_t p) {
        ((Watch*)u)->deliver(seq_of(std::string((char*)p.payload.data, p.payload.size)));
      }});
    }
    if (kind == 1) return guard([&] { x = a0::CfgWatcher(a0::CfgTopic(name, xfile_opts(size)), [this](a0::Packet p) { deliver(seq_of(std::string(p.payload().data(), p.payload().size()))); }); });
    return guard([&] { x = a0::CfgWatcher(a0::CfgTopic(name, xfile_opts(size)), [this](const json& j) { deliver(seq_of(j.dump())); }); });
  }
  void close() {
    if (kind == 0) a0_cfg_watcher_close(&c);
    else x = a0::CfgWatcher();
    closed = true;
    if (inside) w->complain("running-after-close", "a watcher callback was still running after closing");
  }
};

void run_watch(Ctx& x) {
  Rng& r = x.rng;
  std::string name = strf("w%lu", x.case_id), path = topic_file(x, name);
  size_t size = r.chance(50) ? 2000 + r.below(4000) : 200000;
  int nwriters = 1 + (int)r.below(2), nreaders = (int)r.below(3), nwatch = 1 + (int)r.below(3);
  int per = 1 + (int)r.below(r.chance(30) ? 5 : 60);
  uint64_t key = r.next();
  bool fork_writers = r.chance(30);
  bool block_first = r.chance(40);
  struct Shared {
    std::atomic<int> next;
    std::atomic<uint64_t> done_t1[2][128], start_t0[2][128];
    std::atomic<int> go;
  };
  // Values: with one writer the value says its position; with two, they take a lock so that it does too.
  Shared* sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  struct Op {
    std::atomic<uint64_t> t0, t1;
  };
  int total = nwriters * per;
  Op* ops = (Op*)mmap(0, sizeof(Op) * (total + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  pthread_mutex_t* pm = (pthread_mutex_t*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  pthread_mutexattr_t at;
  pthread_mutexattr_init(&at);
  pthread_mutexattr_setpshared(&at, PTHREAD_PROCESS_SHARED);
  pthread_mutex_init(pm, &at);
  {
    a0_file_t f;
    auto o = file_opts(size);
    if (a0_file_open(path.c_str(), &o, &f)) x.harness_error("cannot create the topic");
    a0_file_close(&f);
  }
  x.desc(strf("watch | %d writers%s x %d, %d readers, %d watchers, topic of %zu", nwriters, fork_writers ? " in processes" : "", per, nreaders, nwatch, size));
  World w;
  auto write_all = [&](int wi) {
    Rng lr(mix(key, 10 + wi));
    Handle h;
    h.kind = (int)lr.below(4);
    if (h.open(x, name, size)) return 1;
    while (!sh->go) sched_yield();
    int rc = 0;
    for (int i = 0; i < per; i++) {
      // The order of the values is the order of the writes: the number is drawn and written under one lock.
      pthread_mutex_lock(pm);
      int n = sh->next.fetch_add(1);
      json j = {{"v", n}, {"pad", std::string(lr.below(200), 'p')}};
      bool wr = false;
      char id[37];
      ops[n].t0 = now_ns();
      a0_err_t e = lr.chance(20) ? h.go(lr, MERGE, json{{"v", n}}.dump(), &wr, id) : h.go(lr, WRITE, j.dump(), &wr, id);
      ops[n].t1 = now_ns();
      pthread_mutex_unlock(pm);
      if (e) rc = 2;
      int burst = (int)lr.below(10);
      if (burst == 0) usleep(lr.below(300));
      else if (burst < 3) sched_yield();
    }
    h.close();
    return rc;
  };
  std::vector<pid_t> kids;
  if (fork_writers)
    for (int i = 0; i < nwriters; i++) {
      pid_t p = fork();
      if (!p) _exit(write_all(i));
      kids.push_back(p);
    }
  std::vector<std::unique_ptr<Watch>> ws;
  auto add_watch = [&](Rng& lr) {
    ws.emplace_back(new Watch);
    Watch& wt = *ws.back();
    wt.w = &w;
    wt.kind = (int)lr.below(3);
    wt.slow = lr.chance(50) ? 0 : 1 + (int)lr.below(400);
    wt.r = Rng(lr.next());
    a0_err_t e = wt.open(name, size);
    if (e) w.complain("open", "opening a watcher failed: " + errname(e));
  };
  std::vector<std::thread> ts;
  std::atomic<int> writers_left{nwriters};
  std::atomic<int> wfail{0};
  std::atomic<uint64_t> reads{0}, unset{0}, blocked_reads{0};
  auto reader = [&](int ri) {
    Rng lr(mix(key, 50 + ri));
    a0_cfg_t c;
    a0::Cfg xc;
    bool cpp = lr.chance(40);
    auto o = file_opts(size);
    a0_err_t e = cpp ? guard([&] { xc = a0::Cfg(a0::CfgTopic(name, xfile_opts(size))); }) : a0_cfg_init(&c, {name.c_str(), &o});
    if (e) return w.complain("open", "opening a reader failed");
    std::vector<uint8_t> buf;
    a0_alloc_t al = {&buf, [](void* u, size_t n, a0_buf_t* b) { auto* v = (std::vector<uint8_t>*)u; v->resize(n + 1); *b = {v->data(), n}; return A0_OK; }, nullptr};
    long last = -1;
    for (int i = 0; writers_left > 0 || i < 3; i++) {
      if (i > 4000) break;
      int how = block_first && i == 0 ? 1 + (int)lr.below(2) : (int)lr.below(3);
      uint64_t t0 = now_ns();
      uint64_t deadline = t0 + lr.below(3) * 400000;
      a0_packet_t p{};
      std::string pay;
      a0_time_mono_t tm;
      tm.ts = {(time_t)(deadline / 1000000000), (long)(deadline % 1000000000)};
      if (how == 1 && total == 0) how = 0;
      a0::TimeMono xt;
      xt.c = std::make_shared<a0_time_mono_t>(tm);
      if (cpp) {
        e = guard([&] {
          a0::Packet xp = how == 0 ? xc.read() : how == 1 ? xc.read_blocking() : xc.read_blocking(xt);
          pay = std::string(xp.payload().data(), xp.payload().size());
        });
        if (e == A0_ERR_CUSTOM_MSG && how == 2) e = A0_ERR_SYS;
      } else {
        e = how == 0 ? a0_cfg_read(&c, al, &p) : how == 1 ? a0_cfg_read_blocking(&c, al, &p) : a0_cfg_read_blocking_timeout(&c, al, &tm, &p);
        if (!e) pay = std::string((char*)p.payload.data, p.payload.size);
      }
      uint64_t t1 = now_ns();
      long done = -1;  // newest write completed before the read began
      for (int k = std::min<int>(sh->next, total) - 1; k >= 0; k--) {
        uint64_t d = ops[k].t1;
        if (d && d < t0) {
          done = k;
          break;
        }
      }
      static const char* kHow[] = {"read", "blocking read", "timed read"};
      if (e) {
        unset++;
        if (how == 0) {
          if (e != A0_ERR_AGAIN) w.complain("read-error", strf("a read failed with %s", errname(e).c_str()));
          else if (done >= 0) w.complain("unset", strf("a read reported that nothing is available although value %ld had been written", done));
        } else if (how == 1) w.complain("read-error", strf("a blocking read failed with %s", errname(e).c_str()));
        else {
          if (!cpp && !(e == A0_ERR_SYS && a0_err_syscode == ETIMEDOUT)) w.complain("read-error", strf("a timed read failed with %s", errname(e).c_str()));
          if (t1 < deadline) w.complain("early-timeout", strf("a timed read gave up %lu ns before its deadline", deadline - t1));
        }
        continue;
      }
      reads++;
      if (how) blocked_reads++;
      long v = Watch::seq_of(pay);
      if (v < 0 || v >= total) w.complain("value", strf("a %s returned something never written: %s", kHow[how], pay.substr(0, 80).c_str()));
      else if (v < done) w.complain("stale", strf("a %s returned value %ld although %ld had been written before it began", kHow[how], v, done));
      else if (v < last) w.complain("went-back", strf("a %s returned value %ld after %ld", kHow[how], v, last));
      else if (ops[v].t0 > t1) w.complain("value", "a read returned a value written later");
      last = std::max(last, v);
    }
    if (cpp) xc = a0::Cfg();
    else a0_cfg_close(&c);
  };
  for (int i = 0; i < nreaders; i++) ts.emplace_back(reader, i);
  Rng mr(mix(key, 99));
  int early = (int)mr.below(nwatch + 1);
  for (int i = 0; i < early; i++) add_watch(mr);
  if (!fork_writers)
    for (int i = 0; i < nwriters; i++)
      ts.emplace_back([&, i] {
        if (write_all(i)) wfail++;
        writers_left--;
      });
  sh->go = 1;
  for (int i = early; i < nwatch; i++) {
    if (mr.chance(70)) usleep(mr.below(500));
    add_watch(mr);
  }
  // some are closed while values still come
  size_t closed_early = 0;
  for (auto& wt : ws)
    if (mr.chance(20)) {
      usleep(mr.below(300));
      wt->close();
      closed_early++;
    }
  for (pid_t k : kids) {
    int st;
    waitpid(k, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st)) wfail++;
    writers_left--;
  }
  for (auto& t : ts) t.join();
  if (wfail) w.complain("write-failed", "writing a value failed");
  // Every watcher still open comes to the last value.
  for (auto& wt : ws) {
    if (wt->closed) continue;
    std::unique_lock<std::mutex> g(w.m);
    while (wt->last < total - 1 && w.key.empty()) w.cv.wait(g);
  }
  for (auto& wt : ws)
    if (!wt->closed) wt->close();
  unlink(path.c_str());
  uint64_t h = 0, calls = 0, skipped = 0;
  if (w.key.empty())
    for (auto& wt : ws) {
      if (wt->got.empty()) continue;
      long first = wt->got[0].first, done = -1;
      for (int k = 0; k < total; k++)
        if (ops[k].t1 && ops[k].t1 < wt->opened) done = k;
      if (first < done) w.complain("stale", strf("a watcher's first value is %ld although %ld had been written before it was created", first, done));
      for (auto& g : wt->got) {
        if (g.first < 0 || g.first >= total) w.complain("value", "a watcher was called with something never written");
        h = mix(h, g.first);
        calls++;
      }
      skipped += total - wt->got.size();
    }
  if (!w.key.empty()) x.fail(w.key, w.what);
  x.eval(calls + reads);
  x.count("watcher_calls", calls);
  x.count("values_skipped", skipped);
  x.count("reads", reads);
  x.count("unset_reads", unset);
  x.count("closed_early", closed_early);
  if (calls) x.distinct(mix(h, mix(calls, reads)));
  x.sample(strf("%d values by %d writers, %d watchers called %lu times (%lu values skipped), %lu reads", total, nwriters, nwatch, calls, skipped, (uint64_t)reads));
  munmap(sh, sizeof(Shared));
  munmap(ops, sizeof(Op) * (total + 1));
  munmap(pm, 4096);
}

void run_case(Ctx& x) {
  if (x.mode == "merge") run_merge(x);
  else if (x.mode == "large") run_large(x);
  else run_watch(x);
}
}  // namespace

int main(int argc, char** argv) { return harness_main(argc, argv, run_case); }
