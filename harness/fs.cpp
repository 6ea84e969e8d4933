// C17 (mode paths): where paths lead and what removal removes.
// C37 (mode topic): topic names and templates to files.
// Runs as an unprivileged user: whatever goes astray can only reach the scratch directory.
#include <a0/cfg.hpp>
#include <a0/deadman.hpp>
#include <a0/env.h>
#include <a0/file.h>
#include <a0/file.hpp>
#include <a0/log.hpp>
#include <a0/prpc.hpp>
#include <a0/pubsub.hpp>
#include <a0/rpc.hpp>
#include <a0/topic.h>
#include <a0/topic.hpp>

#include "fsutil.hpp"

namespace {

std::string base;  // everything of a case is below this

std::string odd_name(Rng& r) {
  static const char* names[] = {"a", "b", "c", "d", "...", "..a", ".h", "x y", "*", "{topic}", "a.pubsub.a0", "-rf", "~", "\xc3\xa9", "aa", "b.txt"};
  if (r.chance(4)) return std::string(r.range(200, 255), 'n');
  return names[r.below(16)];
}

void put_file(const std::string& p, const std::string& c) {
  int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_EXCL | O_CLOEXEC, 0644);
  if (fd < 0) return;
  if (write(fd, c.data(), c.size()) < 0) abort();
  close(fd);
}

void grow(Rng& r, const std::string& dir, int depth, int& budget, const std::string& outside) {
  int n = r.range(0, depth > 3 ? 2 : 6);
  if (r.chance(2)) n = r.range(60, 300);
  for (int i = 0; i < n && budget-- > 0; i++) {
    std::string p = dir + "/" + (n > 20 ? strf("many%d", i) : odd_name(r));
    unsigned k = r.below(10);
    if (k < 4) {
      if (mkdir(p.c_str(), 0755) == 0 && depth < 6) grow(r, p, depth + 1, budget, outside);
    } else if (k < 8) {
      put_file(p, strf("c%lu", (unsigned long)r.below(1000)));
    } else {
      std::vector<std::string> targets = {outside, outside + "/keep", "a", "..", ".", "../a", "nowhere", "/nowhere/at/all", dir, base + "/out"};
      if (symlink(r.pick(targets).c_str(), p.c_str())) {}
    }
  }
}

// Different ways to write the same path.
std::string respell(Rng& r, const std::string& p, bool dir) {
  std::string s;
  for (size_t i = 0; i < p.size(); i++) {
    s += p[i];
    if (p[i] == '/' && r.chance(15)) s += r.chance(50) ? "/" : "./";
  }
  if (s[0] != '/' && r.chance(15)) s = "./" + s;
  if (dir && r.chance(20)) s += "/";
  return s;
}

void paths_case(Ctx& ctx) {
  Rng& r = ctx.rng;
  ctx.desc("paths");
  base = ctx.scratch + "/u/c";
  mkdir(base.c_str(), 0755);
  for (auto d : {"/root", "/cwd", "/out", "/out/a"}) mkdir((base + d).c_str(), 0755);
  put_file(base + "/out/keep", "keep");
  put_file(base + "/out/a/b", "keep");
  int budget = 400;
  uint64_t shape = r.next();
  {
    Rng g(shape);
    grow(g, base + "/root", 0, budget, base + "/out");
  }
  budget = 400;
  {
    Rng g(r.chance(50) ? shape : r.next());  // often a twin of the root in the current directory
    grow(g, base + "/cwd", 0, budget, base + "/out");
  }
  if (chdir((base + "/cwd").c_str())) ctx.harness_error("chdir");
  int root_kind = r.chance(85) ? 0 : r.range(1, 2);
  std::string root = base + "/root";
  setenv("A0_ROOT", root_kind == 0 ? (r.chance(80) ? root : root + "/").c_str() : root_kind == 1 ? "" : r.chance(50) ? "root" : "../root", 1);
  uint64_t h = mix(shape, root_kind);
  int ops = r.range(1, 5);
  for (int i = 0; i < ops; i++) {
    Tree before = scan(base), want = before;
    // a path below root, relative or not, existing or not
    std::vector<std::string> cands;
    for (auto& x : before)
      if (x.first.compare(0, 6, "/root/") == 0) cands.push_back(x.first.substr(6));
    std::vector<std::string> dirs;
    for (auto& c : cands)
      if (before["/root/" + c].type == 'd') dirs.push_back(c);
    std::string rel = dirs.size() && r.chance(40) ? r.pick(dirs) : cands.size() && r.chance(80) ? r.pick(cands) : odd_name(r);
    if (r.chance(10)) rel = odd_name(r) + "/" + odd_name(r);
    bool abs = r.chance(35);
    std::string key = "/root/" + rel;
    bool there = before.count(key);
    char type = there ? before[key].type : 0;
    std::string spelled = respell(r, abs ? root + "/" + rel : rel, type == 'd');
    bool empty_path = r.chance(3);
    if (empty_path) spelled = "", abs = false;
    bool usable = !empty_path && (abs || root_kind == 0);
    int op = r.below(5);
    bool cpp = r.chance(30);
    static const char* names[] = {"remove", "remove_all", "iterate", "open", "iterate"};
    std::string label = strf("%s%s(%s)%s", cpp ? "cpp " : "", names[op], spelled.substr(0, 200).c_str(), root_kind ? " with an unusable root" : "");
    ctx.log(label);
    a0_err_t e = A0_OK;
    bool threw = false;
    // the parents of key, as directories or links to them
    bool via_link = false;
    for (size_t at = key.find('/', 6); at != std::string::npos; at = key.find('/', at + 1))
      if (before.count(key.substr(0, at)) && before[key.substr(0, at)].type != 'd') via_link = true;
    bool has_children = false;
    for (auto& x : before)
      if (x.first.compare(0, key.size() + 1, key + "/") == 0) has_children = true;
    if (op == 0) {
      try {
        if (cpp) a0::File::remove(spelled);
        else e = a0_file_remove(spelled.c_str());
      } catch (std::exception&) {
        threw = true;
      }
      bool ok = usable && there && (type != 'd' || !has_children);
      bool failed = e || threw;
      if (ok) want.erase(key);
      if (ok) CHECK_OR_FAIL(ctx, !failed, "remove-failed", "%s: %s", label.c_str(), errname(e).c_str());
      else if (!cpp || (usable && there)) CHECK_OR_FAIL(ctx, failed || via_link, "remove-claimed", "%s reported success", label.c_str());
      if (via_link) want = scan(base);
    } else if (op == 1) {
      if (via_link) continue;
      try {
        if (cpp) a0::File::remove_all(spelled);
        else e = a0_file_remove_all(spelled.c_str());
      } catch (std::exception&) {
        threw = true;
      }
      bool failed = e || threw;
      if (usable && type == 'd') {
        CHECK_OR_FAIL(ctx, !failed, "remove-all-failed", "%s: %s", label.c_str(), errname(e).c_str());
        want.erase(key);
        bool link = false;
        for (auto it = want.begin(); it != want.end();) {
          if (it->first.compare(0, key.size() + 1, key + "/") == 0) {
            link |= it->second.type == 'l';
            it = want.erase(it);
          } else ++it;
        }
        ctx.count("trees_removed");
        if (link) ctx.count("trees_with_links_removed");
      } else if (usable && (type == 'f' || type == 'l')) {  // refused, or just that entry
        if (!failed) want.erase(key);
        if (type == 'l') ctx.count("links_not_followed");
      } else {
        CHECK_OR_FAIL(ctx, failed, "remove-all-claimed", "%s reported success", label.c_str());
      }
    } else if (op == 2 || op == 4) {
      if (type == 'l' || via_link) continue;
      a0_file_iter_t it;
      e = a0_file_iter_init(&it, spelled.c_str());
      if (usable && type == 'd') {
        CHECK_OR_FAIL(ctx, !e, "iterate-failed", "%s: %s", label.c_str(), errname(e).c_str());
        std::map<std::string, int> seen;
        a0_file_iter_entry_t en;
        while (!(e = a0_file_iter_next(&it, &en))) {
          std::string fn = en.filename, full = en.fullpath;
          CHECK_OR_FAIL(ctx, !seen[fn]++, "iterate-twice", "%s shows %s twice", label.c_str(), fn.c_str());
          auto f = before.find(key + "/" + fn);
          CHECK_OR_FAIL(ctx, f != before.end(), "iterate-phantom", "%s shows %s", label.c_str(), fn.c_str());
          struct stat a, b;
          bool same = full[0] == '/' && !lstat(full.c_str(), &a) && !lstat((base + f->first).c_str(), &b) && a.st_ino == b.st_ino && a.st_dev == b.st_dev;
          CHECK_OR_FAIL(ctx, same, "iterate-path", "%s gives %s for %s", label.c_str(), full.substr(0, 300).c_str(), fn.c_str());
          int dt = f->second.type == 'd' ? DT_DIR : f->second.type == 'l' ? DT_LNK : DT_REG;
          CHECK_OR_FAIL(ctx, en.d_type == dt, "iterate-type", "%s gives type %d for %s", label.c_str(), en.d_type, fn.c_str());
        }
        CHECK_OR_FAIL(ctx, e == A0_ERR_ITER_DONE, "iterate-end", "%s ends with %s", label.c_str(), errname(e).c_str());
        size_t n = 0;
        for (auto& x : before)
          if (x.first.compare(0, key.size() + 1, key + "/") == 0 && x.first.find('/', key.size() + 1) == std::string::npos) n++;
        CHECK_OR_FAIL(ctx, seen.size() == n, "iterate-missed", "%s shows %zu of %zu entries", label.c_str(), seen.size(), n);
        a0_file_iter_close(&it);
        ctx.count("directories_iterated");
      } else {
        CHECK_OR_FAIL(ctx, e, "iterate-claimed", "%s reported success", label.c_str());
      }
    } else {
      if (via_link) continue;
      struct stat at;
      bool dangling = type == 'l' && stat((base + key).c_str(), &at);
      if (type == 'l' && !dangling && !S_ISDIR(at.st_mode)) continue;  // opens whatever it leads to
      a0_file_options_t o = A0_FILE_OPTIONS_DEFAULT;
      o.create_options.size = r.range(1, 100);
      o.create_options.mode = r.chance(50) ? 0644 : 0600;
      o.create_options.dir_mode = r.chance(50) ? 0755 : 0700;
      a0_file_t f;
      e = a0_file_open(spelled.c_str(), &o, &f);
      // makedirs creates parents
      if (usable && (type == 'f' || !there)) {
        CHECK_OR_FAIL(ctx, !e, "open-failed", "%s: %s", label.c_str(), errname(e).c_str());
        if (!there) {
          for (size_t at = key.find('/', 6); at != std::string::npos; at = key.find('/', at + 1))
            if (!want.count(key.substr(0, at))) want[key.substr(0, at)] = {'d', "", o.create_options.dir_mode};
          want[key] = {'f', std::string(o.create_options.size, 0), o.create_options.mode};
        }
        struct stat a, b;
        CHECK_OR_FAIL(ctx, f.path && f.path[0] == '/' && !lstat(f.path, &a) && !fstat(f.fd, &b) && a.st_ino == b.st_ino, "open-path", "%s: the path of the opened file is %s", label.c_str(), f.path ? f.path : "null");
        CHECK_OR_FAIL(ctx, f.arena.buf.size == want[key].what.size() && !memcmp(f.arena.buf.data, want[key].what.data(), f.arena.buf.size), "open-content", "%s: the mapping is not the file", label.c_str());
        a0_file_close(&f);
        ctx.count("opened");
      } else {
        CHECK_OR_FAIL(ctx, e, "open-claimed", "%s reported success", label.c_str());
        if (dangling) ctx.count("dangling_links_refused");
      }
    }
    Tree after = scan(base);
    std::string d = diff(want, after);
    CHECK_OR_FAIL(ctx, d.empty(), strf("effects:%s", names[op]), "%s:%s", label.c_str(), d.c_str());
    ctx.eval();
    if (!usable) ctx.count("unusable_paths_refused");
    h = mix(h, mix(hash_str(spelled), op));
    if (there) ctx.distinct(h);
  }
  ctx.sample(ctx.trace);
}

// Directories whose full path is about as long as a path may be.
void long_case(Ctx& ctx) {
  Rng& r = ctx.rng;
  ctx.desc("long");
  base = ctx.scratch + "/u/c";
  mkdir(base.c_str(), 0755);
  std::string root = base + "/root";
  mkdir(root.c_str(), 0755);
  setenv("A0_ROOT", root.c_str(), 1);
  if (chdir(base.c_str())) ctx.harness_error("chdir");
  size_t target = r.chance(70) ? r.range(3800, 4300) : r.range(1000, 3800);
  bool deep = r.chance(30);  // rather than wide
  if (deep) target = root.size() + r.range(200, 1500);
  int fd = open(root.c_str(), O_RDONLY | O_DIRECTORY | O_CLOEXEC);
  std::string rel, first;
  size_t len = root.size();
  while (len + 2 < target) {
    std::string n(std::min<size_t>(target - len - 1, deep ? r.range(3, 8) : r.range(100, 255)), 'd');
    if (mkdirat(fd, n.c_str(), 0755)) break;
    int next = openat(fd, n.c_str(), O_RDONLY | O_DIRECTORY | O_CLOEXEC);
    close(fd);
    fd = next;
    if (rel.size()) rel += "/";
    else first = n;
    rel += n;
    len = root.size() + 1 + rel.size();
  }
  int files = r.range(0, 4);
  for (int i = 0; i < files; i++) {
    std::string n(r.range(1, 255), 'e' + i);
    int f = openat(fd, n.c_str(), O_WRONLY | O_CREAT | O_CLOEXEC, 0644);
    if (f >= 0) close(f);
  }
  if (r.chance(30)) mkdirat(fd, std::string(r.range(1, 255), 'z').c_str(), 0755);
  close(fd);
  ctx.log(strf("a directory path of %zu bytes with %d files", len, files));
  Tree before = scan(base);
  a0_file_iter_t* it = new a0_file_iter_t;
  std::string spelled = r.chance(50) ? rel : root + "/" + rel;
  a0_err_t e = a0_file_iter_init(it, spelled.c_str());
  if (!e) {
    a0_file_iter_entry_t en;
    size_t n = 0;
    while (!(e = a0_file_iter_next(it, &en)) && n <= 10) {
      n++;
      std::string full = root + "/" + rel + "/" + en.filename;
      CHECK_OR_FAIL(ctx, full == en.fullpath, "iterate-path", "a long path comes out as %zu bytes instead of %zu", strlen(en.fullpath), full.size());
    }
    a0_file_iter_close(it);
    if (e == A0_ERR_ITER_DONE) {
      size_t have = 0;
      for (auto& x : before)
        if (x.first.compare(0, rel.size() + 7, "/root/" + rel + "/") == 0) have++;
      CHECK_OR_FAIL(ctx, n == have, "iterate-missed", "a directory with a path of %zu bytes shows %zu of %zu entries", len, n, have);
    }
    ctx.count("long_iterated");
  }
  delete it;
  e = a0_file_remove_all(r.chance(50) ? first.c_str() : (root + "/" + first).c_str());
  Tree after = scan(base), want = before;
  if (!e) {
    for (auto i = want.begin(); i != want.end();) i = i->first.compare(0, 7, "/root/d") == 0 ? want.erase(i) : ++i;
    std::string d = diff(want, after);
    CHECK_OR_FAIL(ctx, d.empty(), "effects:remove_all-long", "removing a tree with paths of %zu bytes reported success:%s", len, d.c_str());
    ctx.count("long_removed");
  } else {
    CHECK_OR_FAIL(ctx, len + 257 > PATH_MAX, "remove-all-failed", "removing a tree with paths of %zu bytes: %s", len, errname(e).c_str());
    ctx.count("long_refused");
  }
  if (deep) ctx.count("deep_trees");
  ctx.eval();
  ctx.distinct(mix(len, files));
}

// ---- topics ----

std::string subst(const std::string& tmpl, const std::string& name) {
  size_t at = tmpl.find("{topic}");
  return tmpl.substr(0, at) + name + tmpl.substr(at + 7);
}
// as the file system sees it
std::string normal(const std::string& p) {
  std::string s;
  size_t i = 0;
  while (i < p.size()) {
    size_t j = p.find('/', i);
    if (j == std::string::npos) j = p.size();
    std::string seg = p.substr(i, j - i);
    if (seg.size() && seg != ".") s += "/" + seg;
    i = j + 1;
  }
  return s;
}

struct Kind {
  const char* env;
  const char* def;
};
const Kind kinds[] = {{"A0_TOPIC_TMPL_PUBSUB", "{topic}.pubsub.a0"}, {"A0_TOPIC_TMPL_RPC", "{topic}.rpc.a0"}, {"A0_TOPIC_TMPL_PRPC", "{topic}.prpc.a0"},
                      {"A0_TOPIC_TMPL_LOG", "{topic}.log.a0"},       {"A0_TOPIC_TMPL_CFG", "{topic}.cfg.a0"}, {"A0_TOPIC_TMPL_DEADMAN", "{topic}.deadman"}};

std::string topic_name(Rng& r) {
  static const char* parts[] = {"a", "b", "ab", "a.b", "topic", "{topic}", "{topic", "}", "*", "**", "x y", "a/b", "b/a", "a/b/c", ".h", "...", "./a", "a//b", "%s", "{", "A", "a.pubsub.a0"};
  std::string s = parts[r.below(22)];
  while (r.chance(30)) s += parts[r.below(22)];
  if (r.chance(3)) s = std::string(r.range(150, 220), 'n');
  return s;
}
std::string template_of(Rng& r, const std::string& abs_dir) {
  static const char* pre[] = {"", "", "p_", "d/", "d/e/", "{", "}", "x{topi", "./", "d//"};
  static const char* suf[] = {"", ".a0", ".x", "/f", "}", "{topic}", "_{topic}_", ".pubsub.a0", "/a/b"};
  std::string t = std::string(pre[r.below(10)]) + "{topic}" + suf[r.below(9)];
  if (r.chance(15)) t = abs_dir + "/" + t;
  return t;
}

void topic_case(Ctx& ctx) {
  Rng& r = ctx.rng;
  ctx.desc("topics");
  base = ctx.scratch + "/u/c";
  mkdir(base.c_str(), 0755);
  mkdir((base + "/cwd").c_str(), 0755);
  mkdir((base + "/abs").c_str(), 0755);
  if (chdir((base + "/cwd").c_str())) ctx.harness_error("chdir");
  std::set<std::string> files;  // paths relative to base that exist
  auto expect_tree = [&](const std::string& label) {
    Tree t = scan(base);
    std::set<std::string> got;
    for (auto& x : t)
      if (x.second.type != 'd') got.insert(x.first);
    for (auto& f : files) CHECK_OR_FAIL(ctx, got.count(f), "missing-file", "%s: no file at %s", label.c_str(), f.c_str());
    for (auto& f : got) CHECK_OR_FAIL(ctx, files.count(f), "other-file", "%s: a file at %s", label.c_str(), f.c_str());
  };
  auto dirs = [&] {
    size_t n = 0;
    for (auto& x : scan(base)) n += x.second.type == 'd';
    return n;
  };
  for (auto& k : kinds) unsetenv(k.env);
  int n = r.range(2, 8);
  uint64_t h = 0;
  std::vector<std::pair<std::string, std::string>> used;
  for (int i = 0; i < n; i++) {
    std::string root = base + (r.chance(80) ? "/r1" : "/r2/x");
    setenv("A0_ROOT", root.c_str(), 1);
    int kind = r.below(8);  // 6, 7: the topic functions themselves
    std::string tmpl, name = topic_name(r);
    if (kind < 6) {
      if (r.chance(55)) {
        tmpl = kinds[kind].def;
        unsetenv(kinds[kind].env);
      } else {
        tmpl = template_of(r, base + "/abs");
        setenv(kinds[kind].env, tmpl.c_str(), 1);
      }
      // overrides of other kinds must not matter
      int other = r.below(6);
      if (other != kind && r.chance(30)) setenv(kinds[other].env, template_of(r, base + "/abs").c_str(), 1);
    } else {
      tmpl = template_of(r, base + "/abs");
    }
    if (used.size() && r.chance(35)) {
      auto& u = r.pick(used);
      name = u.second;
      if (kind >= 6) tmpl = u.first;
    }
    int bad = r.chance(25) ? r.range(1, 5) : 0;
    const char* cname = name.c_str();
    const char* ctmpl = tmpl.c_str();
    std::string alt;
    if (bad == 1) cname = nullptr;
    if (bad == 2) cname = "";
    if (bad == 3) alt = (r.chance(50) ? "/" : base + "/abs/") + name, cname = alt.c_str();
    if (bad == 4) {
      alt = std::vector<std::string>{"", "topic", "{topic", "{Topic}", "topic}", "{ topic}", "{}", "d/f"}[r.below(8)];
      ctmpl = alt.c_str();
      if (kind < 6) setenv(kinds[kind].env, ctmpl, 1);
    }
    if (bad == 5) {
      if (kind < 6) bad = 0;
      else ctmpl = nullptr;
    }
    std::string abs = bad ? "" : subst(tmpl, name);
    if (!bad && abs[0] != '/') abs = root + "/" + abs;
    std::string norm = bad ? "" : normal(abs);
    if (!bad) {
      // not a file system limit, nor a file where a directory has to be
      bool clash = abs.back() == '/' || norm.size() > 3000 || abs.find("/.", abs.size() - 2) != std::string::npos;
      std::string key = norm.substr(base.size());
      for (size_t a = 0; a <= norm.size();) {
        size_t b = norm.find('/', a);
        if (b == std::string::npos) b = norm.size();
        if (b - a > 240) clash = true;
        a = b + 1;
      }
      for (auto& f : files)
        if (key.compare(0, f.size() + 1, f + "/") == 0 || f.compare(0, key.size() + 1, key + "/") == 0) clash = true;
      Tree t = scan(base);
      if (t.count(key) && t[key].type == 'd') clash = true;
      if (clash) continue;
      files.insert(key);
      used.push_back({tmpl, name});
    }
    std::string label = strf("kind %d template %s name %s", kind, ctmpl ? ctmpl : "(null)", cname ? cname : "(null)");
    ctx.log(label);
    size_t ndirs = dirs();
    a0_file_options_t o = A0_FILE_OPTIONS_DEFAULT;
    o.create_options.size = 4096;
    a0::File::Options co = a0::File::Options::DEFAULT;
    co.create_options.size = 4096;
    a0_err_t e = A0_OK;
    std::string cpp_name = cname ? cname : "";
    bool cpp = cname && r.chance(60);
    try {
      switch (kind) {
        case 0:
          if (cpp && r.chance(50)) a0::Subscriber x({cpp_name, co}, a0::INIT_AWAIT_NEW, a0::ITER_NEXT, [](a0::Packet) {});
          else if (cpp) a0::Publisher x({cpp_name, co});
          else {
            a0_publisher_t x;
            if (!(e = a0_publisher_init(&x, {cname, &o}))) a0_publisher_close(&x);
          }
          break;
        case 1:
          if (cpp && r.chance(50)) a0::RpcServer x({cpp_name, co}, [](a0::RpcRequest) {}, [](a0::string_view) {});
          else if (cpp) a0::RpcClient x({cpp_name, co});
          else {
            a0_rpc_client_t x;
            if (!(e = a0_rpc_client_init(&x, {cname, &o}, a0_alloc_t{nullptr, [](void*, size_t n, a0_buf_t* b) { static char big[1 << 16]; *b = {(uint8_t*)big, n}; return (a0_err_t)A0_OK; }, nullptr}))) a0_rpc_client_close(&x);
          }
          break;
        case 2:
          if (r.chance(50)) a0::PrpcServer x({cpp_name, co}, [](a0::PrpcConnection) {}, [](a0::string_view) {});
          else a0::PrpcClient x({cpp_name, co});
          break;
        case 3:
          if (cpp && r.chance(50)) a0::LogListener x({cpp_name, co}, a0::LogLevel::DBG, [](a0::Packet) {});
          else if (cpp) a0::Logger x({cpp_name, co});
          else {
            a0_logger_t x;
            if (!(e = a0_logger_init(&x, {cname, &o}))) a0_logger_close(&x);
          }
          break;
        case 4:
          if (cpp && r.chance(50)) a0::CfgWatcher x({cpp_name, co}, std::function<void(a0::Packet)>([](a0::Packet) {}));
          else if (cpp) a0::Cfg x({cpp_name, co});
          else {
            a0_cfg_t x;
            if (!(e = a0_cfg_init(&x, {cname, &o}))) a0_cfg_close(&x);
          }
          break;
        case 5:
          if (cpp) a0::Deadman x(cpp_name);
          else {
            a0_deadman_t x;
            if (!(e = a0_deadman_init(&x, {cname}))) a0_deadman_close(&x);
          }
          break;
        default: {
          const char* path = nullptr;
          e = a0_topic_path(ctmpl, cname, &path);
          if (bad) {
            CHECK_OR_FAIL(ctx, e == A0_ERR_BAD_TOPIC, "bad-accepted", "%s: path gives %s", label.c_str(), errname(e).c_str());
          } else {
            CHECK_OR_FAIL(ctx, !e && subst(tmpl, name) == path, "wrong-path", "%s: path is %s", label.c_str(), path ? path : "null");
            free((void*)path);
            CHECK_OR_FAIL(ctx, a0::topic_path(tmpl, name) == subst(tmpl, name), "wrong-path:cpp", "%s", label.c_str());
          }
          a0_file_t f;
          e = a0_topic_open(ctmpl, cname, &o, &f);
          if (!e) {
            a0_file_t f2;
            a0_err_t e2 = a0_topic_open(ctmpl, cname, &o, &f2);
            CHECK_OR_FAIL(ctx, !e2, "second-open", "%s: the second opening fails with %s", label.c_str(), errname(e2).c_str());
            f.arena.buf.data[7]++;
            CHECK_OR_FAIL(ctx, f.arena.buf.data[7] == f2.arena.buf.data[7] && f.stat.st_ino == f2.stat.st_ino && f.stat.st_dev == f2.stat.st_dev, "not-shared", "%s: two openings do not share a file", label.c_str());
            f.arena.buf.data[7]--;
            a0_file_close(&f2);
            a0_file_close(&f);
            ctx.count("shared");
          }
        }
      }
    } catch (CaseFail&) {
      throw;
    } catch (std::exception& ex) {
      e = A0_ERR_CUSTOM_MSG;
    }
    if (bad) {
      CHECK_OR_FAIL(ctx, e, "bad-accepted", "%s was accepted", label.c_str());
      CHECK_OR_FAIL(ctx, dirs() == ndirs, "bad-created", "%s created a directory", label.c_str());
      ctx.count("bad_refused");
      if (kind < 6) unsetenv(kinds[kind].env);
    } else {
      CHECK_OR_FAIL(ctx, !e, "refused", "%s: %s", label.c_str(), errname(e).c_str());
      ctx.count("opened");
    }
    expect_tree(label);
    ctx.eval();
    h = mix(h, hash_str(label));
    ctx.distinct(h);
  }
  for (auto& k : kinds) unsetenv(k.env);
  ctx.sample(ctx.trace);
}

void run_case(Ctx& ctx) {
  struct Cleanup {
    Ctx& c;
    ~Cleanup() {
      if (chdir("/")) {}
      int fd = open((c.scratch + "/u").c_str(), O_RDONLY | O_DIRECTORY | O_CLOEXEC);
      wipe(fd, "c");
      close(fd);
      setenv("A0_ROOT", (c.scratch + "/u/none").c_str(), 1);
    }
  } cleanup{ctx};
  if (ctx.mode == "topic") topic_case(ctx);
  else if (ctx.mode == "long") long_case(ctx);
  else paths_case(ctx);
}

}  // namespace
int main(int argc, char** argv) { return harness_main(argc, argv, run_case, become_nobody); }
