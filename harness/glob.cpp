// C19: path patterns against a reference matcher.
#include <a0/pathglob.h>
#include <a0/pathglob.hpp>

#include <memory>

#include "globref.hpp"

namespace {

std::string root;
std::string absolute(const std::string& s) { return s[0] == '/' ? s : root + "/" + s; }

struct Exact {  // a string with nothing readable after it
  std::unique_ptr<char[]> p;
  explicit Exact(const std::string& s) : p(new char[s.size() + 1]) { memcpy(p.get(), s.c_str(), s.size() + 1); }
};

std::string rand_seg(Rng& r, bool pattern) {
  static const char* names[] = {"a", "b", "ab", "aab", "abab", "a.a0", "x.pubsub.a0", "", ".", "..", "aaaaaaaab"};
  if (pattern && r.chance(20)) return "**";
  if (pattern && r.chance(12)) return "*";
  if (r.chance(35)) return names[r.below(11)];
  std::string s;
  int n = r.chance(90) ? r.below(7) : r.below(40);
  for (int i = 0; i < n; i++) s += pattern && r.chance(30) ? '*' : "ab.-"[r.below(r.chance(80) ? 2 : 4)];
  return s;
}

std::string rand_path(Rng& r, bool pattern) {
  int n = r.chance(80) ? r.range(1, 6) : r.chance(60) ? r.range(1, 14) : r.range(20, 45);
  std::string s = r.chance(75) ? "/" : "";
  for (int i = 0; i < n; i++) s += (i ? "/" : "") + rand_seg(r, pattern);
  if (r.chance(8)) s += "/";
  if (s.empty()) s = "a";
  return s;
}

// A path the pattern should (nearly) match.
std::string expand(Rng& r, const std::string& pat) {
  auto parts = split(absolute(pat));
  std::string out;
  for (size_t i = 0; i < parts.size(); i++) {
    if (parts[i] == "**" && i + 1 < parts.size()) {
      for (int k = r.below(r.chance(90) ? 4 : 12); k > 0; k--) out += "/" + (r.chance(40) ? parts[r.below(parts.size())] : rand_seg(r, false));
      continue;
    }
    out += "/";
    for (char c : parts[i]) {
      if (c != '*') out += c;
      else
        for (int k = r.below(4); k > 0; k--) out += "ab."[r.below(3)];
    }
  }
  if (r.chance(35) && out.size() > 1) {
    size_t at = r.range(1, out.size() - 1);
    switch (r.below(4)) {
      case 0: out.erase(at, 1); break;
      case 1: out[at] = "ab/."[r.below(4)]; break;
      case 2: out.insert(at, 1, "ab/"[r.below(3)]); break;
      case 3: out.erase(at); break;
    }
  }
  if (out.compare(0, root.size() + 1, root + "/") == 0 && out.size() > root.size() + 1 && out[root.size() + 1] != '/' && r.chance(50)) out = out.substr(root.size() + 1);
  return out;
}

void run_case(Ctx& ctx) {
  Rng& r = ctx.rng;
  ctx.desc("pattern");
  static const char* roots[] = {"/r", "/", "/dev/shm/alephzero", "/a/b/", "/a"};
  root = roots[r.below(5)];
  setenv("A0_ROOT", root.c_str(), 1);
  std::string pat = rand_path(r, true);
  auto pparts = split(absolute(pat));
  Exact ep(pat);
  auto glob = std::unique_ptr<a0_pathglob_t>(new a0_pathglob_t);
  a0_err_t e = a0_pathglob_init(glob.get(), ep.p.get());
  ctx.log(strf("root %s pattern %s", root.c_str(), pat.c_str()));
  ctx.eval();
  if (pparts.size() > A0_PATHGLOB_MAX_DEPTH) {
    CHECK_OR_FAIL(ctx, e, "deep-pattern-accepted", "a pattern with %zu segments was accepted", pparts.size());
    ctx.count("too_deep");
    try {
      a0::PathGlob g(pat);
      ctx.fail("deep-pattern-accepted:cpp", strf("a pattern with %zu segments was accepted", pparts.size()));
    } catch (std::exception&) {
    }
    return;
  }
  CHECK_OR_FAIL(ctx, !e, "pattern-refused", "pattern %s under %s: %s", pat.c_str(), root.c_str(), errname(e).c_str());
  bool cpp = r.chance(25);
  a0::PathGlob g;
  if (cpp) g = a0::PathGlob(pat);
  uint64_t h = hash_str(pat);
  for (int i = 0; i < 12; i++) {
    std::string path = r.chance(75) ? expand(r, pat) : rand_path(r, false);
    if (path.empty()) path = "a";
    auto sparts = split(absolute(path));
    bool got = false;
    Exact es(path);
    e = a0_pathglob_match(glob.get(), es.p.get(), &got);
    ctx.eval();
    if (sparts.size() > A0_PATHGLOB_MAX_DEPTH) {
      CHECK_OR_FAIL(ctx, e, "deep-path-accepted", "a path with %zu segments was accepted", sparts.size());
      ctx.count("too_deep");
      continue;
    }
    bool want = ref_match(pparts, sparts);
    CHECK_OR_FAIL(ctx, !e, "match-error", "pattern %s path %s: %s", pat.c_str(), path.c_str(), errname(e).c_str());
    CHECK_OR_FAIL(ctx, got == want, want ? "missed" : "wrongly-matched", "root %s pattern %s path %s: %s", root.c_str(), pat.c_str(), path.c_str(), got ? "matched" : "not matched");
    if (cpp) CHECK_OR_FAIL(ctx, g.match(path) == want, "cpp-differs", "pattern %s path %s", pat.c_str(), path.c_str());
    ctx.count(want ? "matches" : "mismatches");
    if (want && pat.find('*') != std::string::npos) ctx.distinct(mix(h, hash_str(path)));
    if (want && pat.find("**/") != std::string::npos) ctx.sample(strf("root %s pattern %s matches %s", root.c_str(), pat.c_str(), path.c_str()));
  }
  a0_pathglob_close(glob.get());
}

// Every pattern and path up to a length over a small alphabet.
void all_case(Ctx& ctx) {
  ctx.desc("exhaustive");
  root = "/r";
  setenv("A0_ROOT", "/r", 1);
  const char* pa = "ab*/";
  const char* sa = "ab/";
  int plen = ctx.thorough ? 7 : 6, slen = ctx.thorough ? 7 : 6;
  // The case number spells the pattern's first characters.
  uint64_t n = 1;
  for (int i = 0; i < plen; i++) n *= 4;
  std::vector<std::string> paths;
  std::vector<std::vector<std::string>> pparts;
  for (int len = 0; len <= slen; len++) {
    uint64_t k = 1;
    for (int i = 0; i < len; i++) k *= 3;
    for (uint64_t x = 0; x < k; x++) {
      std::string s = "/";
      uint64_t y = x;
      for (int i = 0; i < len; i++) s += sa[y % 3], y /= 3;
      paths.push_back(s);
      pparts.push_back(split(s));
    }
  }
  for (uint64_t x = ctx.case_id; x < n; x += 256) {
    std::string pat = "/";
    uint64_t y = x;
    for (int i = 0; i < plen; i++) pat += pa[y % 4], y /= 4;
    // shorter patterns: cut at a position derived from the number
    for (int len = (x % 7 == 0) ? 0 : plen; len <= plen; len++) {
      std::string q = pat.substr(0, len + 1);
      auto qp = split(q);
      a0_pathglob_t g;
      CHECK_OR_FAIL(ctx, !a0_pathglob_init(&g, q.c_str()), "pattern-refused", "pattern %s", q.c_str());
      for (size_t i = (x / 256) % 3; i < paths.size(); i += 3) {
        bool got = false;
        a0_err_t e = a0_pathglob_match(&g, paths[i].c_str(), &got);
        bool want = ref_match(qp, pparts[i]);
        CHECK_OR_FAIL(ctx, !e && got == want, want ? "missed" : "wrongly-matched", "pattern %s path %s: %s", q.c_str(), paths[i].c_str(), got ? "matched" : "not matched");
        ctx.eval();
        ctx.count(want ? "matches" : "mismatches");
      }
      a0_pathglob_close(&g);
      ctx.tick();
    }
  }
}

void run_any(Ctx& ctx) { ctx.mode == "all" ? all_case(ctx) : run_case(ctx); }
}  // namespace

int main(int argc, char** argv) { return harness_main(argc, argv, run_any); }
