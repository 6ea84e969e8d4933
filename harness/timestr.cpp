// C29: timestamps as text, and adding durations.
#include <a0/time.h>
#include <a0/time.hpp>

#include <memory>

#include "common.hpp"

namespace {

const int64_t kNs = 1000000000;
const int64_t kMonoMax = 9999999999;  // seconds that fit 19 digits

int64_t days_from_civil(int64_t y, int m, int d) {
  y -= m <= 2;
  int64_t era = (y >= 0 ? y : y - 399) / 400;
  int64_t yoe = y - era * 400, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
  return era * 146097 + doe - 719468;
}
void civil_from_days(int64_t z, int64_t& y, int& m, int& d) {
  z += 719468;
  int64_t era = (z >= 0 ? z : z - 146096) / 146097, doe = z - era * 146097;
  int64_t yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
  y = yoe + era * 400;
  int64_t doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
  d = doy - (153 * mp + 2) / 5 + 1;
  m = mp < 10 ? mp + 3 : mp - 9;
  y += m <= 2;
}
int month_len(int64_t y, int m) {
  static const int n[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  return n[m - 1] + (m == 2 && (y % 4 == 0 && (y % 100 || y % 400 == 0)));
}
const int64_t kWallMin = days_from_civil(1000, 1, 1) * 86400, kWallMax = days_from_civil(10000, 1, 1) * 86400 - 1;

std::string wall_text(int64_t sec, int64_t ns) {
  int64_t days = sec >= 0 ? sec / 86400 : -((-sec + 86399) / 86400), rem = sec - days * 86400, y;
  int m, d;
  civil_from_days(days, y, m, d);
  return strf("%04ld-%02d-%02dT%02ld:%02ld:%02ld.%09ld-00:00", y, m, d, rem / 3600, rem / 60 % 60, rem % 60, ns);
}

// 1: the instant in *sec/*ns.  0: malformed.  -1: a date or time that does not exist but that some accept.
int wall_parse(const std::string& s, int64_t* sec, int64_t* ns) {
  static const std::string form = "dddd-dd-ddTdd:dd:dd.ddddddddd-00:00";
  for (size_t i = 0; i < form.size(); i++)
    if (form[i] == 'd' ? s[i] < '0' || s[i] > '9' : s[i] != form[i]) return 0;
  auto num = [&](int at, int n) { return strtoll(s.substr(at, n).c_str(), 0, 10); };
  int64_t y = num(0, 4), m = num(5, 2), d = num(8, 2), h = num(11, 2), mi = num(14, 2), se = num(17, 2);
  if (m < 1 || m > 12 || d < 1 || d > 31 || h > 24 || mi > 60 || se > 61) return 0;
  if (d > month_len(y, m) || h > 23 || mi > 59 || se > 59) return -1;
  *sec = days_from_civil(y, m, d) * 86400 + h * 3600 + mi * 60 + se;
  *ns = num(20, 9);
  return 1;
}

int64_t rand_ns(Rng& r) {
  switch (r.below(5)) {
    case 0: return 0;
    case 1: return kNs - 1;
    case 2: return r.below(10);
    case 3: return kNs - 1 - r.below(10);
    default: return r.below(kNs);
  }
}
int64_t rand_sec(Rng& r, int64_t lo, int64_t hi) {
  uint64_t span = (uint64_t)hi - (uint64_t)lo + 1;
  switch (r.below(6)) {
    case 0: return lo + r.below(3);
    case 1: return hi - r.below(3);
    case 2: {
      int64_t v = 1;
      for (int k = r.below(11); k > 0; k--) v *= 10;
      v += (int64_t)r.below(3) - 1;
      return v >= lo && v <= hi ? v : lo;
    }
    case 3: return std::min<int64_t>(hi, std::max<int64_t>(lo, r.below(2000000000)));
    default: return lo + (int64_t)(span ? r.below(span) : r.next());
  }
}

struct Buf {  // exactly sized
  std::unique_ptr<char[]> p;
  explicit Buf(size_t n) : p(new char[n]) { memset(p.get(), '#', n); }
};

void mono(Ctx& ctx) {
  Rng& r = ctx.rng;
  a0_time_mono_t t[2];
  std::string s[2];
  for (int i = 0; i < 2; i++) {
    t[i].ts.tv_sec = rand_sec(r, 0, kMonoMax);
    t[i].ts.tv_nsec = rand_ns(r);
    if (i && r.chance(40)) t[1].ts.tv_sec = t[0].ts.tv_sec;
    Buf b(20);
    a0_err_t e = a0_time_mono_str(t[i], b.p.get());
    ctx.eval();
    CHECK_OR_FAIL(ctx, !e, "mono-str-error", "%ld.%09ld: %s", t[i].ts.tv_sec, t[i].ts.tv_nsec, errname(e).c_str());
    std::string want = strf("%010ld%09ld", t[i].ts.tv_sec, t[i].ts.tv_nsec);
    CHECK_OR_FAIL(ctx, !b.p[19] && want == b.p.get(), "mono-str", "%ld.%09ld gives %.19s", t[i].ts.tv_sec, t[i].ts.tv_nsec, b.p.get());
    s[i] = want;
    a0_time_mono_t back = {{-1, -1}};
    e = a0_time_mono_parse(b.p.get(), &back);
    CHECK_OR_FAIL(ctx, !e && back.ts.tv_sec == t[i].ts.tv_sec && back.ts.tv_nsec == t[i].ts.tv_nsec, "mono-round-trip", "%s parses to %ld.%09ld (%s)", want.c_str(), back.ts.tv_sec, back.ts.tv_nsec, errname(e).c_str());
    a0::TimeMono c;
    c.c = std::make_shared<a0_time_mono_t>(t[i]);
    CHECK_OR_FAIL(ctx, c.to_string() == want && a0::TimeMono::parse(want) == c, "mono-round-trip:cpp", "%s", want.c_str());
    ctx.distinct(hash_str(want));
  }
  CHECK_OR_FAIL(ctx, (s[0] < s[1]) == (std::make_pair(t[0].ts.tv_sec, t[0].ts.tv_nsec) < std::make_pair(t[1].ts.tv_sec, t[1].ts.tv_nsec)), "mono-order", "%s %s", s[0].c_str(), s[1].c_str());
  // corrupted
  for (int k = 0; k < 6; k++) {
    std::string x = s[0];
    size_t at = r.below(19);
    x[at] = r.chance(50) ? "0123456789"[r.below(10)] : r.pick(std::vector<char>{'/', ':', ' ', '-', '+', 'a', '.', '\0', (char)0xb0, (char)0x80, 'x'});
    if (r.chance(25)) x[r.below(19)] = (char)r.next();
    Buf b(20);
    memcpy(b.p.get(), x.data(), 19);
    b.p[19] = 0;
    bool ok = true;
    for (char c : x) ok &= c >= '0' && c <= '9';
    a0_time_mono_t back;
    a0_err_t e = a0_time_mono_parse(b.p.get(), &back);
    ctx.eval();
    if (!ok) {
      CHECK_OR_FAIL(ctx, e, "mono-malformed-accepted", "a text with a non-digit at %zu was accepted", at);
      ctx.count("malformed_refused");
    } else {
      uint64_t v = strtoull(x.c_str(), 0, 10);
      CHECK_OR_FAIL(ctx, !e && (uint64_t)back.ts.tv_sec == v / kNs && (uint64_t)back.ts.tv_nsec == v % kNs, "mono-parse", "%s parses to %ld.%09ld", x.c_str(), back.ts.tv_sec, back.ts.tv_nsec);
    }
  }
  if (r.chance(20)) {  // too short (C++ knows the length)
    std::string x = s[0].substr(0, r.below(19));
    try {
      a0::TimeMono::parse(x);
      ctx.fail("mono-short-accepted", strf("\"%s\" was accepted", x.c_str()));
    } catch (CaseFail&) {
      throw;
    } catch (std::exception&) {
    }
    ctx.count("malformed_refused");
  }
  if (r.chance(20)) {  // no text form
    a0_time_mono_t o;
    o.ts.tv_sec = r.chance(50) ? -1 - (int64_t)r.below(1ull << r.below(62)) : kMonoMax + 1 + r.below(1ull << r.below(62));
    o.ts.tv_nsec = rand_ns(r);
    Buf b(20);
    a0_err_t e = a0_time_mono_str(o, b.p.get());
    CHECK_OR_FAIL(ctx, e, "mono-unrepresentable", "%ld s has no text form but gives %.19s", o.ts.tv_sec, b.p.get());
    ctx.count("unrepresentable");
  }
}

void wall(Ctx& ctx) {
  Rng& r = ctx.rng;
  a0_time_wall_t t;
  t.ts.tv_sec = rand_sec(r, kWallMin, kWallMax);
  if (r.chance(30)) t.ts.tv_sec = days_from_civil(r.range(1000, 9999), r.chance(50) ? 2 : 12, r.range(28, 29)) * 86400 + (r.chance(50) ? 86399 : 0);
  if (t.ts.tv_sec > kWallMax) t.ts.tv_sec = kWallMax;
  t.ts.tv_nsec = rand_ns(r);
  Buf b(36);
  a0_err_t e = a0_time_wall_str(t, b.p.get());
  ctx.eval();
  std::string want = wall_text(t.ts.tv_sec, t.ts.tv_nsec);
  CHECK_OR_FAIL(ctx, !e && !b.p[35] && want == b.p.get(), "wall-str", "%ld.%09ld gives %.35s, should be %s", t.ts.tv_sec, t.ts.tv_nsec, b.p.get(), want.c_str());
  a0_time_wall_t back = {{-1, -1}};
  e = a0_time_wall_parse(b.p.get(), &back);
  CHECK_OR_FAIL(ctx, !e && back.ts.tv_sec == t.ts.tv_sec && back.ts.tv_nsec == t.ts.tv_nsec, "wall-round-trip", "%s parses to %ld.%09ld (%s)", want.c_str(), back.ts.tv_sec, back.ts.tv_nsec, errname(e).c_str());
  a0::TimeWall c;
  c.c = std::make_shared<a0_time_wall_t>(t);
  auto c2 = a0::TimeWall::parse(want);
  CHECK_OR_FAIL(ctx, c.to_string() == want && c2.c->ts.tv_sec == t.ts.tv_sec && c2.c->ts.tv_nsec == t.ts.tv_nsec, "wall-round-trip:cpp", "%s", want.c_str());
  ctx.distinct(hash_str(want));
  ctx.sample(want);
  for (int k = 0; k < 10; k++) {
    std::string x = want;
    size_t at = r.below(35);
    x[at] = r.chance(60) ? "0123456789"[r.below(10)] : r.pick(std::vector<char>{'/', ':', ' ', '-', '+', 'T', 't', 'Z', '.', '\0', (char)0xb1});
    if (r.chance(25)) x[r.below(35)] = "0123456789-:."[r.below(13)];
    Buf xb(36);
    memcpy(xb.p.get(), x.data(), 35);
    xb.p[35] = 0;
    int64_t sec = 0, ns = 0;
    int ok = wall_parse(x, &sec, &ns);
    e = a0_time_wall_parse(xb.p.get(), &back);
    ctx.eval();
    if (ok == 0) {
      CHECK_OR_FAIL(ctx, e, "wall-malformed-accepted", "%s was accepted", x.c_str());
      ctx.count("malformed_refused");
    } else if (ok == 1) {
      CHECK_OR_FAIL(ctx, !e && back.ts.tv_sec == sec && back.ts.tv_nsec == ns, "wall-parse", "%s parses to %ld.%09ld, should be %ld.%09ld (%s)", x.c_str(), back.ts.tv_sec, back.ts.tv_nsec, sec, ns, errname(e).c_str());
    }
  }
  if (r.chance(20)) {
    std::string x = want.substr(0, r.below(35));
    x.shrink_to_fit();
    try {
      a0::TimeWall::parse(x);
      ctx.fail("wall-short-accepted", strf("\"%s\" was accepted", x.c_str()));
    } catch (CaseFail&) {
      throw;
    } catch (std::exception&) {
    }
    ctx.count("malformed_refused");
  }
  if (r.chance(20)) {
    a0_time_wall_t o;
    o.ts.tv_sec = r.chance(50) ? kWallMin - 1 - (int64_t)r.below(1ull << r.below(60)) : kWallMax + 1 + r.below(1ull << r.below(60));
    o.ts.tv_nsec = rand_ns(r);
    Buf ob(36);
    e = a0_time_wall_str(o, ob.p.get());
    CHECK_OR_FAIL(ctx, e || (o.ts.tv_sec < kWallMin && wall_text(o.ts.tv_sec, o.ts.tv_nsec).size() == 35 && wall_text(o.ts.tv_sec, o.ts.tv_nsec) == std::string(ob.p.get(), 35)), "wall-unrepresentable", "%ld s has no four-digit year but gives %.35s", o.ts.tv_sec, ob.p.get());
    ctx.count("unrepresentable");
  }
}

void add(Ctx& ctx) {
  Rng& r = ctx.rng;
  a0_time_mono_t t;
  t.ts.tv_sec = r.chance(60) ? rand_sec(r, 0, kMonoMax) : (int64_t)(r.next() >> r.range(2, 40)) * (r.chance(50) ? 1 : -1);
  t.ts.tv_nsec = rand_ns(r);
  int64_t d;
  switch (r.below(6)) {
    case 0: d = (int64_t)r.below(5) - 2; break;
    case 1: d = r.chance(50) ? INT64_MAX - (int64_t)r.below(3) : INT64_MIN + (int64_t)r.below(3); break;
    case 2: d = ((int64_t)r.below(9) - 4) * kNs + (int64_t)r.below(3) - 1; break;
    case 3: d = (int64_t)r.next() >> r.below(64); break;
    case 4: d = (r.chance(50) ? 1 : -1) * (kNs - t.ts.tv_nsec) + (int64_t)r.below(3) - 1; break;
    default: d = -t.ts.tv_nsec + (int64_t)r.below(3) - 1;
  }
  __int128 sum = (__int128)t.ts.tv_sec * kNs + t.ts.tv_nsec + d;
  __int128 ws = sum / kNs;
  int64_t wn = sum % kNs;
  if (wn < 0) wn += kNs, ws--;
  a0_time_mono_t out = {{-5, -5}};
  a0_err_t e = a0_time_mono_add(t, d, &out);
  ctx.eval();
  CHECK_OR_FAIL(ctx, !e && out.ts.tv_sec == (int64_t)ws && out.ts.tv_nsec == wn, "add", "%ld.%09ld + %ld ns = %ld.%09ld, should be %ld.%09ld", t.ts.tv_sec, t.ts.tv_nsec, d, out.ts.tv_sec, out.ts.tv_nsec, (int64_t)ws, wn);
  a0_time_mono_t same = t;
  a0_time_mono_add(same, d, &same);
  CHECK_OR_FAIL(ctx, same.ts.tv_sec == out.ts.tv_sec && same.ts.tv_nsec == out.ts.tv_nsec, "add-in-place", "differs");
  if (d != INT64_MIN) {
    a0::TimeMono a, w, b;
    a.c = std::make_shared<a0_time_mono_t>(t);
    w.c = std::make_shared<a0_time_mono_t>(out);
    auto dn = std::chrono::nanoseconds(d);
    b.c = std::make_shared<a0_time_mono_t>(t);
    CHECK_OR_FAIL(ctx, a + dn == w && a - (-dn) == w && a == b, "add:cpp", "%ld.%09ld + %ld", t.ts.tv_sec, t.ts.tv_nsec, d);
    b += dn;
    CHECK_OR_FAIL(ctx, b == w, "add:cpp", "+= %ld", d);
    b -= dn;
    CHECK_OR_FAIL(ctx, b == a, "add:cpp", "-= %ld", d);
    CHECK_OR_FAIL(ctx, (a < w) == (d > 0) && (a > w) == (d < 0) && (a <= w) == (d >= 0) && (a >= w) == (d <= 0) && (a != w) == (d != 0), "compare:cpp", "%ld.%09ld and that plus %ld", t.ts.tv_sec, t.ts.tv_nsec, d);
  }
  ctx.distinct(mix(mix(t.ts.tv_sec, t.ts.tv_nsec), d));
  ctx.count("sums");
}

void run_case(Ctx& ctx) {
  ctx.desc("time");
  for (int i = 0; i < 4; i++) {
    mono(ctx);
    wall(ctx);
    add(ctx);
  }
}
}  // namespace
int main(int argc, char** argv) { return harness_main(argc, argv, run_case); }
