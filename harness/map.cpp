// C20 (mode map): the hash map against std::map.  C21 (mode cmp): comparisons and hashes.
#include <a0/buf.h>
#include <a0/cmp.h>
#include <a0/map.h>
#include <a0/uuid.h>

#include <algorithm>
#include <memory>

#include "common.hpp"

namespace {

struct Fn {  // hash and comparison that can be made to fail
  int kind;
  size_t key_size;
  int64_t fail_in = -1;  // fail at the n-th call from now
  int code = 77;
  bool tripped = false;
  bool trip() {
    if (fail_in < 0) return false;
    if (fail_in-- == 0) return tripped = true;
    return false;
  }
};
uint64_t key_hash(const Fn& f, const void* k) {
  uint64_t h = hash_bytes(k, f.key_size);
  switch (f.kind) {
    case 0: return h;
    case 1: return 0;
    case 2: return h & 3;
    case 3: return ~(h & 1);
    case 4: return h << 32;
    case 5: return *(uint8_t*)k;
    default: return h & 7 ? 5 : h;
  }
}
a0_err_t hash_fn(void* u, const void* k, size_t* out) {
  Fn* f = (Fn*)u;
  if (f->trip()) return (a0_err_t)f->code;
  *out = key_hash(*f, k);
  return A0_OK;
}
a0_err_t cmp_fn(void* u, const void* a, const void* b, int* out) {
  Fn* f = (Fn*)u;
  if (f->trip()) return (a0_err_t)f->code;
  *out = memcmp(a, b, f->key_size);
  return A0_OK;
}

void map_case(Ctx& ctx) {
  Rng& r = ctx.rng;
  ctx.desc("map");
  size_t ks = r.pick(std::vector<size_t>{1, 2, 4, 8, 16, 17, 37, 100}), vs = r.pick(std::vector<size_t>{0, 1, 4, 8, 24, 33, 200});
  Fn f;
  f.kind = r.below(7);
  f.key_size = ks;
  f.code = r.chance(50) ? A0_ERR_RANGE : A0_ERR_INVALID_ARG;
  a0_map_t m;
  a0_map_init(&m, ks, vs, {&f, hash_fn}, {&f, cmp_fn});
  std::map<std::string, std::string> ref;
  int universe = r.pick(std::vector<int>{3, 6, 12, 30, 120, 255});
  int n = r.chance(80) ? r.range(5, 80) : r.range(100, 600);
  bool big = ks > 1 && r.below(1000) < 4;
  if (big) universe = r.range(1000, 6000), n = r.range(2000, 8000);
  bool faults = r.chance(40);
  int phase = 0;  // 1: fills up, 2: drains
  uint64_t h = mix(ks, mix(f.kind, universe));
  bool clash = false;
  auto key_of = [&](int i) {
    std::string k(ks, '\0');
    k[0] = i;
    if (ks > 1) k[1] = i >> 8;
    for (size_t j = 2; j < ks; j++) k[j] = (char)(i * (j + 3));
    return k;
  };
  auto exact = [&](const std::string& s) {
    std::unique_ptr<char[]> p(new char[s.size() + !s.size()]);
    memcpy(p.get(), s.data(), s.size());
    return p;
  };
  ctx.log(strf("key %zu val %zu hash kind %d universe %d", ks, vs, f.kind, universe));
  for (int i = 0; i < n; i++) {
    std::string k = key_of(r.below(universe));
    auto kp = exact(k);
    if (r.below(big ? 1000 : 30) == 0) phase = r.below(3);
    int op = r.below(10);
    if (phase == 1 && op >= 4 && op < 7 && r.chance(80)) op = 0;
    if (phase == 2 && op < 4 && r.chance(80)) op = 4;
    bool has = ref.count(k);
    bool fault = faults && r.chance(15);
    f.tripped = false;
    f.fail_in = fault ? (int64_t)r.below(8) : -1;
    a0_err_t e = A0_OK;
    const char* name = "";
    auto failed_ok = [&] { return f.tripped && e; };
    auto judge = [&](bool present) {
      CHECK_OR_FAIL(ctx, e == (present ? A0_OK : A0_ERR_NOT_FOUND), "wrong-error", "%s of a key that is %s: %s", name, present ? "there" : "missing", errname(e).c_str());
    };
    if (op < 4) {
      name = "put";
      std::string v(vs, '\0');
      for (auto& c : v) c = r.next();
      auto vp = exact(v);
      e = a0_map_put(&m, kp.get(), vp.get());
      if (!f.tripped) {
        judge(true);
        ref[k] = v;
        for (auto& x : ref)
          if (!clash && x.first != k && key_hash(f, x.first.data()) == key_hash(f, k.data())) clash = true;
      } else {
        CHECK_OR_FAIL(ctx, e, "fault-swallowed:put", "put succeeded although hash or comparison failed");
      }
    } else if (op < 6) {
      name = "del";
      e = a0_map_del(&m, kp.get());
      if (!f.tripped) {
        judge(has);
        ref.erase(k);
      } else CHECK_OR_FAIL(ctx, failed_ok() && e != A0_ERR_NOT_FOUND, "fault-swallowed:del", "del reported %s", errname(e).c_str());
    } else if (op < 7) {
      name = "pop";
      std::unique_ptr<char[]> out(new char[vs + !vs]);
      e = a0_map_pop(&m, kp.get(), out.get());
      if (!f.tripped) {
        judge(has);
        if (has) CHECK_OR_FAIL(ctx, std::string(out.get(), vs) == ref[k], "wrong-value", "pop returned another value");
        ref.erase(k);
      } else CHECK_OR_FAIL(ctx, failed_ok() && e != A0_ERR_NOT_FOUND, "fault-swallowed:pop", "pop reported %s", errname(e).c_str());
    } else if (op < 9) {
      name = "get";
      void* v = nullptr;
      e = a0_map_get(&m, kp.get(), &v);
      if (!f.tripped) {
        judge(has);
        if (has) {
          CHECK_OR_FAIL(ctx, !memcmp(v, ref[k].data(), vs), "wrong-value", "get returned another value");
          if (vs && r.chance(20)) ref[k][0] = *(char*)v = r.next();  // values may be changed in place
        }
      } else CHECK_OR_FAIL(ctx, failed_ok() && e != A0_ERR_NOT_FOUND, "fault-swallowed:get", "get reported %s", errname(e).c_str());
    } else {
      name = "has";
      bool in = !has;
      e = a0_map_has(&m, kp.get(), &in);
      if (!f.tripped) CHECK_OR_FAIL(ctx, !e && in == has, "wrong-membership", "has: %s, %d", errname(e).c_str(), in);
      else CHECK_OR_FAIL(ctx, e, "fault-swallowed:has", "has reported no error although hash or comparison failed");
    }
    if (f.tripped) ctx.count("failing_callbacks");
    f.fail_in = -1;
    h = mix(h, op * 4 + has * 2 + !!e);
    ctx.eval();
    size_t size;
    bool empty;
    a0_map_size(&m, &size);
    a0_map_empty(&m, &empty);
    CHECK_OR_FAIL(ctx, size == ref.size() && empty == ref.empty(), "wrong-size", "after %s: size %zu, should be %zu", name, size, ref.size());
    if ((big ? r.below(300) == 0 : r.chance(f.tripped ? 100 : 12)) || i + 1 == n) {
      if (ref.size() > 500) ctx.count("comparisons_of_large_maps");
      std::map<std::string, int> seen;
      a0_map_iterator_t it;
      a0_map_iterator_init(&it, &m);
      const void* kk;
      void* vv;
      while (!(e = a0_map_iterator_next(&it, &kk, &vv))) {
        std::string key((char*)kk, ks);
        CHECK_OR_FAIL(ctx, !seen[key]++, "visited-twice", "iteration visits a key twice");
        CHECK_OR_FAIL(ctx, ref.count(key), "phantom", "after %s%s: iteration shows a key that is not there", name, f.tripped ? " that failed" : "");
        CHECK_OR_FAIL(ctx, !memcmp(vv, ref[key].data(), vs), "wrong-value", "after %s: iteration shows another value", name);
        CHECK_OR_FAIL(ctx, seen.size() <= ref.size(), "endless", "iteration does not end");
      }
      CHECK_OR_FAIL(ctx, e == A0_ERR_ITER_DONE && seen.size() == ref.size(), "lost", "after %s%s: iteration shows %zu of %zu keys", name, f.tripped ? " that failed" : "", seen.size(), ref.size());
      CHECK_OR_FAIL(ctx, a0_map_iterator_next(&it, &kk, &vv) == A0_ERR_ITER_DONE, "restarts", "iteration goes on after its end");
      for (auto& x : ref) {
        void* v = nullptr;
        e = a0_map_get(&m, x.first.data(), &v);
        CHECK_OR_FAIL(ctx, !e && !memcmp(v, x.second.data(), vs), "unreachable", "after %s%s: a key that is there is not found", name, f.tripped ? " that failed" : "");
      }
      ctx.count("full_comparisons");
    }
  }
  if (clash) ctx.count("maps_with_equal_hashes");
  if (clash) ctx.distinct(h);
  ctx.sample(strf("keys of %zu bytes, hash kind %d, %d operations, ends with %zu entries", ks, f.kind, n, ref.size()));
  a0_map_close(&m);
}

int sgn(int x) { return (x > 0) - (x < 0); }

// V: how to get a pointer to hand to the functions; eq: real equality
template <class V>
void order(Ctx& ctx, const char* what, a0_cmp_t cmp, a0_hash_t hash, const std::vector<V>& v, std::function<const void*(const V&)> p,
           std::function<bool(const V&, const V&)> eq) {
  auto c = [&](size_t i, size_t j) {
    int out = 12345;
    a0_err_t e = a0_cmp_eval(cmp, p(v[i]), p(v[j]), &out);
    CHECK_OR_FAIL(ctx, !e, strf("error:%s", what), "comparison failed");
    ctx.eval();
    return sgn(out);
  };
  size_t n = v.size();
  std::vector<std::vector<int>> t(n, std::vector<int>(n));
  for (size_t i = 0; i < n; i++)
    for (size_t j = 0; j < n; j++) t[i][j] = c(i, j);
  auto show = [&](size_t i) {
    std::string s;
    const uint8_t* b = (const uint8_t*)p(v[i]);
    for (int k = 7; k >= 0; k--) s += strf("%02x", b[k]);
    return s;
  };
  std::vector<size_t> hs(n);
  for (size_t i = 0; i < n; i++) {
    if (hash.fn) CHECK_OR_FAIL(ctx, !a0_hash_eval(hash, p(v[i]), &hs[i]), strf("error:%s", what), "hash failed");
    for (size_t j = 0; j <= i; j++) {
      bool same = eq(v[i], v[j]);
      CHECK_OR_FAIL(ctx, (t[i][j] == 0) == same, strf("equality:%s", what), "%s: compares %d for %s values (first 8 bytes as a number: %s %s)", what, t[i][j], same ? "equal" : "different", show(i).c_str(), show(j).c_str());
      CHECK_OR_FAIL(ctx, t[i][j] == -t[j][i], strf("antisymmetry:%s", what), "%s: %d one way, %d the other (%s %s)", what, t[i][j], t[j][i], show(i).c_str(), show(j).c_str());
      if (same && hash.fn) CHECK_OR_FAIL(ctx, hs[i] == hs[j], strf("hash:%s", what), "%s: equal values, different hashes", what);
      if (same && i != j) ctx.count("equal_pairs");
    }
  }
  for (size_t i = 0; i < n; i++)
    for (size_t j = 0; j < n; j++)
      for (size_t k = 0; k < n; k++)
        if (t[i][j] <= 0 && t[j][k] <= 0)
          CHECK_OR_FAIL(ctx, t[i][k] <= 0, strf("transitivity:%s", what), "%s: a<=b, b<=c but a>c (%s %s %s)", what, show(i).c_str(), show(j).c_str(), show(k).c_str());
  ctx.count("triples", n * n * n);
}

void cmp_case(Ctx& ctx) {
  Rng& r = ctx.rng;
  ctx.desc("cmp");
  int which = r.below(5);
  int n = r.range(3, 9);
  auto wild64 = [&]() -> uint64_t {
    uint64_t x = r.chance(50) ? 1ull << r.below(64) : r.next();
    switch (r.below(5)) {
      case 0: return x;
      case 1: return x - 1;
      case 2: return x + 1;
      case 3: return -x;
      default: return r.below(4);
    }
  };
  uint64_t h = which;
  switch (which) {
    case 0: {
      std::vector<uint32_t> v;
      for (int i = 0; i < n; i++) v.push_back(i && r.chance(30) ? v[r.below(i)] + (r.chance(50) ? 0x80000000u : r.below(3) - 1) : wild64());
      for (auto x : v) h = mix(h, x);
      order<uint32_t>(ctx, "u32", A0_CMP_U32, A0_HASH_U32, v, [](const uint32_t& x) { static uint64_t wide[2]; static int i; i ^= 1; wide[i] = x; return (const void*)&wide[i]; }, [](const uint32_t& a, const uint32_t& b) { return a == b; });
      break;
    }
    case 1: {
      std::vector<uintptr_t> v;
      for (int i = 0; i < n; i++) v.push_back(i && r.chance(40) ? v[r.below(i)] + (r.chance(50) ? (1ull << r.range(30, 63)) : r.below(3) - 1) : wild64());
      for (auto x : v) h = mix(h, x);
      order<uintptr_t>(ctx, "ptr", A0_CMP_PTR, A0_HASH_PTR, v, [](const uintptr_t& x) { return (const void*)&x; }, [](const uintptr_t& a, const uintptr_t& b) { return a == b; });
      break;
    }
    case 2: {
      if (r.chance(30)) {  // sizes alone, never dereferenced as long as they differ
        std::vector<a0_buf_t> v;
        std::set<uint64_t> used;
        uint8_t byte = 0;
        for (int i = 0; i < n; i++) {
          uint64_t s = v.size() && r.chance(40) ? v[r.below(v.size())].size + (1ull << r.range(30, 40)) : wild64() >> 1;
          if (s == 1 || !used.insert(s).second) continue;
          v.push_back({&byte, s});
          h = mix(h, s);
        }
        // a buffer is equal to itself only if it can be read: leave the diagonal out
        for (auto& a : v)
          for (auto& b : v)
            if (a.size != b.size) {
              int x, y;
              a0_cmp_eval(A0_CMP_BUF, &a, &b, &x);
              a0_cmp_eval(A0_CMP_BUF, &b, &a, &y);
              ctx.eval();
              CHECK_OR_FAIL(ctx, x, "equality:buf", "buffers of %lu and %lu bytes compare equal", a.size, b.size);
              CHECK_OR_FAIL(ctx, sgn(x) == -sgn(y), "antisymmetry:buf", "buffers of %lu and %lu bytes: %d one way, %d the other", a.size, b.size, x, y);
            }
        for (auto& a : v)
          for (auto& b : v)
            for (auto& c : v)
              if (a.size != b.size && b.size != c.size && a.size != c.size) {
                int x, y, z;
                a0_cmp_eval(A0_CMP_BUF, &a, &b, &x);
                a0_cmp_eval(A0_CMP_BUF, &b, &c, &y);
                a0_cmp_eval(A0_CMP_BUF, &a, &c, &z);
                CHECK_OR_FAIL(ctx, !(x < 0 && y < 0) || z < 0, "transitivity:buf", "buffers of %lu, %lu and %lu bytes", a.size, b.size, c.size);
              }
        break;
      }
      std::vector<std::string> s;
      std::vector<std::unique_ptr<uint8_t[]>> own;
      std::vector<a0_buf_t> v;
      for (int i = 0; i < n; i++) {
        std::string x = i && r.chance(50) ? s[r.below(i)] : std::string(r.below(12), (char)r.next());
        if (x.size() && r.chance(40)) x[r.below(x.size())] = r.next();
        if (r.chance(15)) x += '\0';
        s.push_back(x);
        own.emplace_back(new uint8_t[x.size() + !x.size()]);
        memcpy(own.back().get(), x.data(), x.size());
        v.push_back({x.empty() && r.chance(50) ? nullptr : own.back().get(), x.size()});
        h = mix(h, hash_str(x));
      }
      order<a0_buf_t>(ctx, "buf", A0_CMP_BUF, A0_HASH_BUF, v, [](const a0_buf_t& x) { return (const void*)&x; }, [](const a0_buf_t& a, const a0_buf_t& b) { return a.size == b.size && (!a.size || !memcmp(a.data, b.data, a.size)); });
      break;
    }
    case 3: {
      std::vector<std::string> s;
      std::vector<std::unique_ptr<char[]>> own;
      std::vector<char*> v;
      for (int i = 0; i < n; i++) {
        std::string x = i && r.chance(50) ? s[r.below(i)] : "";
        while (r.chance(55)) x += (char)(1 + r.below(255));
        if (x.size() && r.chance(30)) x[r.below(x.size())] = 1 + r.below(255);
        if (x.size() && r.chance(20)) x.pop_back();
        s.push_back(x);
        own.emplace_back(new char[x.size() + 1]);
        memcpy(own.back().get(), x.c_str(), x.size() + 1);
        v.push_back(own.back().get());
        h = mix(h, hash_str(x));
      }
      order<char*>(ctx, "str", A0_CMP_STR, A0_HASH_STR, v, [](char* const& x) { return (const void*)&x; }, [](char* const& a, char* const& b) { return !strcmp(a, b); });
      break;
    }
    default: {
      struct U {
        a0_uuid_t c;
      };
      std::vector<U> v;
      for (int i = 0; i < n; i++) {
        U u;
        // own digits: the seed decides them
        std::string x = "xxxxxxxx-xxxx-4xxx-8xxx-xxxxxxxxxxxx";
        for (auto& c : x)
          if (c == 'x') c = "0123456789ABCDEF"[r.below(16)];
        if (i && r.chance(60)) {
          x = std::string(v[r.below(i)].c, 36);
          if (r.chance(70)) {
            size_t at = r.below(36);
            if (x[at] != '-') x[at] = "0123456789ABCDEF"[r.below(16)];
          }
        }
        // an id taken from a packet of some other program
        if (r.chance(5))
          for (auto& c : x) c = (char)(1 + r.below(255));
        memcpy(u.c, x.c_str(), 37);
        h = mix(h, hash_str(x));
        v.push_back(u);
      }
      order<U>(ctx, "uuid", A0_CMP_UUID, A0_HASH_UUID, v, [](const U& x) { return (const void*)x.c; }, [](const U& a, const U& b) { return !strcmp(a.c, b.c); });
    }
  }
  ctx.distinct(h);
  static const char* names[] = {"u32", "ptr", "buf", "str", "uuid"};
  ctx.count(strf("cases_%s", names[which]));
  ctx.sample(strf("%d values of type %s, all pairs and triples", n, names[which]));
}
void run_any(Ctx& ctx) { ctx.mode == "cmp" ? cmp_case(ctx) : map_case(ctx); }
}  // namespace
int main(int argc, char** argv) { return harness_main(argc, argv, run_any); }
