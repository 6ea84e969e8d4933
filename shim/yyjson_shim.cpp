#include <yyjson.h>

#include <cstring>
#include <deque>
#include <memory>
#include <nlohmann/json.hpp>

using json = nlohmann::json;

struct yyjson_val { json j; };
struct yyjson_mut_val { json j; };

namespace {
struct Pool { char* cur; char* end; };
// A document read into a caller's pool is never freed by the caller: keep the last few.
struct Held { yyjson_doc doc; yyjson_val val; };
thread_local std::deque<std::unique_ptr<Held>> held;
struct MutDoc { yyjson_mut_doc doc; yyjson_mut_val val; };

void* pool_malloc(void* ctx, size_t n) {
  Pool* p = (Pool*)ctx;
  n = (n + 15) & ~size_t(15);
  if (n > size_t(p->end - p->cur)) return nullptr;
  void* r = p->cur;
  p->cur += n;
  return r;
}
void* pool_realloc(void* ctx, void* ptr, size_t old_size, size_t n) {
  void* r = pool_malloc(ctx, n);
  if (r && ptr) memcpy(r, ptr, old_size < n ? old_size : n);
  return r;
}
void pool_free(void*, void*) {}
}  // namespace

extern "C" {

size_t yyjson_read_max_memory_usage(size_t len, yyjson_read_flag) {
  if (len > (size_t(1) << 40)) return 0;
  return len * 12 + 256 + 64;
}

bool yyjson_alc_pool_init(yyjson_alc* alc, void* buf, size_t size) {
  memset(alc, 0, sizeof(*alc));
  if (!buf || size < sizeof(Pool) + 32) return false;
  uintptr_t a = ((uintptr_t)buf + 15) & ~uintptr_t(15);
  Pool* p = (Pool*)a;
  p->cur = (char*)a + 32;
  p->end = (char*)buf + size;
  alc->ctx = p;
  alc->malloc = pool_malloc;
  alc->realloc = pool_realloc;
  alc->free = pool_free;
  return true;
}

yyjson_doc* yyjson_read_opts(char* dat, size_t len, yyjson_read_flag flg, const yyjson_alc* alc, yyjson_read_err* err) {
  yyjson_read_err dummy;
  if (!err) err = &dummy;
  err->code = 0;
  err->msg = "success";
  err->pos = 0;
  if (!dat || !len) {
    err->code = 1;
    err->msg = "input is empty";
    return nullptr;
  }
  json j = json::parse(dat, dat + len, nullptr, false, !!(flg & YYJSON_READ_ALLOW_COMMENTS));
  if (j.is_discarded()) {
    err->code = 2;
    err->msg = "malformed json";
    return nullptr;
  }
  // Touch the caller's pool as the real parser would.
  if (alc && alc->malloc && !alc->malloc(alc->ctx, len)) {
    err->code = 3;
    err->msg = "memory allocation failed";
    return nullptr;
  }
  std::unique_ptr<Held> h(new Held);
  h->val.j = std::move(j);
  h->doc.root = &h->val;
  held.push_back(std::move(h));
  while (held.size() > 4) held.pop_front();
  return &held.back()->doc;
}

void yyjson_doc_free(yyjson_doc*) {}

yyjson_mut_doc* yyjson_mut_doc_new(const yyjson_alc*) {
  MutDoc* d = new MutDoc;
  d->doc.root = nullptr;
  return &d->doc;
}

void yyjson_mut_doc_free(yyjson_mut_doc* doc) { delete (MutDoc*)doc; }

yyjson_mut_val* yyjson_merge_patch(yyjson_mut_doc* doc, yyjson_val* orig, yyjson_val* patch) {
  MutDoc* d = (MutDoc*)doc;
  if (!patch) return nullptr;
  d->val.j = orig ? orig->j : json();
  d->val.j.merge_patch(patch->j);
  return &d->val;
}

char* yyjson_mut_write_opts(const yyjson_mut_doc* doc, yyjson_write_flag flg, const yyjson_alc* alc, size_t* len, yyjson_write_err* err) {
  yyjson_write_err dummy;
  if (!err) err = &dummy;
  err->code = 0;
  err->msg = "success";
  if (!doc || !doc->root) {
    err->code = 1;
    err->msg = "no root";
    return nullptr;
  }
  std::string s;
  try {
    s = doc->root->j.dump(-1, ' ', !!(flg & YYJSON_WRITE_ESCAPE_UNICODE));
  } catch (const std::exception&) {
    err->code = 2;
    err->msg = "invalid string";
    return nullptr;
  }
  char* r = (char*)alc->malloc(alc->ctx, s.size() + 1);
  if (!r) {
    err->code = 3;
    err->msg = "memory allocation failed";
    return nullptr;
  }
  memcpy(r, s.c_str(), s.size() + 1);
  if (len) *len = s.size();
  return r;
}
}
