// Lets the library's next attempts to start a thread fail. Linked with --wrap=pthread_create.
#pragma once
#include <errno.h>
#include <pthread.h>

#include <atomic>

static std::atomic<int> g_refuse_threads{0};  // how many attempts are refused
static std::atomic<int> g_refused_threads{0};

extern "C" int __real_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
extern "C" int __wrap_pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* u) {
  int n = g_refuse_threads;
  while (n > 0 && !g_refuse_threads.compare_exchange_weak(n, n - 1)) {
  }
  if (n > 0) {
    g_refused_threads++;
    return EAGAIN;
  }
  return __real_pthread_create(t, a, f, u);
}
