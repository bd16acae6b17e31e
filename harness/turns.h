// Deterministic scheduling of threads through the code under test. A third copy of that code (symbols prefixed sch_) is
// compiled with the instrumentation of the thread sanitizer, whose callbacks are defined here: every atomic access, and
// every plain access to memory that threads share (the objects named by the caller, and writable globals of the program),
// is a point where another thread may be let in. One thread runs at a time, and the generator decides who and when, so
// that a failing schedule replays and shrinks like any other input.
#pragma once
#include "common.h"
#include <exception>
#include <functional>
#include <pthread.h>
#include <semaphore.h>
#include <thread>
#include <vector>

extern "C" char __data_start, _end;

// the function of the main copy, of the copy with other memory contents (1), or of the scheduled copy (2)
#define SCH(f) extern "C" decltype(f) sch_##f __attribute__((weak));
#define PICK(which, f) ((which) == 2 ? sch_##f : (which) ? alt_##f : f)

namespace sched {
using namespace pbt;
struct Plan {                                 // after `gap` points hand over to the `to`-th other thread
  std::vector<std::pair<u32, u32>> swaps;
  u32 quantum = 1000;                         // and in any case after so many, lest a thread waits for another for ever
};
struct Run {
  struct T { sem_t sem; bool alive = true; };
  std::vector<T> t;
  std::vector<std::pair<const char *, const char *>> shared;
  Plan plan;
  size_t cur = 0, next = 0;
  u32 since = 0, want = 0;
  u64 points = 0, switches = 0;
};
inline Run *R;
inline thread_local int me = -1;

inline void hand_over(Run &r, u32 k, bool leaving) {
  std::vector<size_t> o;
  for (size_t i = 0; i < r.t.size(); i++) if (i != (size_t)me && r.t[i].alive) o.push_back(i);
  if (o.empty()) return;
  // the threads after this one first, so that everybody is reached
  std::rotate(o.begin(), std::lower_bound(o.begin(), o.end(), (size_t)me), o.end());
  size_t to = o[k % o.size()];
  r.cur = to;
  r.switches += !leaving;
  size_t self = (size_t)me;
  sem_post(&r.t[to].sem);
  if (!leaving) while (sem_wait(&r.t[self].sem)) {}
}
inline void step(bool blocked = false) {
  Run *r = R;
  if (me < 0 || !r) return;
  r->points++;
  r->since++;
  if (blocked || r->since > r->plan.quantum) { r->since = 0; hand_over(*r, 0, false); return; }
  if (r->next < r->plan.swaps.size() && r->want-- == 0) {
    u32 to = r->plan.swaps[r->next].second;
    r->next++;
    if (r->next < r->plan.swaps.size()) r->want = r->plan.swaps[r->next].first;
    r->since = 0;
    hand_over(*r, to, false);
  }
}
inline void plain(const void *p, size_t n = 1) {
  if (me < 0 || !R) return;
  const char *c = (const char *)p;
  if (c + n > &__data_start && c < &_end) return step();
  for (auto &s : R->shared) if (c + n > s.first && c < s.second) return step();
}
inline Plan gen_plan(G &g, u32 maxswaps, u32 maxgap, u32 quantum) {
  Plan p;
  p.quantum = quantum;
  for (int n = (int)g.range(0, maxswaps); n; n--) {
    u32 lim = maxgap;
    while (lim > 4 && g.coin()) lim = lim / 4 + 1;
    u32 gap = (u32)g.below(lim + 1), to = (u32)g.below(3);
    p.swaps.push_back({gap, to});
  }
  return p;
}
// runs the bodies as threads under the plan; what they throw is thrown again here
inline Run run(const Plan &plan, std::vector<std::pair<const void *, size_t>> shared, const std::vector<std::function<void()>> &bodies) {
  Run r;
  r.plan = plan;
  r.t.resize(bodies.size());
  for (auto &s : shared) r.shared.push_back({(const char *)s.first, (const char *)s.first + s.second});
  for (auto &t : r.t) sem_init(&t.sem, 0, 0);
  if (!plan.swaps.empty()) r.want = plan.swaps[0].first;
  std::vector<std::exception_ptr> ex(bodies.size());
  R = &r;
  std::vector<std::thread> th;
  for (size_t i = 0; i < bodies.size(); i++)
    th.emplace_back([&, i] {
      while (sem_wait(&r.t[i].sem)) {}
      me = (int)i;
      try { bodies[i](); } catch (...) { ex[i] = std::current_exception(); }
      r.t[i].alive = false;
      r.since = 0;
      hand_over(r, 0, true);
      me = -1;
    });
  sem_post(&r.t[0].sem);
  for (auto &t : th) t.join();
  R = nullptr;
  for (auto &t : r.t) sem_destroy(&t.sem);
  for (auto &e : ex) if (e) std::rethrow_exception(e);
  return r;
}
}  // namespace sched

extern "C" {
inline __attribute__((used)) int sched_mutex_lock(pthread_mutex_t *m) {
  while (true) {
    int rc = pthread_mutex_trylock(m);
    if (rc != EBUSY) return rc;
    sched::step(true);
  }
}
inline __attribute__((used)) int sched_mtx_lock(pthread_mutex_t *m) { return sched_mutex_lock(m); }
inline __attribute__((used)) int sched_yield_now() { sched::step(true); return 0; }
inline __attribute__((used)) void sched_thrd_yield() { sched::step(true); }
#define SCHED_USED __attribute__((used, no_sanitize("all"))) inline
SCHED_USED void __tsan_init() {}
SCHED_USED void __tsan_func_entry(void *) {}
SCHED_USED void __tsan_func_exit() {}
SCHED_USED void __tsan_vptr_read(void **) {}
SCHED_USED void __tsan_vptr_update(void **, void *) {}
SCHED_USED void __tsan_ignore_thread_begin() {}
SCHED_USED void __tsan_ignore_thread_end() {}
#define SCHED_N(n) \
  SCHED_USED void __tsan_read##n(void *p) { sched::plain(p, n); } \
  SCHED_USED void __tsan_write##n(void *p) { sched::plain(p, n); } \
  SCHED_USED void __tsan_unaligned_read##n(void *p) { sched::plain(p, n); } \
  SCHED_USED void __tsan_unaligned_write##n(void *p) { sched::plain(p, n); } \
  SCHED_USED void __tsan_volatile_read##n(void *p) { sched::plain(p, n); } \
  SCHED_USED void __tsan_volatile_write##n(void *p) { sched::plain(p, n); } \
  SCHED_USED void __tsan_unaligned_volatile_read##n(void *p) { sched::plain(p, n); } \
  SCHED_USED void __tsan_unaligned_volatile_write##n(void *p) { sched::plain(p, n); } \
  SCHED_USED void __tsan_read_write##n(void *p) { sched::plain(p, n); } \
  SCHED_USED void __tsan_unaligned_read_write##n(void *p) { sched::plain(p, n); }
SCHED_N(1) SCHED_N(2) SCHED_N(4) SCHED_N(8) SCHED_N(16)
SCHED_USED void __tsan_read_range(void *p, unsigned long n) { sched::plain(p, n); }
SCHED_USED void __tsan_write_range(void *p, unsigned long n) { sched::plain(p, n); }
SCHED_USED void *__tsan_memcpy(void *d, const void *s, unsigned long n) { if (n) { sched::plain(s, n); sched::plain(d, n); } return memcpy(d, s, n); }
SCHED_USED void *__tsan_memmove(void *d, const void *s, unsigned long n) { if (n) { sched::plain(s, n); sched::plain(d, n); } return memmove(d, s, n); }
SCHED_USED void *__tsan_memset(void *d, int c, unsigned long n) { if (n) sched::plain(d, n); return memset(d, c, n); }
SCHED_USED void __tsan_atomic_thread_fence(int) {}
SCHED_USED void __tsan_atomic_signal_fence(int) {}
// one thread runs at a time, so plain operations are atomic
#define SCHED_A(n, T) \
  SCHED_USED T __tsan_atomic##n##_load(const volatile T *p, int) { sched::step(); return *p; } \
  SCHED_USED void __tsan_atomic##n##_store(volatile T *p, T v, int) { sched::step(); *p = v; } \
  SCHED_USED T __tsan_atomic##n##_exchange(volatile T *p, T v, int) { sched::step(); T o = *p; *p = v; return o; } \
  SCHED_USED T __tsan_atomic##n##_fetch_add(volatile T *p, T v, int) { sched::step(); T o = *p; *p = (T)(o + v); return o; } \
  SCHED_USED T __tsan_atomic##n##_fetch_sub(volatile T *p, T v, int) { sched::step(); T o = *p; *p = (T)(o - v); return o; } \
  SCHED_USED T __tsan_atomic##n##_fetch_and(volatile T *p, T v, int) { sched::step(); T o = *p; *p = (T)(o & v); return o; } \
  SCHED_USED T __tsan_atomic##n##_fetch_or(volatile T *p, T v, int) { sched::step(); T o = *p; *p = (T)(o | v); return o; } \
  SCHED_USED T __tsan_atomic##n##_fetch_xor(volatile T *p, T v, int) { sched::step(); T o = *p; *p = (T)(o ^ v); return o; } \
  SCHED_USED T __tsan_atomic##n##_fetch_nand(volatile T *p, T v, int) { sched::step(); T o = *p; *p = (T)~(o & v); return o; } \
  SCHED_USED int __tsan_atomic##n##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { sched::step(); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
  SCHED_USED int __tsan_atomic##n##_compare_exchange_weak(volatile T *p, T *e, T v, int a, int b) { return __tsan_atomic##n##_compare_exchange_strong(p, e, v, a, b); } \
  SCHED_USED T __tsan_atomic##n##_compare_exchange_val(volatile T *p, T e, T v, int, int) { sched::step(); T o = *p; if (o == e) *p = v; return o; }
SCHED_A(8, uint8_t) SCHED_A(16, uint16_t) SCHED_A(32, uint32_t) SCHED_A(64, uint64_t)
}
