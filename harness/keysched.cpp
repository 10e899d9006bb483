// Drives the real key generator through given schedules.  The generator is
// compiled so that each of its memory accesses calls one of the functions
// below; there a thread waits for its turn.
#include <pthread.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstdint>
#include <cstring>
#include <mutex>
#include <thread>
#include "rp.hpp"
using rp::json;
void drawKey(size_t* out);

struct Sched {
  std::mutex m;
  std::condition_variable cv;
  std::vector<int> plan;
  size_t pos = 0;
  int n = 0, turn = -1, rr = 0;
  std::vector<char> waiting, done, blocked;   // blocked: inside something that is not a point
  long points = 0;
  bool active = false;
};
static Sched S;
static thread_local int self = -1;

// picks the next thread; caller holds the lock
static void pick() {
  if (!S.active) { S.turn = -1; S.cv.notify_all(); return; }
  int want = -1;
  if (S.pos < S.plan.size()) {
    want = S.plan[S.pos++];
    if (!S.waiting[want] || S.done[want]) want = -1;
  }
  if (want < 0)
    for (int k = 1; k <= S.n; ++k) {
      int t = (S.rr + k) % S.n;
      if (S.waiting[t] && !S.done[t]) { want = t; break; }
    }
  S.turn = want;
  if (want >= 0) S.rr = want;
  S.cv.notify_all();
}
static void point() {
  if (self < 0) return;
  std::unique_lock<std::mutex> l(S.m);
  if (!S.active) return;
  ++S.points;
  S.waiting[self] = 1;
  if (S.turn == self || S.turn < 0) {
    // this thread had the turn: the next goes, once all that can arrive have arrived
    pick();
  }
  while (S.active && S.turn != self) {
    if (S.cv.wait_for(l, std::chrono::milliseconds(60)) == std::cv_status::timeout && S.active && S.turn != self) {
      // the thread that has the turn does not come back: it waits for another one
      if (S.turn < 0 || !S.waiting[S.turn]) {
        pick();
      }
    }
  }
  S.waiting[self] = 0;
}
static void leave() {
  std::unique_lock<std::mutex> l(S.m);
  S.done[self] = 1;
  S.waiting[self] = 0;
  if (S.turn == self || S.turn < 0) pick();
}

extern "C" {
// locks of the generator: taken only when free, otherwise the turn goes on
int vf_mutex_lock(pthread_mutex_t* m) {
  if (self < 0) return pthread_mutex_lock(m);
  point();
  while (true) {
    int r = pthread_mutex_trylock(m);
    if (r == 0) return 0;
    point();
    if (!S.active) return pthread_mutex_lock(m);
  }
}
int vf_mutex_trylock(pthread_mutex_t* m) { point(); return pthread_mutex_trylock(m); }
int vf_mutex_unlock(pthread_mutex_t* m) {
  point();
  int r = pthread_mutex_unlock(m);
  point();
  return r;
}
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void**) {}
#define RW(n) void __tsan_read##n(void*) { point(); } void __tsan_write##n(void*) { point(); } \
  void __tsan_unaligned_read##n(void*) { point(); } void __tsan_unaligned_write##n(void*) { point(); } \
  void __tsan_volatile_read##n(void*) { point(); } void __tsan_volatile_write##n(void*) { point(); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void*, unsigned long) { point(); }
void __tsan_write_range(void*, unsigned long) { point(); }
void* __tsan_memcpy(void* d, const void* s, unsigned long n) { return memcpy(d, s, n); }
void* __tsan_memset(void* d, int c, unsigned long n) { return memset(d, c, n); }
void* __tsan_memmove(void* d, const void* s, unsigned long n) { return memmove(d, s, n); }
#define AT(b, T) \
  T __tsan_atomic##b##_load(const volatile T* a, int) { point(); return __atomic_load_n(a, 5); } \
  void __tsan_atomic##b##_store(volatile T* a, T v, int) { point(); __atomic_store_n(a, v, 5); } \
  T __tsan_atomic##b##_exchange(volatile T* a, T v, int) { point(); return __atomic_exchange_n(a, v, 5); } \
  T __tsan_atomic##b##_fetch_add(volatile T* a, T v, int) { point(); return __atomic_fetch_add(a, v, 5); } \
  T __tsan_atomic##b##_fetch_sub(volatile T* a, T v, int) { point(); return __atomic_fetch_sub(a, v, 5); } \
  T __tsan_atomic##b##_fetch_and(volatile T* a, T v, int) { point(); return __atomic_fetch_and(a, v, 5); } \
  T __tsan_atomic##b##_fetch_or(volatile T* a, T v, int) { point(); return __atomic_fetch_or(a, v, 5); } \
  T __tsan_atomic##b##_fetch_xor(volatile T* a, T v, int) { point(); return __atomic_fetch_xor(a, v, 5); } \
  int __tsan_atomic##b##_compare_exchange_strong(volatile T* a, T* e, T v, int, int) { point(); return __atomic_compare_exchange_n(a, e, v, 0, 5, 5); } \
  int __tsan_atomic##b##_compare_exchange_weak(volatile T* a, T* e, T v, int, int) { point(); return __atomic_compare_exchange_n(a, e, v, 0, 5, 5); } \
  T __tsan_atomic##b##_compare_exchange_val(volatile T* a, T e, T v, int, int) { point(); __atomic_compare_exchange_n(a, &e, v, 0, 5, 5); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}

int main() {
  size_t k0;
  drawKey(&k0);   // statics are initialised before threads compete
  return rp::loop([](const json& c) -> json {
    int n = c["threads"], draws = c["draws"];
    std::vector<std::vector<size_t>> got(n, std::vector<size_t>(draws, 0));
    {
      std::unique_lock<std::mutex> l(S.m);
      S.plan = c["sched"].get<std::vector<int>>();
      for (int& x : S.plan) x -= 1;
      S.pos = 0;
      S.n = n;
      S.turn = -2;
      S.rr = n - 1;
      S.waiting.assign(n, 0);
      S.done.assign(n, 0);
      S.points = 0;
      S.active = true;
    }
    std::vector<std::thread> th;
    for (int i = 0; i < n; ++i)
      th.emplace_back([&, i] {
        self = i;
        {
          // all wait at the start
          std::unique_lock<std::mutex> l(S.m);
          S.waiting[i] = 1;
          S.cv.notify_all();
          while (S.turn != i) S.cv.wait_for(l, std::chrono::milliseconds(60));
          S.waiting[i] = 0;
        }
        for (int d = 0; d < draws; ++d) drawKey(&got[i][d]);
        leave();
        self = -1;
      });
    {
      std::unique_lock<std::mutex> l(S.m);
      while (true) {
        bool all = true;
        for (int i = 0; i < n; ++i) all = all && S.waiting[i];
        if (all) break;
        S.cv.wait_for(l, std::chrono::milliseconds(60));
      }
      pick();
    }
    for (auto& t : th) t.join();
    json r;
    r["points"] = S.points;
    r["got"] = got;
    return r;
  }, 1400);
}
