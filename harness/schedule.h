// Deterministic scheduler for real threads: one thread runs at a time and hands over only at
// yield points (sleeps, contended locks, condition waits, log calls, clock and parameter reads,
// controller and hardware callbacks). Who runs next is drawn from the case. Clocks are virtual.
#pragma once
#include "pbt.h"
#include <ros/time.h>
#include <ros/console.h>
#include <cerrno>
#include <dlfcn.h>
#include <functional>
#include <pthread.h>
#include <semaphore.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <vector>

#ifdef SCHED_INVISIBLE     // for ThreadSanitizer: handing over must not look like synchronisation of the code under test
#include <linux/futex.h>
extern "C" { void AnnotateIgnoreReadsBegin(const char*, int); void AnnotateIgnoreReadsEnd(const char*, int); void AnnotateIgnoreWritesBegin(const char*, int); void AnnotateIgnoreWritesEnd(const char*, int); }
#endif

namespace sched {
// while one exists, what its thread does is the harness's business (robot.cpp counts allocations, races.cpp looks for data races)
inline thread_local int paused = 0;
#ifdef SCHED_INVISIBLE
struct Pause { Pause() { ++paused; AnnotateIgnoreReadsBegin(__FILE__, __LINE__); AnnotateIgnoreWritesBegin(__FILE__, __LINE__); } ~Pause() { AnnotateIgnoreWritesEnd(__FILE__, __LINE__); AnnotateIgnoreReadsEnd(__FILE__, __LINE__); --paused; } };
struct Sem { int v = 0; void init() { v = 0; } void post() { __atomic_fetch_add(&v, 1, __ATOMIC_SEQ_CST); syscall(SYS_futex, &v, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); } void wait() { for (;;) { int c = __atomic_load_n(&v, __ATOMIC_SEQ_CST); if (c > 0) { if (__atomic_compare_exchange_n(&v, &c, c - 1, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) return; } else syscall(SYS_futex, &v, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); } } };
#else
struct Pause { Pause() { ++paused; } ~Pause() { --paused; } };
struct Sem { sem_t s; void init() { sem_init(&s, 0, 0); } void post() { sem_post(&s); } void wait() { while (sem_wait(&s)) {} } };
#endif
struct Thread { Sem sem; std::function<void()> body; bool done = false; bool rt = false; unsigned hold = 0; pthread_t id; const char* where = "start"; };
struct Sched {
  pbt::Src* s = nullptr; std::vector<Thread*> th; int cur = -1; Sem finished; uint64_t steps = 0, limit = 200000; unsigned softDen = 0; bool rtAtomic = true, active = false;
  unsigned fine = 0, left = 0; uint64_t accesses = 0, preempted = 0; // memory accesses of the repository's code between preemptions (0: none)
  std::function<void(const char*)> onBlock;      // the running thread must wait (contended lock, sleep)
  std::function<void()> onHang;                  // step limit reached
};
inline Sched*& S() { static Sched* p = nullptr; return p; }
inline thread_local int me = -1;                 // index of the managed thread
inline int64_t& wall() { static int64_t t = 1700000000000000000LL; return t; }

inline int pickOther() { auto& c = *S(); std::vector<int> o, held; int n = (int)c.th.size(); for (int k = 1; k < n; ++k) { int j = (c.cur + k) % n; if (c.th[j]->done) continue; if (c.th[j]->hold) { --c.th[j]->hold; held.push_back(j); } else o.push_back(j); } if (o.empty() && c.cur >= 0 && c.th[c.cur]->done) o = held; if (o.empty()) return -1; return o.size() == 1 ? o[0] : o[c.s->index(o.size())]; }
inline void transfer(int to) { auto& c = *S(); int self = c.cur; c.cur = to; c.th[to]->sem.post(); if (self >= 0 && !c.th[self]->done) c.th[self]->sem.wait(); }
inline void yieldHard(const char* where) { Pause pause; auto& c = *S(); if (++c.steps % c.limit == 0 && c.onHang) c.onHang(); c.th[c.cur]->where = where; int to = pickOther(); if (to >= 0) transfer(to); }
inline void yieldSoft(const char* where) { Pause pause; if (!S() || !S()->active || me < 0 || me != S()->cur) return; auto& c = *S(); if (c.th[me]->rt && c.rtAtomic) return; if (++c.steps % c.limit == 0 && c.onHang) c.onHang(); if (!c.softDen || !c.s->chance(1, c.softDen)) return; c.th[me]->where = where; int to = pickOther(); if (to >= 0) transfer(to); }
inline void access()
{
  Pause pause; if (!S() || !S()->active || !S()->fine || me < 0 || me != S()->cur) return; auto& c = *S(); ++c.accesses; if (c.left && --c.left) return; bool first = !c.preempted++; c.left = 1 + (unsigned)c.s->index(c.s->chance(1, 4) ? 8 * c.fine : c.fine); if (first) return;
  if (c.th[me]->rt && c.rtAtomic) return; if (++c.steps % c.limit == 0 && c.onHang) c.onHang(); c.th[me]->where = "memory access"; if (c.s->boolean()) c.th[me]->hold = 1 + (unsigned)c.s->index(c.s->boolean() ? 100 : 10); int to = pickOther(); if (to >= 0) transfer(to);
}
inline bool managed() { return S() && S()->active && me >= 0; }
inline void hookYield(const char* w) { yieldSoft(w); }
inline void hookLog(int, const char* w) { yieldSoft(w); }
inline void* entry(void* p) { auto* t = (Thread*)p; t->sem.wait(); for (size_t i = 0; i < S()->th.size(); ++i) if (S()->th[i] == t) me = (int)i; t->body(); t->done = true; auto& c = *S(); int to = pickOther(); me = -1; if (to >= 0) { c.cur = to; c.th[to]->sem.post(); } else c.finished.post(); return nullptr; }
// runs all threads to their end
inline void run(Sched& c)
{
  S() = &c; c.finished.init(); c.active = true; ros::shim::yieldHook() = hookYield; ros::shim::logHook() = hookLog;
  pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 1 << 20);
  for (auto* t : c.th) { t->sem.init(); if (pthread_create(&t->id, &a, entry, t)) { perror("pthread_create"); _exit(3); } }
  c.cur = 0; c.th[0]->sem.post(); c.finished.wait();
  for (auto* t : c.th) pthread_join(t->id, nullptr);
  c.active = false; S() = nullptr; ros::shim::yieldHook() = nullptr; ros::shim::logHook() = nullptr; pthread_attr_destroy(&a);
}
inline void virtualSleep(int64_t ns, const char* w) { Pause pause; auto& c = *S(); if (c.onBlock) c.onBlock(w); wall() += ns > 0 ? ns : 0; yieldHard(w); }
}
#ifdef SCHED_INTERPOSE
// called before every load and store of the repository's code, where it is compiled that way
#define SCHED_ACCESS(n) extern "C" void __sanitizer_cov_load##n(void*) { sched::access(); } extern "C" void __sanitizer_cov_store##n(void*) { sched::access(); }
SCHED_ACCESS(1) SCHED_ACCESS(2) SCHED_ACCESS(4) SCHED_ACCESS(8) SCHED_ACCESS(16)
// ---- interposed system interfaces (only managed threads see anything unusual) -----------------
extern "C" {
int nanosleep(const struct timespec* r, struct timespec* rem) { if (sched::managed()) { sched::virtualSleep(r->tv_sec * 1000000000LL + r->tv_nsec, "sleep"); return 0; } return (int)syscall(SYS_nanosleep, r, rem); }
int clock_nanosleep(clockid_t c, int flags, const struct timespec* r, struct timespec* rem) { if (sched::managed()) { int64_t ns = r->tv_sec * 1000000000LL + r->tv_nsec; if (flags & TIMER_ABSTIME) ns -= sched::wall(); sched::virtualSleep(ns, "sleep"); return 0; } return syscall(SYS_clock_nanosleep, c, flags, r, rem) ? errno : 0; }
int usleep(useconds_t us) { if (sched::managed()) { sched::virtualSleep((int64_t)us * 1000, "sleep"); return 0; } struct timespec t = {(time_t)(us / 1000000), (long)(us % 1000000) * 1000}; return (int)syscall(SYS_nanosleep, &t, nullptr); }
int sched_yield(void) noexcept { if (sched::managed()) { sched::virtualSleep(1000, "sched_yield"); return 0; } return (int)syscall(SYS_sched_yield); }
int clock_gettime(clockid_t c, struct timespec* t) noexcept { if (sched::managed() && (c == CLOCK_REALTIME || c == CLOCK_MONOTONIC)) { sched::yieldSoft("clock"); t->tv_sec = sched::wall() / 1000000000LL; t->tv_nsec = sched::wall() % 1000000000LL; return 0; } return (int)syscall(SYS_clock_gettime, c, t); }
int pthread_mutex_lock(pthread_mutex_t* m) noexcept
{
  if (!sched::managed()) { int r; while ((r = pthread_mutex_trylock(m)) == EBUSY) syscall(SYS_sched_yield); return r; }
  sched::yieldSoft("lock"); int r; while ((r = pthread_mutex_trylock(m)) == EBUSY) { auto& c = *sched::S(); if (c.onBlock) c.onBlock("lock"); sched::yieldHard("lock"); } return r;
}
#define SCHED_LOCK(name, attempt, T) int name(T* m) noexcept { int r; while ((r = attempt(m)) == EBUSY) { if (!sched::managed()) { syscall(SYS_sched_yield); continue; } auto& c = *sched::S(); if (c.onBlock) c.onBlock("lock"); sched::yieldHard("lock"); } return r; }
SCHED_LOCK(pthread_rwlock_rdlock, pthread_rwlock_tryrdlock, pthread_rwlock_t) SCHED_LOCK(pthread_rwlock_wrlock, pthread_rwlock_trywrlock, pthread_rwlock_t)
#define SCHED_TIMED(name, clock, ...) int name(pthread_mutex_t* m, ##__VA_ARGS__, const struct timespec* t) noexcept { int r; while ((r = pthread_mutex_trylock(m)) == EBUSY) { struct timespec now; clock_gettime(clock, &now); if (now.tv_sec > t->tv_sec || (now.tv_sec == t->tv_sec && now.tv_nsec >= t->tv_nsec)) return ETIMEDOUT; usleep(100); } return r; }
SCHED_TIMED(pthread_mutex_timedlock, CLOCK_REALTIME) SCHED_TIMED(pthread_mutex_clocklock, k, clockid_t k)
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{ if (!sched::managed()) { static auto real = (int (*)(pthread_cond_t*, pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_cond_wait"); return real(c, m); } pthread_mutex_unlock(m); sched::virtualSleep(1000, "condition"); return pthread_mutex_lock(m); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t)
{ if (!sched::managed()) { static auto real = (int (*)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*))dlsym(RTLD_NEXT, "pthread_cond_timedwait"); return real(c, m, t); } pthread_mutex_unlock(m); sched::virtualSleep(100000, "condition"); bool late = sched::wall() >= t->tv_sec * 1000000000LL + t->tv_nsec; pthread_mutex_lock(m); return late ? ETIMEDOUT : 0; }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t)
{ if (!sched::managed()) { static auto real = (int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*))dlsym(RTLD_NEXT, "pthread_cond_clockwait"); return real(c, m, k, t); } return pthread_cond_timedwait(c, m, t); }
}
#endif
