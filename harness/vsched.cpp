#include "vsched.h"
#include <atomic>
#include <cerrno>
#include <climits>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include <vector>

namespace vs {
std::function<void(const std::string&)> onFail;
std::function<void()>                   onWait;
std::string                             trace;

namespace {
enum State { READY, MUTEX, RWR, RWW, COND, TCOND, JOIN, DONE };
struct Th {
  int              id = 0, name = 0;
  State            st = READY;
  void*            obj = nullptr;   // what it waits for
  Th*              target = nullptr;
  bool             lazy = false;    // sleeping or yielding: may run, but others first
  bool             timedout = false, signalled = false, joined = false;
  long             prio = 0;
  pthread_t        pt{};
  std::atomic<int> go{0};
  char*            lo = nullptr;
  char*            hi = nullptr;
  void* (*fn)(void*) = nullptr;
  void* arg = nullptr;
};
struct Mx { Th* owner = nullptr; int depth = 0; };
struct Rw { Th* writer = nullptr; int readers = 0; };

std::atomic<bool>                on{false};
Config                           cfg;
std::vector<Th*>                 ths;
std::unordered_map<void*, Mx>    mxs;
std::unordered_map<void*, Rw>    rws;
thread_local Th*                 self = nullptr;
thread_local bool                inside = false;   // in the scheduler itself
Th*                              cur = nullptr;
uint64_t                         rs = 1;
long                             nsteps = 0;
std::vector<long>                change;
long                             lowprio = 0;

struct In { In() { inside = true; } ~In() { inside = false; } };

template <typename F> F real(const char* n) {
  static_assert(sizeof(F) == sizeof(void*), "");
  void* p = dlsym(RTLD_NEXT, n);
  if (!p) { fprintf(stderr, "vsched: no %s\n", n); _exit(70); }
  F f; memcpy(&f, &p, sizeof p); return f;
}
void fwait(std::atomic<int>& a) {
  while (a.load() == 0) syscall(SYS_futex, (int*)&a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  a.store(0);
}
void fwake(std::atomic<int>& a) {
  a.store(1);
  syscall(SYS_futex, (int*)&a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}
uint64_t next() {
  rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17;
  return rs * 0x2545F4914F6CDD1DULL;
}
double uni() { return (next() >> 11) * (1.0 / 9007199254740992.0); }

bool enabled(Th* t) { return t->st == READY || t->st == TCOND || (t->st == COND && cfg.spurious > 0); }

[[noreturn]] void fail(const char* k) {
  if (onFail) onFail(k);
  _exit(71);
}

// choose the next thread; self may or may not be able to continue
Th* choose(bool mayStay) {
  std::vector<Th*> r, lazy;
  for (auto t : ths) {
    if (t->st == DONE || t->st == MUTEX || t->st == RWR || t->st == RWW || t->st == JOIN) continue;
    if (t->st == COND) { if (cfg.spurious > 0 && uni() < cfg.spurious) r.push_back(t); continue; }
    if (t->st == TCOND || t->lazy) lazy.push_back(t); else r.push_back(t);
  }
  if (r.empty() && lazy.empty()) return nullptr;
  if (cfg.mode == 1) {
    auto& s = r.empty() ? lazy : r;
    // sleepers wake up now and then even if others could run
    if (!r.empty() && !lazy.empty() && uni() < 0.05) return lazy[next() % lazy.size()];
    if (r.empty()) return lazy[next() % lazy.size()];
    Th* b = s[0];
    for (auto t : s) if (t->prio > b->prio) b = t;
    return b;
  }
  if (r.empty() || (!lazy.empty() && uni() < 0.12)) return lazy[next() % lazy.size()];
  return r[next() % r.size()];
}

void switchTo(Th* t) {
  Th* me = self;
  t->lazy = false;
  if (t->st == TCOND) { t->timedout = true; t->st = READY; }
  else if (t->st == COND) { t->st = READY; }
  if (t == me) { cur = t; return; }
  cur = t;
  bool done = me && me->st == DONE;
  fwake(t->go);
  if (!done) fwait(me->go);
}
void reschedule(bool mayStay) {
  if (++nsteps > cfg.max_steps) fail("stuck");
  if (cfg.mode == 1)
    for (auto c : change) if (c == nsteps) self->prio = --lowprio;
  Th* t = choose(mayStay);
  if (!t) {
    bool all = true;
    for (auto x : ths) if (x->st != DONE) all = false;
    if (all) return;
    fail("deadlock");
  }
  switchTo(t);
}
void pt(double p) {
  if (cfg.mode == 0 && uni() >= p) {
    if (++nsteps > cfg.max_steps) fail("stuck");
    return;
  }
  reschedule(true);
}
void block(State s, void* o) {
  self->st = s; self->obj = o;
  reschedule(false);
}
void wakeAll(State s, void* o) {
  for (auto t : ths) if (t->st == s && t->obj == o) t->st = READY;
}
void stackBounds(Th* t) {
  pthread_attr_t a; void* addr; size_t sz;
  if (pthread_getattr_np(pthread_self(), &a) == 0) {
    pthread_attr_getstack(&a, &addr, &sz);
    t->lo = (char*)addr; t->hi = t->lo + sz;
    pthread_attr_destroy(&a);
  }
}
Th* newTh() {
  Th* t = new Th;
  t->id = (int)ths.size();
  t->name = -1;
  t->prio = (long)(next() >> 40) + 1000;
  ths.push_back(t);
  return t;
}
void* trampoline(void* v) {
  Th* t = (Th*)v;
  self = t;
  fwait(t->go);
  t->pt = pthread_self();
  { In in; stackBounds(t); }
  void* r = t->fn(t->arg);
  In in;
  t->st = DONE;
  for (auto x : ths) if (x->st == JOIN && x->target == t) x->st = READY;
  reschedule(false);
  self = nullptr;
  return r;
}
bool ctl() { return on.load(std::memory_order_relaxed) && self && !inside; }

void mxLock(pthread_mutex_t* m) {
  auto* q = &mxs[m];
  bool rec = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
  while (q->owner) {
    if (q->owner == self) {
      if (rec) { ++q->depth; return; }
      fail("deadlock");
    }
    block(MUTEX, m);
    q = &mxs[m];
  }
  q->owner = self; q->depth = 1;
}
int mxUnlock(pthread_mutex_t* m) {
  auto& q = mxs[m];
  if (q.owner != self) fail("badunlock");
  if (--q.depth == 0) { q.owner = nullptr; wakeAll(MUTEX, m); }
  return 0;
}
}  // namespace

bool active() { return on; }
int  tid() { return self ? self->id : -1; }
void setName(int n) { if (self) self->name = n; }
int  name() { return self ? self->name : -1; }
uint64_t rnd() { return next(); }
long steps() { return nsteps; }
Quiet::Quiet() : was(inside) { inside = true; }
Quiet::~Quiet() { inside = was; }
void log(const std::string& s) { Quiet q; trace += s; trace += '\n'; }
void point() { if (ctl()) { In in; pt(cfg.p); } }

void begin(const Config& c) {
  cfg = c;
  rs = c.seed * 0x9E3779B97F4A7C15ULL + 0x1234567;
  if (!rs) rs = 88172645463325252ULL;
  for (int i = 0; i < 8; ++i) next();
  nsteps = 0; lowprio = 0;
  for (auto t : ths) delete t;
  ths.clear(); mxs.clear(); rws.clear(); change.clear();
  for (int i = 0; i < c.depth; ++i) change.push_back(1 + (long)(next() % (uint64_t)c.expect));
  self = newTh();
  self->pt = pthread_self();
  stackBounds(self);
  cur = self;
  on = true;
}
void end() {
  on = false;
  self = nullptr;
}
}  // namespace vs

using namespace vs;
#define REAL(ret, name, ...) static auto r = real<ret (*)(__VA_ARGS__)>(#name)

extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) {
  REAL(int, pthread_mutex_lock, pthread_mutex_t*);
  if (!ctl()) return r(m);
  In in; pt(cfg.p); mxLock(m); return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  REAL(int, pthread_mutex_trylock, pthread_mutex_t*);
  if (!ctl()) return r(m);
  In in; pt(cfg.p);
  auto& q = mxs[m];
  if (q.owner) {
    if (q.owner == self && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) { ++q.depth; return 0; }
    return EBUSY;
  }
  q.owner = self; q.depth = 1; return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  REAL(int, pthread_mutex_unlock, pthread_mutex_t*);
  if (!ctl()) return r(m);
  In in; mxUnlock(m); pt(cfg.p); return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
  REAL(int, pthread_mutex_destroy, pthread_mutex_t*);
  if (!ctl()) return r(m);
  In in;
  auto it = mxs.find(m);
  if (it != mxs.end()) { if (it->second.owner) return EBUSY; mxs.erase(it); }
  return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* t) {
  REAL(int, pthread_mutex_timedlock, pthread_mutex_t*, const struct timespec*);
  if (!ctl()) return r(m, t);
  In in; pt(cfg.p); mxLock(m); return 0;
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* t) {
  REAL(int, pthread_mutex_clocklock, pthread_mutex_t*, clockid_t, const struct timespec*);
  if (!ctl()) return r(m, c, t);
  In in; pt(cfg.p); mxLock(m); return 0;
}

static int condWait(pthread_cond_t* c, pthread_mutex_t* m, bool timed) {
  if (onWait) { inside = false; onWait(); inside = true; }
  mxUnlock(m);
  self->timedout = false; self->signalled = false;
  block(timed ? TCOND : COND, c);
  bool to = self->timedout;
  self->timedout = false;
  mxLock(m);
  return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  REAL(int, pthread_cond_wait, pthread_cond_t*, pthread_mutex_t*);
  if (!ctl()) return r(c, m);
  In in; return condWait(c, m, false);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) {
  REAL(int, pthread_cond_timedwait, pthread_cond_t*, pthread_mutex_t*, const struct timespec*);
  if (!ctl()) return r(c, m, t);
  In in; return condWait(c, m, true);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) {
  REAL(int, pthread_cond_clockwait, pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*);
  if (!ctl()) return r(c, m, k, t);
  In in; return condWait(c, m, true);
}
int pthread_cond_signal(pthread_cond_t* c) {
  REAL(int, pthread_cond_signal, pthread_cond_t*);
  if (!ctl()) return r(c);
  In in;
  std::vector<Th*> w;
  for (auto t : ths) if ((t->st == COND || t->st == TCOND) && t->obj == c) w.push_back(t);
  if (!w.empty()) w[next() % w.size()]->st = READY;
  pt(cfg.p);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  REAL(int, pthread_cond_broadcast, pthread_cond_t*);
  if (!ctl()) return r(c);
  In in; wakeAll(COND, c); wakeAll(TCOND, c); pt(cfg.p); return 0;
}
int pthread_cond_destroy(pthread_cond_t* c) {
  REAL(int, pthread_cond_destroy, pthread_cond_t*);
  if (!ctl()) return r(c);
  return 0;
}

static void rwRd(pthread_rwlock_t* l) {
  while (rws[l].writer) block(RWR, l);
  ++rws[l].readers;
}
static void rwWr(pthread_rwlock_t* l) {
  while (rws[l].writer || rws[l].readers) { if (rws[l].writer == self) fail("deadlock"); block(RWW, l); }
  rws[l].writer = self;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) {
  REAL(int, pthread_rwlock_rdlock, pthread_rwlock_t*);
  if (!ctl()) return r(l);
  In in; pt(cfg.p); rwRd(l); return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l) {
  REAL(int, pthread_rwlock_wrlock, pthread_rwlock_t*);
  if (!ctl()) return r(l);
  In in; pt(cfg.p); rwWr(l); return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) {
  REAL(int, pthread_rwlock_tryrdlock, pthread_rwlock_t*);
  if (!ctl()) return r(l);
  In in; pt(cfg.p); if (rws[l].writer) return EBUSY; ++rws[l].readers; return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) {
  REAL(int, pthread_rwlock_trywrlock, pthread_rwlock_t*);
  if (!ctl()) return r(l);
  In in; pt(cfg.p); if (rws[l].writer || rws[l].readers) return EBUSY; rws[l].writer = self; return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
  REAL(int, pthread_rwlock_unlock, pthread_rwlock_t*);
  if (!ctl()) return r(l);
  In in;
  auto& q = rws[l];
  if (q.writer) q.writer = nullptr; else --q.readers;
  wakeAll(RWR, l); wakeAll(RWW, l);
  pt(cfg.p); return 0;
}

int pthread_create(pthread_t* p, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
  REAL(int, pthread_create, pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
  if (!ctl()) return r(p, a, fn, arg);
  In  in;
  Th* t = newTh();
  t->fn = fn; t->arg = arg;
  int e = r(&t->pt, a, trampoline, t);
  if (e) { t->st = DONE; return e; }
  *p = t->pt;
  pt(cfg.p);
  return 0;
}
int pthread_join(pthread_t p, void** v) {
  REAL(int, pthread_join, pthread_t, void**);
  if (!ctl()) return r(p, v);
  In in;
  if (onWait) { inside = false; onWait(); inside = true; }
  for (auto t : ths)
    if (!t->joined && pthread_equal(t->pt, p) && t != self) {
      while (t->st != DONE) { self->target = t; block(JOIN, t); }
      t->joined = true;
      break;
    }
  int e = r(p, v);
  pt(cfg.p);
  return e;
}
static void nap() {
  if (onWait) { inside = false; onWait(); inside = true; }
  self->lazy = true;
  if (cfg.mode == 1) self->prio = --lowprio;
  reschedule(true);
}
int nanosleep(const struct timespec* t, struct timespec* rem) {
  REAL(int, nanosleep, const struct timespec*, struct timespec*);
  if (!ctl()) return r(t, rem);
  In in; nap(); return 0;
}
int clock_nanosleep(clockid_t c, int f, const struct timespec* t, struct timespec* rem) {
  REAL(int, clock_nanosleep, clockid_t, int, const struct timespec*, struct timespec*);
  if (!ctl()) return r(c, f, t, rem);
  In in; nap(); return 0;
}
int usleep(useconds_t u) {
  REAL(int, usleep, useconds_t);
  if (!ctl()) return r(u);
  In in; nap(); return 0;
}
int sched_yield() {
  REAL(int, sched_yield);
  if (!ctl()) return r();
  In in; self->lazy = true; reschedule(true); return 0;
}

#ifndef __SANITIZE_ADDRESS__
// ---- runtime of -fsanitize=thread code: shared accesses are scheduling points
static inline void mem(void* a) {
  if (!ctl()) return;
  char* p = (char*)a;
  if (p >= self->lo && p < self->hi) return;
  In in; pt(cfg.pmem);
}
static inline void atom() { if (ctl()) { In in; pt(cfg.p); } }
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void* a) { mem(a); } void __tsan_write##n(void* a) { mem(a); } \
  void __tsan_unaligned_read##n(void* a) { mem(a); } void __tsan_unaligned_write##n(void* a) { mem(a); } \
  void __tsan_volatile_read##n(void* a) { mem(a); } void __tsan_volatile_write##n(void* a) { mem(a); } \
  void __tsan_read##n##_pc(void* a, void*) { mem(a); } void __tsan_write##n##_pc(void* a, void*) { mem(a); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, unsigned long) { mem(a); }
void __tsan_write_range(void* a, unsigned long) { mem(a); }
void __tsan_vptr_update(void** a, void* v) { mem(a); }
void __tsan_vptr_read(void** a) { mem(a); }
#define AT(n, T) \
  T __tsan_atomic##n##_load(const volatile T* a, int) { atom(); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##n##_store(volatile T* a, T v, int) { atom(); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_exchange(volatile T* a, T v, int) { atom(); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_add(volatile T* a, T v, int) { atom(); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_sub(volatile T* a, T v, int) { atom(); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_and(volatile T* a, T v, int) { atom(); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_or(volatile T* a, T v, int) { atom(); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_xor(volatile T* a, T v, int) { atom(); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_nand(volatile T* a, T v, int) { atom(); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##n##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { atom(); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##n##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { atom(); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_compare_exchange_val(volatile T* a, T c, T v, int, int) { atom(); __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
#endif
}
