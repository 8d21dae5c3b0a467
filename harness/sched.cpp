// Runs the threads of a program one at a time and decides at every
// synchronization which one continues.  The pthread functions, futex calls and
// yields of the program are replaced; no change of the program is needed.
// Sources compiled with -fsanitize=thread also report their memory accesses to
// this file: accesses that are not ordered by synchronization become
// scheduling points in later runs of the same process.
// This file itself is compiled without instrumentation and linked without libtsan.
#include "sched.hpp"
#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <linux/futex.h>
#include <malloc.h>
#include <map>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <set>
#include <sys/syscall.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>

namespace {

typedef std::vector<unsigned> Clock;
void join(Clock& a, const Clock& b)
{
  if (a.size() < b.size()) a.resize(b.size(), 0);
  for (size_t i = 0; i < b.size(); i++) a[i] = std::max(a[i], b[i]);
}

enum Status { RUN, MUTEX, COND, JOIN, FUTEX, DONE };

struct Thread {
  int id;
  Status st;
  const void* on;
  bool timed, timedOut;
  int prio;
  pthread_t handle;
  sem_t go;
  Clock vc;
  void* (*fn)(void*);
  void* arg;
  void* result;
  bool joined;
};

struct Lock { Thread* owner; int count; int readers; Clock vc; };

struct Access { int tid; unsigned clk; unsigned char mask; bool write; const void* pc; };

struct State {
  std::vector<Thread*> threads;
  std::map<const void*, Lock> locks;
  std::map<const void*, Clock> syncs;
  std::unordered_map<uintptr_t, std::vector<Access>> shadow;
  std::unordered_set<const void*> racy;     // instructions
  int alive;
  sched::Mode mode;
  uint64_t rnd;
  bool stutter;
  int density;                              // of random switches, in 1/8
  std::set<long> changes;
  std::vector<int> prefix;
  sched::Report rep;
  void (*dead)(const char*);
  bool recording;
};

State* S;
__thread Thread* me;
__thread int inside;

struct Inside { Inside() { inside++; } ~Inside() { inside--; } };

uint64_t rnd()
{
  S->rnd ^= S->rnd << 13; S->rnd ^= S->rnd >> 7; S->rnd ^= S->rnd << 17;
  return S->rnd * 2685821657736338717ull >> 11;
}

template <class F> F real(const char* name) { return (F) dlsym(RTLD_NEXT, name); }

void setup()
{
  if (S) return;
  inside++;
  S = new (malloc(sizeof(State))) State();
  S->rnd = 88172645463325252ull;
  S->density = 8;
  me = new Thread();
  me->id = 0;
  me->st = RUN;
  me->handle = pthread_self();
  me->vc.assign(1, 1);
  sem_init(&me->go, 0, 0);
  S->threads.push_back(me);
  S->alive = 1;
  inside--;
}

void waitTurn(Thread* t) { while (sem_wait(&t->go)) {} }

void deadlock(const char* why)
{
  if (S->dead) S->dead(why);
  fprintf(stderr, "scheduler: %s\n", why);
  _exit(96);
}

// The current thread gives up the processor; it may be blocked, runnable or done.
void reschedule()
{
  S->rep.steps++;
  std::vector<Thread*> can;
  for (Thread* t : S->threads) if (t->st == RUN) can.push_back(t);
  if (can.empty()) {
    for (Thread* t : S->threads)
      if (t->timed && (t->st == COND || t->st == FUTEX)) { t->st = RUN; t->timedOut = true; can.push_back(t); break; }
  }
  if (can.empty()) {
    int blocked = 0;
    for (Thread* t : S->threads) blocked += t->st != DONE;
    if (blocked) deadlock("no thread can continue");
    return;
  }
  int current = -1;
  for (size_t i = 0; i < can.size(); i++) if (can[i] == me) current = i;
  int pick = current >= 0 ? current : 0;
  if (can.size() > 1) {
    switch (S->mode) {
      case sched::PLAIN: break;
      case sched::RANDOM:
        if (current < 0 || (int) (rnd() % 8) < S->density) pick = rnd() % can.size();
        break;
      case sched::PRIORITY:
        if (S->changes.count(S->rep.steps) && current >= 0) me->prio = -(int) (rnd() % 1000);
        pick = 0;
        for (size_t i = 1; i < can.size(); i++) if (can[i]->prio > can[pick]->prio) pick = i;
        break;
      case sched::PREFIX:
        if (S->rep.points.size() < S->prefix.size())
          pick = std::min<int>(S->prefix[S->rep.points.size()], can.size() - 1);
        break;
    }
    if (S->mode == sched::PREFIX) {
      sched::Point p = { (int) can.size(), pick, current };
      S->rep.points.push_back(p);
    }
  }
  Thread* next = can[pick];
  if (next == me) return;
  Thread* self = me;
  sem_post(&next->go);
  if (self->st != DONE) waitTurn(self);
}

void point() { if (S->alive > 1) reschedule(); }

void block(Status st, const void* on, bool timed = false)
{
  me->st = st;
  me->on = on;
  me->timed = timed;
  me->timedOut = false;
  reschedule();
  me->timed = false;
}

void wakeAll(Status st, const void* on)
{
  for (Thread* t : S->threads) if (t->st == st && t->on == on) t->st = RUN;
}

void tick() { me->vc[me->id]++; }

Lock& lockOf(const void* m) { return S->locks[m]; }

void acquire(const void* m)
{
  for (;;) {
    Lock& l = lockOf(m);
    if (l.owner == 0 && l.readers == 0) break;
    if (l.owner == me) break;               // recursive
    block(MUTEX, m);
  }
  Lock& l = lockOf(m);
  l.owner = me;
  l.count++;
  join(me->vc, l.vc);
}

void release(const void* m)
{
  Lock& l = lockOf(m);
  if (l.owner != me) {
    if (l.readers > 0) l.readers--;
  }
  else if (--l.count > 0) return;
  else l.owner = 0;
  join(l.vc, me->vc);
  tick();
  wakeAll(MUTEX, m);
}

int condWait(const void* c, const void* m, bool timed)
{
  setup();
  Inside in;
  Lock& l = lockOf(m);
  int count = l.count;
  l.count = 1;
  release(m);
  if (S->stutter && S->alive > 1 && rnd() % 16 == 0) { point(); }
  else block(COND, c, timed);
  bool out = me->timedOut;
  me->timedOut = false;
  acquire(m);
  lockOf(m).count = count ? count : 1;
  return out ? ETIMEDOUT : 0;
}

void condSignal(const void* c, bool all)
{
  setup();
  Inside in;
  std::vector<Thread*> w;
  for (Thread* t : S->threads) if (t->st == COND && t->on == c) w.push_back(t);
  if (!w.empty()) {
    if (all) for (Thread* t : w) t->st = RUN;
    else w[S->mode == sched::RANDOM || S->mode == sched::PRIORITY ? rnd() % w.size() : 0]->st = RUN;
  }
  point();
}

void* trampoline(void* p)
{
  Thread* t = (Thread*) p;
  me = t;
  waitTurn(t);
  t->result = t->fn(t->arg);
  Inside in;
  t->st = DONE;
  S->alive--;
  wakeAll(JOIN, t);
  reschedule();
  return t->result;
}

void touch(const void* addr, size_t size, bool write, const void* pc)
{
  if (!S || !me || inside || S->threads.size() < 2 || S->alive < 2) return;
  Inside in;
  uintptr_t a = (uintptr_t) addr;
  if (S->racy.count(pc)) reschedule();
  while (size > 0) {
    uintptr_t word = a & ~(uintptr_t) 7;
    size_t off = a - word, n = std::min<size_t>(8 - off, size);
    unsigned char mask = (unsigned char) (((1u << n) - 1) << off);
    std::vector<Access>& h = S->shadow[word];
    bool found = false;
    for (Access& x : h) {
      if (x.tid == me->id) {
        if (x.mask == mask && x.write == write) { x.clk = me->vc[me->id]; x.pc = pc; found = true; }
        continue;
      }
      if (!(x.mask & mask) || !(x.write || write)) continue;
      unsigned known = (size_t) x.tid < me->vc.size() ? me->vc[x.tid] : 0;
      if (x.clk > known) {
        if (S->racy.insert(pc).second | S->racy.insert(x.pc).second) {}
        S->rep.races++;
      }
    }
    if (!found) {
      Access x = { me->id, me->vc[me->id], mask, write, pc };
      h.push_back(x);
    }
    a += n;
    size -= n;
  }
}

void forget(const void* p, size_t n)
{
  if (!S || inside || S->threads.size() < 2) return;
  Inside in;
  uintptr_t a = (uintptr_t) p & ~(uintptr_t) 7;
  if (n / 8 > S->shadow.size()) {
    for (auto it = S->shadow.begin(); it != S->shadow.end();)
      if (it->first >= a && it->first < a + n + 8) it = S->shadow.erase(it); else ++it;
  }
  else for (uintptr_t w = a; w < (uintptr_t) p + n; w += 8) S->shadow.erase(w);
}

void syncAtomic(const void* p, bool in, bool out)
{
  if (!S || !me || inside) return;
  Inside g;
  if (S->alive > 1 && S->mode != sched::PREFIX) reschedule();
  Clock& c = S->syncs[p];
  if (in) join(me->vc, c);
  if (out) { join(c, me->vc); tick(); }
}

long rawSyscall(long n, long a, long b, long c, long d, long e, long f)
{
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  if (r < 0 && r > -4096) { errno = -r; return -1; }
  return r;
}
}

namespace sched {

bool available() { return true; }

void begin(Mode mode, unsigned long seed, bool stutter, const std::vector<int>& prefix)
{
  setup();
  Inside in;
  S->mode = mode;
  S->rnd = 0x9e3779b97f4a7c15ull * (seed + 1) | 1;
  for (int i = 0; i < 5; i++) rnd();
  S->stutter = stutter;
  static const int D[4] = { 8, 8, 4, 1 };
  S->density = D[rnd() % 4];
  S->changes.clear();
  for (int i = 0; i < 3; i++) S->changes.insert(1 + rnd() % 120);
  me->prio = rnd() % 1000;
  S->prefix = prefix;
  S->rep = Report();
  // finished threads of earlier runs
  std::vector<Thread*> keep;
  bool idle = true;
  for (Thread* t : S->threads) if (t != me && t->st != DONE) idle = false;
  if (idle && me->id == 0) {
    for (Thread* t : S->threads) if (t != me && !t->joined) idle = false;
    if (idle) {
      for (Thread* t : S->threads) if (t != me) delete t;
      S->threads.assign(1, me);
      me->vc.assign(1, 1);
      S->locks.clear();
      S->syncs.clear();
      S->shadow.clear();
    }
  }
}

Report end()
{
  Inside in;
  S->mode = PLAIN;
  S->stutter = false;
  Report r;
  std::swap(r, S->rep);
  return r;
}

int self() { setup(); return me ? me->id : -1; }
void onDeadlock(void (*f)(const char*)) { setup(); S->dead = f; }
}

// ---- replaced functions ---------------------------------------------------------

extern "C" {

int pthread_create(pthread_t* th, const pthread_attr_t* attr, void* (*fn)(void*), void* arg)
{
  static auto f = real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
  setup();
  Inside in;
  Thread* t = new Thread();
  t->id = S->threads.size();
  t->st = RUN;
  t->on = 0;
  t->timed = t->timedOut = t->joined = false;
  t->prio = rnd() % 1000;
  t->fn = fn;
  t->arg = arg;
  sem_init(&t->go, 0, 0);
  t->vc = me->vc;
  t->vc.resize(t->id + 1, 0);
  t->vc[t->id] = 1;
  tick();
  int r = f(&t->handle, attr, trampoline, t);
  if (r) { delete t; return r; }
  *th = t->handle;
  S->threads.push_back(t);
  S->alive++;
  point();
  return 0;
}

int pthread_join(pthread_t th, void** res)
{
  static auto f = real<int (*)(pthread_t, void**)>("pthread_join");
  setup();
  Inside in;
  for (Thread* t : S->threads)
    if (!t->joined && t->id != 0 && pthread_equal(t->handle, th)) {
      point();
      while (t->st != DONE) block(JOIN, t);
      join(me->vc, t->vc);
      t->joined = true;
      break;
    }
  return f(th, res);
}

int pthread_detach(pthread_t th)
{
  static auto f = real<int (*)(pthread_t)>("pthread_detach");
  setup();
  for (Thread* t : S->threads) if (!t->joined && t->id != 0 && pthread_equal(t->handle, th)) { t->joined = true; break; }
  return f(th);
}

int pthread_mutex_lock(pthread_mutex_t* m) { setup(); Inside in; if (!me) return 0; point(); acquire(m); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m)
{
  setup();
  Inside in;
  point();
  Lock& l = lockOf(m);
  if ((l.owner && l.owner != me) || l.readers) return EBUSY;
  acquire(m);
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) { setup(); Inside in; if (!me) return 0; release(m); point(); return 0; }
int pthread_mutex_destroy(pthread_mutex_t* m) { setup(); Inside in; S->locks.erase(m); return 0; }

int pthread_rwlock_wrlock(pthread_rwlock_t* m) { setup(); Inside in; point(); acquire(m); return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
  setup();
  Inside in;
  point();
  while (lockOf(m).owner) block(MUTEX, m);
  Lock& l = lockOf(m);
  l.readers++;
  join(me->vc, l.vc);
  return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) { setup(); Inside in; release(m); point(); return 0; }

int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return condWait(c, m, false); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*) { return condWait(c, m, true); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec*) { return condWait(c, m, true); }
int pthread_cond_signal(pthread_cond_t* c) { condSignal(c, false); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { condSignal(c, true); return 0; }

int sched_yield(void)
{
  setup();
  Inside in;
  if (S->alive > 1) {
    // let somebody else run
    sched::Mode m = S->mode;
    if (m != sched::RANDOM) {
      std::vector<Thread*> can;
      for (Thread* t : S->threads) if (t->st == RUN && t != me) can.push_back(t);
      if (!can.empty()) {
        Thread* self = me;
        S->rep.steps++;
        sem_post(&can[rnd() % can.size()]->go);
        waitTurn(self);
      }
    }
    else reschedule();
  }
  return 0;
}
int nanosleep(const struct timespec*, struct timespec*) { return sched_yield(); }
int clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*) { return sched_yield(); }
int usleep(useconds_t) { return sched_yield(); }

long syscall(long n, ...)
{
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long),
       e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (n != SYS_futex || !S || !me) return rawSyscall(n, a, b, c, d, e, f);
  int op = b & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
  Inside in;
  if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
    point();
    if (*(volatile int*) a != (int) c) { errno = EAGAIN; return -1; }
    block(FUTEX, (const void*) a, d != 0);
    if (me->timedOut) { me->timedOut = false; errno = ETIMEDOUT; return -1; }
    return 0;
  }
  if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
    long k = 0;
    for (Thread* t : S->threads)
      if (t->st == FUTEX && t->on == (const void*) a && k < c) { t->st = RUN; k++; }
    point();
    return k;
  }
  return rawSyscall(n, a, b, c, d, e, f);
}

// ---- memory accesses --------------------------------------------------------------

void __tsan_init(void) { setup(); }
void __tsan_func_entry(void*) {}
void __tsan_func_exit(void) {}
#define RW(N) \
  void __tsan_read##N(void* p) { touch(p, N, false, __builtin_return_address(0)); } \
  void __tsan_write##N(void* p) { touch(p, N, true, __builtin_return_address(0)); } \
  void __tsan_unaligned_read##N(void* p) { touch(p, N, false, __builtin_return_address(0)); } \
  void __tsan_unaligned_write##N(void* p) { touch(p, N, true, __builtin_return_address(0)); } \
  void __tsan_volatile_read##N(void* p) { touch(p, N, false, __builtin_return_address(0)); } \
  void __tsan_volatile_write##N(void* p) { touch(p, N, true, __builtin_return_address(0)); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { touch(p, n, false, __builtin_return_address(0)); }
void __tsan_write_range(void* p, unsigned long n) { touch(p, n, true, __builtin_return_address(0)); }
void __tsan_vptr_update(void** p, void*) { touch(p, 8, true, __builtin_return_address(0)); }
void __tsan_vptr_read(void** p) { touch(p, 8, false, __builtin_return_address(0)); }
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

#define ATOMIC(N, T) \
  T __tsan_atomic##N##_load(const volatile T* p, int) { syncAtomic((const void*) p, true, false); return __atomic_load_n(p, 5); } \
  void __tsan_atomic##N##_store(volatile T* p, T v, int) { syncAtomic((const void*) p, false, true); __atomic_store_n(p, v, 5); } \
  T __tsan_atomic##N##_exchange(volatile T* p, T v, int) { syncAtomic((const void*) p, true, true); return __atomic_exchange_n(p, v, 5); } \
  T __tsan_atomic##N##_fetch_add(volatile T* p, T v, int) { syncAtomic((const void*) p, true, true); return __atomic_fetch_add(p, v, 5); } \
  T __tsan_atomic##N##_fetch_sub(volatile T* p, T v, int) { syncAtomic((const void*) p, true, true); return __atomic_fetch_sub(p, v, 5); } \
  T __tsan_atomic##N##_fetch_and(volatile T* p, T v, int) { syncAtomic((const void*) p, true, true); return __atomic_fetch_and(p, v, 5); } \
  T __tsan_atomic##N##_fetch_or(volatile T* p, T v, int) { syncAtomic((const void*) p, true, true); return __atomic_fetch_or(p, v, 5); } \
  T __tsan_atomic##N##_fetch_xor(volatile T* p, T v, int) { syncAtomic((const void*) p, true, true); return __atomic_fetch_xor(p, v, 5); } \
  T __tsan_atomic##N##_fetch_nand(volatile T* p, T v, int) { syncAtomic((const void*) p, true, true); return __atomic_fetch_nand(p, v, 5); } \
  int __tsan_atomic##N##_compare_exchange_strong(volatile T* p, T* c, T v, int, int) \
  { syncAtomic((const void*) p, true, true); return __atomic_compare_exchange_n(p, c, v, 0, 5, 5); } \
  int __tsan_atomic##N##_compare_exchange_weak(volatile T* p, T* c, T v, int, int) \
  { syncAtomic((const void*) p, true, true); return __atomic_compare_exchange_n(p, c, v, 0, 5, 5); } \
  T __tsan_atomic##N##_compare_exchange_val(volatile T* p, T c, T v, int, int) \
  { syncAtomic((const void*) p, true, true); __atomic_compare_exchange_n(p, &c, v, 0, 5, 5); return c; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
}

static void* get(size_t n)
{
  void* p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
static void put(void* p)
{
  if (!p) return;
  forget(p, malloc_usable_size(p));
  free(p);
}
void* operator new(size_t n) { return get(n); }
void* operator new[](size_t n) { return get(n); }
void operator delete(void* p) noexcept { put(p); }
void operator delete[](void* p) noexcept { put(p); }
void operator delete(void* p, size_t) noexcept { put(p); }
void operator delete[](void* p, size_t) noexcept { put(p); }
