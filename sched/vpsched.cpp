// Controlled scheduler.  The extension modules of the "sched" variant are compiled with
// -fopenmp -fsanitize=thread but linked against this library instead of libgomp/libtsan, so every
// OpenMP construct, GIL operation, allocation and memory access of the real code calls us.
//
// Threads are real pthreads of which exactly one runs at any time (a baton is handed over).  At a
// decision point the next thread is taken from a schedule (prefix given by the explorer, then
// "carry on"); the alternatives are recorded, so the explorer can enumerate all of them.
// Decision points: start/end of a parallel region, acquisition of a loop chunk, barriers, critical
// sections, locks (free switches), GIL hand-overs, and memory accesses whose program point was seen
// to conflict with another thread's (switches counted against a preemption bound).
#include <malloc.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>

#include <map>
#include <unordered_map>
#include <unordered_set>
#include <vector>

extern "C" {
int PyGILState_Check(void);
void *PyEval_SaveThread(void);
void PyEval_RestoreThread(void *);
int PyGILState_Ensure(void);
void PyGILState_Release(int);
}

#define EXPORT extern "C" __attribute__((visibility("default")))
#define PC __builtin_return_address(0)

namespace {

struct WorkShare {
  long next, end, incr, chunk;
  unsigned long long unext, uend, uincr, uchunk;
  bool up;
};

struct Team {
  int n;
  int arrived = 0;
  int running = 0;
  int singles = 0;
  std::map<int, WorkShare> ws;
  char barrier, join;
};

struct VT {
  sem_t sem;
  int id = 0;
  bool done = true;
  bool unpos = false;  // not yet at its next decision point
  VT *launcher = nullptr;
  bool known = true;  // takes part in the exploration
  const void *blocked = nullptr;
  Team *team = nullptr;
  int tid = 0;
  int ws_count = 0, single_count = 0;
  long static_i = 0;
  WorkShare *ws = nullptr;
  void (*fn)(void *) = nullptr;
  void *data = nullptr;
  std::vector<const void *> locks;
  VT() { sem_init(&sem, 0, 0); }
};

struct Access {
  int vt;
  bool write;
  bool gil;
  const void *lock;  // innermost lock held
  const void *pc;
};
struct Cell {
  unsigned epoch;
  std::vector<Access> acc;
};

thread_local VT *me = nullptr;
bool active = false, in_region = false;
int bound = 0, focus = -1, region = -1, preemptions = 0, diverged = 0, next_id = 1;
int default_threads = 2;
unsigned epoch = 1;
std::vector<int> prefix, alts, chosen, kinds;
std::vector<VT *> live, idle;
std::unordered_map<uintptr_t, Cell> shadow;
std::unordered_set<const void *> conflict, pending;
std::unordered_map<const void *, VT *> owner;
long n_access = 0, n_switch = 0;

bool gil() { return PyGILState_Check(); }

[[noreturn]] void die(const char *msg) {
  fprintf(stderr, "vpsched: %s (decisions so far:", msg);
  for (size_t i = 0; i < chosen.size() && i < 400; ++i) fprintf(stderr, " %d", chosen[i]);
  fprintf(stderr, ")\n");
  fflush(stderr);
  _exit(97);
}

bool recording() { return focus < 0 || (in_region && region == focus); }

enum { FREE, PREEMPT };

// one of n alternatives (0: carry on, or the lowest enabled thread)
int decide(int n, int kind) {
  if (n <= 1 || !recording()) return 0;
  size_t pos = alts.size();
  int c = 0;
  if (pos < prefix.size()) {
    c = prefix[pos];
    if (c >= n) { diverged = 1; c = 0; }
  }
  alts.push_back(n);
  chosen.push_back(c);
  kinds.push_back(kind);
  if (alts.size() > 200000) die("execution does not end");
  return c;
}

void handover(VT *to) {
  ++n_switch;
  VT *self = me;
  sem_post(&to->sem);
  while (sem_wait(&self->sem)) {}
}

void others(std::vector<VT *> &out) {
  out.clear();
  for (VT *v : live)
    if (v != me && !v->done && !v->blocked) out.push_back(v);
}

// runs every thread that was just started or released up to its next decision point, so that a
// decision is always between threads that are about to do something visible
void position() {
  for (;;) {
    VT *v = nullptr;
    for (VT *x : live)
      if (x != me && x->unpos && !x->done && !x->blocked) { v = x; break; }
    if (!v) return;
    v->launcher = me;
    handover(v);
  }
}
// a thread that was run by position() stops here
bool positioned() {
  if (!me->unpos) return false;
  me->unpos = false;
  VT *l = me->launcher;
  me->launcher = nullptr;
  if (!l) return false;
  handover(l);
  return true;
}

void point(int kind) {
  if (!active || !me || !me->known) return;
  if (kind == PREEMPT && preemptions >= bound) return;
  if (!recording()) return;
  if (live.size() < 2 || gil()) return;
  if (positioned()) return;
  position();
  std::vector<VT *> o;
  others(o);
  if (o.empty()) return;
  int c = decide((int)o.size() + 1, kind);
  if (c) {
    if (kind == PREEMPT) ++preemptions;
    handover(o[c - 1]);
  }
}

VT *pick_other() {
  position();
  std::vector<VT *> o;
  others(o);
  if (o.empty()) die("DEADLOCK: no thread can run");
  return o[decide((int)o.size(), FREE)];
}

void block(const void *obj) {
  me->blocked = obj;
  if (positioned()) return;
  position();
  if (!me->blocked) {  // released while the others got into position
    me->unpos = false;
    return;
  }
  handover(pick_other());
}

void wake(const void *obj) {
  for (VT *v : live)
    if (v->blocked == obj) v->blocked = nullptr;
}

const void *held() {
  return me->locks.empty() ? nullptr : me->locks.back();
}

bool watching() { return active && me && me->known && live.size() > 1; }

void access(const void *addr, size_t n, bool write, const void *pc) {
  if (!watching()) return;
  if (conflict.count(pc)) point(PREEMPT);
  const void *lock = held();
  const bool g = gil();
  uintptr_t a = (uintptr_t)addr >> 2, e = ((uintptr_t)addr + (n ? n - 1 : 0)) >> 2;
  for (; a <= e; ++a) {
    ++n_access;
    Cell &c = shadow[a];
    if (c.epoch != epoch) { c.epoch = epoch; c.acc.clear(); }
    bool seen = false;
    for (Access &x : c.acc) {
      if (x.vt == me->id) {
        if (x.pc == pc && x.write == write && x.lock == lock && x.gil == g) seen = true;
        continue;
      }
      if ((x.write || write) && !(x.gil && g) && !(x.lock && x.lock == lock)) {
        pending.insert(pc);
        pending.insert(x.pc);
      }
    }
    if (!seen && c.acc.size() < 24) c.acc.push_back({me->id, write, g, lock, pc});
  }
}

void forget(void *p) {
  if (!watching() || !p) return;
  size_t n = malloc_usable_size(p);
  uintptr_t a = (uintptr_t)p >> 2, e = ((uintptr_t)p + n) >> 2;
  if (e - a > 1 << 16) return;
  for (; a <= e; ++a) shadow.erase(a);
}

void *pool_main(void *arg) {
  VT *v = (VT *)arg;
  me = v;
  for (;;) {
    while (sem_wait(&v->sem)) {}
    v->fn(v->data);
    // end of the team's function: implicit barrier of the region
    Team *t = v->team;
    v->done = true;
    if (--t->running == 0) wake(&t->join);
    for (size_t i = 0; i < live.size(); ++i)
      if (live[i] == v) { live.erase(live.begin() + i); break; }
    VT *to = v->unpos ? v->launcher : nullptr;
    v->unpos = false;
    v->launcher = nullptr;
    if (!to) to = pick_other();
    idle.push_back(v);
    ++n_switch;
    sem_post(&to->sem);
  }
  return nullptr;
}

void run_team(void (*fn)(void *), void *data, int n, const WorkShare *ws) {
  if (!n) n = default_threads;
  VT plain;  // a thread the scheduler doesn't know (outside an exploration)
  VT *saved_me = me;
  if (!me) { me = &plain; plain.known = false; }
  VT *self = me;
  Team *outer = self->team;
  int outer_tid = self->tid, outer_ws = self->ws_count, outer_single = self->single_count;
  WorkShare *outer_cur = self->ws;
  Team t;
  if (!active || saved_me == nullptr || outer) n = 1;  // nested regions are serial
  t.n = n;
  if (ws) t.ws[0] = *ws;
  auto enter = [&](VT *v, int tid) {
    v->team = &t; v->tid = tid; v->ws_count = ws ? 1 : 0; v->single_count = 0;
    v->ws = ws ? &t.ws[0] : nullptr;
  };
  enter(self, 0);
  if (n > 1) {
    ++region;
    in_region = true;
    ++epoch;
    t.running = n - 1;
    for (int i = 1; i < n; ++i) {
      VT *v;
      if (idle.empty()) {
        v = new VT();
        pthread_t th;
        if (pthread_create(&th, nullptr, pool_main, v)) die("cannot create a thread");
        pthread_detach(th);
      } else {
        v = idle.back();
        idle.pop_back();
      }
      v->id = next_id++;
      v->done = false;
      v->blocked = nullptr;
      v->locks.clear();
      v->fn = fn;
      v->data = data;
      enter(v, i);
      v->unpos = true;
      live.push_back(v);
    }
  }
  fn(data);
  if (n > 1) {
    while (t.running) block(&t.join);
    ++epoch;
    in_region = false;
  }
  self->team = outer;
  self->tid = outer_tid;
  self->ws_count = outer_ws;
  self->single_count = outer_single;
  self->ws = outer_cur;
  me = saved_me;
}

}  // namespace

// ------------------------------------------------------------------ control, called from Python

EXPORT void vp_default_threads(int n) { default_threads = n; }

// returns the number of program points at which preemptions are now considered
EXPORT int vp_start(const int *pre, int n, int bound_, int focus_) {
  prefix.assign(pre, pre + n);
  alts.clear();
  chosen.clear();
  kinds.clear();
  bound = bound_;
  focus = focus_;
  region = -1;
  preemptions = diverged = 0;
  next_id = 1;
  shadow.clear();
  owner.clear();
  in_region = false;
  ++epoch;
  for (const void *p : pending) conflict.insert(p);
  pending.clear();
  if (!me) me = new VT();
  me->id = 0;
  me->done = false;
  me->blocked = nullptr;
  me->locks.clear();
  live.assign(1, me);
  active = true;
  return (int)conflict.size();
}

// returns the number of decisions; info: diverged, new conflicts, preemptions, switches
EXPORT int vp_stop(int *a, int *c, int *k, int cap, long *info) {
  active = false;
  int n = (int)alts.size();
  for (int i = 0; i < n && i < cap; ++i) { a[i] = alts[i]; c[i] = chosen[i]; k[i] = kinds[i]; }
  int fresh = 0;
  for (const void *p : pending)
    if (!conflict.count(p)) ++fresh;
  info[0] = diverged;
  info[1] = fresh;
  info[2] = preemptions;
  info[3] = n_switch;
  info[4] = n_access;
  info[5] = (long)conflict.size();
  info[6] = region + 1;
  n_switch = n_access = 0;
  if (live.size() != 1) die("threads left over at the end of an execution");
  return n;
}

EXPORT void vp_forget_conflicts(void) { conflict.clear(); pending.clear(); }

// ---- Python threads as scheduled threads (all calls are made through ctypes: the GIL is released)
namespace {
char JOIN;
int py_running = 0;
}
EXPORT void *vp_thread_new(void) {
  VT *v = new VT();
  v->id = next_id++;
  v->done = false;
  v->unpos = true;
  live.push_back(v);
  ++py_running;
  return v;
}
EXPORT void vp_thread_enter(void *p) {
  VT *v = (VT *)p;
  me = v;
  while (sem_wait(&v->sem)) {}
}
EXPORT void vp_thread_exit(void) {
  VT *v = me;
  v->done = true;
  for (size_t i = 0; i < live.size(); ++i)
    if (live[i] == v) { live.erase(live.begin() + i); break; }
  if (--py_running == 0) wake(&JOIN);
  VT *to = v->unpos ? v->launcher : nullptr;
  if (!to) to = pick_other();
  me = nullptr;
  delete v;
  sem_post(&to->sem);
}
EXPORT void vp_run(void) {
  while (py_running) block(&JOIN);
}
EXPORT void vp_point(int kind) { point(kind); }
EXPORT int vp_self(void) { return active && me ? me->id : -1; }
EXPORT void vp_block(const void *obj) { block(obj); }
EXPORT void vp_wake(const void *obj) { wake(obj); }
EXPORT void vp_lock_push(const void *obj) { if (me) me->locks.push_back(obj); }
EXPORT void vp_lock_pop(const void *obj) {
  if (!me) return;
  for (size_t i = me->locks.size(); i--;)
    if (me->locks[i] == obj) { me->locks.erase(me->locks.begin() + i); return; }
}

// ------------------------------------------------------------------ GIL
EXPORT void *__wrap_PyEval_SaveThread(void) {
  void *r = PyEval_SaveThread();
  point(PREEMPT);
  return r;
}
EXPORT void __wrap_PyEval_RestoreThread(void *t) { PyEval_RestoreThread(t); }
EXPORT int __wrap_PyGILState_Ensure(void) {
  point(PREEMPT);
  return PyGILState_Ensure();
}
EXPORT void __wrap_PyGILState_Release(int s) {
  PyGILState_Release(s);
  point(PREEMPT);
}

// ------------------------------------------------------------------ memory
EXPORT void *__wrap_malloc(size_t n) { void *p = malloc(n); forget(p); return p; }
EXPORT void *__wrap_calloc(size_t n, size_t m) { void *p = calloc(n, m); forget(p); return p; }
EXPORT void *__wrap_realloc(void *q, size_t n) { void *p = realloc(q, n); forget(p); return p; }
EXPORT void __wrap_free(void *p) { forget(p); free(p); }
EXPORT void *__wrap__Znwm(size_t n) { void *p = ::operator new(n); forget(p); return p; }
EXPORT void *__wrap__Znam(size_t n) { void *p = ::operator new[](n); forget(p); return p; }
EXPORT void __wrap__ZdlPv(void *p) { forget(p); ::operator delete(p); }
EXPORT void __wrap__ZdlPvm(void *p, size_t) { forget(p); ::operator delete(p); }
EXPORT void __wrap__ZdaPv(void *p) { forget(p); ::operator delete[](p); }
EXPORT void *__wrap_memcpy(void *d, const void *s, size_t n) {
  access(s, n, false, PC);
  access(d, n, true, PC);
  return memcpy(d, s, n);
}
EXPORT void *__wrap_memmove(void *d, const void *s, size_t n) {
  access(s, n, false, PC);
  access(d, n, true, PC);
  return memmove(d, s, n);
}
EXPORT void *__wrap_memset(void *d, int c, size_t n) {
  access(d, n, true, PC);
  return memset(d, c, n);
}

#define RW(sz, n)                                                              \
  EXPORT void __tsan_read##sz(void *a) { access(a, n, false, PC); }            \
  EXPORT void __tsan_write##sz(void *a) { access(a, n, true, PC); }            \
  EXPORT void __tsan_unaligned_read##sz(void *a) { access(a, n, false, PC); }  \
  EXPORT void __tsan_unaligned_write##sz(void *a) { access(a, n, true, PC); }  \
  EXPORT void __tsan_volatile_read##sz(void *a) { access(a, n, false, PC); }   \
  EXPORT void __tsan_volatile_write##sz(void *a) { access(a, n, true, PC); }
RW(1, 1) RW(2, 2) RW(4, 4) RW(8, 8) RW(16, 16)
EXPORT void __tsan_read_range(void *a, size_t n) { access(a, n, false, PC); }
EXPORT void __tsan_write_range(void *a, size_t n) { access(a, n, true, PC); }
EXPORT void __tsan_vptr_update(void **a, void *) { access(a, 8, true, PC); }
EXPORT void __tsan_vptr_read(void **a) { access(a, 8, false, PC); }
EXPORT void __tsan_init(void) {}
EXPORT void __tsan_func_entry(void *) {}
EXPORT void __tsan_func_exit(void) {}
EXPORT void __tsan_atomic_thread_fence(int) {}
EXPORT void __tsan_atomic_signal_fence(int) {}
#define ATOMIC(N, T)                                                                                      \
  EXPORT T __tsan_atomic##N##_load(const volatile T *a, int) { access((void *)a, sizeof(T), false, PC); return *a; } \
  EXPORT void __tsan_atomic##N##_store(volatile T *a, T v, int) { access((void *)a, sizeof(T), true, PC); *a = v; } \
  EXPORT T __tsan_atomic##N##_exchange(volatile T *a, T v, int) { access((void *)a, sizeof(T), true, PC); return __atomic_exchange_n(a, v, 5); } \
  EXPORT T __tsan_atomic##N##_fetch_add(volatile T *a, T v, int) { access((void *)a, sizeof(T), true, PC); return __atomic_fetch_add(a, v, 5); } \
  EXPORT T __tsan_atomic##N##_fetch_sub(volatile T *a, T v, int) { access((void *)a, sizeof(T), true, PC); return __atomic_fetch_sub(a, v, 5); } \
  EXPORT T __tsan_atomic##N##_fetch_and(volatile T *a, T v, int) { access((void *)a, sizeof(T), true, PC); return __atomic_fetch_and(a, v, 5); } \
  EXPORT T __tsan_atomic##N##_fetch_or(volatile T *a, T v, int) { access((void *)a, sizeof(T), true, PC); return __atomic_fetch_or(a, v, 5); } \
  EXPORT T __tsan_atomic##N##_fetch_xor(volatile T *a, T v, int) { access((void *)a, sizeof(T), true, PC); return __atomic_fetch_xor(a, v, 5); } \
  EXPORT T __tsan_atomic##N##_fetch_nand(volatile T *a, T v, int) { access((void *)a, sizeof(T), true, PC); return __atomic_fetch_nand(a, v, 5); } \
  EXPORT int __tsan_atomic##N##_compare_exchange_strong(volatile T *a, T *e, T v, int, int) { access((void *)a, sizeof(T), true, PC); return __atomic_compare_exchange_n(a, e, v, false, 5, 5); } \
  EXPORT int __tsan_atomic##N##_compare_exchange_weak(volatile T *a, T *e, T v, int, int) { access((void *)a, sizeof(T), true, PC); return __atomic_compare_exchange_n(a, e, v, false, 5, 5); } \
  EXPORT T __tsan_atomic##N##_compare_exchange_val(volatile T *a, T e, T v, int, int) { access((void *)a, sizeof(T), true, PC); __atomic_compare_exchange_n(a, &e, v, false, 5, 5); return e; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)

// ------------------------------------------------------------------ locks
namespace {
bool lock_it(const void *l, bool recursive = false) {
  if (!active || !me || !me->known) return false;
  point(PREEMPT);
  while (owner.count(l) && !(recursive && owner[l] == me)) {
    void *ts = gil() ? PyEval_SaveThread() : nullptr;  // nobody may wait here with the GIL
    block(l);
    if (ts) PyEval_RestoreThread(ts);
  }
  owner[l] = me;
  me->locks.push_back(l);
  return true;
}
void unlock_it(const void *l) {
  if (!active || !me || !owner.count(l)) return;
  owner.erase(l);
  for (size_t i = me->locks.size(); i--;)
    if (me->locks[i] == l) { me->locks.erase(me->locks.begin() + i); break; }
  wake(l);
  point(PREEMPT);
}
char CRIT, ATOM;
}
EXPORT void GOMP_critical_start(void) { lock_it(&CRIT); }
EXPORT void GOMP_critical_end(void) { unlock_it(&CRIT); }
EXPORT void GOMP_critical_name_start(void **p) { lock_it(p); }
EXPORT void GOMP_critical_name_end(void **p) { unlock_it(p); }
EXPORT void GOMP_atomic_start(void) { lock_it(&ATOM); }
EXPORT void GOMP_atomic_end(void) { unlock_it(&ATOM); }
EXPORT void omp_init_lock(void **) {}
EXPORT void omp_destroy_lock(void **) {}
EXPORT void omp_set_lock(void **l) { lock_it(l); }
EXPORT void omp_unset_lock(void **l) { unlock_it(l); }
EXPORT int omp_test_lock(void **l) {
  if (!active || !me) return 1;
  point(PREEMPT);
  if (owner.count(l)) return 0;
  return lock_it(l);
}
EXPORT int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
  if (lock_it(m)) return 0;
  return pthread_mutex_lock(m);
}
EXPORT int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
  if (active && me && owner.count(m)) { unlock_it(m); return 0; }
  return pthread_mutex_unlock(m);
}

// ------------------------------------------------------------------ OpenMP runtime
EXPORT int omp_get_thread_num(void) { return me && me->team ? me->tid : 0; }
EXPORT int omp_get_num_threads(void) { return me && me->team ? me->team->n : 1; }
EXPORT int omp_get_max_threads(void) { return default_threads; }
EXPORT int omp_get_num_procs(void) { return default_threads; }
EXPORT int omp_get_thread_limit(void) { return 1 << 20; }
EXPORT void omp_set_num_threads(int n) { if (n > 0) default_threads = n; }
EXPORT int omp_in_parallel(void) { return me && me->team && me->team->n > 1; }
EXPORT int omp_get_level(void) { return me && me->team ? 1 : 0; }
EXPORT int omp_get_dynamic(void) { return 0; }
EXPORT void omp_set_dynamic(int) {}
EXPORT double omp_get_wtime(void) {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}

EXPORT void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned) { run_team(fn, data, n, nullptr); }

EXPORT void GOMP_barrier(void) {
  if (!me || !me->team || me->team->n == 1) return;
  Team *t = me->team;
  if (++t->arrived == t->n) {
    t->arrived = 0;
    ++epoch;
    for (VT *v : live)
      if (v->blocked == &t->barrier) v->unpos = true;
    wake(&t->barrier);
  } else {
    block(&t->barrier);
  }
}
EXPORT int GOMP_single_start(void) {
  if (!me || !me->team || me->team->n == 1) return 1;
  point(FREE);
  int k = me->single_count++;
  if (k == me->team->singles) { ++me->team->singles; return 1; }
  return 0;
}

namespace {
WorkShare *share(const WorkShare &w) {
  int k = me->ws_count++;
  auto it = me->team->ws.find(k);
  if (it == me->team->ws.end()) it = me->team->ws.emplace(k, w).first;
  me->ws = &it->second;
  me->static_i = 0;
  return me->ws;
}
bool next_chunk(bool guided, long *s, long *e) {
  WorkShare *w = me->ws;
  if (w->next == w->end) return false;  // nothing left whoever asks first
  if (me->team->n > 1) point(FREE);
  if (w->next == w->end || (w->incr > 0 ? w->next > w->end : w->next < w->end)) return false;
  long left = (w->end - w->next + w->incr - (w->incr > 0 ? 1 : -1)) / w->incr;
  long q = w->chunk > 0 ? w->chunk : 1;
  if (guided) {
    long g = (left + me->team->n - 1) / me->team->n;
    if (g > q) q = g;
  }
  if (q > left) q = left;
  *s = w->next;
  *e = q == left ? w->end : w->next + q * w->incr;
  w->next = *e;
  return true;
}
bool next_static(long *s, long *e) {
  WorkShare *w = me->ws;
  long total = (w->end - w->next + w->incr - (w->incr > 0 ? 1 : -1)) / w->incr;
  if (total <= 0) return false;
  int n = me->team->n;
  if (w->chunk <= 0) {
    if (me->static_i++) return false;
    long q = total / n, r = total % n, t = me->tid;
    long b = t * q + (t < r ? t : r), c = q + (t < r);
    if (!c) return false;
    *s = w->next + b * w->incr;
    *e = b + c == total ? w->end : *s + c * w->incr;
    return true;
  }
  long b = (me->static_i++ * n + me->tid) * w->chunk;
  if (b >= total) return false;
  long c = w->chunk < total - b ? w->chunk : total - b;
  *s = w->next + b * w->incr;
  *e = b + c == total ? w->end : *s + c * w->incr;
  return true;
}
}
#define LOOP(name, NEXT)                                                                                     \
  EXPORT bool GOMP_loop_##name##_start(long s, long e, long i, long c, long *is, long *ie) {                \
    WorkShare w{}; w.next = s; w.end = e; w.incr = i; w.chunk = c; share(w); return NEXT; }                   \
  EXPORT bool GOMP_loop_##name##_next(long *is, long *ie) { return NEXT; }                                   \
  EXPORT void GOMP_parallel_loop_##name(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned) { \
    WorkShare w{}; w.next = s; w.end = e; w.incr = i; w.chunk = c; run_team(fn, d, n, &w); }
LOOP(dynamic, next_chunk(false, is, ie))
LOOP(nonmonotonic_dynamic, next_chunk(false, is, ie))
LOOP(guided, next_chunk(true, is, ie))
LOOP(nonmonotonic_guided, next_chunk(true, is, ie))
LOOP(static, next_static(is, ie))
#define LOOPR(name)                                                                                          \
  EXPORT bool GOMP_loop_##name##_start(long s, long e, long i, long *is, long *ie) {                         \
    WorkShare w{}; w.next = s; w.end = e; w.incr = i; w.chunk = 1; share(w); return next_chunk(false, is, ie); } \
  EXPORT bool GOMP_loop_##name##_next(long *is, long *ie) { return next_chunk(false, is, ie); }
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
#define LOOPU(name, G)                                                                                       \
  EXPORT bool GOMP_loop_ull_##name##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, \
      unsigned long long c, unsigned long long *is, unsigned long long *ie) {                                \
    WorkShare w{}; w.next = s; w.end = e; w.incr = i; w.chunk = c; share(w); return next_chunk(G, (long *)is, (long *)ie); } \
  EXPORT bool GOMP_loop_ull_##name##_next(unsigned long long *is, unsigned long long *ie) { return next_chunk(G, (long *)is, (long *)ie); }
LOOPU(dynamic, false) LOOPU(nonmonotonic_dynamic, false) LOOPU(guided, true) LOOPU(nonmonotonic_guided, true)
EXPORT void GOMP_loop_end(void) { GOMP_barrier(); }
EXPORT void GOMP_loop_end_nowait(void) {}

// ------------------------------------------------------------------ BLAS / LAPACK calls of the code
namespace { void *real_fn[16]; }
EXPORT void vp_set_real(int k, void *p) { real_fn[k] = p; }
#define AX(k, P, T)                                                                                         \
  EXPORT void vp_##P##axpy(int *n, T *a, T *x, int *ix, T *y, int *iy) {                                     \
    access(x, sizeof(T) * *n, false, PC); access(y, sizeof(T) * *n, false, PC); access(y, sizeof(T) * *n, true, PC); \
    ((void (*)(int *, T *, T *, int *, T *, int *))real_fn[k])(n, a, x, ix, y, iy); }                         \
  EXPORT void vp_##P##symv(char *u, int *n, T *al, T *a, int *lda, T *x, int *ix, T *be, T *y, int *iy) {     \
    access(a, sizeof(T) * *n * *n, false, PC); access(x, sizeof(T) * *n, false, PC); access(y, sizeof(T) * *n, true, PC); \
    ((void (*)(char *, int *, T *, T *, int *, T *, int *, T *, T *, int *))real_fn[k + 1])(u, n, al, a, lda, x, ix, be, y, iy); } \
  EXPORT T vp_##P##dot(int *n, T *x, int *ix, T *y, int *iy) {                                               \
    access(x, sizeof(T) * *n, false, PC); access(y, sizeof(T) * *n, false, PC);                               \
    return ((T (*)(int *, T *, int *, T *, int *))real_fn[k + 2])(n, x, ix, y, iy); }                        \
  EXPORT void vp_##P##scal(int *n, T *a, T *x, int *ix) {                                                    \
    access(x, sizeof(T) * *n, false, PC); access(x, sizeof(T) * *n, true, PC);                                \
    ((void (*)(int *, T *, T *, int *))real_fn[k + 3])(n, a, x, ix); }                                       \
  EXPORT void vp_##P##posv(char *u, int *n, int *r, T *a, int *lda, T *b, int *ldb, int *info) {              \
    access(a, sizeof(T) * *n * *n, false, PC); access(b, sizeof(T) * *n * *r, false, PC);                     \
    access(a, sizeof(T) * *n * *n, true, PC); access(b, sizeof(T) * *n * *r, true, PC); access(info, 4, true, PC); \
    ((void (*)(char *, int *, int *, T *, int *, T *, int *, int *))real_fn[k + 4])(u, n, r, a, lda, b, ldb, info); } \
  EXPORT void vp_##P##gesv(int *n, int *r, T *a, int *lda, int *piv, T *b, int *ldb, int *info) {             \
    access(a, sizeof(T) * *n * *n, true, PC); access(b, sizeof(T) * *n * *r, true, PC); access(info, 4, true, PC); \
    ((void (*)(int *, int *, T *, int *, int *, T *, int *, int *))real_fn[k + 5])(n, r, a, lda, piv, b, ldb, info); }
AX(0, s, float)
AX(6, d, double)
