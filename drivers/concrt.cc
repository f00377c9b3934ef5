// Runtime of the concurrent driver: receives the access instrumentation that
// gcc's -fsanitize=thread puts into the library (this file replaces libtsan),
// the library's mutex operations and its allocations, runs the threads of a
// program one at a time and decides at every access to shared memory which
// thread continues. Prints the distinct histories and access logs observed.
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <map>
#include <new>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

#include "conc.h"

namespace rt {
thread_local int ignore = 0;
static thread_local int tid = 0;
static thread_local long fail_alloc = 0;

enum Phase { IDLE, SETUP, THREADS, POST };
static volatile Phase phase = IDLE;
static const int MAXT = 8;

// ------------------------------------------------------------------ arenas
static const size_t ASIZE = size_t(1) << 30;
static char* abase;
static size_t aused[MAXT + 1], astart[MAXT + 1];   // the current run's blocks lie between
static unsigned char* afreed;  // per 16 bytes
// stacks of the program's threads
static const size_t SSIZE = size_t(1) << 20;
static char* sbase;
static char* stack_of(int t) { return sbase + t * SSIZE; }
static bool in_stacks(const void* p) { return (char*)p >= sbase && (char*)p < sbase + SSIZE * (MAXT + 1); }
static bool in_arena(const void* p) { return (char*)p >= abase && (char*)p < abase + ASIZE * (MAXT + 1); }
static void init_arenas() {
  abase = (char*)mmap(nullptr, ASIZE * (MAXT + 1), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  afreed = (unsigned char*)mmap(nullptr, ASIZE * (MAXT + 1) / 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}
static void init_stacks() {
  sbase = (char*)mmap(nullptr, SSIZE * (MAXT + 1), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}
// The next run gets the same addresses, unless static objects of the library
// still refer to blocks of this one.
extern "C" char __data_start, _end;
static void reset_arenas() {
  bool held = false;
  for (char* p = (char*)((uintptr_t(&__data_start) + 7) & ~uintptr_t(7)); p + 8 <= &_end && !held; p += 8) {
    char* q = *(char**)p;
    if (!in_arena(q)) continue;
    size_t i = (q - abase) / ASIZE, off = (q - abase) % ASIZE;
    held = off > 0 && off < aused[i];
  }
  for (int i = 0; i <= MAXT; ++i) {
    if (held) { astart[i] = aused[i]; continue; }
    memset(afreed + (i * ASIZE + astart[i]) / 16, 0, (aused[i] - astart[i]) / 16 + 1);
    aused[i] = astart[i];
  }
}
static void* aalloc(size_t n) {
  size_t need = ((n + 15) & ~size_t(15)) + 16;
  if (aused[tid] + need > ASIZE) { fprintf(stderr, "arena exhausted\n"); _exit(44); }
  char* p = abase + tid * ASIZE + aused[tid];
  aused[tid] += need;
  *(size_t*)p = n;
  memset(p + 16, 0xa5, need - 16);
  return p + 16;
}

// --------------------------------------------------------------------- log
struct Ev {
  int t;
  char k;  // R W F(ree) X(after free) L U S(hared lock) V(shared unlock) A(tomic)
  uintptr_t a;
  size_t n;
  int op, mo;  // atomics: 0 load 1 store 2 rmw; memory order
};
static int record = 0;  // 1: accesses and synchronization, 2: calls and locks
static std::vector<Ev>* logv;
static std::unordered_set<uint64_t>* seen[MAXT + 1];
static void log_sync(char k, uintptr_t a, size_t n = 0, int op = 0, int mo = 0) {
  if (!record || phase != THREADS || (record == 2 && k == 'A')) return;
  int s = ignore; ignore = 1;
  logv->push_back({tid, k, a, n, op, mo});
  seen[tid]->clear();
  ignore = s;
}
static void log_access(char k, uintptr_t a, size_t n) {
  if (record != 1 || phase != THREADS) return;
  int s = ignore; ignore = 1;
  uint64_t key = (a * 64 + (n & 63)) * 4 + (k == 'R' ? 0 : k == 'W' ? 1 : 2);
  if (seen[tid]->insert(key).second) logv->push_back({tid, k, a, n, 0, 0});
  ignore = s;
}

// ----------------------------------------------------------------- threads
enum St { READY, BLOCKED, FINISHED };
struct Th {
  pthread_t h;
  sem_t sem;
  St st = FINISHED;
  uintptr_t on = 0;
  char want = 0;
  long points = 0;
  void* (*fn)(void*) = nullptr;   // of a thread that the library started
  void* arg = nullptr;
  bool joined = false;
};
static Th th[MAXT + 1];
static sem_t main_sem;
static int nth = 0, nbase = 0;
static int cur = 0;
static long total_points, streak;

struct Seg { int t; long n; };
static std::vector<Seg> plan;
static size_t plan_i;
static long seg_used;
static std::vector<int> order;
static bool random_mode;
// a slow thread: after each lag_step of its steps (the first time after
// lag_first) the others complete lag_calls calls
static int lag_v, lag_turn;
static long lag_first, lag_step, lag_used, lag_calls, lag_done;
static std::mt19937_64 rng;
static double switch_p;
static int spurious;  // weak CAS number (per thread) that fails spuriously
static thread_local int cas_no;

static std::vector<std::string>* hist;
static std::map<long, std::string>* results;
static std::string where;  // description of the current run
static bool uaf_reported = false;
static void die(const char* what) {
  int s = ignore; ignore = 1;
  std::string hs, rs;
  if (hist) {
    for (auto& h : *hist) hs += (hs.empty() ? "" : ",") + h;
    for (auto& r : *results) rs += (rs.empty() ? "\"" : ",\"") + std::to_string(r.first) + "\":" + r.second;
  }
  std::string o = std::string("{\"") + what + "\":1,\"h\":[" + hs + "],\"res\":{" + rs + "},\"run\":" + where + "}\n";
  std::cout << o << std::flush;
  ignore = s;
  _exit(42);
}

static bool ready(int t) { return th[t].st == READY; }
static int first_ready() {
  for (int t : order) if (ready(t)) return t;
  for (int t = 1; t <= nth; ++t) if (ready(t)) return t;
  return 0;
}
static void pass_to(int t) {  // current thread keeps waiting for its turn
  int me = tid;
  cur = t;
  streak = 0;
  sem_post(&th[t].sem);
  while (sem_wait(&th[me].sem)) {}
}
static int lag_other() {
  for (int k = 0; k < nth; ++k) {
    int t = (lag_turn + k) % nth + 1;
    if (t != lag_v && ready(t)) return t;
  }
  return ready(lag_v) ? lag_v : 0;
}
static int next_in_plan() {
  while (plan_i < plan.size()) {
    ++plan_i;
    seg_used = 0;
    if (plan_i < plan.size() && ready(plan[plan_i].t)) return plan[plan_i].t;
  }
  return first_ready();
}
static void point() {
  if (phase != THREADS || tid == 0) return;
  ++th[tid].points;
  if (++total_points > 400000) die("livelock");
  int nxt = tid;
  if (++streak > 5000) {  // fairness for code that waits by spinning
    for (int k = 1; k <= nth; ++k) {
      int t = (tid - 1 + k) % nth + 1;
      if (ready(t) && t != tid) { nxt = t; break; }
    }
    streak = 0;
  } else if (lag_v) {
    if (tid != lag_v) {
      if (lag_done >= lag_calls && ready(lag_v)) { nxt = lag_v; lag_done = 0; ++lag_turn; }
    } else if (++lag_used > lag_first) {
      lag_used = lag_first - lag_step + 1;
      lag_done = 0;
      nxt = lag_other();
    }
  } else if (random_mode) {
    if ((rng() >> 11) * (1.0 / 9007199254740992.0) < switch_p) {
      int c[MAXT], n = 0;
      for (int t = 1; t <= nth; ++t) if (ready(t)) c[n++] = t;
      nxt = c[rng() % n];
    }
  } else if (plan_i < plan.size()) {
    if (plan[plan_i].t == tid && ++seg_used > plan[plan_i].n) nxt = next_in_plan();
  }
  if (nxt != tid) pass_to(nxt);
}
static int successor() {  // of the current thread, which cannot go on
  if (lag_v) return lag_other();
  if (random_mode) {
    int c[MAXT], n = 0;
    for (int t = 1; t <= nth; ++t) if (ready(t)) c[n++] = t;
    return n ? c[rng() % n] : 0;
  }
  return plan_i < plan.size() && plan[plan_i].t == tid ? next_in_plan() : first_ready();
}
static void block_on(uintptr_t a) {
  th[tid].st = BLOCKED;
  th[tid].on = a;
  int nxt = successor();
  if (!nxt) die("deadlock");
  pass_to(nxt);
}
static void wake(uintptr_t a) {
  for (int t = 1; t <= nth; ++t)
    if (th[t].st == BLOCKED && th[t].on == a) th[t].st = READY;
}

// ------------------------------------------------------- shared granules
struct Share { uint16_t r = 0, w = 0; };
static std::unordered_map<uintptr_t, Share>* share;
static bool is_shared(uintptr_t a, size_t n, bool wr) {
  bool res = false;
  uint16_t me = uint16_t(1 << tid);
  for (uintptr_t g = a / 8; g <= (a + (n ? n - 1 : 0)) / 8; ++g) {
    int s = ignore; ignore = 1;
    Share& x = (*share)[g];
    ignore = s;
    if (wr) x.w |= me; else x.r |= me;
    if ((x.w & ~me) || (x.w && ((x.r | x.w) & ~me))) res = true;
  }
  return res;
}
static bool observable(const void* p) {
  return in_arena(p) || (conc_watch_stacks && in_stacks(p)) || ((char*)p >= &__data_start && (char*)p < &_end);
}
static void access(const void* p, size_t n, bool wr) {
  if (ignore || phase == IDLE || !observable(p) || n == 0) return;
  uintptr_t a = (uintptr_t)p;
  if (in_arena(p) && afreed[((char*)p - abase) / 16]) {
    if (record) log_sync('X', a, n);
    int s = ignore; ignore = 1;
    if (!uaf_reported) { uaf_reported = true; std::cout << "{\"uaf\":1,\"run\":" << where << "}\n" << std::flush; }
    ignore = s;
  }
  if (phase != THREADS) return;
  if (is_shared(a, n, wr)) {
    point();
    log_access(wr ? 'W' : 'R', a, n);
  }
}

// ------------------------------------------------------------------ locks
struct Lock { int owner = -1; int depth = 0; int readers = 0; uint16_t rmask = 0; };
static std::unordered_map<uintptr_t, Lock>* locks;
static Lock& lock_of(void* m) {
  int s = ignore; ignore = 1;
  Lock& l = (*locks)[(uintptr_t)m];
  ignore = s;
  return l;
}
static void check_live(void* m) {
  if (!ignore && phase != IDLE && in_arena(m) && afreed[((char*)m - abase) / 16]) access(m, 8, false);
}
static bool in_use() { return phase != IDLE && !ignore; }
static int do_lock(void* m, bool recursive, bool try_, bool shared) {
  point();
  check_live(m);
  uintptr_t a = (uintptr_t)m;
  for (;;) {
    Lock& l = lock_of(m);
    bool free_ = shared ? l.owner < 0 : (l.owner < 0 && l.readers == 0) || (recursive && l.owner == tid);
    if (free_) break;
    if (try_) return EBUSY;
    if (phase != THREADS || tid == 0) die("deadlock");
    block_on(a);
  }
  Lock& l = lock_of(m);
  if (shared) { ++l.readers; l.rmask |= uint16_t(1 << tid); log_sync('S', a); }
  else { l.owner = tid; if (l.depth++ == 0) log_sync('L', a); }
  return 0;
}
static int do_unlock(void* m, bool go_on = true) {
  check_live(m);
  uintptr_t a = (uintptr_t)m;
  Lock& l = lock_of(m);
  if (l.owner == tid) {
    if (--l.depth == 0) { l.owner = -1; log_sync('U', a); wake(a); }
  } else if (l.readers > 0) {
    --l.readers;
    if (!l.readers) l.rmask = 0;
    log_sync('V', a);
    wake(a);
  } else {
    return EPERM;
  }
  if (go_on) point();
  return 0;
}
}  // namespace rt
using namespace rt;

void rt_fail_alloc(long n) { fail_alloc = n; }

extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_mutex_init(pthread_mutex_t*, const pthread_mutexattr_t*);
int __real_pthread_mutex_destroy(pthread_mutex_t*);
static bool rec(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { return in_use() ? do_lock(m, rec(m), false, false) : __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { return in_use() ? do_lock(m, rec(m), true, false) : __real_pthread_mutex_trylock(m); }
int __wrap_pthread_mutex_timedlock(pthread_mutex_t* m, const timespec*) { return do_lock(m, rec(m), false, false); }
int __wrap_pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const timespec*) { return do_lock(m, rec(m), false, false); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { return in_use() ? do_unlock(m) : __real_pthread_mutex_unlock(m); }
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) { return do_lock(m, false, false, true); }
int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { return do_lock(m, false, true, true); }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) { return do_lock(m, false, false, false); }
int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t* m) { return do_lock(m, false, true, false); }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m) { return do_unlock(m); }
int __wrap_sched_yield(void) { point(); return 0; }
int __wrap_nanosleep(const timespec*, timespec*) { point(); return 0; }
int __wrap_clock_nanosleep(clockid_t, int, const timespec*, timespec*) { point(); return 0; }
int __wrap_pthread_once(pthread_once_t* o, void (*f)(void)) {
  if (*(volatile int*)o == 2) { log_sync('A', (uintptr_t)o, 4, 0, 2); return 0; }
  if (in_use()) {
    do_lock(o, false, false, false);
    if (*(volatile int*)o == 2) { do_unlock(o); return 0; }
  }
  try { f(); } catch (...) { if (in_use()) do_unlock(o); throw; }
  *(volatile int*)o = 2;
  log_sync('A', (uintptr_t)o, 4, 1, 3);
  if (in_use()) do_unlock(o);
  return 0;
}

// condition variables; std::condition_variable::wait lives in libstdc++.so and
// finds these definitions
static int cond_wait(void* c, void* m, bool timed) {
  if (phase != THREADS || tid == 0) { if (timed) return ETIMEDOUT; die("deadlock"); }
  do_unlock(m, false);       // and begin to wait, in one step
  if (timed) { point(); do_lock(m, false, false, false); return ETIMEDOUT; }
  block_on((uintptr_t)c);
  do_lock(m, false, false, false);
  return 0;
}
int pthread_cond_init(pthread_cond_t*, const pthread_condattr_t*) { return 0; }
int pthread_cond_destroy(pthread_cond_t*) { return 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cond_wait(c, m, false); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec*) { return cond_wait(c, m, true); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const timespec*) { return cond_wait(c, m, true); }
int pthread_cond_signal(pthread_cond_t* c) { wake((uintptr_t)c); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { wake((uintptr_t)c); return 0; }

// initialization of function local statics
int __cxa_guard_acquire(uint64_t* g) {
  if (*(volatile char*)g & 1) return 0;
  if (in_use()) {
    do_lock(g, false, false, false);
    if (*(volatile char*)g & 1) { do_unlock(g); return 0; }
  }
  ++ignore;          // what the object allocates outlives the run
  return 1;
}
void __cxa_guard_release(uint64_t* g) {
  *(volatile char*)g = 1;
  --ignore;
  if (in_use() && lock_of(g).owner == tid) do_unlock(g);
}
void __cxa_guard_abort(uint64_t* g) {
  --ignore;
  if (in_use() && lock_of(g).owner == tid) do_unlock(g);
}

void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) { access(s, n, false); access(d, n, true); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { access(s, n, false); access(d, n, true); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { access(d, n, true); return __real_memset(d, c, n); }
int __real_memcmp(const void*, const void*, size_t);
int __wrap_memcmp(const void* a, const void* b, size_t n) { access(a, n, false); access(b, n, false); return __real_memcmp(a, b, n); }
int __real_bcmp(const void*, const void*, size_t);
int __wrap_bcmp(const void* a, const void* b, size_t n) { access(a, n, false); access(b, n, false); return __real_memcmp(a, b, n); }

// tree nodes are linked inside libstdc++.so
struct RbNode { int color; RbNode *parent, *left, *right; };
#define RB_INSERT _ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
void CAT(__real_, RB_INSERT)(bool, RbNode*, RbNode*, RbNode&);
void CAT(__wrap_, RB_INSERT)(bool l, RbNode* x, RbNode* p, RbNode& h) {
  access(&h, sizeof(RbNode), true);
  access(p, sizeof(RbNode), true);
  access(x, sizeof(RbNode), true);
  CAT(__real_, RB_INSERT)(l, x, p, h);
}
#define RB_ERASE _ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_
RbNode* CAT(__real_, RB_ERASE)(RbNode*, RbNode&);
RbNode* CAT(__wrap_, RB_ERASE)(RbNode* x, RbNode& h) {
  access(&h, sizeof(RbNode), true);
  access(x, sizeof(RbNode), true);
  if (x->parent) access(x->parent, sizeof(RbNode), true);
  return CAT(__real_, RB_ERASE)(x, h);
}

#define PLAIN(N)                                                          \
  void __tsan_read##N(void* p) { access(p, N, false); }                   \
  void __tsan_write##N(void* p) { access(p, N, true); }                   \
  void __tsan_unaligned_read##N(void* p) { access(p, N, false); }         \
  void __tsan_unaligned_write##N(void* p) { access(p, N, true); }         \
  void __tsan_volatile_read##N(void* p) { access(p, N, false); }          \
  void __tsan_volatile_write##N(void* p) { access(p, N, true); }
PLAIN(1) PLAIN(2) PLAIN(4) PLAIN(8) PLAIN(16)
void __tsan_read_range(void* p, size_t n) { access(p, n, false); }
void __tsan_write_range(void* p, size_t n) { access(p, n, true); }
void __tsan_vptr_read(void* p) { access(p, 8, false); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) access(p, 8, true); }
void __tsan_func_entry(void*) {}
void __tsan_func_exit(void) {}
void __tsan_init(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
}

static void atomic_event(const volatile void* p, size_t n, int op, int mo) {
  if (ignore || phase == IDLE || !observable((const void*)p)) return;
  if (in_arena((const void*)p) && afreed[((char*)p - abase) / 16]) access((const void*)p, n, op != 0);
  if (phase != THREADS) return;
  is_shared((uintptr_t)p, n, op != 0);
  point();
  log_sync('A', (uintptr_t)p, n, op, mo);
}

#define ATOMICS(B, T)                                                                                        \
  T __tsan_atomic##B##_load(const volatile T* a, int mo) { atomic_event(a, B / 8, 0, mo); return *a; }       \
  void __tsan_atomic##B##_store(volatile T* a, T v, int mo) { atomic_event(a, B / 8, 1, mo); *a = v; }       \
  T __tsan_atomic##B##_exchange(volatile T* a, T v, int mo) { atomic_event(a, B / 8, 2, mo); T o = *a; *a = v; return o; } \
  T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int mo) { atomic_event(a, B / 8, 2, mo); T o = *a; *a = o + v; return o; } \
  T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int mo) { atomic_event(a, B / 8, 2, mo); T o = *a; *a = o - v; return o; } \
  T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int mo) { atomic_event(a, B / 8, 2, mo); T o = *a; *a = o & v; return o; } \
  T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int mo) { atomic_event(a, B / 8, 2, mo); T o = *a; *a = o | v; return o; } \
  T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int mo) { atomic_event(a, B / 8, 2, mo); T o = *a; *a = o ^ v; return o; } \
  T __tsan_atomic##B##_fetch_nand(volatile T* a, T v, int mo) { atomic_event(a, B / 8, 2, mo); T o = *a; *a = ~(o & v); return o; } \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) {                \
    point();                                                                                                 \
    bool eq = *a == *c;                                                                                      \
    int s = 0; (void)s;                                                                                      \
    nopoint_atomic(a, B / 8, eq ? 2 : 0, eq ? mo : fmo);                                                     \
    if (eq) { *a = v; return 1; }                                                                            \
    *c = *a; return 0;                                                                                       \
  }                                                                                                          \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) {                  \
    if (!ignore && phase == THREADS && observable((void*)a) && ++cas_no == spurious) {                       \
      point(); nopoint_atomic(a, B / 8, 0, fmo); *c = *a; return 0;                                          \
    }                                                                                                        \
    return __tsan_atomic##B##_compare_exchange_strong(a, c, v, mo, fmo);                                     \
  }                                                                                                          \
  T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) {                      \
    __tsan_atomic##B##_compare_exchange_strong(a, &c, v, mo, fmo);                                           \
    return c;                                                                                                \
  }
static void nopoint_atomic(const volatile void* p, size_t n, int op, int mo) {
  if (ignore || phase != THREADS || !observable((const void*)p)) return;
  if (in_arena((const void*)p) && afreed[((char*)p - abase) / 16]) access((const void*)p, n, op != 0);
  is_shared((uintptr_t)p, n, op != 0);
  log_sync('A', (uintptr_t)p, n, op, mo);
}
extern "C" {
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)
void __tsan_atomic_thread_fence(int) { if (!ignore) point(); }
void __tsan_atomic_signal_fence(int) {}
}

// ------------------------------------------------------------- allocation
void* operator new(size_t n) {
  if (ignore || phase == IDLE) {
    void* p = malloc(n ? n : 1);
    if (!p) abort();
    return p;
  }
  if (fail_alloc && --fail_alloc == 0) throw std::bad_alloc();
  return aalloc(n);
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return operator new(n); }
void operator delete(void* p) noexcept {
  if (!p) return;
  if (!in_arena(p)) { free(p); return; }
  size_t n = *(size_t*)((char*)p - 16);
  unsigned char* f = afreed + ((char*)p - abase) / 16;
  if (!ignore && phase != IDLE) {
    if (*f) access(p, n, true);          // freed twice
    if (phase == THREADS && n && is_shared((uintptr_t)p, n, true)) { point(); log_access('F', (uintptr_t)p, n); }
  }
  memset(f, 1, (n + 15) / 16);
}
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }

// ------------------------------------------------- ends and starts of threads
static void finish() {
  ++ignore;
  log_sync('A', (uintptr_t)&th[tid], 0, 1, 3);
  th[tid].st = FINISHED;
  wake((uintptr_t)&th[tid]);
  int nxt = successor();
  if (nxt) { cur = nxt; streak = 0; sem_post(&th[nxt].sem); }
  else {
    for (int t = 1; t <= nth; ++t) if (th[t].st == BLOCKED) die("deadlock");
    sem_post(&main_sem);
  }
}
static int real_create(pthread_t* h, const pthread_attr_t* a, void* (*f)(void*), void* x) {
  static auto real = (int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*))dlsym(RTLD_NEXT, "pthread_create");
  return real(h, a, f, x);
}
static int real_join(pthread_t h, void** r) {
  static auto real = (int (*)(pthread_t, void**))dlsym(RTLD_NEXT, "pthread_join");
  return real(h, r);
}
static int create_on_stack(int t, void* (*f)(void*)) {
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstack(&at, stack_of(t), SSIZE);
  int r = real_create(&th[t].h, &at, f, (void*)(intptr_t)t);
  pthread_attr_destroy(&at);
  return r;
}
static void* started_main(void* arg) {
  tid = (int)(intptr_t)arg;
  ignore = 0;
  cas_no = 0;
  while (sem_wait(&th[tid].sem)) {}
  log_sync('A', (uintptr_t)&th[tid].fn, 0, 0, 2);
  th[tid].fn(th[tid].arg);
  finish();
  return nullptr;
}
struct Plain { void* (*f)(void*); void* x; };
static void* plain_main(void* p) {
  ++ignore;
  Plain q = *(Plain*)p;
  free(p);
  return q.f(q.x);
}
static int my_thread(pthread_t h) {
  for (int t = nbase + 1; t <= nth; ++t) if (pthread_equal(th[t].h, h)) return t;
  return 0;
}
extern "C" {
int pthread_create(pthread_t* h, const pthread_attr_t* a, void* (*f)(void*), void* x) {
  if (phase != THREADS || tid == 0 || ignore) {
    Plain* p = (Plain*)malloc(sizeof(Plain));
    *p = Plain{f, x};
    return real_create(h, a, plain_main, p);
  }
  if (nth == MAXT) die("toomany");
  point();
  int t = nth + 1;
  th[t].fn = f;
  th[t].arg = x;
  th[t].joined = false;
  th[t].points = 0;
  th[t].on = 0;
  log_sync('A', (uintptr_t)&th[t].fn, 0, 1, 3);
  int s = ignore; ignore = 1;
  int r = create_on_stack(t, started_main);
  ignore = s;
  if (r) return r;
  th[t].st = READY;
  nth = t;
  *h = th[t].h;
  point();
  return 0;
}
int pthread_join(pthread_t h, void** r) {
  int t = phase == THREADS && tid != 0 ? my_thread(h) : 0;
  if (!t) return real_join(h, r);
  point();
  while (th[t].st != FINISHED) block_on((uintptr_t)&th[t]);
  log_sync('A', (uintptr_t)&th[t], 0, 0, 2);
  th[t].joined = true;
  return real_join(h, r);
}
int pthread_detach(pthread_t h) {
  if (phase == THREADS && tid != 0 && my_thread(h)) return 0;
  static auto real = (int (*)(pthread_t))dlsym(RTLD_NEXT, "pthread_detach");
  return real(h);
}
// waiting for a word of memory to change
long __real_syscall(long, long, long, long, long, long, long);
long __wrap_syscall(long n, long a, long b, long c, long d, long e, long f) {
  if (n == SYS_futex && in_use() && phase == THREADS && tid != 0) {
    int cmd = int(b) & FUTEX_CMD_MASK;
    if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) wake((uintptr_t)a);
    else if (*(volatile int*)a == int(c)) { if (d) point(); else block_on((uintptr_t)a); }
    return 0;
  }
  return __real_syscall(n, a, b, c, d, e, f);
}
// the locks of std::atomic_load(shared_ptr*) and its relatives
void __wrap__ZNSt10_Sp_lockerC1EPKv(void*, const void*) { if (in_use()) do_lock((void*)&sbase, true, false, false); }
void __wrap__ZNSt10_Sp_lockerC1EPKvS1_(void*, const void*, const void*) { if (in_use()) do_lock((void*)&sbase, true, false, false); }
void __wrap__ZNSt10_Sp_lockerD1Ev(void*) { if (in_use()) do_unlock((void*)&sbase); }
}
// std::future
#include <chrono>
#include <bits/atomic_futex.h>
namespace std {
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* a, unsigned v, bool has, chrono::seconds, chrono::nanoseconds) {
  if (phase != THREADS || tid == 0 || rt::ignore) { usleep(100); return !has; }
  if (*(volatile unsigned*)a != v) return true;
  if (has) { point(); return false; }
  block_on((uintptr_t)a);
  return true;
}
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* a, unsigned v, bool has, chrono::seconds s, chrono::nanoseconds n) {
  return _M_futex_wait_until(a, v, has, s, n);
}
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned* a) { wake((uintptr_t)a); }
}  // namespace std

// --------------------------------------------------------------- programs
struct Program {
  std::string id;
  std::vector<std::pair<long, std::string>> setup, post, calls[MAXT + 1];
  int n = 0;
};
static Program* prog;

static void one_call(long i, const std::string& line) {
  ++ignore;
  hist->push_back("[\"i\"," + std::to_string(i) + "]");
  if (record == 2) log_sync('i', i);
  --ignore;
  std::string r = conc_exec(i, line);
  ++ignore;
  if (record == 2) log_sync('r', i);
  hist->push_back("[\"r\"," + std::to_string(i) + "]");
  (*results)[i] = r;
  ++lag_done;
  r.clear();
  r.shrink_to_fit();
  --ignore;
}
void rt_event(const std::string& e) {
  point();
  int s = ignore; ignore = 1;
  hist->push_back(e);
  ignore = s;
  point();
}
void rt_point() { point(); }
static void* thread_main(void* arg) {
  tid = (int)(intptr_t)arg;
  ignore = 0;
  cas_no = 0;
  while (sem_wait(&th[tid].sem)) {}
  for (auto& c : prog->calls[tid]) {
    point();
    ++ignore;
    std::string line = c.second;
    --ignore;
    one_call(c.first, line);
    ++ignore;
    { std::string().swap(line); }
    --ignore;
  }
  finish();
  return nullptr;
}

static std::unordered_set<std::string> seen_h, seen_r;
static long n_runs, n_points, max_hist, max_race;
static int most;   // threads in a run

static std::string canonical_race() {
  std::vector<uintptr_t> b;
  for (auto& e : *logv)
    if (strchr("RWFXA", e.k)) { b.push_back(e.a); b.push_back(e.a + e.n); }
  std::sort(b.begin(), b.end());
  b.erase(std::unique(b.begin(), b.end()), b.end());
  size_t ne = b.size();
  std::vector<uint16_t> rd(ne), wr(ne);
  std::vector<uint8_t> plain(ne);
  auto range = [&](const Ev& e, size_t& x, size_t& y) {
    x = std::lower_bound(b.begin(), b.end(), e.a) - b.begin();
    y = std::lower_bound(b.begin(), b.end(), e.a + e.n) - b.begin();
  };
  for (auto& e : *logv) {
    if (!strchr("RWFA", e.k)) continue;
    size_t x, y;
    range(e, x, y);
    for (size_t i = x; i < y; ++i) {
      if (e.k == 'R' || (e.k == 'A' && e.op == 0)) rd[i] |= uint16_t(1 << e.t); else wr[i] |= uint16_t(1 << e.t);
      if (e.k != 'A') plain[i] = 1;
    }
  }
  auto multi = [](uint16_t m) { return (m & (m - 1)) != 0; };
  std::unordered_map<uintptr_t, int> sid, eid;
  auto id = [](std::unordered_map<uintptr_t, int>& m, uintptr_t k) { return m.emplace(k, (int)m.size() + 1).first->second; };
  std::string o;
  auto put = [&o](const std::string& s) { o += (o.empty() ? "" : ",") + s; };
  for (auto& e : *logv) {
    std::string t = std::to_string(e.t);
    if (e.k == 'X') { put("[" + t + ",\"X\",0,0]"); continue; }
    if (e.k == 'i' || e.k == 'r') { put("[" + t + ",\"" + e.k + "\"," + std::to_string(e.a) + ",0]"); continue; }
    if (strchr("LUSV", e.k)) { put("[" + t + ",\"" + e.k + "\"," + std::to_string(id(sid, e.a)) + ",0]"); continue; }
    size_t x, y;
    range(e, x, y);
    std::string el;
    for (size_t i = x; i < y; ++i)
      if (wr[i] && multi(rd[i] | wr[i]) && plain[i]) el += (el.empty() ? "" : ",") + std::to_string(id(eid, b[i]));
    if (e.k == 'A') {
      // acquire: consume, acquire, acq_rel, seq_cst; release: release, acq_rel, seq_cst
      int acq = e.mo == 1 || e.mo == 2 || e.mo >= 4, rel = e.mo >= 3;
      put("[" + t + ",\"A\"," + std::to_string(id(sid, e.a)) + "," + std::to_string(e.op) + "," + std::to_string(acq) + "," +
          std::to_string(rel) + ",[" + el + "]]");
    } else if (!el.empty()) {
      put("[" + t + ",\"" + e.k + "\",0,[" + el + "]]");
    }
  }
  return "[" + o + "]";
}

// which of the distinct observations are printed: the first ones and a sample
// of the others
static bool chosen(size_t n, long max) {
  static std::minstd_rand r(7);
  return (long)n <= max / 2 || (long)(r() % n) < max / 2;
}

// setup, threads and final calls; a thread of its own, because the library may
// keep data per thread
static void* run_main(void*) {
  tid = 0;
  ++ignore;
  conc_new_world();
  phase = SETUP;
  --ignore;
  for (auto& c : prog->setup) one_call(c.first, c.second);
  ++ignore;
  phase = THREADS;
  for (int t = 1; t <= nth; ++t) if (create_on_stack(t, thread_main)) abort();
  lag_used = lag_done = 0;
  lag_turn = lag_v;
  int f = lag_v ? lag_v : plan.empty() || random_mode || plan[0].t > nth ? first_ready() : plan[0].t;
  if (random_mode) f = 1 + (int)(rng() % nth);
  cur = f;
  sem_post(&th[f].sem);
  while (sem_wait(&main_sem)) {}
  for (int t = 1; t <= nth; ++t) if (t <= nbase || !th[t].joined) real_join(th[t].h, nullptr);
  most = std::max(most, nth);
  phase = POST;
  --ignore;
  for (auto& c : prog->post) one_call(c.first, c.second);
  conc_drop_world();
  ++ignore;
  phase = IDLE;
  return nullptr;
}

static void run() {
  ++ignore;
  ++n_runs;
  {
    std::string o = "{\"id\":\"" + prog->id + "\",\"plan\":[";
    for (size_t i = 0; i < plan.size(); ++i) o += (i ? ",[" : "[") + std::to_string(plan[i].t) + "," + std::to_string(plan[i].n) + "]";
    o += "],\"order\":[";
    for (size_t i = 0; i < order.size(); ++i) o += (i ? "," : "") + std::to_string(order[i]);
    if (lag_v) o += "],\"lag\":[" + std::to_string(lag_v) + "," + std::to_string(lag_first) + "," + std::to_string(lag_step) + "," + std::to_string(lag_calls);
    where = o + "],\"random\":" + (random_mode ? "true" : "false") + ",\"spurious\":" + std::to_string(spurious) + ",\"n\":" + std::to_string(n_runs) + "}";
  }
  for (auto& t : th) { t.fn = nullptr; t.arg = nullptr; t.on = 0; }
  reset_arenas();
  locks->clear();
  hist->clear();
  results->clear();
  logv->clear();
  for (int i = 0; i <= MAXT; ++i) seen[i]->clear();
  nth = nbase = prog->n;
  total_points = streak = 0;
  plan_i = 0;
  seg_used = 0;
  for (int t = 1; t <= nth; ++t) { th[t].st = READY; th[t].points = 0; th[t].on = 0; }
  if (create_on_stack(0, run_main)) abort();
  real_join(th[0].h, nullptr);
  n_points += total_points;
  std::string key;
  for (auto& h : *hist) key += (key.empty() ? "" : ",") + h;
  std::string rs;
  for (auto& r : *results) rs += (rs.empty() ? "\"" : ",\"") + std::to_string(r.first) + "\":" + r.second;
  key = "\"h\":[" + key + "],\"res\":{" + rs + "}";
  if (seen_h.insert(key).second && chosen(seen_h.size(), max_hist))
    std::cout << "{" << key << ",\"run\":" << where << "}\n";
  if (record) {
    auto r = canonical_race();
    if (seen_r.insert(r).second && chosen(seen_r.size(), max_race))
      std::cout << "{\"race\":" << r << ",\"run\":" << where << "}\n";
  }
  --ignore;
}

static void explore(long maxruns, uint64_t seed) {
  share->clear();
  uaf_reported = false;
  seen_h.clear();
  seen_r.clear();
  n_runs = n_points = most = 0;
  rng.seed(seed);
  int n = prog->n;
  std::vector<int> p;
  for (int t = 1; t <= n; ++t) p.push_back(t);
  std::vector<std::vector<int>> perms;
  do perms.push_back(p); while (std::next_permutation(p.begin(), p.end()));
  plan.clear();
  spurious = 0;
  int rec_ = record;
  record = 0;
  for (int k = 0; k < 2; ++k) {           // learn which memory is shared
    random_mode = false;
    for (auto& q : perms) { order = q; plan.clear(); run(); }
    random_mode = true;
    switch_p = 0.2;
    for (int i = 0; i < 6; ++i) run();
  }
  record = rec_;
  random_mode = false;
  std::vector<long> len(MAXT + 1);
  for (auto& q : perms) {
    order = q;
    plan.clear();
    run();
    len[q[0]] = th[q[0]].points;
    for (int t = n + 1; t <= nth; ++t) len[t] = std::max(len[t], th[t].points);
  }
  int all_t = most;
  // one preemption, everywhere
  long budget1 = maxruns / 3;
  for (int a = 1; a <= all_t; ++a) {
    std::vector<std::vector<int>> os;
    for (auto& q : perms) {
      if (a <= n) {
        if (q[0] != a) os.push_back(q);
        continue;
      }
      std::vector<int> o = q;                 // a started thread, preempted by the others
      for (int t = all_t; t > n; --t) if (t != a) o.push_back(t);
      o.push_back(a);
      os.push_back(o);
    }
    long step = 1;
    while (len[a] / step * (long)os.size() * all_t > budget1) ++step;
    for (auto& q : os)
      for (long i = 0; i <= len[a]; i += step) {
        order = q;
        plan = {{a, i}};
        spurious = (i % 3 == 2) ? 1 + (int)(i / 3 % 2) : 0;
        run();
      }
  }
  // two preemptions
  long budget2 = maxruns / 3;
  std::vector<std::pair<int, int>> ab;
  for (int a = 1; a <= all_t; ++a) for (int b = 1; b <= all_t; ++b) if (a != b) ab.push_back({a, b});
  for (auto& x : ab) {
    int a = x.first, b = x.second;
    long all = (len[a] + 1) * (len[b] + 1), mine = budget2 / (long)ab.size();
    for (long k = 0; k < std::min(all, mine); ++k) {
      long z = all <= mine ? k : (long)(rng() % all);
      plan = {{a, z / (len[b] + 1)}, {b, z % (len[b] + 1)}};
      order = perms[rng() % perms.size()];
      for (int t = n + 1; t <= all_t; ++t) order.push_back(t);
      if (all_t > n && rng() % 2) std::reverse(order.begin(), order.end());
      auto it = std::find(order.begin(), order.end(), b);   // b must not simply continue
      order.erase(it);
      order.push_back(b);
      spurious = rng() % 4 == 0 ? 1 + (int)(rng() % 3) : 0;
      run();
    }
  }
  // a slow thread
  plan.clear();
  long budget3 = n_runs + maxruns / 6;
  for (long i = 0; i < 3 * 6 * n && n_runs < budget3; ++i) {
    lag_v = 1 + (int)(i % n);
    lag_calls = 1 + i / n % 3 % 2;
    lag_first = 1 + i / n / 3;
    static const long steps[] = {1, 2, 3, 5};
    for (long st : steps) {
      lag_step = st;
      spurious = 0;
      run();
    }
  }
  lag_v = 0;
  random_mode = true;
  plan.clear();
  while (n_runs < maxruns) {
    static const double ps[] = {0.03, 0.1, 0.3, 0.6};
    switch_p = ps[rng() % 4];
    spurious = rng() % 4 == 0 ? 1 + (int)(rng() % 3) : 0;
    run();
  }
  random_mode = false;
  std::cout << "{\"done\":\"" << prog->id << "\",\"runs\":" << n_runs << ",\"points\":" << n_points
            << ",\"histories\":" << seen_h.size() << ",\"logs\":" << seen_r.size() << "}\n" << std::flush;
}

static void on_signal(int sig) {
  char b[600];
  int n = snprintf(b, sizeof b, "{\"crash\":%d,\"run\":%s}\n", sig, where.c_str());
  if (n > (int)sizeof b) n = sizeof b;
  std::cout << std::flush;
  if (write(1, b, n)) {}
  _exit(43);
}

int main() {
  ++ignore;
  init_arenas();
  init_stacks();
  logv = new std::vector<Ev>;
  for (auto& s : seen) s = new std::unordered_set<uint64_t>;
  share = new std::unordered_map<uintptr_t, Share>;
  locks = new std::unordered_map<uintptr_t, Lock>;
  hist = new std::vector<std::string>;
  results = new std::map<long, std::string>;
  for (auto& t : th) sem_init(&t.sem, 0, 0);
  sem_init(&main_sem, 0, 0);
  for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL}) signal(s, on_signal);
  prog = new Program;
  std::string line;
  --ignore;
  while (++ignore, std::getline(std::cin, line)) {
    std::istringstream is(line);
    std::string op;
    is >> op;
    auto rest = [&is] { std::string r; std::getline(is >> std::ws, r); return r; };
    long i;
    if (op == "program") { *prog = Program(); is >> prog->id; std::cout << "{\"program\":\"" << prog->id << "\"}\n"; }
    else if (op == "setup") { is >> i; prog->setup.push_back({i, rest()}); }
    else if (op == "post") { is >> i; prog->post.push_back({i, rest()}); }
    else if (op == "t") { int t; is >> t >> i; prog->calls[t].push_back({i, rest()}); prog->n = std::max(prog->n, t); }
    else if (op == "explore") {
      long m; uint64_t s; int r;
      is >> m >> s >> r >> max_hist >> max_race;
      record = r;
      --ignore;
      explore(m, s);
      ++ignore;
    }
    --ignore;
  }
  std::cout << std::flush;
  _exit(0);
}
