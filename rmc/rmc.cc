// Stateless model checker runtime.  See DESIGN.md, "The schedule explorer".
//
// Everything that runs in a scenario (library code, harness, libstdc++) runs on
// user-level fibers of one kernel thread, each with the thread-control block of
// a parked real thread, so thread_local and errno behave as with real threads.
// Synchronisation and time functions of libc are interposed and become
// scheduling points; the __tsan_* callbacks the compiler inserts feed a
// happens-before race detector; operator new/delete come from an arena that
// finds accesses to freed memory.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "rmc.h"

#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <fcntl.h>
#include <immintrin.h>
#include <link.h>
#include <linux/futex.h>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <csignal>
#include <sys/auxv.h>
#include <sys/single_threaded.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <map>
#include <semaphore.h>

extern "C" char __data_start, _end;

namespace rmc {
namespace {

constexpr int kMaxT = 12;
constexpr size_t kStack = 256 * 1024;
constexpr size_t kArenaT = 16u << 20;  // Per thread, so that addresses do not
                                      // depend on the order of allocations.
constexpr size_t kArena = kArenaT * kMaxT;
constexpr uintptr_t kBase = 0x200000000000ULL;
constexpr int kMaxPath = 6000;
constexpr int kMaxObj = 16384;
constexpr int64_t kStartTime = 1000000000000LL;

enum Status : uint8_t { kUnused, kReady, kDone };
enum Pend : uint8_t {
  pNone,
  pStep,       // Always enabled.
  pLock,       // obj: mutex; enabled iff free.
  pRd,         // rwlock shared.
  pWr,         // rwlock exclusive.
  pCv,         // Waiting on a condition variable (never enabled by itself).
  pJoin,       // obj: thread.
  pSleep,      // Until deadline.
  pSem,        // obj: semaphore, arg: count.
  pGuard,      // obj: guard; enabled iff not in progress.
  pTimedLock,  // As pLock but may time out.
};

using VC = uint32_t[kMaxT];

struct Ctx {
  void* sp;
};

struct Thread {
  Ctx ctx;
  uint64_t fs;
  Status st;
  Pend pend;
  bool detached, joined, timed, signalled, yielded;
  int result;          // Result of a wait: 0, ETIMEDOUT.
  int obj;             // Object the pending operation refers to.
  int obj2;            // Mutex to reacquire after a wait.
  int arg;
  int64_t deadline;
  VC vc;
  VC acq_pending;      // For acquire fences.
  VC rel_fence;
  bool has_rel_fence;
  uint64_t h;          // Happens-before hash.
  void* (*fn)(void*);
  void* fnarg;
  void* ret;
  struct Dtor {
    void (*f)(void*);
    void* o;
  } dtors[32];
  int ndtors;
  uintptr_t pcs[64];
  int depth;
};

enum OType : uint8_t { oNone, oMutex, oCond, oRw, oAtomic, oSem, oEvent, oThread, oGuard, oClock, oFile };

struct Obj {
  uintptr_t addr;
  uint32_t gen;
  OType type;
  int owner;     // Mutex: owner or -1.  rw: writer or -1.
  int count;     // Mutex: recursion; rw: readers; sem: value; guard: state.
  bool recursive;
  VC vc;
  uint64_t h;
};

struct Slot {
  uint32_t clk;
  uint8_t tid, mask, wr, at;
};
struct Cell {
  uint32_t gen;
  uint8_t n, pad[3];
  Slot s[7];
};
static_assert(sizeof(Cell) == 64, "");

struct Shared;  // Cross-process state.

// State of this process; lives outside the snapshotted data segment.
struct Global {
  bool in_model;       // A fiber is running.
  bool active;         // An execution is in progress.
  int cur;
  int nthreads;
  Ctx sched_ctx;
  uint64_t main_fs;
  Thread t[kMaxT];
  Obj obj[kMaxObj];
  int nobj;
  uint32_t gen;
  // Object hash table: address -> index.
  int otab[1 << 15];
  uint32_t otab_gen[1 << 15];
  // Time.
  int64_t now;
  int clock_obj;
  // Arena.
  size_t arena_used[kMaxT];
  // Path.
  int path[kMaxPath];
  int nopt[kMaxPath];
  int lim[kMaxPath];   // Alternatives from here on are explored elsewhere.
  int plen;            // Length of the path of this execution.
  int prefix;          // Choices up to here are fixed.
  int bound, cost, spurious_max, spurious_used;
  int points, streak, jumps;
  bool round_robin;
  int max_points;
  bool races;
  bool trace;
  // Result.
  bool failed, pruned, diverged, may_block;
  char msg[2048];
  uint64_t outcome;
  // Statistics.
  uint64_t n_exec, n_points, n_pruned, n_accesses;
  int next_sem;
  // Pristine images.
  char* data_img;
  size_t data_len;
  char* tls_img;
  size_t tls_len, tls_off;
  FILE* files[64];
  int nfiles;
  int64_t cpu_start;
  bool caching;
  const std::function<void()>* body;
};

#define G (*reinterpret_cast<Global*>(kBase))
constexpr uintptr_t kArenaAt = kBase + (64u << 20);
constexpr uintptr_t kStackAt = kArenaAt + (256u << 20);
// Shadow for arena, stacks and data.
constexpr uintptr_t kShadowArena = kBase + 0x100000000ULL;
constexpr uintptr_t kShadowStack = kBase + 0x200000000ULL;
constexpr uintptr_t kShadowData = kBase + 0x300000000ULL;
constexpr uintptr_t kArenaState = kBase + 0x400000000ULL;  // 1 byte/8 bytes.
constexpr uintptr_t kSharedAt = kBase + 0x500000000ULL;

// ---- Cross-process ---------------------------------------------------------
constexpr size_t kTable = 1u << 25;  // 32M entries of 16 bytes (sparse).
constexpr int kQueue = 4096;
struct WorkItem {
  int len;
  uint16_t choice[kMaxPath];
};
struct Shared {
  pthread_mutex_t mu;
  std::atomic<int> idle;
  std::atomic<int> qlen;
  std::atomic<int> stop;        // A violation was found or the budget is used.
  std::atomic<int> timed_out;
  std::atomic<uint64_t> states, execs, points, pruned, dropped, accesses;
  std::atomic<uint64_t> maxpath;
  std::atomic<uint64_t> capped;
  std::atomic<int> violated;
  char msg[2048];
  int vlen;
  uint16_t vpath[kMaxPath];
  std::atomic<uint64_t> nout;
  std::atomic<uint64_t> out[1 << 12];
  int live[64];                 // Current path of every worker, for crashes.
  uint64_t table_gen;
  WorkItem q[kQueue];
  struct Entry {
    std::atomic<uint64_t> key;
    std::atomic<uint64_t> val;  // gen << 8 | cost
  } table[kTable];
};
#define S (*reinterpret_cast<Shared*>(kSharedAt))

// ---- Real functions --------------------------------------------------------
template <class F>
F real(const char* name) {
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}
#define REAL(ret, name, ...)                      \
  typedef ret (*name##_fnp)(__VA_ARGS__);           \
  static name##_fnp r_##name = nullptr;             \
  static inline name##_fnp get_##name() {           \
    if (!r_##name) r_##name = real<name##_fnp>(#name); \
    return r_##name;                              \
  }

}  // namespace

REAL(int, pthread_create, pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)
REAL(int, pthread_join, pthread_t, void**)
REAL(int, pthread_detach, pthread_t)
REAL(pthread_t, pthread_self)
REAL(int, pthread_mutex_init, pthread_mutex_t*, const pthread_mutexattr_t*)
REAL(int, pthread_mutex_destroy, pthread_mutex_t*)
REAL(int, pthread_mutex_lock, pthread_mutex_t*)
REAL(int, pthread_mutex_trylock, pthread_mutex_t*)
REAL(int, pthread_mutex_timedlock, pthread_mutex_t*, const timespec*)
REAL(int, pthread_mutex_clocklock, pthread_mutex_t*, clockid_t, const timespec*)
REAL(int, pthread_mutex_unlock, pthread_mutex_t*)
REAL(int, pthread_cond_init, pthread_cond_t*, const pthread_condattr_t*)
REAL(int, pthread_cond_destroy, pthread_cond_t*)
REAL(int, pthread_cond_wait, pthread_cond_t*, pthread_mutex_t*)
REAL(int, pthread_cond_timedwait, pthread_cond_t*, pthread_mutex_t*, const timespec*)
REAL(int, pthread_cond_clockwait, pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*)
REAL(int, pthread_cond_signal, pthread_cond_t*)
REAL(int, pthread_cond_broadcast, pthread_cond_t*)
REAL(int, pthread_rwlock_rdlock, pthread_rwlock_t*)
REAL(int, pthread_rwlock_wrlock, pthread_rwlock_t*)
REAL(int, pthread_rwlock_tryrdlock, pthread_rwlock_t*)
REAL(int, pthread_rwlock_trywrlock, pthread_rwlock_t*)
REAL(int, pthread_rwlock_unlock, pthread_rwlock_t*)
REAL(int, pthread_once, pthread_once_t*, void (*)())
REAL(int, sched_yield)
REAL(int, nanosleep, const timespec*, timespec*)
REAL(int, clock_nanosleep, clockid_t, int, const timespec*, timespec*)
REAL(int, clock_gettime, clockid_t, timespec*)
REAL(int, usleep, useconds_t)
REAL(FILE*, fopen, const char*, const char*)
REAL(FILE*, fopen64, const char*, const char*)
REAL(int, fclose, FILE*)
REAL(int, vfprintf, FILE*, const char*, va_list)
REAL(int, fputs, const char*, FILE*)
REAL(int, fputc, int, FILE*)
REAL(int, putc, int, FILE*)
REAL(size_t, fwrite, const void*, size_t, size_t, FILE*)
REAL(int, fflush, FILE*)
REAL(int, fputs_unlocked, const char*, FILE*)
REAL(int, fputc_unlocked, int, FILE*)
REAL(int, putc_unlocked, int, FILE*)
REAL(size_t, fwrite_unlocked, const void*, size_t, size_t, FILE*)
REAL(int, fflush_unlocked, FILE*)
REAL(void, flockfile, FILE*)
REAL(void, funlockfile, FILE*)
REAL(ssize_t, write, int, const void*, size_t)
REAL(ssize_t, writev, int, const iovec*, int)
REAL(int, sem_init, sem_t*, int, unsigned)
REAL(int, sem_destroy, sem_t*)
REAL(int, sem_wait, sem_t*)
REAL(int, sem_trywait, sem_t*)
REAL(int, sem_post, sem_t*)

namespace {

void resolve_all() {
#define RS(n) get_##n();
  RS(pthread_create) RS(pthread_join) RS(pthread_detach) RS(pthread_self)
  RS(pthread_mutex_init) RS(pthread_mutex_destroy) RS(pthread_mutex_lock)
  RS(pthread_mutex_trylock) RS(pthread_mutex_timedlock) RS(pthread_mutex_clocklock)
  RS(pthread_mutex_unlock) RS(pthread_cond_init) RS(pthread_cond_destroy)
  RS(pthread_cond_wait) RS(pthread_cond_timedwait) RS(pthread_cond_clockwait)
  RS(pthread_cond_signal) RS(pthread_cond_broadcast) RS(pthread_rwlock_rdlock)
  RS(pthread_rwlock_wrlock) RS(pthread_rwlock_tryrdlock) RS(pthread_rwlock_trywrlock)
  RS(pthread_rwlock_unlock) RS(pthread_once) RS(sched_yield) RS(nanosleep)
  RS(clock_nanosleep) RS(clock_gettime) RS(usleep) RS(fopen) RS(fopen64) RS(fclose)
  RS(vfprintf) RS(fputs) RS(fputc) RS(putc) RS(fwrite) RS(fflush)
  RS(fputs_unlocked) RS(fputc_unlocked) RS(putc_unlocked) RS(fwrite_unlocked)
  RS(fflush_unlocked) RS(flockfile) RS(funlockfile) RS(write) RS(writev)
  RS(sem_init) RS(sem_destroy) RS(sem_wait) RS(sem_trywait) RS(sem_post)
#undef RS
}

bool g_mapped = false;  // Set once, before the snapshot.

inline bool M() { return g_mapped && G.in_model; }

// Runtime code runs with the model switched off.
struct Out {
  Out() { G.in_model = false; }
  ~Out() { G.in_model = true; }
};

uint64_t mix(uint64_t a, uint64_t b) {
  uint64_t x = a * 0x9E3779B97F4A7C15ULL + b + 0x632BE59BD9B4E019ULL;
  x ^= x >> 29;
  x *= 0xBF58476D1CE4E5B9ULL;
  x ^= x >> 32;
  x *= 0x94D049BB133111EBULL;
  x ^= x >> 30;
  return x;
}

// ---- Context switch --------------------------------------------------------
extern "C" void rmc_switch(Ctx* from, Ctx* to);
asm(R"(
.text
.globl rmc_switch
.type rmc_switch,@function
rmc_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq (%rsi), %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size rmc_switch,.-rmc_switch
)");

__attribute__((target("fsgsbase"))) void set_fs(uint64_t v) { _writefsbase_u64(v); }
__attribute__((target("fsgsbase"))) uint64_t get_fs() { return _readfsbase_u64(); }

Thread& me() { return G.t[G.cur]; }

[[noreturn]] void to_sched() {
  G.in_model = false;
  Ctx dummy;
  set_fs(G.main_fs);
  rmc_switch(&dummy, &G.sched_ctx);
  __builtin_trap();
}

void describe(std::string* out);

[[noreturn]] void vfail_now(const char* fmt, va_list ap) {
  G.in_model = false;
  if (!G.failed) {
    G.failed = true;
    vsnprintf(G.msg, sizeof(G.msg), fmt, ap);
  }
  to_sched();
}
[[noreturn]] void fail_now(const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vfail_now(fmt, ap);
}

void switch_to(int tid) {
  if (tid == G.cur) return;
  Thread& a = me();
  G.cur = tid;
  Thread& b = G.t[tid];
  set_fs(b.fs);
  rmc_switch(&a.ctx, &b.ctx);
}

// ---- Objects ---------------------------------------------------------------
int find_obj(uintptr_t addr, OType type) {
  uint32_t i = static_cast<uint32_t>(mix(addr, 7)) & ((1 << 15) - 1);
  while (G.otab_gen[i] == G.gen) {
    Obj& o = G.obj[G.otab[i]];
    if (o.addr == addr) {
      if (o.type != type) {
        // The memory was reused for another kind of object.
        uint64_t h = o.h;
        memset(&o, 0, sizeof(o));
        o.addr = addr; o.gen = G.gen; o.type = type; o.owner = -1; o.h = mix(h, type);
      }
      return G.otab[i];
    }
    i = (i + 1) & ((1 << 15) - 1);
  }
  if (G.nobj >= kMaxObj) fail_now("rmc: too many objects");
  int id = G.nobj++;
  G.otab_gen[i] = G.gen;
  G.otab[i] = id;
  Obj& o = G.obj[id];
  memset(&o, 0, sizeof(o));
  o.addr = addr;
  o.gen = G.gen;
  o.type = type;
  o.owner = -1;
  // The identity of the object must not depend on the order of creation.
  o.h = mix(addr, type);
  return id;
}

void join_vc(VC& a, const VC& b) {
  for (int i = 0; i < kMaxT; i++)
    if (b[i] > a[i]) a[i] = b[i];
}
void acquire(Obj& o) { join_vc(me().vc, o.vc); }
void release(Obj& o) {
  join_vc(o.vc, me().vc);
  me().vc[G.cur]++;
}
// Orders the calling thread's operation |op| with all others on |o|.
void order(Obj& o, uint64_t op) {
  Thread& t = me();
  t.h = mix(mix(t.h, op), o.h);
  o.h = t.h;
}
void order_read(Obj& o, uint64_t op) {
  Thread& t = me();
  t.h = mix(mix(t.h, op), o.h);
}

// ---- Memory ----------------------------------------------------------------
inline Cell* shadow(uintptr_t a) {
  if (a - kArenaAt < kArena) return reinterpret_cast<Cell*>(kShadowArena) + ((a - kArenaAt) >> 3);
  if (a - kStackAt < kStack * kMaxT) return reinterpret_cast<Cell*>(kShadowStack) + ((a - kStackAt) >> 3);
  uintptr_t d = reinterpret_cast<uintptr_t>(&__data_start) & ~uintptr_t{7};
  if (a - d < G.data_len + 8) return reinterpret_cast<Cell*>(kShadowData) + ((a - d) >> 3);
  return nullptr;
}
enum : uint8_t { aUnused = 0, aLive = 1, aFreed = 2, aRed = 3 };
inline uint8_t* astate(uintptr_t a) {
  return reinterpret_cast<uint8_t*>(kArenaState) + ((a - kArenaAt) >> 3);
}

std::string where() {
  std::string s;
  Thread& t = me();
  char b[64];
  for (int i = t.depth - 1, n = 0; i >= 0 && n < 8; i--, n++) {
    if (i >= 64) continue;
    snprintf(b, sizeof(b), " %lx", static_cast<unsigned long>(t.pcs[i] - 1));
    s += b;
  }
  return s;
}

void check_alive(const void* p, const char* what) {
  uintptr_t a = reinterpret_cast<uintptr_t>(p);
  if (a - kArenaAt < kArena && *astate(a) != aLive) {
    Out out;
    uint8_t st = *astate(a);
    fail_now("%s: use of %s memory by thread %d (pcs:%s)", what,
             st == aFreed ? "freed" : st == aRed ? "out-of-bounds" : "unallocated",
             G.cur, where().c_str());
  }
}

void mem_access_raw(uintptr_t a, size_t n, bool wr, bool at) {
  G.n_accesses++;
  Thread& t = me();
  while (n > 0) {
    size_t off = a & 7;
    size_t k = std::min<size_t>(8 - off, n);
    uint8_t mask = static_cast<uint8_t>(((1u << k) - 1) << off);
    if (a - kArenaAt < kArena) {
      uint8_t st = *astate(a);
      if (st != aLive) {
        Out out;
        fail_now("%s of %s memory by thread %d (pcs:%s)", wr ? "write" : "read",
                 st == aFreed ? "freed" : st == aRed ? "out-of-bounds" : "unallocated",
                 G.cur, where().c_str());
      }
    }
    Cell* c = shadow(a);
    if (c) {
      if (c->gen != G.gen) {
        c->gen = G.gen;
        c->n = 0;
      }
      int keep = -1;
      for (int i = 0; i < c->n; i++) {
        Slot& s = c->s[i];
        if (!(s.mask & mask)) continue;
        bool before = s.tid == G.cur || s.clk <= t.vc[s.tid];
        if (!before && (s.wr || wr) && !(s.at && at) && G.races) {
          Out out;
          fail_now("data race: %s by thread %d (pcs:%s) conflicts with an unordered %s by thread %d at %lx",
                   wr ? "write" : "read", G.cur, where().c_str(),
                   s.wr ? "write" : "read", s.tid, static_cast<unsigned long>(a));
        }
        if (before && (s.mask & ~mask) == 0 && (wr || !s.wr) && (s.at || !at)) {
          if (keep < 0) {
            keep = i;
          } else {
            c->s[i] = c->s[--c->n];
            i--;
          }
        }
      }
      if (keep < 0) {
        if (c->n == 7) {
          keep = static_cast<int>(G.n_accesses % 7);
        } else {
          keep = c->n++;
        }
      }
      c->s[keep] = Slot{t.vc[G.cur], static_cast<uint8_t>(G.cur), mask, wr, at};
    }
    a += k;
    n -= k;
  }
}

inline void mem_access(uintptr_t a, size_t n, bool wr, bool at) {
  if (M()) mem_access_raw(a, n, wr, at);
}

void* arena_alloc(size_t n, size_t align = 16) {
  if (align < 16) align = 16;
  const size_t base = kArenaT * static_cast<size_t>(G.cur);
  size_t at = (base + G.arena_used[G.cur] + 16 + align - 1) & ~(align - 1);
  size_t len = (n + 7) & ~size_t{7};
  if (len == 0) len = 8;
  if (at + len + 16 > base + kArenaT) fail_now("rmc: arena exhausted");
  uintptr_t p = kArenaAt + at;
  G.arena_used[G.cur] = at + len - base;
  *reinterpret_cast<size_t*>(p - 16) = len;
  memset(astate(p - 16), aRed, 2);
  memset(astate(p), aLive, len / 8);
  memset(astate(p + len), aRed, 2);
  memset(reinterpret_cast<void*>(p), 0xA5, len);
  return reinterpret_cast<void*>(p);
}

void arena_free(void* v) {
  uintptr_t p = reinterpret_cast<uintptr_t>(v);
  if (*astate(p) != aLive) {
    G.in_model = false;
    fail_now("double free or free of bad pointer by thread %d (pcs:%s)", G.cur, where().c_str());
  }
  size_t len = *reinterpret_cast<size_t*>(p - 16);
  // Freeing conflicts with every unordered access.
  mem_access_raw(p, len, true, false);
  memset(astate(p), aFreed, len / 8);
}

// ---- Scheduler -------------------------------------------------------------
bool enabled(int i) {
  Thread& t = G.t[i];
  if (t.st != kReady) return false;
  switch (t.pend) {
    case pNone:
    case pStep:
      return true;
    case pLock:
    case pTimedLock: {
      Obj& o = G.obj[t.obj];
      return o.owner < 0 || (o.recursive && o.owner == i);
    }
    case pRd:
      return G.obj[t.obj].owner < 0;
    case pWr:
      return G.obj[t.obj].owner < 0 && G.obj[t.obj].count == 0;
    case pCv:
    case pSleep:
      return false;
    case pJoin:
      return G.t[t.obj].st == kDone;
    case pSem:
      return G.obj[t.obj].count >= t.arg;
    case pGuard:
      return G.obj[t.obj].count != 1;
  }
  return false;
}

struct Option {
  int tid;
  int var;  // 0 run, 1 time out, 2 spurious wake-up, 3 late wake-up.
  int cost;
};

// A wait on a condition variable goes on to retake its mutex, one on a futex
// returns.
void wake(Thread& t) {
  t.pend = t.obj2 >= 0 ? pLock : pStep;
  t.obj = t.obj2;
}

void take(const Option& o) {
  Thread& t = G.t[o.tid];
  G.cost += o.cost;
  if (o.var == 3 || (o.var == 1 && o.cost)) G.jumps++;
  if (o.var == 1) {
    if (t.deadline > G.now) G.now = t.deadline;
    Obj& c = G.obj[G.clock_obj];
    t.h = mix(mix(t.h, 1001), c.h);
    c.h = t.h;
    if (t.pend == pCv) {
      t.result = ETIMEDOUT;
      wake(t);
    } else if (t.pend == pTimedLock) {
      t.result = ETIMEDOUT;
      t.pend = pStep;
    } else {
      t.pend = pStep;
    }
  } else if (o.var == 2) {
    G.spurious_used++;
    t.h = mix(t.h, 1002);
    t.result = 0;
    wake(t);
  } else if (o.var == 3) {
    if (t.deadline > G.now) G.now = t.deadline;
    t.signalled = false;
    Obj& c = G.obj[G.clock_obj];
    t.h = mix(mix(t.h, 1003), c.h);
    c.h = t.h;
  }
}

// Returns the index of the chosen option of a choice with |n| options; the
// path records it.
int next_choice(int n) {
  if (G.plen >= kMaxPath) fail_now("rmc: path too long");
  int i = G.plen++;
  int c = 0;
  if (i < G.prefix) {
    c = G.path[i];
    if (G.nopt[i] == 0) G.nopt[i] = n;
    if (c >= n || G.nopt[i] != n) {
      G.diverged = true;
      fail_now("rmc: replay diverged at choice %d (%d of %d, expected %d)", i, c, n, G.nopt[i]);
    }
  } else {
    G.path[i] = 0;
    G.nopt[i] = n;
    G.lim[i] = n;
  }
  return c;
}

bool prune_here(bool cur_enabled) {
  if (!G.caching) return false;
  uint64_t k = mix(0x1234 + G.jumps, G.spurious_used);
  for (int i = 0; i < G.nthreads; i++) k = mix(k, mix(G.t[i].h, (uint64_t{G.t[i].st} << 8 | G.t[i].pend) * 4 + G.t[i].signalled * 2 + G.t[i].yielded));
  k = mix(k, G.obj[G.clock_obj].h);
  k = mix(k, static_cast<uint64_t>(G.now));
  k = mix(k, cur_enabled ? G.cur : 99);
  if (k == 0) k = 1;
  uint64_t idx = k & (kTable - 1);
  const uint64_t gen = S.table_gen;
  for (int probe = 0; probe < 64; probe++) {
    auto& e = S.table[(idx + probe) & (kTable - 1)];
    uint64_t key = e.key.load(std::memory_order_relaxed);
    if (key == 0) {
      uint64_t z = 0;
      if (e.key.compare_exchange_strong(z, k, std::memory_order_acq_rel)) {
        e.val.store(gen << 8 | static_cast<uint64_t>(G.cost), std::memory_order_release);
        S.states.fetch_add(1, std::memory_order_relaxed);
        return false;
      }
      key = z;
    }
    if (key == k) {
      uint64_t v = e.val.load(std::memory_order_acquire);
      if ((v >> 8) == gen && (v & 255) <= static_cast<uint64_t>(G.cost)) return true;
      if ((v >> 8) != gen) S.states.fetch_add(1, std::memory_order_relaxed);
      e.val.store(gen << 8 | static_cast<uint64_t>(G.cost), std::memory_order_release);
      return false;
    }
  }
  S.dropped.fetch_add(1, std::memory_order_relaxed);
  return false;
}

const char* pend_name(Pend p) {
  static const char* const n[] = {"start", "step", "lock", "rdlock", "wrlock", "cond_wait", "join", "sleep", "sem", "guard", "timedlock"};
  return n[p];
}

// Picks the thread that takes the next step and switches to it.  Returns when
// the calling thread has been picked again (or never, if it is done).
void schedule() {
  G.points++;
  G.n_points++;
  if (G.points > G.max_points) {
    std::string d;
    describe(&d);
    fail_now("livelock: more than %d steps (%s)", G.max_points, d.c_str());
  }
  Thread& c = me();
  bool cur_en = c.st == kReady && enabled(G.cur);
  bool force = c.yielded || G.streak > 150;

  Option opt[64];
  int n = 0;
  int left = G.bound - G.cost;
  bool others = false;
  for (int k = 1; k < G.nthreads; k++) others |= enabled((G.cur + k) % G.nthreads);
  bool stay_first = cur_en && !(force && others);
  if (stay_first) opt[n++] = {G.cur, 0, 0};
  int switch_cost = stay_first ? 1 : 0;
  if (switch_cost <= left) {
    for (int k = 1; k < G.nthreads; k++) {
      int i = (G.cur + k) % G.nthreads;
      if (!enabled(i)) continue;
      const int cost = G.round_robin && n > 0 ? 1 : switch_cost;
      if (cost <= left) opt[n++] = {i, 0, cost};
    }
  }
  if (cur_en && !stay_first && left >= 1 && !c.yielded) opt[n++] = {G.cur, 0, 1};
  bool any = cur_en || others;
  if (!any) {
    // Everybody is blocked: time passes.
    int64_t best = INT64_MAX;
    for (int i = 0; i < G.nthreads; i++) {
      Thread& t = G.t[i];
      if (t.st == kReady && t.timed && (t.pend == pCv || t.pend == pSleep || t.pend == pTimedLock))
        best = std::min(best, t.deadline);
    }
    if (best == INT64_MAX) {
      bool all_done = true;
      for (int i = 0; i < G.nthreads; i++) all_done &= G.t[i].st == kDone;
      if (all_done || G.may_block) to_sched();
      std::string d;
      describe(&d);
      fail_now("deadlock: %s", d.c_str());
    }
    for (int i = 0; i < G.nthreads; i++) {
      Thread& t = G.t[i];
      if (t.st == kReady && t.timed && (t.pend == pCv || t.pend == pSleep || t.pend == pTimedLock) && t.deadline == best) {
        const int cost = G.round_robin && n > 0 ? 1 : 0;
        if (cost <= left) opt[n++] = {i, 1, cost};
      }
    }
    for (int i = 0; i < G.nthreads; i++) {
      Thread& t = G.t[i];
      if (t.st == kReady && t.timed && (t.pend == pCv || t.pend == pSleep || t.pend == pTimedLock) && t.deadline != best && left >= 1)
        opt[n++] = {i, 1, 1};
    }
  } else if (left >= 1) {
    for (int i = 0; i < G.nthreads; i++) {
      Thread& t = G.t[i];
      if (t.st == kReady && t.timed && (t.pend == pCv || t.pend == pSleep || t.pend == pTimedLock))
        opt[n++] = {i, 1, 1};
    }
  }
  if (left >= 1) {
    for (int i = 0; i < G.nthreads; i++) {
      Thread& t = G.t[i];
      if (t.st == kReady && t.pend == pCv && G.spurious_used < G.spurious_max)
        opt[n++] = {i, 2, 1};
      if (t.st == kReady && t.pend == pLock && t.signalled && t.timed && t.deadline > G.now)
        opt[n++] = {i, 3, 1};
    }
  }
  int pick = 0;
  if (G.plen >= G.prefix && n > 1 && prune_here(cur_en)) {
    G.pruned = true;
    to_sched();
  }
  if (n > 1) pick = next_choice(n);
  Option o = opt[pick];
  if (G.trace && (o.tid != G.cur || o.var))
    fprintf(stderr, "  [%d/%d t=%lld] -> thread %d %s%s\n", G.plen - 1, G.points,
            static_cast<long long>(G.now - kStartTime), o.tid,
            o.var == 1 ? "TIMEOUT " : o.var == 2 ? "SPURIOUS " : o.var == 3 ? "LATE " : "",
            pend_name(G.t[o.tid].pend));
  take(o);
  c.yielded = false;
  if (o.tid == G.cur) G.streak++; else G.streak = 0;
  if (o.var != 0 && !enabled(o.tid)) {
    // It timed out or woke up but must wait for its mutex: schedule on.
    schedule();
    return;
  }
  switch_to(o.tid);
}

void describe(std::string* out) {
  char b[128];
  for (int i = 0; i < G.nthreads; i++) {
    Thread& t = G.t[i];
    if (t.st == kDone) continue;
    snprintf(b, sizeof(b), "%sthread %d in %s", out->empty() ? "" : ", ", i, pend_name(t.pend));
    *out += b;
  }
}

// A scheduling point before an operation of the calling thread.
void point(Pend p = pStep, int obj = -1, int arg = 0) {
  Thread& t = me();
  t.pend = p;
  t.obj = obj;
  t.arg = arg;
  schedule();
  t.pend = pStep;
  // Every step changes the state, or the cache would cut off its own path.
  t.h = mix(t.h, 0x77);
}

// ---- Thread life -----------------------------------------------------------
void run_dtors() {
  Thread& t = me();
  while (t.ndtors > 0) {
    auto d = t.dtors[--t.ndtors];
    G.in_model = true;
    d.f(d.o);
    G.in_model = false;
  }
}

extern "C" void rmc_thread_main() {
  Thread& t = me();
  G.in_model = true;
  void* r;
  if (G.cur == 0) {
    (*G.body)();
    r = nullptr;
  } else {
    r = t.fn(t.fnarg);
  }
  G.in_model = false;
  Thread& u = me();
  u.ret = r;
  run_dtors();
  point();
  Obj& o = G.obj[find_obj(reinterpret_cast<uintptr_t>(&me()), oThread)];
  order(o, 30);
  release(o);
  me().st = kDone;
  schedule();
  __builtin_trap();
}

int new_thread(void* (*fn)(void*), void* arg) {
  if (G.nthreads >= kMaxT) fail_now("rmc: too many threads");
  int i = G.nthreads++;
  Thread& t = G.t[i];
  uint64_t fs = t.fs;
  memset(&t, 0, sizeof(t));
  t.fs = fs;
  t.st = kReady;
  t.pend = pStep;
  t.fn = fn;
  t.fnarg = arg;
  t.vc[i] = 1;
  t.h = mix(77, i);
  uintptr_t top = kStackAt + kStack * (i + 1) - 64;
  top &= ~uintptr_t{15};
  void** sp = reinterpret_cast<void**>(top);
  *--sp = nullptr;  // Alignment: entry as after a call.
  *--sp = reinterpret_cast<void*>(&rmc_thread_main);
  for (int k = 0; k < 6; k++) *--sp = nullptr;
  t.ctx.sp = sp;
  return i;
}

constexpr pthread_t kTid = 0x7000;
int tid_of(pthread_t p) {
  if (p < kTid || p >= kTid + kMaxT) fail_now("rmc: unknown pthread_t");
  return static_cast<int>(p - kTid);
}

// ---- Operations ------------------------------------------------------------
void do_lock(pthread_mutex_t* m) {
  check_alive(m, "mutex lock");
  int id = find_obj(reinterpret_cast<uintptr_t>(m), oMutex);
  G.obj[id].recursive = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE;
  point(pLock, id);
  check_alive(m, "mutex lock");
  Obj& o = G.obj[id];
  o.owner = G.cur;
  o.count++;
  order(o, 1);
  acquire(o);
}

void do_unlock(pthread_mutex_t* m, bool all = false) {
  check_alive(m, "mutex unlock");
  Obj& o = G.obj[find_obj(reinterpret_cast<uintptr_t>(m), oMutex)];
  if (o.owner != G.cur) fail_now("unlock of a mutex not owned by thread %d", G.cur);
  if (all) o.count = 0; else o.count--;
  if (o.count == 0) o.owner = -1;
  order(o, 2);
  release(o);
}

int64_t to_ns(const timespec* ts) { return ts->tv_sec * 1000000000LL + ts->tv_nsec; }

int do_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed, int64_t deadline) {
  check_alive(c, "condition wait");
  point();
  check_alive(c, "condition wait");
  int cid = find_obj(reinterpret_cast<uintptr_t>(c), oCond);
  int mid = find_obj(reinterpret_cast<uintptr_t>(m), oMutex);
  if (G.obj[mid].owner != G.cur) fail_now("condition wait without the mutex");
  do_unlock(m, true);
  Thread& t = me();
  Obj& co = G.obj[cid];
  order(co, 3);
  t.obj2 = mid;
  t.timed = timed;
  t.deadline = deadline;
  t.result = 0;
  t.signalled = false;
  t.pend = pCv;
  t.obj = cid;
  schedule();
  t.timed = false;
  t.signalled = false;
  t.pend = pStep;
  check_alive(m, "mutex relock");
  Obj& o = G.obj[mid];
  o.owner = G.cur;
  o.count = 1;
  order(o, 4);
  acquire(o);
  return t.result;
}

int choose_impl(int n, int cost) {
  if (n <= 1) return 0;
  if (cost > G.bound - G.cost) return 0;
  int c = next_choice(n);
  if (c) G.cost += cost;
  me().h = mix(me().h, 5000 + c);
  return c;
}

void do_signal(pthread_cond_t* c, bool all) {
  check_alive(c, "condition signal");
  point();
  check_alive(c, "condition signal");
  int cid = find_obj(reinterpret_cast<uintptr_t>(c), oCond);
  Obj& o = G.obj[cid];
  order(o, all ? 6 : 5);
  // Signalling reads the condition variable; destroying it writes it.
  mem_access_raw(reinterpret_cast<uintptr_t>(c), 8, false, true);
  int w[kMaxT], n = 0;
  for (int i = 0; i < G.nthreads; i++)
    if (G.t[i].st == kReady && G.t[i].pend == pCv && G.t[i].obj == cid) w[n++] = i;
  if (n == 0) return;
  if (all) {
    for (int i = 0; i < n; i++) {
      Thread& t = G.t[w[i]];
      t.pend = pLock;
      t.obj = t.obj2;
      t.signalled = true;
      t.h = mix(t.h, me().h);
    }
  } else {
    int k = choose_impl(n, G.round_robin ? 1 : 0);
    Thread& t = G.t[w[k]];
    t.pend = pLock;
    t.obj = t.obj2;
    t.signalled = true;
    t.h = mix(t.h, me().h);
  }
}

}  // namespace

// ---- Public API ------------------------------------------------------------
void fail(const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vfail_now(fmt, ap);
}

void event(int obj) {
  if (!M()) return;
  Out out;
  point();
  order(G.obj[find_obj(0x100 + obj, oEvent)], 20);
}

int64_t now() {
  if (!M()) return g_mapped ? G.now : 0;
  Out out;
  order_read(G.obj[G.clock_obj], 21);
  return G.now;
}

int live_threads() {
  int n = 0;
  for (int i = 0; i < G.nthreads; i++) n += G.t[i].st == kReady;
  return n;
}
void may_block() { G.may_block = true; }
int time_jumps() { return G.jumps; }

void advance(int64_t ns) {
  Out out;
  point();
  G.now += ns;
  order(G.obj[G.clock_obj], 22);
}

void sleep_for(int64_t ns) {
  Out out;
  Thread& t = me();
  t.timed = true;
  t.deadline = G.now + ns;
  order_read(G.obj[G.clock_obj], 23);
  t.pend = pSleep;
  schedule();
  t.timed = false;
  t.pend = pStep;
}

int choose(int n, int cost) {
  Out out;
  return choose_impl(n, cost);
}

void yield() {
  if (!M()) return;
  Out out;
  me().yielded = true;
  point();
}

void outcome(uint64_t v) { G.outcome = mix(G.outcome, v); }

void access(const void* p, size_t n, bool write) {
  mem_access(reinterpret_cast<uintptr_t>(p), n, write, false);
}

Sem::Sem(int n, bool hb) : n_(n), hb_(hb) {
  Out out;
  id_ = G.next_sem++;
  Obj& o = G.obj[find_obj(0x10000 + id_, oSem)];
  o.count = n;
}
void Sem::post(int n) {
  Out out;
  point();
  Obj& o = G.obj[find_obj(0x10000 + id_, oSem)];
  o.count += n;
  n_ = o.count;
  order(o, 25);
  if (hb_) release(o);
}
void Sem::wait(int n) {
  Out out;
  int id = find_obj(0x10000 + id_, oSem);
  point(pSem, id, n);
  Obj& o = G.obj[id];
  o.count -= n;
  n_ = o.count;
  order(o, 26);
  if (hb_) acquire(o);
}

}  // namespace rmc

using namespace rmc;

// ---- Interposed functions ----------------------------------------------------
extern "C" {

int pthread_create(pthread_t* out_id, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) {
  if (!M()) return get_pthread_create()(out_id, attr, fn, arg);
  Out out;
  point();
  int i = new_thread(fn, arg);
  Thread& t = G.t[i];
  if (attr) {
    int ds = 0;
    pthread_attr_getdetachstate(attr, &ds);
    t.detached = ds == PTHREAD_CREATE_DETACHED;
  }
  join_vc(t.vc, me().vc);
  me().vc[G.cur]++;
  me().h = mix(me().h, 31 + i);
  t.h = mix(t.h, me().h);
  *out_id = kTid + i;
  return 0;
}
int pthread_join(pthread_t id, void** ret) {
  if (!M()) return get_pthread_join()(id, ret);
  Out out;
  int i = tid_of(id);
  if (G.t[i].detached || G.t[i].joined) fail_now("join of a detached or joined thread");
  if (i == G.cur) fail_now("thread joins itself");
  point(pJoin, i);
  G.t[i].joined = true;
  Obj& o = G.obj[find_obj(reinterpret_cast<uintptr_t>(&G.t[i]), oThread)];
  order(o, 33);
  acquire(o);
  if (ret) *ret = G.t[i].ret;
  return 0;
}
int pthread_detach(pthread_t id) {
  if (!M()) return get_pthread_detach()(id);
  Out out;
  int i = tid_of(id);
  if (G.t[i].detached || G.t[i].joined) fail_now("detach of a detached or joined thread");
  G.t[i].detached = true;
  return 0;
}
pthread_t pthread_self() {
  if (!M()) return get_pthread_self()();
  return kTid + static_cast<pthread_t>(G.cur);
}
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) { return get_pthread_mutex_init()(m, a); }
int pthread_mutex_destroy(pthread_mutex_t* m) {
  if (!M()) return get_pthread_mutex_destroy()(m);
  mem_access(reinterpret_cast<uintptr_t>(m), sizeof(*m), true, false);
  Out out;
  Obj& o = G.obj[find_obj(reinterpret_cast<uintptr_t>(m), oMutex)];
  if (o.owner >= 0) fail_now("mutex destroyed while locked");
  return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!M()) return get_pthread_mutex_lock()(m);
  Out out;
  do_lock(m);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!M()) return get_pthread_mutex_trylock()(m);
  Out out;
  check_alive(m, "mutex trylock");
  point();
  Obj& o = G.obj[find_obj(reinterpret_cast<uintptr_t>(m), oMutex)];
  o.recursive = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE;
  order(o, 7);
  if (o.owner >= 0 && !(o.recursive && o.owner == G.cur)) return EBUSY;
  o.owner = G.cur;
  o.count++;
  acquire(o);
  return 0;
}
static int timed_lock(pthread_mutex_t* m, const timespec* ts) {
  check_alive(m, "mutex timedlock");
  int id = find_obj(reinterpret_cast<uintptr_t>(m), oMutex);
  Thread& t = me();
  t.timed = true;
  t.deadline = to_ns(ts);
  t.result = 0;
  point(pTimedLock, id);
  t.timed = false;
  Obj& o = G.obj[id];
  order(o, 8);
  if (t.result == ETIMEDOUT) return ETIMEDOUT;
  o.owner = G.cur;
  o.count++;
  acquire(o);
  return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* ts) {
  if (!M()) return get_pthread_mutex_timedlock()(m, ts);
  Out out;
  return timed_lock(m, ts);
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const timespec* ts) {
  if (!M()) return get_pthread_mutex_clocklock()(m, c, ts);
  Out out;
  return timed_lock(m, ts);
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!M()) return get_pthread_mutex_unlock()(m);
  Out out;
  do_unlock(m);
  return 0;
}
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) { return get_pthread_cond_init()(c, a); }
int pthread_cond_destroy(pthread_cond_t* c) {
  if (!M()) return get_pthread_cond_destroy()(c);
  mem_access(reinterpret_cast<uintptr_t>(c), 8, true, false);
  Out out;
  int cid = find_obj(reinterpret_cast<uintptr_t>(c), oCond);
  for (int i = 0; i < G.nthreads; i++)
    if (G.t[i].st == kReady && G.t[i].pend == pCv && G.t[i].obj == cid)
      fail_now("condition variable destroyed while thread %d waits on it", i);
  return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!M()) return get_pthread_cond_wait()(c, m);
  Out out;
  return do_wait(c, m, false, 0);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts) {
  if (!M()) return get_pthread_cond_timedwait()(c, m, ts);
  Out out;
  return do_wait(c, m, true, to_ns(ts));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* ts) {
  if (!M()) return get_pthread_cond_clockwait()(c, m, k, ts);
  Out out;
  return do_wait(c, m, true, to_ns(ts));
}
int pthread_cond_signal(pthread_cond_t* c) {
  if (!M()) return get_pthread_cond_signal()(c);
  Out out;
  do_signal(c, false);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  if (!M()) return get_pthread_cond_broadcast()(c);
  Out out;
  do_signal(c, true);
  return 0;
}

static int rw_lock(pthread_rwlock_t* l, bool wr, bool tr) {
  check_alive(l, "rwlock");
  int id = find_obj(reinterpret_cast<uintptr_t>(l), oRw);
  if (tr) point(); else point(wr ? pWr : pRd, id);
  Obj& o = G.obj[id];
  order(o, wr ? 9 : 10);
  if (tr && (o.owner >= 0 || (wr && o.count > 0))) return EBUSY;
  if (wr) o.owner = G.cur; else o.count++;
  acquire(o);
  return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) { if (!M()) return get_pthread_rwlock_rdlock()(l); Out out; return rw_lock(l, false, false); }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) { if (!M()) return get_pthread_rwlock_wrlock()(l); Out out; return rw_lock(l, true, false); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { if (!M()) return get_pthread_rwlock_tryrdlock()(l); Out out; return rw_lock(l, false, true); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { if (!M()) return get_pthread_rwlock_trywrlock()(l); Out out; return rw_lock(l, true, true); }
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
  if (!M()) return get_pthread_rwlock_unlock()(l);
  Out out;
  Obj& o = G.obj[find_obj(reinterpret_cast<uintptr_t>(l), oRw)];
  if (o.owner == G.cur) o.owner = -1; else o.count--;
  order(o, 11);
  release(o);
  return 0;
}

int sem_init(sem_t* s, int sh, unsigned v) {
  if (!M()) return get_sem_init()(s, sh, v);
  Out out;
  Obj& o = G.obj[find_obj(reinterpret_cast<uintptr_t>(s), oSem)];
  o.count = static_cast<int>(v);
  return 0;
}
int sem_destroy(sem_t* s) { if (!M()) return get_sem_destroy()(s); return 0; }
int sem_wait(sem_t* s) {
  if (!M()) return get_sem_wait()(s);
  Out out;
  check_alive(s, "semaphore wait");
  int id = find_obj(reinterpret_cast<uintptr_t>(s), oSem);
  point(pSem, id, 1);
  Obj& o = G.obj[id];
  o.count--;
  order(o, 27);
  acquire(o);
  return 0;
}
int sem_trywait(sem_t* s) {
  if (!M()) return get_sem_trywait()(s);
  Out out;
  point();
  Obj& o = G.obj[find_obj(reinterpret_cast<uintptr_t>(s), oSem)];
  order(o, 28);
  if (o.count <= 0) { errno = EAGAIN; return -1; }
  o.count--;
  acquire(o);
  return 0;
}
int sem_post(sem_t* s) {
  if (!M()) return get_sem_post()(s);
  Out out;
  check_alive(s, "semaphore post");
  point();
  Obj& o = G.obj[find_obj(reinterpret_cast<uintptr_t>(s), oSem)];
  o.count++;
  order(o, 29);
  release(o);
  return 0;
}

int pthread_once(pthread_once_t* o, void (*f)()) {
  if (!M()) return get_pthread_once()(o, f);
  int id;
  {
    Out out;
    id = find_obj(reinterpret_cast<uintptr_t>(o), oGuard);
    point(pGuard, id);
    Obj& ob = G.obj[id];
    order(ob, 40);
    acquire(ob);
    if (ob.count == 2) return 0;
    ob.count = 1;
  }
  f();
  Out out;
  Obj& ob = G.obj[id];
  ob.count = 2;
  order(ob, 41);
  release(ob);
  return 0;
}

int __cxa_guard_acquire(int64_t* g) {
  if (!M()) {
    if (*reinterpret_cast<char*>(g)) return 0;
    return 1;
  }
  Out out;
  int id = find_obj(reinterpret_cast<uintptr_t>(g), oGuard);
  point(pGuard, id);
  Obj& o = G.obj[id];
  order(o, 42);
  acquire(o);
  if (*reinterpret_cast<char*>(g)) return 0;
  o.count = 1;
  return 1;
}
void __cxa_guard_release(int64_t* g) {
  *reinterpret_cast<char*>(g) = 1;
  if (!M()) return;
  Out out;
  Obj& o = G.obj[find_obj(reinterpret_cast<uintptr_t>(g), oGuard)];
  o.count = 2;
  order(o, 43);
  release(o);
}
void __cxa_guard_abort(int64_t* g) {
  if (!M()) return;
  Out out;
  Obj& o = G.obj[find_obj(reinterpret_cast<uintptr_t>(g), oGuard)];
  o.count = 0;
}

int __cxa_thread_atexit(void (*f)(void*), void* o, void* dso) {
  if (!M()) {
    static auto r = real<int (*)(void (*)(void*), void*, void*)>("__cxa_thread_atexit");
    return r(f, o, dso);
  }
  Thread& t = me();
  if (t.ndtors >= 32) fail_now("rmc: too many thread_local destructors");
  t.dtors[t.ndtors++] = {f, o};
  return 0;
}

int sched_yield() {
  if (!M()) return get_sched_yield()();
  rmc::yield();
  return 0;
}
int nanosleep(const timespec* ts, timespec* rem) {
  if (!M()) return get_nanosleep()(ts, rem);
  rmc::sleep_for(to_ns(ts));
  return 0;
}
int clock_nanosleep(clockid_t c, int flags, const timespec* ts, timespec* rem) {
  if (!M()) return get_clock_nanosleep()(c, flags, ts, rem);
  int64_t d = to_ns(ts);
  if (flags & TIMER_ABSTIME) d -= G.now;
  rmc::sleep_for(d > 0 ? d : 0);
  return 0;
}
int usleep(useconds_t us) {
  if (!M()) return get_usleep()(us);
  rmc::sleep_for(us * 1000LL);
  return 0;
}
int clock_gettime(clockid_t c, timespec* ts) {
  if (!M()) return get_clock_gettime()(c, ts);
  int64_t n = rmc::now();
  ts->tv_sec = n / 1000000000LL;
  ts->tv_nsec = n % 1000000000LL;
  return 0;
}

// Standard I/O: every call is one atomic step, ordered per stream.
static void file_point(FILE* f) {
  int id = find_obj(reinterpret_cast<uintptr_t>(f), oFile);
  // A stream locked with flockfile() by another thread blocks.
  G.obj[id].recursive = true;
  point(pLock, id);
  order(G.obj[id], 50);
}
static void track(FILE* f) {
  if (f && G.nfiles < 64) G.files[G.nfiles++] = f;
}
FILE* fopen(const char* n, const char* m) {
  if (!M()) return get_fopen()(n, m);
  Out out;
  point();
  FILE* f = get_fopen()(n, m);
  track(f);
  return f;
}
FILE* fopen64(const char* n, const char* m) { return fopen(n, m); }
int fclose(FILE* f) {
  if (!M()) return get_fclose()(f);
  Out out;
  file_point(f);
  for (int i = 0; i < G.nfiles; i++)
    if (G.files[i] == f) {
      G.files[i] = G.files[--G.nfiles];
      break;
    }
  return get_fclose()(f);
}
int vfprintf(FILE* f, const char* fmt, va_list ap) {
  if (!M()) return get_vfprintf()(f, fmt, ap);
  Out out;
  file_point(f);
  return get_vfprintf()(f, fmt, ap);
}
int fprintf(FILE* f, const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  int r;
  if (!M()) {
    r = get_vfprintf()(f, fmt, ap);
  } else {
    Out out;
    file_point(f);
    r = get_vfprintf()(f, fmt, ap);
  }
  va_end(ap);
  return r;
}
#define STDIO(ret, name, decl, call, f) \
  ret name decl {                       \
    if (!M()) return get_##name() call; \
    Out out;                            \
    file_point(f);                      \
    return get_##name() call;           \
  }
STDIO(int, fputs, (const char* s, FILE* f), (s, f), f)
STDIO(int, fputc, (int c, FILE* f), (c, f), f)
#undef putc
STDIO(int, putc, (int c, FILE* f), (c, f), f)
STDIO(size_t, fwrite, (const void* p, size_t a, size_t b, FILE* f), (p, a, b, f), f)
STDIO(int, fputs_unlocked, (const char* s, FILE* f), (s, f), f)
STDIO(int, fputc_unlocked, (int c, FILE* f), (c, f), f)
#undef putc_unlocked
STDIO(int, putc_unlocked, (int c, FILE* f), (c, f), f)
#undef fwrite_unlocked
STDIO(size_t, fwrite_unlocked, (const void* p, size_t a, size_t b, FILE* f), (p, a, b, f), f)
int fflush(FILE* f) {
  if (!M()) return get_fflush()(f);
  Out out;
  if (f) file_point(f); else point();
  return get_fflush()(f);
}
int fflush_unlocked(FILE* f) {
  if (!M()) return get_fflush_unlocked()(f);
  Out out;
  if (f) file_point(f); else point();
  return get_fflush_unlocked()(f);
}
void flockfile(FILE* f) {
  if (!M()) return get_flockfile()(f);
  Out out;
  int id = find_obj(reinterpret_cast<uintptr_t>(f), oFile);
  G.obj[id].recursive = true;
  point(pLock, id);
  Obj& o = G.obj[id];
  o.owner = G.cur;
  o.count++;
  order(o, 51);
  acquire(o);
}
void funlockfile(FILE* f) {
  if (!M()) return get_funlockfile()(f);
  Out out;
  Obj& o = G.obj[find_obj(reinterpret_cast<uintptr_t>(f), oFile)];
  if (--o.count == 0) o.owner = -1;
  order(o, 52);
  release(o);
}
static void fd_point(int fd) {
  point();
  order(G.obj[find_obj(0x900000 + static_cast<uintptr_t>(fd), oFile)], 53);
}

// Futexes, as libstdc++ uses them (futures).  Other system calls pass.
static long real_syscall(long n, long a, long b, long c, long d, long e, long f) {
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  long r;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  if (r < 0 && r > -4096) {
    errno = static_cast<int>(-r);
    return -1;
  }
  return r;
}
long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long),
       f = va_arg(ap, long);
  va_end(ap);
  if (!M() || n != SYS_futex) return real_syscall(n, a, b, c, d, e, f);
  Out out;
  const int op = static_cast<int>(b) & 127;
  const int* addr = reinterpret_cast<const int*>(a);
  if (op == 0 || op == 9) {  // FUTEX_WAIT, FUTEX_WAIT_BITSET (absolute time).
    point();
    const int id = find_obj(static_cast<uintptr_t>(a), oAtomic);
    order(G.obj[id], 61);
    if (*addr != static_cast<int>(c)) {
      errno = EAGAIN;
      return -1;
    }
    Thread& t = me();
    const timespec* ts = reinterpret_cast<const timespec*>(d);
    t.obj2 = -1;
    t.timed = ts != nullptr;
    t.deadline = ts ? to_ns(ts) + (op == 0 ? G.now : 0) : 0;
    t.result = 0;
    t.signalled = false;
    t.pend = pCv;
    t.obj = id;
    schedule();
    t.timed = t.signalled = false;
    t.pend = pStep;
    t.h = mix(t.h, 0x78);
    if (t.result) {
      errno = t.result;
      return -1;
    }
    return 0;
  }
  if (op == 1 || op == 10) {  // FUTEX_WAKE
    point();
    const int id = find_obj(static_cast<uintptr_t>(a), oAtomic);
    order(G.obj[id], 62);
    long woken = 0;
    while (woken < c) {
      int w[kMaxT], k = 0;
      for (int i = 0; i < G.nthreads; i++)
        if (G.t[i].st == kReady && G.t[i].pend == pCv && G.t[i].obj == id) w[k++] = i;
      if (k == 0) break;
      Thread& t = G.t[w[c >= k ? 0 : choose_impl(k, G.round_robin ? 1 : 0)]];
      wake(t);
      t.signalled = true;
      t.h = mix(t.h, me().h);
      woken++;
    }
    return woken;
  }
  fail_now("rmc: futex operation %d is not modelled", op);
}

ssize_t write(int fd, const void* p, size_t n) {
  if (!M()) return get_write()(fd, p, n);
  Out out;
  fd_point(fd);
  return get_write()(fd, p, n);
}
ssize_t writev(int fd, const iovec* v, int n) {
  if (!M()) return get_writev()(fd, v, n);
  Out out;
  fd_point(fd);
  return get_writev()(fd, v, n);
}

void __assert_fail(const char* e, const char* file, unsigned line, const char* fn) {
  if (M()) fail_now("assertion failed: %s at %s:%u", e, file, line);
  fprintf(stderr, "assertion %s failed at %s:%u (outside the model)\n", e, file, line);
  _exit(70);
}
void abort() {
  if (M()) fail_now("abort() called");
  static const char m[] = "abort() outside the model\n";
  if (::write(2, m, sizeof(m) - 1)) {}
  _exit(70);
}

// ---- Instrumentation callbacks ---------------------------------------------
void __tsan_init() {}
void __tsan_func_entry(void* pc) {
  if (!M()) return;
  Thread& t = me();
  if (t.depth < 64) t.pcs[t.depth] = reinterpret_cast<uintptr_t>(pc);
  t.depth++;
}
void __tsan_func_exit() {
  if (!M()) return;
  Thread& t = me();
  if (t.depth > 0) t.depth--;
}
#define ACC(n)                                                                                           \
  void __tsan_read##n(void* p) { mem_access(reinterpret_cast<uintptr_t>(p), n, false, false); }          \
  void __tsan_write##n(void* p) { mem_access(reinterpret_cast<uintptr_t>(p), n, true, false); }          \
  void __tsan_unaligned_read##n(void* p) { mem_access(reinterpret_cast<uintptr_t>(p), n, false, false); } \
  void __tsan_unaligned_write##n(void* p) { mem_access(reinterpret_cast<uintptr_t>(p), n, true, false); } \
  void __tsan_volatile_read##n(void* p) { mem_access(reinterpret_cast<uintptr_t>(p), n, false, false); } \
  void __tsan_volatile_write##n(void* p) { mem_access(reinterpret_cast<uintptr_t>(p), n, true, false); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void* p, size_t n) { mem_access(reinterpret_cast<uintptr_t>(p), n, false, false); }
void __tsan_write_range(void* p, size_t n) { mem_access(reinterpret_cast<uintptr_t>(p), n, true, false); }
void __tsan_vptr_update(void** p, void* v) {
  // As in the real detector: storing the same pointer is no access.
  if (*p != v) mem_access(reinterpret_cast<uintptr_t>(p), 8, true, false);
}
void __tsan_vptr_read(void** p) { mem_access(reinterpret_cast<uintptr_t>(p), 8, false, false); }

void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) {
  if (M() && n) {
    mem_access(reinterpret_cast<uintptr_t>(s), n, false, false);
    mem_access(reinterpret_cast<uintptr_t>(d), n, true, false);
  }
  return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n) {
  if (M() && n) {
    mem_access(reinterpret_cast<uintptr_t>(s), n, false, false);
    mem_access(reinterpret_cast<uintptr_t>(d), n, true, false);
  }
  return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, size_t n) {
  if (M() && n) mem_access(reinterpret_cast<uintptr_t>(d), n, true, false);
  return __real_memset(d, c, n);
}

}  // extern "C"

namespace {

enum { RELAXED, CONSUME, ACQUIRE, RELEASE, ACQ_REL, SEQ_CST };

bool is_acq(int mo) { return mo == CONSUME || mo == ACQUIRE || mo == ACQ_REL || mo == SEQ_CST; }
bool is_rel(int mo) { return mo == RELEASE || mo == ACQ_REL || mo == SEQ_CST; }

Obj& atomic_point(const volatile void* p) {
  check_alive(const_cast<const void*>(p), "atomic");
  point();
  return G.obj[find_obj(reinterpret_cast<uintptr_t>(p), oAtomic)];
}
void after_load(Obj& o, int mo) {
  if (is_acq(mo)) acquire(o);
  else join_vc(me().acq_pending, o.vc);
}
void before_store(Obj& o, int mo, bool rmw) {
  Thread& t = me();
  if (is_rel(mo)) {
    if (!rmw) memset(o.vc, 0, sizeof(o.vc));
    release(o);
  } else {
    if (!rmw) memset(o.vc, 0, sizeof(o.vc));
    if (t.has_rel_fence) join_vc(o.vc, t.rel_fence);
  }
}
// Function-local statics: the guard byte is read with an atomic load.
void guard_acquire(const volatile void* p) {
  uint32_t i = static_cast<uint32_t>(mix(reinterpret_cast<uintptr_t>(p), 7)) & ((1 << 15) - 1);
  while (G.otab_gen[i] == G.gen) {
    Obj& o = G.obj[G.otab[i]];
    if (o.addr == reinterpret_cast<uintptr_t>(p)) {
      if (o.type == oGuard) {
        acquire(o);
        order_read(o, 44);
      }
      return;
    }
    i = (i + 1) & ((1 << 15) - 1);
  }
}
bool is_guard(const volatile void* p) {
  uint32_t i = static_cast<uint32_t>(mix(reinterpret_cast<uintptr_t>(p), 7)) & ((1 << 15) - 1);
  while (G.otab_gen[i] == G.gen) {
    Obj& o = G.obj[G.otab[i]];
    if (o.addr == reinterpret_cast<uintptr_t>(p)) return o.type == oGuard;
    i = (i + 1) & ((1 << 15) - 1);
  }
  return false;
}

template <class T>
T a_load(const volatile T* p, int mo) {
  if (!M()) return *p;
  {
    Out out;
    if (is_guard(p)) {
      point();
      guard_acquire(p);
      return *p;
    }
    Obj& o = atomic_point(p);
    order_read(o, 60);
    after_load(o, mo);
  }
  mem_access(reinterpret_cast<uintptr_t>(p), sizeof(T), false, true);
  return *p;
}
template <class T>
void a_store(volatile T* p, T v, int mo) {
  if (!M()) {
    *p = v;
    return;
  }
  {
    Out out;
    Obj& o = atomic_point(p);
    order(o, 61);
    mem_access_raw(reinterpret_cast<uintptr_t>(p), sizeof(T), true, true);
    before_store(o, mo, false);
  }
  *p = v;
}
template <class T, class F>
T a_rmw(volatile T* p, int mo, F f) {
  if (!M()) {
    T old = *p;
    *p = f(old);
    return old;
  }
  {
    Out out;
    Obj& o = atomic_point(p);
    order(o, 62);
    after_load(o, mo);
    mem_access_raw(reinterpret_cast<uintptr_t>(p), sizeof(T), true, true);
    before_store(o, mo, true);
  }
  T old = *p;
  *p = f(old);
  return old;
}
template <class T>
int a_cas(volatile T* p, T* exp, T v, int mo, int fmo) {
  if (!M()) {
    if (*p == *exp) {
      *p = v;
      return 1;
    }
    *exp = *p;
    return 0;
  }
  bool ok;
  {
    Out out;
    Obj& o = atomic_point(p);
    ok = *p == *exp;
    order(o, 63);
    after_load(o, ok ? mo : fmo);
    mem_access_raw(reinterpret_cast<uintptr_t>(p), sizeof(T), ok, true);
    if (ok) before_store(o, mo, true);
  }
  if (ok) *p = v;
  else *exp = *p;
  return ok;
}

}  // namespace

extern "C" {
#define ATOM(bits, T)                                                                                       \
  T __tsan_atomic##bits##_load(const volatile T* p, int mo) { return a_load<T>(p, mo); }                    \
  void __tsan_atomic##bits##_store(volatile T* p, T v, int mo) { a_store<T>(p, v, mo); }                    \
  T __tsan_atomic##bits##_exchange(volatile T* p, T v, int mo) { return a_rmw<T>(p, mo, [v](T) { return v; }); } \
  T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int mo) { return a_rmw<T>(p, mo, [v](T o) { return static_cast<T>(o + v); }); } \
  T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int mo) { return a_rmw<T>(p, mo, [v](T o) { return static_cast<T>(o - v); }); } \
  T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int mo) { return a_rmw<T>(p, mo, [v](T o) { return static_cast<T>(o & v); }); } \
  T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int mo) { return a_rmw<T>(p, mo, [v](T o) { return static_cast<T>(o | v); }); } \
  T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int mo) { return a_rmw<T>(p, mo, [v](T o) { return static_cast<T>(o ^ v); }); } \
  T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int mo) { return a_rmw<T>(p, mo, [v](T o) { return static_cast<T>(~(o & v)); }); } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int fmo) { return a_cas<T>(p, e, v, mo, fmo); } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int fmo) { return a_cas<T>(p, e, v, mo, fmo); } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T v, int mo, int fmo) { a_cas<T>(p, &e, v, mo, fmo); return e; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) {
  if (!M()) return;
  Thread& t = me();
  if (is_acq(mo)) join_vc(t.vc, t.acq_pending);
  if (is_rel(mo)) {
    memcpy(t.rel_fence, t.vc, sizeof(t.vc));
    t.has_rel_fence = true;
    t.vc[G.cur]++;
  }
}
void __tsan_atomic_signal_fence(int) {}
}  // extern "C"

// ---- Allocation ---------------------------------------------------------------
static void* model_new(size_t n, size_t al) {
  if (!M()) {
    void* p = al > 16 ? aligned_alloc(al, (n + al - 1) & ~(al - 1)) : malloc(n ? n : 1);
    if (!p) _exit(71);
    return p;
  }
  Out out;
  return arena_alloc(n, al);
}
static void model_delete(void* p) {
  if (!p) return;
  uintptr_t a = reinterpret_cast<uintptr_t>(p);
  if (a - kArenaAt < kArena) {
    if (!M()) return;
    Out out;
    arena_free(p);
    return;
  }
  free(p);
}
void* operator new(size_t n) { return model_new(n, 16); }
void* operator new[](size_t n) { return model_new(n, 16); }
void* operator new(size_t n, std::align_val_t a) { return model_new(n, static_cast<size_t>(a)); }
void* operator new[](size_t n, std::align_val_t a) { return model_new(n, static_cast<size_t>(a)); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return model_new(n, 16); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return model_new(n, 16); }
void operator delete(void* p) noexcept { model_delete(p); }
void operator delete[](void* p) noexcept { model_delete(p); }
void operator delete(void* p, size_t) noexcept { model_delete(p); }
void operator delete[](void* p, size_t) noexcept { model_delete(p); }
void operator delete(void* p, std::align_val_t) noexcept { model_delete(p); }
void operator delete[](void* p, std::align_val_t) noexcept { model_delete(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { model_delete(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { model_delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { model_delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { model_delete(p); }

// ---- Explorer -------------------------------------------------------------------
namespace rmc {
namespace {

struct Registry {
  std::vector<Scenario> v;
};
Registry* g_reg = nullptr;

void* helper_main(void* p) {
  *static_cast<std::atomic<uint64_t>*>(p) = get_fs();
  for (;;) pause();
}

void crash_handler(int sig) {
  if (sig == SIGALRM) {
    static const char m[] = "rmc: blocked in a call that is not modelled\n";
    (void)!get_write()(2, m, sizeof(m) - 1);
    _exit(78);
  }
  if (G.active) {
    G.in_model = false;
    sigset_t s;
    sigemptyset(&s);
    sigaddset(&s, sig);
    sigprocmask(SIG_UNBLOCK, &s, nullptr);
    if (!G.failed) {
      G.failed = true;
      snprintf(G.msg, sizeof(G.msg), sig == SIGVTALRM ? "hang: no scheduling point reached for 20 s of CPU time (thread %d)" : "crash: signal %d in thread %d", sig == SIGVTALRM ? G.cur : sig, G.cur);
      if (sig != SIGVTALRM) {
        size_t l = strlen(G.msg);
        snprintf(G.msg + l, sizeof(G.msg) - l, " (pcs:%s)", where().c_str());
      }
    }
    Ctx dummy;
    set_fs(G.main_fs);
    rmc_switch(&dummy, &G.sched_ctx);
  }
  _exit(72);
}

void* map_at(uintptr_t at, size_t n, bool shared = false) {
  void* p = mmap(reinterpret_cast<void*>(at), n, PROT_READ | PROT_WRITE,
                 (shared ? MAP_SHARED : MAP_PRIVATE) | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != reinterpret_cast<void*>(at)) {
    fprintf(stderr, "rmc: mmap at %lx failed: %s\n", static_cast<unsigned long>(at), strerror(errno));
    _exit(73);
  }
  return p;
}

void map_all() {
  map_at(kBase, (sizeof(Global) + 4095) & ~size_t{4095});
  static_assert(sizeof(Global) < (64u << 20), "");
  map_at(kArenaAt, kArena);
  map_at(kStackAt, kStack * kMaxT);
  map_at(kShadowArena, kArena * 8 + 4096);
  map_at(kShadowStack, kStack * kMaxT * 8);
  size_t dl = static_cast<size_t>(&_end - &__data_start);
  map_at(kShadowData, (dl + 64) * 8 + 8192);
  map_at(kArenaState, kArena / 8 + 4096);
  map_at(kSharedAt, (sizeof(Shared) + 4095) & ~size_t{4095}, true);
  G.data_len = dl;
  g_mapped = true;
}

int tls_cb(dl_phdr_info* info, size_t, void*) {
  // The first entry is the main program.
  for (int i = 0; i < info->dlpi_phnum; i++) {
    const auto& ph = info->dlpi_phdr[i];
    if (ph.p_type == PT_TLS) {
      size_t al = ph.p_align ? ph.p_align : 1;
      size_t off = (ph.p_memsz + al - 1) & ~(al - 1);
      G.tls_len = ph.p_memsz;
      G.tls_off = off;
    }
  }
  return 1;
}

// Per process: helper threads, their thread-control blocks, signal handlers.
void setup_process() {
  if (!(getauxval(AT_HWCAP2) & 2)) {
    fprintf(stderr, "rmc: FSGSBASE is not available\n");
    _exit(73);
  }
  cpu_set_t cs;
  (void)cs;
  G.main_fs = get_fs();
  for (int i = 0; i < kMaxT; i++) {
    static std::atomic<uint64_t> fs;
    fs = 0;
    pthread_attr_t a;
    pthread_attr_init(&a);
    pthread_attr_setstacksize(&a, 64 * 1024);
    pthread_t p;
    sigset_t all, old;
    sigfillset(&all);
    sigprocmask(SIG_BLOCK, &all, &old);
    if (get_pthread_create()(&p, &a, helper_main, &fs) != 0) _exit(74);
    sigprocmask(SIG_SETMASK, &old, nullptr);
    while (fs == 0) get_sched_yield()();
    G.t[i].fs = fs;
  }
  dl_iterate_phdr(tls_cb, nullptr);
  if (G.tls_len) {
    G.tls_img = static_cast<char*>(malloc(G.tls_len));
    memcpy(G.tls_img, reinterpret_cast<char*>(G.t[0].fs - G.tls_off), G.tls_len);
  }
  __libc_single_threaded = 0;
  char* alt = static_cast<char*>(malloc(65536));
  stack_t ss{};
  ss.ss_sp = alt;
  ss.ss_size = 65536;
  sigaltstack(&ss, nullptr);
  struct sigaction sa{};
  sa.sa_handler = crash_handler;
  sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGTRAP, SIGVTALRM, SIGALRM}) sigaction(s, &sa, nullptr);
  G.data_img = static_cast<char*>(malloc(G.data_len));
  memcpy(G.data_img, &__data_start, G.data_len);
}

// Runs one execution: path[0..prefix) is fixed.
void run_once(const Scenario& sc, int bound) {
  memcpy(&__data_start, G.data_img, G.data_len);
  G.gen++;
  G.nobj = 0;
  G.nthreads = 0;
  G.now = kStartTime;
  G.clock_obj = find_obj(0x50, oClock);
  for (int i = 0; i < kMaxT; i++) {
    memset(reinterpret_cast<void*>(kArenaState + kArenaT / 8 * static_cast<size_t>(i)), aUnused, G.arena_used[i] / 8 + 8);
    G.arena_used[i] = 0;
  }
  G.plen = 0;
  G.bound = bound;
  G.cost = 0;
  G.spurious_max = sc.spurious;
  G.spurious_used = 0;
  G.points = 0;
  G.streak = 0;
  G.jumps = 0;
  G.races = sc.races;
  G.round_robin = sc.round_robin;
  G.max_points = sc.max_points;
  G.failed = G.pruned = G.diverged = G.may_block = false;
  G.outcome = 0;
  G.next_sem = 0;
  G.nfiles = 0;
  G.n_exec++;
  G.body = &sc.body;
  for (int i = 0; i < kMaxT; i++)
    if (G.tls_len) memcpy(reinterpret_cast<char*>(G.t[i].fs - G.tls_off), G.tls_img, G.tls_len);
  new_thread(nullptr, nullptr);
  G.cur = 0;
  itimerval tv{};
  tv.it_value.tv_sec = 20;
  setitimer(ITIMER_VIRTUAL, &tv, nullptr);
  G.active = true;
  set_fs(G.t[0].fs);
  rmc_switch(&G.sched_ctx, &G.t[0].ctx);
  set_fs(G.main_fs);
  G.active = false;
  G.in_model = false;
  for (int i = 0; i < G.nfiles; i++) get_fclose()(G.files[i]);
}

void add_outcome(uint64_t v) {
  if (v == 0) v = 1;
  uint32_t i = static_cast<uint32_t>(v) & 4095;
  for (int k = 0; k < 4096; k++) {
    uint64_t z = 0;
    auto& e = S.out[(i + k) & 4095];
    if (e.load() == v) return;
    if (e.compare_exchange_strong(z, v)) {
      S.nout++;
      return;
    }
    if (z == v) return;
  }
}

double wall() {
  timespec ts;
  get_clock_gettime()(CLOCK_MONOTONIC, &ts);
  return static_cast<double>(ts.tv_sec) + static_cast<double>(ts.tv_nsec) * 1e-9;
}

void publish_violation() {
  pthread_mutex_t* mu = &S.mu;
  get_pthread_mutex_lock()(mu);
  if (!S.violated) {
    memcpy(S.msg, G.msg, sizeof(S.msg));
    S.vlen = G.plen;
    for (int i = 0; i < G.plen; i++) S.vpath[i] = static_cast<uint16_t>(G.path[i]);
    S.violated = G.diverged ? 2 : 1;
  }
  S.stop = 1;
  get_pthread_mutex_unlock()(mu);
}

bool push_work(const int* p, int n) {
  if (S.qlen.load() >= kQueue) return false;
  get_pthread_mutex_lock()(&S.mu);
  int q = S.qlen.load();
  bool ok = q < kQueue;
  if (ok) {
    WorkItem& w = S.q[q];
    w.len = n;
    for (int i = 0; i < n; i++) w.choice[i] = static_cast<uint16_t>(p[i]);
    S.qlen = q + 1;
  }
  get_pthread_mutex_unlock()(&S.mu);
  return ok;
}

bool pop_work(int* p, int* n) {
  if (S.qlen.load() == 0) return false;
  get_pthread_mutex_lock()(&S.mu);
  int q = S.qlen.load();
  bool ok = q > 0;
  if (ok) {
    WorkItem& w = S.q[q - 1];
    *n = w.len;
    for (int i = 0; i < w.len; i++) p[i] = w.choice[i];
    S.qlen = q - 1;
  }
  get_pthread_mutex_unlock()(&S.mu);
  return ok;
}


void worker(const Scenario& sc, int bound, int nworkers, double deadline) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  setup_process();
  G.caching = true;
  bool idle = false;
  uint64_t flushed = 0;
  for (;;) {
    int n = 0;
    if (!pop_work(G.path, &n)) {
      if (!idle) {
        alarm(0);
        idle = true;
        S.idle++;
      }
      if (S.stop || (S.idle.load() == nworkers && S.qlen.load() == 0)) break;
      get_usleep()(100);
      continue;
    }
    if (idle) {
      idle = false;
      S.idle--;
    }
    alarm(90);
    const int root = n;
    memset(G.nopt, 0, sizeof(int) * static_cast<size_t>(n));
    G.prefix = n;
    for (;;) {
      if (S.stop) break;
      if (deadline > 0 && (G.n_exec & 15) == 0 && wall() > deadline) {
        S.timed_out = 1;
        S.stop = 1;
        break;
      }
      if ((G.n_exec & 63) == 0) alarm(90);
      run_once(sc, bound);
      S.execs++;
      S.points += G.n_points - flushed;
      flushed = G.n_points;
      if (G.failed) {
        publish_violation();
        break;
      }
      if (G.pruned) S.pruned++;
      else add_outcome(G.outcome);
      if (static_cast<uint64_t>(G.plen) > S.maxpath.load()) S.maxpath = static_cast<uint64_t>(G.plen);
      int i = G.plen - 1;
      while (i >= root && G.path[i] + 1 >= G.lim[i]) i--;
      if (i < root) break;
      G.path[i]++;
      G.prefix = i + 1;
      if (nworkers > 1 && S.qlen.load() < nworkers) {
        // Hand the shallowest open branches to the other workers.
        for (int j = root; j < i; j++) {
          if (G.path[j] + 1 >= G.lim[j]) continue;
          const int save = G.path[j];
          while (G.lim[j] > save + 1) {
            G.path[j] = G.lim[j] - 1;
            if (!push_work(G.path, j + 1)) break;
            G.lim[j]--;
          }
          G.path[j] = save;
          break;
        }
      }
    }
  }
  S.accesses += G.n_accesses;
  _exit(0);
}

void reset_shared() {
  madvise(reinterpret_cast<void*>(kSharedAt), (sizeof(Shared) + 4095) & ~size_t{4095}, MADV_REMOVE);
  pthread_mutexattr_t a;
  pthread_mutexattr_init(&a);
  pthread_mutexattr_setpshared(&a, PTHREAD_PROCESS_SHARED);
  get_pthread_mutex_init()(&S.mu, &a);
  S.table_gen = 1;
}

std::string json_str(const char* s) {
  std::string r = "\"";
  for (; *s; s++) {
    if (*s == '"' || *s == '\\') r += '\\';
    if (static_cast<unsigned char>(*s) < 32) { r += ' '; continue; }
    r += *s;
  }
  return r + "\"";
}

// Runs one recorded schedule in a child; returns its message ("" if it passed).
std::string replay(const Scenario& sc, const std::vector<int>& path, int bound, bool trace) {
  reset_shared();
  fflush(stdout);
  pid_t p = fork();
  if (p == 0) {
    setup_process();
    G.caching = false;
    G.trace = trace;
    for (size_t i = 0; i < path.size(); i++) {
      G.path[i] = path[i];
      G.nopt[i] = 0;
    }
    G.prefix = static_cast<int>(path.size());
    alarm(90);
    run_once(sc, bound);
    if (G.failed) memcpy(S.msg, G.msg, sizeof(S.msg));
    _exit(0);
  }
  int st = 0;
  waitpid(p, &st, 0);
  if (!WIFEXITED(st) || WEXITSTATUS(st)) return "rmc: replay process failed";
  return S.msg;
}

}  // namespace

void add(Scenario s) { g_reg->v.push_back(std::move(s)); }

}  // namespace rmc

// Usage: NAME [--list] [--tier quick|thorough] [--only GLOB-PREFIX] [--group G]
//             [--jobs N] [--budget SECONDS] [--out FILE.jsonl] [--replay FILE]
//             [--replay-dir DIR] [--bound N]
int main(int argc, char** argv) {
  using namespace rmc;
  std::string tier = "quick", only, group, outf, replayf, rdir = ".", engine;
  int jobs = 8, force_bound = -1;
  double budget = 0;
  bool list = false, all = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nextarg = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--list") list = true;
    else if (a == "--all") all = true;
    else if (a == "--tier") tier = nextarg();
    else if (a == "--only") only = nextarg();
    else if (a == "--group") group = nextarg();
    else if (a == "--jobs") jobs = atoi(nextarg().c_str());
    else if (a == "--engine") engine = nextarg();
    else if (a == "--budget") budget = atof(nextarg().c_str());
    else if (a == "--out") outf = nextarg();
    else if (a == "--replay") replayf = nextarg();
    else if (a == "--replay-dir") rdir = nextarg();
    else if (a == "--bound") force_bound = atoi(nextarg().c_str());
    else return 64;
  }
  // libstdc++ switches to atomic reference counts once a thread exists.
  resolve_all();
  {
    pthread_t p;
    get_pthread_create()(&p, nullptr, [](void*) -> void* { return nullptr; }, nullptr);
    get_pthread_join()(p, nullptr);
  }
  static Registry reg;
  g_reg = &reg;
  map_all();
  register_scenarios();
  if (list) {
    for (auto& s : reg.v) printf("%s %s\n", s.group.c_str(), s.name.c_str());
    return 0;
  }
  if (!replayf.empty()) {
    FILE* f = fopen(replayf.c_str(), "r");
    if (!f) return 66;
    char name[256];
    int bound, n;
    if (fscanf(f, "scenario %255s\nbound %d\nlength %d\n", name, &bound, &n) != 3) return 65;
    std::vector<int> path(static_cast<size_t>(n));
    for (auto& c : path) if (fscanf(f, "%d", &c) != 1) return 65;
    fclose(f);
    for (auto& s : reg.v)
      if (s.name == name) {
        std::string m = replay(s, path, bound, true);
        printf("replay: %s\n", m.empty() ? "no violation" : m.c_str());
        return m.empty() ? 0 : 1;
      }
    fprintf(stderr, "no such scenario\n");
    return 66;
  }
  FILE* out = outf.empty() ? stdout : fopen(outf.c_str(), "a");
  if (!out) return 66;
  const double t0 = wall();
  int rc = 0;
  std::vector<const Scenario*> todo;
  for (auto& s : reg.v) {
    if (!only.empty() && s.name.compare(0, only.size(), only) != 0) continue;
    if (!group.empty() && s.group != group) continue;
    todo.push_back(&s);
  }
  // Bound by bound over all scenarios, so that running out of time costs
  // depth, never a scenario.
  struct Res {
    int maxb = 0, done = -1;
    uint64_t states = 0, execs = 0, points = 0, pruned = 0, accesses = 0, dropped = 0, outs = 0, maxpath = 0;
    bool capped = false, over = false;
    double wall = 0;
    std::string vmsg, rfile;
  };
  std::vector<Res> res(todo.size());
  int top = 0, nviol = 0;
  for (size_t si = 0; si < todo.size(); si++) {
    const Scenario& s = *todo[si];
    res[si].maxb = tier == "thorough" ? s.thorough_bound : s.quick_bound;
    if (force_bound >= 0) res[si].maxb = std::min(force_bound, res[si].maxb);
    top = std::max(top, res[si].maxb);
  }
  for (int b = 0; b <= top; b++) {
    size_t left = 0;
    for (auto& r : res) left += !r.over && r.maxb >= b;
    for (size_t si = 0; si < todo.size(); si++) {
      const Scenario& s = *todo[si];
      Res& r = res[si];
      if (r.over || r.maxb < b) continue;
      if (nviol >= 3 && !all) {
        r.capped = r.over = true;
        continue;
      }
      const double ts = wall();
      // A fair share of the remaining time (at least one second).
      double dl = 0;
      if (budget > 0) dl = ts + std::max(1.0, (t0 + budget - ts) / static_cast<double>(left) * 3.0);
      left--;
      bool bad = false;
      std::string unsure;
      for (int attempt = 0; attempt < 2; attempt++) {
        reset_shared();
        int empty[1];
        push_work(empty, 0);
        int nw = b == 0 ? 1 : jobs;
        fflush(out);
        fflush(stdout);
        std::vector<pid_t> ps;
        for (int w = 0; w < nw; w++) {
          pid_t p = fork();
          if (p < 0) return 75;
          if (p == 0) worker(s, b, nw, dl);
          ps.push_back(p);
        }
        bad = false;
        for (size_t w = 0; w < ps.size(); w++) {
          int st;
          wait(&st);
          if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
            bad = true;
            unsure = "the explorer was destroyed by the code under test (status " + std::to_string(st) + ")";
            fprintf(stderr, "rmc: worker of %s ended abnormally (status %x)\n", s.name.c_str(), st);
            S.stop = 1;
          }
        }
        if (bad && !S.violated) continue;
        if (S.violated) {
          std::vector<int> path(S.vpath, S.vpath + S.vlen);
          std::string m0 = S.msg;
          const int kind = S.violated;
          std::string m1 = replay(s, path, b, false), m2 = replay(s, path, b, false);
          if (kind == 2 || m1.empty() || m1 != m2) {
            bad = true;
            unsure = (kind == 1 ? m0 : m1.empty() ? m0 : m1) + " (not the same each time)";
            fprintf(stderr, "rmc: %s: replay differs: [%s] [%s] [%s]\n", s.name.c_str(), m0.c_str(), m1.c_str(),
                    m2.c_str());
            continue;
          }
          bad = false;
          r.vmsg = m1;
          r.rfile = rdir + "/" + s.name + ".sched";
          FILE* f = fopen(r.rfile.c_str(), "w");
          if (f) {
            fprintf(f, "scenario %s\nbound %d\nlength %zu\n", s.name.c_str(), b, path.size());
            for (int c : path) fprintf(f, "%d ", c);
            fprintf(f, "\n# %s\n", m1.c_str());
            if (!engine.empty()) fprintf(f, "engine %s\n", engine.c_str());
            fclose(f);
          }
        }
        break;
      }
      // Twice in a row: the code under test does not behave the same each time.
      if (bad) {
        r.vmsg = unsure;
        r.rfile = rdir + "/" + s.name + ".sched";
        if (FILE* f = fopen(r.rfile.c_str(), "w")) {
          fprintf(f, "scenario %s\nbound %d\nlength 0\n\n# %s\n", s.name.c_str(), b, unsure.c_str());
          if (!engine.empty()) fprintf(f, "engine %s\n", engine.c_str());
          fprintf(f, "explore --only %s --bound %d\n", s.name.c_str(), b);
          fclose(f);
        }
      }
      if (S.states) r.states = S.states;
      r.execs += S.execs; r.points += S.points; r.pruned += S.pruned;
      r.accesses += S.accesses; r.dropped += S.dropped; r.outs = std::max<uint64_t>(r.outs, S.nout);
      r.maxpath = std::max<uint64_t>(r.maxpath, S.maxpath);
      r.wall += wall() - ts;
      if (!r.vmsg.empty()) {
        rc = 1;
        nviol++;
        r.over = true;
      } else if (S.timed_out) {
        r.capped = r.over = true;
      } else {
        r.done = b;
      }
    }
  }
  for (size_t si = 0; si < todo.size(); si++) {
    const Scenario& s = *todo[si];
    Res& r = res[si];
    fprintf(out,
            "{\"scenario\":%s,\"group\":%s,\"bound_completed\":%d,\"bound_wanted\":%d,\"capped\":%s,"
            "\"states\":%llu,\"transitions\":%llu,\"executions\":%llu,\"complete\":%llu,\"pruned\":%llu,"
            "\"accesses\":%llu,\"outcomes\":%llu,\"max_choices\":%llu,\"dropped\":%llu,\"wall\":%.2f,"
            "\"violation\":%s,\"replay\":%s}\n",
            json_str(s.name.c_str()).c_str(), json_str(s.group.c_str()).c_str(), r.done, r.maxb,
            r.capped ? "true" : "false", (unsigned long long)r.states, (unsigned long long)r.points,
            (unsigned long long)r.execs, (unsigned long long)(r.execs - r.pruned), (unsigned long long)r.pruned,
            (unsigned long long)r.accesses, (unsigned long long)r.outs, (unsigned long long)r.maxpath,
            (unsigned long long)r.dropped, r.wall, r.vmsg.empty() ? "null" : json_str(r.vmsg.c_str()).c_str(),
            r.rfile.empty() ? "null" : json_str(r.rfile.c_str()).c_str());
  }
  fflush(out);
  return rc;
}
