// See xsched.h.  This file is compiled without instrumentation and must not
// call anything it interposes.
#include "xsched.h"

#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <exception>
#include <new>

#define HOT __attribute__((noinline))

namespace {

constexpr int kMaxT = 8;
constexpr int kMaxTrace = 20000;
constexpr size_t kArena = 64ul << 20;
constexpr size_t kStack = 512ul << 10;

// ---------------------------------------------------------------- raw calls
inline long Raw(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) {
  long r;
  register long r10 asm("r10") = d;
  register long r8 asm("r8") = e;
  register long r9 asm("r9") = f;
  asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
               : "rcx", "r11", "memory");
  return r;
}
inline void Zero(void* p, size_t n) {
  asm volatile("rep stosb" : "+D"(p), "+c"(n) : "a"(0) : "memory");
}

// ---------------------------------------------------------------- shared with the explorer
struct Choice {
  uint8_t n, chosen, thread, what;
};
constexpr int kSharedSlots = 1 << 16;
struct Shm {
  int nprefix;
  uint8_t prefix[kMaxTrace];
  int ntrace;
  Choice trace[kMaxTrace];
  int status;  // 0 running, 1 done, 2 failed, 3 internal error
  char kind[200];
  char msg[3000];
  size_t out_len;
  char out[1 << 16];
  long steps, accesses;
  int grew;
  int nshared;
  uint64_t shared[kSharedSlots];
  sched::Config cfg;
};
Shm* shm = nullptr;

// ---------------------------------------------------------------- per-process state
struct VC {
  uint32_t c[kMaxT];
};
enum St : uint8_t { RUN, MUTEX, COND, JOIN, FUTEX, GUARD, RWR, RWW, FIN, ALL };
struct Thr {
  St st;
  bool yielded;
  bool timed;        // blocked with a timeout
  uint64_t on;       // address / thread blocked on
  uint64_t mtx;      // mutex to take again after a wait
  int wake;          // 0 signalled, 1 spurious, 2 timed out
  VC vc, acq_pending, rel_fence;
  bool has_rel_fence;
  int go;            // futex word
  pthread_t real;
  uint64_t tcb;
  void* (*fn)(void*);
  void* arg;
  int guard_depth;
  char* bump;
  char* bump_end;
  uint64_t stack_lo, stack_hi;
  bool detached;
  long seen_writes;  // fair_spin: writes when this thread last yielded
};
long writes = 0;
Thr thr[kMaxT];
int nthr = 0;
int preempts = 0, spurious_used = 0;
bool active = false;
long live0 = 0, live = 0, exempt_live = 0;
long last_switch_step = 0;
uint64_t heap_lo = 0, heap_hi = 0, exe_lo = 0, exe_hi = 0, mstk_lo = 0, mstk_hi = 0;
char* arena0 = nullptr;

__thread int self = -1;
__thread int off = 0;  // >0: not tracking

struct In {  // inside the runtime
  In() { ++off; }
  ~In() { --off; }
};
inline bool On() { return __builtin_expect(self >= 0, 0) && off == 0; }

// real functions
int (*r_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
int (*r_join)(pthread_t, void**);
int (*r_detach)(pthread_t);
int (*r_mlock)(pthread_mutex_t*);
int (*r_mtry)(pthread_mutex_t*);
int (*r_munlock)(pthread_mutex_t*);
int (*r_cwait)(pthread_cond_t*, pthread_mutex_t*);
int (*r_ctimed)(pthread_cond_t*, pthread_mutex_t*, const timespec*);
int (*r_csig)(pthread_cond_t*);
int (*r_cbc)(pthread_cond_t*);
int (*r_once)(pthread_once_t*, void (*)());
int (*r_rdlock)(pthread_rwlock_t*);
int (*r_wrlock)(pthread_rwlock_t*);
int (*r_rwunlock)(pthread_rwlock_t*);
int (*r_nanosleep)(const timespec*, timespec*);
pthread_key_t key;

template <class F>
void Sym(F& f, const char* n) {
  f = reinterpret_cast<F>(dlsym(RTLD_NEXT, n));
}
extern "C" char __executable_start, _end;
void ThreadFini(void*);
bool inited = false;
void Resolve() {
  if (inited) return;
  inited = true;
  Sym(r_create, "pthread_create");
  Sym(r_join, "pthread_join");
  Sym(r_detach, "pthread_detach");
  Sym(r_mlock, "pthread_mutex_lock");
  Sym(r_mtry, "pthread_mutex_trylock");
  Sym(r_munlock, "pthread_mutex_unlock");
  Sym(r_cwait, "pthread_cond_wait");
  Sym(r_ctimed, "pthread_cond_timedwait");
  Sym(r_csig, "pthread_cond_signal");
  Sym(r_cbc, "pthread_cond_broadcast");
  Sym(r_once, "pthread_once");
  Sym(r_rdlock, "pthread_rwlock_rdlock");
  Sym(r_wrlock, "pthread_rwlock_wrlock");
  Sym(r_rwunlock, "pthread_rwlock_unlock");
  Sym(r_nanosleep, "nanosleep");
}

// ---------------------------------------------------------------- failure
[[noreturn]] void Die(int status, const char* kind, const char* msg) {
  ++off;
  active = false;
  snprintf(shm->kind, sizeof shm->kind, "%s", kind);
  snprintf(shm->msg, sizeof shm->msg, "%s", msg);
  shm->status = status;
  Raw(SYS_exit_group, 0);
  __builtin_unreachable();
}
const char* Where(uint64_t pc, char* buf, size_t n) {
  Dl_info i;
  if (pc && dladdr(reinterpret_cast<void*>(pc), &i) && i.dli_sname) {
    int st = 0;
    char* d = abi::__cxa_demangle(i.dli_sname, nullptr, nullptr, &st);
    snprintf(buf, n, "%s", d ? d : i.dli_sname);
    char* p = strchr(buf, '(');
    if (p && p > buf && strncmp(buf, "(anonymous", 10) != 0 && p[1] != 'a') *p = 0;
    buf[n < 120 ? n - 1 : 119] = 0;
  } else {
    snprintf(buf, n, "?");
  }
  return buf;
}

void OnAlarm(int) {
  char msg[800];
  int p = 0;
  for (int i = 0; i < nthr; ++i)
    p += snprintf(msg + p, sizeof msg - p, "thread %d: state %d on %lx go %d yielded %d seen %ld of %ld; ", i, thr[i].st, static_cast<long>(thr[i].on), thr[i].go, thr[i].yielded, thr[i].seen_writes, writes);
  snprintf(msg + p, sizeof msg - p, "running %d", self);
  Die(2, "hang", msg);
}

// ---------------------------------------------------------------- hash tables
struct Sync {  // one synchronisation location
  uint64_t addr;
  VC rel;
  int8_t owner;       // mutex / guard / once owner, -1 free
  int8_t first;       // first user
  bool multi, written, in_shm;
  int16_t depth;
  int16_t readers;
  VC rd;              // released by readers
};
constexpr int kSync = 1 << 15;
Sync* sync_tab = nullptr;
Sync* GetSync(uint64_t a) {
  uint64_t h = (a * 0x9e3779b97f4a7c15ull) >> 40;
  for (int i = 0; i < kSync; ++i) {
    Sync* s = &sync_tab[(h + i) & (kSync - 1)];
    if (s->addr == a) return s;
    if (!s->addr) {
      s->addr = a;
      s->owner = -1;
      s->first = -1;
      return s;
    }
  }
  Die(3, "internal", "too many synchronisation locations");
}
bool InShared(uint64_t a, bool add) {
  uint64_t h = (a * 0x9e3779b97f4a7c15ull) >> 40;
  for (int i = 0; i < kSharedSlots; ++i) {
    uint64_t& s = shm->shared[(h + i) & (kSharedSlots - 1)];
    if (s == a) return true;
    if (!s) {
      if (add) {
        s = a;
        ++shm->nshared;
        shm->grew = 1;
      }
      return false;
    }
  }
  return true;
}

struct Cell {
  uint32_t clk;
  uint8_t tid, mask, kind, used;  // kind: 1 write, 2 atomic
  uint64_t pc;
};
struct Gran {
  uint64_t key;  // granule number | freed flag in the top bit
  Cell c[7];
};
constexpr int kGran = 1 << 19;
Gran* gran_tab = nullptr;
constexpr uint64_t kFreed = 1ull << 63;
Gran* GetGran(uint64_t g) {
  uint64_t h = (g ^ (g >> 19) * 0x9e37) & (kGran - 1);
  for (int i = 0; i < 4096; ++i) {
    Gran* s = &gran_tab[(h + i) & (kGran - 1)];
    if ((s->key & ~kFreed) == g) return s;
    if (!s->key) {
      s->key = g;
      return s;
    }
  }
  Die(3, "internal", "shadow memory is full");
}
inline bool Tracked(uint64_t a) {
  if (a >= reinterpret_cast<uint64_t>(arena0) && a < reinterpret_cast<uint64_t>(arena0) + kArena * kMaxT) return true;
  if (a >= heap_lo && a < heap_hi) return true;
  if (a >= exe_lo && a < exe_hi) return true;
  if (a >= mstk_lo && a < mstk_hi) return true;
  for (int i = 1; i < nthr; ++i)
    if (a >= thr[i].stack_lo && a < thr[i].stack_hi) return true;
  return false;
}
inline bool Seen(const VC& v, int tid, uint32_t clk) { return v.c[tid] >= clk; }

const char* KindName(int k) {
  return k == 1 ? "write" : k == 0 ? "read" : k == 3 ? "atomic write" : "atomic read";
}
[[noreturn]] void Race(uint64_t a, int k1, uint64_t pc1, const Cell& o, bool freeing) {
  char b1[400], b2[400], kind[200], msg[1600];
  Where(pc1, b1, sizeof b1);
  Where(o.pc, b2, sizeof b2);
  const char* n1 = freeing ? "release" : KindName(k1);
  const char* n2 = KindName(o.kind);
  if (strcmp(b1, b2) > 0) {
    snprintf(kind, sizeof kind, "data race: %.80s / %.80s", b2, b1);
  } else {
    snprintf(kind, sizeof kind, "data race: %.80s / %.80s", b1, b2);
  }
  snprintf(msg, sizeof msg, "%s by thread %d in %s, and %s by thread %d in %s, of the same memory, are not ordered",
           n1, self, b1, n2, o.tid, b2);
  Die(2, kind, msg);
}
[[noreturn]] void Uaf(uint64_t a, int k, uint64_t pc, bool freeing) {
  char b1[400], kind[200], msg[800];
  Where(pc, b1, sizeof b1);
  snprintf(kind, sizeof kind, "%s: %.120s", freeing ? "released twice" : "used after release", b1);
  snprintf(msg, sizeof msg, "thread %d: %s of memory that was already released, in %s", self,
           freeing ? "release" : KindName(k), b1);
  Die(2, kind, msg);
}

// One bit per granule of the arena that belongs to a block.
uint64_t* valid = nullptr;
inline uint64_t ArenaGran(uint64_t a) { return (a - reinterpret_cast<uint64_t>(arena0)) >> 3; }
inline bool InArena(uint64_t a) {
  return a >= reinterpret_cast<uint64_t>(arena0) && a < reinterpret_cast<uint64_t>(arena0) + kArena * kMaxT;
}
[[noreturn]] void Outside(int k, uint64_t pc) {
  char b1[400], kind[200], msg[800];
  Where(pc, b1, sizeof b1);
  snprintf(kind, sizeof kind, "outside a block: %.120s", b1);
  snprintf(msg, sizeof msg, "thread %d: %s next to a block of memory, in %s", self, KindName(k), b1);
  Die(2, kind, msg);
}

HOT void Access(uint64_t a, size_t n, int kind, uint64_t pc, bool freeing = false) {
  if (!Tracked(a)) return;
  In in;
  if (InArena(a))
    for (uint64_t g = ArenaGran(a); g <= ArenaGran(a + n - 1); ++g)
      if (!(valid[g >> 6] >> (g & 63) & 1)) Outside(kind, pc);
  if (++shm->accesses > 80000000L) Die(2, "no progress", "more than 80 million memory accesses in one schedule");
  Thr& t = thr[self];
  const uint64_t e = a + n;
  for (uint64_t g = a >> 3; g <= (e - 1) >> 3; ++g) {
    const uint64_t lo = g << 3;
    uint8_t mask = 0xff;
    if (a > lo) mask &= static_cast<uint8_t>(0xff << (a - lo));
    if (e < lo + 8) mask &= static_cast<uint8_t>(0xff >> (lo + 8 - e));
    Gran* s = GetGran(g);
    if (s->key & kFreed) Uaf(a, kind, pc, freeing);
    Cell* mine = nullptr;
    Cell* spare = nullptr;
    for (Cell& c : s->c) {
      if (!c.used) {
        if (!spare) spare = &c;
        break;
      }
      if (c.tid == self) {
        if (c.kind == kind && c.mask == mask) mine = &c;
        continue;
      }
      if ((c.mask & mask) && ((c.kind | kind) & 1) && !((c.kind & 2) && (kind & 2)) &&
          !Seen(t.vc, c.tid, c.clk))
        Race(a, kind, pc, c, freeing);
    }
    Cell* w = mine ? mine : spare;
    if (!w) {  // full: forget one that everything this thread does now is ordered after
      for (Cell& c : s->c)
        if (c.tid == self || Seen(t.vc, c.tid, c.clk)) { w = &c; break; }
      if (!w) w = &s->c[0];
    }
    *w = Cell{t.vc.c[self], static_cast<uint8_t>(self), mask, static_cast<uint8_t>(kind), 1, pc};
    if (freeing) s->key |= kFreed;
  }
}

// ---------------------------------------------------------------- scheduling
void Wake(int t) {
  __atomic_store_n(&thr[t].go, 1, __ATOMIC_SEQ_CST);
  Raw(SYS_futex, reinterpret_cast<long>(&thr[t].go), FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1);
}
void Sleep(int t) {
  while (!__atomic_load_n(&thr[t].go, __ATOMIC_SEQ_CST))
    Raw(SYS_futex, reinterpret_cast<long>(&thr[t].go), FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0, 0);
  __atomic_store_n(&thr[t].go, 0, __ATOMIC_SEQ_CST);
}
bool Enabled(int i) {
  const Thr& t = thr[i];
  switch (t.st) {
    case RUN: return !(shm->cfg.fair_spin && t.yielded && t.seen_writes == writes);
    case MUTEX:
    case GUARD: return GetSync(t.on)->owner < 0;
    case RWR: return GetSync(t.on)->owner < 0;
    case RWW: return GetSync(t.on)->owner < 0 && GetSync(t.on)->readers == 0;
    case JOIN: return thr[t.on].st == FIN;
    case ALL:
      for (int k = 0; k < nthr; ++k)
        if (k != i && thr[k].st != FIN) return false;
      return true;
    default: return false;
  }
}
int delays = 0;
int Choose(int n, int what) {
  const bool dm = shm->cfg.delays >= 0;
  if (dm && n > shm->cfg.delays - delays + 1) n = shm->cfg.delays - delays + 1;
  if (n <= 1) return 0;
  const int i = shm->ntrace;
  if (i >= kMaxTrace) Die(2, "no progress", "more than 20000 decisions in one schedule");
  int c = 0;
  if (i < shm->nprefix) c = shm->prefix[i];
  if (c >= n) Die(3, "internal", "the execution is not a function of the schedule");
  shm->trace[i] = Choice{static_cast<uint8_t>(n), static_cast<uint8_t>(c), static_cast<uint8_t>(self), static_cast<uint8_t>(what)};
  shm->ntrace = i + 1;
  if (dm) delays += c;
  return c;
}
[[noreturn]] void Deadlock() {
  char msg[800];
  int p = 0;
  static const char* nm[] = {"runs", "mutex", "condition", "join", "futex", "guard", "rdlock", "wrlock", "finished", "waits for all"};
  for (int i = 0; i < nthr; ++i)
    p += snprintf(msg + p, sizeof msg - p, "thread %d: %s; ", i, nm[thr[i].st]);
  Die(2, "deadlock", msg);
}
// The calling thread gives up control (it may be runnable, blocked or finished).
void Switch() {
  const bool cur_on = Enabled(self) && !thr[self].yielded;
  int opt[3 * kMaxT], how[3 * kMaxT];
  int n = 0;
  if (cur_on) { opt[n] = self; how[n++] = 0; }
  if (!cur_on || preempts < shm->cfg.preemptions || shm->cfg.delays >= 0)
    for (int k = 1; k < nthr; ++k) {
      const int i = (self + k) % nthr;
      if (!thr[i].yielded && Enabled(i)) { opt[n] = i; how[n++] = 0; }
    }
  if (n == 0) {  // only threads that yielded, if any
    for (int i = 0; i < nthr; ++i)
      if (thr[i].yielded && Enabled(i)) { opt[n] = i; how[n++] = 0; }
  }
  const bool stuck = n == 0;
  for (int i = 0; i < nthr; ++i) {
    if ((thr[i].st == COND || thr[i].st == FUTEX) && (thr[i].timed || spurious_used < shm->cfg.spurious)) {
      if (thr[i].timed) {
        if (stuck || spurious_used < shm->cfg.spurious) { opt[n] = i; how[n++] = 2; }
      } else if (!stuck) {
        opt[n] = i;
        how[n++] = 1;
      }
    }
  }
  if (n == 0) {
    if (shm->cfg.fair_spin)
      for (int i = 0; i < nthr; ++i)
        if (thr[i].st == RUN) Die(2, "livelock", "every thread that is not blocked waits for another in a loop");
    Deadlock();
  }
  const int k = Choose(n, 0);
  const int nx = opt[k];
  if (cur_on && nx != self && how[k] == 0) ++preempts;
  if (how[k]) {
    if (!stuck) ++spurious_used;
    thr[nx].wake = how[k];
    if (thr[nx].st == COND) {
      thr[nx].st = MUTEX;
      thr[nx].on = thr[nx].mtx;
    } else {
      thr[nx].st = RUN;
    }
    if (!Enabled(nx)) { Switch(); return; }
  }
  if (nx != self) {
    const int me = self;
    const bool fin = thr[me].st == FIN;
    Wake(nx);
    if (fin) return;
    Sleep(me);
  }
  for (int i = 0; i < nthr; ++i)
    if (i != self && !(shm->cfg.fair_spin && thr[i].seen_writes == writes)) thr[i].yielded = false;
  thr[self].yielded = false;
}
void Step() {
  if (++shm->steps > shm->cfg.max_steps) Die(2, "no progress", "too many synchronisation operations in one schedule");
}
// Called before a synchronisation operation on `a`.
Sync* Point(uint64_t a, bool write) {
  Sync* s = GetSync(a);
  bool alone = true;  // nobody else to interleave with
  for (int i = 0; i < nthr; ++i)
    if (i != self && thr[i].st != FIN && thr[i].st != ALL) alone = false;
  if (alone && thr[0].st != ALL) return s;
  if (s->first < 0) s->first = self;
  else if (s->first != self) s->multi = true;
  if (write) s->written = true;
  if (!s->in_shm) {
    if (s->multi && s->written) {
      InShared(a, true);
      s->in_shm = true;
    } else if (InShared(a, false)) {
      s->in_shm = true;
    }
  }
  if (s->in_shm) {
    Step();
    Switch();
  }
  if (write) ++writes;
  return s;
}
// Adding to a reference count.
Sync* Count(uint64_t a, bool write) {
  if (shm->cfg.counts) return Point(a, write);
  const uint64_t lo = reinterpret_cast<uint64_t>(arena0);
  if ((a >= lo && a < lo + kArena * kMaxT) || (a >= heap_lo && a < heap_hi)) return GetSync(a);
  return Point(a, write);
}
void Block(St st, uint64_t on) {
  thr[self].st = st;
  thr[self].on = on;
  Step();
  Switch();
  thr[self].st = RUN;
}
inline void Join(VC& a, const VC& b) {
  for (int i = 0; i < kMaxT; ++i)
    if (b.c[i] > a.c[i]) a.c[i] = b.c[i];
}
inline void Acquire(Sync* s) { Join(thr[self].vc, s->rel); }
inline void Release(Sync* s) {
  Join(s->rel, thr[self].vc);
  ++thr[self].vc.c[self];
}

// ---------------------------------------------------------------- mutexes
void LockIt(uint64_t m) {
  Sync* s = GetSync(m);
  while (s->owner >= 0) Block(MUTEX, m);
  s->owner = static_cast<int8_t>(self);
  s->depth = 1;
  Acquire(s);
}
void UnlockIt(uint64_t m) {
  Sync* s = GetSync(m);
  Release(s);
  s->owner = -1;
}

// ---------------------------------------------------------------- atomics
inline bool IsAcq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
inline bool IsRel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

void AtomicLoad(Sync* s, int mo) {
  if (IsAcq(mo)) Acquire(s);
  else Join(thr[self].acq_pending, s->rel);
}
void AtomicStore(Sync* s, int mo, bool rmw) {
  if (!rmw) Zero(&s->rel, sizeof s->rel);
  if (IsRel(mo)) Release(s);
  else if (thr[self].has_rel_fence) Join(s->rel, thr[self].rel_fence);
}

}  // namespace

// ---------------------------------------------------------------- public interface
namespace sched {

Untracked::Untracked() { ++off; }
Untracked::~Untracked() { --off; }
bool Active() { return active; }
int Self() { return self; }
bool Joining(int t) { return thr[t].st == JOIN; }
void Out(const char* text, size_t n) {
  In in;
  if (!shm) return;
  if (n > sizeof shm->out - shm->out_len) n = sizeof shm->out - shm->out_len;
  for (size_t i = 0; i < n; ++i) shm->out[shm->out_len + i] = text[i];
  shm->out_len += n;
}
void Failure(const char* kind, const char* msg) { Die(2, kind, msg); }

void Point() {
  if (!On()) return;
  In in;
  static int dummy;
  ::Point(reinterpret_cast<uint64_t>(&dummy), true);
}
void WaitAll() {
  In in;
  Block(ALL, 0);
}
void Begin() {
  In in;
  heap_hi = static_cast<uint64_t>(Raw(SYS_brk, 0));
  nthr = 1;
  thr[0].st = RUN;
  thr[0].vc.c[0] = 1;
  thr[0].bump = arena0;
  thr[0].bump_end = arena0 + kArena;
  live0 = live;
  active = true;
  self = 0;
  last_switch_step = 0;
}
void End() {
  ++off;
  for (int i = 1; i < nthr; ++i)
    if (thr[i].st != FIN) Die(2, "unfinished thread", "a thread is still running at the end");
  if (shm->cfg.leaks && live > live0) {
    char msg[200];
    snprintf(msg, sizeof msg, "%ld blocks allocated by the threads were never released", live - live0);
    Die(2, "leak", msg);
  }
  self = -1;
  active = false;
  --off;
}

Stats Explore(const Config& cfg, void (*body)(void*), void* arg, bool (*on)(void*, const Run&), void* on_arg) {
  Stats st;
  if (!shm) {
    shm = static_cast<Shm*>(mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    sync_tab = static_cast<Sync*>(mmap(nullptr, sizeof(Sync) * kSync, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    gran_tab = static_cast<Gran*>(mmap(nullptr, sizeof(Gran) * kGran, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    arena0 = static_cast<char*>(mmap(nullptr, kArena * kMaxT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    valid = static_cast<uint64_t*>(mmap(nullptr, kArena * kMaxT / 64, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    exe_lo = reinterpret_cast<uint64_t>(&__executable_start);
    exe_hi = reinterpret_cast<uint64_t>(&_end);
    pthread_attr_t at;
    pthread_getattr_np(pthread_self(), &at);
    void* lo;
    size_t sz;
    pthread_attr_getstack(&at, &lo, &sz);
    pthread_attr_destroy(&at);
    mstk_lo = reinterpret_cast<uint64_t>(lo);
    mstk_hi = mstk_lo + sz;
    pthread_key_create(&key, ThreadFini);
    // keep all threads of a schedule on one processor
    cpu_set_t all, one;
    CPU_ZERO(&one);
    if (sched_getaffinity(0, sizeof all, &all) == 0) {
      int n = CPU_COUNT(&all), k = n ? getpid() % n : 0;
      for (int c = 0; c < CPU_SETSIZE; ++c)
        if (CPU_ISSET(c, &all) && k-- == 0) CPU_SET(c, &one);
      if (n) sched_setaffinity(0, sizeof one, &one);
    }
  }
  if (!heap_lo) heap_lo = reinterpret_cast<uint64_t>(&_end);
  if (!cfg.keep_shared) {
    Zero(shm->shared, sizeof shm->shared);
    shm->nshared = 0;
  }
  shm->cfg = cfg;
  char sbuf[4000];
  int nprefix = 0;
  static uint8_t prefix[kMaxTrace];
  const char* const replay = getenv("XS_REPLAY");  // "position:choice ..." of one schedule
  for (const char* q = replay; q && *q;) {
    char* e;
    const long i = strtol(q, &e, 10);
    if (*e != ':' || i < 0 || i >= kMaxTrace) break;
    prefix[i] = static_cast<uint8_t>(strtol(e + 1, &e, 10));
    nprefix = static_cast<int>(i) + 1;
    while (*e && *e != ' ') ++e;
    while (*e == ' ') ++e;
    q = e;
  }
  int late_runs = 0;
  while (true) {
    if (cfg.max_schedules && st.schedules >= cfg.max_schedules) {
      st.complete = false;
      break;
    }
    shm->nprefix = nprefix;
    for (int i = 0; i < nprefix; ++i) shm->prefix[i] = prefix[i];
    shm->ntrace = 0;
    shm->status = 0;
    shm->out_len = 0;
    shm->kind[0] = shm->msg[0] = 0;
    shm->steps = shm->accesses = 0;
    shm->grew = 0;
    const pid_t p = fork();
    if (p == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      signal(SIGABRT, SIG_DFL);
      signal(SIGALRM, OnAlarm);
      alarm(30);
      try {
        body(arg);
      } catch (const std::exception& e) {
        Die(2, "exception", e.what());
      } catch (...) {
        Die(2, "exception", "an exception left the scenario");
      }
      if (shm->status == 0) shm->status = 1;
      _exit(0);
    }
    int ws = 0;
    while (waitpid(p, &ws, 0) < 0 && errno == EINTR) {}
    // A schedule that came to nothing within the time is run again: one that hangs does so every time,
    // while a busy machine may starve any.
    const bool late = WIFSIGNALED(ws) ? WTERMSIG(ws) == SIGALRM : shm->status == 2 && strcmp(shm->kind, "hang") == 0;
    if (late && late_runs++ < 2) continue;
    late_runs = 0;
    ++st.schedules;
    st.steps += shm->steps;
    st.accesses += shm->accesses;
    Run r{};
    r.out = shm->out;
    r.out_len = shm->out_len;
    if (WIFSIGNALED(ws)) {
      snprintf(shm->kind, sizeof shm->kind, WTERMSIG(ws) == SIGALRM ? "hang" : "crash: %s", strsignal(WTERMSIG(ws)));
      snprintf(shm->msg, sizeof shm->msg, "the process died: %s", strsignal(WTERMSIG(ws)));
      shm->status = 2;
    } else if (shm->status == 0) {
      snprintf(shm->kind, sizeof shm->kind, "crash: exit");
      snprintf(shm->msg, sizeof shm->msg, "the process exited early (status %d)", WEXITSTATUS(ws));
      shm->status = 2;
    }
    const int nt = shm->ntrace;
    st.choices += nt;
    if (nt > st.max_depth) st.max_depth = nt;
    if (shm->status >= 2) {
      r.fail = shm->kind;
      r.msg = shm->msg;
    }
    int q = 0;
    sbuf[0] = 0;
    if (r.fail || st.schedules % 64 == 1)
      for (int i = 0; i < nt && q < static_cast<int>(sizeof sbuf) - 16; ++i)
        if (shm->trace[i].chosen)
          q += snprintf(sbuf + q, sizeof sbuf - q, "%d:%d/%d ", i, shm->trace[i].chosen, shm->trace[i].n);
    r.schedule = sbuf;
    if (!on(on_arg, r)) {
      st.complete = false;
      break;
    }
    if (replay && !shm->grew) break;
    if (shm->grew && st.restarts < 200) {  // more locations are shared than was known: start over
      nprefix = replay ? nprefix : 0;
      ++st.restarts;
      continue;
    }
    // next schedule
    int i = nt - 1;
    int first = 0;  // position of the first deviation
    while (first < nt && shm->trace[first].chosen == 0) ++first;
    while (i >= 0 && (shm->trace[i].chosen + 1 >= shm->trace[i].n || (i < first && i % cfg.shards != cfg.shard))) --i;
    if (i < 0) break;
    for (int k = 0; k < i; ++k) prefix[k] = shm->trace[k].chosen;
    prefix[i] = static_cast<uint8_t>(shm->trace[i].chosen + 1);
    nprefix = i + 1;
  }
  st.shared = shm->nshared;
  return st;
}

}  // namespace sched

// ---------------------------------------------------------------- interposed: threads
namespace {
void* Tramp(void* p) {
  const int id = static_cast<int>(reinterpret_cast<intptr_t>(p));
  Sleep(id);
  pthread_setspecific(key, &thr[id]);
  off = 0;
  self = id;
  void* r = thr[id].fn(thr[id].arg);
  return r;  // thread_local destructors run, then ThreadFini
}
void ThreadFini(void* p) {
  if (self < 0) return;
  ++off;
  Thr* t = static_cast<Thr*>(p);
  t->st = FIN;
  ++t->vc.c[self];
  Step();
  Switch();
  self = -1;
}
}  // namespace

extern "C" {

void vf_cds_untracked(int on) { off += on ? 1 : -1; }
__attribute__((weak)) void vf_cds_misuse(const char* what) { Die(2, "container misuse", what); }

int pthread_create(pthread_t* th, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
  Resolve();
  if (!On()) return r_create(th, at, fn, arg);
  In in;
  if (nthr >= kMaxT) Die(3, "internal", "too many threads");
  const int id = nthr;
  Thr& t = thr[id];
  char* stk = static_cast<char*>(mmap(nullptr, kStack, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  t.stack_lo = reinterpret_cast<uint64_t>(stk);
  t.stack_hi = t.stack_lo + kStack;
  t.fn = fn;
  t.arg = arg;
  t.bump = arena0 + kArena * id;
  t.bump_end = t.bump + kArena;
  t.vc = thr[self].vc;
  ++thr[self].vc.c[self];
  t.vc.c[id] = 1;
  t.st = RUN;
  pthread_attr_t a;
  pthread_attr_init(&a);
  pthread_attr_setstack(&a, stk, kStack);
  const int r = r_create(&t.real, &a, Tramp, reinterpret_cast<void*>(static_cast<intptr_t>(id)));
  pthread_attr_destroy(&a);
  if (r) Die(3, "internal", "pthread_create failed");
  *th = t.real;
  ++nthr;
  return 0;
}
int pthread_join(pthread_t th, void** ret) {
  Resolve();
  if (!On()) return r_join(th, ret);
  In in;
  for (int i = 1; i < nthr; ++i)
    if (pthread_equal(thr[i].real, th)) {
      while (thr[i].st != FIN) Block(JOIN, i);
      Join(thr[self].vc, thr[i].vc);
      thr[i].real = 0;
      return r_join(th, ret);
    }
  return r_join(th, ret);
}
int pthread_detach(pthread_t th) {
  Resolve();
  return r_detach(th);
}
int pthread_mutex_lock(pthread_mutex_t* m) {
  Resolve();
  if (!On()) return r_mlock(m);
  In in;
  const uint64_t a = reinterpret_cast<uint64_t>(m);
  Access(a, 8, 2, reinterpret_cast<uint64_t>(__builtin_return_address(0)));
  Sync* s = Point(a, true);
  if (s->owner == self) {
    if ((m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) { ++s->depth; return 0; }
  }
  LockIt(a);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  Resolve();
  if (!On()) return r_mtry(m);
  In in;
  Sync* s = Point(reinterpret_cast<uint64_t>(m), true);
  if (s->owner == self && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) { ++s->depth; return 0; }
  if (s->owner >= 0) return EBUSY;
  LockIt(reinterpret_cast<uint64_t>(m));
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  Resolve();
  if (!On()) return r_munlock(m);
  In in;
  const uint64_t a = reinterpret_cast<uint64_t>(m);
  Access(a, 8, 2, reinterpret_cast<uint64_t>(__builtin_return_address(0)));
  Sync* s = GetSync(a);
  if (s->owner != self) Die(2, "mutex misuse", "a thread unlocks a mutex it does not hold");
  if (--s->depth > 0) return 0;
  UnlockIt(a);
  return 0;
}
static int CondWait(pthread_cond_t* c, pthread_mutex_t* m, bool timed) {
  In in;
  const uint64_t ca = reinterpret_cast<uint64_t>(c), ma = reinterpret_cast<uint64_t>(m);
  Access(ca, 8, 2, reinterpret_cast<uint64_t>(__builtin_return_address(0)));
  Point(ca, true);
  Sync* s = GetSync(ma);
  if (s->owner != self) Die(2, "mutex misuse", "a thread waits with a mutex it does not hold");
  UnlockIt(ma);
  Thr& t = thr[self];
  t.mtx = ma;
  t.timed = timed;
  t.wake = 0;
  t.st = COND;
  t.on = ca;
  Step();
  Switch();
  t.timed = false;
  t.st = RUN;
  LockIt(ma);
  return t.wake == 2 ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  Resolve();
  if (!On()) return r_cwait(c, m);
  return CondWait(c, m, false);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts) {
  Resolve();
  if (!On()) return r_ctimed(c, m, ts);
  return CondWait(c, m, true);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const timespec* ts) {
  Resolve();
  if (!On()) return r_ctimed(c, m, ts);
  return CondWait(c, m, true);
}
static void Notify(pthread_cond_t* c, bool all) {
  In in;
  const uint64_t ca = reinterpret_cast<uint64_t>(c);
  Access(ca, 8, 2, reinterpret_cast<uint64_t>(__builtin_return_address(0)));
  Point(ca, true);
  int w[kMaxT], n = 0;
  for (int i = 0; i < nthr; ++i)
    if (thr[i].st == COND && thr[i].on == ca) w[n++] = i;
  if (!n) return;
  if (all) {
    for (int i = 0; i < n; ++i) {
      thr[w[i]].st = MUTEX;
      thr[w[i]].on = thr[w[i]].mtx;
    }
    return;
  }
  const int k = w[Choose(n, 1)];
  thr[k].st = MUTEX;
  thr[k].on = thr[k].mtx;
}
int pthread_cond_signal(pthread_cond_t* c) {
  Resolve();
  if (!On()) return r_csig(c);
  Notify(c, false);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  Resolve();
  if (!On()) return r_cbc(c);
  Notify(c, true);
  return 0;
}
int pthread_once(pthread_once_t* o, void (*fn)()) {
  Resolve();
  if (!On()) {
    // may be called before or after: one-threaded
    if (*o == 2) return 0;
    *o = 1;
    struct R { pthread_once_t* o; bool ok; ~R() { *o = ok ? 2 : 0; } } r{o, false};
    fn();
    r.ok = true;
    return 0;
  }
  const uint64_t a = reinterpret_cast<uint64_t>(o);
  {
    In in;
    Sync* s = Point(a, true);
    while (*o != 2 && s->owner >= 0) Block(GUARD, a);
    if (*o == 2) { Acquire(s); return 0; }
    s->owner = static_cast<int8_t>(self);
  }
  struct R {
    pthread_once_t* o; uint64_t a; bool ok;
    ~R() { In in; Sync* s = GetSync(a); Release(s); *o = ok ? 2 : 0; s->owner = -1; }
  } r{o, a, false};
  fn();
  r.ok = true;
  return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) {
  Resolve();
  if (!On()) return r_rdlock(l);
  In in;
  const uint64_t a = reinterpret_cast<uint64_t>(l);
  Sync* s = Point(a, true);
  while (s->owner >= 0) Block(RWR, a);
  ++s->readers;
  Acquire(s);
  return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l) {
  Resolve();
  if (!On()) return r_wrlock(l);
  In in;
  const uint64_t a = reinterpret_cast<uint64_t>(l);
  Sync* s = Point(a, true);
  while (s->owner >= 0 || s->readers) Block(RWW, a);
  s->owner = static_cast<int8_t>(self);
  Acquire(s);
  Join(thr[self].vc, s->rd);
  return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
  Resolve();
  if (!On()) return r_rwunlock(l);
  In in;
  Sync* s = GetSync(reinterpret_cast<uint64_t>(l));
  if (s->owner == self) {
    Release(s);
    s->owner = -1;
  } else {
    Join(s->rd, thr[self].vc);
    ++thr[self].vc.c[self];
    --s->readers;
  }
  return 0;
}
static void Yield() {
  In in;
  thr[self].yielded = true;
  Step();
  if (shm->cfg.fair_spin && thr[self].seen_writes != writes) {
    thr[self].seen_writes = writes;  // something happened since: look again
    thr[self].yielded = false;
    return;
  }
  Switch();
  thr[self].yielded = false;
}
int sched_yield() {
  if (!On()) return static_cast<int>(Raw(SYS_sched_yield));
  Yield();
  return 0;
}
int nanosleep(const timespec* a, timespec* b) {
  Resolve();
  if (!On()) return r_nanosleep(a, b);
  Yield();
  return 0;
}
int clock_nanosleep(clockid_t c, int f, const timespec* a, timespec* b) {
  if (!On()) return static_cast<int>(-Raw(SYS_clock_nanosleep, c, f, reinterpret_cast<long>(a), reinterpret_cast<long>(b)));
  Yield();
  return 0;
}
int usleep(useconds_t u) {
  if (!On()) {
    timespec t{static_cast<time_t>(u / 1000000), static_cast<long>(u % 1000000) * 1000};
    Raw(SYS_nanosleep, reinterpret_cast<long>(&t), 0);
    return 0;
  }
  Yield();
  return 0;
}
long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a[6];
  for (long& x : a) x = va_arg(ap, long);
  va_end(ap);
  if (On() && n == SYS_futex) {
    In in;
    const int op = static_cast<int>(a[1]) & 127;
    const uint64_t addr = static_cast<uint64_t>(a[0]);
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      Point(addr, true);
      if (*reinterpret_cast<volatile int*>(addr) != static_cast<int>(a[2])) { errno = EAGAIN; return -1; }
      thr[self].timed = a[3] != 0;
      thr[self].wake = 0;
      Block(FUTEX, addr);
      thr[self].timed = false;
      if (thr[self].wake == 2) { errno = ETIMEDOUT; return -1; }
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
      Point(addr, true);
      int w[kMaxT], c = 0;
      for (int i = 0; i < nthr; ++i)
        if (thr[i].st == FUTEX && thr[i].on == addr) w[c++] = i;
      long woken = 0;
      while (c > 0 && woken < a[2]) {
        const int k = a[2] >= c ? 0 : Choose(c, 1);
        thr[w[k]].st = RUN;
        for (int i = k; i + 1 < c; ++i) w[i] = w[i + 1];
        --c;
        ++woken;
        if (a[2] > kMaxT) continue;
      }
      return woken;
    }
    Die(3, "internal", "futex operation not modelled");
  }
  const long r = Raw(n, a[0], a[1], a[2], a[3], a[4], a[5]);
  if (r < 0 && r > -4096) { errno = static_cast<int>(-r); return -1; }
  return r;
}

// ---------------------------------------------------------------- static initialisation
int __cxa_guard_acquire(uint64_t* g) {
  volatile char* b = reinterpret_cast<volatile char*>(g);
  if (!On()) {
    if (*b) return 0;
    return 1;
  }
  In in;
  const uint64_t a = reinterpret_cast<uint64_t>(g);
  Sync* s = Point(a, true);
  while (!*b && s->owner >= 0) {
    if (s->owner == self) Die(2, "recursive initialisation", "a static object is initialised recursively");
    Block(GUARD, a);
  }
  if (*b) {
    Acquire(s);
    return 0;
  }
  s->owner = static_cast<int8_t>(self);
  ++thr[self].guard_depth;
  return 1;
}
void __cxa_guard_release(uint64_t* g) {
  volatile char* b = reinterpret_cast<volatile char*>(g);
  if (!On()) { *b = 1; return; }
  In in;
  Sync* s = Point(reinterpret_cast<uint64_t>(g), true);
  *b = 1;
  Release(s);
  s->owner = -1;
  --thr[self].guard_depth;
}
void __cxa_guard_abort(uint64_t* g) {
  if (!On()) return;
  In in;
  Sync* s = GetSync(reinterpret_cast<uint64_t>(g));
  Release(s);
  s->owner = -1;
  --thr[self].guard_depth;
}

}  // extern "C"

// ---------------------------------------------------------------- heap
namespace {
struct Hdr {
  uint64_t size;
  uint32_t state;  // 0xA11C live, 0xDEAD released
  uint32_t exempt;
};
HOT void* Alloc(size_t n, bool nothrow) {
  if (!active || self < 0) {
    void* p = malloc(n ? n : 1);
    if (!p && !nothrow) throw std::bad_alloc();
    return p;
  }
  Thr& t = thr[self];
  const size_t sz = (n + 15) & ~15ul;
  if (t.bump + sz + 32 > t.bump_end) Die(3, "internal", "arena exhausted");
  Hdr* h = reinterpret_cast<Hdr*>(t.bump);
  t.bump += sz + 32;
  h->size = n;
  h->state = 0xA11C;
  for (uint64_t g = ArenaGran(reinterpret_cast<uint64_t>(h + 1)), e = g + ((n + 7) >> 3); g < e;) {
    if ((g & 63) == 0 && e - g >= 64) {
      valid[g >> 6] = ~0ull;
      g += 64;
    } else {
      valid[g >> 6] |= 1ull << (g & 63);
      ++g;
    }
  }
  h->exempt = t.guard_depth > 0 || off > 0;
  if (!h->exempt) ++live;
  return h + 1;
}
HOT void Free(void* p, uint64_t pc) {
  if (!p) return;
  const uint64_t a = reinterpret_cast<uint64_t>(p);
  const bool in_arena = arena0 && a >= reinterpret_cast<uint64_t>(arena0) &&
                        a < reinterpret_cast<uint64_t>(arena0) + kArena * kMaxT;
  if (!in_arena) {
    if (!active || self < 0) {
      if (!active) free(p);
      return;
    }
    const size_t n = malloc_usable_size(p);
    if (off == 0) {
      Access(a, n, 1, pc, true);
      void* q = p;
      size_t c = n;
      asm volatile("rep stosb" : "+D"(q), "+c"(c) : "a"(0xDB) : "memory");
    }
    return;
  }
  Hdr* h = static_cast<Hdr*>(p) - 1;
  if (h->state == 0xDEAD) {
    if (active && self >= 0) Uaf(a, 1, pc, true);
    return;
  }
  if (h->state != 0xA11C) {
    if (active && self >= 0) Die(2, "bad release", "an address that is not the start of a block was released");
    return;
  }
  if (active && self >= 0 && off == 0 && h->size) Access(a, h->size, 1, pc, true);
  h->state = 0xDEAD;
  if (!h->exempt) --live;
  if (active && h->size) {
    void* q = p;
    size_t c = h->size;
    asm volatile("rep stosb" : "+D"(q), "+c"(c) : "a"(0xDB) : "memory");
  }
}
}  // namespace
#define RA reinterpret_cast<uint64_t>(__builtin_return_address(0))
void* operator new(size_t n) { return Alloc(n, false); }
void* operator new[](size_t n) { return Alloc(n, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return Alloc(n, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return Alloc(n, true); }
void operator delete(void* p) noexcept { Free(p, RA); }
void operator delete[](void* p) noexcept { Free(p, RA); }
void operator delete(void* p, size_t) noexcept { Free(p, RA); }
void operator delete[](void* p, size_t) noexcept { Free(p, RA); }

// ---------------------------------------------------------------- instrumentation
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define ACC(name, n, k) \
  void name(void* p) { if (On()) Access(reinterpret_cast<uint64_t>(p), n, k, RA); }
ACC(__tsan_read1, 1, 0) ACC(__tsan_read2, 2, 0) ACC(__tsan_read4, 4, 0) ACC(__tsan_read8, 8, 0) ACC(__tsan_read16, 16, 0)
ACC(__tsan_write1, 1, 1) ACC(__tsan_write2, 2, 1) ACC(__tsan_write4, 4, 1) ACC(__tsan_write8, 8, 1) ACC(__tsan_write16, 16, 1)
ACC(__tsan_unaligned_read2, 2, 0) ACC(__tsan_unaligned_read4, 4, 0) ACC(__tsan_unaligned_read8, 8, 0) ACC(__tsan_unaligned_read16, 16, 0)
ACC(__tsan_unaligned_write2, 2, 1) ACC(__tsan_unaligned_write4, 4, 1) ACC(__tsan_unaligned_write8, 8, 1) ACC(__tsan_unaligned_write16, 16, 1)
ACC(__tsan_volatile_read1, 1, 0) ACC(__tsan_volatile_read2, 2, 0) ACC(__tsan_volatile_read4, 4, 0) ACC(__tsan_volatile_read8, 8, 0) ACC(__tsan_volatile_read16, 16, 0)
ACC(__tsan_volatile_write1, 1, 1) ACC(__tsan_volatile_write2, 2, 1) ACC(__tsan_volatile_write4, 4, 1) ACC(__tsan_volatile_write8, 8, 1) ACC(__tsan_volatile_write16, 16, 1)
void __tsan_read_range(void* p, size_t n) { if (n && On()) Access(reinterpret_cast<uint64_t>(p), n, 0, RA); }
void __tsan_write_range(void* p, size_t n) { if (n && On()) Access(reinterpret_cast<uint64_t>(p), n, 1, RA); }
void __tsan_vptr_update(void** p, void* v) { if (On() && *p != v) Access(reinterpret_cast<uint64_t>(p), 8, 1, RA); }
void __tsan_vptr_read(void** p) { if (On()) Access(reinterpret_cast<uint64_t>(p), 8, 0, RA); }

#define FENCE_BODY(mo)                                                    \
  if (On()) {                                                             \
    In in;                                                                \
    Thr& t = thr[self];                                                   \
    if (IsAcq(mo)) Join(t.vc, t.acq_pending);                             \
    if (IsRel(mo)) { t.rel_fence = t.vc; t.has_rel_fence = true; ++t.vc.c[self]; } \
  }
void __tsan_atomic_thread_fence(int mo) { FENCE_BODY(mo) __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}

#define PRE(p, k, wr) PRE_(p, k, wr, Point)
#define PRE_(p, k, wr, P)                                                          \
  Sync* s = nullptr;                                                           \
  const bool on = On();                                                        \
  if (on) {                                                                    \
    ++off;                                                                     \
    s = P(reinterpret_cast<uint64_t>(p), wr);                              \
    Access(reinterpret_cast<uint64_t>(p), sizeof(*p), k, RA);                  \
  }
#define POST if (on) --off;
#define ATOMICS(N, T)                                                                      \
  T __tsan_atomic##N##_load(const volatile T* p, int mo) {                                 \
    PRE(p, 2, false)                                                                       \
    const T r = *p;                                                                        \
    if (on) AtomicLoad(s, mo);                                                             \
    POST return r;                                                                         \
  }                                                                                        \
  void __tsan_atomic##N##_store(volatile T* p, T v, int mo) {                              \
    PRE(p, 3, true)                                                                        \
    if (on) AtomicStore(s, mo, false);                                                     \
    *p = v;                                                                                \
    POST                                                                                   \
  }                                                                                        \
  T __tsan_atomic##N##_exchange(volatile T* p, T v, int mo) {                              \
    PRE(p, 3, true)                                                                        \
    const T r = *p;                                                                        \
    if (on) { AtomicLoad(s, mo); AtomicStore(s, mo, true); }                               \
    *p = v;                                                                                \
    POST return r;                                                                         \
  }                                                                                        \
  int __tsan_atomic##N##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int fmo) { \
    PRE(p, 3, true)                                                                        \
    const T r = *p;                                                                        \
    const bool ok = r == *e;                                                               \
    if (ok) {                                                                              \
      if (on) { AtomicLoad(s, mo); AtomicStore(s, mo, true); }                             \
      *p = v;                                                                              \
    } else {                                                                               \
      if (on) AtomicLoad(s, fmo);                                                          \
      *e = r;                                                                              \
    }                                                                                      \
    POST return ok;                                                                        \
  }                                                                                        \
  int __tsan_atomic##N##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int fmo) { \
    return __tsan_atomic##N##_compare_exchange_strong(p, e, v, mo, fmo);                   \
  }                                                                                        \
  T __tsan_atomic##N##_compare_exchange_val(volatile T* p, T e, T v, int mo, int fmo) {    \
    __tsan_atomic##N##_compare_exchange_strong(p, &e, v, mo, fmo);                         \
    return e;                                                                              \
  }
#define RMW(N, T, nm, expr)                                    \
  T __tsan_atomic##N##_fetch_##nm(volatile T* p, T v, int mo) { \
    PRE_(p, 3, true, Count)                                            \
    const T r = *p;                                            \
    if (on) { AtomicLoad(s, mo); AtomicStore(s, mo, true); }   \
    *p = expr;                                                 \
    POST return r;                                             \
  }
#define ALL(N, T)                                                                         \
  ATOMICS(N, T)                                                                           \
  RMW(N, T, add, r + v) RMW(N, T, sub, r - v) RMW(N, T, and, r & v) RMW(N, T, or, r | v)  \
  RMW(N, T, xor, r ^ v) RMW(N, T, nand, ~(r & v))
ALL(8, uint8_t)
ALL(16, uint16_t)
ALL(32, uint32_t)
ALL(64, uint64_t)
typedef unsigned __int128 u128;
ALL(128, u128)

// Bulk memory functions: the compiler leaves their accesses to the runtime.
void* memcpy(void* d, const void* s, size_t n) {
  if (n && On()) {
    Access(reinterpret_cast<uint64_t>(s), n, 0, RA);
    Access(reinterpret_cast<uint64_t>(d), n, 1, RA);
  }
  void* r = d;
  asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
  return r;
}
void* memmove(void* d, const void* s, size_t n) {
  if (n && On()) {
    Access(reinterpret_cast<uint64_t>(s), n, 0, RA);
    Access(reinterpret_cast<uint64_t>(d), n, 1, RA);
  }
  char* a = static_cast<char*>(d);
  const char* b = static_cast<const char*>(s);
  if (a <= b || a >= b + n) {
    void* dd = d;
    asm volatile("rep movsb" : "+D"(dd), "+S"(s), "+c"(n) : : "memory");
  } else {
    void* dd = a + n - 1;
    const void* ss = b + n - 1;
    asm volatile("std\n rep movsb\n cld" : "+D"(dd), "+S"(ss), "+c"(n) : : "memory");
  }
  return d;
}
void* memset(void* d, int c, size_t n) {
  if (n && On()) Access(reinterpret_cast<uint64_t>(d), n, 1, RA);
  void* dd = d;
  asm volatile("rep stosb" : "+D"(dd), "+c"(n) : "a"(c) : "memory");
  return d;
}
}  // extern "C"
