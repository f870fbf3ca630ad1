// Controlled-execution runtime.
//
// The library and the scenarios are compiled with -fsanitize=thread, but linked with THIS runtime instead of libtsan.
// Every atomic operation (__tsan_atomic*), every pthread mutex/condition variable/thread operation and every clock
// read of the real, unmodified production code therefore calls into this file, which
//   * runs "threads" as fibers on one OS thread and decides at every such operation which fiber goes next
//     (systematically, depth-first with a preemption bound, or randomly from a seed, or replaying a schedule),
//   * injects spurious weak-CAS failures, spurious wake-ups and timeouts as further choices,
//   * sees every plain access (__tsan_read/write*), maintains C++11 happens-before with vector clocks from the real
//     memory orders, and reports data races, use after free and dead-stack accesses,
//   * counts and quarantines heap blocks (operator new/delete),
//   * records the log of client-visible events; distinct logs are written out for validation by TLC.
#include "rt.hpp"

#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <link.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <map>
#include <new>
#include <random>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace {

// ---------------------------------------------------------------- allocator for the runtime itself (malloc, untracked)
template <typename T>
struct MA {
  using value_type = T;
  MA() = default;
  template <typename U>
  MA(const MA<U>&) {
  }
  T* allocate(size_t n) {
    return static_cast<T*>(malloc(n * sizeof(T)));
  }
  void deallocate(T* p, size_t) {
    free(p);
  }
  bool operator==(const MA&) const {
    return true;
  }
  bool operator!=(const MA&) const {
    return false;
  }
};
template <typename T>
using Vec = std::vector<T, MA<T>>;
using Str = std::basic_string<char, std::char_traits<char>, MA<char>>;
template <typename K, typename V>
using UMap = std::unordered_map<K, V, std::hash<K>, std::equal_to<K>, MA<std::pair<const K, V>>>;

constexpr int NT = 12;
constexpr size_t kHeap = 16u << 20;
constexpr size_t kStack = 256u << 10;
constexpr size_t kStackFill = 8u << 10;
constexpr size_t kRegion = kHeap + NT * kStack;

struct VC {
  uint32_t c[NT];
  void Clear() {
    memset(c, 0, sizeof c);
  }
  void Join(const VC& o) {
    for (int i = 0; i < NT; ++i) {
      if (o.c[i] > c[i]) {
        c[i] = o.c[i];
      }
    }
  }
};

struct Cell {
  uint32_t ver;
  uint8_t st;  // heap: 0 unallocated 1 live 2 freed
  uint8_t wtid;
  uint16_t hist;  // an atomic object with a history starts here (option --stale)
  uint32_t w;
  uint16_t r[NT];
  uint16_t a[NT];   // atomic writes
  uint16_t al[NT];  // atomic loads
};

enum FState : uint8_t { kFree, kRun, kBlocked, kSpin, kDone };
enum BKind : uint8_t { bNone, bQueue, bMutex, bCond, bJoin, bFlag, bSleep, bFutex, bRw, bGuard };

struct Fiber {
  void* sp;
  char* stack;
  FState st;
  BKind bk;
  uintptr_t obj;
  long deadline;  // -1 none
  bool timed_out, spurious, notified;
  VC vc, acq, rel;
  void* eh[2];
  char* tls;
  void* (*fn)(void*);
  void* arg;
  void* ret;
  bool detached;
  // spin detection
  uintptr_t last_addr;
  uint64_t last_val;
  int same;
  uintptr_t watch;
  long allocs;
  long blocks;
  int slot[8];
};

struct SyncVar {
  VC vc;
};
// the last values of an atomic object, oldest first; first[t]: when thread t first read or wrote this value or a later one
struct Msg {
  uint64_t val;
  VC vc;
  uint32_t first[NT];
};
struct Hist {
  int n = 0;
  Msg m[4];
};
struct Mtx {
  int owner = -1;
  int depth = 0;
  VC vc;
};
struct Rw {
  int w = -1;
  int readers = 0;
  VC vc;
};

struct HBlock {
  uintptr_t addr;
  size_t size;
  int tid;
  bool freed;
  bool quiet;
};

char* g_region;
Cell* g_shadow;
uint32_t g_ver = 0;
size_t g_bump = 0;
Fiber F[NT];
int g_nf = 0;
int g_cur = 0;
bool g_on = false;  // an execution is in progress (client code running)
int g_quiet = 0;
long g_now = 0;
long g_steps = 0, g_step_limit = 20000;
void* g_sched_sp = nullptr;

UMap<uintptr_t, SyncVar>* g_sync;
UMap<uintptr_t, Hist>* g_hist;
UMap<uintptr_t, Mtx>* g_mtx;
UMap<uintptr_t, Rw>* g_rw;
UMap<uintptr_t, VC>* g_guardvc;
struct FlagS {
  bool set;
  VC vc;
};
FlagS g_flags[64];
struct QItem {
  void* p;
  VC vc;
  uintptr_t key;
};
struct QueueS {
  Vec<QItem>* items;
  bool closed;
};
QueueS g_queues[16];
uintptr_t g_qkey = 0;
int g_vars[512];
UMap<uintptr_t, Cell>* g_gshadow;
Vec<HBlock>* g_blocks;
uint32_t* g_blkidx;  // per 16 byte granule, index+1
std::unordered_map<uintptr_t, int, std::hash<uintptr_t>, std::equal_to<uintptr_t>,
                   MA<std::pair<const uintptr_t, int>>>* g_objs;
long g_objlive[64];
long g_nalloc = 0, g_nlive = 0;
Str* g_log;
Str* g_diag;
int g_races = 0, g_uaf = 0, g_objbad = 0;
bool o_mem = true;
bool o_memtrace = false;
bool o_lifetrace = false;
bool o_spurious_cv = false;
int o_weak = 1;  // budget of spurious weak CAS failures
int o_stale = 0;  // budget of atomic loads which return an older value the memory model allows
int g_stale_used = 0;
bool o_notimeout = false;

struct MemOp {
  uint8_t kind;  // 0 read 1 write 2 atomic load 3 atomic store 4 rmw 5 fence 6 free 7 hb-acq(obj) 8 hb-rel(obj) 9 alloc
                 // option --lifetrace: 10 object made 11 object destroyed 12 dead block touched 13 bad free 14 dead object used
  uint8_t tid;
  uint8_t order;
  uint8_t size;  // atomic load: how many values back the value it returned is
  uintptr_t addr;
};
Vec<MemOp>* g_mem;

[[noreturn]] void Die(const char* m) {
  dprintf(2, "rt: %s\n", m);
  _exit(4);
}

// ---------------------------------------------------------------- context switch
extern "C" void rt_switch(void** from, void* to);
asm(R"(
.text
.globl rt_switch
.type rt_switch,@function
rt_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size rt_switch,.-rt_switch
)");

char* g_tls_addr = nullptr;
size_t g_tls_size = 0;
char* g_tls_init = nullptr;
uintptr_t g_static_lo, g_static_hi;

int PhdrCb(struct dl_phdr_info* info, size_t, void*) {
  for (int i = 0; i < info->dlpi_phnum; ++i) {
    if (info->dlpi_phdr[i].p_type == PT_TLS && info->dlpi_tls_data) {
      g_tls_addr = static_cast<char*>(info->dlpi_tls_data);
      g_tls_size = info->dlpi_phdr[i].p_memsz;
    }
    if (info->dlpi_phdr[i].p_type == PT_LOAD && (info->dlpi_phdr[i].p_flags & PF_W)) {
      g_static_lo = info->dlpi_addr + info->dlpi_phdr[i].p_vaddr;
      g_static_hi = g_static_lo + info->dlpi_phdr[i].p_memsz;
    }
  }
  return 1;  // main program only
}

void SaveTls(Fiber& f) {
  if (g_tls_size) {
    memcpy(f.tls, g_tls_addr, g_tls_size);
  }
  memcpy(f.eh, abi::__cxa_get_globals(), 16);
}
void LoadTls(Fiber& f) {
  if (g_tls_size) {
    memcpy(g_tls_addr, f.tls, g_tls_size);
  }
  memcpy(static_cast<void*>(abi::__cxa_get_globals()), f.eh, 16);
}

// ---------------------------------------------------------------- chooser
struct ChoiceRec {
  uint8_t n, idx;
  uint16_t used_before;
  uint8_t cost[NT * 2 + 4];
};
Vec<ChoiceRec>* g_stack;
size_t g_pos = 0;
int g_used = 0, g_weak_used = 0, g_spur_used = 0;
int g_bound = 2;
enum Mode { mDfs, mRand, mReplay } g_mode = mDfs;
uint64_t g_rng;
double g_q = 0.8;
Vec<std::pair<int, int>>* g_replay;  // (pos, idx)

uint64_t Rnd() {
  g_rng ^= g_rng << 13;
  g_rng ^= g_rng >> 7;
  g_rng ^= g_rng << 17;
  return g_rng * 0x2545F4914F6CDD1Dull;
}
double RndU() {
  return double(Rnd() >> 11) / double(1ull << 53);
}

int Pick(int n, const uint8_t* cost) {
  if (n <= 1) {
    return 0;
  }
  size_t pos = g_pos++;
  int idx = 0;
  if (g_mode == mDfs) {
    if (pos < g_stack->size()) {
      ChoiceRec& r = (*g_stack)[pos];
      if (r.n != n) {
        dprintf(2, "rt: nondeterministic replay at choice %zu: %d vs %d options\n", pos, r.n, n);
        Die("nondeterminism");
      }
      idx = r.idx;
    } else {
      ChoiceRec r;
      r.n = n;
      r.idx = 0;
      r.used_before = g_used;
      memcpy(r.cost, cost, n);
      // the cheapest option first
      while (r.idx < n && r.cost[r.idx] + g_used > g_bound && r.cost[r.idx] > 0) {
        ++r.idx;
      }
      if (r.idx == n) {
        r.idx = 0;
      }
      idx = r.idx;
      g_stack->push_back(r);
    }
  } else if (g_mode == mRand) {
    int zero = 0;
    for (int i = 0; i < n; ++i) {
      zero += cost[i] == 0;
    }
    if (zero == 0) {
      idx = Rnd() % n;
    } else if (zero < n && RndU() > g_q) {
      do {
        idx = Rnd() % n;
      } while (cost[idx] == 0);
    } else {
      do {
        idx = Rnd() % n;
      } while (cost[idx] != 0);
    }
    ChoiceRec r;
    r.n = n;
    r.idx = idx;
    r.used_before = g_used;
    g_stack->push_back(r);
  } else {
    for (auto& [p, i] : *g_replay) {
      if (size_t(p) == pos) {
        idx = i;
      }
    }
    if (idx >= n) {
      idx = 0;
    }
    ChoiceRec r;
    r.n = n;
    r.idx = idx;
    g_stack->push_back(r);
  }
  g_used += cost[idx];
  return idx;
}

Str Schedule() {
  Str s;
  char b[32];
  for (size_t i = 0; i < g_stack->size() && i < g_pos; ++i) {
    if ((*g_stack)[i].idx) {
      snprintf(b, sizeof b, "%s%zu:%d", s.empty() ? "" : ",", i, (*g_stack)[i].idx);
      s += b;
    }
  }
  return s.empty() ? Str("-") : s;
}

bool NextDfs() {
  while (!g_stack->empty()) {
    ChoiceRec& r = g_stack->back();
    int j = r.idx + 1;
    while (j < r.n && r.used_before + r.cost[j] > g_bound) {
      ++j;
    }
    if (j < r.n) {
      r.idx = j;
      return true;
    }
    g_stack->pop_back();
  }
  return false;
}

// ---------------------------------------------------------------- log
void LogRaw(const char* name, int tid, const int* a, int n) {
  char b[160];
  int k = snprintf(b, sizeof b, "%s%s|%d", g_log->empty() ? "" : " ", name, tid);
  for (int i = 0; i < n; ++i) {
    k += snprintf(b + k, sizeof b - k, "|%d", a[i]);
  }
  g_log->append(b, k);
}

void Diag(const char* fmt, ...) {
  if (g_diag->size() > 4000) {
    return;
  }
  char b[512];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  *g_diag += b;
  *g_diag += "; ";
}

// ---------------------------------------------------------------- scheduling
void ExitToMain() {
  void* dummy;
  rt_switch(&dummy, g_sched_sp);
}

void SwitchTo(int t) {
  if (t == g_cur) {
    return;
  }
  int o = g_cur;
  SaveTls(F[o]);
  LoadTls(F[t]);
  g_cur = t;
  rt_switch(&F[o].sp, F[t].sp);
}

int g_stuck = 0, g_ended = 0;
bool g_livelock = false;

[[noreturn]] void EndExecution() {
  ExitToMain();
  __builtin_unreachable();
}

// select and switch to the next fiber. `yield`: prefer another one
void Reschedule(bool cur_can_run, bool yield) {
  if (++g_steps > g_step_limit) {
    g_livelock = true;
    EndExecution();
  }
  int opt[NT * 3];
  uint8_t cost[NT * 3];
  uint8_t kind[NT * 3];
  int n = 0;
  auto add = [&](int t, int c, int k) {
    opt[n] = t;
    cost[n] = c;
    kind[n] = k;
    ++n;
  };
  bool self = cur_can_run && !yield;
  if (self) {
    add(g_cur, 0, 0);
  }
  int runnable = self;
  for (int i = 0; i < g_nf; ++i) {
    if (i != g_cur && F[i].st == kRun) {
      add(i, self ? 1 : 0, 0);
      ++runnable;
    }
  }
  if (cur_can_run && yield && runnable == 0) {
    add(g_cur, 0, 0);
    ++runnable;
  }
  if (runnable == 0) {
    // wake the spinners
    bool any = false;
    for (int i = 0; i < g_nf; ++i) {
      if (F[i].st == kSpin) {
        F[i].st = kRun;
        F[i].same = 0;
        add(i, 0, 0);
        any = true;
      }
    }
    if (any) {
      // spinners that nobody can release: a step limit ends this
      g_steps += 200;
      runnable = n;
    }
  }
  for (int i = 0; i < g_nf; ++i) {
    if (F[i].st == kBlocked && F[i].deadline >= 0 && !o_notimeout) {
      add(i, runnable ? 1 : 0, 1);
    }
    if (o_spurious_cv && F[i].st == kBlocked && F[i].bk == bCond && g_spur_used < 1 && runnable) {
      add(i, 1, 2);
    }
  }
  if (n == 0) {
    for (int i = 0; i < g_nf; ++i) {
      if (F[i].st == kBlocked || F[i].st == kSpin) {
        ++g_stuck;
      }
    }
    EndExecution();
  }
  int k = Pick(n, cost);
  int t = opt[k];
  if (kind[k] == 1) {
    F[t].timed_out = true;
    if (F[t].deadline > g_now) {
      g_now = F[t].deadline;
    }
    F[t].st = kRun;
  } else if (kind[k] == 2) {
    ++g_spur_used;
    F[t].spurious = true;
    F[t].st = kRun;
  }
  SwitchTo(t);
}

inline void SchedPoint() {
  if (!g_on || g_nf <= 1) {
    return;
  }
  Reschedule(true, false);
}

void Block(BKind bk, uintptr_t obj, long deadline = -1) {
  Fiber& f = F[g_cur];
  ++f.blocks;
  f.st = kBlocked;
  f.bk = bk;
  f.obj = obj;
  f.deadline = deadline;
  f.timed_out = f.spurious = f.notified = false;
  Reschedule(false, false);
  f.bk = bNone;
  f.deadline = -1;
}

void WakeAll(BKind bk, uintptr_t obj) {
  for (int i = 0; i < g_nf; ++i) {
    if (F[i].st == kBlocked && F[i].bk == bk && F[i].obj == obj) {
      F[i].st = kRun;
    }
  }
}

void WakeSpin(uintptr_t addr) {
  for (int i = 0; i < g_nf; ++i) {
    if (F[i].st == kSpin && F[i].watch == addr) {
      F[i].st = kRun;
      F[i].same = 0;
    }
  }
}

// ---------------------------------------------------------------- memory
inline bool InRegion(uintptr_t a) {
  return a >= uintptr_t(g_region) && a < uintptr_t(g_region) + kRegion;
}

const char* Where(uintptr_t pc) {
  static char b[64];
  snprintf(b, sizeof b, "pc=0x%lx", (unsigned long)pc);
  return b;
}

inline Cell* GetCell(uintptr_t a) {
  Cell* c;
  if (InRegion(a)) {
    c = &g_shadow[a - uintptr_t(g_region)];
  } else if (a >= g_static_lo && a < g_static_hi) {
    c = &(*g_gshadow)[a];
  } else {
    return nullptr;
  }
  if (c->ver != g_ver) {
    memset(c, 0, sizeof *c);
    c->ver = g_ver;
  }
  return c;
}

uintptr_t g_exe_base;

enum AK { aRead, aWrite, aAtomicR, aAtomicW };

inline void Life(int kind, uintptr_t addr, int what) {
  if (o_lifetrace) {
    g_mem->push_back(MemOp{uint8_t(kind), uint8_t(g_cur), uint8_t(what), 0, addr});
  }
}

void Access(uintptr_t addr, size_t size, AK k, uintptr_t pc) {
  bool region = InRegion(addr);
  if (!region && !(addr >= g_static_lo && addr < g_static_hi)) {
    return;
  }
  Fiber& f = F[g_cur];
  bool heap = region && addr - uintptr_t(g_region) < kHeap;
  if (region && !heap) {
    // some fiber's stack
    int s = int((addr - uintptr_t(g_region) - kHeap) / kStack);
    if (s != g_cur) {
      if (s >= g_nf || F[s].st == kDone || addr < uintptr_t(F[s].sp)) {
        ++g_uaf;
        Diag("dead stack access %s", Where(pc - g_exe_base));
        return;
      }
    }
  }
  bool reported = false;
  for (size_t i = 0; i < size; ++i) {
    Cell* c = GetCell(addr + i);
    if (!c) {
      return;
    }
    if (heap && c->st != 1) {
      if (!reported) {
        ++g_uaf;
        Life(12, addr, 0);
        Diag("%s %s", c->st == 2 ? "use after free" : "wild access", Where(pc - g_exe_base));
        reported = true;
      }
      return;
    }
    if (!o_mem) {
      return;
    }
    bool race = false;
    if (k == aRead || k == aWrite) {
      if (c->w > f.vc.c[c->wtid]) {
        race = true;
      }
      for (int t = 0; t < g_nf; ++t) {
        // atomic accesses (writes conflict with plain reads; any conflicts with plain writes)
        if (c->a[t] > f.vc.c[t]) {
          race = true;
        }
        if (k == aWrite && (c->r[t] > f.vc.c[t] || c->al[t] > f.vc.c[t])) {
          race = true;
        }
      }
      if (k == aRead) {
        c->r[g_cur] = f.vc.c[g_cur];
      } else {
        c->w = f.vc.c[g_cur];
        c->wtid = g_cur;
        if (c->hist) {
          c->hist = 0;
          g_hist->erase(addr + i);
        }
      }
    } else {
      if (c->w > f.vc.c[c->wtid]) {
        race = true;
      }
      if (k == aAtomicW) {
        for (int t = 0; t < g_nf; ++t) {
          if (c->r[t] > f.vc.c[t]) {
            race = true;
          }
        }
        c->a[g_cur] = f.vc.c[g_cur];
      }
      // atomic loads conflict with plain writes only
      if (k == aAtomicR) {
        c->al[g_cur] = f.vc.c[g_cur];
      }
    }
    if (race && !reported) {
      reported = true;
      ++g_races;
      Diag("race %s kind=%d %s", heap ? "heap" : (region ? "stack" : "static"), int(k), Where(pc - g_exe_base));
    }
  }
}

inline void Trace(int kind, uintptr_t addr, size_t size, int order) {
  if (o_memtrace) {
    g_mem->push_back(MemOp{uint8_t(kind), uint8_t(g_cur), uint8_t(order), uint8_t(size), addr});
  }
}

inline void Plain(void* p, size_t size, bool w, void* pc) {
  if (!g_on || g_quiet) {
    return;
  }
  Trace(w ? 1 : 0, uintptr_t(p), size, 0);
  Access(uintptr_t(p), size, w ? aWrite : aRead, uintptr_t(pc));
}

bool IsAcq(int o) {
  return o == __ATOMIC_ACQUIRE || o == __ATOMIC_CONSUME || o == __ATOMIC_ACQ_REL || o == __ATOMIC_SEQ_CST;
}
bool IsRel(int o) {
  return o == __ATOMIC_RELEASE || o == __ATOMIC_ACQ_REL || o == __ATOMIC_SEQ_CST;
}

void Tick(Fiber& f) {
  ++f.vc.c[&f - F];
}

void HbAcquire(VC& v) {
  F[g_cur].vc.Join(v);
}
void HbRelease(VC& v) {
  v.Join(F[g_cur].vc);
  Tick(F[g_cur]);
}

// before an atomic op on addr
inline void AtomicPoint(uintptr_t addr, size_t size) {
  if (size == 1 && addr >= g_static_lo && addr < g_static_hi) {
    return;  // static initialization guard
  }
  SchedPoint();
}

void Spin(uintptr_t addr, uint64_t val, bool changed) {
  Fiber& f = F[g_cur];
  if (changed) {
    f.same = 0;
    WakeSpin(addr);
    return;
  }
  if (f.last_addr == addr && f.last_val == val) {
    if (++f.same >= 6 && g_nf > 1) {
      f.st = kSpin;
      f.watch = addr;
      f.same = 3;
      Reschedule(false, false);
    }
  } else {
    f.last_addr = addr;
    f.last_val = val;
    f.same = 0;
  }
}

// the value an atomic write leaves; called after it, with the value before it
void HistPush(uintptr_t addr, uint64_t before, uint64_t val, int order) {
  if (!o_stale) {
    return;
  }
  Cell* c = GetCell(addr);
  if (!c) {
    return;
  }
  Fiber& f = F[g_cur];
  uint32_t now = f.vc.c[g_cur] - IsRel(order);
  Hist& h = (*g_hist)[addr];
  if (!c->hist || h.n == 0 || h.m[h.n - 1].val != before) {
    h.n = 1;
    h.m[0].val = before;
    h.m[0].vc.Clear();
    memset(h.m[0].first, 0, sizeof h.m[0].first);
    c->hist = 1;
  }
  if (h.n == 4) {
    memmove(&h.m[0], &h.m[1], 3 * sizeof(Msg));
    h.n = 3;
  }
  Msg& m = h.m[h.n++];
  m.val = val;
  m.vc = (*g_sync)[addr].vc;
  memset(m.first, 0, sizeof m.first);
  for (int i = 0; i < h.n; ++i) {
    if (!h.m[i].first[g_cur]) {
      h.m[i].first[g_cur] = now;
    }
  }
}

// chooses the value an atomic load returns: nullptr - the current one. A compare-exchange which fails is such a load, of a
// value different from the expected one (no); if the current value is the expected one (hit), it need not fail
Msg* Older(uintptr_t addr, uint64_t val, int order, int* back, const uint64_t* no, bool hit) {
  if (!o_stale) {
    return nullptr;
  }
  auto it = g_hist->find(addr);
  if (it == g_hist->end()) {
    return nullptr;
  }
  Hist& h = it->second;
  if (h.n == 0 || h.m[h.n - 1].val != val) {
    h.n = 0;
    return nullptr;
  }
  Fiber& f = F[g_cur];
  int opt[4] = {0}, n = 1;
  if (order != __ATOMIC_SEQ_CST && g_stale_used < o_stale) {
    for (int lo = h.n - 1; lo > 0; --lo) {
      bool hidden = false;
      for (int t = 0; t < g_nf; ++t) {
        hidden |= h.m[lo].first[t] && h.m[lo].first[t] <= f.vc.c[t];
      }
      if (hidden) {
        break;
      }
      if (!no || h.m[lo - 1].val != *no) {
        opt[n++] = h.n - lo;
      }
    }
  }
  const uint8_t cost[4] = {0, 1, 1, 1};
  *back = opt[Pick(n, cost)];
  g_stale_used += *back != 0;
  if (hit && *back == 0) {
    return nullptr;
  }
  int k = h.n - 1 - *back;
  for (int i = 0; i <= k; ++i) {
    if (!h.m[i].first[g_cur]) {
      h.m[i].first[g_cur] = f.vc.c[g_cur];
    }
  }
  return *back ? &h.m[k] : nullptr;
}

// hit: only a load of an older value; returns val if it does not happen
uint64_t AtLoad(uintptr_t addr, size_t size, int order, uintptr_t pc, uint64_t val, const uint64_t* no = nullptr,
                bool hit = false) {
  int back = 0;
  Msg* old = Older(addr, val, order, &back, no, hit);
  if (hit && !old) {
    return val;
  }
  Trace(2, addr, back, order);
  Access(addr, size, aAtomicR, pc);
  if (old) {
    if (IsAcq(order)) {
      F[g_cur].vc.Join(old->vc);
    } else {
      F[g_cur].acq.Join(old->vc);
    }
    return old->val;
  }
  auto it = g_sync->find(addr);
  if (it != g_sync->end()) {
    if (IsAcq(order)) {
      F[g_cur].vc.Join(it->second.vc);
    } else {
      F[g_cur].acq.Join(it->second.vc);
    }
  }
  return val;
}
void AtStore(uintptr_t addr, size_t size, int order, uintptr_t pc) {
  Trace(3, addr, size, order);
  Access(addr, size, aAtomicW, pc);
  Fiber& f = F[g_cur];
  SyncVar& s = (*g_sync)[addr];
  if (IsRel(order)) {
    s.vc = f.vc;
    Tick(f);
  } else {
    s.vc = f.rel;
  }
}
void AtRmw(uintptr_t addr, size_t size, int order, uintptr_t pc) {
  Trace(4, addr, size, order);
  Access(addr, size, aAtomicW, pc);
  Fiber& f = F[g_cur];
  auto [it, fresh] = g_sync->try_emplace(addr);
  SyncVar& s = it->second;
  if (fresh) {
    s.vc.Clear();
  }
  if (IsAcq(order)) {
    f.vc.Join(s.vc);
  } else {
    f.acq.Join(s.vc);
  }
  if (IsRel(order)) {
    s.vc.Join(f.vc);
    Tick(f);
  } else {
    s.vc.Join(f.rel);
  }
}

// ---------------------------------------------------------------- heap
void* HeapAlloc(size_t size, size_t align) {
  if (!g_on) {
    void* p = align > 16 ? aligned_alloc(align, (size + align - 1) / align * align) : malloc(size ? size : 1);
    return p;
  }
  if (align < 16) {
    align = 16;
  }
  size_t a = (g_bump + 16 + align - 1) / align * align;
  size_t rs = (size + 15) / 16 * 16;
  if (a + rs + 16 > kHeap) {
    Die("arena exhausted");
  }
  g_bump = a + rs;
  char* p = g_region + a;
  uint32_t idx = uint32_t(g_blocks->size());
  g_blocks->push_back(HBlock{uintptr_t(p), size, g_cur, false, g_quiet != 0});
  g_blkidx[a / 16] = idx + 1;
  if (!g_quiet) {
    ++g_nalloc;
    ++g_nlive;
    ++F[g_cur].allocs;
  }
  for (size_t i = 0; i < size; ++i) {
    Cell* c = GetCell(uintptr_t(p) + i);
    c->st = 1;
    // the allocation is ordered before everything its owner does later: a conflicting unordered access is a race
    c->w = F[g_cur].vc.c[g_cur];
    c->wtid = g_cur;
  }
  Trace(9, uintptr_t(p), 0, 0);
  if (!g_quiet) {
    Life(9, uintptr_t(p), 0);
  }
  // fresh memory has a fixed, useless content: reads of uninitialised memory are reproducible
  memset(p, 0xA5, rs);
  return p;
}

void HeapFree(void* p, uintptr_t pc) {
  if (!p) {
    return;
  }
  uintptr_t a = uintptr_t(p);
  if (!InRegion(a)) {
    free(p);
    return;
  }
  if (!g_on) {
    return;  // abandoned execution
  }
  uint32_t idx = g_blkidx[(a - uintptr_t(g_region)) / 16];
  if (!idx || (*g_blocks)[idx - 1].addr != a) {
    ++g_uaf;
    Life(13, a, 0);
    Diag("bad free %s", Where(pc - g_exe_base));
    return;
  }
  HBlock& b = (*g_blocks)[idx - 1];
  if (b.freed) {
    ++g_uaf;
    Life(13, a, 0);
    Diag("double free %s", Where(pc - g_exe_base));
    return;
  }
  if (!b.quiet) {
    Trace(6, a, 0, 0);
    Life(6, a, 0);
    if (b.size) {
      Access(a, b.size, aWrite, pc);
    }
    --g_nlive;
  }
  b.freed = true;
  for (size_t i = 0; i < b.size; ++i) {
    GetCell(a + i)->st = 2;
  }
}

// ---------------------------------------------------------------- fibers
void FiberMain() {
  Fiber& f = F[g_cur];
  f.ret = f.fn(f.arg);
  {
    // exit: visible to joiners
    f.st = kDone;
    WakeAll(bJoin, uintptr_t(&f));
    Tick(f);
  }
  Reschedule(false, false);
  __builtin_unreachable();
}
extern "C" void rt_fiber_entry() {
  FiberMain();
}
asm(R"(
.text
.globl rt_tramp
.type rt_tramp,@function
rt_tramp:
  .cfi_startproc
  .cfi_undefined rip
  subq $8, %rsp
  xorl %ebp, %ebp
  call rt_fiber_entry
  ud2
  .cfi_endproc
.size rt_tramp,.-rt_tramp
)");
extern "C" void rt_tramp();

int NewFiber(void* (*fn)(void*), void* arg) {
  if (g_nf >= NT) {
    Die("too many threads");
  }
  int id = g_nf++;
  Fiber& f = F[id];
  char* tls = f.tls;
  memset(&f, 0, sizeof f);
  f.tls = tls ? tls : static_cast<char*>(malloc(g_tls_size + 1));
  memcpy(f.tls, g_tls_init, g_tls_size);
  f.stack = g_region + kHeap + size_t(id) * kStack;
  memset(f.stack + kStack - kStackFill, 0xA5, kStackFill);  // see HeapAlloc
  f.fn = fn;
  f.arg = arg;
  f.st = kRun;
  f.deadline = -1;
  f.vc.c[id] = 1;
  uintptr_t* s = reinterpret_cast<uintptr_t*>(f.stack + kStack - 64);
  *--s = 0;
  *--s = uintptr_t(&rt_tramp);
  for (int i = 0; i < 6; ++i) {
    *--s = 0;
  }
  f.sp = s;
  return id;
}

void Crash(int sig);

struct Scn {
  const char* name;
  rt::Fn fn;
};
Vec<Scn>& Scns() {
  static Vec<Scn> v;
  return v;
}

struct Job {
  rt::Fn fn;
  int p[256];
  int n;
  Str name;
};
Job* g_job;

void* RunScenario(void*) {
  g_job->fn(g_job->p, g_job->n);
  return nullptr;
}

volatile long g_execno = 0;
void OnAlarm(int) {
  static long last = -1;
  static int same = 0;
  if (g_on && g_execno == last) {
    if (++same >= 3) {
      Crash(SIGALRM);
    }
  } else {
    same = 0;
    last = g_execno;
  }
}

void ExecuteOnce() {
  g_execno = g_execno + 1;
  g_pos = 0;
  g_used = g_weak_used = g_spur_used = g_stale_used = 0;
  if (g_mode != mDfs) {
    g_stack->clear();
  }
  ++g_ver;
  if (g_bump) {
    memset(g_blkidx, 0, (g_bump / 16 + 2) * sizeof(uint32_t));
  }
  g_bump = 0;
  g_nf = 0;
  g_cur = 0;
  g_now = 1000000000L;
  g_steps = 0;
  g_sync->clear();
  g_hist->clear();
  g_mtx->clear();
  g_rw->clear();
  g_guardvc->clear();
  memset(g_flags, 0, sizeof g_flags);
  memset(g_vars, 0, sizeof g_vars);
  for (auto& q : g_queues) {
    if (!q.items) {
      q.items = new (malloc(sizeof *q.items)) Vec<QItem>;
    }
    q.items->clear();
    q.closed = false;
  }
  g_qkey = 0;
  g_blocks->clear();
  g_objs->clear();
  memset(g_objlive, 0, sizeof g_objlive);
  g_nalloc = g_nlive = 0;
  g_log->clear();
  g_diag->clear();
  g_mem->clear();
  g_races = g_uaf = g_objbad = 0;
  g_stuck = 0;
  g_livelock = false;
  g_quiet = 0;
  // fiber 0
  NewFiber(&RunScenario, nullptr);
  void* saved_eh[2];
  memcpy(saved_eh, abi::__cxa_get_globals(), 16);
  char* tls_save = static_cast<char*>(alloca(g_tls_size + 1));
  memcpy(tls_save, g_tls_addr, g_tls_size);
  LoadTls(F[0]);
  g_on = true;
  rt_switch(&g_sched_sp, F[0].sp);
  g_on = false;
  memcpy(g_tls_addr, tls_save, g_tls_size);
  memcpy(static_cast<void*>(abi::__cxa_get_globals()), saved_eh, 16);
  bool done = true;
  for (int i = 0; i < g_nf; ++i) {
    done &= F[i].st == kDone;
  }
  long objl = 0;
  for (long x : g_objlive) {
    objl += x;
  }
  int a[] = {g_livelock ? 99 : g_stuck, int(std::min(g_nlive, 99L)), int(std::min(objl, 99L)),
             std::min(g_uaf, 1),        std::min(g_races, 1),        std::min(g_objbad, 1)};
  if (!done && !g_livelock && !g_stuck) {
    a[0] = 98;
  }
  if (a[0]) {
    a[1] = a[2] = 0;
  }
  g_ended = a[0];
  LogRaw("end", 0, a, 6);
}

// ---------------------------------------------------------------- results
std::unordered_map<uint64_t, int, std::hash<uint64_t>, std::equal_to<uint64_t>, MA<std::pair<const uint64_t, int>>>*
  g_seen;
int g_out = 1;

uint64_t Hash(const char* p, size_t n) {
  uint64_t h = 1469598103934665603ull, g = 0x9E3779B97F4A7C15ull;
  for (size_t i = 0; i < n; ++i) {
    h = (h ^ (unsigned char)p[i]) * 1099511628211ull;
    g = (g + (unsigned char)p[i]) * 0xff51afd7ed558ccdull;
    g ^= g >> 29;
  }
  return h ^ (g << 1);
}

void WriteAll(const Str& s) {
  size_t o = 0;
  while (o < s.size()) {
    ssize_t k = write(g_out, s.data() + o, s.size() - o);
    if (k <= 0) {
      _exit(4);
    }
    o += k;
  }
}


void Emit() {
  const Str& key = *g_log;
  uint64_t h = Hash(key.data(), key.size());
  int& c = (*g_seen)[h];
  if (c++ == 0) {
    Str s = "L\t";
    s += g_job->name;
    s += '\t';
    s += Schedule();
    s += '\t';
    s += *g_log;
    s += '\t';
    s += *g_diag;
    s += '\n';
    WriteAll(s);
  }
}

void Crash(int sig) {
  if (!g_on) {
    dprintf(2, "rt: signal %d outside of an execution\n", sig);
    _exit(4);
  }
  g_on = false;
  int a[] = {sig};
  LogRaw("crash", g_cur, a, 1);
  Emit();
  WriteAll(Str("X\t") + g_job->name + "\tcrash\n");
  _exit(3);
}

double WallNow() {
  struct timespec ts;
  syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
  return double(ts.tv_sec) + double(ts.tv_nsec) * 1e-9;
}

// canonical trace of the conflicting shared accesses (option --memtrace)
Vec<uint64_t>* g_memseen;
long g_memdistinct = 0, g_memmax = 400;
long* g_endless;  // executions which reached the step limit, all workers
long g_membad = 0;  // of them wrong

void WriteMem(const Str& s, bool always) {
  uint64_t h = Hash(s.data(), s.size());
  auto it = std::lower_bound(g_memseen->begin(), g_memseen->end(), h);
  if (it != g_memseen->end() && *it == h) {
    return;
  }
  g_memseen->insert(it, h);
  ++g_memdistinct;
  if (always ? ++g_membad > 3 : g_memdistinct > g_memmax) {
    return;
  }
  Str o = always ? "W\t" : "M\t";
  o += g_job->name;
  o += '\t';
  o += Schedule();
  o += '\t';
  o += s;
  o += '\t';
  o += *g_diag;
  o += '\n';
  WriteAll(o);
}

// canonical trace of the life of blocks and objects (option --lifetrace)
void EmitLife() {
  UMap<uintptr_t, int> blk, obj;
  Str s;
  char b[64];
  int nb = 0, no = 0;
  bool bad = g_uaf != 0 || g_objbad != 0;
  for (auto& m : *g_mem) {
    auto id = [&](UMap<uintptr_t, int>& u) {
      auto it = u.find(m.addr);
      return it == u.end() ? 0 : it->second;
    };
    b[0] = 0;
    switch (m.kind) {
      case 9:
        blk[m.addr] = ++nb;
        snprintf(b, sizeof b, "new|0|%d", nb);
        break;
      case 6:
        snprintf(b, sizeof b, "del|0|%d", id(blk));
        break;
      case 10:
        if (int old = id(obj)) {
          snprintf(b, sizeof b, "over|0|%d|%d", old, m.order);
          s += b;
          s += ' ';
        }
        obj[m.addr] = ++no;
        snprintf(b, sizeof b, "make|0|%d|%d", no, m.order);
        break;
      case 11:
        snprintf(b, sizeof b, "kill|0|%d|%d", id(obj), m.order);
        obj.erase(m.addr);
        break;
      case 12: {
        int k = 0;
        uintptr_t best = 0;
        for (auto& [a, i] : blk) {
          if (a <= m.addr && a > best) {
            best = a;
            k = i;
          }
        }
        snprintf(b, sizeof b, "touch|0|%d", k);
        break;
      }
      case 13:
        snprintf(b, sizeof b, "del|0|%d", id(blk));
        break;
      case 14:
        snprintf(b, sizeof b, "use|0|%d|%d", id(obj), m.order);
        break;
      default:
        continue;
    }
    s += b;
    s += ' ';
  }
  snprintf(b, sizeof b, "end|0|%d|%d", g_ended ? 1 : 0, bad ? 1 : 0);
  s += b;
  WriteMem(s, bad || g_ended || g_nlive != 0 || rt::ObjLive(-1) != 0);
}

void EmitMem() {
  // locations: maximal key = addr of each plain access start; group by 8-byte granule for plain data; exact for atomics
  struct Loc {
    uint32_t rd = 0, wr = 0;
    bool at = false;
  };
  UMap<uintptr_t, Loc> locs;
  auto key = [](const MemOp& m) {
    return m.addr;
  };
  for (auto& m : *g_mem) {
    if (m.kind > 4) {
      continue;
    }
    if (!InRegion(m.addr) && !(m.addr >= g_static_lo && m.addr < g_static_hi)) {
      continue;
    }
    Loc& l = locs[key(m)];
    (m.kind == 0 || m.kind == 2 ? l.rd : l.wr) |= 1u << m.tid;
    l.at |= m.kind >= 2;
  }
  UMap<uintptr_t, int> ids;
  Str s;
  char b[64];
  int nev = 0;
  Str last;
  for (auto& m : *g_mem) {
    if (m.kind == 5) {
      snprintf(b, sizeof b, "f|%d|0|%d", m.tid, m.order);
    } else if (m.kind == 7 || m.kind == 8) {
      auto [it, fresh] = ids.try_emplace(m.addr ^ 1, int(ids.size()) + 1);
      (void)fresh;
      snprintf(b, sizeof b, "%s|%d|%d|0", m.kind == 7 ? "ja" : "jr", m.tid, it->second);
    } else if (m.kind == 6) {
      // free: a write to every tracked location of the block
      uint32_t idx = g_blkidx[(m.addr - uintptr_t(g_region)) / 16];
      if (!idx) {
        continue;
      }
      HBlock& bl = (*g_blocks)[idx - 1];
      Vec<uintptr_t> in;
      for (auto& [a, l] : locs) {
        uint32_t all = l.rd | l.wr;
        if (a >= bl.addr && a < bl.addr + bl.size && (all & ~(1u << m.tid))) {
          in.push_back(a);
        }
      }
      std::sort(in.begin(), in.end());
      for (uintptr_t a : in) {
        auto [it, fresh] = ids.try_emplace(a, int(ids.size()) + 1);
        (void)fresh;
        snprintf(b, sizeof b, "%sw|%d|%d|0", s.empty() ? "" : " ", m.tid, it->second);
        s += b;
        ++nev;
      }
      continue;
    } else if (m.kind == 9) {
      continue;
    } else {
      auto it0 = locs.find(key(m));
      if (it0 == locs.end()) {
        continue;
      }
      Loc& l = it0->second;
      uint32_t all = l.rd | l.wr;
      bool multi = all & (all - 1);
      if (!multi || (!l.wr)) {
        continue;
      }
      auto [it, fresh] = ids.try_emplace(key(m), int(ids.size()) + 1);
      (void)fresh;
      static const char* nm[] = {"r", "w", "al", "as", "ar"};
      snprintf(b, sizeof b, m.kind == 2 && m.size ? "%s|%d|%d|%d|%d" : "%s|%d|%d|%d", nm[m.kind], m.tid, it->second, m.order, m.size);
    }
    if (m.kind <= 1 && last == b) {
      continue;
    }
    last = b;
    if (!s.empty()) {
      s += ' ';
    }
    s += b;
    ++nev;
  }
  snprintf(b, sizeof b, "%send|0|%d|%d", s.empty() ? "" : " ", g_races ? 1 : 0, g_uaf ? 1 : 0);
  s += b;
  WriteMem(s, g_races != 0 || g_uaf != 0);
}

struct Opts {
  int bound = 2;
  long max_exec = 1000000;
  long rand_exec = 0;
  double max_sec = 30;
  uint64_t seed = 1;
  const char* replay = nullptr;
} O;

void RunJob(Job& j) {
  g_job = &j;
  double t0 = WallNow();
  long execs = 0;
  long last_round = -1;
  bool complete = false;
  // warm up (static initialization)
  g_mode = mReplay;
  g_replay->clear();
  ExecuteOnce();
  if (O.replay) {
    const char* s = O.replay;
    if (*s != '-') {
      while (*s) {
        char* e;
        int p = int(strtol(s, &e, 10));
        int i = int(strtol(e + 1, &e, 10));
        g_replay->push_back({p, i});
        s = *e == ',' ? e + 1 : e;
      }
    }
    ExecuteOnce();
    Emit();
    if (o_memtrace) {
      EmitMem();
    }
    if (o_lifetrace) {
      EmitLife();
    }
    WriteAll(Str("X\t") + j.name + "\treplayed\n");
    return;
  }
  auto after = [&] {
    Emit();
    if (g_ended == 99) {
      __atomic_fetch_add(g_endless, 1, __ATOMIC_RELAXED);
    }
    if (o_memtrace) {
      EmitMem();
    }
    if (o_lifetrace) {
      EmitLife();
    }
    ++execs;
  };
  // iterative context bounding: all schedules of cost <= bound, in one DFS
  g_mode = mDfs;
  long dfs = 0;
  int done_bound = -1;
  for (g_bound = std::min(1, O.bound); O.max_exec > 0 && g_bound <= O.bound; ++g_bound) {
    complete = false;
    g_stack->clear();
    long before = dfs;
    for (;;) {
      ExecuteOnce();
      after();
      ++dfs;
      if (!NextDfs()) {
        complete = true;
        break;
      }
      if (dfs >= O.max_exec || (((dfs & 63) == 0) && WallNow() - t0 > O.max_sec)) {
        break;
      }
    }
    if (!complete) {
      break;
    }
    done_bound = g_bound;
    if (dfs - before == last_round) {
      done_bound = O.bound;  // nothing left to preempt: the whole space
      break;
    }
    last_round = dfs - before;
  }
  complete = done_bound == O.bound;
  g_mode = mRand;
  static const double qs[] = {0.5, 0.7, 0.85, 0.93};
  for (long i = 0; i < O.rand_exec; ++i) {
    g_rng = (O.seed + 1) * 0x9E3779B97F4A7C15ull ^ (uint64_t(i + 1) * 0xD1B54A32D192ED03ull);
    Rnd();
    g_q = qs[i % 4];
    ExecuteOnce();
    after();
    if (((i & 63) == 0) && WallNow() - t0 > O.max_sec * 1.5) {
      break;
    }
  }
  char b[160];
  snprintf(b, sizeof b, "\texecs=%ld unique=%zu complete=%d bound=%d mem=%ld sec=%.2f\n", execs, g_seen->size(),
           int(complete), done_bound, g_memdistinct, WallNow() - t0);
  WriteAll(Str("X\t") + j.name + b);
}

void Setup() {
  g_region = static_cast<char*>(
    mmap(reinterpret_cast<void*>(0x100000000000), kRegion, PROT_READ | PROT_WRITE,
         MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  g_shadow = static_cast<Cell*>(
    mmap(nullptr, kRegion * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  g_endless = static_cast<long*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  g_blkidx = static_cast<uint32_t*>(calloc(kHeap / 16 + 16, sizeof(uint32_t)));
  if (g_region == MAP_FAILED || g_shadow == MAP_FAILED) {
    Die("mmap");
  }
  g_sync = new (malloc(sizeof *g_sync)) std::remove_reference_t<decltype(*g_sync)>;
  g_hist = new (malloc(sizeof *g_hist)) std::remove_reference_t<decltype(*g_hist)>;
  g_mtx = new (malloc(sizeof *g_mtx)) std::remove_reference_t<decltype(*g_mtx)>;
  g_rw = new (malloc(sizeof *g_rw)) std::remove_reference_t<decltype(*g_rw)>;
  g_guardvc = new (malloc(sizeof *g_guardvc)) std::remove_reference_t<decltype(*g_guardvc)>;
  g_gshadow = new (malloc(sizeof *g_gshadow)) std::remove_reference_t<decltype(*g_gshadow)>;
  g_blocks = new (malloc(sizeof *g_blocks)) std::remove_reference_t<decltype(*g_blocks)>;
  g_objs = new (malloc(sizeof *g_objs)) std::remove_reference_t<decltype(*g_objs)>;
  g_log = new (malloc(sizeof *g_log)) Str;
  g_diag = new (malloc(sizeof *g_diag)) Str;
  g_mem = new (malloc(sizeof *g_mem)) Vec<MemOp>;
  g_memseen = new (malloc(sizeof *g_memseen)) Vec<uint64_t>;
  g_stack = new (malloc(sizeof *g_stack)) Vec<ChoiceRec>;
  g_replay = new (malloc(sizeof *g_replay)) Vec<std::pair<int, int>>;
  g_seen = new (malloc(sizeof *g_seen)) std::remove_reference_t<decltype(*g_seen)>;
  dl_iterate_phdr(&PhdrCb, nullptr);
  g_tls_init = static_cast<char*>(malloc(g_tls_size + 1));
  memcpy(g_tls_init, g_tls_addr, g_tls_size);
  Dl_info di;
  g_exe_base = 0;
  if (dladdr(reinterpret_cast<void*>(&Setup), &di)) {
    g_exe_base = uintptr_t(di.dli_fbase);
  }
  stack_t ss{};
  ss.ss_size = 1 << 20;
  ss.ss_sp = malloc(ss.ss_size);
  sigaltstack(&ss, nullptr);
  struct sigaction sa {};
  sa.sa_handler = &Crash;
  sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL}) {
    sigaction(s, &sa, nullptr);
  }
  sa.sa_handler = &OnAlarm;
  sa.sa_flags = SA_ONSTACK | SA_RESTART;
  sigaction(SIGALRM, &sa, nullptr);
}

}  // namespace

// ==================================================================== client API
namespace rt {

void Ev(const char* name, std::initializer_list<int> args) noexcept {
  if (!g_on) {
    return;
  }
  F[g_cur].same = 0;
  LogRaw(name, g_cur, args.begin(), int(args.size()));
}
int Choose(int n) noexcept {
  if (!g_on) {
    return 0;
  }
  uint8_t cost[64] = {};
  return Pick(n, cost);
}
void Point() noexcept {
  SchedPoint();
}
void SetFlag(int id, bool hb) noexcept {
  if (!g_on) {
    return;
  }
  SchedPoint();
  g_flags[id].set = true;
  if (hb) {
    Trace(8, uintptr_t(&g_flags[id]), 0, 0);
    HbRelease(g_flags[id].vc);
  }
  WakeAll(bFlag, id);
}
void WaitFlag(int id, bool hb) noexcept {
  if (!g_on) {
    return;
  }
  SchedPoint();
  while (!g_flags[id].set) {
    Block(bFlag, id);
  }
  if (hb) {
    Trace(7, uintptr_t(&g_flags[id]), 0, 0);
    HbAcquire(g_flags[id].vc);
  }
}
bool TestFlag(int id) noexcept {
  return g_flags[id].set;
}
int Self() noexcept {
  return g_cur;
}
long Blocks() noexcept {
  return F[g_cur].blocks;
}
void HbSend(const void* key) noexcept {
  if (!g_on) {
    return;
  }
  Trace(8, uintptr_t(key), 0, 0);
  VC& v = (*g_guardvc)[uintptr_t(key)];
  v.Join(F[g_cur].vc);
  Tick(F[g_cur]);
}
void HbRecv(const void* key) noexcept {
  if (!g_on) {
    return;
  }
  Trace(7, uintptr_t(key), 0, 0);
  auto it = g_guardvc->find(uintptr_t(key));
  if (it != g_guardvc->end()) {
    F[g_cur].vc.Join(it->second);
    g_guardvc->erase(it);
  }
}
void QPush(int q, void* p) noexcept {
  if (!g_on) {
    return;
  }
  SchedPoint();
  QItem it{p, F[g_cur].vc, (++g_qkey << 8) | 3};
  Trace(8, it.key, 0, 0);
  Tick(F[g_cur]);
  g_queues[q].items->push_back(it);
  WakeAll(bQueue, uintptr_t(q));
}
void* QPop(int q, bool wait) noexcept {
  if (!g_on) {
    return nullptr;
  }
  SchedPoint();
  QueueS& s = g_queues[q];
  while (s.items->empty()) {
    if (s.closed || !wait) {
      return nullptr;
    }
    Block(bQueue, uintptr_t(q));
  }
  QItem it = s.items->front();
  s.items->erase(s.items->begin());
  F[g_cur].vc.Join(it.vc);
  Trace(7, it.key, 0, 0);
  return it.p;
}
void QClose(int q) noexcept {
  if (!g_on) {
    return;
  }
  SchedPoint();
  g_queues[q].closed = true;
  WakeAll(bQueue, uintptr_t(q));
}
int QSize(int q) noexcept {
  return int(g_queues[q].items->size());
}
int GetSlot(int k) noexcept {
  return F[g_cur].slot[k];
}
void SetSlot(int k, int v) noexcept {
  F[g_cur].slot[k] = v;
}
int GetVar(int k) noexcept {
  return g_vars[k];
}
void SetVar(int k, int v) noexcept {
  g_vars[k] = v;
}
int AddVar(int k, int d) noexcept {
  return g_vars[k] += d;
}
long Now() noexcept {
  return g_now;
}
long Allocs() noexcept {
  return g_nalloc;
}
long AllocsMine() noexcept {
  return F[g_cur].allocs;
}
long Live() noexcept {
  return g_nlive;
}
Quiet::Quiet() noexcept {
  ++g_quiet;
}
Quiet::~Quiet() {
  --g_quiet;
}
void ObjNew(const void* p, int kind) noexcept {
  if (!g_on) {
    return;
  }
  Life(10, uintptr_t(p), kind);
  auto [it, fresh] = g_objs->try_emplace(uintptr_t(p), kind);
  if (!fresh) {
    ++g_objbad;
    Diag("object constructed over a live one kind=%d", kind);
    --g_objlive[it->second];
    it->second = kind;
  }
  ++g_objlive[kind];
}
void ObjDel(const void* p, int kind) noexcept {
  if (!g_on) {
    return;
  }
  Life(11, uintptr_t(p), kind);
  auto it = g_objs->find(uintptr_t(p));
  if (it == g_objs->end() || it->second != kind) {
    ++g_objbad;
    Diag("object destroyed but not live kind=%d", kind);
    return;
  }
  --g_objlive[kind];
  g_objs->erase(it);
}
void ObjUse(const void* p, int kind) noexcept {
  if (!g_on) {
    return;
  }
  auto it = g_objs->find(uintptr_t(p));
  if (it == g_objs->end() || it->second != kind) {
    ++g_objbad;
    Life(14, uintptr_t(p), kind);
    Diag("object used but not live kind=%d", kind);
  }
}
long ObjLive(int kind) noexcept {
  if (kind >= 0) {
    return g_objlive[kind];
  }
  long s = 0;
  for (long x : g_objlive) {
    s += x;
  }
  return s;
}
void Bad(const char* what) noexcept {
  ++g_objbad;
  Diag("%s", what);
}
bool IsLive(const void* p) noexcept {
  if (!InRegion(uintptr_t(p))) {
    return true;
  }
  return GetCell(uintptr_t(p))->st == 1;
}
Reg::Reg(const char* name, Fn fn) {
  Scns().push_back({name, fn});
}

}  // namespace rt

// ==================================================================== operator new / delete
void* operator new(size_t n) {
  return HeapAlloc(n, 16);
}
void* operator new[](size_t n) {
  return HeapAlloc(n, 16);
}
void* operator new(size_t n, const std::nothrow_t&) noexcept {
  return HeapAlloc(n, 16);
}
void* operator new[](size_t n, const std::nothrow_t&) noexcept {
  return HeapAlloc(n, 16);
}
void* operator new(size_t n, std::align_val_t a) {
  return HeapAlloc(n, size_t(a));
}
void* operator new[](size_t n, std::align_val_t a) {
  return HeapAlloc(n, size_t(a));
}
#define PC uintptr_t(__builtin_return_address(0))
void operator delete(void* p) noexcept {
  HeapFree(p, PC);
}
void operator delete[](void* p) noexcept {
  HeapFree(p, PC);
}
void operator delete(void* p, size_t) noexcept {
  HeapFree(p, PC);
}
void operator delete[](void* p, size_t) noexcept {
  HeapFree(p, PC);
}
void operator delete(void* p, std::align_val_t) noexcept {
  HeapFree(p, PC);
}
void operator delete[](void* p, std::align_val_t) noexcept {
  HeapFree(p, PC);
}
void operator delete(void* p, size_t, std::align_val_t) noexcept {
  HeapFree(p, PC);
}
void operator delete[](void* p, size_t, std::align_val_t) noexcept {
  HeapFree(p, PC);
}

// ==================================================================== __tsan_*
extern "C" {

void __tsan_init() {
}
void __tsan_func_entry(void*) {
}
void __tsan_func_exit() {
}
#define RW(n)                                                                                                          \
  void __tsan_read##n(void* p) {                                                                                       \
    Plain(p, n, false, __builtin_return_address(0));                                                                   \
  }                                                                                                                    \
  void __tsan_write##n(void* p) {                                                                                      \
    Plain(p, n, true, __builtin_return_address(0));                                                                    \
  }                                                                                                                    \
  void __tsan_unaligned_read##n(void* p) {                                                                             \
    Plain(p, n, false, __builtin_return_address(0));                                                                   \
  }                                                                                                                    \
  void __tsan_unaligned_write##n(void* p) {                                                                            \
    Plain(p, n, true, __builtin_return_address(0));                                                                    \
  }                                                                                                                    \
  void __tsan_volatile_read##n(void* p) {                                                                              \
    Plain(p, n, false, __builtin_return_address(0));                                                                   \
  }                                                                                                                    \
  void __tsan_volatile_write##n(void* p) {                                                                             \
    Plain(p, n, true, __builtin_return_address(0));                                                                    \
  }                                                                                                                    \
  void __tsan_read##n##_pc(void* p, void* pc) {                                                                        \
    Plain(p, n, false, pc);                                                                                            \
  }                                                                                                                    \
  void __tsan_write##n##_pc(void* p, void* pc) {                                                                       \
    Plain(p, n, true, pc);                                                                                             \
  }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
void __tsan_read_range(void* p, size_t n) {
  Plain(p, n, false, __builtin_return_address(0));
}
void __tsan_write_range(void* p, size_t n) {
  Plain(p, n, true, __builtin_return_address(0));
}
void __tsan_vptr_update(void** p, void* v) {
  if (*p != v) {
    Plain(p, 8, true, __builtin_return_address(0));
  } else if (g_on && !g_quiet) {
    Plain(p, 8, false, __builtin_return_address(0));
  }
}
void __tsan_vptr_read(void** p) {
  Plain(p, 8, false, __builtin_return_address(0));
}

#define ON (g_on && !g_quiet)
#define ATOMIC(N, T)                                                                                                   \
  T __tsan_atomic##N##_load(const volatile T* p, int o) {                                                              \
    if (ON) {                                                                                                          \
      AtomicPoint(uintptr_t(p), sizeof(T));                                                                            \
      T v = T(AtLoad(uintptr_t(p), sizeof(T), o, PC, uint64_t(*p)));                                                   \
      Spin(uintptr_t(p), uint64_t(v), false);                                                                          \
      return v;                                                                                                        \
    }                                                                                                                  \
    return *p;                                                                                                         \
  }                                                                                                                    \
  void __tsan_atomic##N##_store(volatile T* p, T v, int o) {                                                           \
    if (ON) {                                                                                                          \
      AtomicPoint(uintptr_t(p), sizeof(T));                                                                            \
      AtStore(uintptr_t(p), sizeof(T), o, PC);                                                                         \
      T old = *p;                                                                                                      \
      *p = v;                                                                                                          \
      HistPush(uintptr_t(p), uint64_t(old), uint64_t(v), o);                                                           \
      Spin(uintptr_t(p), uint64_t(v), true);                                                                           \
      return;                                                                                                          \
    }                                                                                                                  \
    *p = v;                                                                                                            \
  }                                                                                                                    \
  static T Rmw##N(volatile T* p, int o, T (*f)(T, T), T x, uintptr_t pc) {                                             \
    if (ON) {                                                                                                          \
      AtomicPoint(uintptr_t(p), sizeof(T));                                                                            \
      AtRmw(uintptr_t(p), sizeof(T), o, pc);                                                                           \
    }                                                                                                                  \
    T v = *p;                                                                                                          \
    T nv = f(v, x);                                                                                                    \
    *p = nv;                                                                                                           \
    if (ON) {                                                                                                          \
      HistPush(uintptr_t(p), uint64_t(v), uint64_t(nv), o);                                                            \
      Spin(uintptr_t(p), uint64_t(v), nv != v);                                                                        \
    }                                                                                                                  \
    return v;                                                                                                          \
  }                                                                                                                    \
  T __tsan_atomic##N##_exchange(volatile T* p, T v, int o) {                                                           \
    return Rmw##N(                                                                                                     \
      p, o, [](T, T b) { return b; }, v, PC);                                                                          \
  }                                                                                                                    \
  T __tsan_atomic##N##_fetch_add(volatile T* p, T v, int o) {                                                          \
    return Rmw##N(                                                                                                     \
      p, o, [](T a, T b) { return T(a + b); }, v, PC);                                                                 \
  }                                                                                                                    \
  T __tsan_atomic##N##_fetch_sub(volatile T* p, T v, int o) {                                                          \
    return Rmw##N(                                                                                                     \
      p, o, [](T a, T b) { return T(a - b); }, v, PC);                                                                 \
  }                                                                                                                    \
  T __tsan_atomic##N##_fetch_and(volatile T* p, T v, int o) {                                                          \
    return Rmw##N(                                                                                                     \
      p, o, [](T a, T b) { return T(a & b); }, v, PC);                                                                 \
  }                                                                                                                    \
  T __tsan_atomic##N##_fetch_or(volatile T* p, T v, int o) {                                                           \
    return Rmw##N(                                                                                                     \
      p, o, [](T a, T b) { return T(a | b); }, v, PC);                                                                 \
  }                                                                                                                    \
  T __tsan_atomic##N##_fetch_xor(volatile T* p, T v, int o) {                                                          \
    return Rmw##N(                                                                                                     \
      p, o, [](T a, T b) { return T(a ^ b); }, v, PC);                                                                 \
  }                                                                                                                    \
  T __tsan_atomic##N##_fetch_nand(volatile T* p, T v, int o) {                                                         \
    return Rmw##N(                                                                                                     \
      p, o, [](T a, T b) { return T(~(a & b)); }, v, PC);                                                              \
  }                                                                                                                    \
  static int Cas##N(volatile T* p, T* e, T d, int so, int fo, bool weak, uintptr_t pc) {                               \
    if (ON) {                                                                                                          \
      AtomicPoint(uintptr_t(p), sizeof(T));                                                                            \
      const uint64_t no = uint64_t(*e);                                                                                \
      if (*p == *e) {                                                                                                  \
        *e = T(AtLoad(uintptr_t(p), sizeof(T), fo, pc, no, &no, true));                                                \
        if (*p != *e) {                                                                                                \
          Spin(uintptr_t(p), uint64_t(*e), false);                                                                     \
          return 0;                                                                                                    \
        }                                                                                                              \
        bool fail = false;                                                                                             \
        if (weak && g_nf > 1 && g_weak_used < o_weak) {                                                                \
          uint8_t cost[2] = {0, 1};                                                                                    \
          fail = Pick(2, cost) == 1;                                                                                   \
          g_weak_used += fail;                                                                                         \
        }                                                                                                              \
        if (!fail) {                                                                                                   \
          AtRmw(uintptr_t(p), sizeof(T), so, pc);                                                                      \
          T old = *p;                                                                                                  \
          *p = d;                                                                                                      \
          HistPush(uintptr_t(p), uint64_t(old), uint64_t(d), so);                                                      \
          Spin(uintptr_t(p), uint64_t(d), d != old);                                                                   \
          return 1;                                                                                                    \
        }                                                                                                              \
      }                                                                                                                \
      *e = T(AtLoad(uintptr_t(p), sizeof(T), fo, pc, uint64_t(*p), *p == *e ? nullptr : &no));                         \
      Spin(uintptr_t(p), uint64_t(*e), false);                                                                         \
      return 0;                                                                                                        \
    }                                                                                                                  \
    if (*p == *e) {                                                                                                    \
      *p = d;                                                                                                          \
      return 1;                                                                                                        \
    }                                                                                                                  \
    *e = *p;                                                                                                           \
    return 0;                                                                                                          \
  }                                                                                                                    \
  int __tsan_atomic##N##_compare_exchange_strong(volatile T* p, T* e, T d, int so, int fo) {                           \
    return Cas##N(p, e, d, so, fo, false, PC);                                                                         \
  }                                                                                                                    \
  int __tsan_atomic##N##_compare_exchange_weak(volatile T* p, T* e, T d, int so, int fo) {                             \
    return Cas##N(p, e, d, so, fo, true, PC);                                                                          \
  }                                                                                                                    \
  T __tsan_atomic##N##_compare_exchange_val(volatile T* p, T e, T d, int so, int fo) {                                 \
    Cas##N(p, &e, d, so, fo, false, PC);                                                                               \
    return e;                                                                                                          \
  }
ATOMIC(8, uint8_t)
ATOMIC(16, uint16_t)
ATOMIC(32, uint32_t)
ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int o) {
  if (!ON) {
    return;
  }
  Trace(5, 0, 0, o);
  Fiber& f = F[g_cur];
  if (IsAcq(o)) {
    f.vc.Join(f.acq);
  }
  if (IsRel(o)) {
    f.rel = f.vc;
    Tick(f);
  }
}
void __tsan_atomic_signal_fence(int) {
}

// ==================================================================== pthread
static int RealOrZero() {
  return 0;
}

static void MLock(uintptr_t m) {
  if (g_nf > 1 || true) {
    SchedPoint();
  }
  for (;;) {
    Mtx& x = (*g_mtx)[m];
    if (x.owner < 0) {
      x.owner = g_cur;
      x.depth = 1;
      break;
    }
    if (x.owner == g_cur && reinterpret_cast<pthread_mutex_t*>(m)->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP) {
      ++x.depth;
      break;
    }
    Block(bMutex, m);  // (an ordinary mutex locked twice by one thread: stuck for ever, as in reality)
  }
  Trace(7, m, 0, 0);
  HbAcquire((*g_mtx)[m].vc);
}
static bool MTry(uintptr_t m) {
  SchedPoint();
  Mtx& x = (*g_mtx)[m];
  if (x.owner >= 0 && x.owner != g_cur) {
    return false;
  }
  x.owner = g_cur;
  ++x.depth;
  Trace(7, m, 0, 0);
  HbAcquire(x.vc);
  return true;
}
static void MUnlockNow(uintptr_t m) {
  Mtx& x = (*g_mtx)[m];
  if (--x.depth > 0) {
    return;
  }
  x.depth = 0;
  x.owner = -1;
  Trace(8, m, 0, 0);
  HbRelease(x.vc);
  WakeAll(bMutex, m);
}
// an object living on another fiber's dead stack or in a freed block
static void CheckObj(uintptr_t a, uintptr_t pc) {
  uint64_t before = g_uaf;
  bool om = o_mem;
  o_mem = false;
  Access(a, 1, aRead, pc);
  o_mem = om;
  (void)before;
}

int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!ON) {
    return RealOrZero();
  }
  CheckObj(uintptr_t(m), PC);
  MLock(uintptr_t(m));
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!ON) {
    return 0;
  }
  CheckObj(uintptr_t(m), PC);
  return MTry(uintptr_t(m)) ? 0 : EBUSY;
}
static long ToNs(const struct timespec* ts) {
  return long(ts->tv_sec) * 1000000000L + ts->tv_nsec;
}
static int MTimed(uintptr_t m, long dl) {
  SchedPoint();
  for (;;) {
    Mtx& x = (*g_mtx)[m];
    if (x.owner < 0) {
      x.owner = g_cur;
      x.depth = 1;
      break;
    }
    if (x.owner == g_cur) {
      ++x.depth;
      break;
    }
    if (g_now >= dl) {
      return ETIMEDOUT;
    }
    Block(bMutex, m, dl);
    if (F[g_cur].timed_out) {
      return ETIMEDOUT;
    }
  }
  Trace(7, m, 0, 0);
  HbAcquire((*g_mtx)[m].vc);
  return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) {
  return ON ? MTimed(uintptr_t(m), ToNs(ts)) : 0;
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec* ts) {
  return ON ? MTimed(uintptr_t(m), ToNs(ts)) : 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!ON) {
    return RealOrZero();
  }
  SchedPoint();
  CheckObj(uintptr_t(m), PC);
  MUnlockNow(uintptr_t(m));
  return 0;
}
int pthread_mutex_init(pthread_mutex_t*, const pthread_mutexattr_t*) {
  return 0;
}
int pthread_mutex_destroy(pthread_mutex_t*) {
  return 0;
}
static int CWait(uintptr_t c, uintptr_t m, long dl) {
  SchedPoint();
  if (dl >= 0 && g_now >= dl) {
    // the deadline is already over: std still releases and reacquires the mutex
    MUnlockNow(m);
    MLock(m);
    return ETIMEDOUT;
  }
  MUnlockNow(m);
  Block(bCond, c, dl);
  bool to = F[g_cur].timed_out && !F[g_cur].notified;
  MLock(m);
  return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  return ON ? CWait(uintptr_t(c), uintptr_t(m), -1) : 0;
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
  return ON ? CWait(uintptr_t(c), uintptr_t(m), ToNs(ts)) : 0;
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* ts) {
  return ON ? CWait(uintptr_t(c), uintptr_t(m), ToNs(ts)) : 0;
}
static int CNotify(uintptr_t c, bool all, uintptr_t pc) {
  SchedPoint();
  CheckObj(c, pc);
  int w[NT], n = 0;
  for (int i = 0; i < g_nf; ++i) {
    if (F[i].st == kBlocked && F[i].bk == bCond && F[i].obj == c) {
      w[n++] = i;
    }
  }
  if (n == 0) {
    return 0;
  }
  if (all) {
    for (int i = 0; i < n; ++i) {
      F[w[i]].st = kRun;
      F[w[i]].notified = true;
    }
  } else {
    uint8_t cost[NT];
    for (int i = 0; i < n; ++i) {
      cost[i] = i ? 1 : 0;
    }
    int k = Pick(n, cost);
    F[w[k]].st = kRun;
    F[w[k]].notified = true;
  }
  return 0;
}
int pthread_cond_signal(pthread_cond_t* c) {
  return ON ? CNotify(uintptr_t(c), false, PC) : 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  return ON ? CNotify(uintptr_t(c), true, PC) : 0;
}
int pthread_cond_init(pthread_cond_t*, const pthread_condattr_t*) {
  return 0;
}
int pthread_cond_destroy(pthread_cond_t*) {
  return 0;
}
// rwlock
static bool RwTry(uintptr_t l, bool w) {
  Rw& x = (*g_rw)[l];
  if (w ? (x.w >= 0 || x.readers > 0) : x.w >= 0) {
    return false;
  }
  if (w) {
    x.w = g_cur;
  } else {
    ++x.readers;
  }
  Trace(7, l, 0, 0);
  HbAcquire(x.vc);
  return true;
}
static int RwLock(uintptr_t l, bool w, long dl) {
  SchedPoint();
  while (!RwTry(l, w)) {
    if (dl >= 0 && g_now >= dl) {
      return ETIMEDOUT;
    }
    Block(bRw, l, dl);
    if (F[g_cur].timed_out) {
      return ETIMEDOUT;
    }
  }
  return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l) {
  return ON ? RwLock(uintptr_t(l), true, -1) : 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) {
  return ON ? RwLock(uintptr_t(l), false, -1) : 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) {
  if (!ON) {
    return 0;
  }
  SchedPoint();
  return RwTry(uintptr_t(l), true) ? 0 : EBUSY;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) {
  if (!ON) {
    return 0;
  }
  SchedPoint();
  return RwTry(uintptr_t(l), false) ? 0 : EBUSY;
}
int pthread_rwlock_timedwrlock(pthread_rwlock_t* l, const struct timespec* ts) {
  return ON ? RwLock(uintptr_t(l), true, ToNs(ts)) : 0;
}
int pthread_rwlock_timedrdlock(pthread_rwlock_t* l, const struct timespec* ts) {
  return ON ? RwLock(uintptr_t(l), false, ToNs(ts)) : 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* lk) {
  if (!ON) {
    return 0;
  }
  SchedPoint();
  uintptr_t l = uintptr_t(lk);
  Rw& x = (*g_rw)[l];
  if (x.w == g_cur) {
    x.w = -1;
  } else {
    --x.readers;
  }
  Trace(8, l, 0, 0);
  HbRelease(x.vc);
  WakeAll(bRw, l);
  return 0;
}

int pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg) {
  if (!ON) {
    Die("pthread_create outside of an execution");
  }
  SchedPoint();
  int id = NewFiber(fn, arg);
  Fiber& f = F[id];
  // happens-before: creator -> new thread
  uint32_t own = f.vc.c[id];
  f.vc = F[g_cur].vc;
  f.vc.c[id] = own;
  Trace(8, uintptr_t(&F[id]), 0, 0);
  if (o_memtrace) {
    g_mem->push_back(MemOp{7, uint8_t(id), 0, 0, uintptr_t(&F[id])});
  }
  Tick(F[g_cur]);
  *t = pthread_t(0x10000 + id);
  return 0;
}
int pthread_join(pthread_t t, void** ret) {
  if (!ON) {
    return 0;
  }
  int id = int(t - 0x10000);
  if (id < 0 || id >= g_nf) {
    return ESRCH;
  }
  SchedPoint();
  while (F[id].st != kDone) {
    Block(bJoin, uintptr_t(&F[id]));
  }
  if (o_memtrace) {
    g_mem->push_back(MemOp{8, uint8_t(id), 0, 0, uintptr_t(&F[id])});
  }
  Trace(7, uintptr_t(&F[id]), 0, 0);
  F[g_cur].vc.Join(F[id].vc);
  if (ret) {
    *ret = F[id].ret;
  }
  return 0;
}
int pthread_detach(pthread_t) {
  return 0;
}
pthread_t pthread_self() {
  return g_on ? pthread_t(0x10000 + g_cur) : pthread_t(0xffff);
}
int pthread_equal(pthread_t a, pthread_t b) {
  return a == b;
}
int sched_yield() {
  if (ON && g_nf > 1) {
    Reschedule(true, true);
  }
  return 0;
}
int clock_gettime(clockid_t, struct timespec* ts) {
  if (g_on) {
    ts->tv_sec = g_now / 1000000000L;
    ts->tv_nsec = g_now % 1000000000L;
    return 0;
  }
  return int(syscall(SYS_clock_gettime, CLOCK_MONOTONIC, ts));
}
static int SleepUntil(long dl) {
  if (dl > g_now) {
    Block(bSleep, 0, dl);
  } else {
    SchedPoint();
  }
  return 0;
}
int nanosleep(const struct timespec* ts, struct timespec*) {
  return ON ? SleepUntil(g_now + ToNs(ts)) : 0;
}
int clock_nanosleep(clockid_t, int flags, const struct timespec* ts, struct timespec*) {
  return ON ? SleepUntil((flags & TIMER_ABSTIME) ? ToNs(ts) : g_now + ToNs(ts)) : 0;
}

// futex based std::atomic::wait/notify (libstdc++ headers call syscall(SYS_futex, ...))
long syscall(long nr, ...) noexcept {
  va_list ap;
  va_start(ap, nr);
  long a[6];
  for (long& x : a) {
    x = va_arg(ap, long);
  }
  va_end(ap);
  if (g_on && nr == SYS_futex) {
    int op = int(a[1]) & 127;
    auto* addr = reinterpret_cast<volatile int*>(a[0]);
    if (op == 0 || op == 9) {
      SchedPoint();
      if (*addr != int(a[2])) {
        errno = EAGAIN;
        return -1;
      }
      Block(bFutex, uintptr_t(addr));
      return 0;
    }
    if (op == 1 || op == 10) {
      SchedPoint();
      int n = 0;
      for (int i = 0; i < g_nf && n < int(a[2]); ++i) {
        if (F[i].st == kBlocked && F[i].bk == bFutex && F[i].obj == uintptr_t(addr)) {
          F[i].st = kRun;
          ++n;
        }
      }
      return n;
    }
    errno = ENOSYS;
    return -1;
  }
  long ret;
  register long r10 asm("r10") = a[3];
  register long r8 asm("r8") = a[4];
  register long r9 asm("r9") = a[5];
  asm volatile("syscall"
               : "=a"(ret)
               : "a"(nr), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9)
               : "rcx", "r11", "memory");
  if (ret < 0 && ret > -4096) {
    errno = int(-ret);
    return -1;
  }
  return ret;
}

// static-local initialization guards
int __cxa_guard_acquire(long long int* g) {
  auto* b = reinterpret_cast<uint8_t*>(g);
  if (!g_on) {
    return b[0] ? 0 : 1;
  }
  while (b[0] == 0 && b[1] != 0) {
    Block(bGuard, uintptr_t(g));
  }
  if (b[0]) {
    Trace(7, uintptr_t(g), 0, 0);
    HbAcquire((*g_guardvc)[uintptr_t(g)]);
    return 0;
  }
  b[1] = 1;
  return 1;
}
void __cxa_guard_release(long long int* g) {
  auto* b = reinterpret_cast<uint8_t*>(g);
  b[0] = 1;
  b[1] = 0;
  if (g_on) {
    Trace(8, uintptr_t(g), 0, 0);
    Trace(3, uintptr_t(g), 1, __ATOMIC_RELEASE);
    HbRelease((*g_guardvc)[uintptr_t(g)]);
    (*g_sync)[uintptr_t(g)].vc = F[g_cur].vc;
    WakeAll(bGuard, uintptr_t(g));
  }
}
void __cxa_guard_abort(long long int* g) {
  reinterpret_cast<uint8_t*>(g)[1] = 0;
  if (g_on) {
    WakeAll(bGuard, uintptr_t(g));
  }
}

}  // extern "C"

// ==================================================================== driver
// usage: explore [options] JOBFILE|--list ; a job line: <scenario> [p0 p1 ...]
int main(int argc, char** argv) {
  Setup();
  const char* file = nullptr;
  const char* outf = nullptr;
  int par = 8;
  for (int i = 1; i < argc; ++i) {
    auto arg = [&](const char* n) {
      return strcmp(argv[i], n) == 0;
    };
    if (arg("--bound")) {
      O.bound = atoi(argv[++i]);
    } else if (arg("--max")) {
      O.max_exec = atol(argv[++i]);
    } else if (arg("--rand")) {
      O.rand_exec = atol(argv[++i]);
    } else if (arg("--sec")) {
      O.max_sec = atof(argv[++i]);
    } else if (arg("--seed")) {
      O.seed = strtoull(argv[++i], nullptr, 10);
    } else if (arg("--replay")) {
      O.replay = argv[++i];
    } else if (arg("--out")) {
      outf = argv[++i];
    } else if (arg("--par")) {
      par = atoi(argv[++i]);
    } else if (arg("--nomem")) {
      o_mem = false;
    } else if (arg("--memtrace")) {
      o_memtrace = true;
    } else if (arg("--lifetrace")) {
      o_lifetrace = true;
    } else if (arg("--memmax")) {
      g_memmax = atol(argv[++i]);
    } else if (arg("--spurious")) {
      o_spurious_cv = true;
    } else if (arg("--noweak")) {
      o_weak = 0;
    } else if (arg("--stale")) {
      o_stale = atoi(argv[++i]);
    } else if (arg("--steps")) {
      g_step_limit = atol(argv[++i]);
    } else if (arg("--list")) {
      for (auto& s : Scns()) {
        printf("%s\n", s.name);
      }
      return 0;
    } else {
      file = argv[i];
    }
  }
  if (!file || !outf) {
    Die("usage");
  }
  Vec<Job> jobs;
  FILE* f = fopen(file, "r");
  if (!f) {
    Die("job file");
  }
  char line[1024];
  while (fgets(line, sizeof line, f)) {
    Job j{};
    char* save = nullptr;
    char* tok = strtok_r(line, " \n", &save);
    if (!tok) {
      continue;
    }
    j.name = tok;
    for (auto& s : Scns()) {
      if (j.name == s.name) {
        j.fn = s.fn;
      }
    }
    if (!j.fn) {
      dprintf(2, "rt: unknown scenario %s\n", tok);
      return 4;
    }
    while ((tok = strtok_r(nullptr, " \n", &save)) != nullptr && j.n < 256) {
      j.p[j.n++] = atoi(tok);
      j.name += ' ';
      j.name += tok;
    }
    jobs.push_back(j);
  }
  fclose(f);
  // workers take contiguous interleaved slices; a crash ends one job only
  int running = 0;
  size_t next = 0;
  int worst = 0;
  std::map<int, size_t> who;
  size_t chunk = std::max<size_t>(1, std::min<size_t>(16, jobs.size() / (size_t(par) * 4 + 1)));
  struct Range {
    size_t b, e;
  };
  std::map<int, std::pair<Range, int>> live;
  Vec<Range> todo;
  for (; next < jobs.size(); next += chunk) {
    todo.push_back({next, std::min(jobs.size(), next + chunk)});
  }
  size_t ti = 0;
  int cnt = 0;
  Vec<Str> parts;
  // what the code does is wrong beyond doubt: no need to see it in every program
  long crashes = 0;
  double first_crash = 0;
  auto enough = [&] {
    return crashes >= 1000 || (crashes >= 20 && WallNow() - first_crash > 45) || *g_endless > 3000;
  };
  while (ti < todo.size() || running) {
    while (running < par && ti < todo.size() && !enough()) {
      Range r = todo[ti++];
      char nm[512];
      snprintf(nm, sizeof nm, "%s.%d", outf, cnt++);
      parts.push_back(nm);
      pid_t pid = fork();
      if (pid == 0) {
        struct itimerval tv = {{3, 0}, {3, 0}};
        setitimer(ITIMER_REAL, &tv, nullptr);
        g_out = open(nm, O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644);
        for (size_t k = r.b; k < r.e && *g_endless <= 3000; ++k) {
          g_seen->clear();
          g_memseen->clear();
          g_memdistinct = 0;
          g_membad = 0;
          WriteAll(Str("B\t") + jobs[k].name + "\n");
          RunJob(jobs[k]);
        }
        _exit(0);
      }
      live[pid] = {r, int(parts.size()) - 1};
      ++running;
    }
    if (!running) {
      break;
    }
    int st;
    pid_t p = waitpid(-1, &st, 0);
    if (p < 0) {
      break;
    }
    auto [r, pi] = live[p];
    live.erase(p);
    --running;
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
      if (crashes++ == 0) {
        first_crash = WallNow();
      }
      // find how far it got; continue behind the crashing job
      FILE* pf = fopen(parts[pi].c_str(), "r");
      size_t done = 0;
      char* ln = nullptr;
      size_t cap = 0;
      while (pf && getline(&ln, &cap, pf) > 0) {
        done += ln[0] == 'B';
      }
      free(ln);
      if (pf) {
        fclose(pf);
      }
      if (WIFEXITED(st) && WEXITSTATUS(st) == 3) {
        if (r.b + done < r.e) {
          todo.push_back({r.b + done, r.e});
        }
      } else {
        // not even the runtime survived what the code did (memory overwritten, arena exhausted, killed)
        dprintf(2, "rt: worker died (status %x) in job %s\n", st, done ? jobs[r.b + done - 1].name.c_str() : "?");
        if (done) {
          int po = open(parts[pi].c_str(), O_WRONLY | O_APPEND);
          Str l = Str("\nL\t") + jobs[r.b + done - 1].name + "\t-\tcrash|0|99\tthe execution destroyed the runtime\nX\t" +
                  jobs[r.b + done - 1].name + "\tcrash\n";
          if (write(po, l.data(), l.size()) != ssize_t(l.size())) {
            worst = 4;
          }
          close(po);
          if (r.b + done < r.e) {
            todo.push_back({r.b + done, r.e});
          }
        } else {
          worst = 4;
        }
      }
    }
  }
  if (enough()) {
    dprintf(1, "rt: enough\n");
  }
  // concatenate
  int o = open(outf, O_CREAT | O_TRUNC | O_WRONLY, 0644);
  static char buf[1 << 16];
  for (auto& p : parts) {
    int in = open(p.c_str(), O_RDONLY);
    ssize_t k;
    while (in >= 0 && (k = read(in, buf, sizeof buf)) > 0) {
      if (write(o, buf, size_t(k)) != k) {
        Die("write");
      }
    }
    close(in);
    unlink(p.c_str());
  }
  close(o);
  return worst;
}
