// C17: runs client programs on the FIBER backend with its own random engine and logs every observable decision:
// the numbers drawn, the resumed fibers, the client's events with the virtual time, the counters.
//   det MODE < labels      label: id progA progB seed freq cas pick sleep tick kind
// MODE  full     phase A and phase B, in the order given
//       twice    the same, every label twice in a row and once more after another label, heap in disorder
//       restored phase B only, continued from the (count, state) pair given at the end of the label
#include <yaclib/async/contract.hpp>
#include <yaclib/async/run.hpp>
#include <yaclib/async/shared_contract.hpp>
#include <yaclib/async/wait.hpp>
#include <yaclib/async/wait_for.hpp>
#include <yaclib/async/when_all.hpp>
#include <yaclib/async/when_any.hpp>
#include <yaclib/coro/await.hpp>
#include <yaclib/coro/coro.hpp>
#include <yaclib/coro/future.hpp>
#include <yaclib/coro/mutex.hpp>
#include <yaclib/coro/on.hpp>
#include <yaclib/coro/shared_mutex.hpp>
#include <yaclib/exe/strand.hpp>
#include <yaclib/exe/submit.hpp>
#include <yaclib/fault/config.hpp>
#include <yaclib/fault/inject.hpp>
#include <yaclib/runtime/fair_thread_pool.hpp>

#include <yaclib_std/atomic>
#include <yaclib_std/chrono>
#include <yaclib_std/condition_variable>
#include <yaclib_std/mutex>
#include <yaclib_std/random>
#include <yaclib_std/shared_mutex>
#include <yaclib_std/thread>
#include <yaclib_std/thread_local>

#include <sys/mman.h>
#include <unistd.h>

#include <algorithm>
#include <chrono>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <map>
#include <random>
#include <sstream>
#include <string>
#include <vector>

using namespace std::chrono_literals;

// Memory. A freed block is not used again while a program runs: whether the address of a freed node comes back decides
// the compare_exchange of lock-free lists (ABA), see the known finding (mode "aba" makes blocks come back at once). Blocks
// come from 64 arenas chosen by the process' own luck: the order of addresses is different in every run.
static bool gReuse = false;
static std::mt19937 gLuck;
static char* gArena[64];
static std::size_t gUsed[64];
static constexpr std::size_t kArena = std::size_t{1} << 32;
struct Head16 {
  std::size_t size;
  void* next;
};
static Head16* gFree[4096];
static void* Take(std::size_t n) {
  n = (n + 15) / 16 * 16 + (n == 0 ? 16 : 0);
  if (gReuse && n / 16 < 4096 && gFree[n / 16] != nullptr) {
    auto* h = gFree[n / 16];
    gFree[n / 16] = static_cast<Head16*>(h->next);
    return h + 1;
  }
  unsigned k = gLuck() % 64;
  if (gArena[k] == nullptr) {
    void* m = mmap(nullptr, kArena, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED) {
      _exit(4);
    }
    gArena[k] = static_cast<char*>(m);
  }
  auto* h = reinterpret_cast<Head16*>(gArena[k] + gUsed[k]);
  gUsed[k] += n + sizeof(Head16) + gLuck() % 8 * 16;
  h->size = n;
  std::memset(h + 1, static_cast<int>(gLuck()), n);
  return h + 1;
}
static void Give(void* p) {
  if (p == nullptr) {
    return;
  }
  auto* h = static_cast<Head16*>(p) - 1;
  if (gReuse && h->size / 16 < 4096) {
    h->next = gFree[h->size / 16];
    gFree[h->size / 16] = h;
  }
}
void* operator new(std::size_t n) {
  return Take(n);
}
void* operator new[](std::size_t n) {
  return Take(n);
}
void operator delete(void* p) noexcept {
  Give(p);
}
void operator delete[](void* p) noexcept {
  Give(p);
}
void operator delete(void* p, std::size_t) noexcept {
  Give(p);
}
void operator delete[](void* p, std::size_t) noexcept {
  Give(p);
}

static bool gOn = false;
static std::map<std::uint64_t, int> gIds;
static std::uint64_t gT0 = 0;
static int gN = 0;

static int Canon(std::uint64_t id) {
  return gIds.try_emplace(id, static_cast<int>(gIds.size()) + 1).first->second;
}
static int Me() {
  return Canon(yaclib::fault::Scheduler::GetId());
}
static int Time() {
  auto* s = yaclib::fault::Scheduler::GetScheduler();
  return static_cast<int>((s->GetTimeNs() - gT0) & 0x3fffffff);
}
// kind, fiber, two values
static void Obs(int kind, int who, std::uint64_t a, std::uint64_t b) {
  if (gOn) {
    ++gN;
    std::printf("%d,%d,%d,%d ", kind, who, static_cast<int>(a & 0x3fffffff), static_cast<int>(b & 0x3fffffff));
  }
}

// every draw and every switch, by the linker: nothing in the code under test
extern "C" __attribute__((weak)) std::uint64_t __real__ZN6yaclib6detail13GetRandNumberEm(std::uint64_t max);
extern "C" std::uint64_t __wrap__ZN6yaclib6detail13GetRandNumberEm(std::uint64_t max) {
  auto r = __real__ZN6yaclib6detail13GetRandNumberEm(max);
  Obs(1, static_cast<int>(max & 0xffffff), r, yaclib::fiber::GetFaultRandomCount());
  return r;
}
extern "C" __attribute__((weak)) void __real__ZN6yaclib6detail5fiber9FiberBase6ResumeEv(yaclib::detail::fiber::FiberBase* f);
extern "C" void __wrap__ZN6yaclib6detail5fiber9FiberBase6ResumeEv(yaclib::detail::fiber::FiberBase* f) {
  Obs(2, Canon(f->GetId()), Time(), yaclib::fiber::GetInjectorState());
  __real__ZN6yaclib6detail5fiber9FiberBase6ResumeEv(f);
}

static void E(int tag, std::uint64_t v = 0) {
  Obs(16 + tag, Me(), v, Time());
}

using yaclib_std::thread;
using Clock = yaclib_std::chrono::steady_clock;

static void Pool(int n) {
  yaclib::FairThreadPool tp{static_cast<std::size_t>(n)};
  std::vector<yaclib::FutureOn<int>> fs;
  yaclib_std::atomic<int> order{0};
  for (int i = 0; i < 4; ++i) {
    fs.push_back(yaclib::Run(tp, [&, i] {
      E(1, order.fetch_add(1) * 16 + i);
      return i;
    }).Then(tp, [&](int x) {
      E(2, x);
      return x + order.fetch_add(1);
    }));
  }
  for (auto& f : fs) {
    E(3, std::move(f).Get().Ok());
  }
  tp.Stop();
  tp.Wait();
}

static void Strands() {
  yaclib::FairThreadPool tp{2};
  auto s1 = yaclib::MakeStrand(&tp);
  auto s2 = yaclib::MakeStrand(&tp);
  int c1 = 0;
  yaclib_std::atomic<int> c2{0};
  std::vector<thread> ts;
  for (int t = 0; t < 2; ++t) {
    ts.emplace_back([&, t] {
      for (int i = 0; i < 3; ++i) {
        yaclib::Submit(*s1, [&, t, i] {
          E(1, c1++ * 16 + t * 4 + i);
        });
        yaclib::Submit(*s2, [&, t, i] {
          E(2, c2.fetch_add(1) * 16 + t * 4 + i);
        });
      }
    });
  }
  for (auto& t : ts) {
    t.join();
  }
  tp.SoftStop();
  tp.Wait();
  E(3, c1 * 100 + c2.load());
}

static void Timed() {
  yaclib_std::timed_mutex m;
  yaclib_std::mutex cm;
  yaclib_std::condition_variable cv;
  yaclib_std::shared_timed_mutex sm;
  bool flag = false;
  std::vector<thread> ts;
  for (int t = 0; t < 3; ++t) {
    ts.emplace_back([&, t] {
      if (m.try_lock_for(40ns)) {
        E(1, t);
        yaclib_std::this_thread::sleep_for(30ns);
        m.unlock();
      } else {
        E(2, t);
      }
      std::unique_lock lk{cm};
      bool r = cv.wait_for(lk, 100ns, [&] { return flag; });
      E(3, t * 2 + r);
      lk.unlock();
      if (t == 1) {
        if (sm.try_lock_for(50ns)) {
          E(4, t);
          yaclib_std::this_thread::sleep_for(20ns);
          sm.unlock();
        }
      } else if (sm.try_lock_shared_for(50ns)) {
        E(5, t);
        yaclib_std::this_thread::sleep_for(20ns);
        sm.unlock_shared();
      }
    });
  }
  yaclib_std::this_thread::sleep_for(90ns);
  {
    std::lock_guard lk{cm};
    flag = true;
  }
  cv.notify_one();
  cv.notify_all();
  for (auto& t : ts) {
    t.join();
  }
  auto [f, p] = yaclib::MakeContract<int>();
  thread setter{[p = std::move(p)]() mutable {
    yaclib_std::this_thread::sleep_for(60ns);
    std::move(p).Set(7);
  }};
  bool r = yaclib::WaitFor(50ns, f);
  E(6, r);
  E(7, std::move(f).Get().Ok());
  setter.join();
}

static yaclib::Future<int> Crit(yaclib::FairThreadPool& tp, yaclib::Mutex<>& m, yaclib::SharedMutex<>& sm, int& x, int i) {
  co_await On(tp);
  E(1, i);
  co_await m.Lock();
  int y = ++x;
  E(2, y);
  m.UnlockHere();
  if (i % 2 == 0) {
    co_await sm.Lock();
    E(3, i);
    sm.UnlockHere();
  } else {
    co_await sm.LockShared();
    E(4, i);
    sm.UnlockHereShared();
  }
  co_return y;
}
static void Coroutines() {
  yaclib::FairThreadPool tp{2};
  yaclib::Mutex<> m;
  yaclib::SharedMutex<> sm;
  int x = 0;
  auto a = Crit(tp, m, sm, x, 0);
  auto b = Crit(tp, m, sm, x, 1);
  auto c = Crit(tp, m, sm, x, 2);
  yaclib::Wait(a, b, c);
  E(5, std::move(a).Get().Ok() * 100 + std::move(b).Get().Ok() * 10 + std::move(c).Get().Ok());
  tp.HardStop();
  tp.Wait();
}

static void Cas() {
  yaclib_std::atomic<unsigned> a{0};
  yaclib_std::atomic<int> fails{0};
  std::vector<thread> ts;
  for (unsigned t = 0; t < 4; ++t) {
    ts.emplace_back([&, t] {
      for (int i = 0; i < 3; ++i) {
        unsigned e = a.load();
        while (!a.compare_exchange_weak(e, e * 3 + t)) {
          fails.fetch_add(1);
        }
        E(1, e);
      }
    });
  }
  for (auto& t : ts) {
    t.join();
  }
  E(2, a.load());
  E(3, fails.load());
}

static void Combine() {
  yaclib::FairThreadPool tp{3};
  std::vector<yaclib::FutureOn<int>> all;
  std::vector<yaclib::FutureOn<int>> any;
  auto [sf, sp] = yaclib::MakeSharedContract<int>();
  for (int i = 0; i < 3; ++i) {
    all.push_back(yaclib::Run(tp, [i] { return i; }));
    any.push_back(yaclib::Run(tp, [i] {
      E(1, i);
      return i;
    }));
    yaclib::Run(tp, [sf = sf, i] {
      E(2, sf.Get().Ok() * 10 + i);
    }).Detach();
  }
  std::move(sp).Set(5);
  E(3, std::move(yaclib::WhenAny(any.begin(), any.size())).Get().Ok());
  E(4, std::move(yaclib::WhenAll(all.begin(), all.size())).Get().Ok().size());
  tp.Stop();
  tp.Wait();
}

YACLIB_THREAD_LOCAL_PTR(int) tlsA;
YACLIB_THREAD_LOCAL_PTR(int) tlsB;

static void Misc() {
  yaclib_std::random::random_device rd;
  int cells[8];
  yaclib_std::shared_mutex sm;
  yaclib_std::recursive_mutex rm;
  int shared = 0;
  std::vector<thread> ts;
  for (int t = 0; t < 8; ++t) {
    ts.emplace_back([&, t] {
      tlsA = &cells[t];
      yaclib_std::this_thread::sleep_for(std::chrono::nanoseconds{10 * (t % 3)});  // equal deadlines
      if (t % 3 == 0) {
        sm.lock();
        E(1, ++shared);
        sm.unlock();
      } else {
        sm.lock_shared();
        E(2, shared);
        sm.unlock_shared();
      }
      rm.lock();
      rm.lock();
      E(3, rd() % 1000);
      rm.unlock();
      yaclib_std::this_thread::yield();
      rm.unlock();
      int* p = tlsA.Get();
      E(4, p - cells);
    });
  }
  for (auto& t : ts) {
    t.join();
  }
}

static void Many() {
  std::vector<thread> ts;
  yaclib_std::atomic<int> a{0};
  for (int t = 0; t < 24; ++t) {
    ts.emplace_back([&, t] {
      E(1, t);
      a.fetch_add(t);
      if (t % 4 == 0) {
        yaclib_std::this_thread::sleep_for(15ns);
      }
      E(2, a.load());
    });
  }
  for (auto& t : ts) {
    t.join();
  }
}

static void Program(int p) {
  switch (p) {
    case 0: return Pool(2);
    case 1: return Strands();
    case 2: return Timed();
    case 3: return Coroutines();
    case 4: return Cas();
    case 5: return Combine();
    case 6: return Misc();
    case 7: return Many();
    case 8: return Pool(4);
  }
}

struct Label {
  int id, pa, pb;
  unsigned seed, freq, cas, pick, sleep, tick;
  int kind;
  std::uint64_t count = 0;
  unsigned state = 0;
};

static void Configure(const Label& l) {
  yaclib::SetFaultFrequency(l.freq);
  yaclib::SetAtomicFailFrequency(l.cas);
  yaclib::SetFaultSleepTime(l.sleep);
  yaclib::fiber::SetFaultRandomListPick(l.pick);
  yaclib::fiber::SetFaultTickLength(l.tick);
  yaclib::fiber::SetHardwareConcurrency(4);
  yaclib::fiber::SetStackSize(16);
}

static std::mt19937 gJunk;
static std::vector<void*> gHeap;
static bool gDisorder = false;

// the heap and the counters outside of the (program, seed, configuration) are different in every run
static void Disorder() {
  if (!gDisorder) {
    return;
  }
  for (int i = 0; i < 400; ++i) {
    if (gHeap.size() > 300 || (!gHeap.empty() && gJunk() % 3 == 0)) {
      std::size_t k = gJunk() % gHeap.size();
      std::free(gHeap[k]);
      gHeap[k] = gHeap.back();
      gHeap.pop_back();
    } else {
      std::size_t n = 16 + gJunk() % 4000;
      gHeap.push_back(std::malloc(n));
      std::memset(gHeap.back(), static_cast<int>(gJunk()), n);
    }
  }
  usleep(gJunk() % 2000);
}

static bool gInFiber = false;
static void Begin(bool out) {
  gIds.clear();
  gInFiber = yaclib::fault::Scheduler::Current() != nullptr;
  auto* s = yaclib::fault::Scheduler::GetScheduler();
  gT0 = gInFiber && s != nullptr ? s->GetTimeNs() : 0;
  gN = 0;
  gOn = out;
}
static std::uint64_t gInj;

static void Phase(int p) {
  gInj = yaclib::GetInjectedCount();
  Program(p);
  Obs(3, 0, yaclib::fiber::GetFaultRandomCount(), yaclib::fiber::GetInjectorState());
  Obs(4, 0, yaclib::GetInjectedCount() - gInj, Time());
}

template <typename F>
void OnScheduler(F f) {
  yaclib::fault::Scheduler scheduler;
  yaclib::fault::Scheduler::Set(&scheduler);
  Disorder();
  thread main{[&] { f(); }};
  main.join();
}

static void Head(const Label& l, const char* what) {
  std::printf("%d %s ", l.id, what);
}
static void Point() {
  // a recorded point
  std::printf("\n");
  std::fflush(stdout);
}

static void Full(const Label& l) {
  Configure(l);
  Disorder();
  yaclib::SetSeed(l.seed);
  yaclib::fiber::SetInjectorState(0);
  // kind 0: two schedulers, one after another; kind 1: both phases on the same scheduler
  auto phase = [&](const char* name, int prog, bool inside) {
    Head(l, name);
    Begin(true);
    if (inside) {
      Phase(prog);
    } else {
      OnScheduler([&] { Phase(prog); });
    }
    gOn = false;
    Point();
  };
  auto pair = [&] {
    Head(l, "P");
    std::printf("%llu %u\n", static_cast<unsigned long long>(yaclib::fiber::GetFaultRandomCount()),
                yaclib::fiber::GetInjectorState());
  };
  auto both = [&](bool inside) {
    phase("A", l.pa, inside);
    Disorder();
    pair();
    phase("B", l.pb, inside);
  };
  if (l.kind == 0) {
    both(false);
  } else {
    OnScheduler([&] { both(true); });
  }
}

static void Restored(const Label& l) {
  Configure(l);
  auto second = [&] {
    yaclib::SetSeed(l.seed);
    yaclib::fiber::ForwardToFaultRandomCount(l.count);
    yaclib::fiber::SetInjectorState(l.state);
    Head(l, "B");
    Begin(true);
    if (l.kind == 0) {
      OnScheduler([&] { Phase(l.pb); });
    } else {
      Phase(l.pb);
    }
    gOn = false;
    Point();
  };
  if (l.kind == 0) {
    second();
  } else {
    OnScheduler(second);
  }
}

static void OnSignal(int sig) {
  std::printf(" CRASH %d\n", sig);
  std::fflush(stdout);
  _exit(3);
}

int main(int, char** argv) {
  for (int sig : {SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS}) {
    std::signal(sig, OnSignal);
  }
  std::string mode = argv[1];
  gLuck.seed(static_cast<unsigned>(getpid()) * 40503u + static_cast<unsigned>(std::chrono::steady_clock::now().time_since_epoch().count()));
  gJunk.seed(static_cast<unsigned>(getpid()) * 2654435761u + static_cast<unsigned>(std::chrono::steady_clock::now().time_since_epoch().count()));
  std::vector<Label> ls;
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in{line};
    Label l;
    in >> l.id >> l.pa >> l.pb >> l.seed >> l.freq >> l.cas >> l.pick >> l.sleep >> l.tick >> l.kind;
    in >> l.count >> l.state;
    ls.push_back(l);
  }
  for (std::size_t i = 0; i < ls.size(); ++i) {
    if (mode == "full" || mode == "aba") {
      gReuse = mode == "aba";
      Full(ls[i]);
    } else if (mode == "twice") {
      gDisorder = true;
      Full(ls[i]);
      Full(ls[i]);
      if (i != 0) {
        Full(ls[i - 1]);
      }
    } else {
      gDisorder = true;
      Disorder();
      Restored(ls[i]);
    }
  }
  std::printf("DONE\n");
}
