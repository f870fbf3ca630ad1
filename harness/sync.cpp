// C18: programs of lock / condition variable / thread / thread-local operations run on the real FIBER backend. Every draw of
// the backend's random engine and every injected yield is a choice of the explorer below: depth-first up to a number of
// deviations from the first alternative, then random.
//   sync KINDS PROG/PROG/.. BOUND MAX RAND SEED [SCHEDULE]
// KINDS: one digit per lock object: 0 mutex, 1 timed_mutex, 2 recursive_mutex, 3 recursive_timed_mutex, 4 shared_mutex,
// 5 shared_timed_mutex. PROG: operations separated by commas, see Step. Fiber 0 starts the others and joins them.
// Output: one line "schedule<TAB>log" per execution with a new log.
#include <yaclib/fault/config.hpp>
#include <yaclib/fault/detail/fiber/scheduler.hpp>
#include <yaclib/fault/inject.hpp>

#include <yaclib_std/chrono>
#include <yaclib_std/condition_variable>
#include <yaclib_std/mutex>
#include <yaclib_std/shared_mutex>
#include <yaclib_std/thread>
#include <yaclib_std/thread_local>

#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <random>
#include <string>
#include <unistd.h>
#include <unordered_set>
#include <vector>

using Clock = yaclib_std::chrono::steady_clock;
using Ns = std::chrono::nanoseconds;

static std::string gLog;
static std::string gSched;
static constexpr int kMaxChoices = 3000;

// ---------------------------------------------------------------- the explorer
struct Pt {
  int n, c;
};
static std::vector<Pt> gPath;
static std::size_t gPos;
static int gPrefix;
static bool gOn = false;
static bool gRandom = false;
static std::mt19937_64 gRnd;
static int gRate = 4;

static void Sched() {
  gSched.clear();
  for (auto& p : gPath) {
    gSched += static_cast<char>('0' + p.c);
  }
  while (!gSched.empty() && gSched.back() == '0') {
    gSched.pop_back();
  }
  if (gSched.empty()) {
    gSched = "0";
  }
}
[[noreturn]] static void Die(const char* what, int code) {
  gOn = false;
  Sched();
  std::string s = gSched + "\t" + gLog + what + "|0|" + std::to_string(code) + "\n";
  auto r = write(1, s.data(), s.size());
  (void)r;
  _exit(3);
}
static int Choose(int n) {
  if (!gOn || n <= 1) {
    return 0;
  }
  if (gPos < gPath.size()) {
    auto& p = gPath[gPos++];
    p.n = n;
    if (p.c >= n) {
      p.c = n - 1;
    }
    return p.c;
  }
  if (gPath.size() > kMaxChoices) {
    Die("hang", 1);
  }
  int c = 0;
  if (gRandom && static_cast<int>(gRnd() % 16) < gRate) {
    c = static_cast<int>(gRnd() % n);
  }
  gPath.push_back({n, c});
  ++gPos;
  return c;
}

namespace yaclib {
namespace detail {
std::uint64_t GetRandNumber(std::uint64_t max);
}
}  // namespace yaclib

// replacements of the two sources of choices (see --wrap in tools/check.py). They only have to be legal implementations of
// the wrapped functions: a number below max, and a yield which may or may not happen
static constexpr std::uint64_t kPick = 3;
extern "C" std::uint64_t __wrap__ZN6yaclib6detail13GetRandNumberEm(std::uint64_t max) {
  if (max == 2 * kPick) {  // element of a list: first, second, third, last
    int c = Choose(4);
    return c < 3 ? c : kPick;
  }
  if (max <= 1) {
    return 0;
  }
  return Choose(2) == 0 ? 0 : max - 1;
}
extern "C" void __wrap__ZN6yaclib11InjectFaultEv() {
  if (gOn && yaclib::fault::Scheduler::Current() != nullptr && Choose(2) != 0) {
    yaclib_std::this_thread::yield();
  }
}

// ---------------------------------------------------------------- the client
struct Op {
  char c;
  int a, b;
  long d;
};
static std::vector<std::vector<Op>> gProg;
static std::vector<int> gKind;

struct Obj {
  yaclib_std::mutex m;
  yaclib_std::timed_mutex tm;
  yaclib_std::recursive_mutex rm;
  yaclib_std::recursive_timed_mutex rtm;
  yaclib_std::shared_mutex sm;
  yaclib_std::shared_timed_mutex stm;
};
struct World {
  Obj obj[3];
  yaclib_std::condition_variable cv[2];
  int flag[2] = {0, 0};
  int held[8][3] = {};
  int sheld[8][3] = {};
  long dl[8] = {-1, -1, -1, -1, -1, -1, -1, -1};
  yaclib_std::thread th[8];
  yaclib_std::thread::id id[8] = {};
  bool alive[8] = {};
};
static World* w;
static int gVals[8];
static YACLIB_THREAD_LOCAL_PTR(int) gTls0;
static YACLIB_THREAD_LOCAL_PTR(int) gTls1{&gVals[1]};
static YACLIB_THREAD_LOCAL_PTR(int) gTls2;

static long Now() {
  return std::chrono::duration_cast<Ns>(Clock::now().time_since_epoch()).count();
}
// fibers in a timed operation whose deadline has passed
static int Mask() {
  int m = 0;
  long now = Now();
  for (int i = 0; i < 8; ++i) {
    if (w->dl[i] >= 0 && w->dl[i] <= now) {
      m |= 1 << i;
    }
  }
  return m;
}
static void Ev(const char* e, int t, std::initializer_list<int> a) {
  gLog += e;
  gLog += '|';
  gLog += std::to_string(t);
  for (int x : a) {
    gLog += '|';
    gLog += std::to_string(x);
  }
  gLog += ' ';
  if (gLog.size() > 20000) {
    Die("hang", 2);
  }
}
static void Inv(int t, int op, int o, int m = 0, long d = -1) {
  w->dl[t] = d < 0 ? -1 : Now() + d;
  Ev("inv", t, {op, o, m, Mask()});
}
static void Ret(int t, int v) {
  int m = Mask();
  w->dl[t] = -1;
  Ev("ret", t, {v, m});
}

#define EACH(o, EX)           \
  switch (gKind[o]) {         \
    case 0: {                 \
      auto& x = w->obj[o].m;  \
      EX;                     \
    } break;                  \
    case 1: {                 \
      auto& x = w->obj[o].tm; \
      EX;                     \
    } break;                  \
    case 2: {                 \
      auto& x = w->obj[o].rm; \
      EX;                     \
    } break;                  \
    case 3: {                 \
      auto& x = w->obj[o].rtm;\
      EX;                     \
    } break;                  \
    case 4: {                 \
      auto& x = w->obj[o].sm; \
      EX;                     \
    } break;                  \
    case 5: {                 \
      auto& x = w->obj[o].stm;\
      EX;                     \
    } break;                  \
  }
template <typename M>
static bool TryFor(M& m, long d) {
  if (d % 10 == 1) {
    return m.try_lock_until(Clock::now() + Ns{d});
  }
  return m.try_lock_for(Ns{d});
}
static bool TryShFor(yaclib_std::shared_timed_mutex& m, long d) {
  if (d % 10 == 1) {
    return m.try_lock_shared_until(Clock::now() + Ns{d});
  }
  return m.try_lock_shared_for(Ns{d});
}
static void Body(int t);

static void Spawn(int t, int f) {
  Ev("spawn", t, {f});
  w->alive[f] = true;
  if (f % 2 == 0) {
    w->th[f] = yaclib_std::thread{[f] {
      Body(f);
    }};
  } else {
    yaclib_std::thread tmp{[f] {
      Body(f);
    }};
    yaclib_std::thread tmp2{std::move(tmp)};
    w->th[f].swap(tmp2);
  }
}
static void Join(int t, int f) {
  w->alive[f] = false;
  bool ok = w->th[f].joinable();
  auto id = w->th[f].get_id();
  Inv(t, 17, f);
  w->th[f].join();
  ok = ok && !w->th[f].joinable() && id == w->id[f] && yaclib_std::this_thread::get_id() == w->id[t];
  for (int i = 0; i < 8; ++i) {
    ok = ok && (i == f || w->id[i] != id);
  }
  Ret(t, ok ? 1 : 0);
}

// what std::thread objects without a thread do
static int Empty() {
  bool ok = true;
  yaclib_std::thread a;
  ok = ok && !a.joinable() && a.get_id() == yaclib_std::thread{}.get_id();
  bool thrown = false;
  try {
    a.join();
  } catch (const std::system_error&) {
    thrown = true;
  }
  ok = ok && thrown;
  thrown = false;
  try {
    a.detach();
  } catch (const std::system_error&) {
    thrown = true;
  }
  ok = ok && thrown;
  int n = 0;
  yaclib_std::thread b{[&n] {
    ++n;
  }};
  ok = ok && b.joinable() && b.get_id() != yaclib_std::thread{}.get_id() && b.get_id() != yaclib_std::this_thread::get_id();
  auto id = b.get_id();
  a = std::move(b);
  ok = ok && !b.joinable() && a.joinable() && a.get_id() == id;
  a.swap(b);
  ok = ok && !a.joinable() && b.joinable() && b.get_id() == id;
  yaclib_std::thread c{std::move(b)};
  ok = ok && !b.joinable() && c.joinable() && c.get_id() == id;
  c.join();
  return ok && n == 1 && !c.joinable() && c.get_id() == a.get_id() ? 1 : 0;
}

static void Step(int t, const Op& o) {
  switch (o.c) {
    case 'L':
      if (w->held[t][o.a] != 0 && gKind[o.a] != 2 && gKind[o.a] != 3) {
        return;
      }
      Inv(t, 1, o.a);
      EACH(o.a, x.lock());
      ++w->held[t][o.a];
      Ret(t, 1);
      break;
    case 'T': {
      if (w->held[t][o.a] != 0 && gKind[o.a] != 2 && gKind[o.a] != 3) {
        return;
      }
      bool r = false;
      Inv(t, 2, o.a);
      EACH(o.a, r = x.try_lock());
      w->held[t][o.a] += r ? 1 : 0;
      Ret(t, r ? 1 : 0);
    } break;
    case 'D': {
      if (w->held[t][o.a] != 0 && gKind[o.a] != 3) {
        return;
      }
      bool r = false;
      Inv(t, 3, o.a, 0, o.d);
      if (gKind[o.a] == 1) {
        r = TryFor(w->obj[o.a].tm, o.d);
      } else if (gKind[o.a] == 3) {
        r = TryFor(w->obj[o.a].rtm, o.d);
      } else {
        r = TryFor(w->obj[o.a].stm, o.d);
      }
      w->held[t][o.a] += r ? 1 : 0;
      Ret(t, r ? 1 : 0);
    } break;
    case 'U':
      if (w->held[t][o.a] == 0) {
        return;
      }
      --w->held[t][o.a];
      Inv(t, 4, o.a);
      EACH(o.a, x.unlock());
      Ret(t, 1);
      break;
    case 'R':
      Inv(t, 5, o.a);
      if (gKind[o.a] == 4) {
        w->obj[o.a].sm.lock_shared();
      } else {
        w->obj[o.a].stm.lock_shared();
      }
      ++w->sheld[t][o.a];
      Ret(t, 1);
      break;
    case 'Q': {
      Inv(t, 6, o.a);
      bool r = gKind[o.a] == 4 ? w->obj[o.a].sm.try_lock_shared() : w->obj[o.a].stm.try_lock_shared();
      w->sheld[t][o.a] += r ? 1 : 0;
      Ret(t, r ? 1 : 0);
    } break;
    case 'E': {
      Inv(t, 7, o.a, 0, o.d);
      bool r = TryShFor(w->obj[o.a].stm, o.d);
      w->sheld[t][o.a] += r ? 1 : 0;
      Ret(t, r ? 1 : 0);
    } break;
    case 'V':
      if (w->sheld[t][o.a] == 0) {
        return;
      }
      --w->sheld[t][o.a];
      Inv(t, 8, o.a);
      if (gKind[o.a] == 4) {
        w->obj[o.a].sm.unlock_shared();
      } else {
        w->obj[o.a].stm.unlock_shared();
      }
      Ret(t, 1);
      break;
    case 'W':
    case 'X':
    case 'P':
    case 'Y': {
      if (w->held[t][o.b] == 0) {
        return;
      }
      int r = 1;
      auto pred = [a = o.a] {
        return w->flag[a] != 0;
      };
      std::unique_lock<yaclib_std::mutex> lk{w->obj[o.b].m, std::adopt_lock};
      if (o.c == 'W') {
        Inv(t, 10, o.a, o.b);
        w->cv[o.a].wait(lk);
      } else if (o.c == 'P') {
        Inv(t, 12, o.a, o.b);
        w->cv[o.a].wait(lk, pred);
      } else if (o.c == 'X') {
        Inv(t, 11, o.a, o.b, o.d);
        r = (o.d % 10 == 1 ? w->cv[o.a].wait_until(lk, Clock::now() + Ns{o.d}) : w->cv[o.a].wait_for(lk, Ns{o.d})) ==
            std::cv_status::no_timeout;
      } else {
        Inv(t, 13, o.a, o.b, o.d);
        r = o.d % 10 == 1 ? w->cv[o.a].wait_until(lk, Clock::now() + Ns{o.d}, pred) : w->cv[o.a].wait_for(lk, Ns{o.d}, pred);
      }
      bool own = lk.owns_lock() && lk.release() == &w->obj[o.b].m;
      Ret(t, own ? r : 9);
    } break;
    case 'N':
      Inv(t, 14, o.a);
      w->cv[o.a].notify_one();
      Ret(t, 1);
      break;
    case 'A':
      Inv(t, 15, o.a);
      w->cv[o.a].notify_all();
      Ret(t, 1);
      break;
    case 'F':
      w->flag[o.a] = static_cast<int>(o.d);
      Ev("set", t, {o.a, static_cast<int>(o.d)});
      break;
    case 'S':
      Inv(t, 16, 0, 0, o.d);
      if (o.d % 10 == 1) {
        yaclib_std::this_thread::sleep_until(Clock::now() + Ns{o.d});
      } else {
        yaclib_std::this_thread::sleep_for(Ns{o.d});
      }
      Ret(t, 1);
      break;
    case 'Z':
      yaclib_std::this_thread::yield();
      break;
    case 'B':
      Ev("chk", t, {Empty()});
      break;
    case 'C':
      Spawn(t, o.a);
      break;
    case 'J':
      Join(t, o.a);
      break;
    case 'K':
      w->alive[o.a] = false;
      w->th[o.a].detach();
      break;
    case 'G':
    case 'H':
    case 'M': {
      auto get = [](int i) -> int {
        int* p = i == 0 ? gTls0.Get() : i == 1 ? gTls1.Get() : gTls2.Get();
        return p == nullptr ? 0 : static_cast<int>(p - gVals);
      };
      if (o.c == 'H') {
        int* p = o.d == 0 ? nullptr : &gVals[o.d];
        o.a == 0 ? gTls0 = p : o.a == 1 ? gTls1 = p : gTls2 = p;
        Ev("tset", t, {o.a, static_cast<int>(o.d)});
      } else if (o.c == 'M') {
        o.a == 0 ? gTls0 = gTls2 : o.a == 1 ? gTls1 = gTls2 : gTls2 = gTls1;
        Ev("tcpy", t, {o.a, o.a == 2 ? 1 : 2});
      } else {
        Ev("tget", t, {o.a, get(o.a)});
      }
    } break;
  }
}

static void Body(int t) {
  w->id[t] = yaclib_std::this_thread::get_id();
  Ev("beg", t, {});
  bool manual = false;
  for (auto& o : gProg[t]) {
    manual = manual || o.c == 'C';
  }
  if (t == 0 && !manual) {
    for (std::size_t i = 1; i < gProg.size(); ++i) {
      Spawn(0, static_cast<int>(i));
    }
  }
  for (auto& o : gProg[t]) {
    Step(t, o);
  }
  if (t == 0) {
    for (std::size_t i = 1; i < gProg.size(); ++i) {
      if (w->alive[i]) {
        Join(0, static_cast<int>(i));
      }
    }
  }
  Ev("fin", t, {});
}

static bool Execute() {
  gLog.clear();
  gPos = 0;
  w = new World;
  auto* sch = new yaclib::fault::Scheduler;
  yaclib::fault::Scheduler::Set(sch);
  Ev("cfg", 0, {gKind[0], gKind.size() > 1 ? gKind[1] : 0, gKind.size() > 2 ? gKind[2] : 0});
  bool done = false;
  gOn = true;
  // the constructor returns when no fiber is able to run
  auto* root = new yaclib_std::thread{[&done] {
    Body(0);
    done = true;
  }};
  gOn = false;
  Ev("end", 0, {done ? 0 : 1});
  if (done) {
    root->join();
    delete root;
    delete w;
    delete sch;
  }
  gLog.pop_back();
  Sched();
  return done;
}

static void Handler(int s) {
  Die("crash", s);
}

int main(int argc, char** argv) {
  for (char* p = argv[1]; *p != 0; ++p) {
    gKind.push_back(*p - '0');
  }
  gProg.emplace_back();
  for (char* p = argv[2]; *p != 0;) {
    if (*p == '/') {
      gProg.emplace_back();
      ++p;
    } else if (*p == ',' || *p == '-') {
      ++p;
    } else {
      Op o{*p++, 0, 0, 0};
      if (*p >= '0' && *p <= '9') {
        o.a = *p++ - '0';
      }
      if (*p >= '0' && *p <= '9') {
        o.b = *p++ - '0';
      }
      if (*p == ':') {
        o.d = std::strtol(p + 1, &p, 10);
      }
      gProg.back().push_back(o);
    }
  }
  int bound = std::atoi(argv[3]), max = std::atoi(argv[4]), rnd = std::atoi(argv[5]);
  gRnd.seed(std::atoi(argv[6]));
  yaclib::SetFaultSleepTime(21);
  yaclib::SetAtomicFailFrequency(1 << 30);
  yaclib::fiber::SetFaultRandomListPick(kPick);
  yaclib::fiber::SetFaultTickLength(10);
  static char alt[65536];
  stack_t ss{};
  ss.ss_sp = alt;
  ss.ss_size = sizeof(alt);
  sigaltstack(&ss, nullptr);
  struct sigaction sa {};
  sa.sa_handler = Handler;
  sa.sa_flags = SA_ONSTACK;
  for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGILL, SIGFPE, SIGALRM}) {
    sigaction(s, &sa, nullptr);
  }
  std::unordered_set<std::string> seen;
  auto out = [&] {
    if (seen.insert(gLog).second) {
      std::printf("%s\t%s\n", gSched.c_str(), gLog.c_str());
      std::fflush(stdout);
    }
  };
  alarm(100);
  if (argc > 7) {
    for (char* p = argv[7]; *p != 0; ++p) {
      gPath.push_back({99, *p - '0'});
    }
    Execute();
    out();
    std::printf("DONE\n");
    return 0;
  }
  int n = 0, stuck = 0;
  bool complete = true;
  for (int b = 0; b <= bound && stuck < 20; ++b) {
    gPath.clear();
    for (int k = 0;; ++k) {
      if (k >= max / (bound + 1) * (b + 1) || stuck >= 200) {
        complete = false;
        break;
      }
      stuck += Execute() ? 0 : 1;
      ++n;
      int cost = 0;
      for (auto& p : gPath) {
        cost += p.c != 0;
      }
      if (cost == b || b == 0) {
        out();
      }
      if (b == 0) {
        break;
      }
      while (!gPath.empty()) {
        auto& p = gPath.back();
        cost -= p.c != 0;
        if (p.c + 1 < p.n && cost + 1 <= b) {
          ++p.c;
          break;
        }
        gPath.pop_back();
      }
      if (gPath.empty()) {
        break;
      }
    }
  }
  gRandom = true;
  for (int k = 0; k < rnd && stuck < 400; ++k) {
    gPath.clear();
    gRate = 1 + k % 12;
    stuck += Execute() ? 0 : 1;
    ++n;
    out();
  }
  std::printf("DONE %d %d\n", n, complete ? 1 : 0);
}
