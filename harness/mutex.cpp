// C14: coroutines doing rounds through the coroutine mutex.
#include "exec.hpp"
#include "vals.hpp"

#include <array>
#include <thread>
#include <vector>
#include <yaclib/async/future.hpp>
#include <yaclib/coro/await.hpp>
#include <yaclib/coro/coro.hpp>
#include <yaclib/coro/future.hpp>
#include <yaclib/coro/mutex.hpp>
#include <yaclib/coro/on.hpp>
#include <yaclib/coro/yield.hpp>

using namespace yaclib;
using rt::Ev;

namespace {

int g_shared;  // touched by every critical section, unsynchronised otherwise

constexpr int kForms = 23;

template <typename M>
struct Env {
  M m;
  IExecutor* e[2];
  int rounds, sleep;
};

inline void Crit() {
  int x = g_shared;
  rt::Point();
  g_shared = x + 1;
}

// suspends inside of the critical section, so that even one worker sees contention
#define BODY(ID)                \
  Ev("got", {ID});              \
  Crit();                       \
  if (v.sleep & 1) {            \
    co_await kYield;            \
    Crit();                     \
  }                             \
  Ev("rel", {ID});

template <typename M>
Future<> Co(Env<M>& v, int c, int f0, int home) {
  co_await On(*v.e[home]);
  for (int r = 0; r < v.rounds; ++r) {
    const int id = c * v.rounds + r + 1;
    const int f = (f0 + r * 5) % kForms;
    IExecutor& other = *v.e[f & 1];
    switch (f) {
      case 0:
        Ev("req", {id});
        co_await v.m.Lock();
        BODY(id)
        co_await v.m.Unlock();
        break;
      case 1:
        Ev("req", {id});
        co_await v.m.Lock();
        BODY(id)
        co_await v.m.UnlockOn(other);
        break;
      case 2:
        Ev("req", {id});
        co_await v.m.Lock();
        BODY(id)
        v.m.UnlockHere();
        break;
      case 3: {
        Ev("req", {id});
        auto g = co_await v.m.Guard();
        BODY(id)
      } break;
      case 4: {
        Ev("req", {id});
        auto g = co_await v.m.Guard();
        BODY(id)
        co_await g.Unlock();
      } break;
      case 5: {
        Ev("req", {id});
        auto g = co_await v.m.Guard();
        BODY(id)
        co_await g.UnlockOn(other);
      } break;
      case 6: {
        Ev("req", {id});
        auto g = co_await v.m.Guard();
        BODY(id)
        auto g2 = std::move(g);
        g2.UnlockHere();
      } break;
      case 7: {
        Ev("req", {id});
        auto g = co_await v.m.GuardSticky();
        BODY(id)
        co_await g.Unlock();
      } break;
      case 8: {
        Ev("req", {id});
        auto g = co_await v.m.GuardSticky();
        BODY(id)
      } break;
      case 9: {
        Ev("req", {id});
        auto g = co_await v.m.GuardSticky();
        BODY(id)
        co_await g.UnlockOn(other);
      } break;
      case 10: {
        Ev("try", {id});
        bool ok = v.m.TryLock();
        Ev("tryr", {id, ok});
        if (ok) {
          Crit();
          if (v.sleep & 2) {
            co_await kYield;
          }
          Ev("rel", {id});
          v.m.UnlockHere();
        }
      } break;
      case 11: {
        Ev("try", {id});
        auto g = v.m.TryGuard();
        Ev("tryr", {id, bool(g)});
        if (g) {
          Crit();
          if (v.sleep & 2) {
            co_await kYield;
          }
          Ev("rel", {id});
        }
      } break;
      case 12: {
        Ev("try", {id});
        bool ok = v.m.TryLock();
        Ev("tryr", {id, ok});
        if (ok) {
          Crit();
          Ev("rel", {id});
          co_await v.m.Unlock();
        }
      } break;
      case 13: {
        UniqueGuard<M> g{v.m, std::defer_lock};
        Ev("try", {id});
        bool ok = g.TryLock();
        Ev("tryr", {id, ok});
        if (ok) {
          Crit();
          Ev("rel", {id});
          co_await g.UnlockOn(other);
        }
      } break;
      case 14: {
        UniqueGuard<M> g{v.m, std::defer_lock};
        Ev("req", {id});
        co_await g.Lock();
        BODY(id)
        UniqueGuard<M> g2;
        g2 = std::move(g);
        co_await g2.Unlock();
      } break;
      case 15: {
        StickyGuard<M> g{v.m, std::defer_lock};
        Ev("req", {id});
        co_await g.Lock();
        BODY(id)
        co_await g.Unlock();
      } break;
      case 16: {
        Ev("req", {id});
        auto g = co_await v.m.GuardSticky();
        BODY(id)
        StickyGuard<M> g2{std::move(g)};
        co_await g2.Unlock();
      } break;
      // the ownership moves between guards
      case 17: {
        Ev("req", {id});
        auto g = co_await v.m.Guard();
        BODY(id)
        g = UniqueGuard<M>{};
        Ev("own", {bool(g)});
      } break;
      case 18: {
        Ev("req", {id});
        co_await v.m.Lock();
        UniqueGuard<M> g{v.m, std::adopt_lock};
        BODY(id)
        M m2;
        UniqueGuard<M> g2{m2, std::try_to_lock};
        g.Swap(g2);
        Ev("own", {!(g.Mutex() == &m2 && g2.Mutex() == &v.m && g && g2)});
        co_await g2.Unlock();
        Ev("own", {bool(g2)});
      } break;
      case 19: {
        Ev("req", {id});
        auto g = co_await v.m.Guard();
        BODY(id)
        M* m = g.Release();
        Ev("own", {g || m != &v.m});
        co_await m->Unlock();
      } break;
      case 20: {
        Ev("try", {id});
        M m2;
        UniqueGuard<M> g2{m2, std::try_to_lock};
        UniqueGuard<M> g{v.m, std::try_to_lock};
        bool ok = bool(g);
        Ev("tryr", {id, ok});
        if (ok) {
          Crit();
          Ev("rel", {id});
        }
        g2 = std::move(g);
        Ev("own", {g2.Mutex() != &v.m || bool(g2) != ok});
      } break;
      case 21: {
        StickyGuard<M> g2;
        Ev("req", {id});
        {
          auto g = co_await v.m.GuardSticky();
          Crit();
          g2 = std::move(g);
          Ev("own", {bool(g)});
        }
        BODY(id)
        co_await g2.Unlock();
      } break;
      default: {
        UniqueGuard<M> g{v.m, std::defer_lock};
        for (int i : {id, id + 40}) {
          Ev("req", {i});
          co_await g.Lock();
          BODY(i)
          co_await g.Unlock();
        }
      } break;
    }
  }
  Ev("fin", {c});
  if (rt::AddVar(1, 1) == rt::GetVar(2)) {
    rt::QClose(0);
    rt::QClose(1);
  }
  co_return {};
}

template <typename M>
void Run(const int* p) {
  // p1 forms of the coroutines (base 32), p2 shape, p3 suspensions
  const int shape = p[3];
  static const int kCo[] = {2, 2, 3, 3, 2, 4};
  static const int kRounds[] = {1, 2, 1, 1, 2, 1};
  static const int kWorkers[] = {2, 1, 1, 2, 2, 2};
  const int k = kCo[shape], n = kWorkers[shape];
  rt::SetVar(2, k);
  auto e0 = MakeShared<h::Raw>(1, 1, 0);
  auto e1 = MakeShared<h::Raw>(1, 2, shape == 4 || shape == 0 || shape == 5 ? 1 : 0);
  Env<M> v{{}, {e0.Get(), e1.Get()}, kRounds[shape], p[4]};
  {
    std::vector<std::thread> ws;
    const bool two = shape == 4 || shape == 0 || shape == 5;
    for (int i = 0; i < n; ++i) {
      ws.emplace_back([q = two ? i : 0] {
        h::Serve(q, 0, true);
      });
    }
    std::vector<Future<>> fs;
    for (int c = 0; c < k; ++c) {
      int f = c == 0 ? p[1] : c == 1 ? p[2] : (p[1] + 3 * p[2] + 7 * c) % kForms;
      fs.push_back(Co<M>(v, c, f, c & 1));
    }
    for (auto& w : ws) {
      w.join();
    }
  }
}

}  // namespace

// p0 options (bit 0 fifo, bit 1 batching), p1 p2 forms, p3 shape, p4 suspensions
SCENARIO(mutex) {
  g_shared = 0;
  static const int kCo[] = {2, 2, 3, 3, 2, 4};
  Ev("cfg", {p[0] & 1, kCo[p[3]]});
  switch (p[0]) {
    case 0:
      return Run<Mutex<false, false>>(p);
    case 1:
      return Run<Mutex<false, true>>(p);
    case 2:
      return Run<Mutex<true, false>>(p);
    default:
      return Run<Mutex<true, true>>(p);
  }
}
