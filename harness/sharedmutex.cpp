// C15: reader and writer coroutines doing rounds through the coroutine SharedMutex.
#include "exec.hpp"
#include "vals.hpp"

#include <thread>
#include <vector>
#include <yaclib/async/future.hpp>
#include <yaclib/coro/coro.hpp>
#include <yaclib/coro/future.hpp>
#include <yaclib/coro/on.hpp>
#include <yaclib/coro/shared_mutex.hpp>
#include <yaclib/coro/yield.hpp>

using namespace yaclib;
using rt::Ev;

namespace {

int g_shared;  // written by the exclusive holders, read by the shared ones

template <typename M>
struct Env {
  M m;
  IExecutor* e;
  int rounds, sleep;
};

inline void CritW() {
  int x = g_shared;
  rt::Point();
  g_shared = x + 1;
}
inline void CritR() {
  int x = g_shared;
  rt::Point();
  if (x != g_shared) {
    Ev("torn");
  }
}

#define W(ID)                     \
  CritW();                        \
  if (v.sleep & 1) {              \
    co_await kYield;              \
    CritW();                      \
  }                               \
  Ev("relw", {ID});
#define R(ID)                     \
  CritR();                        \
  if (v.sleep & 2) {              \
    co_await kYield;              \
    CritR();                      \
  }                               \
  Ev("relr", {ID});

// f: 0..4 exclusive forms, 5..9 shared forms
template <typename M>
Future<> Co(Env<M>& v, int c, int f0) {
  co_await On(*v.e);
  for (int r = 0; r < v.rounds; ++r) {
    const int id = c * v.rounds + r + 1;
    const int f = r == 0 ? f0 : (f0 + 5) % 10;
    switch (f) {
      case 0:
        Ev("reqw", {id});
        co_await v.m.Lock();
        Ev("gotw", {id});
        W(id)
        v.m.UnlockHere();
        break;
      case 1: {
        Ev("reqw", {id});
        auto g = co_await v.m.Guard();
        Ev("gotw", {id});
        W(id)
      } break;
      case 2: {
        UniqueGuard<M> g{v.m, std::defer_lock};
        Ev("reqw", {id});
        co_await g.Lock();
        Ev("gotw", {id});
        W(id)
        g.UnlockHere();
      } break;
      case 3: {
        Ev("tryw", {id});
        bool ok = v.m.TryLock();
        Ev("trywr", {id, ok});
        if (ok) {
          W(id)
          v.m.UnlockHere();
        }
      } break;
      case 4: {
        Ev("tryw", {id});
        auto g = v.m.TryGuard();
        Ev("trywr", {id, bool(g)});
        if (g) {
          W(id)
        }
      } break;
      case 5:
        Ev("reqr", {id});
        co_await v.m.LockShared();
        Ev("gotr", {id});
        R(id)
        v.m.UnlockHereShared();
        break;
      case 6: {
        Ev("reqr", {id});
        auto g = co_await v.m.GuardShared();
        Ev("gotr", {id});
        R(id)
      } break;
      case 7: {
        SharedGuard<M> g{v.m, std::defer_lock};
        Ev("reqr", {id});
        co_await g.Lock();
        Ev("gotr", {id});
        R(id)
        g.UnlockHere();
      } break;
      case 8: {
        Ev("tryr", {id});
        bool ok = v.m.TryLockShared();
        Ev("tryrr", {id, ok});
        if (ok) {
          R(id)
          v.m.UnlockHereShared();
        }
      } break;
      default: {
        Ev("tryr", {id});
        SharedGuard<M> g{v.m, std::defer_lock};
        bool ok = false;
        if (c & 1) {
          ok = g.TryLock();
        } else {
          g = v.m.TryGuardShared();
          ok = bool(g);
        }
        Ev("tryrr", {id, ok});
        if (ok) {
          R(id)
        }
      } break;
    }
  }
  Ev("fin", {c});
  if (rt::AddVar(1, 1) == rt::GetVar(2)) {
    rt::QClose(0);
  }
  co_return {};
}

template <typename M>
void Run(const int* p) {
  const int k = p[1], n = p[2];
  rt::SetVar(2, k);
  auto e = MakeShared<h::Raw>(1, 1, 0);
  Env<M> v{{}, e.Get(), p[3], p[4]};
  std::vector<std::thread> ws;
  for (int i = 0; i < n; ++i) {
    ws.emplace_back([] {
      h::Serve(0, 0, true);
    });
  }
  std::vector<Future<>> fs;
  for (int c = 0; c < k; ++c) {
    fs.push_back(Co<M>(v, c, p[5 + c]));
  }
  for (auto& w : ws) {
    w.join();
  }
}

}  // namespace

// p0 options (bit 0 FIFO, bit 1 ReadersFIFO), p1 coroutines, p2 workers, p3 rounds, p4 suspensions, p5.. forms
SCENARIO(sharedmutex) {
  g_shared = 0;
  Ev("cfg", {p[0], p[1]});
  switch (p[0]) {
    case 0:
      return Run<SharedMutex<false, false>>(p);
    case 1:
      return Run<SharedMutex<true, false>>(p);
    case 2:
      return Run<SharedMutex<false, true>>(p);
    default:
      return Run<SharedMutex<true, true>>(p);
  }
}
