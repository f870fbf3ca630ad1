// C06: one SharedPromise, several observers on their own threads.
#include "exec.hpp"
#include "vals.hpp"

#include <thread>
#include <vector>
#include <yaclib/async/connect.hpp>
#include <yaclib/async/contract.hpp>
#include <yaclib/async/future.hpp>
#include <yaclib/async/join.hpp>
#include <yaclib/async/make.hpp>
#include <yaclib/async/promise.hpp>
#include <yaclib/async/run.hpp>
#include <yaclib/async/share.hpp>
#include <yaclib/async/shared_contract.hpp>
#include <yaclib/async/split.hpp>
#include <yaclib/async/wait.hpp>
#include <yaclib/async/when_all.hpp>
#include <yaclib/async/when_any.hpp>
#include <yaclib/coro/await.hpp>
#include <yaclib/coro/await_on.hpp>
#include <yaclib/coro/await_sticky.hpp>
#include <yaclib/coro/current_executor.hpp>
#include <yaclib/coro/future.hpp>
#include <yaclib/coro/on.hpp>
#include <yaclib/coro/shared_future.hpp>
#include <yaclib/coro/yield.hpp>

using namespace yaclib;
using rt::Ev;
using h::Code;
using V = h::Val;
using SF = SharedFuture<V>;

namespace {

auto Cb(int k) {
  return h::Fn{[k](const Result<V>& r) -> Result<V> {
    Ev("cb", {k, Code(r)});
    return r;
  }};
}
auto CbEnd(int k) {
  return h::Fn{[k](const Result<V>& r) {
    Ev("cb", {k, Code(r)});
  }};
}
auto CbOwn(int k) {  // for derived unique futures
  return h::Fn{[k](Result<V>&& r) {
    Ev("cb", {k, Code(r)});
    auto mine = std::move(r);
  }};
}

template <typename F>
void GetLog(int k, F&& f) {
  Ev("get", {k});
  auto r = std::forward<F>(f).Get();
  Ev("getr", {k, Code(r)});
}

// the outcome of co_await as a code
template <typename F>
int Caught(F&& f) {
  try {
    return f();
  } catch (const h::Exc& e) {
    return h::kExcBase + e.code;
  } catch (const ResultError<StopError>&) {
    return h::kStop;
  } catch (...) {
    return h::kOther;
  }
}

Future<> CoAwaitValue(int k, SF f) {
  Ev("sub", {k});
  int code = -9;
  try {
    V v = co_await f;
    code = v.Get();
  } catch (const h::Exc& e) {
    code = h::kExcBase + e.code;
  } catch (const ResultError<StopError>&) {
    code = h::kStop;
  }
  Ev("cb", {k, code});
  co_await kYield;
  Ev("touch", {k, Code(f.Touch())});
  co_return {};
}
// awaits without taking a reference
Future<> CoAwaitRef(int k, const SF& f0, int how, IExecutor* e) {
  SF f = f0;
  Ev("sub", {k});
  switch (how) {
    case 0:
      co_await Await(f);
      break;
    case 1:
      co_await AwaitOn(*e, f);
      break;
    case 2:
      co_await On(*e);
      co_await AwaitSticky(f);
      break;
    case 3: {
      auto u = MakeFuture<V>(1);
      co_await Await(f, u);
      break;
    }
    case 4: {
      std::vector<SF> v{f, f};
      co_await Await(v.begin(), v.end());
      break;
    }
    case 5: {
      std::vector<SF> v{f, f};
      co_await AwaitOn(*e, v.begin(), v.size());
      break;
    }
    case 6: {
      std::vector<SF> v{f, f};
      co_await On(*e);
      co_await AwaitSticky(v.begin(), v.end());
      break;
    }
    default:
      break;
  }
  Ev("cb", {k, Code(f.Touch())});
  co_await kYield;
  Ev("touch", {k, Code(std::move(f).Touch())});
  co_return {};
}

constexpr int kOps = 27;

// one observation through this thread's own copy (or a shared const reference)
void Observe(int op, int k, const SF& f0, IExecutor& e, bool own) {
  SF mine;
  if (own) {
    mine = f0;
  }
  const SF& f = own ? mine : f0;
  switch (op) {
    case 0:
      Ev("sub", {k});
      f.SubscribeInline(CbEnd(k));
      Ev("subr", {k});
      break;
    case 1: {
      Ev("sub", {k});
      auto g = f.ThenInline(Cb(k));
      Ev("subr", {k});
      GetLog(k, std::move(g));
      break;
    }
    case 2: {
      Ev("sub", {k});
      auto g = f.Then(e, Cb(k));
      Ev("subr", {k});
      Ev("sub", {k + 1});
      std::move(g).DetachInline(CbOwn(k + 1));
      Ev("subr", {k + 1});
      break;
    }
    case 3:
      Ev("sub", {k});
      f.Subscribe(e, CbEnd(k));
      Ev("subr", {k});
      break;
    case 4:
      for (int i = 0; i < 2; ++i) {
        if (bool b = f.Ready(); b) {
          Ev("rdy", {k, 1});
          Ev("touch", {k, Code(f.Touch())});
        } else {
          Ev("rdy", {k, 0});
        }
        rt::Point();
      }
      break;
    case 5: {
      Ev("get", {k});
      const auto& r = f.Get();
      Ev("getr", {k, Code(r)});
      break;
    }
    case 6:
      GetLog(k, SF{f});
      break;
    case 7:
      Ev("get", {k});
      Wait(f);
      Ev("waitr", {k});
      Ev("touch", {k, Code(f.Touch())});
      break;
    case 8:
      GetLog(k, Share(f));
      break;
    case 9: {
      auto g = Share(f, e);
      Ev("sub", {k});
      std::move(g).DetachInline(CbOwn(k));
      Ev("subr", {k});
      break;
    }
    case 10: {
      auto [f2, p2] = MakeSharedContract<V>();
      Ev("sub", {k});
      f2.SubscribeInline(CbEnd(k));
      Connect(f, std::move(p2));
      Ev("subr", {k});
      GetLog(k, std::move(f2));
      break;
    }
    case 11:
      CoAwaitValue(k, f).Detach();
      break;
    case 12:
    case 13:
    case 14:
    case 15:
    case 16:
    case 17:
    case 18:
      CoAwaitRef(k, f, op - 12, &e).Detach();
      break;
    case 19: {  // whole vector of copies
      auto g = WhenAll<FailPolicy::None>(f, MakeFuture<V>(1), f);
      Ev("sub", {k});
      std::move(g).DetachInline(h::Fn{[k](auto&& r) {
        auto t = std::move(r).Ok();
        Ev("cb", {k, Code(t[0])});
        Ev("touch", {k, Code(t[2])});
      }});
      Ev("subr", {k});
      break;
    }
    case 20: {
      std::vector<SF> v{f, f};
      auto g = WhenAny<FailPolicy::None>(v.begin(), v.end());
      Ev("sub", {k});
      std::move(g).DetachInline(CbOwn(k));
      Ev("subr", {k});
      break;
    }
    case 21: {
      std::vector<SF> v{f, f};
      auto g = Join<FailPolicy::None>(v.begin(), v.end());
      Ev("get", {k});
      std::ignore = std::move(g).Get();
      Ev("waitr", {k});
      Ev("touch", {k, Code(f.Touch())});
      break;
    }
    case 22: {  // a continuation that returns the shared future
      Ev("sub", {k});
      auto g = MakeFuture<V>(1).ThenInline([f = f](V&&) mutable {
        return std::move(f);
      });
      std::move(g).DetachInline(CbOwn(k));
      Ev("subr", {k});
      break;
    }
    case 23: {  // two of them through one wait
      SF c = f;
      Ev("get", {k});
      Wait(f, c);
      Ev("waitr", {k});
      Ev("touch", {k, Code(std::move(c).Touch())});
      break;
    }
    case 24: {
      auto [f2, p2] = MakeContract<V>();
      Ev("sub", {k});
      std::move(f2).DetachInline(CbOwn(k));
      Connect(f, std::move(p2));
      Ev("subr", {k});
      break;
    }
    case 25: {  // a continuation of the shared future which returns it
      Ev("sub", {k});
      auto g = f.ThenInline(h::Fn{[k, f = f](const Result<V>& r) {
        Ev("cb", {k, Code(r)});
        return f;
      }});
      Ev("subr", {k});
      Ev("sub", {k + 1});
      std::move(g).DetachInline(CbOwn(k + 1));
      Ev("subr", {k + 1});
      break;
    }
    case 26: {  // copies are made and destroyed
      SF a = f;
      SF b = a;
      a = SF{};
      rt::Point();
      b = f;
      break;
    }
    default:
      break;
  }
}

void SetBy(int prod, SharedPromise<V>&& p) {
  switch (prod) {
    case 0:
      Ev("set", {7});
      std::move(p).Set(7);
      break;
    case 1: {
      Ev("set", {h::kStop});
      auto d = std::move(p);
      break;
    }
    default:
      Ev("set", {h::kExcBase + 5});
      std::move(p).Set(std::make_exception_ptr(h::Exc{5}));
      break;
  }
  Ev("setr");
}

SharedFuture<V> CoShared(Future<V> f) {
  co_return co_await std::move(f);
}

}  // namespace

// producer, what main does with its copy, own copies?, observers...
SCENARIO(shared) {
  Ev("cfg");
  int prod = p[0], hold = p[1];
  bool own = p[2] == 0;
  int nobs = n - 3;
  auto e = yaclib::MakeShared<h::Raw>(1, 1, 1, 0);
  std::thread worker{[] {
    h::Serve(1, 1, true);
  }};
  SharedFuture<V> f;
  SharedPromise<V> sp;
  Promise<V> up;
  Future<V> pre;
  if (prod <= 2) {
    auto [f2, p2] = MakeSharedContract<V>();
    f = std::move(f2);
    sp = std::move(p2);
  } else if (prod <= 4) {
    auto [f2, p2] = MakeContract<V>();
    up = std::move(p2);
    f = prod == 3 ? Split(std::move(f2)) : CoShared(std::move(f2));
  } else if (prod == 5) {  // attached to the promise, then split from it
    sp = MakeSharedPromise<V>();
    pre = Share(sp);
    f = Split(sp);
  } else if (prod == 6) {  // connected to another shared promise
    sp = MakeSharedPromise<V>();
    auto [f2, p2] = MakeSharedContract<V>();
    Connect(sp, std::move(p2));
    f = std::move(f2);
  } else {  // run on the executor
    Ev("set", {7});
    f = yaclib::RunShared<StopError>(*e, [] {
          return V{7};
        }).On(nullptr);
  }
  std::vector<std::thread> ts;
  // hold: 0 main keeps its copy, 1 gives it up before the fulfilment, 2 ... concurrently
  for (int i = 0; i < nobs; ++i) {
    if (own) {
      ts.emplace_back([c = f, &e, i, op = p[3 + i]]() mutable {
        SF mine = std::move(c);
        Observe(op % 100, 10 * (i + 1), mine, *e, false);
        if (op >= 100) {
          Observe(op / 100 - 1, 10 * (i + 1) + 5, mine, *e, false);
        }
      });
    } else {
      ts.emplace_back([&f, &e, i, op = p[3 + i]]() mutable {
        Observe(op % 100, 10 * (i + 1), f, *e, false);
      });
    }
  }
  if (pre.Valid()) {
    Ev("sub", {1});
    std::move(pre).DetachInline(CbOwn(1));
    Ev("subr", {1});
  }
  std::thread dropper;
  if (hold == 1) {
    f = SF{};
  } else if (hold == 2) {
    dropper = std::thread{[f = std::move(f)]() mutable {
      SF d = std::move(f);
    }};
  }
  if (sp.Valid()) {
    SetBy(prod == 5 || prod == 6 ? 0 : prod, std::move(sp));
  } else if (up.Valid()) {
    Ev("set", {7});
    std::move(up).Set(7);
    Ev("setr");
  }
  for (auto& t : ts) {
    t.join();
  }
  if (dropper.joinable()) {
    dropper.join();
  }
  if (f.Valid()) {
    if (prod != 7) {
      Ev("rdy", {2, f.Ready()});
    }
    GetLog(2, std::move(f));
  }
  rt::QClose(1);
  worker.join();
}
