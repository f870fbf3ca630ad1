// C01: one Promise / Future pair, producer and consumer on their own threads.
#include "exec.hpp"
#include "vals.hpp"

#include <thread>
#include <yaclib/async/connect.hpp>
#include <yaclib/async/contract.hpp>
#include <yaclib/async/future.hpp>
#include <yaclib/async/promise.hpp>
#include <yaclib/async/shared_contract.hpp>
#include <yaclib/exe/manual.hpp>
#include <yaclib/exe/submit.hpp>

using namespace yaclib;
using rt::Ev;

namespace {

// move-only value
struct MVal : h::Val {
  using h::Val::Val;
  MVal(int v) noexcept : h::Val{v} {
  }
  MVal(MVal&&) = default;
  MVal& operator=(MVal&&) = default;
};

template <typename V>
V Mk(int c) {
  if constexpr (!std::is_void_v<V>) {
    return V{c};
  }
}

template <typename V>
int CodeOf(const Result<V, StopError>& r) {
  if constexpr (std::is_void_v<V>) {
    return h::Code(r);
  } else {
    switch (r.State()) {
      case ResultState::Value:
        return std::as_const(r).Value().Get();
      case ResultState::Error:
        return h::kStop;
      case ResultState::Exception:
        return h::ExcCode(std::as_const(r).Exception());
      default:
        return h::kEmptyRes;
    }
  }
}

template <typename V>
void Produce(int kind, Promise<V>&& p0) {
  Promise<V> p = std::move(p0);
  switch (kind) {
    case 0:
      if constexpr (std::is_void_v<V>) {
        Ev("set", {0});
        std::move(p).Set();
      } else {
        Ev("set", {7});
        std::move(p).Set(V{7});
      }
      break;
    case 1:
      Ev("set", {h::kStop});
      {
        auto drop = std::move(p);
      }
      break;
    case 2:
      Ev("set", {h::kStop});
      std::move(p).Set(StopTag{});
      break;
    case 3:
      Ev("set", {h::kExcBase + 5});
      std::move(p).Set(std::make_exception_ptr(h::Exc{5}));
      break;
    case 4:
      Ev("set", {std::is_void_v<V> ? 0 : 9});
      if constexpr (std::is_void_v<V>) {
        std::move(p).Set(Result<V>{std::in_place});
      } else {
        std::move(p).Set(Result<V>{V{9}});
      }
      break;
    case 5:  // overwritten by a move assignment
      Ev("set", {h::kStop});
      p = Promise<V>{};
      break;
    default:
      break;
  }
  Ev("setr");
}

template <typename V>
auto Cb(int k) {
  return h::Fn{[k](Result<V> r) -> Result<V> {
    Ev("cb", {k, CodeOf(r)});
    return r;
  }};
}
template <typename V>
auto CbEnd(int k) {
  return h::Fn{[k](Result<V>&& r) {
    Ev("cb", {k, CodeOf(r)});
  }};
}

template <typename F>
void LogGet(F&& f) {
  Ev("get");
  auto r = std::forward<F>(f).Get();
  Ev("getr", {CodeOf(r)});
}

template <typename V>
void Consume(int kind, Future<V>&& f0) {
  Future<V> f = std::move(f0);
  switch (kind) {
    case 0: {
      Ev("sub", {1});
      auto g = std::move(f).ThenInline(Cb<V>(1));
      Ev("subr", {1});
      LogGet(std::move(g));
      break;
    }
    case 1:
      Ev("sub", {1});
      std::move(f).DetachInline(CbEnd<V>(1));
      Ev("subr", {1});
      break;
    case 2:
      Ev("drop");
      std::move(f).Detach();
      Ev("dropr");
      break;
    case 3:
      LogGet(std::move(f));
      break;
    case 4: {
      Ev("rdy", {f.Ready()});
      Ev("wait");
      Wait(f);
      Ev("waitr");
      Ev("rdy", {f.Ready()});
      const auto* p = std::as_const(f).Get();
      Ev("peek", {p ? CodeOf(*p) : -1});
      LogGet(std::move(f));
      break;
    }
    case 5: {
      for (int i = 0; i < 2; ++i) {
        bool ready = f.Ready();
        Ev("rdy", {ready});
        if (ready) {
          Ev("peek", {CodeOf(std::as_const(f).Touch())});
        }
      }
      const auto* p = std::as_const(f).Get();
      Ev("peek", {p ? CodeOf(*p) : -1});
      if (p) {
        auto r = std::move(f).Touch();
        Ev("get");
        Ev("getr", {CodeOf(r)});
      } else {
        Ev("sub", {1});
        std::move(f).DetachInline(CbEnd<V>(1));
        Ev("subr", {1});
      }
      break;
    }
    case 6: {
      auto [f2, p2] = MakeContract<V>();
      Ev("conn");
      Connect(std::move(f), std::move(p2));
      Ev("connr");
      Ev("rdy", {f2.Ready()});
      LogGet(std::move(f2));
      break;
    }
    case 7: {
      auto [f2, p2] = MakeContract<V>();
      Ev("sub", {1});
      std::move(f2).DetachInline(CbEnd<V>(1));
      Ev("subr", {1});
      Ev("conn");
      Connect(std::move(f), std::move(p2));
      Ev("connr");
      break;
    }
    case 8: {
      Ev("sub", {1});
      auto g = std::move(f).Then(MakeInline(), Cb<V>(1));
      Ev("subr", {1});
      Ev("sub", {2});
      auto g2 = std::move(g).Then(Cb<V>(2));
      Ev("subr", {2});
      LogGet(std::move(g2));
      break;
    }
    case 9: {
      auto ex = h::MakeExec(1, h::Exec::kQueue);
      Ev("sub", {1});
      auto g = std::move(f).Then(*ex, Cb<V>(1));
      Ev("subr", {1});
      while (!g.Ready()) {
        ex->Drain();
        std::this_thread::yield();
      }
      LogGet(std::move(g));
      break;
    }
    case 10: {
      Ev("sub", {1});
      auto g = std::move(f).ThenInline(Cb<V>(1));
      Ev("subr", {1});
      Ev("sub", {2});
      auto g2 = std::move(g).ThenInline(Cb<V>(2));
      Ev("subr", {2});
      Ev("sub", {3});
      std::move(g2).DetachInline(CbEnd<V>(3));
      Ev("subr", {3});
      break;
    }
    case 11: {  // overwritten by a move assignment = dropped
      Ev("drop");
      f = Future<V>{};
      Ev("dropr");
      break;
    }
    case 12: {
      Ev("drop");
      {
        auto g = std::move(f);
      }
      Ev("dropr");
      break;
    }
    case 13: {  // Wait, then attach
      Ev("wait");
      Wait(f);
      Ev("waitr");
      Ev("sub", {1});
      std::move(f).DetachInline(CbEnd<V>(1));
      Ev("subr", {1});
      break;
    }
    case 14: {  // the continuation's own future is dropped
      Ev("sub", {1});
      {
        auto g = std::move(f).ThenInline(Cb<V>(1));
        Ev("subr", {1});
      }
      break;
    }
    case 15: {  // connected before the second future is consumed by a drop
      auto [f2, p2] = MakeContract<V>();
      Ev("conn");
      Connect(std::move(f), std::move(p2));
      Ev("connr");
      Ev("drop");
      std::move(f2).Detach();
      Ev("dropr");
      break;
    }
    case 16: {  // Connect with the second consumer on a third thread
      auto [f2, p2] = MakeContract<V>();
      std::thread t{[f2 = std::move(f2)]() mutable {
        Ev("sub", {1});
        std::move(f2).DetachInline(CbEnd<V>(1));
        Ev("subr", {1});
      }};
      Ev("conn");
      Connect(std::move(f), std::move(p2));
      Ev("connr");
      t.join();
      break;
    }
    case 17: {  // Detach(e, f)
      Ev("sub", {1});
      std::move(f).Detach(MakeInline(), CbEnd<V>(1));
      Ev("subr", {1});
      break;
    }
    case 18: {  // consumed by a third thread's blocking wait after the transfer of the continuation's future
      Ev("sub", {1});
      auto g = std::move(f).ThenInline(Cb<V>(1));
      Ev("subr", {1});
      std::thread t{[g = std::move(g)]() mutable {
        LogGet(std::move(g));
      }};
      t.join();
      break;
    }
    default:
      break;
  }
}

template <typename V>
void Run(const int* p) {
  auto [f, pr] = MakeContract<V>();
  Ev("cfg", {p[0], p[1], p[2]});
  if (p[3] == 0) {
    std::thread t{[&f = f, c = p[1]]() mutable {
      Consume<V>(c, std::move(f));
    }};
    Produce<V>(p[0], std::move(pr));
    t.join();
  } else {
    std::thread t{[&pr = pr, k = p[0]]() mutable {
      Produce<V>(k, std::move(pr));
    }};
    Consume<V>(p[1], std::move(f));
    t.join();
  }
}

}  // namespace

// producer kind, consumer kind, value type, who is the main thread
SCENARIO(handoff) {
  switch (p[2]) {
    case 0:
      Run<h::Val>(p);
      break;
    case 1:
      Run<void>(p);
      break;
    case 2:
      Run<MVal>(p);
      break;
  }
}
