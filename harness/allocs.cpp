// C20: heap blocks allocated by combinators, waiting, awaiting and submission.
#include "exec.hpp"
#include "vals.hpp"

#include <chrono>
#include <memory>
#include <thread>
#include <tuple>
#include <utility>
#include <vector>
#include <yaclib/async/contract.hpp>
#include <yaclib/async/future.hpp>
#include <yaclib/async/join.hpp>
#include <yaclib/async/make.hpp>
#include <yaclib/async/promise.hpp>
#include <yaclib/async/run.hpp>
#include <yaclib/async/wait.hpp>
#include <yaclib/async/wait_for.hpp>
#include <yaclib/async/wait_until.hpp>
#include <yaclib/async/when_all.hpp>
#include <yaclib/async/when_any.hpp>
#include <yaclib/coro/await.hpp>
#include <yaclib/coro/await_on.hpp>
#include <yaclib/coro/await_sticky.hpp>
#include <yaclib/coro/future.hpp>
#include <yaclib/coro/on.hpp>
#include <yaclib/exe/manual.hpp>
#include <yaclib/exe/strand.hpp>
#include <yaclib/exe/submit.hpp>
#include <yaclib/runtime/fair_thread_pool.hpp>

using namespace yaclib;
using rt::Ev;
using V = h::Val;

namespace {

// combinators: 0..2 WhenAll None / FirstFail, Join None / FirstFail, WhenAny None / FirstFail / LastFail
template <int K, typename... F>
auto Comb(F&&... f) {
  if constexpr (K == 0) {
    return WhenAll<FailPolicy::None>(std::forward<F>(f)...);
  } else if constexpr (K == 1) {
    return WhenAll(std::forward<F>(f)...);
  } else if constexpr (K == 2) {
    return Join(std::forward<F>(f)...);
  } else if constexpr (K == 3) {
    return Join<FailPolicy::FirstFail>(std::forward<F>(f)...);
  } else if constexpr (K == 4) {
    return WhenAny<FailPolicy::None>(std::forward<F>(f)...);
  } else if constexpr (K == 5) {
    return WhenAny<FailPolicy::FirstFail>(std::forward<F>(f)...);
  } else {
    return WhenAny(std::forward<F>(f)...);
  }
}

template <typename T, typename P>
void SetP(P&& p, int how, const std::exception_ptr& x) {
  switch (how) {
    case 0:
      if constexpr (std::is_void_v<T>) {
        std::forward<P>(p).Set();
      } else {
        std::forward<P>(p).Set(T{7});
      }
      break;
    case 1:
      std::forward<P>(p).Set(x);
      break;
    default: {
      auto d = std::forward<P>(p);
      break;
    }
  }
}

// how the i-th of n inputs is completed
int How(int content, int i, int n) {
  switch (content) {
    case 1:
      return 1;  // every one is an exception
    case 2:
      return i == n / 2 ? 1 : 0;
    case 3:
      return i % 2 == 0 ? 2 : 0;
    case 4:
      return 2;
    default:
      return 0;
  }
}

template <typename T, int Form>
struct Contract {
  using F = std::conditional_t<Form == 0, Future<T>, FutureOn<T>>;
  std::vector<F> f;
  std::vector<Promise<T>> p0;
  explicit Contract(int n, IExecutor& x) {
    for (int i = 0; i < n; ++i) {
      if constexpr (Form == 0) {
        auto [a, b] = MakeContract<T>();
        f.push_back(std::move(a));
        p0.push_back(std::move(b));
      } else {
        auto [a, b] = MakeContractOn<T>(x);
        f.push_back(std::move(a));
        p0.push_back(std::move(b));
      }
    }
  }
  void Set(int i, int how, const std::exception_ptr& x) {
    SetP<T>(std::move(p0[static_cast<std::size_t>(i)]), how, x);
  }
};

// before: 0 all pending, 1 all ready, 2 every second; order: 0 forwards 1 backwards
template <typename C>
void Drive(C& c, int n, int order, int before, int content, const std::exception_ptr& x, bool pre) {
  for (int j = 0; j < n; ++j) {
    int i = order == 0 ? j : n - 1 - j;
    bool b = before == 1 || (before == 2 && i % 2 == 0);
    if (b == pre) {
      c.Set(i, How(content, i, n), x);
    }
  }
}

template <int K, typename T, int Form>
int One(int n, int api, int before, int content, int order, const std::exception_ptr& x, IExecutor& ex) {
  Contract<T, Form> c{n, ex};
  Drive(c, n, order, before, content, x, true);
  long a = rt::Allocs();
  {
    auto f = api == 0 ? Comb<K>(c.f.begin(), static_cast<std::size_t>(n)) : Comb<K>(c.f.begin(), c.f.end());
    Drive(c, n, order, before, content, x, false);
    auto r = std::move(f).Get();
    a = rt::Allocs() - a;
  }
  return static_cast<int>(a);
}

template <typename T, std::size_t I>
using Same = T;
// the type of the i-th input of the variadic form
template <typename T, bool Mixed, std::size_t I>
using Pick = std::conditional_t<Mixed && I % 2 == 1, std::conditional_t<std::is_void_v<T>, V, int>, T>;

template <int K, typename T, bool Mixed, std::size_t... Is>
int Var(std::index_sequence<Is...>, int before, int content, int order, const std::exception_ptr& x) {
  constexpr int n = sizeof...(Is);
  auto cs = std::make_tuple(MakeContract<Pick<T, Mixed, Is>>()...);
  auto set = [&](bool pre) {
    for (int j = 0; j < n; ++j) {
      int i = order == 0 ? j : n - 1 - j;
      bool b = before == 1 || (before == 2 && i % 2 == 0);
      if (b == pre) {
        ((static_cast<int>(Is) == i
            ? SetP<Pick<T, Mixed, Is>>(std::move(std::get<Is>(cs).second), How(content, i, n), x)
            : void()),
         ...);
      }
    }
  };
  set(true);
  long a = rt::Allocs();
  {
    auto f = Comb<K>(std::move(std::get<Is>(cs).first)...);
    set(false);
    auto r = std::move(f).Get();
    a = rt::Allocs() - a;
  }
  return static_cast<int>(a);
}

template <int K, typename T>
void Combs(int form, int before, int content, int order, const std::exception_ptr& x) {
  if (form < 4) {
    auto ex = yaclib::MakeShared<h::Raw>(1, 1, 1, 0);
    for (int n : {1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 24, 32, 33, 48, 64, 65, 100, 129}) {
      int a = form < 2 ? One<K, T, 0>(n, form % 2, before, content, order, x, *ex)
                       : One<K, T, 1>(n, form % 2, before, content, order, x, *ex);
      Ev("comb", {n, a});
    }
    return;
  }
  auto var = [&](auto n) {
    constexpr std::size_t N = decltype(n)::value;
    int a = 0;
    if (form == 4) {
      a = Var<K, T, false>(std::make_index_sequence<N>{}, before, content, order, x);
    } else if constexpr (!std::is_void_v<T> || K < 4) {
      a = Var<K, T, true>(std::make_index_sequence<N>{}, before, content, order, x);
    }
    Ev("comb", {static_cast<int>(N), a});
  };
  var(std::integral_constant<std::size_t, 1>{});
  var(std::integral_constant<std::size_t, 2>{});
  var(std::integral_constant<std::size_t, 3>{});
  var(std::integral_constant<std::size_t, 4>{});
  var(std::integral_constant<std::size_t, 5>{});
  var(std::integral_constant<std::size_t, 6>{});
  var(std::integral_constant<std::size_t, 8>{});
  var(std::integral_constant<std::size_t, 9>{});
  var(std::integral_constant<std::size_t, 12>{});
}

template <int K>
void Run(const int* p) {
  Ev("cfg", {p[1] < 4 ? 33 : 8});
  auto x = std::make_exception_ptr(h::Exc{5});
  if (p[0] == 0) {
    Combs<K, V>(p[1], p[2], p[3], p[4], x);
  } else {
    Combs<K, void>(p[1], p[2], p[3], p[4], x);
  }
}

}  // namespace

#ifdef ALLOC_K
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
// type, form (0 1 iterators over Future, 2 3 over FutureOn, 4 variadic, 5 variadic of mixed types), already completed,
// contents, order of completion
SCENARIO(CAT(comb, ALLOC_K)) {
  Run<ALLOC_K>(p);
}
#else

namespace {

// form: 0 1 2 3 variadic n, 4 begin/count, 5 begin/end ; kind: 0 Wait, 1 WaitFor, 2 WaitUntil
template <typename F>
bool Wait_(int kind, int form, std::vector<F>& f) {
  auto call = [&](auto&&... a) {
    switch (kind) {
      case 1:
        return WaitFor(std::chrono::nanoseconds{1000}, a...);
      case 2:
        return WaitUntil(std::chrono::steady_clock::now() + std::chrono::nanoseconds{1000}, a...);
      default:
        Wait(a...);
        return true;
    }
  };
  std::size_t n = f.size();
  if (form == 5) {
    return call(f.begin(), f.end());
  }
  if (form == 4 || n > 4) {
    return call(f.begin(), n);
  }
  return n == 1 ? call(f[0]) : n == 2 ? call(f[0], f[1]) : n == 3 ? call(f[0], f[1], f[2]) : call(f[0], f[1], f[2], f[3]);
}

template <int Form>
void Waits(const int* p) {
  int kind = p[0], form = p[1], n = p[2], before = p[3], content = p[4];
  auto ex = yaclib::MakeShared<h::Raw>(1, 1, 1, 0);
  auto x = std::make_exception_ptr(h::Exc{5});
  Contract<V, Form> c{n, *ex};
  Drive(c, n, 0, before, content, x, true);
  std::thread t{[&] {
    rt::WaitFlag(1);
    Drive(c, n, 0, before, content, x, false);
  }};
  rt::SetFlag(1);
  if (kind == 3) {
    for (auto& f : c.f) {
      long a = rt::AllocsMine();
      auto r = std::move(f).Get();
      a = rt::AllocsMine() - a;
      Ev("zero", {3, static_cast<int>(a)});
    }
  } else {
    bool done = false;
    while (!done) {
      long a = rt::AllocsMine();
      done = Wait_(kind, form, c.f);
      a = rt::AllocsMine() - a;
      Ev("zero", {kind, static_cast<int>(a)});
    }
  }
  t.join();
}

struct JobN final : Job {
  void Call() noexcept final {
    ++*n;
  }
  void Drop() noexcept final {
    ++*n;
  }
  void IncRef() noexcept final {
  }
  void DecRef() noexcept final {
  }
  int* n = nullptr;
};

template <int Form>
Future<int> Coro(const int* p, Contract<V, Form>& c, IExecutor& e, long* a) {
  int kind = p[1];
  auto& f = c.f;
  std::size_t n = f.size();
  *a = rt::Allocs();
  switch (kind) {
    case 0:
      for (auto& q : f) {
        try {
          auto v = co_await std::move(q);
        } catch (...) {
        }
      }
      break;
    case 1:
      for (auto& q : f) {
        co_await Await(q);
      }
      break;
    case 2:
      co_await Await(f.begin(), f.end());
      break;
    case 3:
      co_await Await(f.begin(), n);
      break;
    case 4:
      if (n == 2) {
        co_await Await(f[0], f[1]);
      } else if (n == 3) {
        co_await Await(f[0], f[1], f[2]);
      } else {
        co_await Await(f[0]);
      }
      break;
    case 5:
      for (auto& q : f) {
        co_await AwaitOn(e, q);
      }
      break;
    case 6:
      co_await AwaitOn(e, f.begin(), n);
      break;
    case 7:
      if (n == 2) {
        co_await AwaitOn(e, f[0], f[1]);
      } else if (n == 3) {
        co_await AwaitOn(e, f[0], f[1], f[2]);
      } else {
        co_await AwaitOn(e, f[0]);
      }
      break;
    case 8:
      co_await On(e);
      for (auto& q : f) {
        co_await AwaitSticky(q);
      }
      break;
    case 9:
      co_await On(e);
      co_await AwaitSticky(f.begin(), n);
      break;
    default:
      co_await On(e);
      co_await AwaitSticky(f.begin(), f.end());
      break;
  }
  co_return 1;
}

// an exception rethrown by co_await is not allocated again
template <int Form>
void Coros(const int* p) {
  int strand = p[2], n = p[3], before = p[4], content = p[5];
  auto ex = yaclib::MakeShared<h::Raw>(1, 1, 1, 0);
  auto x = std::make_exception_ptr(h::Exc{5});
  Contract<V, Form> c{n, *ex};
  Drive(c, n, 0, before, content, x, true);
  IExecutorPtr e = strand == 0 ? IExecutorPtr{ex} : strand == 1 ? MakeStrand(ex) : IExecutorPtr{&MakeInline()};
  long a = 0, b = 0;
  {
    auto f = Coro<Form>(p, c, *e, &a);
    long d = 0;
    auto pump = [&] {
      rt::QClose(1);
    };
    // this thread completes the futures and serves the executor
    Drive(c, n, p[6], before, content, x, false);
    d = rt::Allocs();
    pump();
    h::Serve(1, 1, false);
    b = rt::Allocs();
    (void)d;
    Ev("zero", {4, static_cast<int>(b - a)});
    Ev("rdy", {f.Ready()});
  }
}

}  // namespace

// kind (0 Wait, 1 WaitFor, 2 WaitUntil, 3 Get), form, n, already completed, contents
SCENARIO(wait) {
  Ev("cfg", {0});
  Waits<0>(p);
}
SCENARIO(waiton) {
  Ev("cfg", {0});
  Waits<1>(p);
}
// kind, strand, n, already completed, contents, order
SCENARIO(coro) {
  Ev("cfg", {0});
  Coros<0>(p);
}
SCENARIO(coroon) {
  Ev("cfg", {0});
  Coros<1>(p);
}
// submission of existing jobs: executor, number of jobs, of rounds
SCENARIO(submit) {
  Ev("cfg", {0});
  int kind = p[0], cnt = p[1], rounds = p[2];
  int done = 0;
  {
    std::vector<JobN> jobs(static_cast<std::size_t>(cnt));
    for (auto& j : jobs) {
      j.n = &done;
    }
    IExecutorPtr man = MakeManual();
    auto* man_ = static_cast<ManualExecutor*>(man.Get());
    IExecutorPtr e;
    switch (kind) {
      case 0:
        e = MakeStrand(man);
        break;
      case 1:
        e = MakeStrand(IExecutorPtr{&MakeInline()});
        break;
      case 2:
        e = MakeStrand(IExecutorPtr{&MakeInline(StopTag{})});
        break;
      case 3:
        e = MakeStrand(MakeStrand(man));
        break;
      default:
        e = man;
        break;
    }
    for (int r = 0; r < rounds; ++r) {
      for (auto& j : jobs) {
        long a = rt::Allocs();
        e->Submit(j);
        a = rt::Allocs() - a;
        Ev("zero", {5, static_cast<int>(a)});
      }
      long a = rt::Allocs();
      (void)man_->Drain();
      a = rt::Allocs() - a;
      Ev("zero", {6, static_cast<int>(a)});
    }
    Ev("rdy", {done == cnt * rounds});
  }
}
#endif
