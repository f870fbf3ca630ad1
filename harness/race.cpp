// C04: client programs in which one synchronising edge of the library is the only thing that orders the client's own
// plain data.  Every thread has its own cells; it writes them before it synchronises through the library and reads the
// cells of the others after it has observed what they did.  The runtime sees every access (races), the trace goes to
// MemModel.tla.
#include "exec.hpp"
#include "vals.hpp"

#include <chrono>
#include <functional>
#include <thread>
#include <vector>
#include <yaclib/algo/one_shot_event.hpp>
#include <yaclib/algo/wait_group.hpp>
#include <yaclib/async/connect.hpp>
#include <yaclib/async/contract.hpp>
#include <yaclib/async/future.hpp>
#include <yaclib/async/join.hpp>
#include <yaclib/async/make.hpp>
#include <yaclib/async/promise.hpp>
#include <yaclib/async/run.hpp>
#include <yaclib/async/share.hpp>
#include <yaclib/async/shared_contract.hpp>
#include <yaclib/async/split.hpp>
#include <yaclib/async/wait.hpp>
#include <yaclib/async/wait_for.hpp>
#include <yaclib/async/wait_until.hpp>
#include <yaclib/async/when_all.hpp>
#include <yaclib/async/when_any.hpp>
#include <yaclib/coro/await.hpp>
#include <yaclib/coro/await_on.hpp>
#include <yaclib/coro/await_sticky.hpp>
#include <yaclib/coro/coro.hpp>
#include <yaclib/coro/future.hpp>
#include <yaclib/coro/mutex.hpp>
#include <yaclib/coro/on.hpp>
#include <yaclib/coro/shared_future.hpp>
#include <yaclib/coro/shared_mutex.hpp>
#include <yaclib/coro/task.hpp>
#include <yaclib/coro/yield.hpp>
#include <yaclib/exe/manual.hpp>
#include <yaclib/exe/strand.hpp>
#include <yaclib/exe/submit.hpp>
#include <yaclib/lazy/make.hpp>
#include <yaclib/lazy/schedule.hpp>
#include <yaclib/runtime/fair_thread_pool.hpp>

using namespace yaclib;
using rt::Ev;

namespace {

int g_cell[32];
int g_all;  // increased by everybody who is ordered by the library

void Reset() {
  for (int& c : g_cell) {
    c = 0;
  }
  g_all = 0;
}
// x: what must be visible
void See(int c, int x = 1) {
  if (g_cell[c] != x) {
    rt::Bad("a value is not visible");
  }
}

constexpr auto kLong = std::chrono::nanoseconds{1000};

struct Th {
  std::vector<std::thread> v;
  template <typename F>
  void Go(F&& f) {
    v.emplace_back(std::forward<F>(f));
  }
  void Join() {
    for (auto& t : v) {
      t.join();
    }
    v.clear();
  }
  ~Th() {
    Join();
  }
};

void Fulfil(Promise<>&& p, int how) {
  if (how == 0) {
    std::move(p).Set();
  } else if (how == 1) {
    std::move(p).Set(std::make_exception_ptr(h::Exc{1}));
  } else if (how == 2) {
    std::move(p).Set(StopTag{});
  } else {
    Promise<> q{std::move(p)};
  }
}
void Fulfil(SharedPromise<>&& p, int how) {
  if (how == 0) {
    std::move(p).Set();
  } else if (how == 1) {
    std::move(p).Set(std::make_exception_ptr(h::Exc{1}));
  } else if (how == 2) {
    std::move(p).Set(StopTag{});
  } else {
    SharedPromise<> q{std::move(p)};
  }
}

// the continuation of thread `me`: sees the producer (cell 0) and what its own thread did before attaching
auto Cb(int me) {
  return [me](Result<>&&) noexcept {
    See(0);
    See(me);
    g_cell[me + 10] = 1;
  };
}
auto CbS(int me) {
  return [me](const Result<>&) noexcept {
    See(0);
    See(me);
    g_cell[me + 10] = 1;
  };
}

Future<> CoGet(Future<> f, int me) {
  try {
    co_await std::move(f);
  } catch (...) {
  }
  See(0);
  See(me);
  g_cell[me + 10] = 1;
  co_return{};
}
Future<> CoWait(Future<>& f, int how, int me, IExecutor& e) {
  if (how == 0) {
    co_await Await(f);
  } else if (how == 1) {
    co_await AwaitSticky(f);
  } else {
    co_await AwaitOn(e, f);
  }
  See(0);
  See(me);
  g_cell[me + 10] = 1;
  co_return{};
}
template <typename T>
T CoTask(Future<> f, int me) {
  co_await Await(f);
  See(0);
  See(me);
  g_cell[me + 10] = 1;
  co_return{};
}

}  // namespace

// how it is fulfilled, who observes it (thread 1 = main)
SCENARIO(edge) {
  Reset();
  const int how = p[0], op = p[1];
  auto e = MakeShared<h::Raw>(1, 1, 1, 0);
  Th th;
  auto [f0, pr0] = MakeContract<>();
  auto f = std::move(f0);
  th.Go([pr = std::move(pr0), how]() mutable {
    g_cell[0] = 1;
    Fulfil(std::move(pr), how);
  });
  std::thread worker{[] {
    h::Serve(1, 1, true);
  }};
  g_cell[1] = 1;
  switch (op) {
    case 0:
      std::ignore = std::move(f).Get();
      See(0);
      break;
    case 1:
      Wait(f);
      See(0);
      break;
    case 2:
      if (WaitFor(kLong, f)) {
        See(0);
      } else {
        Wait(f);
        See(0);
      }
      break;
    case 3:
      for (int i = 0; i < 4; ++i) {
        if (f.Ready()) {
          See(0);
          break;
        }
        rt::Point();
      }
      break;
    case 4:
      std::ignore = std::move(f).ThenInline(Cb(1)).Get();
      See(0);
      See(11);
      break;
    case 5:
      std::ignore = std::move(f).Then(*e, Cb(1)).Get();
      See(0);
      See(11);
      break;
    case 6:
      std::move(f).DetachInline(Cb(1));
      break;
    case 7:
      std::move(f).Detach(*e, Cb(1));
      break;
    case 8:
      std::ignore = CoGet(std::move(f), 1).Get();
      See(11);
      break;
    case 9:
    case 10:
    case 11:
      std::ignore = CoWait(f, op - 9, 1, *e).Get();
      See(11);
      break;
    case 12: {
      auto [f2, p2] = MakeContract<>();
      th.Go([f2 = std::move(f2)]() mutable {
        std::ignore = std::move(f2).Get();
        See(0);
        See(1);  // written before Connect
      });
      Connect(std::move(f), std::move(p2));
      break;
    }
    case 13: {
      auto s = Split(std::move(f));
      th.Go([s] {
        std::ignore = s.Get();
        See(0);
      });
      Wait(s);
      See(0);
      break;
    }
    case 14: {  // a continuation which returns a future of a third thread
      auto [f2, p2] = MakeContract<>();
      th.Go([p2 = std::move(p2)]() mutable {
        g_cell[2] = 1;
        std::move(p2).Set();
      });
      std::ignore = std::move(f)
                      .ThenInline([f2 = std::move(f2)](Result<>&&) mutable {
                        See(0);
                        g_cell[3] = 1;
                        return std::move(f2);
                      })
                      .Get();
      See(0);
      See(2);
      See(3);
      break;
    }
    case 15:
      std::ignore = CoTask<Task<>>(std::move(f), 1).ToFuture().Get();
      See(11);
      break;
    case 16: {
      auto s = CoTask<SharedFuture<>>(std::move(f), 1);
      th.Go([s] {
        Wait(s);
        See(0);
        See(11);
      });
      s.SubscribeInline([](const Result<>&) noexcept {
        See(0);
        See(11);
      });
      break;
    }
    case 17:  // the consumer gives up
      g_cell[4] = 1;
      std::move(f).Detach();
      break;
    case 18:
      std::ignore = CoTask<Task<>>(std::move(f), 1)
                      .Then(*e,
                            [] {
                              See(11);
                              g_cell[5] = 1;
                            })
                      .Get();
      See(5);
      break;
    case 19:
      if (WaitUntil(std::chrono::steady_clock::now() + kLong, f)) {
        See(0);
        std::ignore = std::move(f).Touch();
      }
      break;
    case 20:  // a chain, the last step in another thread's hands
      th.Go([g = std::move(f).ThenInline(Cb(1))]() mutable {
        std::ignore = std::move(g)
                        .ThenInline([] {
                          See(11);
                          g_cell[6] = 1;
                        })
                        .Get();
        See(6);
      });
      break;
    default:
      break;
  }
  th.Join();
  rt::QClose(1);
  worker.join();
}

namespace {

Future<> CoS(SharedFuture<> f, int how, int me, IExecutor& e) {
  switch (how) {
    case 0:
      co_await Await(f);
      break;
    case 1:
      try {
        co_await f;
      } catch (...) {
      }
      break;
    case 2:
      co_await AwaitSticky(f);
      break;
    default:
      co_await AwaitOn(e, f);
      break;
  }
  See(0);
  See(me);
  g_cell[me + 10] = 1;
  co_return{};
}

void SObserve(int op, int me, SharedFuture<> f, IExecutor& e) {
  g_cell[me] = 1;
  switch (op) {
    case 0:
      std::ignore = f.Get();
      See(0);
      break;
    case 1:
      Wait(f);
      See(0);
      break;
    case 2:
      std::ignore = Share(f).Get();
      See(0);
      break;
    case 3:
      for (int i = 0; i < 4; ++i) {
        if (f.Ready()) {
          See(0);
          break;
        }
        rt::Point();
      }
      break;
    case 4:
      std::ignore = f.ThenInline(CbS(me)).Get();
      See(me + 10);
      break;
    case 5:
      std::ignore = f.Then(e, CbS(me)).Get();
      See(me + 10);
      break;
    case 6:
      f.SubscribeInline(CbS(me));
      break;
    case 7:
      f.Subscribe(e, CbS(me));
      break;
    case 8:
    case 9:
    case 10:
    case 11:
      std::ignore = CoS(f, op - 8, me, e).Get();
      See(me + 10);
      break;
    case 12:
      std::ignore = Share(f).ThenInline(Cb(me)).Get();
      See(me + 10);
      break;
    case 13: {
      auto [f2, p2] = MakeSharedContract<>();
      Connect(f, std::move(p2));
      Wait(f2);
      See(0);
      See(me);
      break;
    }
    case 14:
      f = SharedFuture<>{};
      break;
    default:
      break;
  }
}

}  // namespace

// fulfilment, two or three observers
SCENARIO(sedge) {
  Reset();
  auto e = MakeShared<h::Raw>(1, 1, 1, 0);
  Th th;
  std::thread worker{[] {
    h::Serve(1, 1, true);
  }};
  {
    auto [f, pr] = MakeSharedContract<>();
    for (int i = 2; i < n; ++i) {
      th.Go([f = f, op = p[i], i, &e]() mutable {
        SObserve(op, i, std::move(f), *e);
      });
    }
    th.Go([pr = std::move(pr), how = p[0]]() mutable {
      g_cell[0] = 1;
      Fulfil(std::move(pr), how);
    });
    SObserve(p[1], 1, std::move(f), *e);
  }
  th.Join();
  rt::QClose(1);
  worker.join();
}

namespace {

template <typename W>
Future<> CoW(W& w, int how, IExecutor& e, std::function<void()> see) {
  switch (how) {
    case 0:
      co_await w.AwaitInline();
      break;
    case 1:
      co_await w.AwaitSticky();
      break;
    default:
      co_await w.AwaitOn(e);
      break;
  }
  see();
  co_return{};
}

template <typename W>
void WObserve(W& w, int op, IExecutor& e, const std::function<void()>& see) {
  switch (op) {
    case 0:
      w.Wait();
      see();
      break;
    case 1:
      if (w.WaitFor(kLong)) {
        see();
      } else {
        w.Wait();
        see();
      }
      break;
    case 2:
      while (!w.WaitUntil(std::chrono::steady_clock::now() + kLong)) {
      }
      see();
      break;
    case 3:
    case 4:
    case 5:
      std::ignore = CoW(w, op - 3, e, see).Get();
      see();
      break;
    default:
      break;
  }
}

}  // namespace

// number of operations, how they are done, waiter of main, waiter of another thread
SCENARIO(wgedge) {
  Reset();
  const int k = p[0], how = p[1];
  auto e = MakeShared<h::Raw>(1, 1, 1, 0);
  std::thread worker{[] {
    h::Serve(1, 1, true);
  }};
  {
    Th th;
    WaitGroup<> wg{how == 1 ? std::size_t(0) + 1 : std::size_t(k)};
    std::vector<Future<>> keep;
    for (int i = 0; i < k; ++i) {
      if (how == 0) {
        th.Go([i, &wg] {
          g_cell[i] = 1;
          wg.Done();
        });
      } else {
        auto [f, pr] = MakeContract<>();
        if (how == 1) {
          wg.Consume(std::move(f));
        } else if (how == 2) {
          wg.Consume<false>(std::move(f));
        } else {
          keep.push_back(std::move(f));
          wg.Attach<false>(keep.back());
        }
        th.Go([i, pr = std::move(pr)]() mutable {
          g_cell[i] = 1;
          Fulfil(std::move(pr), i % 4);
        });
      }
    }
    if (how == 1) {
      wg.Done();
    }
    std::function<void()> see = [k] {
      for (int i = 0; i < k; ++i) {
        See(i);
      }
    };
    if (n > 3) {
      th.Go([&, op = p[3]] {
        WObserve(wg, op, *e, see);
      });
    }
    WObserve(wg, p[2], *e, see);
    th.Join();
  }
  rt::QClose(1);
  worker.join();
}

SCENARIO(osedge) {
  Reset();
  auto e = MakeShared<h::Raw>(1, 1, 1, 0);
  std::thread worker{[] {
    h::Serve(1, 1, true);
  }};
  {
    OneShotEvent ev;
    Th th;
    th.Go([&ev] {
      g_cell[0] = 1;
      ev.Set();
    });
    std::function<void()> see = [] {
      See(0);
    };
    for (int i = 1; i < n; ++i) {
      th.Go([&, op = p[i]] {
        WObserve(ev, op, *e, see);
      });
    }
    if (p[0] < 6) {
      WObserve(ev, p[0], *e, see);
    } else if (p[0] == 6) {
      if (ev.Ready()) {
        See(0);
      }
    } else {
      struct J : Job {
        void Call() noexcept final {
          See(0);
          See(20);
          delete this;
        }
        void Drop() noexcept final {
        }
      };
      auto* j = new J;
      g_cell[20] = 1;
      if (!ev.TryAdd(*j)) {
        See(0);
        delete j;
      }
    }
    th.Join();
  }
  rt::QClose(1);
  worker.join();
}

// several futures of several threads: combinator or waiting form, shape, outcomes
SCENARIO(combedge) {
  Reset();
  const int op = p[0], k = p[1], fail = p[2];
  Th th;
  {
  std::vector<Future<int>> fs;
  for (int i = 0; i < k; ++i) {
    auto [f, pr] = MakeContract<int>();
    fs.push_back(std::move(f));
    th.Go([i, pr = std::move(pr), bad = (fail >> i) & 1]() mutable {
      g_cell[i] = 1;
      if (bad) {
        std::move(pr).Set(StopTag{});
      } else {
        std::move(pr).Set(i);
      }
    });
  }
  auto all = [k] {
    for (int i = 0; i < k; ++i) {
      See(i);
    }
  };
  auto one = [](const Result<int>& r) {
    if (r) {
      See(r.Value());
    }
  };
  auto b = fs.begin(), x = fs.end();
  auto n2 = fs.size();
  switch (op) {
    case 0:
      std::ignore = WhenAll<FailPolicy::None>(b, x).Get();
      all();
      break;
    case 1: {
      auto r = WhenAll(b, n2).Get();
      if (r) {
        all();
      }
      break;
    }
    case 2:
      one(WhenAny<FailPolicy::None>(b, x).Get());
      break;
    case 3:
      one(WhenAny<FailPolicy::FirstFail>(b, x).Get());
      break;
    case 4:
      one(WhenAny<FailPolicy::LastFail>(b, n2).Get());
      break;
    case 5:
      std::ignore = Join<FailPolicy::None>(b, x).Get();
      all();
      break;
    case 6:
      if (Join<FailPolicy::FirstFail>(b, x).Get()) {
        all();
      }
      break;
    case 7:
      Wait(b, x);
      all();
      break;
    case 8:
      if (WaitFor(kLong, b, n2)) {
        all();
      }
      Wait(b, x);
      all();
      break;
    case 9:
      std::ignore = WhenAll<FailPolicy::None>(b, x)
                      .ThenInline([&](auto&&) {
                        all();
                        g_cell[20] = 1;
                      })
                      .Get();
      See(20);
      break;
    case 10:
      WhenAny<FailPolicy::None>(b, x).DetachInline([one](Result<int>&& r) {
        one(r);
      });
      break;
    case 11:
      if (k == 2) {
        std::ignore = WhenAll<FailPolicy::None>(std::move(fs[0]), std::move(fs[1])).Get();
        all();
      }
      break;
    case 12:
      if (k == 2) {
        Wait(fs[0], fs[1]);
        all();
      }
      break;
    case 13:
    case 14: {
      auto co = [](std::vector<Future<int>>& v, bool sticky, int m) -> Future<> {
        if (sticky) {
          co_await AwaitSticky(v.begin(), v.end());
        } else {
          co_await Await(v.begin(), v.end());
        }
        for (int i = 0; i < m; ++i) {
          See(i);
        }
        co_return{};
      };
      std::ignore = co(fs, op == 14, k).Get();
      all();
      break;
    }
    case 15: {  // all of the shared futures
      std::vector<SharedFuture<int>> ss;
      for (auto& f : fs) {
        ss.push_back(Split(std::move(f)));
      }
      th.Go([ss, all]() mutable {
        std::ignore = WhenAll<FailPolicy::None>(ss.begin(), ss.end()).Get();
        all();
      });
      Wait(ss.begin(), ss.end());
      all();
      break;
    }
    default:
      break;
  }
  }
  th.Join();
}

namespace {

struct Shared3 : IRef {
  int x[4] = {};
  ~Shared3() override {
    for (int i : x) {
      g_all += i;
    }
  }
};

}  // namespace

// reference counted objects: each owner writes its part and lets it go, the destructor sees everything
SCENARIO(refedge) {
  Reset();
  const int k = p[0], how = p[1];
  Th th;
  if (how == 0) {
    IntrusivePtr<Shared3> s = MakeShared<Shared3>(1);
    for (int i = 1; i < k; ++i) {
      th.Go([s, i]() mutable {
        s->x[i] = 1;
        s = nullptr;
      });
    }
    s->x[0] = 1;
    s = nullptr;
  } else if (how == 1) {  // a value of a SharedFuture: observers write to their part of it, the last owner destroys it
    struct Val {
      int* x = new int[4]{};
      Val() = default;
      Val(Val&& o) noexcept : x{std::exchange(o.x, nullptr)} {
      }
      Val(const Val&) : x{new int[4]{}} {
      }
      Val& operator=(Val&&) = delete;
      ~Val() {
        if (x) {
          g_all += x[0] + x[1] + x[2] + x[3];
          delete[] x;
        }
      }
    };
    auto [f, pr] = MakeSharedContract<Val>();
    for (int i = 1; i < k; ++i) {
      th.Go([f = f, i]() mutable {
        f.Get().Value().x[i] = 1;
        f = {};
      });
    }
    th.Go([f = f, pr = std::move(pr)]() mutable {
      std::move(pr).Set(Val{});
    });
    f.Get().Value().x[0] = 1;
    f = {};
  } else if (how == 2) {  // the executor
    struct E : h::Raw {
      int x[4] = {};
      using h::Raw::Raw;
      ~E() override {
        g_all += x[0] + x[1] + x[2] + x[3];
      }
    };
    auto s = MakeShared<E>(1, 1, 1, 0);
    std::thread worker{[] {
      h::Serve(1, 1, true);
    }};
    for (int i = 1; i < k; ++i) {
      th.Go([s, i]() mutable {
        s->x[i] = 1;
        auto f = MakeFuture();
        auto g = std::move(f).Then(*s, [] {
        });
        s = nullptr;
        std::move(g).DetachInline([](auto&&) {
        });
      });
    }
    s->x[0] = 1;
    s = nullptr;
    th.Join();
    rt::QClose(1);
    worker.join();
  } else {  // a strand which outlives its creator
    auto raw = MakeShared<h::Raw>(1, 1, 1, 0);
    std::thread worker{[] {
      h::Serve(1, 1, true);
    }};
    auto st = MakeStrand(raw);
    for (int i = 1; i < k; ++i) {
      th.Go([st, i]() mutable {
        g_cell[i] = 1;
        Submit(*st, [i] {
          See(i);
          ++g_all;
        });
        st = nullptr;
      });
    }
    st = nullptr;
    th.Join();
    rt::QClose(1);
    worker.join();
  }
  th.Join();
}

// executors: callbacks of several futures in one strand or pool
SCENARIO(exeedge) {
  Reset();
  const int kind = p[0], k = p[1], op = p[2];
  Th th;
  IExecutorPtr e;
  IntrusivePtr<FairThreadPool> pool;
  std::vector<std::thread> ws;
  if (kind < 2) {
    e = MakeStrand(MakeShared<h::Raw>(1, 1, 1, 0));
    for (int i = 0; i <= kind; ++i) {
      ws.emplace_back([] {
        h::Serve(1, 1, true);
      });
    }
  } else {
    pool = MakeFairThreadPool(kind == 3 || kind == 5 ? 2 : 1);
    e = kind < 4 ? IExecutorPtr{MakeStrand(pool)} : IExecutorPtr{pool};
  }
  const bool one = kind != 5;  // jobs are ordered by the executor itself
  auto work = [one](int i) {
    return [one, i] {
      See(i);
      if (one) {
        ++g_all;
      }
      g_cell[i + 10] = 1;
    };
  };
  {
    std::vector<Future<>> out(k);
    auto start = [&](int i) {
      g_cell[i] = 1;
      switch (op) {
        case 0:
          out[i] = Run(*e, work(i)).On(nullptr);
          break;
        case 1:
          out[i] = MakeFuture().Then(*e, work(i)).On(nullptr);
          break;
        case 2: {
          auto [f, pr] = MakeContract<>();
          out[i] = std::move(f).Then(*e, work(i)).On(nullptr);
          std::move(pr).Set();
          break;
        }
        case 3: {
          auto co = [](IExecutor& x, auto w) -> Future<> {
            co_await On(x);
            w();
            co_await kYield;
            w();
            co_return{};
          };
          out[i] = co(*e, work(i));
          break;
        }
        case 4:
          out[i] = Schedule(*e, work(i)).ToFuture();
          break;
        default:
          Submit(*e, work(i));
          break;
      }
    };
    for (int i = 1; i < k; ++i) {
      th.Go([&, i] {
        start(i);
        if (op <= 4) {
          Wait(out[i]);
          See(i + 10);
        }
      });
    }
    start(0);
    if (op <= 4) {
      Wait(out[0]);
      See(10);
    }
    th.Join();
    if (pool) {
      pool->SoftStop();
      pool->Wait();
    }
    if (op > 4 && pool) {
      for (int i = 0; i < k; ++i) {
        See(i + 10);
      }
    }
  }
  rt::QClose(1);
  for (auto& w : ws) {
    w.join();
  }
  e = nullptr;
}

// mutexes: the data of several sections, read and written
SCENARIO(mtxedge) {
  Reset();
  const int kind = p[0], k = p[1];
  auto e1 = MakeShared<h::Raw>(1, 1, 1, 0), e2 = MakeShared<h::Raw>(1, 2, 1, 0);
  std::vector<std::thread> ws;
  for (int i = 0; i < 2; ++i) {
    ws.emplace_back([] {
      h::Serve(1, 1, true);
    });
  }
  {
    Mutex<> m;
    SharedMutex<> s;
    auto co = [&](int i, int form) -> Future<> {
      co_await On(i % 2 ? *e1 : *e2);
      for (int r = 0; r < 2; ++r) {
        switch (form) {
          case 0:
            co_await m.Lock();
            ++g_all;
            co_await m.Unlock();
            break;
          case 1: {
            auto g = co_await m.Guard();
            ++g_all;
            break;
          }
          case 2:
            if (m.TryLock()) {
              ++g_all;
              m.UnlockHere();
            }
            break;
          case 3:
            co_await m.Lock();
            ++g_all;
            co_await m.UnlockOn(i % 2 ? *e2 : *e1);
            break;
          case 4:
            co_await s.Lock();
            ++g_all;
            s.UnlockHere();
            break;
          case 5:
            co_await s.LockShared();
            g_cell[i] += g_all >= 0;
            s.UnlockHereShared();
            break;
          case 6:
            if (s.TryLock()) {
              ++g_all;
              s.UnlockHere();
            }
            break;
          case 7:
            if (s.TryLockShared()) {
              g_cell[i] += g_all >= 0;
              s.UnlockHereShared();
            }
            break;
          case 8: {
            auto g = co_await s.GuardShared();
            g_cell[i] += g_all >= 0;
            break;
          }
          case 9: {
            auto g = co_await s.Guard();
            ++g_all;
            break;
          }
          default:
            break;
        }
      }
      co_return{};
    };
    std::vector<Future<>> fs;
    for (int i = 0; i < k; ++i) {
      fs.push_back(co(i, p[2 + i]));
    }
    (void)kind;
    Wait(fs.begin(), fs.end());
  }
  rt::QClose(1);
  for (auto& w : ws) {
    w.join();
  }
}
