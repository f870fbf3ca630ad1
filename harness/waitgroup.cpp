// C16: WaitGroup and OneShotEvent.
#include "exec.hpp"
#include "vals.hpp"

#include <alloca.h>
#include <chrono>
#include <thread>
#include <vector>
#include <yaclib/algo/one_shot_event.hpp>
#include <yaclib/algo/wait_group.hpp>
#include <yaclib/async/contract.hpp>
#include <yaclib/async/future.hpp>
#include <yaclib/async/promise.hpp>
#include <yaclib/coro/future.hpp>
#include <yaclib/coro/on.hpp>

using namespace yaclib;
using rt::Ev;
using h::Code;
using V = h::Val;

namespace {

constexpr long kTimeout = 1000;

template <typename F>
[[gnu::noinline]] auto Inner(F& f) {
  asm volatile("" ::: "memory");
  return f();
}
template <typename F>
[[gnu::noinline]] auto Deep(F&& f) {
  volatile char* p = static_cast<char*>(alloca(8192));
  p[0] = 1;
  return Inner(f);
}

template <typename W>
void Block(W& wg, int w) {
  Ev("wait", {w, 0, 0});
  Deep([&] {
    wg.Wait();
    return 0;
  });
  Ev("waitr", {w, 1, 0});
}
template <typename W>
bool Timed(W& wg, int w, int how) {
  Ev("wait", {w, 1, 0});
  long t0 = rt::Now();
  long limit = how == 2 ? 0 : kTimeout;
  bool ok = Deep([&] {
    return how == 1 ? wg.WaitUntil(std::chrono::steady_clock::now() + std::chrono::nanoseconds{limit})
                    : wg.WaitFor(std::chrono::nanoseconds{limit});
  });
  Ev("waitr", {w, ok, rt::Now() >= t0 + limit});
  return ok;
}

template <typename W>
Future<V> Co(W& wg, int w, int how, IExecutor* own, IExecutor* to) {
  h::Alive<h::kLocal> local;
  if (own != nullptr) {
    co_await On(*own);
  }
  int k = 2, x = 0;
  if (how == 2 && own != nullptr) {
    k = 3, x = 1;
  } else if (how == 3) {
    k = to == nullptr ? 2 : 3, x = 2;
  }
  if (how >= 10) {
    k = 4;
  }
  Ev("wait", {w, k, x});
  switch (how % 10) {
    case 0:
      co_await wg.AwaitInline();
      break;
    case 1:
      co_await wg;
      break;
    case 2:
      co_await wg.AwaitSticky();
      break;
    default:
      co_await wg.AwaitOn(*to);
      break;
  }
  Ev("rel", {w, h::Where()});
  rt::ObjUse(&local, h::kLocal);
  co_return 5;
}

struct Exes {
  IntrusivePtr<h::Raw> e1 = MakeShared<h::Raw>(1, 1, 1, 0), e2 = MakeShared<h::Raw>(1, 2, 2, 0);
  IntrusivePtr<h::Raw> stopped = MakeShared<h::Raw>(1, 3, 3, -1);  // refuses everything
};

struct JobW : Job {
  int w = 0;
  void Call() noexcept final {
    Ev("rel", {w, h::Where()});
  }
};

template <typename W>
void Spawn(W& wg, int w, int how, IExecutor* own, IExecutor* to) {
  Co(wg, w, how, own, to).DetachInline([w](Result<V>&& r) {
    Ev("fin", {w, Code(r)});
  });
}

// one waiter; w is its first number (it uses at most 3)
template <typename W>
void Waiter(W& wg, int w, int kind, Exes& x) {
  switch (kind) {
    case 0:
      Block(wg, w);
      break;
    case 1:
    case 2:
    case 3:
      for (int i = 0; i < 2; ++i) {
        if (Timed(wg, w + i, kind - 1)) {
          break;
        }
      }
      break;
    case 4:
      if (!Timed(wg, w, 0)) {
        Block(wg, w + 1);
      }
      break;
    case 5:
      Spawn(wg, w, 0, nullptr, nullptr);
      break;
    case 6:
      Spawn(wg, w, 1, nullptr, nullptr);
      break;
    case 7:
      Spawn(wg, w, 2, nullptr, nullptr);
      break;
    case 8:
      Spawn(wg, w, 2, x.e1.Get(), nullptr);
      break;
    case 9:
      Spawn(wg, w, 3, nullptr, x.e2.Get());
      break;
    case 10:
      Spawn(wg, w, 3, x.e1.Get(), x.e2.Get());
      break;
    case 11:
      Spawn(wg, w, 13, nullptr, x.stopped.Get());
      break;
    case 12:
      Spawn(wg, w, 13, x.e1.Get(), x.stopped.Get());
      break;
    case 13:  // several coroutines of one thread
      Spawn(wg, w, 0, nullptr, nullptr);
      Spawn(wg, w + 1, 2, x.e1.Get(), nullptr);
      Spawn(wg, w + 2, 3, nullptr, x.e2.Get());
      break;
    default:
      break;
  }
}

struct Fut {
  Future<V> f;
  Promise<V> p;
  Fut() {
    auto [a, b] = MakeContract<V>();
    f = std::move(a);
    p = std::move(b);
  }
};

void SetIt(int item, Promise<V> p, int how) {
  int code = how == 0 ? 7 : how == 1 ? h::kStop : h::kExcBase + 5;
  Ev("set", {item, code});
  if (how == 0) {
    std::move(p).Set(7);
  } else if (how == 1) {
    Promise<V>{std::move(p)};
  } else {
    std::move(p).Set(std::make_exception_ptr(h::Exc{5}));
  }
  Ev("setr", {item});
}

void LogReady(int item, const Future<V>& f) {
  bool r = f.Ready();
  Ev("rdy", {item, r});
  if (r) {
    Ev("touch", {item, Code(f.Touch())});
  }
}

void Add(WaitGroup<>& wg, int item) {
  Ev("add", {item});
  wg.Add(1);
  Ev("addr", {item});
}
void Done(WaitGroup<>& wg, int item) {
  Ev("done", {item});
  wg.Done();
  Ev("doner", {item});
}

constexpr int kProd = 10;

}  // namespace

// main: hold (item 0) or not, late waiter, producers: two kinds, waiters: kinds
SCENARIO(wg) {
  Ev("cfg");
  int prod[2] = {p[0], p[1]}, late = p[2], again = p[3];
  Exes x;
  WaitGroup<> wg{1};
  Ev("add", {0});
  Ev("addr", {0});
  std::thread w1{[] {
    h::Serve(1, 1, true);
  }};
  std::thread w2{[] {
    h::Serve(2, 2, true);
  }};
  std::vector<std::thread> ws;
  for (int i = 4; i < n; ++i) {
    ws.emplace_back([&wg, &x, w = 10 * i, k = p[i]] {
      Waiter(wg, w, k, x);
    });
  }
  Fut fu[2][2];
  std::vector<std::thread> ps;
  for (int j = 0; j < 2; ++j) {
    int it = 10 * (j + 1);
    auto set = [&](int k, int how) {
      ps.emplace_back([pr = std::move(fu[j][k].p), it, k, how]() mutable {
        SetIt(it + k, std::move(pr), how);
      });
    };
    switch (prod[j]) {
      case 0:  // Add before, Done by a thread
        Add(wg, it);
        ps.emplace_back([&wg, it] {
          Done(wg, it);
        });
        break;
      case 1:  // Add and Done by a thread which holds an item
        Add(wg, it);
        ps.emplace_back([&wg, it] {
          Ev("add", {it + 1});
          Ev("add", {it + 2});
          wg.Add(2);
          Ev("addr", {it + 1});
          Ev("addr", {it + 2});
          Done(wg, it);
          Ev("done", {it + 1});
          Ev("done", {it + 2});
          wg.Done(2);
          Ev("doner", {it + 1});
          Ev("doner", {it + 2});
        });
        break;
      case 2:  // attached / consumed while it is being completed
      case 3:
        Ev("fut", {it});
        set(0, j);
        break;
      case 4:  // two of them, iterator forms
      case 5:
        Ev("fut", {it});
        Ev("fut", {it + 1});
        set(0, 0);
        set(1, 2);
        break;
      case 6:  // attached without Add
        Ev("fut", {it});
        Add(wg, it);
        set(0, 0);
        break;
      case 7:  // ready already
      case 8:
        Ev("fut", {it});
        SetIt(it, std::move(fu[j][0].p), 0);
        break;
      default:
        break;
    }
  }
  for (int j = 0; j < 2; ++j) {
    int it = 10 * (j + 1);
    auto& a = fu[j][0].f;
    auto& b = fu[j][1].f;
    switch (prod[j]) {
      case 2:
      case 7:
        Ev("add", {it});
        Ev("att", {it});
        wg.Attach(a);
        Ev("attr", {it});
        LogReady(it, a);
        break;
      case 3:
      case 8:
        Ev("add", {it});
        Ev("att", {it});
        wg.Consume(std::move(a));
        Ev("attr", {it});
        break;
      case 4:
      case 5: {
        for (int k = 0; k < 2; ++k) {
          Ev("add", {it + k});
          Ev("att", {it + k});
        }
        std::vector<Future<V>> v;
        if (prod[j] == 4 && j == 0) {
          v.push_back(std::move(a));
          v.push_back(std::move(b));
          wg.Attach(v.begin(), v.end());
          a = std::move(v[0]);
          b = std::move(v[1]);
        } else if (prod[j] == 4) {
          wg.Attach(a, b);
        } else if (j == 0) {
          v.push_back(std::move(a));
          v.push_back(std::move(b));
          wg.Consume(v.begin(), v.size());
        } else {
          wg.Consume(std::move(a), std::move(b));
        }
        for (int k = 0; k < 2; ++k) {
          Ev("attr", {it + k});
        }
        break;
      }
      case 6:
        Ev("att", {it});
        if (j == 0) {
          wg.Attach<false>(a);
        } else {
          wg.Consume<false>(std::move(a));
        }
        Ev("attr", {it});
        break;
      default:
        break;
    }
  }
  Done(wg, 0);
  if (late == 1) {
    Block(wg, 1);
    for (int j = 0; j < 2; ++j) {
      if (fu[j][0].f.Valid() && !fu[j][0].p.Valid()) {
        LogReady(10 * (j + 1), fu[j][0].f);  // ready, as it has been attached
      }
    }
  } else if (late == 2) {
    Waiter(wg, 1, 13, x);
  } else if (late == 3) {
    Waiter(wg, 1, 4, x);
  }
  for (auto& t : ps) {
    t.join();
  }
  for (auto& t : ws) {
    t.join();
  }
  // whoever arrives now does not wait
  Ev("wait", {5, 1, 0});
  Ev("waitr", {5, wg.WaitFor(std::chrono::nanoseconds{0}), 0});
  for (int j = 0; j < 2; ++j) {
    for (int k = 0; k < 2; ++k) {
      auto& f = fu[j][k].f;
      if (f.Valid() && !fu[j][k].p.Valid()) {
        LogReady(10 * (j + 1) + k, f);
        Ev("touch", {10 * (j + 1) + k, Code(std::move(f).Get())});
      }
    }
  }
  rt::QClose(1);  // jobs of the first may submit to the second
  w1.join();
  rt::QClose(2);
  w2.join();
  if (again == 1) {
    Ev("reset");
    Ev("add", {1});
    wg.Reset(1);
    Ev("addr", {1});
    std::thread t{[&wg, &x] {
      Waiter(wg, 90, 4, x);
    }};
    Waiter(wg, 94, 5, x);
    Done(wg, 1);
    t.join();
  }
}

// OneShotEvent: late, again, waiters...
SCENARIO(oneshot) {
  Ev("cfg");
  int late = p[0], again = p[1];
  Exes x;
  std::thread w1{[] {
    h::Serve(1, 1, true);
  }};
  std::thread w2{[] {
    h::Serve(2, 2, true);
  }};
  OneShotEvent ev;
  Ev("add", {0});
  Ev("addr", {0});
  JobW jobs[8];
  std::vector<std::thread> ws;
  for (int i = 2; i < n; ++i) {
    ws.emplace_back([&, i, w = 10 * i, k = p[i]] {
      if (k == 14) {
        Ev("ev", {ev.Ready()});
        rt::Point();
        Ev("ev", {ev.Ready()});
      } else if (k == 15) {
        jobs[i].w = w;
        Ev("wait", {w, 2, 0});
        bool ok = ev.TryAdd(jobs[i]);
        Ev("tryr", {w, ok});
      } else {
        Waiter(ev, w, k, x);
      }
    });
  }
  rt::Point();
  Ev("done", {0});
  ev.Set();
  Ev("doner", {0});
  Ev("ev", {ev.Ready()});
  if (late == 1) {
    Block(ev, 1);
  } else if (late == 2) {
    Waiter(ev, 1, 13, x);
  } else if (late == 3) {
    Waiter(ev, 1, 4, x);
  }
  for (auto& t : ws) {
    t.join();
  }
  rt::QClose(1);  // jobs of the first may submit to the second
  w1.join();
  rt::QClose(2);
  w2.join();
  if (again == 1) {
    Ev("reset");
    Ev("add", {1});
    ev.Reset();
    Ev("addr", {1});
    Ev("ev", {ev.Ready()});
    std::thread t{[&ev, &x] {
      Waiter(ev, 90, 4, x);
    }};
    Ev("done", {1});
    ev.Set();
    Ev("doner", {1});
    t.join();
  }
}
// the WaitGroup / event is destroyed by its waiter as soon as the wait returns
SCENARIO(wgdie) {
  Ev("cfg");
  auto* wg = new WaitGroup<>{1};
  Ev("add", {0});
  Ev("addr", {0});
  std::thread t{[wg] {
    Ev("done", {0});
    wg->Done();
    Ev("doner", {0});
  }};
  Exes x;
  if (p[0] == 0) {
    Block(*wg, 1);
  } else {
    while (!Timed(*wg, p[0] + rt::AddVar(1, 1), 0)) {
      if (rt::GetVar(1) > 2) {
        Block(*wg, 1);
        break;
      }
    }
  }
  delete wg;
  t.join();
}
