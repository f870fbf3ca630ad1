// C11: Wait / WaitFor / WaitUntil on one or several futures while producers complete them.
#include "exec.hpp"
#include "vals.hpp"

#include <alloca.h>
#include <chrono>
#include <optional>
#include <thread>
#include <vector>
#include <yaclib/async/contract.hpp>
#include <yaclib/async/future.hpp>
#include <yaclib/async/promise.hpp>
#include <yaclib/async/shared_contract.hpp>
#include <yaclib/async/wait.hpp>
#include <yaclib/async/wait_for.hpp>
#include <yaclib/async/wait_until.hpp>

using namespace yaclib;
using rt::Ev;
using h::Code;
using V = h::Val;

namespace {

constexpr long kTimeout = 1000;  // virtual ns

// Calls f deep in the stack, so that anything it leaves behind lies below the frames of the caller.
template <typename F>
[[gnu::noinline]] auto Inner(F& f) {
  asm volatile("" ::: "memory");
  return f();
}
template <typename F>
[[gnu::noinline]] auto Deep(F&& f) {
  volatile char* p = static_cast<char*>(alloca(8192));
  p[0] = 1;
  return Inner(f);
}

// U: unique or shared future
template <typename U>
struct Pair;
template <>
struct Pair<Future<V>> {
  Future<V> f;
  Promise<V> p;
  Pair() {
    auto [a, b] = MakeContract<V>();
    f = std::move(a);
    p = std::move(b);
  }
};
template <>
struct Pair<SharedFuture<V>> {
  SharedFuture<V> f;
  SharedPromise<V> p;
  Pair() {
    auto [a, b] = MakeSharedContract<V>();
    f = std::move(a);
    p = std::move(b);
  }
};

// code that future i gets
int SetCode(int i) {
  return i == 1 ? h::kStop : i == 2 ? h::kExcBase + 5 : 7;
}

template <typename P>
void Produce(int i, P&& p) {
  Ev("set", {i, SetCode(i)});
  switch (i) {
    case 1: {
      auto d = std::move(p);
      break;
    }
    case 2:
      std::move(p).Set(std::make_exception_ptr(h::Exc{5}));
      break;
    default:
      std::move(p).Set(7);
      break;
  }
  Ev("setr", {i});
}

template <typename U>
void LogReady(int i, const U& f) {
  bool r = f.Ready();
  Ev("rdy", {i, r});
  if (r) {
    Ev("touch", {i, Code(std::as_const(f).Touch())});
  }
}

// form: 0 variadic, 1 begin/end, 2 begin/count
template <typename W, typename U>
bool CallWait(W&& w, int form, U* f, int n) {
  return Deep([&] {
    switch (form) {
      case 0:
        return n == 1 ? w(f[0]) : n == 2 ? w(f[0], f[1]) : w(f[0], f[1], f[2]);
      case 1:
        return w(f, f + n);
      default:
        return w(f, std::size_t(n));
    }
  });
}

template <bool Timed, typename... A>
bool AnyWait(int kind, A&&... a) {
  if constexpr (Timed) {
    if (kind == 1) {
      return WaitFor(std::chrono::nanoseconds{kTimeout}, std::forward<A>(a)...);
    } else if (kind == 2) {
      return WaitUntil(std::chrono::steady_clock::now() + std::chrono::nanoseconds{kTimeout}, std::forward<A>(a)...);
    } else if (kind == 3) {
      return WaitFor(std::chrono::nanoseconds{0}, std::forward<A>(a)...);
    }
  }
  Wait(std::forward<A>(a)...);
  return true;
}

template <typename U>
bool DoWait(int kind, int form, U* f, int n) {
  constexpr bool kTimed = std::is_same_v<U, Future<V>>;
  Ev("wait", {n, kind});
  long t0 = rt::Now();
  long limit = kind == 1 || kind == 2 ? kTimeout : 0;
  bool ok = CallWait(
    [&](auto&&... x) {
      return AnyWait<kTimed>(kind, std::forward<decltype(x)>(x)...);
    },
    form, f, n);
  Ev("waitr", {ok, rt::Now() >= t0 + limit});
  rt::Point();
  return ok;
}

template <typename U>
void After(int what, int i, U& f) {
  switch (what) {
    case 0: {
      Ev("get", {i});
      auto r = Deep([&] {
        return std::move(f).Get();
      });
      Ev("getr", {i, Code(r)});
      break;
    }
    case 1:
      Ev("sub", {i});
      if constexpr (std::is_same_v<U, Future<V>>) {
        std::move(f).DetachInline(h::Fn{[i](Result<V>&& r) {
          Ev("cb", {i, Code(r)});
        }});
      } else {
        f.SubscribeInline(h::Fn{[i](const Result<V>& r) {
          Ev("cb", {i, Code(r)});
        }});
      }
      Ev("subr", {i});
      break;
    case 2: {
      Ev("sub", {i});
      auto g = std::move(f).ThenInline([i](Result<V> r) -> Result<V> {
        Ev("cb", {i, Code(r)});
        return r;
      });
      Ev("subr", {i});
      auto r = std::move(g).Get();
      Ev("touch", {i, Code(r)});
      break;
    }
    default:  // dropped
      f = U{};
      Ev("drop", {i});
      break;
  }
}

// n, form, kind, again (second wait kind, -1 none), after, producers (0 a thread each, 1 one thread in order, 2 one
// thread in reverse, 3 a thread each, but the first of them completes after the timed waits have returned), mask of
// futures completed before
template <typename U>
void Run(const int* p) {
  int n = p[0], form = p[1], kind = p[2], again = p[3], after = p[4], prod = p[5], mask = p[6];
  Ev("cfg", {n});
  Pair<U> pr[3];
  U f[3];
  for (int i = 0; i < 3; ++i) {
    f[i] = std::move(pr[i].f);
    if (i < n && (mask >> i & 1) != 0) {
      Produce(i, std::move(pr[i].p));
    }
  }
  std::vector<std::thread> ts;
  int late = -1;
  if (prod == 0 || prod == 3) {
    for (int i = 0; i < n; ++i) {
      if ((mask >> i & 1) == 0) {
        if (prod == 3 && late == -1) {
          late = i;
          continue;
        }
        ts.emplace_back([i, q = &pr[i].p] {
          Produce(i, std::move(*q));
        });
      }
    }
  } else {
    ts.emplace_back([&, n] {
      for (int k = 0; k < n; ++k) {
        int i = prod == 1 ? k : n - 1 - k;
        if ((mask >> i & 1) == 0) {
          Produce(i, std::move(pr[i].p));
        }
      }
    });
  }
  bool ok = DoWait(kind, form, f, n);
  if (ok) {
    for (int i = 0; i < n; ++i) {
      LogReady(i, f[i]);
    }
  }
  if (again >= 0) {
    if (DoWait(again, form, f, n) && !ok) {
      LogReady(0, f[0]);
    }
  }
  if (late != -1) {
    Produce(late, std::move(pr[late].p));
  }
  for (int i = 0; i < n; ++i) {
    After(after < 4 ? after : (after + i) % 4, i, f[i]);
  }
  for (auto& t : ts) {
    t.join();
  }
}

}  // namespace

SCENARIO(wait) {
  Run<Future<V>>(p);
}
SCENARIO(waitshared) {
  Run<SharedFuture<V>>(p);
}

// unique and shared in one call: which, producers, after
SCENARIO(waitmixed) {
  Ev("cfg", {3});
  Pair<Future<V>> u0, u1;
  Pair<SharedFuture<V>> s0, s1;
  auto fu0 = std::move(u0.f), fu1 = std::move(u1.f);
  auto fs0 = std::move(s0.f), fs1 = std::move(s1.f);
  std::vector<std::thread> ts;
  Ev("wait", {p[0] == 0 ? 2 : 3, 0});
  // 0: u, s   1: u, s, s   2: s, u, u
  switch (p[0]) {
    case 0:
      ts.emplace_back([&] {
        Produce(0, std::move(u0.p));
      });
      ts.emplace_back([&] {
        Produce(1, std::move(s0.p));
      });
      Deep([&] {
        Wait(fu0, fs0);
      });
      break;
    case 1:
      ts.emplace_back([&] {
        Produce(0, std::move(u0.p));
        if (p[1] == 1) {
          Produce(2, std::move(s1.p));
        }
      });
      ts.emplace_back([&] {
        Produce(1, std::move(s0.p));
        if (p[1] == 0) {
          Produce(2, std::move(s1.p));
        }
      });
      Deep([&] {
        Wait(fu0, fs0, fs1);
      });
      break;
    default:
      ts.emplace_back([&] {
        Produce(0, std::move(u0.p));
        if (p[1] == 1) {
          Produce(2, std::move(u1.p));
        }
      });
      ts.emplace_back([&] {
        Produce(1, std::move(s0.p));
        if (p[1] == 0) {
          Produce(2, std::move(u1.p));
        }
      });
      Deep([&] {
        Wait(fs0, fu0, fu1);
      });
      break;
  }
  Ev("waitr", {1, 0});
  rt::Point();
  LogReady(0, fu0);
  LogReady(1, fs0);
  After(p[2], 0, fu0);
  After(p[2], 1, fs0);
  if (p[0] == 0) {
    Produce(2, std::move(u1.p));
    After(0, 2, fu1);
  } else if (p[0] == 1) {
    LogReady(2, fs1);
    After(p[2], 2, fs1);
  } else {
    LogReady(2, fu1);
    After(p[2], 2, fu1);
  }
  for (auto& t : ts) {
    t.join();
  }
}

// two waiters on copies of one shared future: form of each
SCENARIO(waittwo) {
  Ev("cfg", {1});
  Pair<SharedFuture<V>> s;
  SharedFuture<V> a[2] = {s.f, s.f}, b[2] = {s.f, s.f};
  std::thread t1{[&] {
    Deep([&] {
      p[0] == 0 ? Wait(a[0]) : p[0] == 1 ? Wait(a[0], a[1]) : Wait(a, a + 2);
    });
    rt::Point();
    Ev("touch", {0, Code(a[0].Touch())});
  }};
  std::thread t2{[&] {
    Deep([&] {
      p[1] == 0 ? Wait(b[0]) : p[1] == 1 ? Wait(b[0], b[1]) : Wait(b, 2);
    });
    rt::Point();
    Ev("touch", {0, Code(b[0].Touch())});
  }};
  Produce(0, std::move(s.p));
  t1.join();
  t2.join();
  Ev("get", {0});
  Ev("getr", {0, Code(std::move(s.f).Get())});
}
