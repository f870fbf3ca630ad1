// C13: coroutines. Compiled once per return type: CO_RT 0 Future, 1 Task, 2 SharedFuture.
#include "exec.hpp"
#include "vals.hpp"

#include <thread>
#include <vector>
#include <yaclib/async/contract.hpp>
#include <yaclib/async/future.hpp>
#include <yaclib/async/promise.hpp>
#include <yaclib/async/shared_contract.hpp>
#include <yaclib/coro/await.hpp>
#include <yaclib/coro/await_inline.hpp>
#include <yaclib/coro/await_on.hpp>
#include <yaclib/coro/await_sticky.hpp>
#include <yaclib/coro/current_executor.hpp>
#include <yaclib/coro/future.hpp>
#include <yaclib/coro/on.hpp>
#include <yaclib/coro/shared_future.hpp>
#include <yaclib/coro/task.hpp>
#include <yaclib/coro/yield.hpp>
#include <yaclib/lazy/make.hpp>
#include <yaclib/lazy/schedule.hpp>

using namespace yaclib;
using rt::Ev;
using h::Code;
using h::Where;
using V = h::Val;
using SF = SharedFuture<V>;

#if CO_RT == 0
using R = Future<V>;
#elif CO_RT == 1
using R = Task<V>;
#else
using R = SharedFuture<V>;
#endif

namespace {

constexpr int kS0 = 3, kS1 = 4;  // numbers of the shared futures
enum Kind { kInl = 0, kEat = 1, kSticky = 2, kOn = 3, kYld = 4 };

struct World {
  IntrusivePtr<h::Raw> e1, e2, e3;
  World(int m1, int m2)
    : e1{MakeShared<h::Raw>(1, 1, 1, m1)}, e2{MakeShared<h::Raw>(1, 2, 2, m2)}, e3{MakeShared<h::Raw>(1, 3, 3, -1)} {
  }
  int Id(IExecutor& e) {
    return &e == e1.Get() ? 1 : &e == e2.Get() ? 2 : &e == e3.Get() ? 3 : &e == &MakeInline() ? 0 : 9;
  }
};

struct Arg {  // of one coroutine
  World* w = nullptr;
  int c = 0;
  std::vector<Future<V>> u;
  std::vector<SF> s;
  bool catching = false;
  int fin = 0;
  std::vector<int> ops;
};

struct Loc {
  int c;
  h::Alive<h::kLocal> alive;
  explicit Loc(int x) : c{x} {
  }
  ~Loc() {
    Ev("loc", {c});
  }
};

template <typename F>
void LogIn(int c, int i, const F& f) {
  bool valid = f.Valid();
  bool r = valid && f.Ready();
  Ev("after", {c, i, valid, r, r ? Code(std::as_const(f).Touch()) : -1});
}

// other coroutines to be awaited; how: 0 at once, 1 after On(e1), 2 throws, 3 awaits a shared future, 4 refused
template <typename T>
T Child(World& w, int c, int how, SF s, h::Alive<h::kFun> arg) {
  Ev("body", {c, Where()});
  Loc loc{c};
  if (how == 1 || how == 4) {
    Ev("aw", {c, kOn, how == 1 ? 1 : 3, Where()});
    co_await On(how == 1 ? static_cast<IExecutor&>(*w.e1) : *w.e3);
    Ev("res", {c, Where(), -1});
  } else if (how == 3) {
    Ev("aw", {c, kInl, 0, Where(), kS0});
    co_await Await(s);
    Ev("res", {c, Where(), -1});
  }
  rt::ObjUse(&arg, h::kFun);
  if (how == 2) {
    Ev("ret", {c, h::kExcBase + c});
    throw h::Exc{c};
  }
  Ev("ret", {c, c});
  co_return V{c};
}

auto Fn(int i, int how) {
  return h::Fn{[i, how]() -> V {
    int code = how == 0 ? i : h::kExcBase + i;
    Ev("fn", {i, Where(), code});
    if (how != 0) {
      throw h::Exc{i};
    }
    return V{i};
  }};
}

#define AW(kind, x, expr, ...)                               \
  do {                                                       \
    Ev("aw", {c, kind, x, Where() __VA_OPT__(, ) __VA_ARGS__}); \
    co_await expr;                                           \
    Ev("res", {c, Where(), -1});                             \
    rt::ObjUse(&loc.alive, h::kLocal);                       \
  } while (0)

#define EAT(expr, i)                                 \
  do {                                               \
    int code = -2;                                   \
    std::exception_ptr err;                          \
    Ev("aw", {c, kEat, 0, Where(), i});              \
    try {                                            \
      auto got = co_await expr;                      \
      code = got.Get();                              \
    } catch (...) {                                  \
      err = std::current_exception();                \
      code = h::ExcCode(err);                        \
    }                                                \
    Ev("res", {c, Where(), code});                   \
    rt::ObjUse(&loc.alive, h::kLocal);               \
    if (err != nullptr && !a.catching) {             \
      Ev("ret", {c, code});                          \
      std::rethrow_exception(err);                   \
    }                                                \
  } while (0)

void Born(int c, int kind) {
  Ev("born", {c, kind});
}

// argument of the coroutine: its end is the end of the frame
struct Tok : h::Alive<h::kFun> {
  int c;
  explicit Tok(int x) : c{x} {
  }
  Tok(Tok&& o) : c{std::exchange(o.c, 0)} {
  }
  ~Tok() {
    if (c != 0) {
      Ev("gone", {c});
      if (rt::GetVar(300 + c) != 0) {
        rt::SetFlag(c);
      }
    }
  }
};

bool Uses(const std::vector<int>& ops, int what);

R Main(Arg& a, Tok arg) {
  const int c = a.c;
  const int u0 = 10 * c, u1 = u0 + 1;
  World& w = *a.w;
  auto& u = a.u;
  auto& s = a.s;
  Ev("body", {c, Where()});
  Loc loc{c};
  int k = 0;
  for (int op : a.ops) {
    ++k;
    if (op != 0 && !u[0].Valid() && Uses({op}, 0)) {
      continue;  // it has been consumed
    }
    if (op == 0 && !u[0].Valid()) {
      continue;
    }
    const int ch = 50 + 5 * c + k;  // number of whatever is created by this step
    switch (op) {
      case 0:
        EAT(std::move(u[0]), u0);
        break;
      case 1:
        EAT(std::as_const(s[0]), kS0);
        break;
      case 2:
        AW(kInl, 0, Await(u[0]), u0);
        LogIn(c, u0, u[0]);
        break;
      case 3:
        AW(kInl, 0, Await(u[0], u[1]), u0, u1);
        LogIn(c, u0, u[0]);
        LogIn(c, u1, u[1]);
        break;
      case 4:
        AW(kInl, 0, Await(u.begin(), u.size()), u0, u1);
        LogIn(c, u0, u[0]);
        LogIn(c, u1, u[1]);
        break;
      case 5:
        AW(kInl, 0, AwaitInline(s[0]), kS0);
        LogIn(c, kS0, s[0]);
        break;
      case 6:
        AW(kInl, 0, Await(s[0], s[1]), kS0, kS1);
        LogIn(c, kS0, s[0]);
        LogIn(c, kS1, s[1]);
        break;
      case 7:
        AW(kInl, 0, AwaitInline(u[0], s[0]), u0, kS0);
        LogIn(c, u0, u[0]);
        LogIn(c, kS0, s[0]);
        break;
      case 8:
        AW(kInl, 0, Await(s.begin(), s.end()), kS0, kS1);
        LogIn(c, kS1, s[1]);
        break;
      case 9:
        AW(kSticky, 0, AwaitSticky(u[0]), u0);
        LogIn(c, u0, u[0]);
        break;
      case 10:
        AW(kSticky, 0, AwaitSticky(u[0], u[1]), u0, u1);
        LogIn(c, u0, u[0]);
        LogIn(c, u1, u[1]);
        break;
      case 11:
        AW(kSticky, 0, AwaitSticky(s[0]), kS0);
        LogIn(c, kS0, s[0]);
        break;
      case 12:
        AW(kSticky, 0, AwaitSticky(u[0], s[0], s[1]), u0, kS0, kS1);
        LogIn(c, u0, u[0]);
        LogIn(c, kS1, s[1]);
        break;
      case 13:
        AW(kSticky, 0, AwaitSticky(u.begin(), u.end()), u0, u1);
        LogIn(c, u1, u[1]);
        break;
      case 14:
        AW(kSticky, 0, AwaitSticky(s.begin(), s.size()), kS0, kS1);
        LogIn(c, kS0, s[0]);
        break;
      case 15:
        AW(kOn, 1, AwaitOn(*w.e1, u[0]), u0);
        LogIn(c, u0, u[0]);
        break;
      case 16:
        AW(kOn, 2, AwaitOn(*w.e2, u[0], u[1]), u0, u1);
        LogIn(c, u0, u[0]);
        LogIn(c, u1, u[1]);
        break;
      case 17:
        AW(kOn, 1, AwaitOn(*w.e1, s[0]), kS0);
        LogIn(c, kS0, s[0]);
        break;
      case 18:
        AW(kOn, 2, AwaitOn(*w.e2, u[0], s[0]), u0, kS0);
        LogIn(c, u0, u[0]);
        LogIn(c, kS0, s[0]);
        break;
      case 19:
        AW(kOn, 1, AwaitOn(*w.e1, u.begin(), u.size()), u0, u1);
        LogIn(c, u1, u[1]);
        break;
      case 20:
        AW(kOn, 2, AwaitOn(*w.e2, s.begin(), s.end()), kS0, kS1);
        LogIn(c, kS1, s[1]);
        break;
      case 21:
        AW(kOn, 3, AwaitOn(*w.e3, u[0]), u0);
        break;
      case 22:
        AW(kOn, 3, AwaitOn(*w.e3, u[0], u[1]), u0, u1);
        break;
      case 23:
        AW(kOn, 1, On(*w.e1));
        break;
      case 24:
        AW(kOn, 2, On(*w.e2));
        break;
      case 25:
        AW(kOn, 3, On(*w.e3));
        break;
      case 26:
        AW(kYld, 0, kYield);
        break;
      case 27: {
        Ev("aw", {c, kYld, 0, Where()});
        auto& e = co_await Yield();
        Ev("res", {c, Where(), -1});
        Ev("cur", {c, w.Id(e)});
        break;
      }
      case 28: {
        auto& e = co_await CurrentExecutor();
        Ev("cur", {c, w.Id(e)});
        break;
      }
      case 29:
      case 30:
      case 31: {
        Born(ch, 0);
        EAT(Child<Future<V>>(w, ch, op - 29, s[0], {}), ch);
        break;
      }
      case 32:
      case 33:
      case 34: {
        Born(ch, 1);
        auto t = Child<Task<V>>(w, ch, op - 32, s[0], {});
        Ev("start", {ch, c + 1000});
        EAT(std::move(t), ch);
        break;
      }
      case 35:
      case 36: {
        Born(ch, 1);
        auto t = Child<Task<V>>(w, ch, op - 34, s[0], {});
        Ev("start", {ch, c + 1000});
        AW(kInl, 0, Await(t), ch);
        LogIn(c, ch, t);
        break;
      }
      case 37: {
        Born(ch, 0);
        auto t = Child<SF>(w, ch, 1, s[0], {});
        EAT(t, ch);
        LogIn(c, ch, t);
        break;
      }
      case 38:
      case 39: {
        Ev("task", {ch, 1});
        EAT(Schedule(*w.e1, Fn(ch, op - 38)), ch);
        break;
      }
      case 40: {
        Ev("task", {ch, 3});
        EAT(Schedule(*w.e3, Fn(ch, 0)), ch);
        break;
      }
      case 41: {
        Ev("in", {ch, 0});
        Ev("set", {ch, ch});
        EAT(MakeTask(V{ch}), ch);
        break;
      }
      case 42: {
        Ev("task", {ch, 2});
        auto t = LazyContract<V>(*w.e2, h::Fn{[ch](Promise<V>&& p) {
                                   Ev("fn", {ch, Where(), ch});
                                   std::move(p).Set(ch);
                                 }});
        AW(kInl, 0, Await(t), ch);
        LogIn(c, ch, t);
        break;
      }
      case 43: {
        Ev("task", {ch, 2});
        EAT(MakeTask(V{1}).Then(*w.e2, h::Fn{[f = Fn(ch, 0)](V) mutable {
                                  return f();
                                }}),
            ch);
        break;
      }
      case 44: {  // refused child
        Born(ch, 0);
        EAT(Child<Future<V>>(w, ch, 4, s[0], {}), ch);
        break;
      }
      case 45: {
        Born(ch, 1);
        auto t = Child<Task<V>>(w, ch, 4, s[0], {});
        Ev("start", {ch, c + 1000});
        EAT(std::move(t), ch);
        break;
      }
      case 46: {
        Born(ch, 0);
        EAT(Child<Future<V>>(w, ch, 3, s[0], {}), ch);
        break;
      }
      case 47: {  // a task that is never started
        Born(ch, 1);
        {
          auto t = Child<Task<V>>(w, ch, 1, s[0], {});
          Ev("cancel", {ch});
        }
        Ev("out", {ch, 0, h::kStop});
        break;
      }
      default:
        break;
    }
  }
  rt::ObjUse(&arg, h::kFun);
  if (a.fin == 1) {
    Ev("ret", {c, h::kExcBase + 90 + c});
    throw h::Exc{90 + c};
  }
  Ev("ret", {c, 90 + c});
  co_return V{90 + c};
}

bool Uses(const std::vector<int>& ops, int what) {  // 0 u0, 1 u1, 2 s0, 3 s1
  for (int op : ops) {
    bool u = op == 0 || op == 2 || op == 3 || op == 4 || op == 7 || op == 9 || op == 10 || op == 12 || op == 13 ||
             op == 15 || op == 16 || op == 18 || op == 19 || op == 21 || op == 22;
    bool v = op == 3 || op == 4 || op == 10 || op == 13 || op == 16 || op == 19 || op == 22;
    bool t = op == 1 || op == 5 || op == 6 || op == 7 || op == 8 || op == 11 || op == 12 || op == 14 || op == 17 ||
             op == 18 || op == 20 || op == 36 || op == 46;
    bool z = op == 6 || op == 8 || op == 12 || op == 14 || op == 20;
    if (what == 0 ? u : what == 1 ? v : what == 2 ? t : z) {
      return true;
    }
  }
  return false;
}

template <typename P>
void SetIt(int i, P&& p, int how) {
  int code = how == 0 ? i : how == 1 ? h::kExcBase + i : h::kStop;
  Ev("set", {i, code});
  if (how == 0) {
    std::move(p).Set(V{i});
  } else if (how == 1) {
    std::move(p).Set(std::make_exception_ptr(h::Exc{i}));
  } else {
    auto x = std::move(p);
  }
}

// calls the coroutine and observes its result
void Launch(Arg& a, int how) {
  int c = a.c;
  auto cb = [c](Result<V>&& r) {
    Ev("out", {c, 0, Code(r)});
    rt::SetFlag(c);
  };
#if CO_RT == 0
  Born(c, 0);
  auto f = Main(a, Tok{c});
  if (how == 0) {
    std::move(f).DetachInline(cb);
  } else if (how == 1) {
    cb(std::move(f).Get());
  } else {  // nobody wants it
    Ev("nobody", {c});
    rt::SetVar(300 + c, 1);
    std::move(f).Detach();
  }
#elif CO_RT == 1
  Born(c, 1);
  auto t = Main(a, Tok{c});
  rt::Point();
  if (how == 0) {
    Ev("start", {c, -1});
    std::move(t).ToFuture().DetachInline(cb);
  } else if (how == 1) {
    Ev("start", {c, 1});
    cb(std::move(t).ToFuture(*a.w->e1).Get());
  } else if (how == 2) {
    Ev("start", {c, -1});
    Ev("nobody", {c});
    rt::SetVar(300 + c, 1);
    std::move(t).Detach();
  } else if (how == 3) {
    Ev("start", {c, 3});
    std::move(t).ToFuture(*a.w->e3).DetachInline(cb);
  } else {
    Ev("cancel", {c});
    {
      auto gone = std::move(t);
    }
    Ev("nobody", {c});
    rt::SetFlag(c);
  }
#else
  Born(c, 0);
  auto f = Main(a, Tok{c});
  if (how == 0) {
    f.SubscribeInline([c](const Result<V>& r) {
      Ev("out", {c, 1, Code(r)});
    });
    f.SubscribeInline([c, cb](const Result<V>& r) {
      auto mine = r;
      cb(std::move(mine));
    });
  } else if (how == 1) {
    auto g = f;
    Ev("out", {c, 1, Code(f.Get())});
    cb(std::move(g).Get());
  } else {
    Ev("nobody", {c});
    rt::SetVar(300 + c, 1);
    { auto gone = std::move(f); }
  }
#endif
}

#define CO_NAME2(a, b) a##b
#define CO_NAME1(a, b) CO_NAME2(a, b)
#define CO_NAME(a) CO_NAME1(a, CO_RT)

}  // namespace

// plan, outcomes, finish (0 return, 1 throw; +2 catching), how, executors (mask1 + 8 * mask2 + 64 * u0 on e1), number of
// coroutines, steps...
SCENARIO(CO_NAME(coro)) {
  Ev("cfg");
  int plan = p[0], out = p[1], fin = p[2], how = p[3], ex = p[4], m = p[5];
  World w{ex & 7, (ex >> 3) & 7};
  Arg a[2];
  std::vector<Promise<V>> up[2];
  std::vector<SharedPromise<V>> sp;
  std::vector<int> all;
  SF sf[2];
  for (int k = 0; k < 2; ++k) {
    auto [f, pr] = MakeSharedContract<V>();
    sf[k] = f;
    sp.push_back(std::move(pr));
  }
  for (int i = 0; i < m; ++i) {
    a[i].w = &w;
    a[i].c = i + 1;
    a[i].catching = fin >= 2;
    a[i].fin = fin & 1;
    for (int k = 6 + i; k < n; k += m) {
      a[i].ops.push_back(p[k]);
      all.push_back(p[k]);
    }
    for (int k = 0; k < 2; ++k) {
      if (k == 0 && (ex & 64) != 0) {
        auto [f, pr] = MakeContractOn<V>(*w.e1);
        a[i].u.push_back(std::move(f).On(nullptr));
        up[i].push_back(std::move(pr));
      } else {
        auto [f, pr] = MakeContract<V>();
        a[i].u.push_back(std::move(f));
        up[i].push_back(std::move(pr));
      }
    }
    a[i].s = {sf[0], sf[1]};
  }
  sf[0] = {};
  sf[1] = {};
  // whatever has to be completed, in order
  struct It {
    int id, i, k, x;
  };
  std::vector<It> its;
  for (int i = 0; i < m; ++i) {
    for (int k = 0; k < 2; ++k) {
      if (Uses(a[i].ops, k)) {
        its.push_back({10 * (i + 1) + k, i, k, k == 0 && (ex & 64) != 0});
      }
    }
  }
  for (int k = 0; k < 2; ++k) {
    if (Uses(all, 2 + k)) {
      its.push_back({kS0 + k, -1, k, 0});
    }
  }
  for (auto& it : its) {
    Ev("in", {it.id, it.x});
  }
  auto set = [&](const It& it) {
    int o = it.i >= 0 ? it.k == 0 ? out % 3 : out / 27 % 3 : it.k == 0 ? out / 3 % 3 : out / 9 % 3;
    if (it.i >= 0) {
      SetIt(it.id, std::move(up[it.i][it.k]), o);
    } else {
      SetIt(it.id, std::move(sp[it.k]), o);
    }
  };
  std::vector<std::thread> ts;
  bool on[3] = {};
  for (int op : all) {
    on[1] |= op == 15 || op == 17 || op == 19 || op == 23 || op == 30 || op == 33 || op == 35 || op == 37 || op == 38 ||
             op == 39;
    on[2] |= op == 16 || op == 18 || op == 20 || op == 24 || op == 42 || op == 43;
  }
  on[1] |= (ex & 64) != 0 || (CO_RT == 1 && how == 1);
  std::vector<std::thread> ws;
  for (int q = 1; q < 3; ++q) {
    if (on[q]) {
      ws.emplace_back([q] {
        h::Serve(q, q, true);
      });
    }
  }
  if (plan == 0) {  // ready
    for (auto& it : its) {
      set(it);
    }
  } else if (plan == 1 || plan == 2) {  // one thread
    ts.emplace_back([&] {
      for (std::size_t j = 0; j < its.size(); ++j) {
        set(its[plan == 1 ? j : its.size() - 1 - j]);
      }
    });
  } else if (plan == 3) {  // a thread per future
    for (auto& it : its) {
      ts.emplace_back([&] {
        set(it);
      });
    }
  } else {  // the first one is ready, the others are set by a thread
    for (std::size_t j = 0; j < its.size(); ++j) {
      if (j == 0) {
        set(its[j]);
      } else {
        ts.emplace_back([&, j] {
          set(its[j]);
        });
      }
    }
  }
  if (m == 2) {
    ts.emplace_back([&] {
      Launch(a[1], how == 1 ? 0 : how);
    });
  }
  Launch(a[0], how);
  for (int i = 0; i < m; ++i) {
    rt::WaitFlag(i + 1);
  }
  for (auto& t : ts) {
    t.join();
  }
  rt::QClose(1);
  rt::QClose(2);
  for (auto& t : ws) {
    t.join();
  }
}
