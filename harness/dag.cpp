// Graphs of asynchronous operations: steps, unwrapping, shared results, combinators, coroutines, connected contracts.
#include "exec.hpp"
#include "vals.hpp"

#include <thread>
#include <variant>
#include <vector>
#include <yaclib/async/connect.hpp>
#include <yaclib/async/contract.hpp>
#include <yaclib/async/join.hpp>
#include <yaclib/async/share.hpp>
#include <yaclib/async/shared_contract.hpp>
#include <yaclib/async/split.hpp>
#include <yaclib/async/when_all.hpp>
#include <yaclib/async/when_any.hpp>
#include <yaclib/coro/await.hpp>
#include <yaclib/coro/future.hpp>
#include <yaclib/exe/job.hpp>
#include <yaclib/lazy/make.hpp>
#include <yaclib/lazy/schedule.hpp>

using namespace yaclib;
using rt::Ev;
using h::Val;

#if DAG_E
#define DAG_NS dag1
#else
#define DAG_NS dag0
#endif

namespace DAG_NS {

#if DAG_E
// an error with a content which can be moved away
struct Error {
  Val v;
  Error(StopTag) noexcept : v{h::kStop} {
  }
  Error(int c) noexcept : v{c} {
  }
  int Get() const noexcept {
    return v.Get();
  }
  static const char* What() noexcept {
    return "err";
  }
};
#else
using Error = StopError;
#endif

using Res = Result<Val, Error>;
using U = Future<Val, Error>;
using S = SharedFuture<Val, Error>;
using Held = std::variant<std::monostate, U, S>;
using Src = std::variant<std::monostate, Promise<Val, Error>, SharedPromise<Val, Error>>;

int ErrCode(const Error& e) noexcept {
#if DAG_E
  return e.Get();
#else
  (void)e;
  return h::kStop;
#endif
}

int ExcCode(const std::exception_ptr& e) noexcept {
  try {
    std::rethrow_exception(e);
  } catch (const ResultError<Error>& x) {
    const int c = ErrCode(x.Get());
    return h::kExcBase + (c == h::kStop ? 900 : c);
  } catch (...) {
    return h::ExcCode(e);
  }
}

template <typename V>
int ResCode(const Result<V, Error>& r) noexcept {
  switch (r.State()) {
    case ResultState::Value:
      return h::CodeV(std::as_const(r).Value());
    case ResultState::Error:
      return ErrCode(std::as_const(r).Error());
    case ResultState::Exception:
      return ExcCode(std::as_const(r).Exception());
    default:
      return h::kEmptyRes;
  }
}

struct Node {
  int op, v, b, a;
};

struct World {
  IExecutor* e[3];
  Node nodes[10];
  int n;
  Held held[11];
  Src src[11];
};
World* w;

void Run(int k, int code, int x = 0, int y = 0) {
  Ev("run", {k, h::Where(), code, x, y});
}

template <typename H>
constexpr bool kIsShared = std::is_same_v<std::decay_t<H>, S>;

// a copy of a shared future, the unique one itself
template <typename H>
auto Use(H& hold) {
  if constexpr (kIsShared<H>) {
    return hold;
  } else {
    return std::move(hold);
  }
}

// calls f with the future in slot a (and the one in slot b)
template <typename F>
void With(int a, F&& f) {
  std::visit(
    [&](auto& x) {
      if constexpr (!std::is_same_v<std::decay_t<decltype(x)>, std::monostate>) {
        f(x);
      }
    },
    w->held[a]);
}
template <typename F>
void With2(int a, int b, F&& f) {
  With(a, [&](auto& x) {
    With(b, [&](auto& y) {
      f(x, y);
    });
  });
}

template <typename H, typename F>
U Then(H& hold, int e, F&& f) {
  auto get = [&]() -> auto&& {
    if constexpr (kIsShared<H>) {
      return std::as_const(hold);
    } else {
      return std::move(hold);
    }
  };
  if (e == 0) {
    return get().ThenInline(std::forward<F>(f));
  }
  return get().Then(*w->e[e], std::forward<F>(f)).On(nullptr);
}

Val Out(int k, bool fail) {
  if (fail) {
    throw h::Exc{100 + k};
  }
  return Val{100 + k};
}

template <typename H>
U Step(int k, H& hold, int e, int shape, bool fail) {
  switch (shape) {
    case 0:
      return Then(hold, e, h::Fn{[k, fail](Val x) {
                    Run(k, x.Get());
                    return Out(k, fail);
                  }});
    case 1:
      return Then(hold, e, h::Fn{[k, fail](const Res& r) {
                    Run(k, ResCode(r));
                    return Out(k, fail);
                  }});
    case 2:
      return Then(hold, e, h::Fn{[k, fail](Error x) {
                    Run(k, ErrCode(x));
                    return Out(k, fail);
                  }});
    default:
      return Then(hold, e, h::Fn{[k, fail](std::exception_ptr x) {
                    Run(k, ExcCode(x));
                    return Out(k, fail);
                  }});
  }
}

template <typename V>
Res Failed(const Result<V, Error>& r) {
  if (r.State() == ResultState::Error) {
    return Res{r.Error()};
  }
  return Res{r.Exception()};
}

template <typename F>
U AllOf(int k, F f) {
  return std::move(f).ThenInline(h::Fn{[k](Result<std::vector<Val>, Error> r) -> Res {
    if (!r) {
      auto out = Failed(r);
      Run(k, ResCode(out));
      return out;
    }
    auto& v = std::as_const(r).Value();
    Run(k, 0, v[0].Get(), v[1].Get());
    return Val{100 + k};
  }});
}

template <typename A, typename B>
U Await2(int k, int v, A a, B b) {
  if (v == 0) {
    co_await Await(a, b);
  } else {
    co_await Await(a);
    co_await Await(b);
  }
  Run(k, 0, ResCode(std::as_const(a).Touch()), ResCode(std::as_const(b).Touch()));
  if (!std::as_const(a).Touch()) {
    co_return Failed(std::as_const(a).Touch());
  }
  if (!std::as_const(b).Touch()) {
    co_return Failed(std::as_const(b).Touch());
  }
  co_return Val{100 + k};
}

// co_await of the futures themselves: a failure is an exception
template <typename A, typename B>
U Take2(int k, A a, B b) {
  auto x = co_await std::move(a);
  auto y = co_await std::move(b);
  Run(k, 0, x.Get(), y.Get());
  co_return Val{100 + k};
}

template <typename P>
void Fulfil(P& p, int k, int outcome) {
  Ev("src", {k});
  P q = std::move(p);
  switch (outcome) {
    case 0:
      std::move(q).Set(Val{k});
      break;
    case 1:
      std::move(q).Set(StopTag{});
      break;
    case 2:
      std::move(q).Set(std::make_exception_ptr(h::Exc{k}));
      break;
#if DAG_E
    case 4:
      std::move(q).Set(Error{4000 + k});
      break;
#endif
    default:
      break;
  }
}

void Set(int k) {
  std::visit(
    [&](auto& p) {
      if constexpr (!std::is_same_v<std::decay_t<decltype(p)>, std::monostate>) {
        Fulfil(p, k, w->nodes[k - 1].a);
      }
    },
    w->src[k]);
}

template <FailPolicy F, typename X, typename Y>
U AnyOf(X& x, Y& y, bool dynamic) {
  if constexpr (std::is_same_v<X, Y>) {
    if (dynamic) {
      std::vector<X> v;
      v.push_back(Use(x));
      v.push_back(Use(y));
      return WhenAny<F>(v.begin(), v.end());
    }
  }
  return WhenAny<F>(Use(x), Use(y));
}

void Build(int k) {
  auto [op, v, b, a] = w->nodes[k - 1];
  Held res;
  switch (op) {
    case 0:
      if (v == 0) {
        auto [f, p] = MakeContract<Val, Error>();
        res = std::move(f);
        w->src[k] = std::move(p);
      } else {
        auto [f, p] = MakeSharedContract<Val, Error>();
        res = std::move(f);
        w->src[k] = std::move(p);
      }
      break;
    case 1:
      With(a, [&](auto& x) {
        res = Step(k, x, b, v & 3, v >= 4);
      });
      break;
    case 2:
      With2(a, b, [&](auto& x, auto& y) {
        res = Then(x, v, h::Fn{[k, y = Use(y)](Res r) mutable {
                     Run(k, ResCode(r));
                     return std::move(y);
                   }});
      });
      break;
    case 3:
      With(a, [&](auto& x) {
        if constexpr (kIsShared<decltype(x)>) {
          res = Share(x);
        } else {
          res = Split(std::move(x));
        }
      });
      break;
    case 4:
      With2(a, b, [&](auto& x, auto& y) {
        using X = std::decay_t<decltype(x)>;
        if constexpr (std::is_same_v<X, std::decay_t<decltype(y)>>) {
          if (v == 1) {
            std::vector<X> in;
            in.push_back(Use(x));
            in.push_back(Use(y));
            res = AllOf(k, WhenAll(in.begin(), in.end()));
            return;
          }
        }
        res = AllOf(k, WhenAll(Use(x), Use(y)));
      });
      break;
    case 5:
      With2(a, b, [&](auto& x, auto& y) {
        if (v % 3 == 0) {
          res = AnyOf<FailPolicy::None>(x, y, v >= 3);
        } else if (v % 3 == 1) {
          res = AnyOf<FailPolicy::FirstFail>(x, y, v >= 3);
        } else {
          res = AnyOf<FailPolicy::LastFail>(x, y, v >= 3);
        }
      });
      break;
    case 6:
      With2(a, b, [&](auto& x, auto& y) {
        auto then = [k](auto f) -> U {
          return std::move(f).ThenInline(h::Fn{[k](Result<void, Error> r) -> Res {
            Run(k, ResCode(r));
            if (!r) {
              return Failed(r);
            }
            return Val{100 + k};
          }});
        };
        if (v == 0) {
          res = then(Join(Use(x), Use(y)));
        } else {
          res = then(Join<FailPolicy::FirstFail>(Use(x), Use(y)));
        }
      });
      break;
    case 7:
      With2(a, b, [&](auto& x, auto& y) {
        if (v == 2) {
          res = Take2(k, Use(x), Use(y));
        } else {
          res = Await2(k, v, Use(x), Use(y));
        }
      });
      break;
    case 8:
      With(a, [&](auto& x) {
        auto connect = [&](auto&& p) {
          if constexpr (kIsShared<decltype(x)>) {
            Connect(x, std::move(p));
          } else {
            Connect(std::move(x), std::move(p));
          }
        };
        if (v == 0) {
          auto [f, p] = MakeContract<Val, Error>();
          connect(std::move(p));
          res = std::move(f);
        } else {
          auto [f, p] = MakeSharedContract<Val, Error>();
          connect(std::move(p));
          res = std::move(f);
        }
      });
      break;
    case 9:
      With2(a, b, [&](auto& x, auto& y) {
        res = WhenAll<FailPolicy::None>(Use(x), Use(y)).ThenInline(h::Fn{[k](std::vector<Res> r) {
          Run(k, 0, ResCode(r[0]), ResCode(r[1]));
          return Val{100 + k};
        }});
      });
      break;
    case 10:
      With(a, [&](auto& x) {
        res = Then(x, b, h::Fn{[k, v = v](Res r) -> Task<Val, Error> {
                     Run(k, ResCode(r));
                     if (v == 0) {
                       return MakeTask<Val, Error>(Val{k});
                     }
                     return Schedule<Error>(*w->e[v], h::Fn{[k] {
                       return Val{k};
                     }});
                   }});
      });
      break;
  }
  w->held[k] = std::move(res);
}

// Goes round the queue as often as there are nodes: whatever was under way is finished then.
struct Token final : Job {
  int left;
  void Call() noexcept final {
    if (--left == 0) {
      rt::SetFlag(60);
    } else {
      rt::QPush(1, this);
    }
  }
  void Drop() noexcept final {
  }
};

// p0: what happens to the results nobody uses (0 Get, 1 dropped), nodes: op*100000 + v*10000 + b*100 + a
#if DAG_E
SCENARIO(dagerr) {
#else
SCENARIO(dag) {
#endif
  World world{};
  w = &world;
  auto e1 = MakeShared<h::Raw>(1, 1, 1);
  auto e2 = MakeShared<h::Raw>(1, 2, 2, 0x3fffffff);
  world.e[1] = e1.Get();
  world.e[2] = e2.Get();
  world.n = n - 1;
  bool other[3] = {};
  for (int i = 0; i < world.n; ++i) {
    int x = p[1 + i];
    world.nodes[i] = {x / 100000, x / 10000 % 10, x / 100 % 100, x % 100};
    auto& nd = world.nodes[i];
    Ev("nd", {i + 1, nd.op, nd.a, nd.b, nd.v});
    if (nd.op == 0) {
      Build(i + 1);
      other[nd.b] = true;
    }
  }
  std::thread worker{[] {
    h::Serve(1, 1, true);
  }};
  std::vector<std::thread> setters;
  for (int t : {1, 2}) {
    if (other[t]) {
      setters.emplace_back([t] {
        for (int k = 1; k <= w->n; ++k) {
          if (w->nodes[k - 1].op == 0 && w->nodes[k - 1].b == t) {
            Set(k);
          }
        }
      });
    }
  }
  for (int k = 1; k <= world.n; ++k) {
    if (world.nodes[k - 1].op != 0) {
      Build(k);
    } else if (world.nodes[k - 1].b == 0) {
      Set(k);
    }
  }
  for (int k = 1; k <= world.n; ++k) {
    With(k, [&](auto& x) {
      if constexpr (kIsShared<decltype(x)>) {
        if (p[0] == 0) {
          Ev("got", {k, ResCode(std::as_const(x).Get())});
        }
        S{std::move(x)};
      } else if (x.Valid()) {
        if (p[0] == 0) {
          Ev("got", {k, ResCode(std::move(x).Get())});
        } else {
          U{std::move(x)};
        }
      }
    });
  }
  for (auto& t : setters) {
    t.join();
  }
  Token tok;
  tok.left = 2 * world.n + 1;
  rt::QPush(1, &tok);
  rt::WaitFlag(60);
  rt::QClose(1);
  worker.join();
  Ev("quiet");
  w = nullptr;
}

}  // namespace DAG_NS
