// C09, C10: WhenAll / Join / WhenAny over inputs completed by other threads.
#include "exec.hpp"
#include "vals.hpp"

#include <functional>
#include <thread>
#include <vector>
#include <yaclib/async/contract.hpp>
#include <yaclib/async/future.hpp>
#include <yaclib/async/join.hpp>
#include <yaclib/async/make.hpp>
#include <yaclib/async/promise.hpp>
#include <yaclib/async/shared_contract.hpp>
#include <yaclib/async/split.hpp>
#include <yaclib/async/when_all.hpp>
#include <yaclib/async/when_any.hpp>
#include <yaclib/coro/await.hpp>
#include <yaclib/coro/future.hpp>
#include <yaclib/coro/shared_future.hpp>

using namespace yaclib;
using rt::Ev;
using V = h::Val;
using E = h::Err;

namespace {

constexpr int kErrBase = 4000;

struct W {  // a second value type
  h::Val v;
  W() = default;
  W(int x) : v{x} {
  }
};

int C1(const V& v) {
  return v.Get();
}
int C1(const W& w) {
  return w.v.Get();
}
int C1(const Unit&) {
  return 0;
}
template <typename... T>
int C1(const std::variant<T...>& v) {
  return std::visit(
    [](const auto& x) {
      return C1(x);
    },
    v);
}
template <typename T>
int Fail(const Result<T, E>& r) {
  switch (r.State()) {
    case ResultState::Error:
      return r.Error().code < 0 ? h::kStop : kErrBase + r.Error().code;
    case ResultState::Exception:
      return h::ExcCode(r.Exception());
    default:
      return h::kEmptyRes;
  }
}
template <typename T>
int C1(const Result<T, E>& r) {
  return r ? C1(r.Value()) : Fail(r);
}
template <typename T>
void Out(const Result<std::vector<T>, E>& r) {
  if (!r) {
    Ev("cb", {1, Fail(r)});
    return;
  }
  const auto& v = r.Value();
  switch (v.size()) {
    case 0:
      Ev("cb", {0});
      break;
    case 1:
      Ev("cb", {0, C1(v[0])});
      break;
    case 2:
      Ev("cb", {0, C1(v[0]), C1(v[1])});
      break;
    case 3:
      Ev("cb", {0, C1(v[0]), C1(v[1]), C1(v[2])});
      break;
    default:
      Ev("cb", {0, C1(v[0]), C1(v[1]), C1(v[2]), C1(v[3])});
      break;
  }
}
template <typename... T>
void Out(const Result<std::tuple<T...>, E>& r) {
  if (!r) {
    Ev("cb", {1, Fail(r)});
    return;
  }
  std::apply(
    [](const auto&... x) {
      Ev("cb", {0, C1(x)...});
    },
    r.Value());
}
template <typename T>
void Out(const Result<T, E>& r) {
  Ev("cb", {1, C1(r)});
}

using Setter = std::function<void(int)>;

template <typename T>
struct Mk {
  static T Do(int c) {
    return T{c};
  }
};
template <typename T, typename P>
void SetP(P&& p, int c) {
  if (c < 1000) {
    if constexpr (std::is_void_v<T>) {
      std::forward<P>(p).Set();
    } else {
      std::forward<P>(p).Set(T{c});
    }
  } else if (c >= kErrBase) {
    std::forward<P>(p).Set(E{c - kErrBase});
  } else if (c >= h::kExcBase) {
    std::forward<P>(p).Set(std::make_exception_ptr(h::Exc{c - h::kExcBase}));
  } else {
    auto d = std::forward<P>(p);  // dropped
  }
}

template <typename T>
Future<T, E> Coro(Future<T, E> f) {
  co_await Await(f);
  co_return std::move(f).Touch();
}
template <typename T>
SharedFuture<T, E> CoroS(Future<T, E> f) {
  co_await Await(f);
  co_return std::move(f).Touch();
}

// a unique input
template <typename T>
Future<T, E> Uni(int src, Setter& set) {
  auto [f, p] = MakeContract<T, E>();
  set = [pp = std::make_shared<decltype(p)>(std::move(p))](int c) {
    SetP<T>(std::move(*pp), c);
  };
  switch (src) {
    case 1:
      return Coro<T>(std::move(f));
    case 2:
      return std::move(f).ThenInline([](Result<T, E>&& r) {
        return std::move(r);
      });
    case 3:
      return MakeFuture<void, E>().ThenInline([f = std::move(f)]() mutable {
        return std::move(f);
      });
    default:
      return std::move(f);
  }
}
template <typename T>
SharedFuture<T, E> Sha(int src, Setter& set) {
  if (src == 0) {
    auto [f, p] = MakeSharedContract<T, E>();
    set = [pp = std::make_shared<decltype(p)>(std::move(p))](int c) {
      SetP<T>(std::move(*pp), c);
    };
    return std::move(f);
  }
  auto f = Uni<T>(src == 1 ? 0 : src, set);
  if (src == 1) {
    return CoroS<T>(std::move(f));
  }
  return Split(std::move(f));
}

template <int K, typename... F>
auto Comb(F&&... f) {
  if constexpr (K == 0) {
    return WhenAll<FailPolicy::None>(std::forward<F>(f)...);
  } else if constexpr (K == 1) {
    return WhenAll(std::forward<F>(f)...);
  } else if constexpr (K == 2) {
    return Join(std::forward<F>(f)...);
  } else if constexpr (K == 3) {
    return Join<FailPolicy::FirstFail>(std::forward<F>(f)...);
  } else if constexpr (K == 4) {
    return WhenAny<FailPolicy::None>(std::forward<F>(f)...);
  } else if constexpr (K == 5) {
    return WhenAny<FailPolicy::FirstFail>(std::forward<F>(f)...);
  } else {
    return WhenAny(std::forward<F>(f)...);
  }
}

struct Env {
  int out = 0, code[4] = {}, vd = 0;
  Setter set[4];
  int n = 0;
  // the codes, with 0 for void values
  int Eff(int i) const {
    return ((vd >> i) & 1) != 0 && code[i] < 1000 ? 0 : code[i];
  }
  void Begin() {
    Ev("when");
  }
  template <typename T>
  void Finish(Future<T, E> f) {
    Ev("whenr", {f.Valid()});
    if (!f.Valid()) {
      return;
    }
    switch (out) {
      case 0:
        Ev("sub");
        std::move(f).DetachInline([](auto&& r) {
          Out(r);
        });
        Ev("subr");
        break;
      case 1: {
        Ev("rdy", {f.Ready()});
        rt::Point();
        Ev("rdy", {f.Ready()});
        Ev("sub");
        auto r = std::move(f).Get();
        Out(r);
        Ev("subr");
        break;
      }
      default: {
        auto d = std::move(f);
        break;
      }
    }
  }
};

template <typename F>
void With(Env& e, F&& main, int plan, int pre) {
  auto one = [&e](int i) {
    Ev("set", {i + 1, e.Eff(i)});
    e.set[i](e.code[i]);
    Ev("setr", {i + 1});
    e.set[i] = {};
  };
  for (int i = 0; i < e.n; ++i) {
    if ((pre >> i) & 1) {
      one(i);
    }
  }
  std::vector<std::thread> ts;
  auto left = [pre](int i) {
    return ((pre >> i) & 1) == 0;
  };
  if (plan == 0) {
    for (int i = 0; i < e.n; ++i) {
      if (left(i)) {
        ts.emplace_back([one, i] {
          one(i);
        });
      }
    }
  } else {
    ts.emplace_back([one, plan, left, n = e.n] {
      for (int j = 0; j < n; ++j) {
        int i = plan == 1 ? j : plan == 2 ? n - 1 - j : (j + 1) % n;
        if (left(i)) {
          one(i);
        }
      }
    });
  }
  main();
  for (auto& t : ts) {
    t.join();
  }
}

template <int K>
void Run(const int* p) {
  int n = p[1], form = p[2], src = p[3], plan = p[4], pre = p[5], pat = p[6];
  Env e;
  e.n = n;
  e.out = p[7];
  for (int i = 0, x = pat; i < n; ++i, x /= 4) {
    static const int base[] = {0, kErrBase, h::kExcBase, h::kStop};
    e.code[i] = base[x % 4] + (x % 4 == 3 ? 0 : 10 + i);
  }
  Ev("cfg", {K == 1 && (form == 8 || form == 9) ? 3 : K, n});  // without values WhenAll is Join
  auto u = [&](int i) {
    return Uni<V>(src, e.set[i]);
  };
  auto s = [&](int i) {
    return Sha<V>(src, e.set[i]);
  };
  auto run = [&](auto&& make) {
    With(
      e,
      [&] {
        e.Begin();
        e.Finish(make());
      },
      plan, pre);
  };
  auto dyn = [&](auto& v) {
    if (form % 2 == 0) {
      run([&] {
        return Comb<K>(v.begin(), v.end());
      });
    } else {
      run([&] {
        return Comb<K>(v.begin(), v.size());
      });
    }
  };
  switch (form) {
    case 0: {  // static, the same unique core
      if (n == 1) {
        auto a = u(0);
        run([&] {
          return Comb<K>(std::move(a));
        });
      } else if (n == 2) {
        auto a = u(0), b = u(1);
        run([&] {
          return Comb<K>(std::move(a), std::move(b));
        });
      } else {
        auto a = u(0), b = u(1), c = u(2);
        run([&] {
          return Comb<K>(std::move(a), std::move(b), std::move(c));
        });
      }
      break;
    }
    case 1: {  // static, shared
      if (n == 1) {
        auto a = s(0);
        run([&] {
          return Comb<K>(a);
        });
      } else if (n == 2) {
        auto a = s(0), b = s(1);
        run([&] {
          return Comb<K>(a, std::move(b));
        });
      } else {
        auto a = s(0), b = s(1), c = s(2);
        run([&] {
          return Comb<K>(a, b, std::move(c));
        });
      }
      break;
    }
    case 2: {  // static, mixed
      if (n == 2) {
        auto a = u(0);
        auto b = s(1);
        run([&] {
          return Comb<K>(std::move(a), std::move(b));
        });
      } else {
        auto a = s(0);
        auto b = u(1);
        auto c = u(2);
        run([&] {
          return Comb<K>(a, std::move(b), std::move(c));
        });
      }
      break;
    }
    case 3: {  // static, different types
      if (n == 2) {
        auto a = Uni<V>(src, e.set[0]);
        auto b = Uni<W>(src, e.set[1]);
        run([&] {
          return Comb<K>(std::move(a), std::move(b));
        });
      } else {
        auto a = Uni<W>(src, e.set[0]);
        auto b = Sha<V>(src, e.set[1]);
        auto c = Sha<W>(src, e.set[2]);
        run([&] {
          return Comb<K>(std::move(a), b, std::move(c));
        });
      }
      break;
    }
    case 4:
    case 5: {
      std::vector<Future<V, E>> v;
      for (int i = 0; i < n; ++i) {
        v.push_back(u(i));
      }
      dyn(v);
      break;
    }
    case 6:
    case 7: {
      std::vector<SharedFuture<V, E>> v;
      for (int i = 0; i < n; ++i) {
        v.push_back(s(i));
      }
      auto keep = form == 6 ? v : std::vector<SharedFuture<V, E>>{};
      dyn(v);
      break;
    }
    case 8: {  // static, void
      e.vd = 7;
      auto a = Uni<void>(src, e.set[0]);
      if (n == 2) {
        auto b = Uni<void>(src, e.set[1]);
        run([&] {
          return Comb<K>(std::move(a), std::move(b));
        });
      } else {
        auto b = Sha<void>(src, e.set[1]);
        auto c = Uni<void>(src, e.set[2]);
        run([&] {
          return Comb<K>(std::move(a), b, std::move(c));
        });
      }
      break;
    }
    case 9: {  // dynamic, void
      e.vd = 7;
      std::vector<Future<void, E>> v;
      for (int i = 0; i < n; ++i) {
        v.push_back(Uni<void>(src, e.set[i]));
      }
      dyn(v);
      break;
    }
    case 10: {  // static, void among others
      if constexpr (K < 4) {
        e.vd = 2;
        auto a = Uni<V>(src, e.set[0]);
        auto b = Uni<void>(src, e.set[1]);
        if (n == 2) {
          run([&] {
            return Comb<K>(std::move(a), std::move(b));
          });
        } else {
          auto c = Sha<W>(src, e.set[2]);
          run([&] {
            return Comb<K>(std::move(a), std::move(b), c);
          });
        }
      }
      break;
    }
    case 11: {  // FutureOn among the inputs
      auto x = yaclib::MakeShared<h::Raw>(1, 1, 1, 0);
      auto [a, pa] = MakeContractOn<V, E>(*x);
      e.set[0] = [pp = std::make_shared<std::decay_t<decltype(pa)>>(std::move(pa))](int c) {
        SetP<V>(std::move(*pp), c);
      };
      auto b = u(1);
      if (n == 2) {
        run([&, &a = a] {
          return Comb<K>(std::move(a), std::move(b));
        });
      } else {
        auto [c, pc] = MakeSharedContractOn<V, E>(*x);
        e.set[2] = [pp = std::make_shared<std::decay_t<decltype(pc)>>(std::move(pc))](int c) {
          SetP<V>(std::move(*pp), c);
        };
        run([&, &a = a, &c = c] {
          return Comb<K>(std::move(a), std::move(b), std::move(c));
        });
      }
      break;
    }
    default:
      break;
  }
}

// the same shared future several times: all of them are completed by one call
template <int K>
void RunSame(const int* p) {
  int n = 2, form = p[1], code = p[2], pre = p[3];
  Env e;
  e.n = n;
  e.out = p[4];
  Ev("cfg", {K, n});
  Setter set;
  auto f = Sha<V>(0, set);
  auto one = [&] {
    Ev("set", {1, code});
    Ev("set", {2, code});
    set(code);
    Ev("setr", {1});
    Ev("setr", {2});
    set = {};
  };
  if (pre == 1) {
    one();
  }
  std::thread t{[&] {
    if (pre == 0) {
      one();
    }
  }};
  std::vector<SharedFuture<V, E>> v{f, f};
  e.Begin();
  if (form == 0) {
    e.Finish(Comb<K>(f, f));
  } else {
    e.Finish(Comb<K>(v.begin(), v.end()));
  }
  t.join();
}

template <int K>
void RunEmpty(const int* p) {
  Env e;
  Ev("cfg", {K, 0});
  e.Begin();
  if (p[1] == 0) {
    std::vector<Future<V, E>> v;
    e.Finish(Comb<K>(v.begin(), v.end()));
  } else if (p[1] == 1) {
    std::vector<SharedFuture<V, E>> v;
    e.Finish(Comb<K>(v.begin(), v.size()));
  } else {
    std::vector<Future<void, E>> v;
    e.Finish(Comb<K>(v.begin(), v.end()));
  }
}

}  // namespace

// One translation unit per combinator WHEN_K.
#define WHEN_CAT2(a, b) a##b
#define WHEN_CAT(a, b) WHEN_CAT2(a, b)
// combinator, n, form, source, plan, already completed (mask), pattern (base 4), what is done with the output
SCENARIO(WHEN_CAT(when, WHEN_K)) {
  Run<WHEN_K>(p);
}
SCENARIO(WHEN_CAT(whensame, WHEN_K)) {
  RunSame<WHEN_K>(p);
}
SCENARIO(WHEN_CAT(whenempty, WHEN_K)) {
  RunEmpty<WHEN_K>(p);
}
