// C05: continuations of shared results (copies of one SharedFuture(On)): where they run, Call xor Drop, executor inherited.
#include "exec.hpp"
#include "vals.hpp"

#include <optional>
#include <thread>
#include <variant>
#include <vector>
#include <yaclib/async/contract.hpp>
#include <yaclib/async/run.hpp>
#include <yaclib/async/share.hpp>
#include <yaclib/async/shared_contract.hpp>
#include <yaclib/async/split.hpp>

using namespace yaclib;
using rt::Ev;
using h::Val;

namespace fan {

using Res = Result<Val>;
using Held = std::variant<std::monostate, SharedFuture<Val>, SharedFutureOn<Val>, Future<Val>, FutureOn<Val>>;

struct Node {
  int parent, thread, op;
};

struct World {
  IExecutor* e[3];
  Node nodes[8];
  int n;
  Held held[9];  // 0: the shared result
};
World* w;

void Ran(int k, const Res& r) {
  Ev("run", {k, h::Where(), h::Code(r)});
  rt::SetFlag(30 + k);
}

auto Take(int k) {
  return h::Fn{[k](Res r) {
    Ran(k, r);
    return Val{100 + k};
  }};
}
auto Look(int k) {
  return h::Fn{[k](const Res& r) {
    Ran(k, r);
    return Val{100 + k};
  }};
}
template <bool V>
auto Func(int k) {
  if constexpr (V) {
    return Take(k);
  } else {
    return Look(k);
  }
}
template <bool V>
auto Void(int k) {
  return h::Fn{[k](std::conditional_t<V, Res, const Res&> r) {
    Ran(k, r);
  }};
}

template <bool V, typename H>
void Attach(int k, int parent, int op, H& hold) {
  constexpr bool kShared = std::is_same_v<H, SharedFuture<Val>> || std::is_same_v<H, SharedFutureOn<Val>>;
  constexpr bool kOn = std::is_same_v<H, SharedFutureOn<Val>> || std::is_same_v<H, FutureOn<Val>>;
  auto get = [&]() -> auto&& {
    if constexpr (kShared) {
      return std::as_const(hold);
    } else {
      return std::move(hold);
    }
  };
  Held res;
  switch (op) {
    case 0:
      Ev("att", {k, parent, 0, 0});
      res = get().ThenInline(Func<V>(k));
      break;
    case 1:
      if constexpr (kOn) {
        Ev("att", {k, parent, 1, 0});
        res = get().Then(Func<V>(k));
      }
      break;
    case 2:
    case 3:
      Ev("att", {k, parent, 1, op - 1});
      res = get().Then(*w->e[op - 1], Func<V>(k));
      break;
    case 4:
      Ev("att", {k, parent, 0, 0});
      if constexpr (kShared) {
        get().SubscribeInline(Void<V>(k));
      } else {
        get().DetachInline(Void<V>(k));
      }
      break;
    case 5:
      if constexpr (kOn) {
        Ev("att", {k, parent, 1, 0});
        if constexpr (kShared) {
          get().Subscribe(Void<V>(k));
        } else {
          get().Detach(Void<V>(k));
        }
      }
      break;
    case 6:
      if constexpr (kShared && !kOn) {
        Ev("att", {k, parent, 1, 2});
        get().Subscribe(*w->e[2], Void<V>(k));
      } else if constexpr (!kShared) {
        Ev("att", {k, parent, 1, 2});
        get().Detach(*w->e[2], Void<V>(k));
      }
      break;
    case 7:
      if constexpr (kShared) {
        Ev("att", {k, parent, 1, 2});
        res = Share(hold, *w->e[2]).Then(Func<V>(k));
      }
      break;
    case 8:
      if constexpr (kShared) {
        Ev("att", {k, parent, 0, 0});
        res = Share(hold).ThenInline(Func<V>(k));
      }
      break;
  }
  if constexpr (!kShared) {
    rt::Quiet q;
    w->held[parent] = {};
  }
  w->held[k] = std::move(res);
}

void AttachAll(int thread, SharedFuture<Val> f, SharedFutureOn<Val> fo, int from, int to) {
  int seen = 0;
  for (int k = 1; k <= w->n; ++k) {
    auto& nd = w->nodes[k - 1];
    if (nd.thread != thread) {
      continue;
    }
    ++seen;
    if (seen <= from || seen > to) {
      continue;
    }
    auto go = [&](auto& hold) {
      if (k % 2 == 0) {
        Attach<true>(k, nd.parent, nd.op, hold);
      } else {
        Attach<false>(k, nd.parent, nd.op, hold);
      }
    };
    if (nd.parent == 0) {
      if (f.Valid()) {
        go(f);
      } else {
        go(fo);
      }
    } else {
      std::visit(
        [&](auto& hold) {
          using H = std::decay_t<decltype(hold)>;
          if constexpr (std::is_same_v<H, Future<Val>> || std::is_same_v<H, FutureOn<Val>>) {
            go(hold);
          }
        },
        w->held[nd.parent]);
    }
  }
}

template <typename P>
void Fulfil(P&& p, int outcome) {
  Ev("src");
  P q = std::move(p);
  switch (outcome) {
    case 0:
      std::move(q).Set(Val{1});
      break;
    case 1:
      std::move(q).Set(StopTag{});
      break;
    case 2:
      std::move(q).Set(std::make_exception_ptr(h::Exc{7}));
      break;
    default:
      break;
  }
}

// p0 source, p1 outcome, p2 who fulfils (0..8 main after so many attachments, 9 another thread), p3 p4 refuse masks, nodes
SCENARIO(fan) {
  World world{};
  w = &world;
  const int kind = p[0], outcome = p[1], when = p[2];
  auto e1 = MakeShared<h::Raw>(1, 1, 1, p[3]);
  auto e2 = MakeShared<h::Raw>(1, 2, 2, p[4]);
  world.e[1] = e1.Get();
  world.e[2] = e2.Get();
  world.n = n - 5;
  bool two = false;
  for (int i = 0; i < world.n; ++i) {
    world.nodes[i] = {p[5 + i] / 1000, p[5 + i] / 100 % 10, p[5 + i] % 100};
    two |= world.nodes[i].thread == 1;
  }
  const bool job = kind == 1 || kind == 4;
  const bool on = job || kind == 0 || kind == 5;
  static constexpr int kRes[] = {1, h::kStop, h::kExcBase + 7, h::kStop};
  Ev("cfg", {on ? 1 : 0, job, job && (p[3] & 1) != 0, job && (p[3] & 1) != 0 ? h::kStop : kRes[outcome]});
  std::vector<std::thread> ths;
  for (int e : {1, 2}) {
    ths.emplace_back([e] {
      h::Serve(e, e, true);
    });
  }
  {
    SharedFuture<Val> f;
    SharedFutureOn<Val> fo;
    SharedPromise<Val> sp;
    Promise<Val> up;
    switch (kind) {
      case 0: {
        auto [a, b] = MakeSharedContractOn<Val>(*e1);
        fo = std::move(a);
        sp = std::move(b);
      } break;
      case 1:
        Ev("src");
        fo = RunShared(*world.e[1], [outcome]() -> Res {
          if (outcome == 2) {
            throw h::Exc{7};
          }
          return outcome == 0 ? Res{Val{1}} : Res{StopTag{}};
        });
        break;
      case 2: {
        auto [a, b] = MakeSharedContract<Val>();
        f = std::move(a);
        sp = std::move(b);
      } break;
      case 3: {
        auto [a, b] = MakeContract<Val>();
        f = Split(std::move(a));
        up = std::move(b);
      } break;
      case 4:
        Ev("src");
        fo = AsyncSharedContract<Val>(*world.e[1], [outcome](SharedPromise<Val> pr) {
          if (outcome == 0) {
            std::move(pr).Set(Val{1});
          } else if (outcome == 1) {
            std::move(pr).Set(StopTag{});
          } else if (outcome == 2) {
            std::move(pr).Set(std::make_exception_ptr(h::Exc{7}));
          }
        });
        break;
      case 5: {
        auto [a, b] = MakeSharedContract<Val>();
        auto [c, d] = MakeSharedContractOn<Val>(*e1);
        Connect(a, std::move(d));
        fo = std::move(c);
        sp = std::move(b);
      } break;
      default: {
        auto [a, b] = MakeContract<Val>();
        auto [c, d] = MakeSharedContract<Val>();
        Connect(std::move(a), std::move(d));
        f = std::move(c);
        up = std::move(b);
      } break;
    }
    std::thread other, setter;
    auto set = [&] {
      if (sp.Valid()) {
        Fulfil(std::move(sp), outcome);
      } else if (up.Valid()) {
        Fulfil(std::move(up), outcome);
      }
    };
    if (two) {
      other = std::thread{[f, fo] {
        AttachAll(1, f, fo, 0, 99);
      }};
    }
    if (when == 9) {
      setter = std::thread{[&] {
        set();
      }};
    }
    if (when != 9) {
      AttachAll(0, f, fo, 0, when);
      set();
      AttachAll(0, std::move(f), std::move(fo), when, 99);
    } else {
      AttachAll(0, std::move(f), std::move(fo), 0, 99);
    }
    if (two) {
      other.join();
    }
    if (when == 9) {
      setter.join();
    }
  }
  for (int k = 1; k <= world.n; ++k) {
    rt::WaitFlag(30 + k);
  }
  for (int k = 1; k <= world.n; ++k) {
    std::visit(
      [&](auto& hold) {
        using H = std::decay_t<decltype(hold)>;
        if constexpr (std::is_same_v<H, Future<Val>> || std::is_same_v<H, FutureOn<Val>>) {
          if (hold.Valid()) {
            Ev("got", {k, h::Code(std::move(hold).Get())});
          }
        }
      },
      world.held[k]);
  }
  rt::QClose(1);
  rt::QClose(2);
  for (auto& t : ths) {
    t.join();
  }
  Ev("quiet", {rt::GetVar(101), rt::GetVar(102)});
  w = nullptr;
}

}  // namespace fan
