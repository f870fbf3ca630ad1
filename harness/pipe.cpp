// Pipelines: sources, executors, the scenario.
#include "pipe.hpp"

#include <thread>

namespace pl {

namespace {

// Executor of the scenarios: logs sub / ref. Bit k of `mask`: submission k (from 0) is refused.
class PExec : public IExecutor {
 public:
  PExec(int id, int mask, bool now) noexcept : _id{id}, _mask{mask}, _now{now} {
  }
  Type Tag() const noexcept final {
    return Type::Custom;
  }
  bool Alive() const noexcept final {
    return true;
  }
  void Submit(Job& job) noexcept final {
    int n = rt::AddVar(100 + _id, 1) - 1;
    if (_mask == -1 || (n < 30 && ((_mask >> n) & 1) != 0)) {
      Ev("ref", {_id});
      job.Drop();
    } else {
      Ev("sub", {_id});
      if (_now) {
        h::Entered in{_id};
        job.Call();
      } else {
        rt::QPush(_id, &job);
      }
    }
  }

 private:
  const int _id, _mask;
  const bool _now;
};

struct Setter {
  virtual ~Setter() = default;
  virtual void Run() = 0;
};
constexpr int kSetQ = 9;

struct World {
  std::vector<Prog> progs;
  Fin fin;
  IExecutorPtr ex[8];
  IExecutorPtr raw5;
  IntrusivePtr<FairThreadPool> pool;
};
World* g = nullptr;

template <typename P>
void SetTo(P&& p, int b, int id) {
  Ev("set", {id});
  if (b == 0) {
#if PV == 1
    std::move(p).Set();
#else
    std::move(p).Set(h::Val{10 + id});
#endif
  } else if (b == 1) {
    std::move(p).Set(std::make_exception_ptr(h::Exc{id}));
  } else if (b == 2) {
    std::move(p).Set(MakeE(id));
  } else if (b == 4) {
    std::move(p).Set(MakeR(3, id));
  } else {
    auto q = std::move(p);
  }
}

template <typename P>
struct SetterOf : Setter {
  P p;
  int b, id;
  SetterOf(P x, int y, int z) noexcept : p{std::move(x)}, b{y}, id{z} {
  }
  void Run() final {
    SetTo(std::move(p), b, id);
  }
};
template <typename P>
void Later(P p, int b, int id) {
  Setter* s;
  {
    rt::Quiet q;
    s = new SetterOf<P>{std::move(p), b, id};
  }
  rt::QPush(kSetQ, s);
}

// function of an *Contract source
template <typename P>
struct ContractFn {
  h::Alive<h::kFun> alive;
  const Step* s;
  Count count;
  explicit ContractFn(const Step& x) noexcept : s{&x} {
  }
  ContractFn(ContractFn&&) = default;
  void operator()(P&& p) {
    rt::ObjUse(&alive, h::kFun);
    Ev("cb", {s->id, 0, Where()});
    if (s->b == 1) {
      throw h::Exc{s->id};
    }
    if (s->b == 12) {  // throws after it has taken the promise away
      P q = std::move(p);
      throw h::Exc{s->id};
    }
    if (s->b == 13) {  // neither sets it nor keeps it
      return;
    }
    if (s->b == 11) {  // too late for an exception: the promise is set already
      SetTo(std::move(p), 0, s->id);
      throw h::Exc{s->id};
    }
    if (s->b >= 20) {
      Later(std::move(p), s->b - 20, s->id);
    } else {
      SetTo(std::move(p), s->b, s->id);
    }
  }
};

template <typename T>
T Coro(const Step* s, IExecutor* e, [[maybe_unused]] h::Alive<h::kLocal> arg, [[maybe_unused]] Count count) {
  h::Alive<h::kLocal> local;
  if (e) {
    co_await On(*e);
  }
  rt::ObjUse(&local, h::kLocal);
  rt::ObjUse(&arg, h::kLocal);
  Ev("cb", {s->id, 0, Where()});
  if (s->b == 1) {
    throw h::Exc{s->id};
  }
  if (s->b != 0) {
    co_return MakeR(s->b, s->id);
  }
#if PV == 1
  co_return {};
#else
  co_return h::Val{10 + s->id};
#endif
}

#if PV == 1
using MV = void;
#else
using MV = V;
#endif

Cur Source(const Prog& p) {
  Cur out;
  const Step& fn = p.fn;
  auto run = [&](auto&& go) {
    Dispatch<2>(fn.sig, [&](auto sig) {
      Dispatch<7>(fn.ret, [&](auto ret) {
        using P = typename decltype(ParamOf<decltype(sig)::value, false, void>())::type;
        using Q = typename decltype(RetOf<decltype(ret)::value>())::type;
        Al al{1};
        auto x = go(Fn<P, Q>{fn});
        out.emplace<decltype(x)>(std::move(x));
      });
    });
  };
  auto contract = [&](auto&& c) {
    auto [f, pr] = std::move(c);
    if (p.src == 2) {
      SetTo(std::move(pr), p.b, fn.id);
    } else {
      Later(std::move(pr), p.b, fn.id);
    }
    out.emplace<std::decay_t<decltype(f)>>(std::move(f));
  };
  auto put = [&](auto&& x) {
    out.emplace<std::decay_t<decltype(x)>>(std::move(x));
  };
  switch (p.src) {
    case 0: {
      Al al{1};
      if (p.b == 0) {
#if PV == 1
        put(MakeFuture<void, E>());
#else
        put(MakeFuture<V, E>(h::Val{10 + fn.id}));
#endif
      } else if (p.b == 1) {
        put(MakeFuture<MV, E>(std::make_exception_ptr(h::Exc{fn.id})));
      } else {
        put(MakeFuture<MV, E>(MakeE(fn.id)));
      }
    } break;
    case 1:
    case 2:
      contract([&] {
        Al al{1};
        return MakeContract<MV, E>();
      }());
      break;
    case 3:
      contract([&] {
        Al al{1};
        return MakeContractOn<MV, E>(Ex(p.ex));
      }());
      break;
    case 4:
      run([&](auto&& f) {
        return Run<E>(std::move(f));
      });
      break;
    case 5:
      run([&](auto&& f) {
        return Run<E>(Ex(p.ex), std::move(f));
      });
      break;
    case 6:
      run([&](auto&& f) {
        return yaclib::RunShared<E>(std::move(f));
      });
      break;
    case 7:
      run([&](auto&& f) {
        return yaclib::RunShared<E>(Ex(p.ex), std::move(f));
      });
      break;
    case 8:
      contract([&] {
        Al al{1};
        return MakeSharedContract<MV, E>();
      }());
      break;
    case 9:
      contract([&] {
        Al al{1};
        return MakeSharedContractOn<MV, E>(Ex(p.ex));
      }());
      break;
    case 10: {
      Al al{1};
      put(AsyncContract<MV, E>(ContractFn<Promise<MV, E>>{fn}));
    } break;
    case 11: {
      Al al{1};
      put(AsyncContract<MV, E>(Ex(p.ex), ContractFn<Promise<MV, E>>{fn}));
    } break;
    case 12: {
      Al al{1};
      put(AsyncSharedContract<MV, E>(ContractFn<SharedPromise<MV, E>>{fn}));
    } break;
    case 13: {
      Al al{1};
      put(AsyncSharedContract<MV, E>(Ex(p.ex), ContractFn<SharedPromise<MV, E>>{fn}));
    } break;
    case 14: {
      Al al{1};
      put(Coro<FU>(&fn, p.ex ? &Ex(p.ex) : nullptr, {}, Count{}));
    } break;
    case 15: {
      Al al{1};
      put(Coro<FS>(&fn, p.ex ? &Ex(p.ex) : nullptr, {}, Count{}));
    } break;
    case 20: {
      Al al{1};
      if (p.b == 0) {
#if PV == 1
        put(MakeTask<void, E>());
#else
        put(MakeTask<V, E>(h::Val{10 + fn.id}));
#endif
      } else if (p.b == 1) {
        put(MakeTask<MV, E>(std::make_exception_ptr(h::Exc{fn.id})));
      } else {
        put(MakeTask<MV, E>(MakeE(fn.id)));
      }
    } break;
    case 21:
      run([&](auto&& f) {
        return Schedule<E>(std::move(f));
      });
      break;
    case 22:
      run([&](auto&& f) {
        return Schedule<E>(Ex(p.ex), std::move(f));
      });
      break;
    case 23: {
      Al al{1};
      put(LazyContract<MV, E>(ContractFn<Promise<MV, E>>{fn}));
    } break;
    case 24: {
      Al al{1};
      put(LazyContract<MV, E>(Ex(p.ex), ContractFn<Promise<MV, E>>{fn}));
    } break;
    case 25: {
      Al al{1};
      put(Coro<FT>(&fn, p.ex ? &Ex(p.ex) : nullptr, {}, Count{}));
    } break;
  }
  return out;
}

}  // namespace

IExecutor& Ex(int id) {
  return *g->ex[id];
}
bool Lazy(int pid) {
  return IsLazy(g->progs[pid].src);
}

Cur Build(int pid) {
  const Prog& p = g->progs[pid];
  Cur c = Source(p);
  for (const Step& s : p.steps) {
    c = std::visit(
      [&](auto&& hold) -> Cur {
        using H = std::decay_t<decltype(hold)>;
        if constexpr (std::is_same_v<H, std::monostate>) {
          rt::Bad("program");
          return Cur{};
        } else {
          return Attach<H>(std::move(hold), s);
        }
      },
      std::move(c));
  }
  return c;
}

}  // namespace pl

using namespace pl;

// p: flags (1: allocation events), refuse masks of 1, 2, 5, stop mode of the pool, number of programs,
// programs: src b ex sig ret inner n (att ex sig ret b inner)*, final: kind ex sig
SCENARIO(pipe) {
  World w;
  bool used[10] = {};
  int np = 0;
  {
    rt::Quiet quiet;
    int i = 5;
    np = p[i++];
    int id = 0;
    auto use = [&](int ex) {
      if (ex > 0 && ex < 8) {
        used[ex] = true;
      }
    };
    for (int k = 0; k < np; ++k) {
      Prog pr;
      pr.src = p[i++];
      pr.b = p[i++];
      pr.ex = p[i++];
      pr.sig = p[i++];
      pr.ret = p[i++];
      pr.inner = p[i++];
      pr.fn = Step{40 + k, 0, pr.ex, pr.sig, pr.ret, pr.b, pr.inner};
      use(pr.ex);
      used[9] = true;
      int m = p[i++];
      for (int s = 0; s < m; ++s) {
        Step st{};
        st.id = ++id;
        st.att = p[i++];
        st.ex = p[i++];
        st.sig = p[i++];
        st.ret = p[i++];
        st.b = p[i++];
        st.inner = p[i++];
        use(st.ex);
        pr.steps.push_back(st);
      }
      w.progs.push_back(pr);
    }
    w.fin.kind = p[i++];
    w.fin.ex = p[i++];
    w.fin.fn = Step{39, 0, w.fin.ex, p[i++], 0, 0, 0};
    use(w.fin.ex);
    if (i != n) {
      rt::Bad("arguments");
      return;
    }
    g = &w;
  }
  {
    w.ex[0] = IExecutorPtr{&MakeInline()};
    w.ex[1] = MakeShared<PExec>(1, 1, p[1], false);
    w.ex[2] = MakeShared<PExec>(1, 2, p[2], false);
    w.ex[3] = MakeShared<PExec>(1, 3, -1, false);
    w.ex[4] = MakeShared<PExec>(1, 4, 0, true);
    w.raw5 = MakeShared<PExec>(1, 5, p[3], false);
    w.ex[5] = MakeStrand(w.raw5);
    w.ex[7] = IExecutorPtr{&MakeInline(StopTag{})};
    if (used[6]) {
      w.pool = MakeFairThreadPool(1);
      w.ex[6] = w.pool;
    }
    Ev("cfg", {PV, 0});
    for (int k = 0; k < np; ++k) {
      auto& pr = w.progs[k];
      Ev("src", {k, pr.src, pr.b, pr.ex, pr.sig, pr.ret, pr.inner});
      for (auto& s : pr.steps) {
        Ev("st", {k, s.id, s.att, s.ex, s.sig, s.ret, s.b, s.inner});
      }
    }
    Ev("fin", {w.fin.kind, w.fin.ex, w.fin.fn.sig});
  }
  std::vector<std::thread> ths;
  {
    if (used[6]) {
      Submit(*w.pool, [] {
        rt::SetSlot(0, 6);
      });
    }
    for (int e : {1, 2, 5}) {
      if (used[e]) {
        ths.emplace_back([e] {
          h::Serve(e, e, true);
        });
      }
    }
    if (used[9]) {
      ths.emplace_back([] {
        while (auto* x = rt::QPop(kSetQ)) {
          auto* s = static_cast<Setter*>(x);
          s->Run();
          rt::Quiet q;
          delete s;
        }
      });
    }
    if (p[4] != 0 && used[6]) {
      ths.emplace_back([&w, m = p[4]] {
        Ev("stop");
        if (m == 1) {
          w.pool->Stop();
        } else if (m == 2) {
          w.pool->SoftStop();
        } else {
          w.pool->HardStop();
        }
      });
    }
  }
  rt::SetVar(301, p[0] & 1);
  long before = rt::Allocs();
  {
    Cur c = Build(0);
    rt::Point();
    std::visit(
      [&](auto&& hold) {
        using H = std::decay_t<decltype(hold)>;
        if constexpr (!std::is_same_v<H, std::monostate>) {
          Finish<H>(std::move(hold), w.fin);
        }
      },
      std::move(c));
  }
  rt::SetVar(302, 1);
  if (rt::GetVar(303) != 0) {
    rt::WaitFlag(1);
  }
  rt::QClose(kSetQ);
  for (int e : {1, 2, 5}) {
    rt::QClose(e);
  }
  for (auto& t : ths) {
    t.join();
  }
  if (w.pool) {
    w.pool->Stop();
    w.pool->Wait();
  }
  if (rt::GetVar(301) != 0) {
    Ev("alx", {static_cast<int>(rt::Allocs() - before) - rt::GetVar(300)});
  }
  Ev("quiet");
  g = nullptr;
  for (auto& e : w.ex) {
    e = nullptr;
  }
  w.raw5 = nullptr;
  w.pool = nullptr;
  rt::Quiet quiet;
  w.progs = {};
}
