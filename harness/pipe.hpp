// Pipelines (C02, C05, C12, C20): programs are data, interpreted by calls of the real API.
// PV: 0 Val/StopError, 1 void/StopError, 2 Val/Err.
#pragma once
#include "exec.hpp"
#include "vals.hpp"

#include <variant>
#include <vector>
#include <yaclib/async/contract.hpp>
#include <yaclib/async/future.hpp>
#include <yaclib/async/make.hpp>
#include <yaclib/async/promise.hpp>
#include <yaclib/async/run.hpp>
#include <yaclib/async/share.hpp>
#include <yaclib/async/shared_contract.hpp>
#include <yaclib/async/shared_future.hpp>
#include <yaclib/async/split.hpp>
#include <yaclib/async/wait.hpp>
#include <yaclib/coro/await.hpp>
#include <yaclib/coro/future.hpp>
#include <yaclib/coro/on.hpp>
#include <yaclib/coro/shared_future.hpp>
#include <yaclib/coro/task.hpp>
#include <yaclib/exe/manual.hpp>
#include <yaclib/exe/strand.hpp>
#include <yaclib/exe/submit.hpp>
#include <yaclib/lazy/make.hpp>
#include <yaclib/lazy/schedule.hpp>
#include <yaclib/runtime/fair_thread_pool.hpp>

#ifndef PV
#  define PV 0
#endif

namespace pl {

using namespace yaclib;
using rt::Ev;
using h::Where;

#if PV == 0
using V = h::Val;
using E = StopError;
#elif PV == 1
using V = void;
using E = StopError;
#else
using V = h::Val;
using E = h::Err;
#endif

using R = Result<V, E>;
using FU = Future<V, E>;
using FO = FutureOn<V, E>;
using FS = SharedFuture<V, E>;
using FP = SharedFutureOn<V, E>;
using FT = Task<V, E>;
using Cur = std::variant<std::monostate, FU, FO, FS, FP, FT>;

struct Step {
  int id, att, ex, sig, ret, b, inner;
};
struct Prog {
  int src, b, ex, sig, ret, inner;
  Step fn;  // the function of the source
  std::vector<Step> steps;
};
struct Fin {
  int kind, ex;
  Step fn;
};

constexpr bool IsLazy(int src) {
  return src >= 20;
}

// ---- codes
inline int ErrCode(const StopError&) noexcept {
  return h::kStop;
}
inline int ErrCode(const h::Err& e) noexcept {
  return e.code == -100 ? h::kStop : e.code;
}
inline int ValCode(const h::Val& v) noexcept {
  return v.Get();
}
inline int ValCode(const Unit&) noexcept {
  return 0;
}
template <typename X>
int ResCode(const Result<X, E>& r) noexcept {
  switch (r.State()) {
    case ResultState::Value:
      return ValCode(std::as_const(r).Value());
    case ResultState::Error:
      return ErrCode(std::as_const(r).Error());
    case ResultState::Exception:
      return h::ExcCode(std::as_const(r).Exception());
    default:
      return h::kEmptyRes;
  }
}
inline int In(const E& e) noexcept {
  return ErrCode(e);
}
inline int In(const std::exception_ptr& e) noexcept {
  return h::ExcCode(e);
}
inline int In(const h::Val& v) noexcept {
  return v.Get();
}
inline int In(const Unit&) noexcept {
  return 0;
}
template <typename X>
int In(const Result<X, E>& r) noexcept {
  return ResCode(r);
}

inline E MakeE(int id) {
#if PV == 2
  return h::Err{4000 + id};
#else
  (void)id;
  return StopTag{};
#endif
}
inline R MakeR(int b, int id) {
  if (b == 2) {
    return R{MakeE(id)};
  }
  if (b == 3) {
    return R{std::make_exception_ptr(h::Exc{50 + id})};
  }
#if PV == 1
  return R{Unit{}};
#else
  return R{h::Val{10 + id}};
#endif
}

Cur Build(int pid);
bool Lazy(int pid);

// accounting of the heap blocks allocated by one call of the API (nested calls excluded): n blocks for m steps
struct Al {
  long a0;
  int saved, m;
  explicit Al(int steps) noexcept : a0{rt::AllocsMine()}, saved{rt::GetSlot(1)}, m{steps} {
    rt::SetSlot(1, 0);
  }
  ~Al() {
    int tot = static_cast<int>(rt::AllocsMine() - a0);
    int own = tot - rt::GetSlot(1);
    rt::SetSlot(1, saved + tot);
    rt::AddVar(300, own);
    if (rt::GetVar(301) != 0) {
      Ev("al", {own, m});
    }
  }
};

// ---- callbacks: rt flag 1 is set when no callback is alive any more (after the pipeline was built)
inline void CheckDone() noexcept {
  if (rt::GetVar(302) != 0 && rt::GetVar(303) == 0) {
    rt::SetFlag(1);
  }
}
struct Count {
  bool on = true;
  Count() noexcept {
    rt::AddVar(303, 1);
  }
  Count(Count&& o) noexcept {
    rt::AddVar(303, 1);
  }
  ~Count() {
    rt::AddVar(303, -1);
    CheckDone();
  }
};

template <typename Ret, typename P>
Ret Body(const Step& s, int in, P* p) {
  Ev("cb", {s.id, in, Where()});
  if (s.b == 1) {
    throw h::Exc{s.id};
  }
  if constexpr (std::is_void_v<Ret>) {
    return;
  } else if constexpr (std::is_same_v<Ret, h::Val>) {
    if constexpr (std::is_same_v<std::decay_t<P>, h::Val>) {
      if (s.b == 4) {
        return *p;
      }
    }
    return h::Val{10 + s.id};
  } else if constexpr (std::is_same_v<Ret, R>) {
    using Q = std::decay_t<P>;
    if constexpr (std::is_same_v<Q, h::Val> || std::is_same_v<Q, R> || std::is_same_v<Q, E> ||
                  std::is_same_v<Q, std::exception_ptr>) {
      if (s.b == 4) {
        return R{*p};
      }
    }
    return MakeR(s.b, s.id);
  } else {
    Cur c = Build(s.inner);
    Ret ret = std::get<Ret>(std::move(c));
    if (std::is_same_v<Ret, FT>) {
      Ev("built", {s.id});
    }
    return ret;
  }
}

template <typename P, typename Ret>
struct Fn {
  h::Alive<h::kFun> alive;
  const Step* s;
  Count count;
  explicit Fn(const Step& x) noexcept : s{&x} {
  }
  Fn(Fn&&) = default;
  Ret operator()(P p) {
    rt::ObjUse(&alive, h::kFun);
    return Body<Ret>(*s, In(p), &p);
  }
};
template <typename Ret>
struct Fn<void, Ret> {
  h::Alive<h::kFun> alive;
  const Step* s;
  Count count;
  explicit Fn(const Step& x) noexcept : s{&x} {
  }
  Fn(Fn&&) = default;
  Ret operator()() {
    rt::ObjUse(&alive, h::kFun);
    return Body<Ret>(*s, 0, static_cast<Unit*>(nullptr));
  }
};

template <int Sig, bool Shared, typename X = V>
auto ParamOf() {
  using Q = Result<X, E>;
  if constexpr (Sig == 0) {
    return std::type_identity<X>{};
  } else if constexpr (Sig == 1) {
    return std::type_identity<Q>{};
  } else if constexpr (Sig == 2) {
    return std::type_identity<E>{};
  } else if constexpr (Sig == 3) {
    return std::type_identity<std::exception_ptr>{};
  } else if constexpr (Sig == 4) {
    return std::type_identity<std::conditional_t<std::is_void_v<X>, Unit, std::add_lvalue_reference_t<const X>>>{};
  } else {
    return std::type_identity<std::conditional_t<Shared, const Q&, Q&&>>{};
  }
}
template <int Ret>
auto RetOf() {
  if constexpr (Ret == 0) {
    return std::type_identity<V>{};
  } else if constexpr (Ret == 1) {
    return std::type_identity<R>{};
  } else if constexpr (Ret == 2) {
    return std::type_identity<FU>{};
  } else if constexpr (Ret == 3) {
    return std::type_identity<FO>{};
  } else if constexpr (Ret == 4) {
    return std::type_identity<FS>{};
  } else if constexpr (Ret == 5) {
    return std::type_identity<FT>{};
  } else {
    return std::type_identity<FP>{};
  }
}

template <int N, typename F>
void Dispatch(int k, F&& f) {
  [&]<int... I>(std::integer_sequence<int, I...>) {
    (void)((k == I ? (f(std::integral_constant<int, I>{}), true) : false) || ...);
  }(std::make_integer_sequence<int, N>{});
}

// calls go(functor) for the functor of step s
template <bool Shared, int NSig = 6, typename X = V, typename Go>
void WithFn(const Step& s, Go&& go) {
  Dispatch<NSig>(s.sig, [&](auto sig) {
    Dispatch<7>(s.ret, [&](auto ret) {
      using P = typename decltype(ParamOf<decltype(sig)::value, Shared, X>())::type;
      using Q = typename decltype(RetOf<decltype(ret)::value>())::type;
      go(Fn<P, Q>{s});
    });
  });
}
template <bool Shared, typename Go>
void WithVoidFn(const Step& s, Go&& go) {
  Dispatch<6>(s.sig, [&](auto sig) {
    using P = typename decltype(ParamOf<decltype(sig)::value, Shared>())::type;
    go(Fn<P, void>{s});
  });
}

IExecutor& Ex(int id);

// one translation unit per holder
template <typename H>
Cur Attach(H&& hold, const Step& s);
template <typename H>
void Finish(H&& hold, const Fin& f);

extern template Cur Attach<FU>(FU&&, const Step&);
extern template Cur Attach<FO>(FO&&, const Step&);
extern template Cur Attach<FS>(FS&&, const Step&);
extern template Cur Attach<FP>(FP&&, const Step&);
extern template Cur Attach<FT>(FT&&, const Step&);
extern template void Finish<FU>(FU&&, const Fin&);
extern template void Finish<FO>(FO&&, const Fin&);
extern template void Finish<FS>(FS&&, const Fin&);
extern template void Finish<FP>(FP&&, const Fin&);
extern template void Finish<FT>(FT&&, const Fin&);

}  // namespace pl
