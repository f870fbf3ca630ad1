// One instantiation set of the pipelines per holder type: PH 0 Future, 1 FutureOn, 2 SharedFuture, 3 SharedFutureOn, 4 Task
#include "pipe.hpp"

namespace pl {

template <typename H>
Cur Attach(H&& hold, const Step& s) {
  constexpr bool kShared = std::is_same_v<H, FS> || std::is_same_v<H, FP>;
  constexpr bool kOn = std::is_same_v<H, FO> || std::is_same_v<H, FP>;
  constexpr bool kTask = std::is_same_v<H, FT>;
  Cur out;
  switch (s.att) {
    case 0:
      WithFn<kShared>(s, [&](auto&& f) {
        Al al{1};
        out.template emplace<decltype(std::move(hold).ThenInline(std::move(f)))>(std::move(hold).ThenInline(std::move(f)));
      });
      break;
    case 1:
      WithFn<kShared>(s, [&](auto&& f) {
        Al al{1};
        auto& e = Ex(s.ex);
        out.template emplace<decltype(std::move(hold).Then(e, std::move(f)))>(std::move(hold).Then(e, std::move(f)));
      });
      break;
    case 2:
      if constexpr (kOn || kTask) {
        WithFn<kShared>(s, [&](auto&& f) {
          Al al{1};
          out.template emplace<decltype(std::move(hold).Then(std::move(f)))>(std::move(hold).Then(std::move(f)));
        });
      }
      break;
    case 3:
      if constexpr (kOn || kTask) {
        Al al{0};
        out.template emplace<decltype(std::move(hold).On(nullptr))>(std::move(hold).On(nullptr));
      }
      break;
    case 4:
      if constexpr (kShared) {
        Al al{1};
        out.template emplace<FU>(Share(hold));
      }
      break;
    case 5:
      if constexpr (kShared) {
        Al al{1};
        out.template emplace<FO>(Share(hold, Ex(s.ex)));
      }
      break;
    case 6:
      if constexpr (!kShared && !kTask) {
        Al al{1};
        out.template emplace<FS>(Split(std::move(hold)));
      }
      break;
    case 7:
      if constexpr (kTask) {
        rt::Point();
        Ev("start", {0, -1});
        Al al{0};
        out.template emplace<FU>(std::move(hold).ToFuture());
      }
      break;
    case 8:
      if constexpr (kTask) {
        rt::Point();
        Ev("start", {0, s.ex});
        Al al{0};
        out.template emplace<FO>(std::move(hold).ToFuture(Ex(s.ex)));
      }
      break;
  }
  return out;
}

namespace {

// how: 0 co_await of the holder, 1 Await + Touch, 2 Await + destruction
template <typename H>
Future<> CoFin(H hold, int how, [[maybe_unused]] Count count) {
  int code = 0;
  if (how == 0) {
    try {
      if constexpr (std::is_void_v<V>) {
        co_await std::move(hold);
      } else {
        h::Val v = co_await std::move(hold);
        code = v.Get();
      }
    } catch (const h::Exc& x) {
      code = h::kExcBase + x.code;
    } catch (const ResultError<E>& x) {
      code = ErrCode(x.Get());
    } catch (...) {
      code = h::kOther;
    }
  } else {
    co_await Await(hold);
    code = !hold.Ready() ? -5 : how == 2 ? -6 : ResCode(std::as_const(hold).Touch());
    if (how == 2) {
      H x = std::move(hold);
    }
  }
  Ev("res", {code});
  co_return {};
}

}  // namespace

template <typename H>
void Finish(H&& hold, const Fin& f) {
  constexpr bool kShared = std::is_same_v<H, FS> || std::is_same_v<H, FP>;
  constexpr bool kOn = std::is_same_v<H, FO> || std::is_same_v<H, FP>;
  constexpr bool kTask = std::is_same_v<H, FT>;
  auto start = [&](int mode, int ex) {
    if (kTask) {
      rt::Point();
      Ev("start", {mode, ex});
    }
  };
  switch (f.kind) {
    case 0: {
      start(0, -1);
      Al al{0};
      auto r = std::move(hold).Get();
      Ev("res", {ResCode(r)});
    } break;
    case 1: {
      start(1, -1);
      Al al{0};
      H x = std::move(hold);
    } break;
    case 2: {
      start(0, -1);
      Al al{0};
      std::move(hold).Detach();
    } break;
    case 3:
      if constexpr (!kTask) {
        WithVoidFn<kShared>(f.fn, [&](auto&& fn) {
          Al al{1};
          if constexpr (kShared) {
            hold.SubscribeInline(std::move(fn));
          } else {
            std::move(hold).DetachInline(std::move(fn));
          }
        });
      }
      break;
    case 4:
      if constexpr (!kTask) {
        WithVoidFn<kShared>(f.fn, [&](auto&& fn) {
          Al al{1};
          if constexpr (kShared) {
            static_cast<const SharedFutureBase<V, E>&>(hold).Subscribe(Ex(f.ex), std::move(fn));
          } else {
            std::move(hold).Detach(Ex(f.ex), std::move(fn));
          }
        });
      }
      break;
    case 5:
      if constexpr (kOn) {
        WithVoidFn<kShared>(f.fn, [&](auto&& fn) {
          Al al{1};
          if constexpr (kShared) {
            hold.Subscribe(std::move(fn));
          } else {
            std::move(hold).Detach(std::move(fn));
          }
        });
      }
      break;
    case 6:
    case 7:
    case 8:
      start(0, -1);
      if constexpr (true) {
        Future<> r;
        {
          Al al{1};
          r = CoFin<H>(std::move(hold), f.kind - 6, Count{});
        }
        std::ignore = std::move(r).Get();
      }
      break;
    case 9:  // Wait, then Touch const and Get const&
      if constexpr (!kTask) {
        Al al{0};
        Wait(hold);
        int a = ResCode(std::as_const(hold).Touch());
        int b = 0;
        if constexpr (kShared) {
          b = ResCode(std::as_const(hold).Get());
        } else {
          b = ResCode(*std::as_const(hold).Get());
        }
        Ev("res", {hold.Ready() && a == b ? a : -7});
        H x = std::move(hold);
      }
      break;
    case 10:
      if constexpr (kTask) {
        start(0, f.ex);
        Al al{0};
        std::move(hold).Detach(Ex(f.ex));
      }
      break;
    case 11:
      if constexpr (kTask) {
        start(1, -1);
        Al al{0};
        std::move(hold).Cancel();
      }
      break;
    case 12:  // moved from, then destroyed
      if constexpr (kTask) {
        H x = std::move(hold);
        H y;
        y = std::move(x);
        start(1, -1);
        Al al{0};
        H z = std::move(y);
      }
      break;
  }
}

#if PH == 0
using HH = FU;
#elif PH == 1
using HH = FO;
#elif PH == 2
using HH = FS;
#elif PH == 3
using HH = FP;
#else
using HH = FT;
#endif
template Cur Attach<HH>(HH&&, const Step&);
template void Finish<HH>(HH&&, const Fin&);

}  // namespace pl
