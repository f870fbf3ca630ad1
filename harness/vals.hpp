// Instrumented client types shared by the scenarios.
#pragma once
#include <exception>
#include <rt.hpp>
#include <stdexcept>
#include <utility>
#include <yaclib/util/result.hpp>

namespace h {

enum Kind { kVal = 1, kFun = 2, kErr = 3, kLocal = 4, kJob = 5 };

// Presence of a live object, registered with the runtime (catches double destruction and leaks).
template <int K>
struct Alive {
  Alive() noexcept {
    rt::ObjNew(this, K);
  }
  Alive(const Alive&) noexcept {
    rt::ObjNew(this, K);
  }
  Alive(Alive&&) noexcept {
    rt::ObjNew(this, K);
  }
  Alive& operator=(const Alive&) noexcept {
    rt::ObjUse(this, K);
    return *this;
  }
  Alive& operator=(Alive&&) noexcept {
    rt::ObjUse(this, K);
    return *this;
  }
  ~Alive() noexcept {
    rt::ObjDel(this, K);
  }
  char pad = 0;
};

// A two-word value: torn or moved-from reads are visible (Get() == -1 moved-from, -2 torn, -3 uninitialised).
struct Val {
  int a = -3, b = -3;
  Alive<kVal> alive;
  Val() noexcept = default;
  Val(int v) noexcept : a{v}, b{v} {
  }
  Val(const Val& o) noexcept : a{o.a}, b{o.b}, alive{o.alive} {
  }
  Val(Val&& o) noexcept : a{o.a}, b{o.b}, alive{std::move(o.alive)} {
    o.a = o.b = -1;
  }
  Val& operator=(const Val& o) noexcept {
    a = o.a;
    b = o.b;
    alive = o.alive;
    return *this;
  }
  Val& operator=(Val&& o) noexcept {
    if (this != &o) {
      a = o.a;
      b = o.b;
      o.a = o.b = -1;
      alive = std::move(o.alive);
    }
    return *this;
  }
  int Get() const noexcept {
    rt::ObjUse(&alive, kVal);
    return a == b ? a : -2;
  }
};

struct Exc : std::exception {
  int code;
  explicit Exc(int c) : code{c} {
  }
};

// Error type (E of Result<V, E>) carrying a code.
struct Err {
  int code = 0;
  Err(yaclib::StopTag) noexcept : code{-100} {
  }
  Err(int c) noexcept : code{c} {
  }
  static const char* What() noexcept {
    return "err";
  }
};

constexpr int kStop = 1000;      // StopError
constexpr int kExcBase = 2000;   // Exc{c} -> 2000 + c
constexpr int kOther = 2999;     // some other exception
constexpr int kEmptyRes = 3000;  // Result in the Empty state

inline int ExcCode(const std::exception_ptr& e) noexcept {
  try {
    std::rethrow_exception(e);
  } catch (const Exc& x) {
    return kExcBase + x.code;
  } catch (const yaclib::ResultError<yaclib::StopError>&) {
    return kExcBase + 900;
  } catch (...) {
    return kOther;
  }
}

inline int CodeV(const Val& v) noexcept {
  return v.Get();
}
inline int CodeV(const yaclib::Unit&) noexcept {
  return 0;
}

// Result -> int: value id, kStop, kExcBase + code, kEmptyRes
template <typename V>
int Code(const yaclib::Result<V, yaclib::StopError>& r) noexcept {
  switch (r.State()) {
    case yaclib::ResultState::Value:
      return CodeV(std::as_const(r).Value());
    case yaclib::ResultState::Error:
      return kStop;
    case yaclib::ResultState::Exception:
      return ExcCode(std::as_const(r).Exception());
    default:
      return kEmptyRes;
  }
}

// Functor wrapper whose lifetime is tracked
template <typename F>
struct Fn {
  Alive<kFun> alive;
  F f;
  explicit Fn(F x) : f{std::move(x)} {
  }
  Fn(Fn&&) = default;
  template <typename... A>
  auto operator()(A&&... a) -> decltype(f(std::forward<A>(a)...)) {
    rt::ObjUse(&alive, kFun);
    return f(std::forward<A>(a)...);
  }
};

}  // namespace h
