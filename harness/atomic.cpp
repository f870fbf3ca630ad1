// C19: runs operation sequences on yaclib_std::atomic / atomic_flag of the configured fault backend and logs every
// returned value, the expected value of compare_exchange and the stored value as 16-bit limbs (least significant first).
#include <yaclib/fault/config.hpp>

#include <yaclib_std/atomic>
#include <yaclib_std/thread>

#include <unistd.h>

#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <limits>
#include <string>
#include <type_traits>
#include <vector>

#ifndef BACKEND
#  define BACKEND 0
#endif

static std::string gLine;
static int gType;

static void Word(const char* e) {
  gLine += gLine.empty() ? "" : " ";
  gLine += e;
  gLine += "|" + std::to_string(gType);
}

struct S12 {
  char c[12];
};

template <typename T>
constexpr int Bits() {
  if constexpr (std::is_same_v<T, long double>) {
    return 79;
  } else if constexpr (std::is_same_v<T, bool>) {
    return 1;
  } else {
    return sizeof(T) * 8;
  }
}

static void Limb(std::uint64_t x) {
  gLine += "|" + std::to_string(x & 0xffff);
}

template <typename T>
void Put(const T& v) {
  if constexpr (std::is_same_v<T, long double>) {
    unsigned char b[16] = {};
    std::memcpy(b, &v, 10);
    std::uint64_t m;
    std::uint16_t se;
    std::memcpy(&m, b, 8);
    std::memcpy(&se, b + 8, 2);
    // drop the explicit integer bit: 63 bits of the fraction, 15 of the exponent, the sign
    unsigned __int128 x = (m & 0x7fffffffffffffffull) | (static_cast<unsigned __int128>(se) << 63);
    for (int i = 0; i < 5; ++i) {
      Limb(static_cast<std::uint64_t>(x >> (16 * i)));
    }
  } else {
    std::uint64_t x = 0;
    std::memcpy(&x, &v, sizeof(T));
    for (int i = 0; i * 16 < static_cast<int>(sizeof(T)) * 8; ++i) {
      Limb(x >> (16 * i));
    }
  }
}

static std::uint64_t gRng;
static std::uint64_t Rnd() {
  gRng ^= gRng << 13;
  gRng ^= gRng >> 7;
  gRng ^= gRng << 17;
  return gRng;
}

template <typename T>
std::vector<T> Values(bool more) {
  using L = std::numeric_limits<T>;
  std::vector<T> v;
  if constexpr (std::is_same_v<T, bool>) {
    v = {false, true};
  } else if constexpr (std::is_integral_v<T>) {
    v = {T(0), T(1), L::max(), L::min(), T(-1), T(0x5A), T(L::max() / 3)};
    if (more) {
      v.insert(v.end(), {T(2), T(L::max() - 1), T(L::min() + 1), T(0x80), T(0xFF00), T(Rnd()), T(Rnd())});
    }
  } else if constexpr (std::is_floating_point_v<T>) {
    v = {T(0), -T(0), T(1), T(-1.5), L::quiet_NaN(), L::infinity(), T(1) + L::epsilon()};
    if (more) {
      v.insert(v.end(), {L::max(), -L::max(), L::min(), L::denorm_min(), -L::denorm_min(), -L::infinity(), T(0.1),
                         L::epsilon() / 2, T(3), T(1e10), T(-7.25e-3)});
    }
  } else {
    using U = std::remove_pointer_t<T>;
    v = {nullptr, reinterpret_cast<U*>(0x1000), reinterpret_cast<U*>(0x10fff8)};
    if (more) {
      v.insert(v.end(), {reinterpret_cast<U*>(0x7fffffff0000), reinterpret_cast<U*>(Rnd() & 0x7ffffffffff0)});
    }
  }
  return v;
}

enum Op {
  kStore, kAssign, kLoad, kConv, kXchg, kCasS, kCasW, kCasS1, kCasW1, kFence, kBase,
  kFAdd = kBase, kFSub, kAddEq, kSubEq, kFloat,
  kPreI = kFloat, kPostI, kPreD, kPostD, kPtr,
  kFAnd = kPtr, kFOr, kFXor, kAndEq, kOrEq, kXorEq, kInt,
};

template <typename T>
constexpr int Ops() {
  if constexpr (std::is_same_v<T, bool> || std::is_same_v<T, void*>) {
    return kBase;
  } else if constexpr (std::is_floating_point_v<T>) {
    return kFloat;
  } else if constexpr (std::is_pointer_v<T>) {
    return kPtr;
  } else {
    return kInt;
  }
}

constexpr std::memory_order kOrders[] = {std::memory_order_seq_cst, std::memory_order_acq_rel, std::memory_order_release,
                                         std::memory_order_acquire, std::memory_order_relaxed, std::memory_order_consume};

template <typename T>
struct Arg {
  using type = T;
};
template <typename U>
struct Arg<U*> {
  using type = std::ptrdiff_t;
};

// the order of the arguments of an operation is not logged: it must not matter
static unsigned gOrd;
static std::memory_order Any() {
  return kOrders[gOrd++ % 6];
}
static std::memory_order ForLoad() {
  constexpr std::memory_order o[] = {std::memory_order_seq_cst, std::memory_order_acquire, std::memory_order_relaxed};
  return o[gOrd++ % 3];
}
static std::memory_order ForStore() {
  constexpr std::memory_order o[] = {std::memory_order_seq_cst, std::memory_order_release, std::memory_order_relaxed};
  return o[gOrd++ % 3];
}

template <typename T, typename A>
void Do(A& a, int op, T x, T y, typename Arg<T>::type d) {
  auto ret = [&](const char* n, auto r) {
    Word(n);
    Put(r);
    Put(a.load());
  };
  auto ret1 = [&](const char* n, auto x, auto r) {
    Word(n);
    Put(x);
    Put(r);
    Put(a.load());
  };
  auto cas = [&](const char* n, int form) {
    T e = x;
    bool r;
    if (form == 0) {
      r = a.compare_exchange_strong(e, y, Any(), ForLoad());
    } else if (form == 1) {
      r = a.compare_exchange_weak(e, y, Any(), ForLoad());
    } else if (form == 2) {
      r = gOrd++ % 4 == 0 ? a.compare_exchange_strong(e, y) : a.compare_exchange_strong(e, y, Any());
    } else {
      r = gOrd++ % 4 == 0 ? a.compare_exchange_weak(e, y) : a.compare_exchange_weak(e, y, Any());
    }
    Word(n);
    Put(x);
    Put(y);
    Put(std::uint8_t{r});
    Put(e);
    Put(a.load());
  };
  switch (op) {
    case kStore:
      gOrd % 2 ? a.store(x) : a.store(x, ForStore());
      ++gOrd;
      Word("store");
      Put(x);
      Put(a.load());
      return;
    case kAssign:
      return ret1("asg", x, T(a = x));
    case kLoad:
      return ret("load", gOrd++ % 2 ? a.load() : a.load(ForLoad()));
    case kConv:
      return ret("load", static_cast<T>(a));
    case kXchg:
      return ret1("xchg", x, gOrd++ % 2 ? a.exchange(x) : a.exchange(x, Any()));
    case kCasS:
      return cas("cass", 0);
    case kCasW:
      return cas("casw", 1);
    case kCasS1:
      return cas("cass", 2);
    case kCasW1:
      return cas("casw", 3);
    case kFence:
      yaclib_std::atomic_thread_fence(Any());
      yaclib_std::atomic_signal_fence(Any());
      Word("fence");
      Put(a.load());
      return;
    default:
      break;
  }
  if constexpr (Ops<T>() > kBase) {
    switch (op) {
      case kFAdd:
        return ret1("fadd", d, gOrd++ % 2 ? a.fetch_add(d) : a.fetch_add(d, Any()));
      case kFSub:
        return ret1("fsub", d, gOrd++ % 2 ? a.fetch_sub(d) : a.fetch_sub(d, Any()));
      case kAddEq:
        return ret1("addeq", d, a += d);
      case kSubEq:
        return ret1("subeq", d, a -= d);
    }
  }
  if constexpr (Ops<T>() > kFloat) {
    switch (op) {
      case kPreI:
        return ret("prei", ++a);
      case kPostI:
        return ret("posi", a++);
      case kPreD:
        return ret("pred", --a);
      case kPostD:
        return ret("posd", a--);
    }
  }
  if constexpr (Ops<T>() > kPtr) {
    switch (op) {
      case kFAnd:
        return ret1("fand", x, gOrd++ % 2 ? a.fetch_and(x) : a.fetch_and(x, Any()));
      case kFOr:
        return ret1("for", x, gOrd++ % 2 ? a.fetch_or(x) : a.fetch_or(x, Any()));
      case kFXor:
        return ret1("fxor", x, gOrd++ % 2 ? a.fetch_xor(x) : a.fetch_xor(x, Any()));
      case kAndEq:
        return ret1("andeq", x, a &= x);
      case kOrEq:
        return ret1("oreq", x, a |= x);
      case kXorEq:
        return ret1("xoreq", x, a ^= x);
    }
  }
}

static void Flush() {
  std::printf("%s end|%d\n", gLine.c_str(), gType);
  std::fflush(stdout);
  gLine.clear();
}

template <typename T, typename F>
void With(bool vol, bool dflt, T v, F f) {
  using A = yaclib_std::atomic<T>;
  alignas(A) unsigned char raw[sizeof(A)];
  std::memset(raw, 0xA5, sizeof(raw));
  A* a = dflt ? new (raw) A : new (raw) A{v};
  if (dflt) {
    Word("initd");
  } else {
    Word("init");
    Put(v);
  }
  Put(a->load());
  if (vol) {
    f(*const_cast<volatile A*>(a));
  } else {
    f(*a);
  }
  a->~A();
}

template <typename T>
std::vector<typename Arg<T>::type> Diffs(bool more) {
  if constexpr (std::is_pointer_v<T>) {
    std::vector<std::ptrdiff_t> d = {0, 1, -1, 5};
    if (more) {
      d.insert(d.end(), {0x1234, -0x300});
    }
    return d;
  } else {
    return Values<T>(more);
  }
}

template <typename T>
void Run(int type, int mode, int arg) {
  gType = type;
  bool more = mode >= 2;
  auto v = Values<T>(more);
  auto d = Diffs<T>(more);
  if (mode == 0 || mode == 2) {  // every value x every operation x every argument, plain and volatile, twice in a row
    for (int vol = 0; vol < 2; ++vol) {
      With<T>(vol, true, T{}, [&](auto& a) { Do<T>(a, kLoad, T{}, T{}, {}); });
      Flush();
      for (auto v0 : v) {
        for (int op = 0; op < Ops<T>(); ++op) {
          for (std::size_t i = 0; i < std::max(v.size(), d.size()); ++i) {
            T x = v[i % v.size()];
            bool is_cas = op >= kCasS && op <= kCasW1;
            for (std::size_t j = 0; j < (is_cas ? std::min<std::size_t>(v.size(), 3) : 1); ++j) {
              With<T>(vol, false, v0, [&](auto& a) {
                Do<T>(a, op, x, v[(i + j + 1) % v.size()], d[i % d.size()]);
                Do<T>(a, op, x, v[(i + j + 1) % v.size()], d[i % d.size()]);
              });
              Flush();
            }
            bool noarg = op == kLoad || op == kConv || op == kFence || (op >= kPreI && op <= kPostD);
            if (noarg) {
              break;
            }
          }
        }
      }
    }
  } else {  // random sequences of operations
    for (int k = 0; k < arg; ++k) {
      With<T>(Rnd() % 2, Rnd() % 8 == 0, v[Rnd() % v.size()], [&](auto& a) {
        T last = v[0];
        for (int n = 0; n < 8; ++n) {
          T x = Rnd() % 3 == 0 ? last : v[Rnd() % v.size()];
          if (Rnd() % 2) {
            last = a.load();
          }
          auto dd = d[Rnd() % d.size()];
          if constexpr (!std::is_pointer_v<T>) {
            if (Rnd() % 3 == 0) {
              dd = last;
            }
          }
          Do<T>(a, Rnd() % Ops<T>(), x, v[Rnd() % v.size()], dd);
        }
      });
      Flush();
    }
  }
}

static void Flags(int type, int mode, int) {
  gType = type;
  for (int seq = 0; seq < (mode >= 2 ? 1024 : 64); ++seq) {
    for (int vol = 0; vol < 2; ++vol) {
      using A = yaclib_std::atomic_flag;
      alignas(A) unsigned char raw[sizeof(A)];
      std::memset(raw, 0xA5, sizeof(raw));
      A* a = new (raw) A;
      Word("fdflt");
      auto f = [&](auto& x) {
        for (int s = seq + (mode >= 2 ? 1024 : 64); s != 1; s /= 2) {
          if (s % 2) {
            bool r = gOrd++ % 2 ? x.test_and_set() : x.test_and_set(Any());
            Word("tas");
            Put(std::uint8_t{r});
          } else {
            gOrd++ % 2 ? x.clear() : x.clear(ForStore());
            Word("clear");
          }
        }
      };
      vol ? f(*const_cast<volatile A*>(a)) : f(*a);
      a->~A();
      Flush();
    }
  }
}

// a crash is an event of the history
static void OnSignal(int sig) {
  std::printf("%s crash|%d|%d\n", gLine.c_str(), gType, sig);
  std::fflush(stdout);
  _exit(0);
}

int main(int argc, char** argv) {
  int type = std::atoi(argv[1]);
  int mode = std::atoi(argv[2]);
  int arg = std::atoi(argv[3]);
  gRng = 88172645463325252ull + std::strtoull(argv[4], nullptr, 10) * 7919;
  for (int i = 0; i < 20; ++i) {
    Rnd();
  }
#if BACKEND != 0
  yaclib::SetFaultFrequency(mode == 0 ? 7 : 3);
  yaclib::SetAtomicFailFrequency(mode == 0 ? 5 : 3);
  yaclib::SetFaultSleepTime(1);
  yaclib::SetSeed(static_cast<std::uint32_t>(Rnd()));
#endif
  for (int sig : {SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS, SIGALRM}) {
    std::signal(sig, OnSignal);
  }
  alarm(60);
  auto body = [&] {
    switch (type) {
      case 0: return Run<bool>(type, mode, arg);
      case 1: return Run<signed char>(type, mode, arg);
      case 2: return Run<unsigned char>(type, mode, arg);
      case 3: return Run<short>(type, mode, arg);
      case 4: return Run<unsigned short>(type, mode, arg);
      case 5: return Run<int>(type, mode, arg);
      case 6: return Run<unsigned>(type, mode, arg);
      case 7: return Run<long>(type, mode, arg);
      case 8: return Run<unsigned long long>(type, mode, arg);
      case 9: return Run<char16_t>(type, mode, arg);
      case 10: return Run<wchar_t>(type, mode, arg);
      case 11: return Run<float>(type, mode, arg);
      case 12: return Run<double>(type, mode, arg);
      case 13: return Run<long double>(type, mode, arg);
      case 14: return Run<int*>(type, mode, arg);
      case 15: return Run<S12*>(type, mode, arg);
      case 16: return Run<void*>(type, mode, arg);
      case 17: return Run<const char*>(type, mode, arg);
      case 18: return Run<char>(type, mode, arg);
      case 19: return Run<unsigned long>(type, mode, arg);
      case 20: return Flags(type, mode, arg);
    }
  };
#if BACKEND == 2
  // on a fiber, beside another fiber which is always ready: the injected yields really switch
  yaclib::fault::Scheduler scheduler;
  yaclib::fault::Scheduler::Set(&scheduler);
  bool done = false;
  yaclib_std::thread main{[&] {
    yaclib_std::thread other{[&] {
      while (!done) {
        yaclib_std::this_thread::yield();
      }
    }};
    body();
    done = true;
    other.join();
  }};
  main.join();
#else
  body();
#endif
  std::printf("DONE\n");
}
