// Client executors for the scenarios.
#pragma once
#include <mutex>
#include <rt.hpp>
#include <thread>
#include <yaclib/exe/executor.hpp>
#include <yaclib/util/detail/intrusive_list.hpp>
#include <yaclib/util/helper.hpp>

namespace h {

// slot 0 of a thread: id of the executor whose job it is running (0: none)
inline int Where() noexcept {
  return rt::GetSlot(0);
}
struct Entered {
  int old;
  explicit Entered(int id) noexcept : old{rt::GetSlot(0)} {
    rt::SetSlot(0, id);
  }
  ~Entered() {
    rt::SetSlot(0, old);
  }
};

// Runs jobs in Submit (kInline) or queues them for Worker()/Drain() (kQueue).
// Accepts `limit` jobs (-1: all), then it is stopped and refuses (drops) everything.
class Exec : public yaclib::IExecutor {
 public:
  enum Mode { kInline, kQueue };
  Exec(int id, Mode mode, int limit = -1) noexcept : _id{id}, _mode{mode}, _limit{limit} {
  }
  Type Tag() const noexcept final {
    return Type::Custom;
  }
  bool Alive() const noexcept final {
    std::lock_guard lk{_m};
    return _limit != 0;
  }
  void Submit(yaclib::Job& job) noexcept final {
    rt::AddVar(100 + _id, 1);
    bool run = false;
    {
      std::lock_guard lk{_m};
      if (_limit != 0) {
        if (_limit > 0) {
          --_limit;
        }
        run = true;
        if (_mode == kQueue) {
          _q.PushBack(job);
          rt::SetFlag(40 + _id);
          return;
        }
      }
    }
    if (run) {
      Entered in{_id};
      job.Call();
    } else {
      job.Drop();
    }
  }
  void Stop() noexcept {
    std::lock_guard lk{_m};
    _limit = 0;
  }
  // runs one queued job
  bool One() noexcept {
    yaclib::Job* j = nullptr;
    {
      std::lock_guard lk{_m};
      if (!_q.Empty()) {
        j = static_cast<yaclib::Job*>(&_q.PopFront());
      }
    }
    if (!j) {
      return false;
    }
    Entered in{_id};
    j->Call();
    return true;
  }
  int Drain() noexcept {
    int n = 0;
    while (One()) {
      ++n;
    }
    return n;
  }
  // drops everything queued
  int DropAll() noexcept {
    int n = 0;
    for (;;) {
      yaclib::Job* j = nullptr;
      {
        std::lock_guard lk{_m};
        if (!_q.Empty()) {
          j = static_cast<yaclib::Job*>(&_q.PopFront());
        }
      }
      if (!j) {
        return n;
      }
      ++n;
      j->Drop();
    }
  }
  // number of Submit calls so far
  int Submitted() const noexcept {
    return rt::GetVar(100 + _id);
  }
  int Id() const noexcept {
    return _id;
  }

 private:
  mutable std::mutex _m;
  yaclib::detail::List _q;
  int _id;
  Mode _mode;
  int _limit;
};

// Executor of the runtime: a message queue, the only happens-before edge is Submit(job) -> that job's Call.
// Bit k of `mask` makes submission k (from 0) refused.
class Raw : public yaclib::IExecutor {
 public:
  Raw(int id, int q, int mask = 0) noexcept : _id{id}, _q{q}, _mask{mask} {
  }
  Type Tag() const noexcept final {
    return Type::Custom;
  }
  bool Alive() const noexcept final {
    return true;
  }
  void Submit(yaclib::Job& job) noexcept final {
    int n = rt::AddVar(100 + _id, 1) - 1;
    if (n < 30 && ((_mask >> n) & 1) != 0) {
      rt::Ev("refuse", {_id});
      job.Drop();
      rt::Ev("refused");
    } else {
      rt::QPush(_q, &job);
    }
  }

 private:
  const int _id, _q, _mask;
};

// Serves a Raw executor until its queue is closed and empty.
inline void Serve(int q, int id = 0, bool may_block = false) {
  while (auto* p = rt::QPop(q)) {
    Entered in{id};
    long b = rt::Blocks();
    static_cast<yaclib::Job*>(p)->Call();
    if (!may_block && rt::Blocks() != b) {
      rt::Ev("blocked");
    }
  }
}

using ExecPtr = yaclib::IntrusivePtr<Exec>;
inline ExecPtr MakeExec(int id, Exec::Mode mode, int limit = -1) {
  return yaclib::MakeShared<Exec>(1, id, mode, limit);
}

}  // namespace h
