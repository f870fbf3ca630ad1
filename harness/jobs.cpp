// C05: jobs handed to every executor: Call xor Drop, and where.
#include "exec.hpp"
#include "vals.hpp"

#include <thread>
#include <vector>
#include <yaclib/exe/inline.hpp>
#include <yaclib/exe/manual.hpp>
#include <yaclib/exe/strand.hpp>
#include <yaclib/exe/submit.hpp>
#include <yaclib/runtime/fair_thread_pool.hpp>

using namespace yaclib;
using rt::Ev;

namespace {

struct World {
  IExecutor* e;
  FairThreadPool* pool;
  int form, stopkind;
  int workers;  // fibers 1..workers belong to the pool
};
World* w;

// 1: in the thread of the submitter, inside of Submit; 2: in Drain; 3: in the underlying executor; 4: on a worker
int Place() {
  int self = rt::Self();
  if (self >= 1 && self <= w->workers) {
    return 4;
  }
  return rt::GetSlot(0);
}

void Submit1(int id, int act);

void DoStop(int kind) {
  Ev("stop", {kind});
  if (kind == 1) {
    w->pool->Stop();
  } else if (kind == 2) {
    w->pool->SoftStop();
  } else {
    w->pool->HardStop();
  }
}

void Run(int id, int act) {
  Ev("call", {id, Place()});
  if (act == 1) {
    Submit1(id + 8, 0);
  } else if (act == 2) {
    DoStop(w->stopkind);
    Submit1(id + 8, 0);
  }
  rt::Point();
}

struct CJob : Job {
  int id, act;
  h::Alive<h::kJob> alive;
  CJob(int i, int a) : id{i}, act{a} {
  }
  void Call() noexcept final {
    rt::ObjUse(&alive, h::kJob);
    Run(id, act);
    delete this;
  }
  void Drop() noexcept final {
    Ev("drop", {id});
    delete this;
  }
};

struct FJob {
  int id, act;
  bool mine = true, thr = false;
  h::Alive<h::kJob> alive;
  FJob(int i, int a, bool t) : id{i}, act{a}, thr{t} {
  }
  FJob(FJob&& o) noexcept : id{o.id}, act{o.act}, mine{o.mine}, thr{o.thr}, alive{std::move(o.alive)} {
    o.mine = false;
  }
  ~FJob() {
    if (mine) {
      Ev("drop", {id});
    }
  }
  void operator()() {
    mine = false;
    rt::ObjUse(&alive, h::kJob);
    Run(id, act);
    if (thr) {
      throw h::Exc{id};
    }
  }
};

void Submit1(int id, int act) {
  int form = w->form == 2 ? id % 2 : w->form;
  int old = rt::GetSlot(0);
  Ev("in", {id});
  if (form == 0) {
    auto* j = new CJob{id, act};
    rt::SetSlot(0, 1);
    w->e->Submit(*j);
  } else {
    FJob f{id, act, form == 3};
    rt::SetSlot(0, 1);
    Submit(*w->e, std::move(f));
  }
  rt::SetSlot(0, old);
  Ev("out", {id});
}

}  // namespace

// p0 executor, p1 threads, p2 jobs per thread, p3 form (0 Job, 1 functor, 2 both, 3 functor which throws),
// p4 act of the first job (1: submits another one, 2: stops the pool and submits another one), p5 stop (1 Stop, 2 SoftStop, 3 HardStop), p6 refuse mask
SCENARIO(jobs) {
  World world{};
  w = &world;
  world.form = p[3];
  world.stopkind = p[5] ? p[5] : 1;
  const int kind = p[0];
  {
    IExecutorPtr raw, mid, e;
    IntrusivePtr<FairThreadPool> pool;
    IntrusivePtr<ManualExecutor> man;
    Ev("cfg", {kind, p[6]});
    switch (kind) {
      case 0:
        e = IExecutorPtr{&MakeInline()};
        break;
      case 1:
        e = IExecutorPtr{&MakeInline(StopTag{})};
        break;
      case 2:
      case 5:
        man = MakeShared<ManualExecutor>(1);
        e = man;
        if (kind == 5) {
          e = MakeStrand(man);
        }
        break;
      case 3:
      case 9:
        raw = MakeShared<h::Raw>(1, 8, 8, p[6]);
        e = MakeStrand(raw);
        if (kind == 9) {
          mid = e;
          e = MakeStrand(mid);
        }
        break;
      case 4:
        e = MakeStrand(IExecutorPtr{&MakeInline()});
        break;
      case 10:
        e = MakeStrand(IExecutorPtr{&MakeInline(StopTag{})});
        break;
      case 6:
      case 7:
      case 8:
        world.workers = kind == 7 ? 2 : 1;
        pool = MakeFairThreadPool(world.workers);
        e = pool;
        if (kind == 8) {
          e = MakeStrand(pool);
        }
        break;
    }
    world.e = e.Get();
    world.pool = pool.Get();
    std::vector<std::thread> ts;
    std::vector<std::thread> subs;
    if (raw) {
      ts.emplace_back([] {
        while (auto* x = rt::QPop(8)) {
          rt::SetSlot(0, 3);
          static_cast<Job*>(x)->Call();
          rt::SetSlot(0, 0);
        }
      });
    }
    auto submit = [&](int t) {
      for (int j = 0; j < p[2]; ++j) {
        Submit1(1 + t * p[2] + j, t == 0 && j == 0 ? p[4] : 0);
      }
    };
    for (int t = 1; t < p[1]; ++t) {
      subs.emplace_back([&, t] {
        submit(t);
      });
    }
    if (pool && p[5] != 0 && p[4] != 2) {
      subs.emplace_back([&] {
        DoStop(p[5]);
      });
    }
    submit(0);
    if (man) {
      for (int i = 0; i < 3; ++i) {
        rt::SetSlot(0, 2);
        std::ignore = man->Drain();
        rt::SetSlot(0, 0);
      }
    }
    for (auto& t : subs) {
      t.join();
    }
    rt::QClose(8);
    for (auto& t : ts) {
      t.join();
    }
    if (pool) {
      if (p[5] == 0) {
        Ev("stop", {2});
        pool->SoftStop();
      }
      pool->Wait();
    }
    Ev("quiet");
  }
  w = nullptr;
}
