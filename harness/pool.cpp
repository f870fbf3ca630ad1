// C08: FairThreadPool, submitters, one or two stopping calls, Wait.
#include "exec.hpp"
#include "vals.hpp"

#include <thread>
#include <vector>
#include <yaclib/exe/submit.hpp>
#include <yaclib/runtime/fair_thread_pool.hpp>

using namespace yaclib;
using rt::Ev;

namespace {

int g_out[16];      // written by the job, read after Wait
int g_payload[16];  // written before the submission, read by the job
FairThreadPool* g_pool;

void DoStop(int kind) {
  Ev("stop", {kind});
  if (kind == 0) {
    g_pool->Stop();
  } else if (kind == 1) {
    g_pool->SoftStop();
  } else {
    g_pool->HardStop();
  }
  Ev("stopr", {kind});
}

constexpr int kWaits = 10, kFrees = 11;

struct PJob : Job {
  int id;
  int act;  // 1: submits another job (5..7: which stops the pool), 2..4: stops the pool, kWaits: for the job with kFrees
  h::Alive<h::kJob> alive;
  PJob(int i, int a) : id{i}, act{a} {
    g_payload[i] = i;
  }
  void Call() noexcept final {
    Ev("run", {id});
    g_out[id] += g_payload[id] == id;
    if (act == kWaits) {
      rt::WaitFlag(20);
    } else if (act == kFrees) {
      rt::SetFlag(20);
    }
    if (act == 1 || (act >= 5 && act < kWaits)) {
      auto* j = new PJob{id + 8, act == 1 ? 0 : act - 3};
      Ev("sub", {id + 8});
      g_pool->Submit(*j);
      Ev("subr", {id + 8});
    } else if (act >= 2 && act < 5) {
      DoStop(act - 2);
    }
    rt::Point();
    Ev("ran", {id});
    delete this;
  }
  void Drop() noexcept final {
    Ev("drop", {id});
    g_out[id] += 10;
    if (act == kFrees) {
      rt::SetFlag(20);
    }
    delete this;
  }
};

}  // namespace

// p0 workers, p1 shape, p2 stop kind, p3 when (0 concurrently, 1 after the submissions, 2 twice, 3 from a job)
// shapes 6..8 (two workers or more): a job waits for another one
SCENARIO(pool) {
  Ev("cfg", {p[0], p[1], p[2], p[3]});
  static const int kThreads[] = {1, 2, 2, 1, 2, 3, 1, 1, 3};
  static const int kJobs[] = {2, 1, 2, 3, 1, 1, 2, 3, 1};
  for (int i = 0; i < 16; ++i) {
    g_out[i] = 0;
  }
  const int shape = p[1], kind = p[2], when = p[3];
  {
    auto pool = MakeFairThreadPool(p[0]);
    g_pool = pool.Get();
    std::vector<std::thread> ts;
    for (int t = 0; t < kThreads[shape]; ++t) {
      ts.emplace_back([&, t] {
        for (int j = 0; j < kJobs[shape]; ++j) {
          int id = 1 + t * kJobs[shape] + j;
          int act = 0;
          if (t == 0 && j == 0) {
            act = shape == 4 ? (when == 3 ? 5 + kind : 1) : when == 3 ? 2 + kind : 0;
          }
          if (shape >= 6) {
            // as many jobs wait as there are workers but one
            const int last = kThreads[shape] * kJobs[shape];
            act = id == last ? kFrees : id < p[0] ? kWaits : 0;
          }
          auto* job = new PJob{id, act};
          Ev("sub", {id});
          pool->Submit(*job);
          Ev("subr", {id});
        }
        Ev("alv");
        bool a = pool->Alive();
        Ev("alvr", {a});
      });
    }
    if (when == 0 || when == 2) {
      DoStop(kind);
    }
    if (when == 2) {
      DoStop((kind + 1) % 3);
    }
    if (when == 1) {
      for (auto& t : ts) {
        t.join();
      }
      ts.clear();
      DoStop(kind);
    }
    Ev("wait");
    pool->Wait();
    Ev("waitr");
    int done = 0;
    for (int i = 0; i < 16 && ts.empty(); ++i) {
      done += g_out[i] % 10;
    }
    for (auto& t : ts) {
      t.join();
    }
    Ev("sum", {done});
  }
}
