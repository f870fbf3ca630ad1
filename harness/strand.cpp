// C07: submitters, a Strand (or a Strand over a Strand), and the executor below it.
#include "exec.hpp"
#include "vals.hpp"

#include <thread>
#include <vector>
#include <yaclib/exe/inline.hpp>
#include <yaclib/exe/strand.hpp>
#include <yaclib/exe/submit.hpp>
#include <yaclib/runtime/fair_thread_pool.hpp>

using namespace yaclib;
using rt::Ev;

namespace {

int g_shared;       // touched by every job: consecutive jobs must be ordered by happens-before
int g_payload[16];  // written before the submission, read in the job

struct SJob : Job {
  int id, strand;
  IExecutor* again;
  h::Alive<h::kJob> alive;
  SJob(int i, int s, IExecutor* a = nullptr) : id{i}, strand{s}, again{a} {
    g_payload[i] = 100 + i;
  }
  void Call() noexcept final {
    Ev("run", {id, strand});
    rt::Point();
    g_shared += g_payload[id] == 100 + id;
    if (again) {
      auto* j = new SJob{id + 8, strand};
      Ev("sub", {id + 8, strand});
      again->Submit(*j);
      Ev("subr", {id + 8, strand});
    }
    rt::Point();
    Ev("ran", {id, strand});
    delete this;
  }
  void Drop() noexcept final {
    Ev("drop", {id, strand});
    delete this;
  }
};

}  // namespace

// p0: executor below, p1: shape, p2: nesting, p3: which submissions it refuses (Raw)
SCENARIO(strand) {
  Ev("cfg", {p[0], p[1], p[2], p[3]});
  g_shared = 0;
  const int below = p[0], shape = p[1], nest = p[2];
  static const int kThreads[] = {2, 2, 3, 1, 2};
  static const int kJobs[] = {1, 2, 1, 3, 1};
  IExecutorPtr under;
  IntrusivePtr<FairThreadPool> pool;
  int workers = 0;
  switch (below) {
    case 0:
    case 1:
      workers = below + 1;
      under = MakeShared<h::Raw>(1, 1, 0, p[3]);
      break;
    case 2:
    case 3:
    case 5:
    case 6:
      pool = MakeFairThreadPool(below == 3 || below == 6 ? 2 : 1);
      under = pool;
      break;
    default:
      under = IExecutorPtr{NoRefTag{}, &MakeInline()};
      break;
  }
  {
    IExecutorPtr s[2];
    s[0] = MakeStrand(under);
    s[1] = nest == 1 ? MakeStrand(s[0]) : s[0];
    std::vector<std::thread> ws, ts;
    for (int i = 0; i < workers; ++i) {
      ws.emplace_back([] {
        h::Serve(0);
      });
    }
    for (int t = 0; t < kThreads[shape]; ++t) {
      ts.emplace_back([&, t] {
        for (int j = 0; j < kJobs[shape]; ++j) {
          int id = 1 + t * kJobs[shape] + j;
          int which = nest == 1 ? t % 2 : 0;
          auto* job = new SJob{id, which, shape == 4 && t == 0 ? s[which].Get() : nullptr};
          Ev("sub", {id, which});
          s[which]->Submit(*job);
          Ev("subr", {id, which});
        }
      });
    }
    if (below == 3) {
      Ev("stop");
      pool->Stop();
    } else if (below == 5) {
      Ev("stop");
      pool->HardStop();
    }
    for (auto& t : ts) {
      t.join();
    }
    if (workers) {
      rt::QClose(0);
    }
    for (auto& w : ws) {
      w.join();
    }
    if (pool) {
      pool->SoftStop();
      pool->Wait();
    }
  }
}
