From 20de6df0311fdef68d5994738f7bd86c838a4982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:35 +0000
Subject: [PATCH 01/25] fix: AwaitSticky of several futures did not compile
 (Count instead of kCount)

---
 include/yaclib/coro/await_sticky.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/yaclib/coro/await_sticky.hpp b/include/yaclib/coro/await_sticky.hpp
index dce18ad..96560e7 100644
--- a/include/yaclib/coro/await_sticky.hpp
+++ b/include/yaclib/coro/await_sticky.hpp
@@ -16,7 +16,7 @@ YACLIB_INLINE auto AwaitSticky(Waited& waited) noexcept {
 template <typename... Waited, typename = std::enable_if_t<(... && is_waitable_v<Waited>)>>
 YACLIB_INLINE auto AwaitSticky(Waited&... waited) noexcept {
   using namespace detail;
-  static constexpr auto kSharedCount = Count<SharedHandle, typename Waited::Handle...>;
+  static constexpr auto kSharedCount = kCount<SharedHandle, typename Waited::Handle...>;
   using Awaiter = std::conditional_t<kSharedCount == 0, MultiAwaitAwaiter<AwaitEvent<true>>,
                                      MultiAwaitAwaiter<StaticSharedEvent<AwaitEvent<true>, kSharedCount>>>;
   YACLIB_ASSERT(... && waited.Valid());
-- 
2.43.0


From ac463b947139c4650eeb40707533441642c1eba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:35 +0000
Subject: [PATCH 02/25] fix: MakeSharedContractOn returns SharedContractOn

---
 include/yaclib/async/shared_contract.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/yaclib/async/shared_contract.hpp b/include/yaclib/async/shared_contract.hpp
index 7bc01d8..d723e11 100644
--- a/include/yaclib/async/shared_contract.hpp
+++ b/include/yaclib/async/shared_contract.hpp
@@ -23,7 +23,7 @@ template <typename V = void, typename E = StopError>
 }
 
 template <typename V = void, typename E = StopError>
-[[nodiscard]] SharedContract<V, E> MakeSharedContractOn(IExecutor& e) {
+[[nodiscard]] SharedContractOn<V, E> MakeSharedContractOn(IExecutor& e) {
   auto core = MakeShared<detail::SharedCore<V, E>>(detail::kSharedRefWithFuture);
   e.IncRef();
   core->_executor.Reset(NoRefTag{}, &e);
-- 
2.43.0


From 88cde7cf218a203ac748a06447463a8dedbacd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:01 +0000
Subject: [PATCH 03/25] fix: a core with a registered callback must not look
 ready

---
 include/yaclib/algo/detail/base_core.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/yaclib/algo/detail/base_core.hpp b/include/yaclib/algo/detail/base_core.hpp
index a3aac33..75b5c89 100644
--- a/include/yaclib/algo/detail/base_core.hpp
+++ b/include/yaclib/algo/detail/base_core.hpp
@@ -25,8 +25,9 @@ class BaseCore : public InlineCore {
   };
 
   bool Empty() const noexcept {
+    // A core with a registered callback is not kEmpty, but has no result yet
     auto callback = _callback.load(std::memory_order_acquire);
-    return callback == kEmpty;
+    return callback != kResult;
   }
 
   template <bool Shared>
-- 
2.43.0


From ed70bdad81f28f7e8d6da886c5f86618e0a3b2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:54 +0000
Subject: [PATCH 04/25] fix: the last owner of a SharedCore synchronizes with
 the former owners before it moves the value out

---
 include/yaclib/util/detail/atomic_counter.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/yaclib/util/detail/atomic_counter.hpp b/include/yaclib/util/detail/atomic_counter.hpp
index 1f752b4..70ae432 100644
--- a/include/yaclib/util/detail/atomic_counter.hpp
+++ b/include/yaclib/util/detail/atomic_counter.hpp
@@ -27,7 +27,8 @@ struct AtomicCounter : CounterBase {
   }
 
   // Dangerous! Use only to sync with release with acquire or with relaxed if synchronization is not needed
-  [[nodiscard]] YACLIB_INLINE std::size_t Get(std::memory_order order = std::memory_order_relaxed) const noexcept {
+  // Acquire by default: the last owner is going to change the object, so it needs everything the others did before Sub
+  [[nodiscard]] YACLIB_INLINE std::size_t Get(std::memory_order order = std::memory_order_acquire) const noexcept {
     return count.load(order);
   }
 
-- 
2.43.0


From 6199c2e7abf01ae024b709301cc212445422736a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:42 +0000
Subject: [PATCH 05/25] fix: a coroutine copies the executor of the awaited
 core instead of taking it away

---
 include/yaclib/coro/detail/promise_type.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/yaclib/coro/detail/promise_type.hpp b/include/yaclib/coro/detail/promise_type.hpp
index f4655bc..ddb0682 100644
--- a/include/yaclib/coro/detail/promise_type.hpp
+++ b/include/yaclib/coro/detail/promise_type.hpp
@@ -122,7 +122,8 @@ class PromiseType final : public PromiseTypeBase<V, E, Lazy, Shared> {
   }
 
   YACLIB_INLINE void Impl(InlineCore& caller) noexcept {
-    this->_executor = std::move(DownCast<BaseCore>(caller)._executor);
+    // The awaited core can still be used (Await), also by other awaiters (SharedFuture), so its executor stays in place
+    this->_executor = DownCast<BaseCore>(caller)._executor;
     YACLIB_ASSERT(this->_executor != nullptr);
   }
   [[nodiscard]] InlineCore* Here(InlineCore& caller) noexcept final {
-- 
2.43.0


From 797ad765c2eee9eddfa4046bbef490a7f2431a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:50 +0000
Subject: [PATCH 06/25] fix: WhenAll of different types takes the value only of
 successful inputs

---
 include/yaclib/async/when/all_tuple.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/yaclib/async/when/all_tuple.hpp b/include/yaclib/async/when/all_tuple.hpp
index fbe322c..b88c32d 100644
--- a/include/yaclib/async/when/all_tuple.hpp
+++ b/include/yaclib/async/when/all_tuple.hpp
@@ -51,14 +51,14 @@ struct AllTuple<FailPolicy::FirstFail, OutputValue, OutputError, InputCore> {
 
   template <std::size_t Index, typename Result>
   void Consume(Result&& result) {
-    if (!result && !_done.load(std::memory_order_relaxed) && !_done.exchange(true, std::memory_order_acq_rel)) {
+    if (result) {
+      std::get<Index>(_tuple) = std::forward<Result>(result).Value();
+    } else if (!_done.load(std::memory_order_relaxed) && !_done.exchange(true, std::memory_order_acq_rel)) {
       if (result.State() == ResultState::Error) {
         std::move(_p).Set(std::forward<Result>(result).Error());
       } else {
         std::move(_p).Set(std::forward<Result>(result).Exception());
       }
-    } else {
-      std::get<Index>(_tuple) = std::forward<Result>(result).Value();
     }
   }
 
-- 
2.43.0


From 8f1c09b67cb14bb0e6c00809db1dde317dcf7c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:49 +0000
Subject: [PATCH 07/25] fix: start a Task whose first step is Schedule or
 LazyContract from another step or coroutine

---
 include/yaclib/algo/detail/core.hpp         |  9 ++++++++-
 include/yaclib/algo/detail/promise_core.hpp | 22 +++++++++++++++++++++
 2 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/include/yaclib/algo/detail/core.hpp b/include/yaclib/algo/detail/core.hpp
index e87eda5..8f9ee84 100644
--- a/include/yaclib/algo/detail/core.hpp
+++ b/include/yaclib/algo/detail/core.hpp
@@ -153,7 +153,14 @@ class Core : public ResultCoreT<Type, Ret, E>, public FuncCore<Func> {
       return Done<SymmetricTransfer, true>(core.template MoveOrConst<!AsyncShared>());
     };
     if constexpr (IsRun(Type)) {
-      return async_done();
+      if constexpr (kAsync != AsyncType::None) {
+        if (this->_self.caller != nullptr) {
+          return async_done();
+        }
+      }
+      // It's the first step of a Task, which is started by another step or by a coroutine
+      this->_executor->Submit(*this);
+      return Noop<SymmetricTransfer>();
     } else {
       if constexpr (kAsync != AsyncType::None) {
         if (this->_self.unwrapping != 0) {
diff --git a/include/yaclib/algo/detail/promise_core.hpp b/include/yaclib/algo/detail/promise_core.hpp
index c77cd2d..1fcbbd0 100644
--- a/include/yaclib/algo/detail/promise_core.hpp
+++ b/include/yaclib/algo/detail/promise_core.hpp
@@ -25,10 +25,32 @@ class PromiseCore : public std::conditional_t<Shared, SharedCore<V, E>, UniqueCo
   using Base = std::conditional_t<Shared, SharedCore<V, E>, UniqueCore<V, E>>;
 
   explicit PromiseCore(Func&& f) : F{std::forward<Func>(f)} {
+    this->_self = {};
   }
 
+  [[nodiscard]] InlineCore* Here(InlineCore& caller) noexcept final {
+    return Impl<false>(caller);
+  }
+#if YACLIB_SYMMETRIC_TRANSFER != 0
+  [[nodiscard]] yaclib_std::coroutine_handle<> Next(InlineCore& caller) noexcept final {
+    return Impl<true>(caller);
+  }
+#endif
+
  private:
+  template <bool SymmetricTransfer>
+  [[nodiscard]] YACLIB_INLINE auto Impl(InlineCore& caller) noexcept {
+    if (this->_self.unwrapping != 0) {
+      // The promise was given to the function, and now it's connected to the caller
+      return Base::template Impl<SymmetricTransfer, Shared>(caller);
+    }
+    // It's the first step of a Task, which is started by another step or by a coroutine
+    this->_executor->Submit(*this);
+    return Noop<SymmetricTransfer>();
+  }
+
   void Call() noexcept final {
+    this->_self.unwrapping = 1;
     PromiseT promise{CorePtrT{NoRefTag{}, this}};
     try {
       // We need to move func with capture on stack, because promise can be Set before func return
-- 
2.43.0


From 3ab5e45269cf09487ba0a6be8b7e21c1fa8716b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:49 +0000
Subject: [PATCH 08/25] fix: ~Task of a completed Task only releases its result

---
 include/yaclib/lazy/task.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/yaclib/lazy/task.hpp b/include/yaclib/lazy/task.hpp
index 84891e7..6e0a70e 100644
--- a/include/yaclib/lazy/task.hpp
+++ b/include/yaclib/lazy/task.hpp
@@ -38,7 +38,7 @@ class Task final {
 
   Task() noexcept = default;
   ~Task() noexcept {
-    if (Valid()) {
+    if (Valid() && !Ready()) {
       std::move(*this).Cancel();
     }
   }
-- 
2.43.0


From b1777295fe66e0fb8d142edc6b7725d0710af0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:25 +0000
Subject: [PATCH 09/25] fix: fiber RecursiveMutex wakes a blocked locker, which
 checks the owner again

---
 src/fault/fiber/recursive_mutex.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fault/fiber/recursive_mutex.cpp b/src/fault/fiber/recursive_mutex.cpp
index 8598ff1..5d746ae 100644
--- a/src/fault/fiber/recursive_mutex.cpp
+++ b/src/fault/fiber/recursive_mutex.cpp
@@ -4,7 +4,7 @@
 namespace yaclib::detail::fiber {
 
 void RecursiveMutex::lock() {
-  if (_occupied_count != 0 && _owner_id != fault::Scheduler::GetId()) {
+  while (_occupied_count != 0 && _owner_id != fault::Scheduler::GetId()) {
     _queue.Wait(NoTimeoutTag{});
   }
   LockHelper();
@@ -23,6 +23,7 @@ void RecursiveMutex::unlock() noexcept {
   _occupied_count--;
   if (_occupied_count == 0) {
     _owner_id = 0;
+    _queue.NotifyOne();
   }
 }
 void RecursiveMutex::LockHelper() {
-- 
2.43.0


From 1f37d8935a4e5cb78400efcc8fae1fe2e13007af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:25 +0000
Subject: [PATCH 10/25] fix: fiber SharedMutex checks the state after a wake up
 and wakes everyone who can own it

---
 src/fault/fiber/shared_mutex.cpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/fault/fiber/shared_mutex.cpp b/src/fault/fiber/shared_mutex.cpp
index 8e9b7f3..545afca 100644
--- a/src/fault/fiber/shared_mutex.cpp
+++ b/src/fault/fiber/shared_mutex.cpp
@@ -5,7 +5,7 @@
 namespace yaclib::detail::fiber {
 
 void fiber::SharedMutex::lock() {
-  if (_occupied) {
+  while (_occupied) {
     _exclusive_queue.Wait(NoTimeoutTag{});
   }
   LockHelper();
@@ -20,18 +20,16 @@ bool SharedMutex::try_lock() noexcept {
 }
 
 void SharedMutex::unlock() noexcept {
-  const bool unlock_shared = !_shared_queue.Empty() && (_exclusive_queue.Empty() || GetRandNumber(2) == 0);
   _occupied = false;
-  if (unlock_shared) {
-    _shared_queue.NotifyAll();
-  } else {
-    _exclusive_queue.NotifyOne();
-  }
+  // Everyone who can own the mutex now should try: shared lockers must not stay blocked behind an exclusive one, which
+  // can find the mutex locked in the shared mode or give up waiting
+  _shared_queue.NotifyAll();
+  _exclusive_queue.NotifyOne();
 }
 
 void SharedMutex::lock_shared() {
-  if (_occupied && _exclusive_mode) {
-    _exclusive_queue.Wait(NoTimeoutTag{});
+  while (_occupied && _exclusive_mode) {
+    _shared_queue.Wait(NoTimeoutTag{});
   }
   SharedLockHelper();
 }
-- 
2.43.0


From 74a95a28e8d04f37e1ad88399ace7cc07edcac61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:25 +0000
Subject: [PATCH 11/25] fix: fiber timed mutexes check the state after a wake
 up, exclusive timed lock is exclusive

---
 include/yaclib/fault/detail/fiber/queue.hpp    | 12 +++++++++++-
 .../detail/fiber/recursive_timed_mutex.hpp     | 16 +++++++---------
 .../fault/detail/fiber/shared_timed_mutex.hpp  | 18 +++++++++---------
 .../yaclib/fault/detail/fiber/timed_mutex.hpp  | 15 +++++++--------
 4 files changed, 34 insertions(+), 27 deletions(-)

diff --git a/include/yaclib/fault/detail/fiber/queue.hpp b/include/yaclib/fault/detail/fiber/queue.hpp
index 069db0c..b632b39 100644
--- a/include/yaclib/fault/detail/fiber/queue.hpp
+++ b/include/yaclib/fault/detail/fiber/queue.hpp
@@ -11,6 +11,16 @@ namespace yaclib::detail::fiber {
 
 struct NoTimeoutTag final {};
 
+template <typename Rep, typename Period>
+auto ToTimePoint(const std::chrono::duration<Rep, Period>& duration) {
+  return SystemClock::now() + duration;
+}
+
+template <typename Clock, typename Duration>
+const auto& ToTimePoint(const std::chrono::time_point<Clock, Duration>& time_point) {
+  return time_point;
+}
+
 class FiberQueue final {
  public:
   FiberQueue() noexcept = default;
@@ -21,7 +31,7 @@ class FiberQueue final {
 
   template <typename Rep, typename Period>
   WaitStatus Wait(const std::chrono::duration<Rep, Period>& duration) {
-    return Wait(duration + SystemClock::now());
+    return Wait(ToTimePoint(duration));
   }
 
   template <typename Clock, typename Duration>
diff --git a/include/yaclib/fault/detail/fiber/recursive_timed_mutex.hpp b/include/yaclib/fault/detail/fiber/recursive_timed_mutex.hpp
index 629f7bf..399acdf 100644
--- a/include/yaclib/fault/detail/fiber/recursive_timed_mutex.hpp
+++ b/include/yaclib/fault/detail/fiber/recursive_timed_mutex.hpp
@@ -24,16 +24,14 @@ class RecursiveTimedMutex : public RecursiveMutex {
  private:
   template <typename Timeout>
   bool TimedWaitHelper(const Timeout& timeout) {
-    bool r = true;
-    if (_occupied_count != 0 && _owner_id != fault::Scheduler::GetId()) {
-      r = _queue.Wait(timeout) == WaitStatus::Ready;
+    const auto deadline = ToTimePoint(timeout);
+    while (_occupied_count != 0 && _owner_id != fault::Scheduler::GetId()) {
+      if (_queue.Wait(deadline) == WaitStatus::Timeout) {
+        return false;
+      }
     }
-    YACLIB_DEBUG(r && (_occupied_count != 0 && _owner_id != fault::Scheduler::GetId()),
-                 "about to be locked twice and not in a good way");
-    if (r) {
-      LockHelper();
-    }
-    return r;
+    LockHelper();
+    return true;
   }
 };
 
diff --git a/include/yaclib/fault/detail/fiber/shared_timed_mutex.hpp b/include/yaclib/fault/detail/fiber/shared_timed_mutex.hpp
index 333e13c..2f0afd7 100644
--- a/include/yaclib/fault/detail/fiber/shared_timed_mutex.hpp
+++ b/include/yaclib/fault/detail/fiber/shared_timed_mutex.hpp
@@ -35,19 +35,19 @@ class SharedTimedMutex : public SharedMutex {
  private:
   template <typename Timeout>
   bool TimedWaitHelper(const Timeout& timeout, bool exclusive) {
-    bool r = true;
-    if (_occupied && (exclusive || _exclusive_mode)) {
-      if (exclusive) {
-        r = _exclusive_queue.Wait(timeout) == WaitStatus::Ready;
-      } else {
-        r = _shared_queue.Wait(timeout) == WaitStatus::Ready;
+    const auto deadline = ToTimePoint(timeout);
+    auto& queue = exclusive ? _exclusive_queue : _shared_queue;
+    while (_occupied && (exclusive || _exclusive_mode)) {
+      if (queue.Wait(deadline) == WaitStatus::Timeout) {
+        return false;
       }
     }
-    YACLIB_DEBUG(r && _occupied && (exclusive || _exclusive_mode), "about to be locked twice and not in a good way");
-    if (r) {
+    if (exclusive) {
+      LockHelper();
+    } else {
       SharedLockHelper();
     }
-    return r;
+    return true;
   }
 };
 
diff --git a/include/yaclib/fault/detail/fiber/timed_mutex.hpp b/include/yaclib/fault/detail/fiber/timed_mutex.hpp
index c712e47..9c97666 100644
--- a/include/yaclib/fault/detail/fiber/timed_mutex.hpp
+++ b/include/yaclib/fault/detail/fiber/timed_mutex.hpp
@@ -24,15 +24,14 @@ class TimedMutex : public Mutex {
  private:
   template <typename Timeout>
   bool TimedWaitHelper(const Timeout& timeout) {
-    bool r = true;
-    if (_occupied) {
-      r = _queue.Wait(timeout) == WaitStatus::Ready;
+    const auto deadline = ToTimePoint(timeout);
+    while (_occupied) {
+      if (_queue.Wait(deadline) == WaitStatus::Timeout) {
+        return false;
+      }
     }
-    YACLIB_DEBUG(r && _occupied, "about to be locked twice");
-    if (r) {
-      _occupied = true;
-    }
-    return r;
+    _occupied = true;
+    return true;
   }
 };
 
-- 
2.43.0


From a56201618c57173453452860fd039e75452d75ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:25 +0000
Subject: [PATCH 12/25] fix: fiber SleepPreemptive does not rely on the sleep
 list entry, which could be absent or outlive the deadline

---
 src/fault/fiber/scheduler.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/fault/fiber/scheduler.cpp b/src/fault/fiber/scheduler.cpp
index 05b175b..bfcd763 100644
--- a/src/fault/fiber/scheduler.cpp
+++ b/src/fault/fiber/scheduler.cpp
@@ -125,13 +125,10 @@ void Scheduler::Sleep(std::uint64_t ns) {
 void Scheduler::SleepPreemptive(std::uint64_t ns) {
   ns += detail::GetRandNumber(GetFaultSleepTime());
   Sleep(ns);
-  // <= because wakeup called before time adjustment
-  if (_time <= ns) {
-    auto it = _sleep_list.find(ns);
-    YACLIB_DEBUG(it == _sleep_list.end(), "sleep_list for time that is not passed yet isn't found");
-    if (it->second.Empty()) {
-      _sleep_list.erase(ns);
-    }
+  // The fiber could be woken before the deadline, or not sleep at all if the deadline has passed already
+  auto it = _sleep_list.find(ns);
+  if (it != _sleep_list.end() && it->second.Empty()) {
+    _sleep_list.erase(it);
   }
 }
 
-- 
2.43.0


From 27418700b6542f333ac95dab9febe8ba9292723d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:25 +0000
Subject: [PATCH 13/25] fix: fiber thread local pointers of different types do
 not share values, assignment affects the current fiber only

---
 .../fault/detail/fiber/thread_local_proxy.hpp | 29 ++++++++-----------
 src/fault/fiber/thread_local_proxy.cpp        |  5 ++++
 2 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/include/yaclib/fault/detail/fiber/thread_local_proxy.hpp b/include/yaclib/fault/detail/fiber/thread_local_proxy.hpp
index c3944a7..e51221b 100644
--- a/include/yaclib/fault/detail/fiber/thread_local_proxy.hpp
+++ b/include/yaclib/fault/detail/fiber/thread_local_proxy.hpp
@@ -8,22 +8,23 @@ void Set(void* new_value, std::uint64_t i);
 
 void SetDefault(void* new_value, std::uint64_t i);
 
+// Index is unique across all types, because all values of a fiber are in the same table
+std::uint64_t NextFreeIndex() noexcept;
+
 template <typename Type>
 class ThreadLocalPtrProxy final {
-  inline static std::uint64_t sNextFreeIndex = 0;
-
  public:
-  ThreadLocalPtrProxy() noexcept : _i(sNextFreeIndex++) {
+  ThreadLocalPtrProxy() noexcept : _i(NextFreeIndex()) {
   }
 
-  ThreadLocalPtrProxy(Type* value) noexcept : _i(sNextFreeIndex++) {
+  ThreadLocalPtrProxy(Type* value) noexcept : _i(NextFreeIndex()) {
     if (value != nullptr) {
       SetDefault(value, _i);
     }
   }
   ThreadLocalPtrProxy(ThreadLocalPtrProxy&& other) noexcept : _i(other._i) {
   }
-  ThreadLocalPtrProxy(const ThreadLocalPtrProxy& other) noexcept : _i(sNextFreeIndex++) {
+  ThreadLocalPtrProxy(const ThreadLocalPtrProxy& other) noexcept : _i(NextFreeIndex()) {
     SetDefault(GetImpl(other._i), _i);
   }
 
@@ -31,35 +32,29 @@ class ThreadLocalPtrProxy final {
     Set(value, this->_i);
     return *this;
   }
+  // Assignment changes the value of the current fiber only
   ThreadLocalPtrProxy& operator=(ThreadLocalPtrProxy&& other) noexcept {
-    _i = other._i;
-    return *this;
+    return *this = other.Get();
   }
   ThreadLocalPtrProxy& operator=(const ThreadLocalPtrProxy& other) noexcept {
-    if (this->Get() == other.Get()) {
-      return *this;
-    }
-    SetDefault(GetImpl(other._i), _i);
-    return *this;
+    return *this = other.Get();
   }
 
   template <typename U>
   ThreadLocalPtrProxy(ThreadLocalPtrProxy<U>&& other) noexcept : _i(other._i) {
   }
   template <typename U>
-  ThreadLocalPtrProxy(const ThreadLocalPtrProxy<U>& other) noexcept : _i(sNextFreeIndex++) {
+  ThreadLocalPtrProxy(const ThreadLocalPtrProxy<U>& other) noexcept : _i(NextFreeIndex()) {
     SetDefault(GetImpl(other._i), _i);
   }
 
   template <typename U>
   ThreadLocalPtrProxy& operator=(ThreadLocalPtrProxy<U>&& other) noexcept {
-    _i = other._i;
-    return *this;
+    return *this = other.Get();
   }
   template <typename U>
   ThreadLocalPtrProxy& operator=(const ThreadLocalPtrProxy<U>& other) noexcept {
-    SetDefault(GetImpl(other._i), _i);
-    return *this;
+    return *this = other.Get();
   }
 
   Type& operator*() const noexcept {
diff --git a/src/fault/fiber/thread_local_proxy.cpp b/src/fault/fiber/thread_local_proxy.cpp
index f61fcf4..c810621 100644
--- a/src/fault/fiber/thread_local_proxy.cpp
+++ b/src/fault/fiber/thread_local_proxy.cpp
@@ -11,6 +11,11 @@ static auto& GetMap() {
   return sDefaults;
 }
 
+std::uint64_t NextFreeIndex() noexcept {
+  static std::uint64_t sNextFreeIndex = 0;
+  return sNextFreeIndex++;
+}
+
 void* GetImpl(std::uint64_t i) {
   auto* fiber = fault::Scheduler::Current();
   YACLIB_ASSERT(fiber);
-- 
2.43.0


From fa0765e23eea19d0d89c82d81cace3d33cd5b42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:25 +0000
Subject: [PATCH 14/25] fix: fiber Thread without a thread of execution is not
 joinable

---
 src/fault/fiber/thread.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fault/fiber/thread.cpp b/src/fault/fiber/thread.cpp
index 4269861..59fc331 100644
--- a/src/fault/fiber/thread.cpp
+++ b/src/fault/fiber/thread.cpp
@@ -16,7 +16,7 @@ void Thread::swap(Thread& t) noexcept {
 }
 
 bool Thread::joinable() const noexcept {
-  return get_id() != fault::Scheduler::GetId();
+  return _impl != nullptr && get_id() != fault::Scheduler::GetId();
 }
 
 void Thread::join() {
-- 
2.43.0


From 0cef0ea9d790fc44e17259a9c4e99fb0e7a1435c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:25 +0000
Subject: [PATCH 15/25] fix: fiber ConditionVariable wait_for with predicate
 does not restart the timeout

---
 include/yaclib/fault/detail/fiber/condition_variable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/yaclib/fault/detail/fiber/condition_variable.hpp b/include/yaclib/fault/detail/fiber/condition_variable.hpp
index fb7cabe..ffc1395 100644
--- a/include/yaclib/fault/detail/fiber/condition_variable.hpp
+++ b/include/yaclib/fault/detail/fiber/condition_variable.hpp
@@ -46,7 +46,7 @@ class ConditionVariable {
   template <typename Rep, typename Period, typename Predicate>
   bool wait_for(std::unique_lock<yaclib::detail::fiber::Mutex>& lock,
                 const std::chrono::duration<Rep, Period>& duration, Predicate predicate) {
-    return WaitImplWithPredicate(lock, duration, predicate);
+    return WaitImplWithPredicate(lock, ToTimePoint(duration), predicate);
   }
 
   using native_handle_type = std::condition_variable::native_handle_type;
-- 
2.43.0


From d5c102bc99d65c3a9d05e19b496611735fa924c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:29 +0000
Subject: [PATCH 16/25] fix: random count restarts with the seed,
 ForwardToFaultRandomCount forwards to the count, not by the count

---
 src/fault/util.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fault/util.cpp b/src/fault/util.cpp
index 4f2dd0e..57d8fcf 100644
--- a/src/fault/util.cpp
+++ b/src/fault/util.cpp
@@ -13,6 +13,9 @@ static thread_local std::mt19937_64 eng{sSeed};
 void SetSeed(std::uint32_t new_seed) {
   sSeed = new_seed;
   eng.seed(new_seed);
+#if YACLIB_FAULT == 2
+  sRandCount = 0;
+#endif
 }
 
 std::uint32_t GetSeed() {
@@ -36,7 +39,7 @@ std::uint64_t GetRandCount() {
 
 void ForwardToRandCount([[maybe_unused]] std::uint64_t random_count) {
 #if YACLIB_FAULT == 2
-  for (std::uint64_t i = 0; i != random_count; ++i) {
+  while (sRandCount < random_count) {
     GetRandNumber(1);
   }
 #endif
-- 
2.43.0


From 0f396e95e8f204a130a4551bb5544438c7b8cd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:49 +0000
Subject: [PATCH 17/25] fix: fiber atomic fetch_and computes and

---
 include/yaclib/fault/detail/fiber/atomic.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/yaclib/fault/detail/fiber/atomic.hpp b/include/yaclib/fault/detail/fiber/atomic.hpp
index 96d16a8..d5f0ac6 100644
--- a/include/yaclib/fault/detail/fiber/atomic.hpp
+++ b/include/yaclib/fault/detail/fiber/atomic.hpp
@@ -153,12 +153,12 @@ class AtomicIntegralBase<T, true> : public AtomicFloatingBase<T, true> {
 
   T fetch_and(T arg, std::memory_order) noexcept {
     auto val = _value;
-    _value += arg;
+    _value &= arg;
     return val;
   }
   T fetch_and(T arg, std::memory_order) volatile noexcept {
     auto val = _value;
-    _value += arg;
+    _value &= arg;
     return val;
   }
 
-- 
2.43.0


From e7bde49f3cbfaafb81bc95a8cbfa190b9d797cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:49 +0000
Subject: [PATCH 18/25] fix: fiber atomic pre and post increment and decrement
 return the new and the old value

---
 include/yaclib/fault/detail/fiber/atomic.hpp | 32 ++++++++++----------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/include/yaclib/fault/detail/fiber/atomic.hpp b/include/yaclib/fault/detail/fiber/atomic.hpp
index d5f0ac6..c6e0a8d 100644
--- a/include/yaclib/fault/detail/fiber/atomic.hpp
+++ b/include/yaclib/fault/detail/fiber/atomic.hpp
@@ -185,31 +185,31 @@ class AtomicIntegralBase<T, true> : public AtomicFloatingBase<T, true> {
   }
 
   T operator++() noexcept {
-    return _value++;
+    return ++_value;
   }
   T operator++() volatile noexcept {
-    return _value++;
+    return ++_value;
   }
 
   T operator++(int) noexcept {
-    return ++_value;
+    return _value++;
   }
   T operator++(int) volatile noexcept {
-    return ++_value;
+    return _value++;
   }
 
   T operator--() noexcept {
-    return _value--;
+    return --_value;
   }
   T operator--() volatile noexcept {
-    return _value--;
+    return --_value;
   }
 
   T operator--(int) noexcept {
-    return --_value;
+    return _value--;
   }
   T operator--(int) volatile noexcept {
-    return --_value;
+    return _value--;
   }
 
   T operator&=(T arg) noexcept {
@@ -275,31 +275,31 @@ class Atomic<U*> : public AtomicBase<U*> {
   }
 
   U* operator++() noexcept {
-    return _value++;
+    return ++_value;
   }
   U* operator++() volatile noexcept {
-    return _value++;
+    return ++_value;
   }
 
   U* operator++(int) noexcept {
-    return ++_value;
+    return _value++;
   }
   U* operator++(int) volatile noexcept {
-    return ++_value;
+    return _value++;
   }
 
   U* operator--() noexcept {
-    return _value--;
+    return --_value;
   }
   U* operator--() volatile noexcept {
-    return _value--;
+    return --_value;
   }
 
   U* operator--(int) noexcept {
-    return --_value;
+    return _value--;
   }
   U* operator--(int) volatile noexcept {
-    return --_value;
+    return _value--;
   }
 
   U* operator+=(std::ptrdiff_t arg) noexcept {
-- 
2.43.0


From 6a5e51fcb074398a3b4efd44ad91c2dc802cba0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:42 +0000
Subject: [PATCH 19/25] fix: fiber atomic compare_exchange compares the
 representation, volatile overloads compile

---
 include/yaclib/fault/detail/fiber/atomic.hpp | 44 ++++++++++++++------
 1 file changed, 32 insertions(+), 12 deletions(-)

diff --git a/include/yaclib/fault/detail/fiber/atomic.hpp b/include/yaclib/fault/detail/fiber/atomic.hpp
index c6e0a8d..0b3ef24 100644
--- a/include/yaclib/fault/detail/fiber/atomic.hpp
+++ b/include/yaclib/fault/detail/fiber/atomic.hpp
@@ -2,8 +2,18 @@
 
 #include <yaclib/fault/detail/fiber/atomic_wait.hpp>
 
+#include <cstring>
 #include <utility>
 
+#if defined(__has_builtin)
+#  if __has_builtin(__builtin_clear_padding)
+#    define YACLIB_CLEAR_PADDING 1
+#  endif
+#endif
+#ifndef YACLIB_CLEAR_PADDING
+#  define YACLIB_CLEAR_PADDING 0
+#endif
+
 namespace yaclib::detail::fiber {
 
 template <typename T>
@@ -44,37 +54,47 @@ class AtomicBase : public AtomicWait<T> {
   }
 
   bool compare_exchange_weak(T& expected, T desired, std::memory_order, std::memory_order) noexcept {
-    return CompareExchangeHelper(expected, desired);
+    return CompareExchangeHelper(_value, expected, desired);
   }
   bool compare_exchange_weak(T& expected, T desired, std::memory_order, std::memory_order) volatile noexcept {
-    return CompareExchangeHelper(expected, desired);
+    return CompareExchangeHelper(_value, expected, desired);
   }
   bool compare_exchange_weak(T& expected, T desired, std::memory_order) noexcept {
-    return CompareExchangeHelper(expected, desired);
+    return CompareExchangeHelper(_value, expected, desired);
   }
   bool compare_exchange_weak(T& expected, T desired, std::memory_order) volatile noexcept {
-    return CompareExchangeHelper(expected, desired);
+    return CompareExchangeHelper(_value, expected, desired);
   }
   bool compare_exchange_strong(T& expected, T desired, std::memory_order, std::memory_order) noexcept {
-    return CompareExchangeHelper(expected, desired);
+    return CompareExchangeHelper(_value, expected, desired);
   }
   bool compare_exchange_strong(T& expected, T desired, std::memory_order, std::memory_order) volatile noexcept {
-    return CompareExchangeHelper(expected, desired);
+    return CompareExchangeHelper(_value, expected, desired);
   }
   bool compare_exchange_strong(T& expected, T desired, std::memory_order) noexcept {
-    return CompareExchangeHelper(expected, desired);
+    return CompareExchangeHelper(_value, expected, desired);
   }
   bool compare_exchange_strong(T& expected, T desired, std::memory_order) volatile noexcept {
-    return CompareExchangeHelper(expected, desired);
+    return CompareExchangeHelper(_value, expected, desired);
   }
 
  protected:
-  bool CompareExchangeHelper(T& expected, T desired) {
-    if (this->_value == expected) {
-      this->_value = desired;
+  // like std::atomic compares the representation: a NaN is equal to itself, zeros with different signs are not equal
+  static bool IsSame(T lhs, T rhs) noexcept {
+#if YACLIB_CLEAR_PADDING
+    __builtin_clear_padding(&lhs);
+    __builtin_clear_padding(&rhs);
+#endif
+    return std::memcmp(&lhs, &rhs, sizeof(T)) == 0;
+  }
+
+  template <typename Value>
+  static bool CompareExchangeHelper(Value& value, T& expected, T desired) noexcept {
+    if (IsSame(value, expected)) {
+      value = desired;
       return true;
     } else {
-      expected = this->_value;
+      expected = value;
       return false;
     }
   }
-- 
2.43.0


From 5ea5bb4d23adba16f17b8b377c1232a60db1b3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:42 +0000
Subject: [PATCH 20/25] fix: default constructed fiber atomic and atomic_flag
 have a value

---
 include/yaclib/fault/detail/fiber/atomic_wait.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/yaclib/fault/detail/fiber/atomic_wait.hpp b/include/yaclib/fault/detail/fiber/atomic_wait.hpp
index 1c0341a..d6beaa2 100644
--- a/include/yaclib/fault/detail/fiber/atomic_wait.hpp
+++ b/include/yaclib/fault/detail/fiber/atomic_wait.hpp
@@ -60,7 +60,7 @@ class AtomicWait {
 #endif
 
  protected:
-  T _value;
+  T _value{};
 #if YACLIB_FUTEX != 0
   FiberQueue _queue;
 #endif
-- 
2.43.0


From d6e1e211d18ea102858ffc374a21b6bfb7ae687b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:42 +0000
Subject: [PATCH 21/25] fix: increment and decrement of volatile fault
 injection atomics compile

---
 include/yaclib/fault/detail/atomic.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/yaclib/fault/detail/atomic.hpp b/include/yaclib/fault/detail/atomic.hpp
index 4f1cf99..c1a86c1 100644
--- a/include/yaclib/fault/detail/atomic.hpp
+++ b/include/yaclib/fault/detail/atomic.hpp
@@ -215,7 +215,7 @@ class AtomicIntegralBase<Impl, T, true> : public AtomicFloatingBase<Impl, T, tru
     return r;
   }
   T operator++() volatile noexcept {
-    YACLIB_INJECT_FAULT(auto r = ++static_cast<Impl&>(*this));
+    YACLIB_INJECT_FAULT(auto r = ++static_cast<volatile Impl&>(*this));
     return r;
   }
 
@@ -224,7 +224,7 @@ class AtomicIntegralBase<Impl, T, true> : public AtomicFloatingBase<Impl, T, tru
     return r;
   }
   T operator++(int) volatile noexcept {
-    YACLIB_INJECT_FAULT(auto r = static_cast<Impl&>(*this)++);
+    YACLIB_INJECT_FAULT(auto r = static_cast<volatile Impl&>(*this)++);
     return r;
   }
 
@@ -233,7 +233,7 @@ class AtomicIntegralBase<Impl, T, true> : public AtomicFloatingBase<Impl, T, tru
     return r;
   }
   T operator--() volatile noexcept {
-    YACLIB_INJECT_FAULT(auto r = --static_cast<Impl&>(*this));
+    YACLIB_INJECT_FAULT(auto r = --static_cast<volatile Impl&>(*this));
     return r;
   }
 
@@ -242,7 +242,7 @@ class AtomicIntegralBase<Impl, T, true> : public AtomicFloatingBase<Impl, T, tru
     return r;
   }
   T operator--(int) volatile noexcept {
-    YACLIB_INJECT_FAULT(auto r = static_cast<Impl&>(*this)--);
+    YACLIB_INJECT_FAULT(auto r = static_cast<volatile Impl&>(*this)--);
     return r;
   }
 
@@ -312,7 +312,7 @@ class Atomic<Impl, U*> : public AtomicBase<Impl, U*> {
     return r;
   }
   U* operator++() volatile noexcept {
-    YACLIB_INJECT_FAULT(auto* r = ++static_cast<Impl&>(*this));
+    YACLIB_INJECT_FAULT(auto* r = ++static_cast<volatile Impl&>(*this));
     return r;
   }
 
@@ -321,7 +321,7 @@ class Atomic<Impl, U*> : public AtomicBase<Impl, U*> {
     return r;
   }
   U* operator++(int) volatile noexcept {
-    YACLIB_INJECT_FAULT(auto* r = static_cast<Impl&>(*this)++);
+    YACLIB_INJECT_FAULT(auto* r = static_cast<volatile Impl&>(*this)++);
     return r;
   }
 
@@ -330,7 +330,7 @@ class Atomic<Impl, U*> : public AtomicBase<Impl, U*> {
     return r;
   }
   U* operator--() volatile noexcept {
-    YACLIB_INJECT_FAULT(auto* r = --static_cast<Impl&>(*this));
+    YACLIB_INJECT_FAULT(auto* r = --static_cast<volatile Impl&>(*this));
     return r;
   }
 
@@ -339,7 +339,7 @@ class Atomic<Impl, U*> : public AtomicBase<Impl, U*> {
     return r;
   }
   U* operator--(int) volatile noexcept {
-    YACLIB_INJECT_FAULT(auto* r = static_cast<Impl&>(*this)--);
+    YACLIB_INJECT_FAULT(auto* r = static_cast<volatile Impl&>(*this)--);
     return r;
   }
 
-- 
2.43.0


From 5de748d378201b9e0ef19683b2518247f44c74d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:43 +0000
Subject: [PATCH 22/25] fix: spurious failure of compare_exchange_weak with
 release order does not load with release order

---
 include/yaclib/fault/detail/atomic.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/yaclib/fault/detail/atomic.hpp b/include/yaclib/fault/detail/atomic.hpp
index c1a86c1..44c6ff5 100644
--- a/include/yaclib/fault/detail/atomic.hpp
+++ b/include/yaclib/fault/detail/atomic.hpp
@@ -11,6 +11,18 @@ bool ShouldFailAtomicWeak();
 
 void SetAtomicWeakFailFrequency(std::uint32_t k);
 
+// Order of the load performed by a failed compare_exchange with a single order
+constexpr std::memory_order FailureOrder(std::memory_order order) noexcept {
+  switch (order) {
+    case std::memory_order_acq_rel:
+      return std::memory_order_acquire;
+    case std::memory_order_release:
+      return std::memory_order_relaxed;
+    default:
+      return order;
+  }
+}
+
 template <typename Impl, typename T>
 class AtomicBase : public AtomicWait<Impl, T> {
   using Base = AtomicWait<Impl, T>;
@@ -81,7 +93,7 @@ class AtomicBase : public AtomicWait<Impl, T> {
   }
   bool compare_exchange_weak(T& expected, T desired, std::memory_order order = std::memory_order_seq_cst) noexcept {
     if (ShouldFailAtomicWeak()) {
-      expected = load(order);
+      expected = load(FailureOrder(order));
       return false;
     }
     YACLIB_INJECT_FAULT(auto r = Impl::compare_exchange_weak(expected, desired, order));
@@ -90,7 +102,7 @@ class AtomicBase : public AtomicWait<Impl, T> {
   bool compare_exchange_weak(T& expected, T desired,
                              std::memory_order order = std::memory_order_seq_cst) volatile noexcept {
     if (ShouldFailAtomicWeak()) {
-      expected = load(order);
+      expected = load(FailureOrder(order));
       return false;
     }
     YACLIB_INJECT_FAULT(auto r = Impl::compare_exchange_weak(expected, desired, order));
-- 
2.43.0


From 345ff62636e126bd6a82d2566eb5e15ec529edf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:08 +0000
Subject: [PATCH 23/25] fix: arithmetic of signed fiber atomics wraps around

---
 include/yaclib/fault/detail/fiber/atomic.hpp | 60 ++++++++++++++------
 1 file changed, 44 insertions(+), 16 deletions(-)

diff --git a/include/yaclib/fault/detail/fiber/atomic.hpp b/include/yaclib/fault/detail/fiber/atomic.hpp
index 0b3ef24..502be5a 100644
--- a/include/yaclib/fault/detail/fiber/atomic.hpp
+++ b/include/yaclib/fault/detail/fiber/atomic.hpp
@@ -3,6 +3,7 @@
 #include <yaclib/fault/detail/fiber/atomic_wait.hpp>
 
 #include <cstring>
+#include <type_traits>
 #include <utility>
 
 #if defined(__has_builtin)
@@ -88,6 +89,25 @@ class AtomicBase : public AtomicWait<T> {
     return std::memcmp(&lhs, &rhs, sizeof(T)) == 0;
   }
 
+  // signed integers wrap around
+  static T Add(T lhs, T rhs) noexcept {
+    if constexpr (std::is_integral_v<T>) {
+      using U = std::make_unsigned_t<T>;
+      return static_cast<T>(static_cast<U>(lhs) + static_cast<U>(rhs));
+    } else {
+      return lhs + rhs;
+    }
+  }
+
+  static T Sub(T lhs, T rhs) noexcept {
+    if constexpr (std::is_integral_v<T>) {
+      using U = std::make_unsigned_t<T>;
+      return static_cast<T>(static_cast<U>(lhs) - static_cast<U>(rhs));
+    } else {
+      return lhs - rhs;
+    }
+  }
+
   template <typename Value>
   static bool CompareExchangeHelper(Value& value, T& expected, T desired) noexcept {
     if (IsSame(value, expected)) {
@@ -118,38 +138,38 @@ class AtomicFloatingBase<T, true> : public AtomicBase<T> {
 
   T fetch_add(T arg, std::memory_order) noexcept {
     auto val = _value;
-    _value += arg;
+    _value = Base::Add(val, arg);
     return val;
   }
   T fetch_add(T arg, std::memory_order) volatile noexcept {
     auto val = _value;
-    _value += arg;
+    _value = Base::Add(val, arg);
     return val;
   }
 
   T fetch_sub(T arg, std::memory_order) noexcept {
     auto val = _value;
-    _value -= arg;
+    _value = Base::Sub(val, arg);
     return val;
   }
   T fetch_sub(T arg, std::memory_order) volatile noexcept {
     auto val = _value;
-    _value -= arg;
+    _value = Base::Sub(val, arg);
     return val;
   }
 
   T operator+=(T arg) noexcept {
-    return _value += arg;
+    return _value = Base::Add(_value, arg);
   }
   T operator+=(T arg) volatile noexcept {
-    return _value += arg;
+    return _value = Base::Add(_value, arg);
   }
 
   T operator-=(T arg) noexcept {
-    return _value -= arg;
+    return _value = Base::Sub(_value, arg);
   }
   T operator-=(T arg) volatile noexcept {
-    return _value -= arg;
+    return _value = Base::Sub(_value, arg);
   }
 
  protected:
@@ -205,31 +225,39 @@ class AtomicIntegralBase<T, true> : public AtomicFloatingBase<T, true> {
   }
 
   T operator++() noexcept {
-    return ++_value;
+    return _value = Base::Add(_value, 1);
   }
   T operator++() volatile noexcept {
-    return ++_value;
+    return _value = Base::Add(_value, 1);
   }
 
   T operator++(int) noexcept {
-    return _value++;
+    auto val = _value;
+    _value = Base::Add(val, 1);
+    return val;
   }
   T operator++(int) volatile noexcept {
-    return _value++;
+    auto val = _value;
+    _value = Base::Add(val, 1);
+    return val;
   }
 
   T operator--() noexcept {
-    return --_value;
+    return _value = Base::Sub(_value, 1);
   }
   T operator--() volatile noexcept {
-    return --_value;
+    return _value = Base::Sub(_value, 1);
   }
 
   T operator--(int) noexcept {
-    return _value--;
+    auto val = _value;
+    _value = Base::Sub(val, 1);
+    return val;
   }
   T operator--(int) volatile noexcept {
-    return _value--;
+    auto val = _value;
+    _value = Base::Sub(val, 1);
+    return val;
   }
 
   T operator&=(T arg) noexcept {
-- 
2.43.0


From 2a198d29b26545dcb393f3f7bd26ec6365053253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:59 +0000
Subject: [PATCH 24/25] fix: assignment of a value to a fault injection atomic
 is an atomic store

---
 include/yaclib/fault/detail/atomic.hpp       | 6 ++++++
 include/yaclib/fault/detail/fiber/atomic.hpp | 7 +++++++
 2 files changed, 13 insertions(+)

diff --git a/include/yaclib/fault/detail/atomic.hpp b/include/yaclib/fault/detail/atomic.hpp
index 44c6ff5..5339daa 100644
--- a/include/yaclib/fault/detail/atomic.hpp
+++ b/include/yaclib/fault/detail/atomic.hpp
@@ -134,6 +134,7 @@ class AtomicFloatingBase : public AtomicBase<Impl, T> {
 
  public:
   using Base::Base;
+  using Base::operator=;
 };
 
 template <typename Impl, typename T>
@@ -142,6 +143,7 @@ class AtomicFloatingBase<Impl, T, true> : public AtomicBase<Impl, T> {
 
  public:
   using Base::Base;
+  using Base::operator=;
 
   T fetch_add(T arg, std::memory_order order = std::memory_order_seq_cst) noexcept {
     YACLIB_INJECT_FAULT(auto r = Impl::fetch_add(arg, order));
@@ -186,6 +188,7 @@ class AtomicIntegralBase : public AtomicFloatingBase<Impl, T> {
 
  public:
   using Base::Base;
+  using Base::operator=;
 };
 
 template <typename Impl, typename T>
@@ -194,6 +197,7 @@ class AtomicIntegralBase<Impl, T, true> : public AtomicFloatingBase<Impl, T, tru
 
  public:
   using Base::Base;
+  using Base::operator=;
 
   T fetch_and(T arg, std::memory_order order = std::memory_order_seq_cst) noexcept {
     YACLIB_INJECT_FAULT(auto r = Impl::fetch_and(arg, order));
@@ -292,6 +296,7 @@ class Atomic : public AtomicIntegralBase<Impl, T> {
 
  public:
   using Base::Base;
+  using Base::operator=;
 };
 
 template <typename Impl, typename U>
@@ -300,6 +305,7 @@ class Atomic<Impl, U*> : public AtomicBase<Impl, U*> {
 
  public:
   using Base::Base;
+  using Base::operator=;
 
   U* fetch_add(std::ptrdiff_t arg, std::memory_order order = std::memory_order_seq_cst) noexcept {
     YACLIB_INJECT_FAULT(auto* r = Impl::fetch_add(arg, order));
diff --git a/include/yaclib/fault/detail/fiber/atomic.hpp b/include/yaclib/fault/detail/fiber/atomic.hpp
index 502be5a..7c471dd 100644
--- a/include/yaclib/fault/detail/fiber/atomic.hpp
+++ b/include/yaclib/fault/detail/fiber/atomic.hpp
@@ -23,6 +23,7 @@ class AtomicBase : public AtomicWait<T> {
 
  public:
   using Base::Base;
+  using Base::operator=;
   using Base::is_always_lock_free;
   using Base::is_lock_free;
 
@@ -127,6 +128,7 @@ class AtomicFloatingBase : public AtomicBase<T> {
 
  public:
   using Base::Base;
+  using Base::operator=;
 };
 
 template <typename T>
@@ -135,6 +137,7 @@ class AtomicFloatingBase<T, true> : public AtomicBase<T> {
 
  public:
   using Base::Base;
+  using Base::operator=;
 
   T fetch_add(T arg, std::memory_order) noexcept {
     auto val = _value;
@@ -182,6 +185,7 @@ class AtomicIntegralBase : public AtomicFloatingBase<T> {
 
  public:
   using Base::Base;
+  using Base::operator=;
 };
 
 template <typename T>
@@ -190,6 +194,7 @@ class AtomicIntegralBase<T, true> : public AtomicFloatingBase<T, true> {
 
  public:
   using Base::Base;
+  using Base::operator=;
 
   T fetch_and(T arg, std::memory_order) noexcept {
     auto val = _value;
@@ -291,6 +296,7 @@ class Atomic : public AtomicIntegralBase<T> {
 
  public:
   using Base::Base;
+  using Base::operator=;
 };
 
 template <typename U>
@@ -299,6 +305,7 @@ class Atomic<U*> : public AtomicBase<U*> {
 
  public:
   using Base::Base;
+  using Base::operator=;
 
   U* fetch_add(std::ptrdiff_t arg, std::memory_order) noexcept {
     auto val = _value;
-- 
2.43.0


From c8db3fa01273b7154fb6bcb569ac5259623b640a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:57 +0000
Subject: [PATCH 25/25] fix: condition variable timed waits without predicate
 link in fault builds

---
 include/yaclib/fault/detail/condition_variable.hpp | 4 ++--
 src/fault/condition_variable.cpp                   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/yaclib/fault/detail/condition_variable.hpp b/include/yaclib/fault/detail/condition_variable.hpp
index 8816de9..4f18428 100644
--- a/include/yaclib/fault/detail/condition_variable.hpp
+++ b/include/yaclib/fault/detail/condition_variable.hpp
@@ -11,8 +11,8 @@
 
 namespace yaclib::detail {
 
-constexpr std::cv_status CVStatusFrom(WaitStatus);
-constexpr std::cv_status CVStatusFrom(std::cv_status);
+std::cv_status CVStatusFrom(WaitStatus);
+std::cv_status CVStatusFrom(std::cv_status);
 
 // TODO(myannyax) unite with ConditionVariableAny
 
diff --git a/src/fault/condition_variable.cpp b/src/fault/condition_variable.cpp
index c5f1d5d..bf3f429 100644
--- a/src/fault/condition_variable.cpp
+++ b/src/fault/condition_variable.cpp
@@ -2,14 +2,14 @@
 
 namespace yaclib::detail {
 
-constexpr std::cv_status CVStatusFrom(WaitStatus status) {
+std::cv_status CVStatusFrom(WaitStatus status) {
   if (status == WaitStatus::Ready) {
     return std::cv_status::no_timeout;
   }
   return std::cv_status::timeout;
 }
 
-constexpr std::cv_status CVStatusFrom(std::cv_status status) {
+std::cv_status CVStatusFrom(std::cv_status status) {
   return status;
 }
 
-- 
2.43.0

