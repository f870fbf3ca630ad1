// Controlled-execution runtime: client side API (see DESIGN.md, "Runtime").
// Nothing in here is instrumented; every function lives in rt.cpp.
#pragma once
#include <cstddef>
#include <cstdint>
#include <initializer_list>

#define RT_NOSAN __attribute__((no_sanitize("thread"), noinline))

namespace rt {

// Append an event to the log of the current execution.
void Ev(const char* name, std::initializer_list<int> args = {}) noexcept;
// Nondeterministic choice of the client, explored like a scheduling choice.
int Choose(int n) noexcept;
// Explicit scheduling point.
void Point() noexcept;
// Blocks the calling fiber until flag becomes nonzero; not instrumented, creates no happens-before edge unless hb.
void SetFlag(int id, bool hb = false) noexcept;
void WaitFlag(int id, bool hb = false) noexcept;
bool TestFlag(int id) noexcept;
int Self() noexcept;
// how often this thread has been blocked (mutex, condition, futex, join, flag)
long Blocks() noexcept;
// explicit happens-before edge carried by a message (not a scheduling point)
void HbSend(const void* key) noexcept;
void HbRecv(const void* key) noexcept;
// per-thread integer slots (0 at thread start)
// message queues of the runtime: pop blocks (nullptr once closed and empty); the only happens-before edge is push -> pop
void QPush(int q, void* p) noexcept;
void* QPop(int q, bool wait = true) noexcept;
void QClose(int q) noexcept;
int QSize(int q) noexcept;
int GetSlot(int k) noexcept;
void SetSlot(int k, int v) noexcept;
// per-execution integer variables, not instrumented, no happens-before (0 at start)
int GetVar(int k) noexcept;
void SetVar(int k, int v) noexcept;
int AddVar(int k, int d) noexcept;  // returns the new value
long Now() noexcept;  // virtual nanoseconds
// Counters of the global operator new
long Allocs() noexcept;  // number of operator new calls in this execution so far
long AllocsMine() noexcept;  // the same, only calls made by the calling fiber
long Live() noexcept;    // blocks not yet released
// Runs f with the log/alloc accounting off (harness-internal allocations).
struct Quiet {
  Quiet() noexcept;
  ~Quiet();
};
// registry of live instrumented objects
void ObjNew(const void* p, int kind) noexcept;
void ObjDel(const void* p, int kind) noexcept;
void ObjUse(const void* p, int kind) noexcept;
long ObjLive(int kind) noexcept;  // kind -1: all
void Bad(const char* what) noexcept;  // report a memory-lifecycle error seen by the harness ("obj")

// true if [p, p+1) is a live heap block
bool IsLive(const void* p) noexcept;

using Fn = void (*)(const int* params, int n);
struct Reg {
  Reg(const char* name, Fn fn);
};

}  // namespace rt

#define SCENARIO2(name)                                  \
  static void Scn_##name(const int* p, int n);           \
  static ::rt::Reg reg_##name{#name, &Scn_##name};       \
  static void Scn_##name([[maybe_unused]] const int* p, [[maybe_unused]] int n)
#define SCENARIO(name) SCENARIO2(name)
