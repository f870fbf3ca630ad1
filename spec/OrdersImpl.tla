----------------------------- MODULE OrdersImpl -----------------------------
(* C04, design: the synchronising words of the library with their memory        *)
(* orders, as small programs of atomic and plain accesses.  Every access is fed  *)
(* to MemModel; a data race in any interleaving leaves no state (NoRace).        *)
(* WEAK = <<name, order>> replaces one order: every listed order is necessary,   *)
(* the configurations OrdersNeg* are expected to be refuted.                     *)
(*   handoff  callback word of a state: one producer, consumers attach callbacks *)
(*            (BaseCore, SharedCore, OneShotEvent)                               *)
(*   counter  AtomicCounter: parts of an object written by its owners, the last  *)
(*            one destroys it; WaitGroup: whoever brings it to zero              *)
(*   strand   Strand over an executor with two workers                           *)
(*   mutex    coroutine Mutex: sections run by two threads                       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS SYS, WEAKNAME, WEAKTO

M == INSTANCE MemModel

Good == [xchg |-> 4, load |-> 2, cas |-> 3, fail |-> 2,       \* handoff
         dec |-> 3, fence |-> 2,                              \* counter
         push |-> 4, take |-> 2, park |-> 3,                  \* strand
         lock |-> 2, wait |-> 3, unlock |-> 3, pass |-> 2]    \* mutex
O(x) == IF x = WEAKNAME THEN WEAKTO ELSE Good[x]

VARIABLES pc, val, loc, S
vars == <<pc, val, loc, S>>

\* thread t does event e on location l with order o
Do(T, e, t, l, o) == M!StepSet(T, [e |-> e, t |-> t - 1, a |-> <<l, o>>])
RECURSIVE Many(_, _, _, _)
Many(T, e, t, ls) == IF ls = <<>> THEN T ELSE Many(Do(T, e, t, Head(ls), 0), e, t, Tail(ls))

N == 3
Word == 1
Data(t) == 1 + t        \* plain data of thread (coroutine) t
Cnt == N + 2            \* plain data of the critical sections
Msg == N + 3            \* messages of the executor below

Go(t, p) == pc' = [pc EXCEPT ![t] = p]
Keep(x) == UNCHANGED x

--------------------------------------------------------------------------------
(* handoff: thread 1 produces, 2..N consume; val: "R" or the list of callbacks *)
HInit == pc = [t \in 1..N |-> IF t = 1 THEN "write" ELSE "write"] /\ val = <<>> /\ loc = <<>>
HP == \/ pc[1] = "write" /\ S' = Do(S, "w", 1, Data(1), 0) /\ Go(1, "xchg") /\ Keep(<<val, loc>>)
      \/ pc[1] = "xchg" /\ S' = Do(S, "ar", 1, Word, O("xchg")) /\ loc' = val /\ val' = <<0>> /\ Go(1, "run")
      \/ pc[1] = "run" /\ loc # <<>> /\ S' = Many(S, "r", 1, <<Data(Head(loc)), Data(1)>>) /\ loc' = Tail(loc) /\ Keep(<<pc, val>>)
      \/ pc[1] = "run" /\ loc = <<>> /\ Go(1, "done") /\ Keep(<<S, val, loc>>)
HC(t) == \/ pc[t] = "write" /\ S' = Do(S, "w", t, Data(t), 0) /\ Go(t, "load") /\ Keep(<<val, loc>>)
         \/ pc[t] = "load" /\ S' = Do(S, "al", t, Word, O("load")) /\ Go(t, IF val = <<0>> THEN "see" ELSE "cas") /\ Keep(<<val, loc>>)
         \/ pc[t] = "cas" /\ IF val = <<0>>
                              THEN S' = Do(S, "al", t, Word, O("fail")) /\ Go(t, "see") /\ Keep(<<val, loc>>)
                              ELSE S' = Do(S, "ar", t, Word, O("cas")) /\ Go(t, "done") /\ val' = Append(val, t) /\ Keep(loc)
         \/ pc[t] = "see" /\ S' = Many(S, "r", t, <<Data(1), Data(t)>>) /\ Go(t, "done") /\ Keep(<<val, loc>>)

--------------------------------------------------------------------------------
(* counter: N owners *)
CInit == pc = [t \in 1..N |-> "write"] /\ val = N /\ loc = <<>>
CT(t) == \/ pc[t] = "write" /\ S' = Do(S, "w", t, Data(t), 0) /\ Go(t, "dec") /\ Keep(<<val, loc>>)
         \/ pc[t] = "dec" /\ S' = Do(S, "ar", t, Word, O("dec")) /\ val' = val - 1 /\ Go(t, IF val = 1 THEN "fence" ELSE "done") /\ Keep(loc)
         \/ pc[t] = "fence" /\ S' = Do(S, "f", t, 0, O("fence")) /\ Go(t, "free") /\ Keep(<<val, loc>>)
         \/ pc[t] = "free" /\ S' = Many(S, "w", t, [i \in 1..N |-> Data(i)]) /\ Go(t, "done") /\ Keep(<<val, loc>>)

--------------------------------------------------------------------------------
(* strand: thread 1 submits two jobs (data 1, 3), thread 2 is the first worker, thread 3 submits nothing but is the
   second worker; val: [mark, jobs]; loc: [q: messages of the executor, run: jobs of the worker in the strand] *)
Jobs == <<1, 3>>
SInit == pc = [t \in 1..N |-> IF t = 1 THEN "write" ELSE "pop"] /\ val = [mark |-> TRUE, jobs |-> <<>>]
         /\ loc = [q |-> 0, run |-> <<>>, k |-> 1]
SP == \/ pc[1] = "write" /\ loc.k <= 2 /\ S' = Do(S, "w", 1, Data(Jobs[loc.k]), 0) /\ Go(1, "push") /\ Keep(<<val, loc>>)
      \/ pc[1] = "push" /\ S' = Do(S, "ar", 1, Word, O("push"))
                        /\ val' = [mark |-> FALSE, jobs |-> Append(val.jobs, Jobs[loc.k])]
                        /\ loc' = [loc EXCEPT !.k = @ + 1] /\ Go(1, IF val.mark THEN "send" ELSE "write")
      \/ pc[1] = "send" /\ S' = Do(S, "jr", 1, Msg, 0) /\ loc' = [loc EXCEPT !.q = @ + 1] /\ Go(1, "write") /\ Keep(val)
SW(t) == \/ pc[t] = "pop" /\ loc.q > 0 /\ S' = Do(S, "ja", t, Msg, 0) /\ loc' = [loc EXCEPT !.q = @ - 1] /\ Go(t, "take") /\ Keep(val)
         \/ pc[t] = "take" /\ S' = Do(S, "ar", t, Word, O("take")) /\ loc' = [loc EXCEPT !.run = val.jobs]
                           /\ val' = [mark |-> FALSE, jobs |-> <<>>] /\ Go(t, "run")
         \/ pc[t] = "run" /\ loc.run # <<>> /\ S' = Many(Do(S, "r", t, Data(Head(loc.run)), 0), "w", t, <<Cnt>>)
                          /\ loc' = [loc EXCEPT !.run = Tail(@)] /\ Keep(<<pc, val>>)
         \/ pc[t] = "run" /\ loc.run = <<>> /\ IF val.jobs = <<>>
               THEN S' = Do(S, "ar", t, Word, O("park")) /\ val' = [mark |-> TRUE, jobs |-> <<>>] /\ Go(t, "pop") /\ Keep(loc)
               ELSE S' = Do(S, "al", t, Word, 0) /\ Go(t, "again") /\ Keep(<<val, loc>>)
         \/ pc[t] = "again" /\ S' = Do(S, "jr", t, Msg, 0) /\ loc' = [loc EXCEPT !.q = @ + 1] /\ Go(t, "pop") /\ Keep(val)

--------------------------------------------------------------------------------
(* mutex: coroutine t starts on thread t; a thread which suspended its coroutine is free; the unlocking thread goes on
   with the next coroutine; val: [free, waiters]; loc: [t -> coroutine which thread t is running] *)
MInit == pc = [t \in 1..N |-> "write"] /\ val = [free |-> TRUE, w |-> <<>>] /\ loc = [c |-> [t \in 1..N |-> t], recv |-> <<>>]
MT(t) == \/ pc[t] = "write" /\ S' = Do(S, "w", t, Data(loc.c[t]), 0) /\ Go(t, "lock") /\ Keep(<<val, loc>>)
         \/ pc[t] = "lock" /\ IF val.free
               THEN S' = Do(S, "ar", t, Word, O("lock")) /\ val' = [val EXCEPT !.free = FALSE] /\ Go(t, "in") /\ Keep(loc)
               ELSE S' = Do(S, "ar", t, Word, O("wait")) /\ val' = [val EXCEPT !.w = Append(@, loc.c[t])] /\ Go(t, "done") /\ Keep(loc)
         \/ pc[t] = "in" /\ S' = Many(S, "w", t, <<Data(loc.c[t]), Cnt>>) /\ Go(t, "unlock") /\ Keep(<<val, loc>>)
         \/ pc[t] = "unlock" /\ loc.recv # <<>> /\ loc' = [c |-> [loc.c EXCEPT ![t] = Head(loc.recv)], recv |-> Tail(loc.recv)]
                             /\ Go(t, "in") /\ Keep(<<val, S>>)
         \/ pc[t] = "unlock" /\ loc.recv = <<>> /\ IF val.w = <<>>
               THEN S' = Do(S, "ar", t, Word, O("unlock")) /\ val' = [val EXCEPT !.free = TRUE] /\ Go(t, "done") /\ Keep(loc)
               ELSE S' = Do(S, "ar", t, Word, O("pass")) /\ val' = [val EXCEPT !.w = <<>>]
                    /\ loc' = [loc EXCEPT !.recv = val.w] /\ Go(t, "unlock")

--------------------------------------------------------------------------------
Init == /\ S = {M!Init0}
        /\ CASE SYS = "handoff" -> HInit [] SYS = "counter" -> CInit [] SYS = "strand" -> SInit [] OTHER -> MInit
Next == /\ S # {}
        /\ CASE SYS = "handoff" -> HP \/ \E t \in 2..N : HC(t)
             [] SYS = "counter" -> \E t \in 1..N : CT(t)
             [] SYS = "strand"  -> SP \/ \E t \in 2..3 : SW(t)
             [] OTHER           -> \E t \in 1..N : MT(t)
Spec == Init /\ [][Next]_vars
NoRace == S # {}
=============================================================================
