---------------------------- MODULE SharedFuture -----------------------------
(* C06.  The contract of one SharedPromise and everything attached to copies  *)
(* of its SharedFuture.                                                       *)
(*                                                                            *)
(*   set    0 nothing, 1 the fulfilling call is running, 2 it has returned    *)
(*   val    code of what is being set                                         *)
(*   pub    the result can be read (an internal step inside the call)         *)
(*   subs   observers (callbacks and awaiters) whose attachment has begun     *)
(*   fired  those that have been invoked                                      *)
(*   pend   observers blocked in Get/Wait                                     *)
(*                                                                            *)
(* An asynchronous fulfilment (RunShared) logs no return: set stays 1.        *)
EXTENDS Naturals, Sequences, FiniteSets

Init0 == [set |-> 0, val |-> 0, pub |-> FALSE, subs |-> {}, fired |-> {}, pend |-> {}]

Internal(s) == IF s.set = 1 /\ ~s.pub THEN {[s EXCEPT !.pub = TRUE]} ELSE {}

If(c, s) == IF c THEN {s} ELSE {}

ESet(s, v)   == If(s.set = 0, [s EXCEPT !.set = 1, !.val = v])
ESetR(s)     == If(s.set = 1 /\ s.pub, [s EXCEPT !.set = 2])
ESub(s, k)   == If(k \notin s.subs, [s EXCEPT !.subs = @ \cup {k}])
ESubR(s, k)  == If(k \in s.subs, s)
\* fires exactly once, only after the value is set, with that value
ECb(s, k, c) == If(k \in s.subs /\ k \notin s.fired /\ s.pub /\ c = s.val,
                   [s EXCEPT !.fired = @ \cup {k}])
EGet(s, k)   == If(k \notin s.pend, [s EXCEPT !.pend = @ \cup {k}])
EGetR(s, k, c) == If(k \in s.pend /\ s.pub /\ c = s.val, [s EXCEPT !.pend = @ \ {k}])
EWaitR(s, k) == If(k \in s.pend /\ s.pub, [s EXCEPT !.pend = @ \ {k}])
ERdy(s, b)   == IF b = 1 THEN If(s.pub, s) ELSE If(s.set # 2, s)
\* a value read after readiness was observed
ETouch(s, c) == If(s.pub /\ c = s.val, s)
EEnd(s, stuck, uaf, race, bad) ==
  If(stuck = 0 /\ uaf = 0 /\ race = 0 /\ bad = 0 /\ s.set # 0 /\ s.pub /\ s.pend = {} /\ s.fired = s.subs, s)

Visible(s, e) ==
  CASE e.e = "cfg"   -> {Init0}
    [] e.e = "set"   -> ESet(s, e.a[1])
    [] e.e = "setr"  -> ESetR(s)
    [] e.e = "sub"   -> ESub(s, e.a[1])
    [] e.e = "subr"  -> ESubR(s, e.a[1])
    [] e.e = "cb"    -> ECb(s, e.a[1], e.a[2])
    [] e.e = "get"   -> EGet(s, e.a[1])
    [] e.e = "getr"  -> EGetR(s, e.a[1], e.a[2])
    [] e.e = "waitr" -> EWaitR(s, e.a[1])
    [] e.e = "rdy"   -> ERdy(s, e.a[2])
    [] e.e = "touch" -> ETouch(s, e.a[2])
    [] e.e = "end"   -> EEnd(s, e.a[1], e.a[4], e.a[5], e.a[6])
    [] OTHER         -> {}

RECURSIVE Close(_, _)
Close(S, F) == IF F = {} THEN S ELSE LET G == (UNION {Internal(s) : s \in F}) \ S IN Close(S \cup G, G)
Closure(S) == Close(S, S)
StepSet(S, e) == UNION {Visible(s, e) : s \in Closure(S)}
=============================================================================
