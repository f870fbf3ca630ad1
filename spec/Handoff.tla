------------------------------- MODULE Handoff -------------------------------
(* C01.  The contract of one Promise/Future pair as its client sees it.        *)
(*                                                                             *)
(* State of one pair (with an optional second pair linked by Connect and an    *)
(* optional chain of continuations):                                           *)
(*   set   0 nothing, 1 the producer is inside Set/~Promise, 2 it has returned *)
(*   val   code of what is being set (StopError for a dropped Promise)         *)
(*   pub   the result can be read (linearization point of Set, an internal     *)
(*         step somewhere inside the producer's call)                          *)
(*   conn  0 no Connect, 1 inside Connect, 2 Connect has returned              *)
(*   pub2  the result can be read through the connected pair                   *)
(*   nsub  continuations whose attachment has begun; nret: ... has returned    *)
(*   nfire continuations that have been invoked                                *)
(*   cons  "open" | "got" | "dropping" | "gone"                                *)
(*   pend  what the consumer is blocked in: "" | "get" | "wait"                *)
(*                                                                             *)
(* Succ operators are shared by the exhaustive model below (MCSpec) and by the *)
(* trace specification (HandoffTrace).                                         *)
EXTENDS Naturals, Sequences, FiniteSets

Init0 == [set |-> 0, val |-> 0, pub |-> FALSE, conn |-> 0, pub2 |-> FALSE,
          nsub |-> 0, nret |-> 0, nfire |-> 0, cons |-> "open", pend |-> ""]

\* the result can be read where the consumer looks
Visible2(s) == IF s.conn = 0 THEN s.pub ELSE s.pub2

Internal(s) ==
  (IF s.set = 1 /\ ~s.pub THEN {[s EXCEPT !.pub = TRUE]} ELSE {})
  \cup
  (IF s.conn # 0 /\ s.pub /\ ~s.pub2 THEN {[s EXCEPT !.pub2 = TRUE]} ELSE {})

\* Ready() may be false only while some completing call is still running
MayBeUnready(s) == IF s.conn = 0 THEN ~s.pub ELSE ~s.pub2

If(c, s) == IF c THEN {s} ELSE {}

ESet(s, v)   == If(s.set = 0, [s EXCEPT !.set = 1, !.val = v])
ESetR(s)     == If(s.set = 1 /\ s.pub /\ (s.conn = 2 => s.pub2), [s EXCEPT !.set = 2])
ESub(s, k)   == If(s.cons = "open" /\ s.pend = "" /\ k = s.nsub + 1, [s EXCEPT !.nsub = k])
ESubR(s, k)  == If(k = s.nsub /\ s.nret = k - 1, [s EXCEPT !.nret = k])
\* continuation k runs: once, in order, after the result exists, with exactly that result
ECb(s, k, c) == If(k = s.nfire + 1 /\ k <= s.nsub /\ Visible2(s) /\ c = s.val
                   /\ s.cons # "gone",
                   [s EXCEPT !.nfire = k])
EGet(s)      == If(s.cons = "open" /\ s.pend = "", [s EXCEPT !.pend = "get"])
EGetR(s, c)  == If(s.pend = "get" /\ Visible2(s) /\ s.nfire = s.nsub /\ c = s.val,
                   [s EXCEPT !.pend = "", !.cons = "got"])
EWait(s)     == If(s.cons = "open" /\ s.pend = "", [s EXCEPT !.pend = "wait"])
EWaitR(s)    == If(s.pend = "wait" /\ Visible2(s), [s EXCEPT !.pend = ""])
\* Ready() = TRUE only once the result can be read, and it must be TRUE once everything has returned
ERdy(s, b)   == IF b = 1 THEN If(Visible2(s) /\ s.nfire = s.nsub, s)
                         ELSE If(MayBeUnready(s) \/ s.nfire < s.nsub, s)
EPeek(s, c)  == IF c = 0 - 1 THEN If(MayBeUnready(s), s) ELSE If(Visible2(s) /\ c = s.val, s)
EDrop(s)     == If(s.cons = "open", [s EXCEPT !.cons = "dropping"])
EDropR(s)    == If(s.cons = "dropping", [s EXCEPT !.cons = "gone"])
EConn(s)     == If(s.conn = 0, [s EXCEPT !.conn = 1])
EConnR(s)    == If(s.conn = 1 /\ (s.set = 2 => s.pub2), [s EXCEPT !.conn = 2])
\* quiescence: nothing stuck, nothing lost, nothing run for a dropped future
EEnd(s, stuck, race, bad) ==
  If(stuck = 0 /\ race = 0 /\ bad = 0 /\ s.set = 2 /\ s.pub /\ s.pend = ""
     /\ s.nfire = s.nsub /\ s.nret = s.nsub /\ s.cons # "dropping", s)

Visible(s, e) ==
  CASE e.e = "cfg"   -> {Init0}
    [] e.e = "set"   -> ESet(s, e.a[1])
    [] e.e = "setr"  -> ESetR(s)
    [] e.e = "sub"   -> ESub(s, e.a[1])
    [] e.e = "subr"  -> ESubR(s, e.a[1])
    [] e.e = "cb"    -> ECb(s, e.a[1], e.a[2])
    [] e.e = "get"   -> EGet(s)
    [] e.e = "getr"  -> EGetR(s, e.a[1])
    [] e.e = "wait"  -> EWait(s)
    [] e.e = "waitr" -> EWaitR(s)
    [] e.e = "rdy"   -> ERdy(s, e.a[1])
    [] e.e = "peek"  -> EPeek(s, e.a[1])
    [] e.e = "drop"  -> EDrop(s)
    [] e.e = "dropr" -> EDropR(s)
    [] e.e = "conn"  -> EConn(s)
    [] e.e = "connr" -> EConnR(s)
    [] e.e = "end"   -> EEnd(s, e.a[1], e.a[5], e.a[4] + e.a[6])
    [] OTHER         -> {}

RECURSIVE Close(_, _)
Close(S, F) == IF F = {} THEN S ELSE LET G == (UNION {Internal(s) : s \in F}) \ S IN Close(S \cup G, G)
Closure(S) == Close(S, S)
\* all states the contract allows after the client observed event e
StepSet(S, e) == UNION {Visible(s, e) : s \in Closure(S)}
=============================================================================
