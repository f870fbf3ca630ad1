-------------------------------- MODULE Wait ---------------------------------
(* C11.  n futures, one waiter.  Per future i:                                *)
(*   set  0 / 1 being completed / 2 the completing call has returned          *)
(*   val  its result        pub  it can be read (internal step)               *)
(*   cons "open" | "get" (blocked in Get) | "sub" (continuation attached) |   *)
(*        "done" (delivered or given up)                                      *)
(* wait: number of futures the running Wait call lists (0: none), timed       *)
EXTENDS Naturals, Sequences, FiniteSets

F0 == [set |-> 0, val |-> 0, pub |-> FALSE, cons |-> "open"]
Init0 == [f |-> <<>>, wait |-> 0, kind |-> 0]

Internal(s) == {[s EXCEPT !.f[i].pub = TRUE] : i \in {j \in DOMAIN s.f : s.f[j].set = 1 /\ ~s.f[j].pub}}

If(c, s) == IF c THEN {s} ELSE {}
G(s, i) == s.f[i + 1]

ESet(s, i, v) == If(G(s, i).set = 0, [s EXCEPT !.f[i + 1].set = 1, !.f[i + 1].val = v])
ESetR(s, i)   == If(G(s, i).set = 1 /\ G(s, i).pub, [s EXCEPT !.f[i + 1].set = 2])
EWait(s, n, k) == If(s.wait = 0, [s EXCEPT !.wait = n, !.kind = k])
\* true only if every listed future is ready; false only for a timed wait whose deadline has passed
EWaitR(s, ok, late) ==
  If(s.wait > 0 /\ IF ok = 1 THEN \A i \in 1..s.wait : s.f[i].pub ELSE s.kind # 0 /\ late = 1,
     [s EXCEPT !.wait = 0])
ERdy(s, i, b) == IF b = 1 THEN If(G(s, i).pub, s) ELSE If(~G(s, i).pub, s)
ETouch(s, i, c) == If(G(s, i).pub /\ c = G(s, i).val, s)
EGet(s, i)    == If(G(s, i).cons = "open", [s EXCEPT !.f[i + 1].cons = "get"])
EGetR(s, i, c) == If(G(s, i).cons = "get" /\ G(s, i).pub /\ c = G(s, i).val, [s EXCEPT !.f[i + 1].cons = "done"])
ESub(s, i)    == If(G(s, i).cons = "open", [s EXCEPT !.f[i + 1].cons = "sub"])
ECb(s, i, c)  == If(G(s, i).cons = "sub" /\ G(s, i).pub /\ c = G(s, i).val, [s EXCEPT !.f[i + 1].cons = "done"])
EDrop(s, i)   == If(G(s, i).cons = "open", [s EXCEPT !.f[i + 1].cons = "done"])
EEnd(s, bad)  == If(bad = 0 /\ s.wait = 0
                    /\ \A i \in DOMAIN s.f : s.f[i].cons \in {"done"} /\ s.f[i].pub, s)

Visible(s, e) ==
  CASE e.e = "cfg"   -> {[Init0 EXCEPT !.f = [i \in 1..e.a[1] |-> F0]]}
    [] e.e = "set"   -> ESet(s, e.a[1], e.a[2])
    [] e.e = "setr"  -> ESetR(s, e.a[1])
    [] e.e = "wait"  -> EWait(s, e.a[1], e.a[2])
    [] e.e = "waitr" -> EWaitR(s, e.a[1], e.a[2])
    [] e.e = "rdy"   -> ERdy(s, e.a[1], e.a[2])
    [] e.e = "touch" -> ETouch(s, e.a[1], e.a[2])
    [] e.e = "get"   -> EGet(s, e.a[1])
    [] e.e = "getr"  -> EGetR(s, e.a[1], e.a[2])
    [] e.e = "sub"   -> ESub(s, e.a[1])
    [] e.e = "subr"  -> {s}
    [] e.e = "cb"    -> ECb(s, e.a[1], e.a[2])
    [] e.e = "drop"  -> EDrop(s, e.a[1])
    [] e.e = "end"   -> EEnd(s, e.a[1] + e.a[4] + e.a[5] + e.a[6])
    [] OTHER         -> {}

RECURSIVE Close(_, _)
Close(S, F) == IF F = {} THEN S ELSE LET New == (UNION {Internal(s) : s \in F}) \ S IN Close(S \cup New, New)
Closure(S) == Close(S, S)
StepSet(S, e) == UNION {Visible(s, e) : s \in Closure(S)}
=============================================================================
