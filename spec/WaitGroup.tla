------------------------------ MODULE WaitGroup -------------------------------
(* C16.  The contract of WaitGroup and OneShotEvent.                          *)
(*                                                                            *)
(* The count is a set of items.  Per item: inc and dec are 0 (not yet),       *)
(* 1 (inside the call that does it), 2 (counted).  An attached or consumed    *)
(* future is an item whose dec becomes possible when it is both attached      *)
(* (att) and being completed (set); the call in which it happens is the       *)
(* later of the two.                                                          *)
(*   zero    the count has reached zero (since the last Reset)                *)
(*   wt[w]   waiters: kind, st "in" | "rel" released | "fin" coroutine over | *)
(*           "out" gave up after its deadline                                 *)
(* Kinds: 0 blocking, 1 timed, 2 coroutine/job resumed anywhere, 3 coroutine  *)
(* that must be resumed on executor x, 4 the same, but x is stopped           *)
EXTENDS Naturals, Sequences, FiniteSets

I0 == [inc |-> 0, dec |-> 0, att |-> 0, set |-> 0, val |-> 0, pub |-> FALSE, fut |-> FALSE]
Init0 == [it |-> <<>>, zero |-> FALSE, wt |-> <<>>]
If(c, s) == IF c THEN {s} ELSE {}
Range(f) == {f[x] : x \in DOMAIN f}
Has(f, x) == x \in DOMAIN f
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]

Zero(it) == \A i \in DOMAIN it : it[i].inc = 2 => it[i].dec = 2
Apply(s, it) == [s EXCEPT !.it = it, !.zero = @ \/ Zero(it)]
Internal(s) ==
  {[s EXCEPT !.it[i].inc = 2] : i \in {j \in DOMAIN s.it : s.it[j].inc = 1}}
  \cup {Apply(s, [s.it EXCEPT ![i].dec = 2]) :
          i \in {j \in DOMAIN s.it : /\ s.it[j].inc = 2 /\ s.it[j].dec < 2
                                     /\ IF s.it[j].fut THEN s.it[j].att > 0 /\ s.it[j].pub ELSE s.it[j].dec = 1}}
  \cup {[s EXCEPT !.it[i].pub = TRUE] : i \in {j \in DOMAIN s.it : s.it[j].set > 0 /\ ~s.it[j].pub}}

Get(s, i) == IF Has(s.it, i) THEN s.it[i] ELSE I0
Upd(s, i, r) == [s EXCEPT !.it = Put(s.it, i, r)]
\* Add / Done of one item
EAdd(s, i) == LET r == Get(s, i) IN If(r.inc = 0, Upd(s, i, [r EXCEPT !.inc = 1]))
EAddR(s, i) == If(Get(s, i).inc = 2, s)
EDone(s, i) == LET r == Get(s, i) IN If(r.inc > 0 /\ r.dec = 0 /\ ~r.fut, Upd(s, i, [r EXCEPT !.dec = 1]))
EDoneR(s, i) == If(Get(s, i).dec = 2, s)
\* a future item
EFut(s, i) == If(~Has(s.it, i), Upd(s, i, [I0 EXCEPT !.fut = TRUE]))
EAtt(s, i) == LET r == Get(s, i) IN If(r.fut /\ r.att = 0, Upd(s, i, [r EXCEPT !.att = 1]))
EAttR(s, i) == LET r == Get(s, i) IN If(r.att = 1 /\ r.inc = 2 /\ (r.set = 2 => r.dec = 2), Upd(s, i, [r EXCEPT !.att = 2]))
ESet(s, i, c) == LET r == Get(s, i) IN If(r.fut /\ r.set = 0, Upd(s, i, [r EXCEPT !.set = 1, !.val = c]))
ESetR(s, i) == LET r == Get(s, i) IN If(r.set = 1 /\ r.pub /\ (r.att = 2 => r.dec = 2), Upd(s, i, [r EXCEPT !.set = 2]))
ERdy(s, i, b) == If(IF b = 1 THEN Get(s, i).pub ELSE ~Get(s, i).pub, s)
ETouch(s, i, c) == If(Get(s, i).pub /\ c = Get(s, i).val, s)
\* waiters
EWait(s, w, k, x) == If(~Has(s.wt, w), [s EXCEPT !.wt = Put(s.wt, w, [k |-> k, x |-> x, st |-> "in"])])
EWaitR(s, w, ok, late) ==
  If(Has(s.wt, w) /\ s.wt[w].st = "in" /\ s.wt[w].k \in {0, 1}
     /\ IF ok = 1 THEN s.zero ELSE s.wt[w].k = 1 /\ late = 1,
     [s EXCEPT !.wt[w].st = IF ok = 1 THEN "fin" ELSE "out"])
ERel(s, w, x) == If(Has(s.wt, w) /\ s.wt[w].st = "in" /\ s.wt[w].k \in {2, 3} /\ s.zero
                    /\ (s.wt[w].k = 3 => x = s.wt[w].x), [s EXCEPT !.wt[w].st = "rel"])
\* the coroutine of waiter w is over: with its own result, or with StopError when its executor refused it
EFin(s, w, c) == If(Has(s.wt, w) /\ s.zero
                    /\ IF c = 5 THEN s.wt[w].st = "rel" ELSE c = 1000 /\ s.wt[w].st = "in" /\ s.wt[w].k = 4,
                    [s EXCEPT !.wt[w].st = "fin"])
\* OneShotEvent: TryAdd of a job; b = 0: refused, never called
ETryR(s, w, b) == IF b = 1 THEN If(Has(s.wt, w), s)
                  ELSE If(Has(s.wt, w) /\ s.wt[w].st = "in" /\ s.zero, [s EXCEPT !.wt[w].st = "fin"])
EEv(s, b) == If(IF b = 1 THEN s.zero ELSE ~s.zero, s)
\* Reset: everybody has gone
EReset(s) == If(s.zero /\ (\A w \in DOMAIN s.wt : s.wt[w].st # "in"),
                [s EXCEPT !.zero = FALSE, !.it = [i \in DOMAIN s.it |-> [s.it[i] EXCEPT !.inc = 2, !.dec = 2]]])
EEnd(s, a) ==
  If(/\ a[1] + a[2] + a[3] + a[4] + a[5] + a[6] = 0
     /\ s.zero /\ (\A i \in DOMAIN s.it : s.it[i].inc = 2 /\ s.it[i].dec = 2)
     /\ \A w \in DOMAIN s.wt : s.wt[w].st \in {"fin", "out", "rel"}, s)

Visible(s, e) ==
  CASE e.e = "cfg"   -> {Init0}
    [] e.e = "add"   -> EAdd(s, e.a[1])
    [] e.e = "addr"  -> EAddR(s, e.a[1])
    [] e.e = "done"  -> EDone(s, e.a[1])
    [] e.e = "doner" -> EDoneR(s, e.a[1])
    [] e.e = "fut"   -> EFut(s, e.a[1])
    [] e.e = "att"   -> EAtt(s, e.a[1])
    [] e.e = "attr"  -> EAttR(s, e.a[1])
    [] e.e = "set"   -> ESet(s, e.a[1], e.a[2])
    [] e.e = "setr"  -> ESetR(s, e.a[1])
    [] e.e = "rdy"   -> ERdy(s, e.a[1], e.a[2])
    [] e.e = "touch" -> ETouch(s, e.a[1], e.a[2])
    [] e.e = "wait"  -> EWait(s, e.a[1], e.a[2], e.a[3])
    [] e.e = "waitr" -> EWaitR(s, e.a[1], e.a[2], e.a[3])
    [] e.e = "rel"   -> ERel(s, e.a[1], e.a[2])
    [] e.e = "fin"   -> EFin(s, e.a[1], e.a[2])
    [] e.e = "tryr"  -> ETryR(s, e.a[1], e.a[2])
    [] e.e = "ev"    -> EEv(s, e.a[1])
    [] e.e = "reset" -> EReset(s)
    [] e.e = "end"   -> EEnd(s, e.a)
    [] e.e \in {"refuse", "refused"} -> {s}
    [] OTHER         -> {}

RECURSIVE Close(_, _)
Close(S, F) == IF F = {} THEN S ELSE LET G == (UNION {Internal(s) : s \in F}) \ S IN Close(S \cup G, G)
Closure(S) == Close(S, S)
StepSet(S, e) == UNION {Visible(s, e) : s \in Closure(S)}
=============================================================================
