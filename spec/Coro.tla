-------------------------------- MODULE Coro ---------------------------------
(* C13.  The contract of coroutines.                                          *)
(*                                                                            *)
(*   in[i]  something awaited which is not a coroutine: st 0 pending, 1 being *)
(*          completed (with val), 2 published; x its executor; tk "no" for a  *)
(*          promise, else the state of a function task "idle" "ran" "drop"    *)
(*   co[c]  coroutine: st "new" (a Task that is not started), "ready" (body   *)
(*          to be entered), "run", "wait" (in co_await), "ret" (returned or   *)
(*          threw, or was refused by an executor), "pub" (result published);  *)
(*          own: its executor (0 inline); aw: what it waits for;              *)
(*          loc: its local object 0 not yet, 1 alive, 2 destroyed             *)
(* Kinds of co_await: 0 inline, 1 inline, takes the result, 2 sticky,         *)
(* 3 resumed on executor x (after the awaited, if any), 4 yield               *)
(* Executor 3 is stopped.                                                     *)
EXTENDS Integers, Sequences, FiniteSets

Init0 == [in |-> <<>>, co |-> <<>>]
If(c, s) == IF c THEN {s} ELSE {}
Range(f) == {f[x] : x \in DOMAIN f}
Has(f, x) == x \in DOMAIN f
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Stop == 1000
\* what co_await throws for the result c: the exception itself; StopError as ResultError
Eat(c) == IF c = Stop THEN 2900 ELSE c
NoAw == [k |-> 0, x |-> 0, w |-> 0, t |-> 0, ins |-> {}]

Pub(s, i)  == IF Has(s.co, i) THEN s.co[i].st = "pub" ELSE Has(s.in, i) /\ s.in[i].st = 2
Val(s, i)  == IF Has(s.co, i) THEN s.co[i].val ELSE s.in[i].val
ExeOf(s, i) == IF Has(s.co, i) THEN s.co[i].own ELSE s.in[i].x
Met(s, c)  == s.co[c].st = "wait" /\ \A i \in s.co[c].aw.ins : Pub(s, i)
Awaited(s, i) == \E c \in DOMAIN s.co : s.co[c].st = "wait" /\ i \in s.co[c].aw.ins

Internal(s) ==
  {[s EXCEPT !.in[i].st = 2] : i \in {j \in DOMAIN s.in : s.in[j].st = 1}}
  \cup {[s EXCEPT !.co[c].st = "pub"] : c \in {d \in DOMAIN s.co : s.co[d].st = "ret" /\ (s.co[d].drop \/ s.co[d].loc = 2)}}

EIn(s, i, x, k)  == If(~Has(s.in, i), [s EXCEPT !.in = Put(s.in, i, [st |-> 0, x |-> x, val |-> 0, tk |-> k])])
ESet(s, i, v)    == If(Has(s.in, i) /\ s.in[i].st = 0 /\ s.in[i].tk = "no", [s EXCEPT !.in[i].st = 1, !.in[i].val = v])
\* a function task runs once, after it has been awaited, where it was told
EFn(s, i, w, v)  == If(Has(s.in, i) /\ s.in[i].tk = "idle" /\ Awaited(s, i) /\ w = s.in[i].x,
                       [s EXCEPT !.in[i].st = 1, !.in[i].val = v, !.in[i].tk = "ran"])
EBorn(s, c, k)   == If(~Has(s.co, c), [s EXCEPT !.co = Put(s.co, c,
                       [st |-> IF k = 0 THEN "ready" ELSE "new", own |-> 0, sx |-> 0, par |-> 0, aw |-> NoAw, val |-> 0,
                        drop |-> FALSE, loc |-> 0, gone |-> FALSE, seen |-> {}])])
EStart(s, c, x)  ==
  IF ~(Has(s.co, c) /\ s.co[c].st = "new") THEN {}
  ELSE IF x >= 1000   \* by the coroutine x - 1000
  THEN {[s EXCEPT !.co[c].st = "ready", !.co[c].par = x - 1000, !.co[c].own = o] : o \in {0, s.co[x - 1000].own}}
  ELSE LET y == IF x < 0 THEN 0 ELSE x IN {[s EXCEPT !.co[c].st = "ready", !.co[c].sx = y, !.co[c].own = y]}
ECancel(s, c)    == If(Has(s.co, c) /\ s.co[c].st = "new",
                       [s EXCEPT !.co[c].st = "ret", !.co[c].drop = TRUE, !.co[c].val = Stop])
EBody(s, c, w)   == If(Has(s.co, c) /\ s.co[c].st = "ready" /\ (s.co[c].sx # 0 => w = s.co[c].sx)
                       /\ (s.co[c].par # 0 => Awaited(s, c)),
                       [s EXCEPT !.co[c].st = "run", !.co[c].loc = 1])
EAw(s, c, a, t)  == If(Has(s.co, c) /\ s.co[c].st = "run",
                       [s EXCEPT !.co[c].st = "wait",
                                 !.co[c].aw = [k |-> a[2], x |-> a[3], w |-> a[4], t |-> t,
                                               ins |-> {a[j] : j \in 5..Len(a)}]])
Owns(s, c) == LET o == s.co[c].own
                  a == s.co[c].aw
              IN CASE a.k \in {0, 1} -> {o} \cup {ExeOf(s, i) : i \in a.ins}
                   [] a.k = 3        -> {a.x}
                   [] OTHER          -> {o}
ERes(s, c, w, v, t) ==
  IF ~(Has(s.co, c) /\ Met(s, c)) THEN {}
  ELSE LET a == s.co[c].aw
           o == s.co[c].own
       IN IF /\ IF a.k = 1 THEN \A i \in a.ins : v = Eat(Val(s, i)) ELSE v = -1
             /\ CASE a.k = 2 -> w = o \/ o = 0 \/ (t = a.t /\ w = a.w)
                  [] a.k = 3 -> w = a.x
                  [] a.k = 4 -> IF o = 0 THEN t = a.t /\ w = a.w ELSE w = o
                  [] OTHER   -> TRUE
          THEN {[s EXCEPT !.co[c].st = "run", !.co[c].own = y, !.co[c].aw = NoAw] : y \in Owns(s, c)}
          ELSE {}
ECur(s, c, x)    == If(Has(s.co, c) /\ s.co[c].st = "run" /\ s.co[c].own = x, s)
EAfter(s, c, i, valid, rdy, v) == If(valid = 1 /\ rdy = 1 /\ Pub(s, i) /\ v = Val(s, i), s)
ERet(s, c, v)    == If(Has(s.co, c) /\ s.co[c].st = "run", [s EXCEPT !.co[c].st = "ret", !.co[c].val = v])
ELoc(s, c)       == If(Has(s.co, c) /\ s.co[c].loc = 1
                       /\ (IF s.co[c].drop THEN s.co[c].st = "pub" ELSE s.co[c].st = "ret"),
                       [s EXCEPT !.co[c].loc = 2])
EOut(s, c, k, v) == If(Has(s.co, c) /\ s.co[c].st = "pub" /\ v = s.co[c].val /\ k \notin s.co[c].seen,
                       [s EXCEPT !.co[c].seen = @ \cup {k}])
EGone(s, c)      == If(Has(s.co, c) /\ s.co[c].st = "pub" /\ ~s.co[c].gone /\ s.co[c].loc # 1, [s EXCEPT !.co[c].gone = TRUE])
\* executor x refuses the job of somebody who has to be resumed (or started) there: it is completed with StopError
Refuse(s, c, o) == [s EXCEPT !.co[c].own = o, !.co[c].st = "ret", !.co[c].drop = TRUE, !.co[c].val = Stop]
ERefuse(s, x) ==
  UNION {{Refuse(s, c, o) : o \in {x, s.co[c].own}} :
           c \in {d \in DOMAIN s.co : Met(s, d) /\ LET a == s.co[d].aw
                                                  IN IF a.k = 3 THEN a.x = x ELSE a.k \in {2, 4} /\ s.co[d].own = x}}
  \cup {Refuse(s, c, x) : c \in {d \in DOMAIN s.co : s.co[d].st = "ready" /\ s.co[d].sx = x /\ x # 0}}
  \cup {[s EXCEPT !.in[i].st = 1, !.in[i].val = Stop, !.in[i].tk = "drop"] :
          i \in {j \in DOMAIN s.in : s.in[j].tk = "idle" /\ s.in[j].x = x /\ Awaited(s, j)}}
EEnd(s, a) ==
  If(/\ a[1] + a[2] + a[3] + a[4] + a[5] + a[6] = 0
     /\ \A c \in DOMAIN s.co : /\ s.co[c].st = "pub" /\ s.co[c].loc # 1
                               /\ c < 50 => s.co[c].gone /\ 0 \in s.co[c].seen, s)

Visible(s, e) ==
  CASE e.e = "cfg"    -> {Init0}
    [] e.e = "in"     -> EIn(s, e.a[1], e.a[2], "no")
    [] e.e = "task"   -> EIn(s, e.a[1], e.a[2], "idle")
    [] e.e = "set"    -> ESet(s, e.a[1], e.a[2])
    [] e.e = "fn"     -> EFn(s, e.a[1], e.a[2], e.a[3])
    [] e.e = "born"   -> EBorn(s, e.a[1], e.a[2])
    [] e.e = "start"  -> EStart(s, e.a[1], e.a[2])
    [] e.e = "cancel" -> ECancel(s, e.a[1])
    [] e.e = "body"   -> EBody(s, e.a[1], e.a[2])
    [] e.e = "aw"     -> EAw(s, e.a[1], e.a, e.t)
    [] e.e = "res"    -> ERes(s, e.a[1], e.a[2], e.a[3], e.t)
    [] e.e = "cur"    -> ECur(s, e.a[1], e.a[2])
    [] e.e = "after"  -> EAfter(s, e.a[1], e.a[2], e.a[3], e.a[4], e.a[5])
    [] e.e = "ret"    -> ERet(s, e.a[1], e.a[2])
    [] e.e = "loc"    -> ELoc(s, e.a[1])
    [] e.e = "out"    -> EOut(s, e.a[1], e.a[2], e.a[3])
    [] e.e = "gone"   -> EGone(s, e.a[1])
    [] e.e = "nobody" -> {[s EXCEPT !.co[e.a[1]].seen = {0}]}
    [] e.e = "refuse" -> ERefuse(s, e.a[1])
    [] e.e = "refused" -> {s}
    [] e.e = "end"    -> EEnd(s, e.a)
    [] OTHER          -> {}

RECURSIVE Close(_, _)
Close(S, F) == IF F = {} THEN S ELSE LET G == (UNION {Internal(s) : s \in F}) \ S IN Close(S \cup G, G)
Closure(S) == Close(S, S)
StepSet(S, e) == UNION {Visible(s, e) : s \in Closure(S)}
=============================================================================
