------------------------------ MODULE Pipeline ------------------------------
(* C02, C05, C12, C20.  The obvious sequential reading of a pipeline.          *)
(*                                                                             *)
(* A program is data.  The events src / st / fin describe it (before anything  *)
(* of it is built): program 0 is the pipeline of the client, programs 1, 2, .. *)
(* are the pipelines which callbacks build and return (they are flattened).    *)
(*   src  <<p, kind, b, ex, sig, ret, inner>>                                  *)
(*   st   <<p, id, att, ex, sig, ret, b, inner>>                               *)
(*   fin  <<kind, ex, sig>>                                                    *)
(* kind: 0 ready, 1 2 3 8 9 contracts, 4..7 Run, 10..13 AsyncContract,         *)
(*   14 15 coroutines, lazy: 20 MakeTask, 21 22 Schedule, 23 24 LazyContract,  *)
(*   25 coroutine.                                                             *)
(* att: 0 ThenInline, 1 Then(e), 2 Then inherited, 3 On(nullptr), 4 Share,     *)
(*   5 Share(e), 6 Split, 7 ToFuture, 8 ToFuture(e).                           *)
(* sig: 0 4 value, 1 5 Result, 2 error, 3 exception_ptr.                       *)
(* ret: 0 value, 1 Result, 2.. a Future / SharedFuture / Task (program inner). *)
(* b, what the body does: 0 value, 1 throws, 2 error, 3 exception, 4 its input.*)
(* Executors: 0 Inline, 1..5 instrumented (3 refuses everything, 5 a Strand),  *)
(*   6 FairThreadPool, 7 the stopped Inline.                                   *)
(*                                                                             *)
(* State: the interpreter of such a program.  stk: the frames of the programs  *)
(* in progress [p program, i item (0 the source), x inherited executor,        *)
(* g what the item waits for, w executor in which its body has to run (-1:     *)
(* any)]; cur: the Result flowing along the chain, as a code: value 10+id,     *)
(* error 1000 (StopError) or 4000+id, exception 2000+id.                       *)
EXTENDS Integers, Sequences, FiniteSets

Stop == 1000
AnyEx == 0 - 1
\* executor of a coroutine which has not named one (whatever started it)
Free == 0 - 2
Init0 == [pv |-> 0, chk |-> 0, src |-> <<>>, st |-> <<>>, fin |-> <<>>, stk |-> <<>>, cur |-> 0,
          on |-> 0, hx |-> AnyEx, stop |-> FALSE, ph |-> "desc"]

\* chk: 1 executors are checked, 4 releases are checked
Strict(s) == s.chk % 2 = 1

IsVal(c) == c < 1000
IsErr(c) == c = Stop \/ c >= 4000
IsExc(c) == c >= 2000 /\ c < 3000
Inv(sig, c) == CASE sig \in {0, 4} -> IsVal(c) [] sig \in {1, 5} -> TRUE [] sig = 2 -> IsErr(c) [] sig = 3 -> IsExc(c)

ValOf(s, id) == IF s.pv = 1 THEN 0 ELSE 10 + id
ErrOf(s, id) == IF s.pv = 2 THEN 4000 + id ELSE Stop
Out(s, b, id) == CASE b = 0 -> ValOf(s, id) [] b = 1 -> 2000 + id [] b = 2 -> ErrOf(s, id) [] b = 3 -> 2050 + id
                   [] OTHER -> s.cur
\* what a promise is set to (3: it is dropped)
SetOut(s, b, id) == CASE b \in {0, 11} -> ValOf(s, id) [] b = 1 -> 2000 + id [] b = 2 -> ErrOf(s, id) [] b = 3 -> Stop
                      [] OTHER -> 2050 + id

Lazy(k) == k >= 20
Frame(s, p, g) == [p |-> p, i |-> 0, x |-> 0, g |-> g, w |-> AnyEx]
Top(s) == s.stk[Len(s.stk)]
WithTop(s, f) == [s EXCEPT !.stk[Len(s.stk)] = f]
Src(s, f) == s.src[f.p + 1]
Steps(s, f) == s.st[f.p + 1]
FinFn(s) == s.fin[1] \in {3, 4, 5}
Last(s, f) == Len(Steps(s, f)) + (IF f.p = 0 /\ FinFn(s) THEN 1 ELSE 0)

\* item i of a frame, as a record: kind k
\*   "ready" | "set" | "fn" (a callback) | "prom" (function which is given the promise) | "coro" | "conv"
\* e: executor to be submitted to (AnyEx: none, the item runs where it is reached)
Item(s, f) ==
  LET sr == Src(s, f)
      id0 == 40 + f.p
      head(e) == IF Len(s.stk) = 1 /\ s.hx # AnyEx THEN s.hx ELSE e
      none == [k |-> "", id |-> 0, e |-> AnyEx, x |-> 0, sig |-> 0, ret |-> 0, b |-> 0, inner |-> 0]
  IN IF f.i = 0 THEN
       LET base == [none EXCEPT !.id = id0, !.b = sr[3], !.sig = sr[5], !.ret = sr[6], !.inner = sr[7]]
           k == sr[2]
       IN CASE k = 0 -> [base EXCEPT !.k = "ready"]
            [] k \in {1, 2, 3, 8, 9} -> [base EXCEPT !.k = "set", !.x = sr[4]]
            [] k \in {4, 5, 6, 7, 21, 22} -> [base EXCEPT !.k = "fn", !.e = head(sr[4]), !.x = head(sr[4])]
            [] k \in {10, 11, 12, 13, 23, 24} -> [base EXCEPT !.k = "prom", !.e = head(sr[4]), !.x = head(sr[4])]
            [] k = 20 -> [base EXCEPT !.k = "ready", !.e = head(AnyEx), !.x = head(0)]
            [] k \in {14, 15, 25} -> [base EXCEPT !.k = "coro", !.e = head(AnyEx), !.x = IF sr[4] # 0 THEN sr[4] ELSE head(Free)]
     ELSE IF f.i <= Len(Steps(s, f)) THEN
       LET t == Steps(s, f)[f.i]
           base == [none EXCEPT !.id = t[2], !.sig = t[5], !.ret = t[6], !.b = t[7], !.inner = t[8]]
       IN CASE t[3] = 0 -> [base EXCEPT !.k = "fn", !.x = f.x]
            [] t[3] = 1 -> [base EXCEPT !.k = "fn", !.e = t[4], !.x = t[4]]
            [] t[3] = 2 -> [base EXCEPT !.k = "fn", !.e = f.x, !.x = f.x]
            [] t[3] \in {3, 7, 8} -> [base EXCEPT !.k = "conv", !.x = f.x]
            [] t[3] = 5 -> [base EXCEPT !.k = "conv", !.x = t[4]]
            [] OTHER -> [base EXCEPT !.k = "conv"]
     ELSE
       LET base == [none EXCEPT !.id = 39, !.k = "fn", !.sig = s.fin[3]]
       IN CASE s.fin[1] = 3 -> base
            [] s.fin[1] = 4 -> [base EXCEPT !.e = s.fin[2]]
            [] OTHER -> [base EXCEPT !.e = f.x]

\* an executor which has not been named may be the stopped one: something which starts this is on it
MayBe7(s) ==
  s.hx = 7 \/ \E k \in 1..(Len(s.stk) - 1) :
                LET o == [s EXCEPT !.stk = SubSeq(s.stk, 1, k)]
                    i == Item(o, Top(o))
                IN 7 \in {i.e, i.x}

\* the current item is finished and its Result is c
Finish(s, c) ==
  LET f == Top(s)
  IN [WithTop(s, [f EXCEPT !.i = f.i + 1, !.x = Item(s, f).x, !.g = "new", !.w = AnyEx]) EXCEPT !.cur = c]

\* steps nobody observes
Internal(s) ==
  IF s.ph # "run" \/ s.stk = <<>> THEN {}
  ELSE
  LET f == Top(s)
  IN IF f.g = "new" /\ f.i > Last(s, f) THEN
       \* the program is finished
       IF Len(s.stk) = 1 THEN {[s EXCEPT !.stk = <<>>]}
       ELSE {Finish([s EXCEPT !.stk = SubSeq(s.stk, 1, Len(s.stk) - 1)], s.cur)}
     ELSE
     LET it == Item(s, f)
         go(w) == WithTop(s, [f EXCEPT !.g = "run", !.w = w])
         drop == [WithTop(s, [f EXCEPT !.g = "run", !.w = AnyEx]) EXCEPT !.cur = Stop]
         on == Src(s, f)[4]
     IN CASE f.g = "new" ->
               IF it.k \in {"conv"} THEN {Finish(s, s.cur)}
               ELSE LET s0 == IF f.i = 0 THEN [s EXCEPT !.cur = 0] ELSE s IN {WithTop(s0, [f EXCEPT !.g = "sub"])}
          [] f.g = "sub" ->
               (IF it.e \in {AnyEx, Free, 0} THEN {go(AnyEx)} ELSE {})
               \cup (IF it.e = 6 THEN {go(6)} ELSE {})
               \cup (IF it.e = 7 \/ (it.e \in {6, Free} /\ s.stop) \/ (it.e = Free /\ MayBe7(s)) THEN {drop} ELSE {})
               \cup (IF it.e \in 1..5 /\ ~Strict(s) THEN {go(AnyEx)} ELSE {})
          [] f.g = "run" ->
               CASE it.k = "ready" -> {Finish(s, IF IsVal(s.cur) THEN Out(s, it.b, it.id) ELSE s.cur)}
                 [] it.k = "fn" -> IF Inv(it.sig, s.cur) THEN {} ELSE {Finish(s, s.cur)}
                 [] it.k = "prom" -> IF IsVal(s.cur) THEN {} ELSE {Finish(s, s.cur)}
                 [] it.k = "coro" -> IF ~IsVal(s.cur) THEN {[Finish(s, s.cur) EXCEPT !.stk[Len(s.stk)].x = it.e]}
                                     ELSE IF on = 0 THEN {WithTop(s, [f EXCEPT !.g = "body"])}
                                     ELSE {WithTop(s, [f EXCEPT !.g = "on"])}
                 [] OTHER -> {}
          [] f.g = "on" ->
               (IF on = 6 THEN {WithTop(s, [f EXCEPT !.g = "body", !.w = 6])} ELSE {})
               \cup (IF on = 7 \/ (on = 6 /\ s.stop) THEN {Finish(s, Stop)} ELSE {})
               \cup (IF on \in 1..5 /\ ~Strict(s) THEN {WithTop(s, [f EXCEPT !.g = "body", !.w = AnyEx])} ELSE {})
          [] OTHER -> {}

Put(q, p, x) == [k \in 1..(IF p > Len(q) THEN p ELSE Len(q)) |-> IF k = p THEN x ELSE q[k]]
If(c, s) == IF c THEN {s} ELSE {}
Running(s) == s.ph = "run" /\ s.stk # <<>>

EFin(s, a) ==
  If(s.ph = "desc" /\ Len(s.src) > 0,
     [s EXCEPT !.fin = a, !.ph = "run",
               !.stk = <<Frame(s, 0, IF Lazy(s.src[1][2]) THEN "wait" ELSE "new")>>])
\* a Task is started (mode 1: abandoned, that is, its head is given to the stopped Inline executor)
EStart(s, mode, ex) ==
  If(Running(s) /\ Len(s.stk) = 1 /\ Top(s).g = "wait",
     [WithTop(s, [Top(s) EXCEPT !.g = "new"]) EXCEPT !.hx = IF mode = 1 THEN 7 ELSE ex])
\* the executor ex takes (refuses) the item which is due
EAccept(s, ex, yes) ==
  IF ~Running(s) THEN {}
  ELSE LET f == Top(s)
           it == Item(s, f)
           on == Src(s, f)[4]
           ok(e) == (e \in 1..5 \/ e = Free) /\ (~Strict(s) \/ e = ex \/ e = Free)
           w == IF ~Strict(s) THEN AnyEx ELSE ex
       IN CASE f.g = "sub" /\ ok(it.e) ->
                 IF yes THEN {WithTop(s, [f EXCEPT !.g = "run", !.w = w])}
                 ELSE {[WithTop(s, [f EXCEPT !.g = "run"]) EXCEPT !.cur = Stop]}
            [] f.g = "on" /\ ok(on) ->
                 IF yes THEN {WithTop(s, [f EXCEPT !.g = "body", !.w = w])} ELSE {Finish(s, Stop)}
            [] OTHER -> {}
\* the body of a callback begins: id, its input, the executor it runs in
ECb(s, id, c, where) ==
  IF ~Running(s) THEN {}
  ELSE
  LET f == Top(s)
      it == Item(s, f)
      here == it.id = id /\ (f.w = AnyEx \/ ~Strict(s) \/ f.w = where)
  IN CASE f.g = "run" /\ it.k = "fn" /\ here /\ Inv(it.sig, s.cur) /\ c = s.cur ->
            IF it.b = 1 THEN {Finish(s, 2000 + id)}
            ELSE IF it.ret \in {0, 1} THEN {Finish(s, Out(s, it.b, id))}
            ELSE LET lazy == Lazy(s.src[it.inner + 1][2])
                 IN {[WithTop(s, [f EXCEPT !.g = "inner"]) EXCEPT
                       !.stk = Append(@, Frame(s, it.inner, IF lazy THEN "wait" ELSE "new"))]}
       [] f.g = "run" /\ it.k = "prom" /\ here /\ IsVal(s.cur) ->
            IF it.b = 1 THEN {Finish(s, 2000 + id)}
            ELSE IF it.b \in {12, 13} THEN {Finish(s, Stop)}
            ELSE {WithTop(s, [f EXCEPT !.g = "set"])}
       [] f.g = "body" /\ here -> {Finish(s, Out(s, it.b, id))}
       [] OTHER -> {}
\* the Task which callback id returns has been built; it is started by being returned
EBuilt(s, id) ==
  IF ~Running(s) \/ Len(s.stk) < 2 THEN {}
  ELSE LET f == Top(s)
           o == s.stk[Len(s.stk) - 1]
       IN IF f.g # "wait" \/ Item([s EXCEPT !.stk = SubSeq(s.stk, 1, Len(s.stk) - 1)], o).id # id THEN {}
          ELSE {WithTop(s, [f EXCEPT !.g = "new"])}
\* the promise of the item is about to be set
ESet(s, id) ==
  IF ~Running(s) THEN {}
  ELSE LET f == Top(s)
           it == Item(s, f)
           b == IF it.b >= 20 THEN it.b - 20 ELSE it.b
       IN If(it.id = id /\ ((f.g = "run" /\ it.k = "set") \/ (f.g = "set" /\ it.k = "prom")),
             Finish(s, SetOut(s, b, id)))
\* the final Result
ERes(s, c) ==
  If(s.ph = "run" /\ s.stk = <<>> /\ s.fin[1] \in {0, 6, 7, 8, 9} /\ c = (IF s.fin[1] = 8 THEN 0 - 6 ELSE s.cur),
     [s EXCEPT !.ph = "res"])
\* the client knows that everything has been released
EQuiet(s) ==
  If(s.ph = "res" \/ (s.ph = "run" /\ s.stk = <<>> /\ s.fin[1] \notin {0, 6, 7, 8, 9}), [s EXCEPT !.ph = "quiet"])

Visible(s, e) ==
  CASE e.e = "cfg"   -> If(s = Init0, [s EXCEPT !.pv = e.a[1], !.chk = e.a[2]])
    [] e.e = "src"   -> If(s.ph = "desc" /\ e.a[1] = Len(s.src),
                           [s EXCEPT !.src = Append(@, e.a), !.st = Append(@, <<>>)])
    [] e.e = "st"    -> If(s.ph = "desc", [s EXCEPT !.st[e.a[1] + 1] = Append(@, e.a)])
    [] e.e = "fin"   -> EFin(s, e.a)
    [] e.e = "start" -> EStart(s, e.a[1], e.a[2])
    [] e.e = "stop"  -> {[s EXCEPT !.stop = TRUE]}
    [] e.e = "sub"   -> EAccept(s, e.a[1], TRUE)
    [] e.e = "ref"   -> EAccept(s, e.a[1], FALSE)
    [] e.e = "cb"    -> ECb(s, e.a[1], e.a[2], e.a[3])
    [] e.e = "built" -> EBuilt(s, e.a[1])
    [] e.e = "set"   -> ESet(s, e.a[1])
    [] e.e = "res"   -> ERes(s, e.a[1])
    \* C20: heap blocks allocated by one call of the API and the pipeline steps it makes
    [] e.e = "al"    -> If(e.a[1] <= e.a[2], s)
    \* .. and those allocated outside of any such call (executing, waiting, awaiting)
    [] e.e = "alx"   -> If(e.a[1] <= 0, s)
    [] e.e = "quiet" -> EQuiet(s)
    \* nobody is stuck; C12: every captured object has been destroyed, once
    [] e.e = "end"   -> If(s.ph = "quiet" /\ e.a[1] = 0 /\ (s.chk >= 4 => e.a[3] + e.a[6] = 0), s)
    [] OTHER         -> {}

RECURSIVE Close(_, _)
Close(S, F) == IF F = {} THEN S ELSE LET G == (UNION {Internal(s) : s \in F}) \ S IN Close(S \cup G, G)
Closure(S) == Close(S, S)
StepSet(S, e) == UNION {Visible(s, e) : s \in Closure(S)}
=============================================================================
