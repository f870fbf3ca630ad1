-------------------------------- MODULE Graph --------------------------------
(* Graphs of asynchronous operations over one another's results: what each     *)
(* node may see and what its result may be. Every node computes at most once;  *)
(* all users of a shared result see the same one.                              *)
(*   nd    node -> [op, a, b, v]: 0 contract (a: outcome), 1 step, 2 step which*)
(*         returns the future b, 3 Share/Split, 4 WhenAll, 5 WhenAny, 6 Join,  *)
(*         7 coroutine, 8 Connect, 9 WhenAll<None>, 10 step returning a Task   *)
(*   src   contracts being fulfilled or fulfilled                              *)
(*   run   nodes whose callback has run;  out  results of combining callbacks  *)
(*   seen  results somebody has seen                                           *)
EXTENDS Naturals, Sequences, FiniteSets
Stop == 1000
Exc == 2000
NotOk == 2900  \* the exception co_await makes of a StopError
Err == 4000    \* the client's own error of contract k: Err + k, as an exception Exc + Err + k
IsErr(x) == x = Stop \/ (x >= Err /\ x < Exc + Err)
Init0 == [nd |-> <<>>, src |-> {}, run |-> {}, out |-> <<>>, seen |-> <<>>, got |-> {}]
If(c, s) == IF c THEN {s} ELSE {}
Set(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Ok(x) == x < Stop
Oks(X) == {x \in X : Ok(x)}
Fails(X) == {x \in X : ~Ok(x)}
Raised(x) == IF x = Stop THEN NotOk ELSE IF IsErr(x) THEN Exc + x ELSE x
\* the kinds of result the callback of a step is called with
Match(shape, x) == CASE shape = 0 -> Ok(x) [] shape = 1 -> TRUE [] shape = 2 -> IsErr(x) [] OTHER -> ~Ok(x) /\ ~IsErr(x)
Executor(n) == CASE n.op = 2 -> n.v [] OTHER -> n.b
RECURSIVE Poss(_, _)
In(s, n) == LET X == Poss(s, n.a) IN IF Executor(n) = 2 /\ X # {} THEN {Stop} ELSE X
Any(A, B, v) == IF v % 3 = 0 THEN A \cup B
                ELSE Oks(A) \cup Oks(B) \cup (IF Fails(A) # {} /\ Fails(B) # {} THEN Fails(A) \cup Fails(B) ELSE {})
\* the results node k may have by now ({}: it cannot have any)
Poss(s, k) ==
  IF k \in DOMAIN s.seen THEN {s.seen[k]}
  ELSE LET n == s.nd[k] IN
    CASE n.op = 0 -> IF k \notin s.src THEN {}
                     ELSE {CASE n.a = 0 -> k [] n.a = 2 -> Exc + k [] n.a = 4 -> Err + k [] OTHER -> Stop}
      [] n.op = 1 -> UNION {IF Match(n.v % 4, x) THEN (IF k \in s.run THEN {IF n.v >= 4 THEN Exc + 100 + k ELSE 100 + k} ELSE {})
                            ELSE {x} : x \in In(s, n)}
      [] n.op = 2 -> IF k \in s.run THEN Poss(s, n.b) ELSE {}
      [] n.op \in {3, 8} -> Poss(s, n.a)
      [] n.op = 5 -> Any(Poss(s, n.a), Poss(s, n.b), n.v)
      [] n.op = 10 -> IF k \in s.run THEN {IF n.v = 2 THEN Stop ELSE k} ELSE {}
      [] n.op = 7 /\ n.v = 2 /\ k \notin s.run ->
           {Raised(x) : x \in Fails(Poss(s, n.a)) \cup (IF Oks(Poss(s, n.a)) # {} THEN Fails(Poss(s, n.b)) ELSE {})}
      [] OTHER -> IF k \in DOMAIN s.out THEN {s.out[k]} ELSE {}
See(s, k, x) == [s EXCEPT !.seen = Set(@, k, x)]
See2(s, n, x, y) == See(See(s, n.a, x), n.b, y)
Combined(s, k, n, x, y) ==
  CASE n.op = 7 /\ n.v # 2 -> IF ~Ok(x) THEN x ELSE IF ~Ok(y) THEN y ELSE 100 + k
    [] OTHER -> 100 + k
Ran(s, k, n, where, code, x, y) ==
  CASE n.op \in {1, 2, 10} ->
         If(/\ code \in In(s, n) /\ x = 0 /\ y = 0
            /\ n.op = 1 => Match(n.v % 4, code)
            /\ Executor(n) = 1 => where = 1,
            IF Executor(n) = 2 THEN s ELSE See(s, n.a, code))
    [] n.op \in {4, 6} /\ ~Ok(code) ->
         If((n.op = 4 \/ n.v = 1) /\ x = 0 /\ y = 0 /\ code \in Fails(Poss(s, n.a)) \cup Fails(Poss(s, n.b)),
            [s EXCEPT !.out = Set(@, k, code)])
    [] n.op = 6 ->
         If(/\ code = 0 /\ x = 0 /\ y = 0
            /\ \A X \in {Poss(s, n.a), Poss(s, n.b)} : X # {} /\ (n.v = 1 => Oks(X) # {}),
            [s EXCEPT !.out = Set(@, k, 100 + k)])
    [] n.op \in {4, 7, 9} ->
         If(/\ code = 0 /\ x \in Poss(s, n.a) /\ y \in Poss(s, n.b) /\ (n.a = n.b => x = y)
            /\ (n.op = 4 \/ (n.op = 7 /\ n.v = 2)) => Ok(x) /\ Ok(y),
            [See2(s, n, x, y) EXCEPT !.out = Set(@, k, Combined(s, k, n, x, y))])
    [] OTHER -> {}
\* nothing is left to happen to node k
Over(s, k) ==
  LET n == s.nd[k] IN
  CASE n.op = 0 -> k \in s.src
    [] n.op = 1 -> LET X == In(s, n) IN X # {} /\ (k \in s.run \/ \E x \in X : ~Match(n.v % 4, x))
    [] n.op = 7 /\ n.v = 2 -> k \in s.run \/ Poss(s, k) # {}
    [] n.op \in {3, 5, 8} -> Poss(s, k) # {}
    [] OTHER -> k \in s.run
Visible(s, e) ==
  CASE e.e = "nd" -> {[s EXCEPT !.nd = Set(@, e.a[1], [op |-> e.a[2], a |-> e.a[3], b |-> e.a[4], v |-> e.a[5]])]}
    [] e.e = "src" -> If(e.a[1] \notin s.src, [s EXCEPT !.src = @ \cup {e.a[1]}])
    [] e.e = "run" -> LET k == e.a[1] IN
         IF k \in s.run THEN {}
         ELSE {[t EXCEPT !.run = @ \cup {k}] : t \in Ran(s, k, s.nd[k], e.a[2], e.a[3], e.a[4], e.a[5])}
    [] e.e = "got" -> If(e.a[1] \notin s.got /\ e.a[2] \in Poss(s, e.a[1]),
                         [See(s, e.a[1], e.a[2]) EXCEPT !.got = @ \cup {e.a[1]}])
    [] e.e \in {"refuse", "refused"} -> {s}
    [] e.e = "quiet" -> If(\A k \in DOMAIN s.nd : Over(s, k), s)
    [] e.e = "end" -> If(\A i \in DOMAIN e.a : e.a[i] = 0, s)
    [] OTHER -> {}
StepSet(S, e) == UNION {Visible(s, e) : s \in S}
=============================================================================
