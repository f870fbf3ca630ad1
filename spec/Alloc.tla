------------------------------- MODULE Alloc --------------------------------
(* C20.  How many heap blocks the calls of the API may allocate.               *)
(*   al   <<n, m>>  one call which makes m pipeline steps allocated n blocks   *)
(*   alx  <<n>>     executing, waiting and awaiting allocated n blocks         *)
(*   zero <<k, n>>  k: 0 Wait, 1 WaitFor, 2 WaitUntil, 3 Get, 4 co_await of    *)
(*                  futures, 5 submission of a job, 6 execution of jobs        *)
(*   comb <<k, n>>  a combinator over k inputs: n blocks from its call until   *)
(*                  its Result has been taken.  base: the most that any k <=   *)
(*                  small needed (the log has them first; cfg <<small>>).      *)
EXTENDS Naturals, Sequences, FiniteSets
Init0 == [base |-> 0, small |-> 0]
If(c, s) == IF c THEN {s} ELSE {}
Max(a, b) == IF a > b THEN a ELSE b
Internal(s) == {}
Visible(s, e) ==
  CASE e.e = "cfg"  -> {[s EXCEPT !.small = e.a[1]]}
    [] e.e = "al"   -> If(e.a[1] <= e.a[2], s)
    [] e.e = "alx"  -> If(e.a[1] <= 0, s)
    [] e.e = "zero" -> If(e.a[2] = 0, s)
    [] e.e = "comb" -> IF e.a[1] <= s.small THEN {[s EXCEPT !.base = Max(@, e.a[2])]} ELSE If(e.a[2] <= s.base, s)
    [] e.e = "crash" -> {}
    [] OTHER        -> {s}
RECURSIVE Close(_, _)
Close(S, F) == IF F = {} THEN S ELSE LET G == (UNION {Internal(s) : s \in F}) \ S IN Close(S \cup G, G)
Closure(S) == Close(S, S)
StepSet(S, e) == UNION {Visible(s, e) : s \in Closure(S)}
=============================================================================
