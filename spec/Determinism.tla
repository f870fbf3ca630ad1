----------------------------- MODULE Determinism -----------------------------
(* C17.  A run under the FIBER backend is a function of its label: (program,   *)
(* seed, fault configuration).  This is a property of pairs of runs, so the    *)
(* specification is the composition of the machine with itself: R runs with    *)
(* the same label advance in lockstep and must show the same observations.     *)
(*                                                                             *)
(* An observation is four numbers (kind, fiber, two values): a number drawn    *)
(* and the random count, a resumed fiber with the virtual time and the         *)
(* injector state, an event of the client with the virtual time, the final     *)
(* counters.  Fibers are named in the order in which they appear, times count  *)
(* from the beginning of the phase.                                            *)
(*   begin runs part      part 1: from the seed; part 2: what follows the      *)
(*                        recorded point, including the runs which were        *)
(*                        restored from the recorded pair                      *)
(*   step  obs..          the next observations of each of the runs            *)
(*   pair  (count, state) pairs recorded by each of the runs                   *)
(*   stop  how each of the runs ended (0: normally), no. of observations       *)
EXTENDS Naturals, Sequences, FiniteSets

Init0 == [r |-> 0, st |-> "idle", n |-> 0]
If(c, s) == IF c THEN {s} ELSE {}
\* slice k of n equal parts
Part(a, k, n) == LET w == Len(a) \div n IN SubSeq(a, w * (k - 1) + 1, w * k)
Same(a, n) == Len(a) % n = 0 /\ \A k \in 2..n : Part(a, k, n) = Part(a, 1, n)

Visible(s, e) ==
  CASE e.e = "begin" -> If(s.st = "idle", [s EXCEPT !.r = e.a[1], !.st = "run"])
    [] e.e = "step"  -> If(s.st = "run" /\ Same(e.a, s.r), [s EXCEPT !.n = @ + 1])
    [] e.e = "pair"  -> If(s.st = "run" /\ Same(e.a, s.r), s)
    [] e.e = "stop"  -> If(s.st = "run" /\ Same(e.a, s.r), [s EXCEPT !.st = "done"])
    [] OTHER -> {}
StepSet(S, e) == UNION {Visible(s, e) : s \in S}
=============================================================================
