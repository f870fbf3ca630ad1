-------------------------------- MODULE Jobs --------------------------------
(* C05.  Jobs handed to an executor are finished by exactly one of Call and    *)
(* Drop; Drop only when it refuses work because it is stopped; a job runs      *)
(* where the executor runs its jobs.                                           *)
(* kinds: 0 Inline, 1 stopped Inline, 2 Manual, 3 9 Strands over a client      *)
(* executor which may refuse, 4 Strand over Inline, 5 Strand over Manual,      *)
(* 6 7 FairThreadPool, 8 Strand over it, 10 Strand over the stopped Inline.    *)
(*   in    jobs whose submission has begun, out: jobs whose submission returned*)
(*   fin   finished jobs                                                       *)
(*   stop  a stopping call has begun; hard: one which drops what is queued     *)
(*   ref   threads inside of a refusal of the underlying executor              *)
EXTENDS Naturals, Sequences, FiniteSets
Init0 == [kind |-> 0, in |-> {}, out |-> {}, fin |-> {}, stop |-> FALSE, ref |-> {}, owner |-> {}]
If(c, s) == IF c THEN {s} ELSE {}
\* may job j, being submitted or queued, be dropped by thread t
MayDrop(s, t) == CASE s.kind \in {1, 10} -> TRUE
                   [] s.kind \in {3, 9} -> t \in s.ref
                   [] s.kind \in {6, 7, 8} -> s.stop
                   [] OTHER -> FALSE
\* place: 1 inside of Submit in the submitting thread, 2 in Drain, 3 in the underlying executor, 4 on a worker
Place(s, x) == CASE s.kind \in {0, 4} -> x = 1
                 [] s.kind \in {2, 5} -> x = 2
                 [] s.kind \in {3, 9} -> x = 3
                 [] s.kind \in {6, 7, 8} -> x = 4
                 [] OTHER -> FALSE
\* Inline: nothing is left when Submit returns
Sync(s) == s.kind \in {0, 1}
Internal(s) == {}
Visible(s, e) ==
  CASE e.e = "cfg"  -> {[Init0 EXCEPT !.kind = e.a[1]]}
    [] e.e = "in"   -> If(e.a[1] \notin s.in, [s EXCEPT !.in = @ \cup {e.a[1]}])
    [] e.e = "out"  -> If(e.a[1] \in s.in \ s.out /\ (Sync(s) => e.a[1] \in s.fin), [s EXCEPT !.out = @ \cup {e.a[1]}])
    [] e.e = "call" -> If(e.a[1] \in s.in \ s.fin /\ Place(s, e.a[2]), [s EXCEPT !.fin = @ \cup {e.a[1]}])
    [] e.e = "drop" -> If(e.a[1] \in s.in \ s.fin /\ MayDrop(s, e.t), [s EXCEPT !.fin = @ \cup {e.a[1]}])
    [] e.e = "stop" -> {[s EXCEPT !.stop = TRUE]}
    [] e.e = "refuse"  -> {[s EXCEPT !.ref = @ \cup {e.t}]}
    [] e.e = "refused" -> {[s EXCEPT !.ref = @ \ {e.t}]}
    [] e.e = "quiet" -> If(s.fin = s.in /\ s.out = s.in, s)
    [] e.e = "end"  -> If(e.a[1] = 0 /\ e.a[6] = 0 /\ s.fin = s.in, s)
    [] OTHER        -> {}
RECURSIVE Close(_, _)
Close(S, F) == IF F = {} THEN S ELSE LET G == (UNION {Internal(s) : s \in F}) \ S IN Close(S \cup G, G)
Closure(S) == Close(S, S)
StepSet(S, e) == UNION {Visible(s, e) : s \in Closure(S)}
=============================================================================
