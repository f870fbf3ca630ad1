-------------------------------- MODULE Strand --------------------------------
(* C07.  The contract of a Strand (strand 0) and, when nested, of a second     *)
(* strand (1) running over it.  One state:                                     *)
(*   pend[s]  jobs whose Submit has begun and has not taken effect yet         *)
(*   ord[s]   jobs accepted, in the order their submissions took effect        *)
(*   doom     jobs of a batch the underlying executor refused: to be dropped   *)
(*   run      the job being executed (0: none) -- one for both strands, as a   *)
(*            nested strand runs inside a job of the outer one                 *)
(*   ret      jobs whose Submit has returned; fin: jobs finished               *)
(*   ref      threads inside a refusal of the underlying executor              *)
(*   stop     Stop/HardStop of the underlying executor has begun               *)
EXTENDS Naturals, Sequences, FiniteSets

Init0 == [pend |-> <<{}, {}>>, ord |-> <<<<>>, <<>>>>, doom |-> {}, run |-> 0,
          ret |-> {}, fin |-> {}, ref |-> {}, stop |-> FALSE]

SetOf(q) == {q[i] : i \in 1..Len(q)}

Internal(s) ==
  \* a submission takes effect
  UNION { {[s EXCEPT !.pend[k] = @ \ {j}, !.ord[k] = Append(@, j)] : j \in s.pend[k]} : k \in 1..2 }
  \cup
  \* the underlying executor refused the strand: everything accepted and not yet run is dropped
  (IF s.ref # {} \/ s.stop
   THEN {[s EXCEPT !.doom = @ \cup SetOf(s.ord[k]), !.ord[k] = <<>>] : k \in {k \in 1..2 : s.ord[k] # <<>>}}
   ELSE {})

If(c, s) == IF c THEN {s} ELSE {}
Known(s, j) == j \in s.pend[1] \cup s.pend[2] \cup SetOf(s.ord[1]) \cup SetOf(s.ord[2]) \cup s.doom
                     \cup s.fin \cup {s.run}

Visible(s, e) ==
  CASE e.e = "cfg"  -> {Init0}
    [] e.e = "sub"  -> If(~Known(s, e.a[1]), [s EXCEPT !.pend[e.a[2] + 1] = @ \cup {e.a[1]}])
    [] e.e = "subr" -> If(e.a[1] \notin s.pend[1] \cup s.pend[2], [s EXCEPT !.ret = @ \cup {e.a[1]}])
    [] e.e = "run"  -> LET q == s.ord[e.a[2] + 1]
                       IN If(s.run = 0 /\ q # <<>> /\ Head(q) = e.a[1],
                             [s EXCEPT !.run = e.a[1], !.ord[e.a[2] + 1] = Tail(@)])
    [] e.e = "ran"  -> If(s.run = e.a[1], [s EXCEPT !.run = 0, !.fin = @ \cup {e.a[1]}])
    [] e.e = "drop" -> If(e.a[1] \in s.doom /\ (e.t \in s.ref \/ s.stop),
                          [s EXCEPT !.doom = @ \ {e.a[1]}, !.fin = @ \cup {e.a[1]}])
    [] e.e = "refuse"  -> {[s EXCEPT !.ref = @ \cup {e.t}]}
    [] e.e = "refused" -> {[s EXCEPT !.ref = @ \ {e.t}]}
    [] e.e = "stop" -> {[s EXCEPT !.stop = TRUE]}
    \* stuck, leaked blocks, leaked objects, use after free, race, object errors
    [] e.e = "end"  -> If(e.a[1] = 0 /\ e.a[4] = 0 /\ e.a[5] = 0 /\ e.a[6] = 0
                          /\ s.pend = <<{}, {}>> /\ s.ord = <<<<>>, <<>>>> /\ s.doom = {} /\ s.run = 0
                          /\ s.ret = s.fin, s)
    [] OTHER        -> {}

RECURSIVE Close(_, _)
Close(S, F) == IF F = {} THEN S ELSE LET G == (UNION {Internal(s) : s \in F}) \ S IN Close(S \cup G, G)
Closure(S) == Close(S, S)
StepSet(S, e) == UNION {Visible(s, e) : s \in Closure(S)}
=============================================================================
