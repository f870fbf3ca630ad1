----------------------------- MODULE SharedMutex -----------------------------
(* C15.  The contract of the coroutine SharedMutex, over requests.             *)
(*   pend    requests made and not granted yet: id -> exclusive?               *)
(*   try     Try calls in progress                                             *)
(*   w, r    the exclusive holder (0: none) and the shared holders, from the   *)
(*           moment they run their critical section to the beginning of their  *)
(*           release                                                           *)
(* No order among the requests is promised, so a grant may be taken to happen  *)
(* when the critical section begins and a release when its call begins: this   *)
(* accepts exactly the histories without overlap.                              *)
EXTENDS Naturals, Sequences, FiniteSets

Init0 == [co |-> 0, pendw |-> {}, pendr |-> {}, tryw |-> {}, tryr |-> {}, w |-> 0, r |-> {}, done |-> {}, fin |-> {}]
If(c, s) == IF c THEN {s} ELSE {}
Fresh(s, i) == i \notin s.pendw \cup s.pendr \cup s.tryw \cup s.tryr \cup s.r \cup s.done \cup {s.w}
FreeW(s) == s.w = 0 /\ s.r = {}
FreeR(s) == s.w = 0

Visible(s, e) ==
  CASE e.e = "cfg"  -> {[Init0 EXCEPT !.co = e.a[2]]}
    [] e.e = "reqw" -> If(Fresh(s, e.a[1]), [s EXCEPT !.pendw = @ \cup {e.a[1]}])
    [] e.e = "reqr" -> If(Fresh(s, e.a[1]), [s EXCEPT !.pendr = @ \cup {e.a[1]}])
    [] e.e = "tryw" -> If(Fresh(s, e.a[1]), [s EXCEPT !.tryw = @ \cup {e.a[1]}])
    [] e.e = "tryr" -> If(Fresh(s, e.a[1]), [s EXCEPT !.tryr = @ \cup {e.a[1]}])
    [] e.e = "gotw" -> If(e.a[1] \in s.pendw /\ FreeW(s), [s EXCEPT !.pendw = @ \ {e.a[1]}, !.w = e.a[1]])
    [] e.e = "gotr" -> If(e.a[1] \in s.pendr /\ FreeR(s), [s EXCEPT !.pendr = @ \ {e.a[1]}, !.r = @ \cup {e.a[1]}])
    [] e.e = "trywr" -> IF e.a[2] = 1 THEN If(e.a[1] \in s.tryw /\ FreeW(s), [s EXCEPT !.tryw = @ \ {e.a[1]}, !.w = e.a[1]])
                        ELSE If(e.a[1] \in s.tryw, [s EXCEPT !.tryw = @ \ {e.a[1]}, !.done = @ \cup {e.a[1]}])
    [] e.e = "tryrr" -> IF e.a[2] = 1 THEN If(e.a[1] \in s.tryr /\ FreeR(s), [s EXCEPT !.tryr = @ \ {e.a[1]}, !.r = @ \cup {e.a[1]}])
                        ELSE If(e.a[1] \in s.tryr, [s EXCEPT !.tryr = @ \ {e.a[1]}, !.done = @ \cup {e.a[1]}])
    [] e.e = "relw" -> If(s.w = e.a[1], [s EXCEPT !.w = 0, !.done = @ \cup {e.a[1]}])
    [] e.e = "relr" -> If(e.a[1] \in s.r, [s EXCEPT !.r = @ \ {e.a[1]}, !.done = @ \cup {e.a[1]}])
    [] e.e = "fin"  -> {[s EXCEPT !.fin = @ \cup {e.a[1]}]}
    \* stuck, leaked blocks, leaked objects, use after free, race, object errors
    [] e.e = "end"  -> If(e.a[1] = 0 /\ e.a[4] = 0 /\ e.a[5] = 0 /\ e.a[6] = 0
                          /\ s.pendw = {} /\ s.pendr = {} /\ s.tryw = {} /\ s.tryr = {} /\ FreeW(s)
                          /\ Cardinality(s.fin) = s.co, s)
    [] OTHER        -> {}
StepSet(S, e) == UNION {Visible(s, e) : s \in S}
=============================================================================
