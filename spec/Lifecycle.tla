----------------------------- MODULE Lifecycle ------------------------------
(* C03.  The life of everything the library owns: heap blocks (shared states,  *)
(* coroutine frames, jobs, combinators, executors) and objects (callbacks,     *)
(* captured and stored values).  Identities are given in order of creation.    *)
(*   new <<b>>  del <<b>>  touch <<b>>    a block; touch: accessed when it is  *)
(*                                        (or is believed to be) released      *)
(*   make <<o, k>>  kill <<o, k>>  use <<o, k>>  over <<o, k>>   an object of  *)
(*       kind k is constructed, destroyed, used; constructed over a live one   *)
(*   end <<stuck, bad>>   everything is quiescent; stuck: somebody still waits *)
EXTENDS Naturals, Sequences, FiniteSets
Init0 == [blk |-> {}, nb |-> 0, obj |-> <<>>, no |-> 0]
If(c, s) == IF c THEN {s} ELSE {}
Internal(s) == {}
\* live objects: set of <<identity, kind>>
Objs(s) == {s.obj[i] : i \in 1..Len(s.obj)}
Visible(s, e) ==
  CASE e.e = "new"   -> If(e.a[1] = s.nb + 1, [s EXCEPT !.nb = @ + 1, !.blk = @ \cup {e.a[1]}])
    [] e.e = "del"   -> If(e.a[1] \in s.blk, [s EXCEPT !.blk = @ \ {e.a[1]}])
    [] e.e = "touch" -> If(e.a[1] \in s.blk, s)
    [] e.e = "make"  -> If(e.a[1] = s.no + 1, [s EXCEPT !.no = @ + 1, !.obj = Append(@, <<e.a[1], e.a[2]>>)])
    [] e.e = "kill"  -> LET x == <<e.a[1], e.a[2]>>
                            Other(y) == y # x
                        IN If(x \in Objs(s), [s EXCEPT !.obj = SelectSeq(@, Other)])
    [] e.e = "use"   -> If(<<e.a[1], e.a[2]>> \in Objs(s), s)
    [] e.e = "over"  -> {}
    [] e.e = "end"   -> If(e.a[1] = 0 /\ e.a[2] = 0 /\ s.blk = {} /\ Len(s.obj) = 0, s)
    [] OTHER         -> {}
RECURSIVE Close(_, _)
Close(S, F) == IF F = {} THEN S ELSE LET G == (UNION {Internal(s) : s \in F}) \ S IN Close(S \cup G, G)
Closure(S) == Close(S, S)
StepSet(S, e) == UNION {Visible(s, e) : s \in Closure(S)}
=============================================================================
