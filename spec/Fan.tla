-------------------------------- MODULE Fan --------------------------------
(* C05, shared results: continuations attached through copies of one shared    *)
(* future (and continuations of those) run where they have to.                 *)
(* A continuation k has a parent (0: the shared result), a mode (call: it is   *)
(* submitted to its executor) and an executor: its own one or, if that is 0,   *)
(* the one its parent has; executor 0 is Inline.                               *)
(*   src    the shared result may be fulfilled from now on                     *)
(*   node   k -> [p, call, ex]                                                 *)
(*   first  the next refusal is the one of the job of RunShared                *)
(*   ref    thread -> refusals it is inside of, each with the executor and     *)
(*          whether the refused job has been finished (dropped) in it          *)
EXTENDS Naturals, Sequences, FiniteSets
Stop == 1000
Init0 == [ex |-> 0, job |-> FALSE, res |-> 0, src |-> FALSE, node |-> <<>>, run |-> {}, got |-> {}, ref |-> <<>>, first |-> FALSE]
If(c, s) == IF c THEN {s} ELSE {}
Set(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Ref(s, t) == IF t \in DOMAIN s.ref THEN s.ref[t] ELSE <<>>
Top(q) == q[Len(q)]
ExOf(s, p) == IF p = 0 THEN s.ex ELSE s.node[p].ex
Done(s, p) == IF p = 0 THEN s.src ELSE p \in s.run
Out(s, p) == IF p = 0 THEN s.res ELSE 100 + p
Place(s, t, k, where, code) ==
  LET n == s.node[k] IN
  IF ~n.call \/ n.ex = 0 THEN {<<code = Out(s, n.p), FALSE>>}
  ELSE {<<where = n.ex /\ code = Out(s, n.p), FALSE>>,
        <<Ref(s, t) # <<>> /\ Top(Ref(s, t)).ex = n.ex /\ ~Top(Ref(s, t)).fin /\ code = Stop, TRUE>>}
Finish(s, t, d) == IF d THEN Set(s.ref, t, [Ref(s, t) EXCEPT ![Len(Ref(s, t))].fin = TRUE]) ELSE s.ref
Submitted(s, x) == Cardinality({k \in DOMAIN s.node : s.node[k].call /\ s.node[k].ex = x}) + (IF s.job /\ s.ex = x THEN 1 ELSE 0)
Visible(s, e) ==
  CASE e.e = "cfg" -> {[Init0 EXCEPT !.ex = e.a[1], !.job = (e.a[2] = 1), !.first = (e.a[3] = 1), !.res = e.a[4]]}
    [] e.e = "src" -> If(~s.src, [s EXCEPT !.src = TRUE])
    [] e.e = "att" -> If(e.a[1] \notin DOMAIN s.node /\ (e.a[2] = 0 \/ e.a[2] \in DOMAIN s.node),
                         [s EXCEPT !.node = Set(@, e.a[1], [p |-> e.a[2], call |-> e.a[3] = 1,
                                                            ex |-> IF e.a[4] = 0 THEN ExOf(s, e.a[2]) ELSE e.a[4]])])
    [] e.e = "run" -> LET k == e.a[1] IN
         IF k \in DOMAIN s.node /\ k \notin s.run /\ Done(s, s.node[k].p)
         THEN {[s EXCEPT !.run = @ \cup {k}, !.ref = Finish(s, e.t, w[2])] : w \in {w \in Place(s, e.t, k, e.a[2], e.a[3]) : w[1]}}
         ELSE {}
    [] e.e = "refuse"  -> {[s EXCEPT !.ref = Set(@, e.t, Append(Ref(s, e.t), [ex |-> e.a[1], fin |-> s.first])), !.first = FALSE]}
    [] e.e = "refused" -> If(Ref(s, e.t) # <<>> /\ Top(Ref(s, e.t)).fin,
                             [s EXCEPT !.ref = Set(@, e.t, SubSeq(Ref(s, e.t), 1, Len(Ref(s, e.t)) - 1))])
    [] e.e = "got" -> If(e.a[1] \in s.run \ s.got /\ e.a[2] = 100 + e.a[1], [s EXCEPT !.got = @ \cup {e.a[1]}])
    [] e.e = "quiet" -> If(s.src /\ s.run = DOMAIN s.node /\ e.a[1] = Submitted(s, 1) /\ e.a[2] = Submitted(s, 2), s)
    [] e.e = "end" -> If(e.a[1] = 0 /\ e.a[6] = 0 /\ s.run = DOMAIN s.node, s)
    [] OTHER -> {}
StepSet(S, e) == UNION {Visible(s, e) : s \in S}
=============================================================================
