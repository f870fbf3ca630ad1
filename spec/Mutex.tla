-------------------------------- MODULE Mutex --------------------------------
(* C14.  The contract of the coroutine mutex, over requests.                   *)
(*   pend   lock requests whose await has begun and that have not arrived yet  *)
(*   q      requests that arrived while the mutex was held, in arrival order   *)
(*   hold   the request that owns the mutex (0: free); ent: it runs its        *)
(*          critical section; rel: its release has begun                       *)
(*   tryp   TryLock/TryGuard calls in progress; won: those which got the lock  *)
(*   done   finished requests; fin: finished coroutines                        *)
(* Arrival and release take effect at some moment inside their calls.          *)
EXTENDS Naturals, Sequences, FiniteSets

Init0 == [fifo |-> TRUE, co |-> 0, pend |-> {}, q |-> <<>>, hold |-> 0, ent |-> FALSE, rel |-> FALSE,
          tryp |-> {}, won |-> {}, done |-> {}, fin |-> {}]

SetOf(q) == {q[i] : i \in 1..Len(q)}
Without(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
If(c, s) == IF c THEN {s} ELSE {}

Internal(s) ==
  \* a request arrives: it gets the free mutex or waits
  {IF s.hold = 0 THEN [s EXCEPT !.pend = @ \ {r}, !.hold = r, !.ent = FALSE, !.rel = FALSE]
                 ELSE [s EXCEPT !.pend = @ \ {r}, !.q = Append(@, r)] : r \in s.pend}
  \cup {[s EXCEPT !.tryp = @ \ {r}, !.won = @ \cup {r}, !.hold = r, !.ent = FALSE, !.rel = FALSE]
          : r \in (IF s.hold = 0 THEN s.tryp ELSE {})}
  \* the release takes effect: the next waiter is granted, with FIFO the longest waiting one
  \cup (IF s.hold # 0 /\ s.rel
        THEN IF s.q = <<>> THEN {[s EXCEPT !.hold = 0, !.ent = FALSE, !.rel = FALSE]}
             ELSE {[s EXCEPT !.hold = s.q[i], !.q = Without(s.q, i), !.ent = FALSE, !.rel = FALSE]
                     : i \in (IF s.fifo THEN {1} ELSE 1..Len(s.q))}
        ELSE {})

Fresh(s, r) == r \notin s.pend \cup SetOf(s.q) \cup s.done \cup s.tryp \cup s.won \cup {s.hold}

Visible(s, e) ==
  CASE e.e = "cfg"  -> {[Init0 EXCEPT !.fifo = (e.a[1] = 1), !.co = e.a[2]]}
    [] e.e = "req"  -> If(Fresh(s, e.a[1]), [s EXCEPT !.pend = @ \cup {e.a[1]}])
    [] e.e = "try"  -> If(Fresh(s, e.a[1]), [s EXCEPT !.tryp = @ \cup {e.a[1]}])
    \* it may fail at any time; it succeeds only by taking the free mutex
    [] e.e = "tryr" -> IF e.a[2] = 1 THEN If(e.a[1] \in s.won /\ s.hold = e.a[1], [s EXCEPT !.ent = TRUE])
                                     ELSE If(e.a[1] \in s.tryp, [s EXCEPT !.tryp = @ \ {e.a[1]}, !.done = @ \cup {e.a[1]}])
    \* the critical section begins
    [] e.e = "got"  -> If(s.hold = e.a[1] /\ ~s.ent, [s EXCEPT !.ent = TRUE])
    [] e.e = "rel"  -> If(s.hold = e.a[1] /\ s.ent /\ ~s.rel, [s EXCEPT !.rel = TRUE, !.done = @ \cup {e.a[1]}])
    \* a guard which gave the ownership away says so
    [] e.e = "own"  -> If(e.a[1] = 0, s)
    [] e.e = "fin"  -> {[s EXCEPT !.fin = @ \cup {e.a[1]}]}
    \* stuck, leaked blocks, leaked objects, use after free, race, object errors
    [] e.e = "end"  -> If(e.a[1] = 0 /\ e.a[4] = 0 /\ e.a[5] = 0 /\ e.a[6] = 0
                          /\ s.pend = {} /\ s.q = <<>> /\ s.hold = 0 /\ s.tryp = {} /\ Cardinality(s.fin) = s.co, s)
    [] OTHER        -> {}

RECURSIVE Close(_, _)
Close(S, F) == IF F = {} THEN S ELSE LET G == (UNION {Internal(s) : s \in F}) \ S IN Close(S \cup G, G)
Closure(S) == Close(S, S)
StepSet(S, e) == UNION {Visible(s, e) : s \in Closure(S)}
=============================================================================
