--------------------------------- MODULE Pool ---------------------------------
(* C08.  The contract of a FairThreadPool with N workers.                      *)
(*   pend   jobs whose Submit has begun and is undecided                       *)
(*   queue  accepted, not started, in acceptance order                         *)
(*   taken  dequeued by a worker, not visibly started yet                       *)
(*   run    jobs being executed                                                *)
(*   rej    refused at Submit (pool stopped): [j |-> thread]; doom: removed    *)
(*          from the queue by a HardStop                                       *)
(*   stopped; want (a SoftStop is waiting for the pool to become empty)        *)
(*   sp     stop calls in progress: kinds by thread (0 Stop, 1 Soft, 2 Hard)   *)
EXTENDS Naturals, Sequences, FiniteSets

Init0 == [n |-> 1, pend |-> {}, queue |-> <<>>, taken |-> {}, run |-> {}, rej |-> {}, doom |-> {}, ret |-> {}, fin |-> {},
          called |-> {}, stopped |-> FALSE, want |-> FALSE, sp |-> {}, sdone |-> {}, waited |-> "no", alv |-> {}]

SetOf(q) == {q[i] : i \in 1..Len(q)}
Without(q, j) == SelectSeq(q, LAMBDA x : x # j)
If(c, s) == IF c THEN {s} ELSE {}

\* a submission takes effect: accepted iff the pool is not stopped
Accept(s) == {IF s.stopped THEN [s EXCEPT !.pend = @ \ {p}, !.rej = @ \cup {p}]
                           ELSE [s EXCEPT !.pend = @ \ {p}, !.queue = Append(@, p[1])] : p \in s.pend}
\* a stopping call takes effect
Stopping(s) == {CASE p[2] = 0 -> [s EXCEPT !.sp = @ \ {p}, !.sdone = @ \cup {p}, !.stopped = TRUE]
                  [] p[2] = 1 -> [s EXCEPT !.sp = @ \ {p}, !.sdone = @ \cup {p}, !.want = TRUE]
                  [] p[2] = 2 -> [s EXCEPT !.sp = @ \ {p}, !.sdone = @ \cup {p}, !.stopped = TRUE,
                                           !.doom = @ \cup {<<j, p[1]>> : j \in SetOf(s.queue)}, !.queue = <<>>]
                : p \in s.sp}
\* a wanted stop happens only when nothing is queued or running
SoftFire(s) == If(s.want /\ ~s.stopped /\ s.queue = <<>> /\ s.run = {} /\ s.taken = {}, [s EXCEPT !.stopped = TRUE])
\* an idle worker takes the oldest job: never more jobs in hand than workers
Take(s) == If(s.queue # <<>> /\ Cardinality(s.run) + Cardinality(s.taken) < s.n /\ s.waited # "yes",
              [s EXCEPT !.taken = @ \cup {Head(s.queue)}, !.queue = Tail(@)])
Internal(s) == Accept(s) \cup Stopping(s) \cup SoftFire(s) \cup Take(s)

\* job j starts (in acceptance order with one worker, as Take is FIFO)
ERun(s, j) == If(j \in s.taken /\ s.waited # "yes",
                 [s EXCEPT !.taken = @ \ {j}, !.run = @ \cup {j}, !.called = @ \cup {j}])
EDrop(s, j, t) == If(<<j, t>> \in s.rej \/ <<j, t>> \in s.doom,
                     [s EXCEPT !.rej = @ \ {<<j, t>>}, !.doom = @ \ {<<j, t>>}, !.fin = @ \cup {j}])
Seen(s, j) == j \in {p[1] : p \in s.pend \cup s.rej \cup s.doom} \cup SetOf(s.queue) \cup s.taken \cup s.run \cup s.fin

Visible(s, e) ==
  CASE e.e = "cfg"  -> {[Init0 EXCEPT !.n = e.a[1]]}
    [] e.e = "sub"  -> If(~Seen(s, e.a[1]), [s EXCEPT !.pend = @ \cup {<<e.a[1], e.t>>}])
    [] e.e = "subr" -> If(<<e.a[1], e.t>> \notin s.pend \cup s.rej, [s EXCEPT !.ret = @ \cup {e.a[1]}])
    [] e.e = "run"  -> ERun(s, e.a[1])
    [] e.e = "ran"  -> If(e.a[1] \in s.run, [s EXCEPT !.run = @ \ {e.a[1]}, !.fin = @ \cup {e.a[1]}])
    [] e.e = "drop" -> EDrop(s, e.a[1], e.t)
    [] e.e = "stop"  -> {[s EXCEPT !.sp = @ \cup {<<e.t, e.a[1]>>}]}
    [] e.e = "stopr" -> If(<<e.t, e.a[1]>> \in s.sdone /\ ~(\E d \in s.doom : d[2] = e.t),
                           [s EXCEPT !.sdone = @ \ {<<e.t, e.a[1]>>}])
    [] e.e = "alv"  -> {[s EXCEPT !.alv = @ \cup {<<e.t, s.stopped>>}]}
    [] e.e = "alvr" -> If(IF e.a[1] = 0 THEN s.stopped ELSE <<e.t, FALSE>> \in s.alv,
                          [s EXCEPT !.alv = {x \in @ : x[1] # e.t}])
    [] e.e = "wait"  -> If(s.waited = "no", [s EXCEPT !.waited = "in"])
    \* Wait means done: stopped, nothing queued, nothing running, and (ERun) nothing will run
    [] e.e = "waitr" -> If(s.waited = "in" /\ s.stopped /\ s.queue = <<>> /\ s.taken = {} /\ s.run = {}, [s EXCEPT !.waited = "yes"])
    \* what the client reads after Wait: every called job's effect (only if no submitter was left)
    [] e.e = "sum"   -> If(e.a[1] = 0 \/ e.a[1] = Cardinality(s.called), s)
    [] e.e = "end"   -> If(e.a[1] = 0 /\ e.a[4] = 0 /\ e.a[5] = 0 /\ e.a[6] = 0
                           /\ s.pend = {} /\ s.queue = <<>> /\ s.taken = {} /\ s.run = {} /\ s.rej = {} /\ s.doom = {}
                           /\ s.sp = {} /\ s.sdone = {} /\ s.ret = s.fin /\ s.waited = "yes", s)
    [] OTHER         -> {}

RECURSIVE Close(_, _)
Close(S, F) == IF F = {} THEN S ELSE LET G == (UNION {Internal(s) : s \in F}) \ S IN Close(S \cup G, G)
Closure(S) == Close(S, S)
StepSet(S, e) == UNION {Visible(s, e) : s \in Closure(S)}
=============================================================================
