------------------------------ MODULE StrandImpl ------------------------------
(* The algorithm of src/exe/strand.cpp: one action per atomic operation.       *)
(*   head  [mark, l]: the sentinel "not scheduled" or the intrusive LIFO list  *)
(*   q     how many times the strand is queued in the executor below           *)
(* Submitters push jobs by CAS; who replaces the sentinel submits the strand.  *)
(* A worker exchanges the list out, reverses it, calls the jobs, then tries to *)
(* put the sentinel back or submits the strand again.  The executor may refuse *)
(* up to MaxRefuse submissions; then the whole list is dropped.                *)
EXTENDS Strand, TLC
CONSTANTS Threads, JobsPer, Workers, MaxRefuse
VARIABLES head, q, upc, ujob, uexp, wpc, wbatch, wexp, refs, refused, S
vars == <<head, q, upc, ujob, uexp, wpc, wbatch, wexp, refs, refused, S>>

MARK == [mark |-> TRUE, l |-> <<>>]
EMPTY == [mark |-> FALSE, l |-> <<>>]
Ev(n, t, a) == [e |-> n, t |-> t, a |-> a]
Job(t) == (t - 1) * JobsPer + ujob[t]
RECURSIVE Rev(_)
Rev(l) == IF l = <<>> THEN <<>> ELSE Append(Rev(Tail(l)), Head(l))

Init == /\ head = MARK /\ q = 0
        /\ upc = [t \in Threads |-> "start"] /\ ujob = [t \in Threads |-> 1]
        /\ uexp = [t \in Threads |-> EMPTY]
        /\ wpc = [w \in Workers |-> "idle"] /\ wbatch = [w \in Workers |-> <<>>]
        /\ wexp = [w \in Workers |-> EMPTY]
        /\ refs = 0 /\ refused = 0 /\ S = {Init0}

\* ---- Submit(job)
UStart(t) == /\ upc[t] = "start" /\ ujob[t] <= JobsPer
             /\ S' = StepSet(S, Ev("sub", t, <<Job(t), 0>>))
             /\ upc' = [upc EXCEPT ![t] = "cas"] /\ uexp' = [uexp EXCEPT ![t] = head]
             /\ UNCHANGED <<head, q, ujob, wpc, wbatch, wexp, refs, refused>>
UCas(t) == /\ upc[t] = "cas"
           /\ IF head = uexp[t]
              THEN /\ head' = [mark |-> FALSE, l |-> <<Job(t)>> \o (IF head.mark THEN <<>> ELSE head.l)]
                   /\ upc' = [upc EXCEPT ![t] = IF uexp[t].mark THEN "sched" ELSE "ret"]
                   /\ refs' = refs + (IF uexp[t].mark THEN 1 ELSE 0) /\ UNCHANGED uexp
              ELSE UNCHANGED <<head, upc, refs>> /\ uexp' = [uexp EXCEPT ![t] = head]
           /\ UNCHANGED <<q, ujob, wpc, wbatch, wexp, refused, S>>
\* the executor accepts the strand
USched(t) == /\ upc[t] = "sched" /\ q' = q + 1 /\ upc' = [upc EXCEPT ![t] = "ret"]
             /\ UNCHANGED <<head, ujob, uexp, wpc, wbatch, wexp, refs, refused, S>>
\* ... or refuses it: Drop in the submitting thread
URefuse(t) == /\ upc[t] = "sched" /\ refused < MaxRefuse /\ refused' = refused + 1
              /\ S' = StepSet(S, Ev("refuse", t, <<>>)) /\ upc' = [upc EXCEPT ![t] = "dxchg"]
              /\ UNCHANGED <<head, q, ujob, uexp, wpc, wbatch, wexp, refs>>
UDXchg(t) == /\ upc[t] = "dxchg" /\ uexp' = [uexp EXCEPT ![t] = head] /\ head' = MARK
             /\ upc' = [upc EXCEPT ![t] = "drop"]
             /\ UNCHANGED <<q, ujob, wpc, wbatch, wexp, refs, refused, S>>
UDrop(t) == /\ upc[t] = "drop"
            /\ IF uexp[t].l # <<>>
               THEN /\ S' = StepSet(S, Ev("drop", t, <<Head(uexp[t].l), 0>>))
                    /\ uexp' = [uexp EXCEPT ![t].l = Tail(@)] /\ UNCHANGED <<upc, refs>>
               ELSE /\ S' = StepSet(S, Ev("refused", t, <<>>)) /\ refs' = refs - 1
                    /\ upc' = [upc EXCEPT ![t] = "ret"] /\ UNCHANGED uexp
            /\ UNCHANGED <<head, q, ujob, wpc, wbatch, wexp, refused>>
URet(t) == /\ upc[t] = "ret" /\ S' = StepSet(S, Ev("subr", t, <<Job(t), 0>>))
           /\ ujob' = [ujob EXCEPT ![t] = @ + 1] /\ upc' = [upc EXCEPT ![t] = "start"]
           /\ UNCHANGED <<head, q, uexp, wpc, wbatch, wexp, refs, refused>>
\* ---- the strand's Call on a worker
WTake(w) == /\ wpc[w] = "idle" /\ q > 0 /\ q' = q - 1
            /\ wbatch' = [wbatch EXCEPT ![w] = Rev(head.l)] /\ head' = EMPTY
            /\ wpc' = [wpc EXCEPT ![w] = "run"]
            /\ UNCHANGED <<upc, ujob, uexp, wexp, refs, refused, S>>
WRun(w) == /\ wpc[w] = "run" /\ wbatch[w] # <<>>
           /\ S' = StepSet(S, Ev("run", 10 + w, <<Head(wbatch[w]), 0>>))
           /\ wpc' = [wpc EXCEPT ![w] = "in"]
           /\ UNCHANGED <<head, q, upc, ujob, uexp, wbatch, wexp, refs, refused>>
WRan(w) == /\ wpc[w] = "in"
           /\ S' = StepSet(S, Ev("ran", 10 + w, <<Head(wbatch[w]), 0>>))
           /\ wbatch' = [wbatch EXCEPT ![w] = Tail(@)]
           /\ wpc' = [wpc EXCEPT ![w] = IF Len(wbatch[w]) = 1 THEN "load" ELSE "run"]
           /\ UNCHANGED <<head, q, upc, ujob, uexp, wexp, refs, refused>>
WLoad(w) == /\ wpc[w] = "load"
            /\ wpc' = [wpc EXCEPT ![w] = IF head = EMPTY THEN "cas" ELSE "again"]
            /\ UNCHANGED <<head, q, upc, ujob, uexp, wbatch, wexp, refs, refused, S>>
WCas(w) == /\ wpc[w] = "cas"
           /\ IF head = EMPTY
              THEN head' = MARK /\ refs' = refs - 1 /\ wpc' = [wpc EXCEPT ![w] = "idle"]
              ELSE UNCHANGED <<head, refs>> /\ wpc' = [wpc EXCEPT ![w] = "again"]
           /\ UNCHANGED <<q, upc, ujob, uexp, wbatch, wexp, refused, S>>
WAgain(w) == /\ wpc[w] = "again" /\ q' = q + 1 /\ wpc' = [wpc EXCEPT ![w] = "idle"]
             /\ UNCHANGED <<head, upc, ujob, uexp, wbatch, wexp, refs, refused, S>>
WRefuse(w) == /\ wpc[w] = "again" /\ refused < MaxRefuse /\ refused' = refused + 1
              /\ S' = StepSet(S, Ev("refuse", 10 + w, <<>>))
              /\ wexp' = [wexp EXCEPT ![w] = head] /\ head' = MARK
              /\ wpc' = [wpc EXCEPT ![w] = "drop"]
              /\ UNCHANGED <<q, upc, ujob, uexp, wbatch, refs>>
WDrop(w) == /\ wpc[w] = "drop"
            /\ IF wexp[w].l # <<>>
               THEN /\ S' = StepSet(S, Ev("drop", 10 + w, <<Head(wexp[w].l), 0>>))
                    /\ wexp' = [wexp EXCEPT ![w].l = Tail(@)] /\ UNCHANGED <<wpc, refs>>
               ELSE /\ S' = StepSet(S, Ev("refused", 10 + w, <<>>)) /\ refs' = refs - 1
                    /\ wpc' = [wpc EXCEPT ![w] = "idle"] /\ UNCHANGED wexp
            /\ UNCHANGED <<head, q, upc, ujob, uexp, wbatch, refused>>

AllDone == /\ \A t \in Threads : upc[t] = "start" /\ ujob[t] > JobsPer
           /\ \A w \in Workers : wpc[w] = "idle"
           /\ q = 0
Finish == /\ AllDone /\ refs # 99
          /\ S' = StepSet(S, Ev("end", 0, <<0, 0, 0, 0, 0, 0>>)) /\ refs' = 99
          /\ UNCHANGED <<head, q, upc, ujob, uexp, wpc, wbatch, wexp, refused>>
Done == refs = 99 /\ UNCHANGED vars
Next == \/ \E t \in Threads : UStart(t) \/ UCas(t) \/ USched(t) \/ URefuse(t) \/ UDXchg(t) \/ UDrop(t) \/ URet(t)
        \/ \E w \in Workers : WTake(w) \/ WRun(w) \/ WRan(w) \/ WLoad(w) \/ WCas(w) \/ WAgain(w) \/ WRefuse(w)
                              \/ WDrop(w)
        \/ Finish \/ Done
Fair == /\ \A t \in Threads : WF_vars(UStart(t) \/ UCas(t) \/ USched(t) \/ UDXchg(t) \/ UDrop(t) \/ URet(t))
        /\ \A w \in Workers : WF_vars(WTake(w) \/ WRun(w) \/ WRan(w) \/ WLoad(w) \/ WCas(w) \/ WAgain(w) \/ WDrop(w))
        /\ WF_vars(Finish)
Spec == Init /\ [][Next]_vars /\ Fair

ContractHolds == S # {}
\* the strand is queued at most once, and only while it is not marked idle
OneActivation == q + Cardinality({w \in Workers : wpc[w] \in {"run", "in", "load", "cas", "again"}})
                   + Cardinality({t \in Threads : upc[t] \in {"sched", "dxchg"}}) <= 1
RefsMatch == AllDone => (head = MARK /\ refs \in {0, 99})
Terminates == <>(refs = 99)
=============================================================================
