------------------------------ MODULE MutexImpl ------------------------------
(* The algorithm of coro/mutex.hpp, one action per atomic operation.           *)
(*   sender  [lk, l]: not locked, or locked with the LIFO list of new waiters  *)
(*   recv    waiters taken over by the holder, served first                    *)
(* K coroutines do R rounds each on N workers; eq is the executor's queue of   *)
(* [c, at] (coroutine, where it continues).  A worker is idle or runs one      *)
(* coroutine; a coroutine waiting for the mutex occupies no worker.            *)
EXTENDS Mutex, TLC
CONSTANTS K, R, N, Batching, FIFO, Forms
VARIABLES sender, recv, eq, w, round, S, over
vars == <<sender, recv, eq, w, round, S, over>>

FREE == [lk |-> FALSE, l |-> <<>>]
LOCK == [lk |-> TRUE, l |-> <<>>]
Idle == [pc |-> "idle", c |-> 0, exp |-> FREE, form |-> "none"]
Id(c) == (c - 1) * R + round[c]
Ev(n, a) == [e |-> n, t |-> 0, a |-> a]
RECURSIVE Rev(_)
Rev(l) == IF l = <<>> THEN <<>> ELSE Append(Rev(Tail(l)), Head(l))
Head_(l) == IF FIFO THEN Rev(l) ELSE l     \* GetHead after the exchange

Init == /\ sender = FREE /\ recv = <<>> /\ over = FALSE
        /\ eq = {[c |-> c, at |-> "start"] : c \in 1..K}
        /\ w = [i \in 1..N |-> Idle] /\ round = [c \in 1..K |-> 1]
        /\ S = StepSet({Init0}, Ev("cfg", <<IF FIFO THEN 1 ELSE 0, K>>))

Go(i, pc) == w' = [w EXCEPT ![i].pc = pc]
Pick(i) == /\ w[i].pc = "idle"
           /\ \E x \in eq : /\ eq' = eq \ {x} /\ w' = [w EXCEPT ![i] = [Idle EXCEPT !.pc = x.at, !.c = x.c]]
           /\ UNCHANGED <<sender, recv, round, S, over>>
\* ---- Lock
Start(i) == /\ w[i].pc = "start"
            /\ IF round[w[i].c] > R
               THEN S' = StepSet(S, Ev("fin", <<w[i].c>>)) /\ w' = [w EXCEPT ![i] = Idle]
               ELSE S' = StepSet(S, Ev("req", <<Id(w[i].c)>>)) /\ Go(i, "ld")
            /\ UNCHANGED <<sender, recv, eq, round, over>>
Ld(i) == /\ w[i].pc = "ld" /\ Go(i, IF sender = FREE THEN "cas" ELSE "ld2")
         /\ UNCHANGED <<sender, recv, eq, round, S, over>>
Cas(i) == /\ w[i].pc = "cas"
          /\ IF sender = FREE THEN sender' = LOCK /\ Go(i, "got") ELSE UNCHANGED sender /\ Go(i, "ld2")
          /\ UNCHANGED <<recv, eq, round, S, over>>
Ld2(i) == /\ w[i].pc = "ld2" /\ w' = [w EXCEPT ![i].pc = "cas2", ![i].exp = sender]
          /\ UNCHANGED <<sender, recv, eq, round, S, over>>
Cas2(i) == /\ w[i].pc = "cas2"
           /\ IF sender # w[i].exp THEN UNCHANGED sender /\ w' = [w EXCEPT ![i].exp = sender]
              ELSE IF ~sender.lk THEN sender' = LOCK /\ Go(i, "got")
              ELSE sender' = [lk |-> TRUE, l |-> <<w[i].c>> \o sender.l] /\ w' = [w EXCEPT ![i] = Idle]
           /\ UNCHANGED <<recv, eq, round, S, over>>
\* ---- critical section: got, a suspension on the executor, release by one of the forms
Got(i) == /\ w[i].pc = "got" /\ S' = StepSet(S, Ev("got", <<Id(w[i].c)>>))
          /\ eq' = eq \cup {[c |-> w[i].c, at |-> "rel"]} /\ w' = [w EXCEPT ![i] = Idle]
          /\ UNCHANGED <<sender, recv, round, over>>
Rel(i) == /\ w[i].pc = "rel" /\ S' = StepSet(S, Ev("rel", <<Id(w[i].c)>>))
          /\ \E f \in Forms :
               IF f = "on"    \* the coroutine is submitted before the unlock
               THEN /\ eq' = eq \cup {[c |-> w[i].c, at |-> "start"]}
                    /\ round' = [round EXCEPT ![w[i].c] = @ + 1]
                    /\ w' = [w EXCEPT ![i].pc = "u1", ![i].form = f]
               ELSE UNCHANGED <<eq, round>> /\ w' = [w EXCEPT ![i].pc = "u1", ![i].form = f]
          /\ UNCHANGED <<sender, recv, over>>
\* where the worker goes on when the coroutine keeps running after the unlock
After(i) == IF w[i].form = "on" THEN /\ w' = [w EXCEPT ![i] = Idle] /\ UNCHANGED round
            ELSE /\ w' = [w EXCEPT ![i].pc = "start"] /\ round' = [round EXCEPT ![w[i].c] = @ + 1]
U1(i) == /\ w[i].pc = "u1"
         /\ Go(i, IF recv # <<>> THEN "u3" ELSE IF sender = LOCK THEN "u2" ELSE "u3")
         /\ UNCHANGED <<sender, recv, eq, round, S, over>>
U2(i) == /\ w[i].pc = "u2"
         /\ IF sender = LOCK THEN sender' = FREE /\ After(i)
                             ELSE UNCHANGED <<sender, round>> /\ Go(i, "u3")
         /\ UNCHANGED <<recv, eq, S, over>>
U3(i) == /\ w[i].pc = "u3"
         /\ LET all == IF recv # <<>> THEN recv ELSE Head_(sender.l)
                nx == Head(all)
            IN /\ recv' = Tail(all)
               /\ sender' = IF recv # <<>> THEN sender ELSE LOCK
               /\ IF w[i].form = "co" /\ Batching /\ recv # <<>>
                  THEN \* AwaitUnlock: run the next one here, this one is submitted
                       /\ eq' = eq \cup {[c |-> w[i].c, at |-> "start"]}
                       /\ round' = [round EXCEPT ![w[i].c] = @ + 1]
                       /\ w' = [w EXCEPT ![i] = [Idle EXCEPT !.pc = "got", !.c = nx]]
                  ELSE IF w[i].form = "on" /\ Batching /\ recv # <<>>
                  THEN /\ w' = [w EXCEPT ![i] = [Idle EXCEPT !.pc = "got", !.c = nx]] /\ UNCHANGED <<eq, round>>
                  ELSE /\ eq' = eq \cup {[c |-> nx, at |-> "got"]} /\ After(i)
         /\ UNCHANGED <<S, over>>
AllDone == eq = {} /\ \A i \in 1..N : w[i].pc = "idle"
Finish == /\ AllDone /\ ~over /\ over' = TRUE /\ S' = StepSet(S, Ev("end", <<0, 0, 0, 0, 0, 0>>))
          /\ UNCHANGED <<sender, recv, eq, w, round>>
Done == over /\ UNCHANGED vars
Work(i) == Pick(i) \/ Start(i) \/ Ld(i) \/ Cas(i) \/ Ld2(i) \/ Cas2(i) \/ Got(i) \/ Rel(i) \/ U1(i) \/ U2(i) \/ U3(i)
Next == (\E i \in 1..N : Work(i)) \/ Finish \/ Done
Spec == Init /\ [][Next]_vars /\ (\A i \in 1..N : WF_vars(Work(i))) /\ WF_vars(Finish)

ContractHolds == S # {}
\* the holder alone owns recv, and nobody is lost: every coroutine is somewhere exactly once
Places(c) == Cardinality({i \in 1..N : w[i].c = c /\ ~(w[i].form = "on" /\ w[i].pc \in {"u1", "u2", "u3"})})
             + Cardinality({x \in eq : x.c = c}) + Cardinality({i \in 1..Len(recv) : recv[i] = c})
             + Cardinality({i \in 1..Len(sender.l) : sender.l[i] = c})
NobodyLost == \A c \in 1..K : Places(c) + (IF round[c] > R THEN 1 ELSE 0) >= 1 /\ Places(c) <= 1
Terminates == <>over
=============================================================================
