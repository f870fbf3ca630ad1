--------------------------- MODULE SharedMutexImpl ---------------------------
(* The algorithm of coro/shared_mutex.hpp.  One action per operation on the    *)
(* state word and on readers_wait and per section of the spin lock between     *)
(* them.  K coroutines do R rounds, each round of any of the Kinds:            *)
(* "r" shared, "w" exclusive, "tr"/"tw" the try forms; N workers; eq is the    *)
(* executor's queue.                                                           *)
EXTENDS SharedMutex, Integers, TLC
CONSTANTS K, R, N, FIFO, ReadersFIFO, Kinds
VARIABLES sw, sr,            \* the two halves of the state word
          readers, writers, wfirst, prio, rwait, rsize, rpass, lk,
          eq, w, round, S, over
shared == <<sw, sr, readers, writers, wfirst, prio, rwait, rsize, rpass, lk>>
vars == <<sw, sr, readers, writers, wfirst, prio, rwait, rsize, rpass, lk, eq, w, round, S, over>>

Idle == [pc |-> "idle", c |-> 0, kind |-> "none", zw |-> 0, zr |-> 0]
Id(c) == (c - 1) * R + round[c]
Ev(n, a) == [e |-> n, t |-> 0, a |-> a]
Init == /\ sw = 0 /\ sr = 0 /\ readers = <<>> /\ writers = <<>> /\ wfirst = 0 /\ prio = 0 /\ rwait = 0
        /\ rsize = 0 /\ rpass = 0 /\ lk = FALSE
        /\ eq = {[c |-> c, at |-> "start", kind |-> "none"] : c \in 1..K}
        /\ w = [i \in 1..N |-> Idle] /\ round = [c \in 1..K |-> 1]
        /\ S = StepSet({Init0}, Ev("cfg", <<0, K>>)) /\ over = FALSE
Go(i, pc) == w' = [w EXCEPT ![i].pc = pc]
Park(i) == w' = [w EXCEPT ![i] = Idle]
Next_(i) == /\ w' = [w EXCEPT ![i].pc = "start"] /\ round' = [round EXCEPT ![w[i].c] = @ + 1]
Rdr(i) == w[i].kind \in {"r", "tr"}

Pick(i) == /\ w[i].pc = "idle"
           /\ \E x \in eq : eq' = eq \ {x} /\ w' = [w EXCEPT ![i] = [Idle EXCEPT !.pc = x.at, !.c = x.c, !.kind = x.kind]]
           /\ UNCHANGED shared /\ UNCHANGED <<round, S, over>>
Start(i) == /\ w[i].pc = "start"
            /\ IF round[w[i].c] > R
               THEN S' = StepSet(S, Ev("fin", <<w[i].c>>)) /\ Park(i)
               ELSE \E k \in Kinds :
                      /\ S' = StepSet(S, Ev(CASE k = "r" -> "reqr" [] k = "w" -> "reqw" [] k = "tr" -> "tryr"
                                              [] OTHER -> "tryw", <<Id(w[i].c)>>))
                      /\ w' = [w EXCEPT ![i].pc = k, ![i].kind = k]
            /\ UNCHANGED shared /\ UNCHANGED <<eq, round, over>>
\* ---- LockShared
R0(i) == /\ w[i].pc = "r" /\ sr' = sr + 1 /\ Go(i, IF sw = 0 THEN "got" ELSE "r1")
         /\ UNCHANGED <<sw, readers, writers, wfirst, prio, rwait, rsize, rpass, lk, eq, round, S, over>>
R1(i) == /\ w[i].pc = "r1" /\ ~lk
         /\ IF rpass # 0 THEN rpass' = rpass - 1 /\ Go(i, "got") /\ UNCHANGED <<readers, rsize>>
            ELSE /\ readers' = (IF ReadersFIFO THEN Append(readers, w[i].c) ELSE <<w[i].c>> \o readers)
                 /\ rsize' = rsize + 1 /\ Park(i) /\ UNCHANGED rpass
         /\ UNCHANGED <<sw, sr, writers, wfirst, prio, rwait, lk, eq, round, S, over>>
TR(i) == /\ w[i].pc = "tr"
         /\ IF sw = 0 THEN sr' = sr + 1 /\ S' = StepSet(S, Ev("tryrr", <<Id(w[i].c), 1>>)) /\ Go(i, "in") /\ UNCHANGED round
            ELSE UNCHANGED sr /\ S' = StepSet(S, Ev("tryrr", <<Id(w[i].c), 0>>)) /\ Next_(i)
         /\ UNCHANGED <<sw, readers, writers, wfirst, prio, rwait, rsize, rpass, lk, eq, over>>
\* ---- Lock
W0(i) == /\ w[i].pc \in {"w", "tw"}
         /\ IF sw = 0 /\ sr = 0
            THEN /\ sw' = 1
                 /\ IF w[i].kind = "tw" THEN S' = StepSet(S, Ev("trywr", <<Id(w[i].c), 1>>)) /\ Go(i, "in")
                                        ELSE UNCHANGED S /\ Go(i, "got")
                 /\ UNCHANGED round
            ELSE /\ UNCHANGED sw
                 /\ IF w[i].kind = "tw" THEN S' = StepSet(S, Ev("trywr", <<Id(w[i].c), 0>>)) /\ Next_(i)
                                        ELSE UNCHANGED <<S, round>> /\ Go(i, "w1")
         /\ UNCHANGED <<sr, readers, writers, wfirst, prio, rwait, rsize, rpass, lk, eq, over>>
W1(i) == /\ w[i].pc = "w1" /\ ~lk /\ lk' = TRUE /\ Go(i, "w2")
         /\ UNCHANGED <<sw, sr, readers, writers, wfirst, prio, rwait, rsize, rpass, eq, round, S, over>>
W2(i) == /\ w[i].pc = "w2" /\ sw' = sw + 1
         /\ IF sw = 0
            THEN /\ wfirst' = w[i].c /\ UNCHANGED <<writers, prio>>
                 /\ IF sr = 0 THEN Go(i, "got") /\ lk' = FALSE
                              ELSE w' = [w EXCEPT ![i].pc = "w3", ![i].zr = sr] /\ UNCHANGED lk
            ELSE /\ writers' = Append(writers, w[i].c) /\ UNCHANGED wfirst
                 /\ prio' = prio + (IF FIFO /\ readers = <<>> THEN 1 ELSE 0)
                 /\ lk' = FALSE /\ Park(i)
         /\ UNCHANGED <<sr, readers, rwait, rsize, rpass, eq, round, S, over>>
W3(i) == /\ w[i].pc = "w3" /\ rwait' = rwait + w[i].zr /\ lk' = FALSE
         /\ IF rwait + w[i].zr = 0 THEN w' = [w EXCEPT ![i].pc = "got", ![i].zr = 0] ELSE Park(i)
         /\ UNCHANGED <<sw, sr, readers, writers, wfirst, prio, rsize, rpass, eq, round, S, over>>
\* ---- critical section with a suspension on the executor
Got(i) == /\ w[i].pc = "got" /\ S' = StepSet(S, Ev(IF Rdr(i) THEN "gotr" ELSE "gotw", <<Id(w[i].c)>>))
          /\ Go(i, "in") /\ UNCHANGED shared /\ UNCHANGED <<eq, round, over>>
In(i) == /\ w[i].pc = "in" /\ eq' = eq \cup {[c |-> w[i].c, at |-> "rel", kind |-> w[i].kind]} /\ Park(i)
         /\ UNCHANGED shared /\ UNCHANGED <<round, S, over>>
Rel(i) == /\ w[i].pc = "rel" /\ S' = StepSet(S, Ev(IF Rdr(i) THEN "relr" ELSE "relw", <<Id(w[i].c)>>))
          /\ Go(i, IF Rdr(i) THEN "ur1" ELSE "uw1") /\ UNCHANGED shared /\ UNCHANGED <<eq, round, over>>
\* ---- unlock
UR1(i) == /\ w[i].pc = "ur1" /\ sr' = sr - 1
          /\ IF sw > 0 THEN Go(i, "ur2") /\ UNCHANGED round ELSE Next_(i)
          /\ UNCHANGED <<sw, readers, writers, wfirst, prio, rwait, rsize, rpass, lk, eq, S, over>>
UR2(i) == /\ w[i].pc = "ur2" /\ rwait' = rwait - 1
          /\ eq' = (IF rwait = 1 THEN eq \cup {[c |-> wfirst, at |-> "got", kind |-> "w"]} ELSE eq)
          /\ Next_(i)
          /\ UNCHANGED <<sw, sr, readers, writers, wfirst, prio, rsize, rpass, lk, S, over>>
UW1(i) == /\ w[i].pc = "uw1"
          /\ IF sw = 1 /\ sr = 0 THEN sw' = 0 /\ Next_(i) ELSE UNCHANGED <<sw, round>> /\ Go(i, "uw2")
          /\ UNCHANGED <<sr, readers, writers, wfirst, prio, rwait, rsize, rpass, lk, eq, S, over>>
UW2(i) == /\ w[i].pc = "uw2" /\ ~lk /\ lk' = TRUE /\ Go(i, "uw3")
          /\ UNCHANGED <<sw, sr, readers, writers, wfirst, prio, rwait, rsize, rpass, eq, round, S, over>>
UW3(i) == /\ w[i].pc = "uw3" /\ sw' = sw - 1 /\ w' = [w EXCEPT ![i].pc = "uw4", ![i].zw = sw, ![i].zr = sr]
          /\ UNCHANGED <<sr, readers, writers, wfirst, prio, rwait, rsize, rpass, lk, eq, round, S, over>>
UW4(i) ==
  /\ w[i].pc = "uw4" /\ lk' = FALSE
  /\ LET zw == w[i].zw
         zr == w[i].zr
     IN CASE (FIFO /\ prio # 0) \/ (~FIFO /\ readers = <<>> /\ zw # 1) ->
               /\ prio' = (IF FIFO THEN prio - 1 ELSE prio)
               /\ writers' = Tail(writers)
               /\ eq' = eq \cup {[c |-> Head(writers), at |-> "got", kind |-> "w"]}
               /\ UNCHANGED <<readers, rsize, rwait, wfirst, rpass>>
          [] ~(FIFO /\ prio # 0) /\ readers # <<>> ->
               /\ IF zw # 1 THEN /\ rwait' = rsize /\ wfirst' = Head(writers) /\ writers' = Tail(writers)
                                 /\ prio' = (IF FIFO THEN zw - 2 ELSE prio) /\ UNCHANGED rpass
                            ELSE /\ rpass' = rpass + zr - rsize /\ UNCHANGED <<rwait, wfirst, writers, prio>>
               /\ readers' = <<>> /\ rsize' = 0
               /\ eq' = eq \cup {[c |-> readers[j], at |-> "got", kind |-> "r"] : j \in 1..Len(readers)}
          [] OTHER -> rpass' = rpass + zr - rsize /\ UNCHANGED <<readers, rsize, rwait, wfirst, writers, prio, eq>>
  /\ w' = [w EXCEPT ![i].pc = "start", ![i].zw = 0, ![i].zr = 0] /\ round' = [round EXCEPT ![w[i].c] = @ + 1]
  /\ UNCHANGED <<sw, sr, S, over>>
AllDone == eq = {} /\ \A i \in 1..N : w[i].pc = "idle"
Finish == /\ AllDone /\ ~over /\ over' = TRUE /\ S' = StepSet(S, Ev("end", <<0, 0, 0, 0, 0, 0>>))
          /\ UNCHANGED shared /\ UNCHANGED <<eq, w, round>>
Done == over /\ UNCHANGED vars
Work(i) == Pick(i) \/ Start(i) \/ R0(i) \/ R1(i) \/ TR(i) \/ W0(i) \/ W1(i) \/ W2(i) \/ W3(i) \/ Got(i) \/ In(i)
           \/ Rel(i) \/ UR1(i) \/ UR2(i) \/ UW1(i) \/ UW2(i) \/ UW3(i) \/ UW4(i)
Next == (\E i \in 1..N : Work(i)) \/ Finish \/ Done
Spec == Init /\ [][Next]_vars /\ (\A i \in 1..N : WF_vars(Work(i))) /\ WF_vars(Finish)

ContractHolds == S # {}
\* the code's own assertions
Asserts == /\ rsize = Len(readers) /\ rpass >= 0
           /\ \A i \in 1..N : w[i].pc = "uw4" /\ FIFO /\ prio # 0 => writers # <<>> /\ w[i].zw > 1
Quiet == over => sw = 0 /\ sr = 0 /\ rwait = 0 /\ rpass = 0
Terminates == <>over
=============================================================================
