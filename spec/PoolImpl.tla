------------------------------- MODULE PoolImpl -------------------------------
(* src/runtime/fair_thread_pool.cpp: critical sections under one mutex are     *)
(* single actions (the mutex is assumed correct), the condition variable is a  *)
(* set of waiting workers (notify wakes any one / all; wake-ups never lost).   *)
(*   cnt = number of queued or running jobs; bits: stop, want                  *)
EXTENDS Pool, TLC
CONSTANTS Threads, JobsPer, NW, Stops  \* Stops: sequence of stop kinds issued by the stopping thread
VARIABLES jobs, cnt, bstop, bwant, upc, ujob, wpc, wjob, spc, si, hard, mpc, S
vars == <<jobs, cnt, bstop, bwant, upc, ujob, wpc, wjob, spc, si, hard, mpc, S>>
W == 1..NW
Ev(n, t, a) == [e |-> n, t |-> t, a |-> a]
Job(t) == (t - 1) * JobsPer + ujob[t]

Init == /\ jobs = <<>> /\ cnt = 0 /\ bstop = FALSE /\ bwant = FALSE
        /\ upc = [t \in Threads |-> "start"] /\ ujob = [t \in Threads |-> 1]
        /\ wpc = [w \in W |-> "loop"] /\ wjob = [w \in W |-> 0]
        /\ spc = "start" /\ si = 1 /\ hard = <<>> /\ mpc = "start"
        /\ S = {[Init0 EXCEPT !.n = NW]}

\* notify_one: any waiter, or nobody if there is none
Wake1(p) == IF \E w \in W : p[w] = "wait"
            THEN {[p EXCEPT ![w] = "loop"] : w \in {w \in W : p[w] = "wait"}} ELSE {p}
WakeAll(p) == [w \in W |-> IF p[w] = "wait" THEN "loop" ELSE p[w]]

UStart(t) == /\ upc[t] = "start" /\ ujob[t] <= JobsPer
             /\ S' = StepSet(S, Ev("sub", t, <<Job(t)>>)) /\ upc' = [upc EXCEPT ![t] = "lock"]
             /\ UNCHANGED <<jobs, cnt, bstop, bwant, ujob, wpc, wjob, spc, si, hard, mpc>>
ULock(t) == /\ upc[t] = "lock"
            /\ IF bstop THEN upc' = [upc EXCEPT ![t] = "drop"] /\ UNCHANGED <<jobs, cnt>>
               ELSE jobs' = Append(jobs, Job(t)) /\ cnt' = cnt + 1 /\ upc' = [upc EXCEPT ![t] = "notify"]
            /\ UNCHANGED <<bstop, bwant, ujob, wpc, wjob, spc, si, hard, mpc, S>>
UDrop(t) == /\ upc[t] = "drop" /\ S' = StepSet(S, Ev("drop", t, <<Job(t)>>)) /\ upc' = [upc EXCEPT ![t] = "ret"]
            /\ UNCHANGED <<jobs, cnt, bstop, bwant, ujob, wpc, wjob, spc, si, hard, mpc>>
UNotify(t) == /\ upc[t] = "notify" /\ upc' = [upc EXCEPT ![t] = "ret"] /\ wpc' \in Wake1(wpc)
              /\ UNCHANGED <<jobs, cnt, bstop, bwant, ujob, wjob, spc, si, hard, mpc, S>>
URet(t) == /\ upc[t] = "ret" /\ S' = StepSet(S, Ev("subr", t, <<Job(t)>>))
           /\ upc' = [upc EXCEPT ![t] = "start"] /\ ujob' = [ujob EXCEPT ![t] = @ + 1]
           /\ UNCHANGED <<jobs, cnt, bstop, bwant, wpc, wjob, spc, si, hard, mpc>>
\* worker, holding the mutex: next job, or stop, or leave, or wait
WLoop(w) == /\ wpc[w] = "loop"
            /\ IF jobs # <<>>
               THEN /\ jobs' = Tail(jobs) /\ wjob' = [wjob EXCEPT ![w] = Head(jobs)]
                    /\ wpc' = [wpc EXCEPT ![w] = "call"] /\ UNCHANGED bstop
               ELSE IF cnt = 0 /\ bwant
               THEN bstop' = TRUE /\ wpc' = [wpc EXCEPT ![w] = "stopall"] /\ UNCHANGED <<jobs, wjob>>
               ELSE IF bstop THEN wpc' = [wpc EXCEPT ![w] = "exit"] /\ UNCHANGED <<jobs, wjob, bstop>>
               ELSE wpc' = [wpc EXCEPT ![w] = "wait"] /\ UNCHANGED <<jobs, wjob, bstop>>
            /\ UNCHANGED <<cnt, bwant, upc, ujob, spc, si, hard, mpc, S>>
WStopAll(w) == /\ wpc[w] = "stopall" /\ wpc' = [WakeAll(wpc) EXCEPT ![w] = "exit"]
               /\ UNCHANGED <<jobs, cnt, bstop, bwant, upc, ujob, wjob, spc, si, hard, mpc, S>>
WCall(w) == /\ wpc[w] = "call" /\ S' = StepSet(S, Ev("run", 10 + w, <<wjob[w]>>)) /\ wpc' = [wpc EXCEPT ![w] = "in"]
            /\ UNCHANGED <<jobs, cnt, bstop, bwant, upc, ujob, wjob, spc, si, hard, mpc>>
WEnd(w) == /\ wpc[w] = "in" /\ S' = StepSet(S, Ev("ran", 10 + w, <<wjob[w]>>)) /\ wpc' = [wpc EXCEPT ![w] = "pop"]
           /\ UNCHANGED <<jobs, cnt, bstop, bwant, upc, ujob, wjob, spc, si, hard, mpc>>
WPop(w) == /\ wpc[w] = "pop" /\ cnt' = cnt - 1 /\ wpc' = [wpc EXCEPT ![w] = "loop"]
           /\ UNCHANGED <<jobs, bstop, bwant, upc, ujob, wjob, spc, si, hard, mpc, S>>
\* stopping thread 9
SStart == /\ spc = "start" /\ si <= Len(Stops) /\ S' = StepSet(S, Ev("stop", 9, <<Stops[si]>>)) /\ spc' = "lock"
          /\ UNCHANGED <<jobs, cnt, bstop, bwant, upc, ujob, wpc, wjob, si, hard, mpc>>
SLock == /\ spc = "lock"
         /\ CASE Stops[si] = 0 -> bstop' = TRUE /\ spc' = "notify" /\ UNCHANGED <<jobs, bwant, hard>>
              [] Stops[si] = 1 -> IF cnt = 0 THEN bstop' = TRUE /\ spc' = "notify" /\ UNCHANGED <<jobs, bwant, hard>>
                                  ELSE bwant' = TRUE /\ spc' = "ret" /\ UNCHANGED <<jobs, bstop, hard>>
              [] Stops[si] = 2 -> bstop' = TRUE /\ hard' = jobs /\ jobs' = <<>> /\ spc' = "notify" /\ UNCHANGED bwant
         /\ UNCHANGED <<cnt, upc, ujob, wpc, wjob, si, mpc, S>>
SNotify == /\ spc = "notify" /\ wpc' = WakeAll(wpc) /\ spc' = "drop"
           /\ UNCHANGED <<jobs, cnt, bstop, bwant, upc, ujob, wjob, si, hard, mpc, S>>
SDrop == /\ spc = "drop"
         /\ IF hard = <<>> THEN spc' = "ret" /\ UNCHANGED <<hard, S>>
            ELSE S' = StepSet(S, Ev("drop", 9, <<Head(hard)>>)) /\ hard' = Tail(hard) /\ UNCHANGED spc
         /\ UNCHANGED <<jobs, cnt, bstop, bwant, upc, ujob, wpc, wjob, si, mpc>>
SRet == /\ spc = "ret" /\ S' = StepSet(S, Ev("stopr", 9, <<Stops[si]>>)) /\ si' = si + 1 /\ spc' = "start"
        /\ UNCHANGED <<jobs, cnt, bstop, bwant, upc, ujob, wpc, wjob, hard, mpc>>
\* Wait (thread 9 again, after its stops)
MWait == /\ spc = "start" /\ si > Len(Stops) /\ mpc = "start" /\ S' = StepSet(S, Ev("wait", 9, <<>>)) /\ mpc' = "join"
         /\ UNCHANGED <<jobs, cnt, bstop, bwant, upc, ujob, wpc, wjob, spc, si, hard>>
MJoin == /\ mpc = "join" /\ \A w \in W : wpc[w] = "exit"
         /\ S' = StepSet(S, Ev("waitr", 9, <<>>)) /\ mpc' = "joined"
         /\ UNCHANGED <<jobs, cnt, bstop, bwant, upc, ujob, wpc, wjob, spc, si, hard>>
Finish == /\ mpc = "joined" /\ \A t \in Threads : upc[t] = "start" /\ ujob[t] > JobsPer
          /\ S' = StepSet(S, Ev("end", 9, <<0, 0, 0, 0, 0, 0>>)) /\ mpc' = "end"
          /\ UNCHANGED <<jobs, cnt, bstop, bwant, upc, ujob, wpc, wjob, spc, si, hard>>
Done == mpc = "end" /\ UNCHANGED vars
U(t) == UStart(t) \/ ULock(t) \/ UDrop(t) \/ UNotify(t) \/ URet(t)
WW(w) == WLoop(w) \/ WStopAll(w) \/ WCall(w) \/ WEnd(w) \/ WPop(w)
SS == SStart \/ SLock \/ SNotify \/ SDrop \/ SRet \/ MWait \/ MJoin \/ Finish
Next == (\E t \in Threads : U(t)) \/ (\E w \in W : WW(w)) \/ SS \/ Done
Spec == Init /\ [][Next]_vars /\ (\A t \in Threads : WF_vars(U(t))) /\ (\A w \in W : WF_vars(WW(w))) /\ WF_vars(SS)
Stops0 == <<0>>
Stops1 == <<1>>
Stops2 == <<1, 2>>
ContractHolds == S # {}
Terminates == <>(mpc = "end")
=============================================================================
