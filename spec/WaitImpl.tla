------------------------------ MODULE WaitImpl -------------------------------
(* C11 design model: WaitRange (wait_impl.hpp).  Each future's callback word  *)
(* is "empty", "cb" (the waiter's event) or "result"; the event lives only    *)
(* while the waiter is inside the call; count starts at N+1.                  *)
EXTENDS Wait, TLC
CONSTANTS N, TIMED
Fs == 1..N
VARIABLES word, cnt, set, alive, ppc, wpc, i, wc, rc, seen, S
vars == <<word, cnt, set, alive, ppc, wpc, i, wc, rc, seen, S>>
Ev(n, a) == [e |-> n, t |-> 0, a |-> a]
Log(n, a) == S' = StepSet(S, Ev(n, a))
Quiet == S' = S
Init == /\ word = [f \in Fs |-> "empty"] /\ cnt = N + 1 /\ set = FALSE /\ alive = TRUE
        /\ ppc = [f \in Fs |-> "start"] /\ wpc = "start" /\ i = 1 /\ wc = 0 /\ rc = 0
        /\ seen = FALSE
        /\ S = {[Init0 EXCEPT !.f = [k \in 1..N |-> F0]]}
(* ---- producers *)
UnW == UNCHANGED <<wpc, i, wc, rc>>
PSet(f) == /\ ppc[f] = "start" /\ Log("set", <<f - 1, f>>) /\ ppc' = [ppc EXCEPT ![f] = "xchg"]
           /\ UNCHANGED <<word, cnt, set, alive, seen>> /\ UnW
PXchg(f) == /\ ppc[f] = "xchg" /\ Quiet
            /\ ppc' = [ppc EXCEPT ![f] = IF word[f] = "cb" THEN "sub" ELSE "ret"]
            /\ word' = [word EXCEPT ![f] = "result"]
            /\ UNCHANGED <<cnt, set, alive, seen>> /\ UnW
\* the event of the waiter: touched only while the waiter is inside the call
PSub(f) == /\ ppc[f] = "sub" /\ Quiet /\ cnt' = cnt - 1 /\ seen' = (seen \/ ~alive)
           /\ ppc' = [ppc EXCEPT ![f] = IF cnt = 1 THEN "signal" ELSE "ret"]
           /\ UNCHANGED <<word, set, alive>> /\ UnW
PSignal(f) == /\ ppc[f] = "signal" /\ Quiet /\ set' = TRUE /\ seen' = (seen \/ ~alive)
              /\ ppc' = [ppc EXCEPT ![f] = "ret"] /\ UNCHANGED <<word, cnt, alive>> /\ UnW
PRet(f) == /\ ppc[f] = "ret" /\ Log("setr", <<f - 1>>) /\ ppc' = [ppc EXCEPT ![f] = "done"]
           /\ UNCHANGED <<word, cnt, set, alive, seen>> /\ UnW
(* ---- the waiter *)
UnP == UNCHANGED <<ppc, seen>>
WStart == /\ wpc = "start" /\ Log("wait", <<N, IF TIMED THEN 1 ELSE 0>>) /\ wpc' = "reg"
          /\ UNCHANGED <<word, cnt, set, alive, i, wc, rc>> /\ UnP
WReg == /\ wpc = "reg" /\ Quiet
        /\ IF word[i] = "empty" THEN word' = [word EXCEPT ![i] = "cb"] /\ wc' = wc + 1 ELSE UNCHANGED <<word, wc>>
        /\ IF i = N THEN wpc' = "sub" /\ i' = 1 ELSE wpc' = wpc /\ i' = i + 1
        /\ UNCHANGED <<cnt, set, alive, rc>> /\ UnP
WSub == /\ wpc = "sub" /\ Quiet
        /\ IF wc = 0 THEN wpc' = "true" /\ cnt' = cnt
           ELSE cnt' = cnt - (N - wc + 1) /\ wpc' = IF cnt = N - wc + 1 THEN "true" ELSE "sleep"
        /\ UNCHANGED <<word, set, alive, i, wc, rc>> /\ UnP
WWake == /\ wpc = "sleep" /\ set /\ Quiet /\ wpc' = "true"
         /\ UNCHANGED <<word, cnt, set, alive, i, wc, rc>> /\ UnP
WTimeout == /\ wpc = "sleep" /\ TIMED /\ ~set /\ Quiet /\ wpc' = "reset"
            /\ UNCHANGED <<word, cnt, set, alive, i, wc, rc>> /\ UnP
WReset == /\ wpc = "reset" /\ Quiet
          /\ IF word[i] = "cb" THEN word' = [word EXCEPT ![i] = "empty"] /\ rc' = rc + 1 ELSE UNCHANGED <<word, rc>>
          /\ IF i = N THEN wpc' = "resub" /\ i' = 1 ELSE wpc' = wpc /\ i' = i + 1
          /\ UNCHANGED <<cnt, set, alive, wc>> /\ UnP
WResub == /\ wpc = "resub" /\ Quiet
          /\ IF rc = 0 THEN wpc' = "sleep2" /\ cnt' = cnt
             ELSE IF rc = wc THEN wpc' = "false" /\ cnt' = cnt
             ELSE cnt' = cnt - rc /\ wpc' = IF cnt = rc THEN "false" ELSE "sleep2"
          /\ UNCHANGED <<word, set, alive, i, wc, rc>> /\ UnP
WSleep2 == /\ wpc = "sleep2" /\ set /\ Quiet /\ wpc' = IF rc = 0 THEN "true" ELSE "false"
           /\ UNCHANGED <<word, cnt, set, alive, i, wc, rc>> /\ UnP
WRet == /\ wpc \in {"true", "false"} /\ alive' = FALSE
        /\ Log("waitr", IF wpc = "true" THEN <<1, 0>> ELSE <<0, 1>>)
        /\ wpc' = "get" /\ i' = 1 /\ UNCHANGED <<word, cnt, set, wc, rc>> /\ UnP
\* afterwards every future takes a continuation: the word must be free again
WGet == /\ wpc = "get" /\ i <= N
        /\ IF word[i] = "result" THEN /\ S' = StepSet(StepSet(StepSet(S, Ev("sub", <<i - 1>>)), Ev("cb", <<i - 1, i>>)), Ev("subr", <<i - 1>>))
                                      /\ i' = i + 1
           ELSE /\ word[i] # "result" /\ FALSE /\ i' = i /\ Quiet
        /\ UNCHANGED <<word, cnt, set, alive, wpc, wc, rc>> /\ UnP
WEnd == /\ wpc = "get" /\ i = N + 1 /\ \A f \in Fs : ppc[f] = "done"
        /\ wpc' = "end" /\ Log("end", <<0, 0, 0, 0, 0, 0>>)
        /\ UNCHANGED <<word, cnt, set, alive, i, wc, rc>> /\ UnP
Stop == wpc = "end" /\ UNCHANGED vars
Next == \/ \E f \in Fs : PSet(f) \/ PXchg(f) \/ PSub(f) \/ PSignal(f) \/ PRet(f)
        \/ WStart \/ WReg \/ WSub \/ WWake \/ WTimeout \/ WReset \/ WResub \/ WSleep2 \/ WRet \/ WGet \/ WEnd \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Conforms == S # {}
NotTouched == ~seen
\* once the call is over no word refers to the event
Won == ~alive => \A f \in Fs : word[f] # "cb"
Terminates == <>(wpc = "end")
=============================================================================
