------------------------------ MODULE CoroImpl -------------------------------
(* C13 design model: one coroutine, one co_await of N futures                 *)
(* (await_awaiter.hpp, await_on_awaiter.hpp).  KIND 0 inline, 2 sticky (the   *)
(* coroutine runs on executor 1), 3 on executor 1.  REF: executor 1 refuses   *)
(* the resumption.  The awaiter lives in the frame: nobody touches it after   *)
(* the coroutine is resumed.                                                  *)
EXTENDS Coro, TLC
CONSTANTS N, KIND, REF
Fs == 1..N
VARIABLES word, cnt, alive, ppc, cpc, i, wc, job, bad, S
vars == <<word, cnt, alive, ppc, cpc, i, wc, job, bad, S>>
Ev(n, t, a) == [e |-> n, t |-> t, a |-> a]
Log(n, t, a) == S' = StepSet(S, Ev(n, t, a))
Quiet == S' = S
Id(f) == 9 + f
T0 == IF KIND = 2 THEN 9 ELSE 0          \* the thread it starts on
W0 == IF KIND = 2 THEN 1 ELSE 0
In0 == [st |-> 0, x |-> 0, val |-> 0, tk |-> "no"]
Init == /\ word = [f \in Fs |-> "empty"] /\ cnt = N + 1 /\ alive = TRUE
        /\ ppc = [f \in Fs |-> "start"] /\ cpc = "start" /\ i = 1 /\ wc = 0 /\ job = FALSE /\ bad = FALSE
        /\ S = LET s1 == {[Init0 EXCEPT !.in = [k \in {Id(f) : f \in Fs} |-> In0]]}
                   s2 == StepSet(s1, Ev("born", 0, <<1, 1>>))
               IN StepSet(s2, Ev("start", 0, <<1, IF KIND = 2 THEN 1 ELSE -1>>))
(* resumption and refusal, by thread t *)
Resume(t, w) == /\ Log("res", t, <<1, w, -1>>) /\ cpc' = "after" /\ alive' = FALSE /\ i' = 1
Submit(t) == IF REF THEN /\ Log("refuse", t, <<1>>) /\ cpc' = "dropped" /\ alive' = alive /\ job' = job /\ i' = i
             ELSE Quiet /\ job' = TRUE /\ UNCHANGED <<cpc, alive, i>>
Act(t) == IF KIND = 0 THEN Resume(t, 0) /\ job' = job ELSE Submit(t)
(* ---- producers *)
UnC == UNCHANGED <<cpc, i, wc, job, alive>>
PSet(f) == /\ ppc[f] = "start" /\ Log("set", f, <<Id(f), f>>) /\ ppc' = [ppc EXCEPT ![f] = "xchg"]
           /\ UNCHANGED <<word, cnt, bad>> /\ UnC
PXchg(f) == /\ ppc[f] = "xchg" /\ Quiet
            /\ ppc' = [ppc EXCEPT ![f] = IF word[f] = "cb" THEN IF N = 1 THEN "act" ELSE "sub" ELSE "done"]
            /\ word' = [word EXCEPT ![f] = "result"]
            /\ UNCHANGED <<cnt, bad>> /\ UnC
PSub(f) == /\ ppc[f] = "sub" /\ Quiet /\ cnt' = cnt - 1 /\ bad' = (bad \/ ~alive)
           /\ ppc' = [ppc EXCEPT ![f] = IF cnt = 1 THEN "act" ELSE "done"]
           /\ UNCHANGED word /\ UnC
PAct(f) == /\ ppc[f] = "act" /\ bad' = (bad \/ ~alive) /\ Act(f) /\ ppc' = [ppc EXCEPT ![f] = "done"]
           /\ UNCHANGED <<word, cnt, wc>>
(* ---- the coroutine *)
UnP == UNCHANGED <<ppc, bad>>
CStart == /\ cpc = "start" /\ Log("body", T0, <<1, W0>>) /\ cpc' = "aw"
          /\ UNCHANGED <<word, cnt, alive, i, wc, job>> /\ UnP
CAw == /\ cpc = "aw" /\ Log("aw", T0, <<1, KIND, IF KIND = 3 THEN 1 ELSE 0, W0>> \o [f \in Fs |-> Id(f)])
       /\ cpc' = IF N = 1 THEN IF KIND = 3 THEN "cas" ELSE "ready" ELSE "reg"
       /\ UNCHANGED <<word, cnt, alive, i, wc, job>> /\ UnP
CReady == /\ cpc = "ready" /\ IF word[1] = "result" THEN Resume(T0, W0) ELSE Quiet /\ cpc' = "cas" /\ UNCHANGED <<i, alive>>
          /\ UNCHANGED <<word, cnt, wc, job>> /\ UnP
\* nothing of the coroutine is touched after a successful registration
CCas == /\ cpc = "cas"
        /\ IF word[1] = "empty" THEN Quiet /\ word' = [word EXCEPT ![1] = "cb"] /\ cpc' = "susp" /\ UNCHANGED <<i, alive, job>>
           ELSE /\ word' = word
                /\ IF KIND = 3 THEN IF REF THEN Submit(T0) ELSE Quiet /\ job' = TRUE /\ cpc' = "susp" /\ UNCHANGED <<i, alive>>
                   ELSE Resume(T0, W0) /\ job' = job
        /\ UNCHANGED <<cnt, wc>> /\ UnP
CReg == /\ cpc = "reg" /\ Quiet
        /\ IF word[i] = "empty" THEN word' = [word EXCEPT ![i] = "cb"] /\ wc' = wc + 1 ELSE UNCHANGED <<word, wc>>
        /\ IF i = N THEN cpc' = "fix" /\ i' = 1 ELSE cpc' = cpc /\ i' = i + 1
        /\ UNCHANGED <<cnt, alive, job>> /\ UnP
CFix == /\ cpc = "fix" /\ Quiet /\ cnt' = cnt - (N - wc) /\ cpc' = IF KIND = 3 THEN "sub" ELSE "mready"
        /\ UNCHANGED <<word, alive, i, wc, job>> /\ UnP
CMReady == /\ cpc = "mready" /\ IF cnt = 1 THEN Resume(T0, W0) ELSE Quiet /\ cpc' = "sub" /\ UNCHANGED <<i, alive>>
           /\ UNCHANGED <<word, cnt, wc, job>> /\ UnP
CSub == /\ cpc = "sub" /\ cnt' = cnt - 1
        /\ IF cnt # 1 THEN Quiet /\ cpc' = "susp" /\ UNCHANGED <<i, alive, job>>
           ELSE IF KIND = 3 THEN IF REF THEN Submit(T0) ELSE Quiet /\ job' = TRUE /\ cpc' = "susp" /\ UNCHANGED <<i, alive>>
           ELSE Resume(T0, W0) /\ job' = job
        /\ UNCHANGED <<word, wc>> /\ UnP
\* the worker of executor 1; for KIND 2 it is busy until the coroutine is suspended
WRun == /\ job /\ cpc = "susp" /\ Resume(9, 1) /\ job' = FALSE
        /\ UNCHANGED <<word, cnt, wc>> /\ UnP
(* ---- the rest of the coroutine *)
CAfter == /\ cpc = "after"
          /\ IF i <= N THEN Log("after", 5, <<1, Id(i), 1, IF word[i] = "result" THEN 1 ELSE 0, i>>) /\ i' = i + 1 /\ cpc' = cpc
             ELSE Log("ret", 5, <<1, 91>>) /\ cpc' = "loc" /\ i' = i
          /\ UNCHANGED <<word, cnt, alive, wc, job>> /\ UnP
Step1(a, b, n, args) == /\ cpc = a /\ Log(n, 5, args) /\ cpc' = b /\ UNCHANGED <<word, cnt, alive, i, wc, job>> /\ UnP
CLoc == Step1("loc", "out", "loc", <<1>>)
COut == Step1("out", "gone", "out", <<1, 0, 91>>)
CGone == Step1("gone", "fin", "gone", <<1>>)
DOut == Step1("dropped", "dloc", "out", <<1, 0, 1000>>)
DLoc == Step1("dloc", "dgone", "loc", <<1>>)
DGone == Step1("dgone", "fin", "gone", <<1>>)
CEnd == (\A f \in Fs : ppc[f] = "done") /\ Step1("fin", "end", "end", <<0, 0, 0, 0, 0, 0>>)
Halt == cpc = "end" /\ UNCHANGED vars
Next == \/ \E f \in Fs : PSet(f) \/ PXchg(f) \/ PSub(f) \/ PAct(f)
        \/ CStart \/ CAw \/ CReady \/ CCas \/ CReg \/ CFix \/ CMReady \/ CSub \/ WRun
        \/ CAfter \/ CLoc \/ COut \/ CGone \/ DOut \/ DLoc \/ DGone \/ CEnd \/ Halt
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Conforms == S # {}
NotTouched == ~bad
Terminates == <>(cpc = "end")
=============================================================================
