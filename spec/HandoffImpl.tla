---------------------------- MODULE HandoffImpl -----------------------------
(* Implementation-level model of BaseCore::_callback for a unique core         *)
(* (src/algo/base_core.cpp): one action per atomic operation.                  *)
(*   word  "empty" | "result" | "cb" (a continuation, a blocking waiter, a     *)
(*         Drop continuation or the core of a connected promise)               *)
(* The producer stores the result and exchanges the word; the consumer loads   *)
(* the word and CASes its callback in; whoever comes second runs the callback. *)
(* Every action that the client can observe feeds the contract monitor S of    *)
(* Handoff.tla; S = {} means the design breaks the contract.                   *)
EXTENDS Handoff, TLC
CONSTANTS ProdVals,  \* what is set (a dropped promise sets StopError = 1000)
          Kinds      \* consumer programs
VARIABLES word, stored, ppc, cpc, kind, val, ev, S, seen, todo, ran
vars == <<word, stored, ppc, cpc, kind, val, ev, S, seen, todo, ran>>

E0(n)     == [e |-> n, a |-> <<>>]
E1(n, x)  == [e |-> n, a |-> <<x>>]
E2(n, x, y) == [e |-> n, a |-> <<x, y>>]
Feed(T, e) == StepSet(T, e)

Init == /\ word = "empty" /\ stored = 0 - 5 /\ ppc = "start" /\ cpc = "start"
        /\ kind \in Kinds /\ val \in ProdVals
        /\ ev = FALSE /\ S = {Init0} /\ seen = 0 /\ todo = "none" /\ ran = 0

\* ---- what happens when the registered callback is run by whoever comes second
\* callback: the client continuation sees the stored result; waiter: the event is set; drop: nothing
RunCb(T) == CASE kind = "cb"   -> Feed(T, E2("cb", 1, stored))
              [] OTHER         -> T
\* ---- producer
PSet   == /\ ppc = "start" /\ ppc' = "store" /\ S' = Feed(S, E1("set", val))
          /\ UNCHANGED <<word, stored, cpc, kind, val, ev, seen, todo, ran>>
PStore == /\ ppc = "store" /\ ppc' = "xchg" /\ stored' = val
          /\ UNCHANGED <<word, cpc, kind, val, ev, S, seen, todo, ran>>
PXchg  == /\ ppc = "xchg"
          /\ word' = "result"
          /\ ppc' = IF word = "cb" THEN "run" ELSE "ret"
          /\ UNCHANGED <<stored, cpc, kind, val, ev, S, seen, todo, ran>>
PRun   == /\ ppc = "run" /\ ppc' = "ret" /\ S' = RunCb(S) /\ ran' = ran + 1
          /\ ev' = (IF kind = "get" \/ kind = "wait" THEN TRUE ELSE ev)
          /\ UNCHANGED <<word, stored, cpc, kind, val, seen, todo>>
PRet   == /\ ppc = "ret" /\ ppc' = "done" /\ S' = Feed(S, E0("setr"))
          /\ UNCHANGED <<word, stored, cpc, kind, val, ev, seen, todo, ran>>
\* ---- consumer
Call == CASE kind = "cb" -> E1("sub", 1) [] kind = "drop" -> E0("drop")
          [] kind = "get" -> E0("get") [] kind = "wait" -> E0("wait")
Return == CASE kind = "cb" -> E1("subr", 1) [] kind = "drop" -> E0("dropr")
            [] kind = "get" -> E1("getr", stored) [] kind = "wait" -> E0("waitr")
\* Ready(): may be sampled any time before the consuming call
CReady == /\ cpc = "start" /\ S' = Feed(S, E1("rdy", IF word = "result" THEN 1 ELSE 0))
          /\ UNCHANGED <<word, stored, ppc, cpc, kind, val, ev, seen, todo, ran>>
CCall  == /\ cpc = "start" /\ cpc' = "load" /\ S' = Feed(S, Call)
          /\ UNCHANGED <<word, stored, ppc, kind, val, ev, seen, todo, ran>>
CLoad  == /\ cpc = "load" /\ cpc' = IF word = "empty" THEN "cas" ELSE "inline"
          /\ UNCHANGED <<word, stored, ppc, kind, val, ev, S, seen, todo, ran>>
CCas   == /\ cpc = "cas"
          /\ IF word = "empty" THEN word' = "cb" /\ cpc' = (IF kind \in {"get", "wait"} THEN "block" ELSE "ret")
                               ELSE word' = word /\ cpc' = "inline"
          /\ UNCHANGED <<stored, ppc, kind, val, ev, S, seen, todo, ran>>
CInline == /\ cpc = "inline" /\ cpc' = "ret" /\ S' = RunCb(S) /\ ran' = ran + 1
           /\ UNCHANGED <<word, stored, ppc, kind, val, ev, seen, todo>>
CBlock == /\ cpc = "block" /\ ev /\ cpc' = "ret"
          /\ UNCHANGED <<word, stored, ppc, kind, val, ev, S, seen, todo, ran>>
CRet   == /\ cpc = "ret" /\ cpc' = "done" /\ S' = Feed(S, Return)
          /\ UNCHANGED <<word, stored, ppc, kind, val, ev, seen, todo, ran>>
Finish == /\ ppc = "done" /\ cpc = "done" /\ ppc' = "end" /\ cpc' = "end"
          /\ S' = Feed(S, [e |-> "end", a |-> <<0, 0, 0, 0, 0, 0>>])
          /\ UNCHANGED <<word, stored, kind, val, ev, seen, todo, ran>>
Done   == ppc = "end" /\ UNCHANGED vars

Next == PSet \/ PStore \/ PXchg \/ PRun \/ PRet \/ CReady \/ CCall \/ CLoad \/ CCas \/ CInline \/ CBlock
        \/ CRet \/ Finish \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

ContractHolds == S # {}
ExactlyOnce == ran <= 1
NeverEarly == ran > 0 => stored = val
Terminates == <>(ppc = "end")
=============================================================================
