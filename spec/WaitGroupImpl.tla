---------------------------- MODULE WaitGroupImpl -----------------------------
(* C16 design model: WaitGroup over OneShotEvent as the code implements them. *)
(* cnt: the counter; whoever brings it to zero runs Set: exchange the head    *)
(* for "all done", then call every registered waiter.  Actors:                *)
(*   "m"  attaches one future, then gives up item 0                           *)
(*   "p"  completes the future                                                *)
(*   "d"  Done of item 2 (added in advance)                                   *)
(* Waiters: kind "b" blocking (waiter on its stack), "t" timed (on the heap   *)
(* with two owners), "c" coroutine resumed in place.                          *)
EXTENDS WaitGroup, TLC
CONSTANTS NW
Ws == 1..NW
VARIABLES cnt, done, list, rest, cur, pc, word, kind, wpc, flag, ref, bad, S
vars == <<cnt, done, list, rest, cur, pc, word, kind, wpc, flag, ref, bad, S>>
Ev(n, a) == [e |-> n, t |-> 0, a |-> a]
Log(n, a) == S' = StepSet(S, Ev(n, a))
Quiet == S' = S
RECURSIVE Feed(_, _)
Feed(T, es) == IF es = <<>> THEN T ELSE Feed(StepSet(T, Head(es)), Tail(es))
Init == /\ cnt = 2 /\ done = FALSE /\ list = <<>> /\ rest = <<>> /\ cur = ""
        /\ pc = [a \in {"m", "p", "d"} |-> "start"] /\ word = "empty"
        /\ kind \in [Ws -> {"b", "t", "c"}]
        /\ wpc = [w \in Ws |-> "start"] /\ flag = [w \in Ws |-> FALSE] /\ ref = [w \in Ws |-> 0]
        /\ bad = FALSE
        /\ S = Feed({Init0}, <<Ev("add", <<0>>), Ev("addr", <<0>>), Ev("add", <<2>>), Ev("addr", <<2>>), Ev("fut", <<1>>)>>)
UnW == UNCHANGED <<kind, wpc, flag, ref, bad>>
UnS == UNCHANGED <<done, list, rest, cur>>
Go(a, l) == pc' = [pc EXCEPT ![a] = l]
\* fetch_sub; the one that reaches zero goes on to Set
Sub(a, l) == /\ cnt' = cnt - 1 /\ Go(a, IF cnt = 1 THEN "set_" \o l ELSE l)
             /\ cur' = IF cnt = 1 THEN a ELSE cur
(* ---- m *)
M1 == /\ pc["m"] = "start" /\ S' = Feed(S, <<Ev("add", <<1>>), Ev("att", <<1>>)>>) /\ Go("m", "add")
      /\ UNCHANGED <<cnt, word>> /\ UnS /\ UnW
M2 == /\ pc["m"] = "add" /\ Quiet /\ cnt' = cnt + 1 /\ Go("m", "cas") /\ UNCHANGED <<word>> /\ UnS /\ UnW
M3 == /\ pc["m"] = "cas" /\ Quiet /\ UNCHANGED <<cnt>> /\ UnS /\ UnW
      /\ IF word = "empty" THEN word' = "cb" /\ Go("m", "attr") ELSE word' = word /\ Go("m", "sub")
M4 == /\ pc["m"] = "sub" /\ Quiet /\ Sub("m", "attr") /\ UNCHANGED <<word, done, list, rest>> /\ UnW
M5 == /\ pc["m"] = "attr" /\ Log("attr", <<1>>) /\ Go("m", "done") /\ UNCHANGED <<cnt, word>> /\ UnS /\ UnW
M6 == /\ pc["m"] = "done" /\ Log("done", <<0>>) /\ Go("m", "dsub") /\ UNCHANGED <<cnt, word>> /\ UnS /\ UnW
M7 == /\ pc["m"] = "dsub" /\ Quiet /\ Sub("m", "doner") /\ UNCHANGED <<word, done, list, rest>> /\ UnW
M8 == /\ pc["m"] = "doner" /\ Log("doner", <<0>>) /\ Go("m", "over") /\ UNCHANGED <<cnt, word>> /\ UnS /\ UnW
(* ---- p *)
P1 == /\ pc["p"] = "start" /\ Log("set", <<1, 7>>) /\ Go("p", "xchg") /\ UNCHANGED <<cnt, word>> /\ UnS /\ UnW
P2 == /\ pc["p"] = "xchg" /\ Quiet /\ word' = "result" /\ Go("p", IF word = "cb" THEN "sub" ELSE "setr")
      /\ UNCHANGED <<cnt>> /\ UnS /\ UnW
P3 == /\ pc["p"] = "sub" /\ Quiet /\ Sub("p", "setr") /\ UNCHANGED <<word, done, list, rest>> /\ UnW
P4 == /\ pc["p"] = "setr" /\ Log("setr", <<1>>) /\ Go("p", "over") /\ UNCHANGED <<cnt, word>> /\ UnS /\ UnW
(* ---- d *)
D1 == /\ pc["d"] = "start" /\ Log("done", <<2>>) /\ Go("d", "sub") /\ UNCHANGED <<cnt, word>> /\ UnS /\ UnW
D2 == /\ pc["d"] = "sub" /\ Quiet /\ Sub("d", "doner") /\ UNCHANGED <<word, done, list, rest>> /\ UnW
D3 == /\ pc["d"] = "doner" /\ Log("doner", <<2>>) /\ Go("d", "over") /\ UNCHANGED <<cnt, word>> /\ UnS /\ UnW
(* ---- Set, run by cur *)
SXchg == \E l \in {"attr", "doner", "setr"} :
         /\ cur # "" /\ pc[cur] = "set_" \o l /\ Quiet /\ Go(cur, "loop_" \o l)
         /\ done' = TRUE /\ rest' = list /\ list' = <<>> /\ cur' = cur /\ UNCHANGED <<cnt, word>> /\ UnW
SCall == \E l \in {"attr", "doner", "setr"} :
         /\ cur # "" /\ pc[cur] = "loop_" \o l /\ rest # <<>>
         /\ LET w == Head(rest) IN
            /\ bad' = (bad \/ (kind[w] = "t" /\ ref[w] = 0) \/ (kind[w] = "b" /\ wpc[w] = "gone"))
            /\ IF kind[w] = "c" THEN Log("rel", <<w, 0>>) /\ wpc' = [wpc EXCEPT ![w] = "rel"] /\ flag' = flag /\ ref' = ref
               ELSE Quiet /\ wpc' = wpc /\ flag' = [flag EXCEPT ![w] = TRUE]
                    /\ ref' = IF kind[w] = "t" THEN [ref EXCEPT ![w] = @ - 1] ELSE ref
         /\ rest' = Tail(rest) /\ UNCHANGED <<cnt, word, done, list, cur, pc, kind>>
SEnd == \E l \in {"attr", "doner", "setr"} :
        /\ cur # "" /\ pc[cur] = "loop_" \o l /\ rest = <<>> /\ Quiet /\ Go(cur, l) /\ cur' = ""
        /\ UNCHANGED <<cnt, word, done, list, rest>> /\ UnW
(* ---- waiters *)
UnA == UNCHANGED <<cnt, pc, word, cur, rest, kind, bad>>
WStart(w) == /\ wpc[w] = "start" /\ wpc' = [wpc EXCEPT ![w] = "add"]
             /\ Log("wait", <<w, IF kind[w] = "b" THEN 0 ELSE IF kind[w] = "t" THEN 1 ELSE 2, 0>>)
             /\ ref' = [ref EXCEPT ![w] = IF kind[w] = "t" THEN 2 ELSE 0] /\ UNCHANGED <<done, list, flag>> /\ UnA
WAdd(w) == /\ wpc[w] = "add" /\ Quiet /\ UNCHANGED <<done, flag>> /\ UnA
           /\ IF done THEN list' = list /\ wpc' = [wpc EXCEPT ![w] = "yes"] /\ ref' = [ref EXCEPT ![w] = 0]
              ELSE list' = <<w>> \o list /\ wpc' = [wpc EXCEPT ![w] = "sleep"] /\ ref' = ref
WWake(w) == /\ wpc[w] = "sleep" /\ kind[w] # "c" /\ flag[w] /\ Quiet /\ wpc' = [wpc EXCEPT ![w] = "yes"]
            /\ ref' = IF kind[w] = "t" THEN [ref EXCEPT ![w] = @ - 1] ELSE ref
            /\ UNCHANGED <<done, list, flag>> /\ UnA
WTimeout(w) == /\ wpc[w] = "sleep" /\ kind[w] = "t" /\ ~flag[w] /\ Quiet /\ wpc' = [wpc EXCEPT ![w] = "no"]
               /\ ref' = [ref EXCEPT ![w] = @ - 1] /\ UNCHANGED <<done, list, flag>> /\ UnA
WRet(w) == /\ wpc[w] \in {"yes", "no"}
           /\ IF kind[w] = "c" THEN Log("rel", <<w, 0>>) /\ wpc' = [wpc EXCEPT ![w] = "rel"]
              ELSE Log("waitr", <<w, IF wpc[w] = "yes" THEN 1 ELSE 0, 1>>) /\ wpc' = [wpc EXCEPT ![w] = "gone"]
           /\ UNCHANGED <<done, list, flag, ref>> /\ UnA
(* ---- *)
Over == (\A a \in DOMAIN pc : pc[a] = "over") /\ \A w \in Ws : wpc[w] \in {"gone", "rel"}
End == /\ Over /\ cur = "" /\ cur' = "end"
       /\ Log("end", <<0, IF \A w \in Ws : ref[w] = 0 THEN 0 ELSE 1, 0, IF bad THEN 1 ELSE 0, 0, 0>>)
       /\ UNCHANGED <<cnt, done, list, rest, pc, word>> /\ UnW
Stop == cur = "end" /\ UNCHANGED vars
Next == \/ M1 \/ M2 \/ M3 \/ M4 \/ M5 \/ M6 \/ M7 \/ M8 \/ P1 \/ P2 \/ P3 \/ P4 \/ D1 \/ D2 \/ D3
        \/ (cur # "end" /\ (SXchg \/ SCall \/ SEnd)) \/ \E w \in Ws : WStart(w) \/ WAdd(w) \/ WWake(w) \/ WTimeout(w) \/ WRet(w)
        \/ End \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Conforms == S # {}
Terminates == <>(cur = "end")
=============================================================================
