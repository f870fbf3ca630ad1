------------------------------- MODULE WhenImpl -------------------------------
(* C09, C10 design model: When() with the strategies All, Join and Any.       *)
(* Each input's callback word is "empty", "cb" or "result"; whoever meets     *)
(* both the callback and the result consumes: the setter or the combinator    *)
(* call.  cnt: references of the combinator, flag: the strategy's word.       *)
EXTENDS When, TLC, Integers
CONSTANTS K, N
Is == 1..N
VARIABLES word, val, ppc, wpc, i, cpc, rel, cnt, flag, err, out, sets, ocb, S
vars == <<word, val, ppc, wpc, i, cpc, rel, cnt, flag, err, out, sets, ocb, S>>
Ev(n, a) == [e |-> n, t |-> 0, a |-> a]
Log(n, a) == S' = StepSet(S, Ev(n, a))
Quiet == S' = S
Kind == Kinds[K + 1]
All == Kind \in {"AllNone", "AllFirst"}

Init == /\ word = [f \in Is |-> "empty"] /\ val \in [Is -> {7, 1000}]
        /\ ppc = [f \in Is |-> "start"] /\ wpc = "start" /\ i = 1
        /\ cpc = [f \in Is |-> "none"] /\ rel = [f \in Is |-> 0] /\ cnt = N
        /\ flag = IF Kind = "AnyLast" THEN 2 * N ELSE 0
        /\ err = 0 /\ out = <<>> /\ sets = 0 /\ ocb = FALSE
        /\ S = StepSet({Init0}, Ev("cfg", <<K, N>>))
V(f) == IF val[f] = 7 THEN 7 + f ELSE 1000 + f
UnP == UNCHANGED <<val, wpc, i, rel, cnt, flag, err, out, sets, ocb>>
(* ---- setters *)
PSet(f) == /\ ppc[f] = "start" /\ Log("set", <<f, V(f)>>) /\ ppc' = [ppc EXCEPT ![f] = "xchg"]
           /\ UNCHANGED <<word, cpc>> /\ UnP
PXchg(f) == /\ ppc[f] = "xchg" /\ Quiet /\ word' = [word EXCEPT ![f] = "result"]
            /\ ppc' = [ppc EXCEPT ![f] = IF word[f] = "cb" THEN "cons" ELSE "ret"]
            /\ cpc' = IF word[f] = "cb" THEN [cpc EXCEPT ![f] = "c1"] ELSE cpc
            /\ UnP
PRet(f) == /\ (ppc[f] = "ret" \/ (ppc[f] = "cons" /\ cpc[f] = "done"))
           /\ Log("setr", <<f>>) /\ ppc' = [ppc EXCEPT ![f] = "done"]
           /\ UNCHANGED <<word, cpc>> /\ UnP
(* ---- the combinator call, then the caller attaches a callback to the output *)
UnW == UNCHANGED <<val, ppc, rel, cnt, flag, err, out, sets>>
WStart == /\ wpc = "start" /\ Log("when", <<>>) /\ wpc' = "reg" /\ UNCHANGED <<word, cpc, i, ocb>> /\ UnW
WReg == /\ wpc = "reg" /\ Quiet /\ UNCHANGED <<ocb>>
        /\ IF word[i] = "empty" THEN word' = [word EXCEPT ![i] = "cb"] /\ wpc' = "next" /\ cpc' = cpc
           ELSE word' = word /\ wpc' = "cons" /\ cpc' = [cpc EXCEPT ![i] = "c1"]
        /\ i' = i /\ UnW
WNext == /\ (wpc = "next" \/ (wpc = "cons" /\ cpc[i] = "done")) /\ Quiet
         /\ IF i = N THEN wpc' = "ret" /\ i' = i ELSE wpc' = "reg" /\ i' = i + 1
         /\ UNCHANGED <<word, cpc, ocb>> /\ UnW
WRet == /\ wpc = "ret" /\ Log("whenr", <<1>>) /\ wpc' = "sub" /\ UNCHANGED <<word, cpc, i, ocb>> /\ UnW
WSub == /\ wpc = "sub" /\ Log("sub", <<>>) /\ wpc' = "attach" /\ UNCHANGED <<word, cpc, i, ocb>> /\ UnW
WAttach == /\ wpc = "attach" /\ Quiet
           /\ IF out = <<>> THEN ocb' = TRUE /\ wpc' = "subr" ELSE ocb' = ocb /\ wpc' = "fire"
           /\ UNCHANGED <<word, cpc, i>> /\ UnW
WFire == /\ wpc = "fire" /\ Log("cb", out) /\ wpc' = "subr" /\ UNCHANGED <<word, cpc, i, ocb>> /\ UnW
WSubR == /\ wpc = "subr" /\ Log("subr", <<>>) /\ wpc' = "done" /\ UNCHANGED <<word, cpc, i, ocb>> /\ UnW
(* ---- consumption of input f *)
Go(f, l) == cpc' = [cpc EXCEPT ![f] = l]
UnC == UNCHANGED <<word, val, ppc, wpc, i, ocb>>
F(f) == Fail(V(f))
Managed(f) == rel' = IF All THEN rel ELSE [rel EXCEPT ![f] = @ + 1]
C1(f) ==
  /\ cpc[f] = "c1" /\ Quiet
  /\ Go(f, CASE Kind \in {"AllNone", "JoinNone"} -> "dec"
             [] Kind \in {"AllFirst", "JoinFirst"} -> IF F(f) /\ flag = 0 THEN "c2" ELSE "dec"
             [] Kind = "AnyNone" -> IF flag = 0 THEN "c2" ELSE "dec"
             [] Kind = "AnyFirst" -> IF F(f) THEN (IF flag = 0 THEN "c2" ELSE "dec") ELSE (IF flag # 2 THEN "c2" ELSE "dec")
             [] OTHER -> IF flag % 2 = 0 THEN "c2" ELSE "dec")
  /\ Managed(f) /\ UNCHANGED <<cnt, flag, err, out, sets>> /\ UnC
C2(f) ==
  /\ cpc[f] = "c2" /\ Quiet
  /\ CASE Kind \in {"AllFirst", "JoinFirst", "AnyNone"} -> flag' = 1 /\ Go(f, IF flag = 0 THEN "set" ELSE "dec")
       [] Kind = "AnyFirst" /\ ~F(f) -> flag' = 2 /\ Go(f, IF flag # 2 THEN "set" ELSE "dec")
       [] Kind = "AnyFirst" /\ F(f) -> IF flag = 0 THEN flag' = 1 /\ Go(f, "save") ELSE flag' = flag /\ Go(f, "dec")
       [] Kind = "AnyLast" /\ ~F(f) -> flag' = 1 /\ Go(f, IF flag % 2 = 0 THEN "set" ELSE "dec")
       [] OTHER -> flag' = flag - 2 /\ Go(f, IF flag = 2 THEN "set" ELSE "dec")
  /\ UNCHANGED <<rel, cnt, err, out, sets>> /\ UnC
CSave(f) == /\ cpc[f] = "save" /\ Quiet /\ err' = V(f) /\ Go(f, "dec")
            /\ UNCHANGED <<rel, cnt, flag, out, sets>> /\ UnC
Put(f, o, fire, rest) == /\ out' = o /\ sets' = sets + 1 /\ Go(f, IF ocb THEN fire ELSE rest)
CSet(f) == /\ cpc[f] = "set" /\ Quiet /\ Put(f, <<1, V(f)>>, "cb", "dec")
           /\ UNCHANGED <<rel, cnt, flag, err>> /\ UnC
CCb(f) == /\ cpc[f] \in {"cb", "cbd"} /\ Log("cb", out) /\ Go(f, IF cpc[f] = "cb" THEN "dec" ELSE "done")
          /\ UNCHANGED <<rel, cnt, flag, err, out, sets>> /\ UnC
CDec(f) == /\ cpc[f] = "dec" /\ Quiet /\ cnt' = cnt - 1 /\ Go(f, IF cnt = 1 THEN "dtor" ELSE "done")
           /\ UNCHANGED <<rel, flag, err, out, sets>> /\ UnC
CDtor(f) ==
  /\ cpc[f] = "dtor" /\ Quiet
  /\ rel' = IF All THEN [x \in Is |-> rel[x] + 1] ELSE rel
  /\ CASE All /\ sets = 0                                    -> Put(f, <<0>> \o [x \in Is |-> V(x)], "cbd", "done")
       [] Kind \in {"JoinNone", "JoinFirst"} /\ sets = 0     -> Put(f, <<1, 0>>, "cbd", "done")
       [] Kind = "AnyFirst" /\ sets = 0                      -> Put(f, <<1, err>>, "cbd", "done")
       [] OTHER -> Go(f, "done") /\ UNCHANGED <<out, sets>>
  /\ UNCHANGED <<cnt, flag, err>> /\ UnC
(* ---- *)
Over2 == wpc = "done" /\ \A f \in Is : ppc[f] = "done"
End == /\ Over2 /\ wpc' = "end"
       /\ Log("end", <<0, IF \A f \in Is : rel[f] = 1 THEN 0 ELSE 1, IF sets = 1 THEN 0 ELSE 1, 0, 0, 0>>)
       /\ UNCHANGED <<word, cpc, i, ocb>> /\ UnW
Stop == wpc = "end" /\ UNCHANGED vars
Next == \/ \E f \in Is : PSet(f) \/ PXchg(f) \/ PRet(f) \/ C1(f) \/ C2(f) \/ CSave(f) \/ CSet(f) \/ CCb(f) \/ CDec(f) \/ CDtor(f)
        \/ WStart \/ WReg \/ WNext \/ WRet \/ WSub \/ WAttach \/ WFire \/ WSubR \/ End \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Conforms == S # {}
Once == sets <= 1
Terminates == <>(wpc = "end")
=============================================================================
