-------------------------- MODULE SharedFutureImpl --------------------------
(* C06 design model: SharedCore as the code implements it.                    *)
(* callback word = list of callbacks or "result"; one reference count whose   *)
(* thresholds decide who may move the value out (ResultCore::Impl,            *)
(* SharedFutureBase::Get &&).  Observer kinds:                                *)
(*   S subscribe (const access)   C Connect to a Promise (may move when the   *)
(*   count is 2)   E Then on an executor (keeps a reference)   G Get()&& (may *)
(*   move when the count is 1)    D only drops its copy                       *)
(* Every observer owns one copy and drops it after its operation; main owns   *)
(* one copy when KEEP and reads it at the end.                                *)
EXTENDS SharedFuture, TLC
CONSTANTS NOBS, KEEP
Obs == 1..NOBS
Kinds == {"S", "C", "E", "G", "D"}
VARIABLES kind, ready, list, ref, val, freed, pc, loc, fpc, rest, jpc, S
vars == <<kind, ready, list, ref, val, freed, pc, loc, fpc, rest, jpc, S>>

Ev(n, a) == [e |-> n, t |-> 0, a |-> a]
Log(n, a) == S' = StepSet(S, Ev(n, a))
Quiet == S' = S
\* main's copy counts as observer 0, which reads at the very end
Init == /\ kind \in [Obs -> Kinds]
        /\ ready = FALSE /\ list = <<>> /\ ref = 3 + NOBS + (IF KEEP THEN 1 ELSE 0)
        /\ val = 7 /\ freed = FALSE
        /\ pc = [o \in Obs |-> "start"] /\ loc = [o \in Obs |-> 0]
        /\ fpc = "start" /\ rest = <<>> /\ jpc = [o \in Obs |-> "none"] /\ S = {Init0}

Dec(n) == /\ ref' = ref - n
          /\ freed' = (freed \/ ref - n = 0)
\* an access to the core; a freed core yields garbage
Rd == IF freed THEN 0 - 9 ELSE val

UnF == UNCHANGED <<fpc, rest, jpc>>
(* ----------------------------- observers --------------------------------- *)
OStart(o) ==
  /\ pc[o] = "start"
  /\ IF kind[o] = "D" THEN pc' = [pc EXCEPT ![o] = "drop"] /\ Quiet
     ELSE /\ pc' = [pc EXCEPT ![o] = "push"]
          /\ IF kind[o] = "G" THEN Log("get", <<o>>) ELSE Log("sub", <<o>>)
  /\ UNCHANGED <<kind, ready, list, ref, val, freed, loc>> /\ UnF
OPush(o) ==
  /\ pc[o] = "push"
  /\ IF ready
     THEN list' = list /\ pc' = [pc EXCEPT ![o] = IF kind[o] = "G" THEN "rdref" ELSE IF kind[o] = "E" THEN "inc" ELSE "inline"]
     ELSE list' = <<o>> \o list /\ pc' = [pc EXCEPT ![o] = IF kind[o] = "G" THEN "wait" ELSE "drop"]
  /\ Quiet /\ UNCHANGED <<kind, ready, ref, val, freed, loc>> /\ UnF
OInc(o) == /\ pc[o] = "inc" /\ ref' = ref + 1 /\ pc' = [pc EXCEPT ![o] = "drop"] /\ jpc' = [jpc EXCEPT ![o] = "run"]
           /\ Quiet /\ UNCHANGED <<kind, ready, list, val, freed, loc, fpc, rest>>
\* result already there: the observer's own thread reads it through its copy
OInline(o) == /\ pc[o] = "inline" /\ pc' = [pc EXCEPT ![o] = "drop"] /\ Log("cb", <<o, Rd>>)
              /\ UNCHANGED <<kind, ready, list, ref, val, freed, loc>> /\ UnF
\* the executor runs the job whenever it likes, then releases its reference
JRun(o) == /\ jpc[o] = "run" /\ jpc' = [jpc EXCEPT ![o] = "dec"] /\ Log("cb", <<o, Rd>>)
           /\ UNCHANGED <<kind, ready, list, ref, val, freed, pc, loc, fpc, rest>>
JDec(o) == /\ jpc[o] = "dec" /\ jpc' = [jpc EXCEPT ![o] = "done"] /\ Dec(1) /\ Quiet
           /\ UNCHANGED <<kind, ready, list, val, pc, loc, fpc, rest>>
ORef(o) == /\ pc[o] = "rdref" /\ loc' = [loc EXCEPT ![o] = ref] /\ pc' = [pc EXCEPT ![o] = "rd"] /\ Quiet
           /\ UNCHANGED <<kind, ready, list, ref, val, freed>> /\ UnF
ORd(o) == /\ pc[o] = "rd" /\ pc' = [pc EXCEPT ![o] = "drop"] /\ Log("getr", <<o, Rd>>)
          /\ val' = IF loc[o] = 1 THEN 0 - 1 ELSE val
          /\ UNCHANGED <<kind, ready, list, ref, freed, loc>> /\ UnF
ODrop(o) == /\ pc[o] = "drop" /\ pc' = [pc EXCEPT ![o] = "done"] /\ Dec(1) /\ Quiet
            /\ UNCHANGED <<kind, ready, list, val, loc>> /\ UnF
(* ----------------------------- fulfilment --------------------------------- *)
UnO == UNCHANGED <<kind, pc, loc, jpc>>
FSet == /\ fpc = "start" /\ fpc' = "xchg" /\ Log("set", <<7>>)
        /\ UNCHANGED <<ready, list, ref, val, freed, rest>> /\ UnO
FXchg == /\ fpc = "xchg" /\ ready' = TRUE /\ rest' = list /\ list' = <<>> /\ Quiet
         /\ fpc' = IF Len(list) = 0 THEN "dec3" ELSE "loop"
         /\ UNCHANGED <<ref, val, freed>> /\ UnO
\* the promise gives up one reference before the last callback
FLoop == /\ fpc = "loop" /\ Quiet
         /\ IF Len(rest) = 1 THEN Dec(1) ELSE UNCHANGED <<ref, freed>>
         /\ fpc' = "call"
         /\ UNCHANGED <<ready, list, val, rest>> /\ UnO
FCall ==
  /\ fpc = "call"
  /\ LET o == rest[1] IN
     \/ /\ kind[o] = "S" /\ Log("cb", <<o, Rd>>) /\ fpc' = "next" /\ UNCHANGED <<pc, loc, ref, jpc>>
     \/ /\ kind[o] = "G" /\ Quiet /\ pc' = [pc EXCEPT ![o] = "rdref"] /\ fpc' = "next" /\ UNCHANGED <<loc, ref, jpc>>
     \/ /\ kind[o] = "E" /\ Quiet /\ ref' = ref + 1 /\ jpc' = [jpc EXCEPT ![o] = "run"] /\ fpc' = "next"
        /\ UNCHANGED <<pc, loc>>
     \/ /\ kind[o] = "C" /\ Quiet /\ loc' = [loc EXCEPT ![o] = ref] /\ fpc' = "crd" /\ UNCHANGED <<pc, ref, jpc>>
  /\ UNCHANGED <<kind, ready, list, val, freed, rest>>
FCRd == /\ fpc = "crd" /\ fpc' = "next"
        /\ Log("cb", <<rest[1], Rd>>)
        /\ val' = IF loc[rest[1]] >= 3 THEN val ELSE 0 - 1
        /\ UNCHANGED <<ready, list, ref, freed, rest>> /\ UnO
FNext == /\ fpc = "next" /\ Quiet
         /\ rest' = Tail(rest)
         /\ fpc' = IF Len(rest) = 1 THEN "dec2" ELSE "loop"
         /\ UNCHANGED <<ready, list, ref, val, freed>> /\ UnO
FDec3 == /\ fpc = "dec3" /\ Dec(1) /\ fpc' = "dec2" /\ Quiet /\ UNCHANGED <<ready, list, val, rest>> /\ UnO
FDec2 == /\ fpc = "dec2" /\ Dec(1) /\ fpc' = "dec1" /\ Quiet /\ UNCHANGED <<ready, list, val, rest>> /\ UnO
FDec1 == /\ fpc = "dec1" /\ Dec(1) /\ fpc' = "ret" /\ Quiet /\ UNCHANGED <<ready, list, val, rest>> /\ UnO
FRet == /\ fpc = "ret" /\ Log("setr", <<>>) /\ fpc' = "done" /\ UNCHANGED <<ready, list, ref, val, freed, rest>> /\ UnO
(* ----------------------------- the end ------------------------------------ *)
Over == fpc = "done" /\ \A o \in Obs : pc[o] = "done" /\ jpc[o] \in {"none", "done"}
End == /\ Over
       /\ fpc' = "end"
       /\ IF KEEP THEN S' = StepSet(StepSet(StepSet(S, Ev("touch", <<0, Rd>>)), Ev("rdy", <<0, 1>>)), Ev("end", <<0, 0, 0, 0, 0, IF ref = 1 THEN 0 ELSE 1>>))
                  ELSE S' = StepSet(S, Ev("end", <<0, 0, 0, 0, 0, IF ref = 0 /\ freed THEN 0 ELSE 1>>))
       /\ UNCHANGED <<kind, ready, list, ref, val, freed, pc, loc, rest, jpc>>
Stop == fpc = "end" /\ UNCHANGED vars
Next == \/ \E o \in Obs : OStart(o) \/ OPush(o) \/ OInc(o) \/ OInline(o) \/ JRun(o) \/ JDec(o) \/ ORef(o) \/ ORd(o) \/ ODrop(o)
        \/ FSet \/ FXchg \/ FLoop \/ FCall \/ FCRd \/ FNext \/ FDec3 \/ FDec2 \/ FDec1 \/ FRet
        \/ End \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Conforms == S # {}
NoUse == ~freed \/ ref = 0
Terminates == <>(fpc = "end")
=============================================================================
