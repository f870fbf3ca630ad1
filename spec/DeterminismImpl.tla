--------------------------- MODULE DeterminismImpl ---------------------------
(* C17, design: the random engine (seed and position), its draw count, the     *)
(* injector's counter and a run loop which picks the next fiber by a draw, and *)
(* the three ways in which a phase of a program is executed:                   *)
(*   run 1  SetSeed, phase A, (count, state) recorded, phase B                 *)
(*   junk   another program in the same process: the counters are anything     *)
(*   run 2  SetSeed, SetInjectorState(0), phase A, phase B                     *)
(*   run 3  SetSeed, ForwardToFaultRandomCount, SetInjectorState, phase B      *)
(* for every sequence of random numbers (F).  Checked: the runs show the same  *)
(* observations (by Determinism.tla's StepSet), run 3 the ones of phase B.     *)
(* Variant selects the code: "fixed", or "base" (SetSeed does not restart the  *)
(* count, ForwardToFaultRandomCount draws count numbers more).                 *)
EXTENDS Determinism, TLC
CONSTANTS Variant, Freq, Period, Fibers
VARIABLES F, pos, cnt, inj,         \* engine, count, injector (they outlive runs)
          q, left,                   \* run queue; remaining steps of each fiber
          cur, run, phase, obs, rec, S
vars == <<F, pos, cnt, inj, q, left, cur, run, phase, obs, rec, S>>
Steps == 2

Num(p, max) == F[p % Period] % max
Init == /\ F \in [0..Period - 1 -> 0..1]
        /\ pos = 0 /\ cnt = 0 /\ inj = 0 /\ q = <<>> /\ left = [f \in Fibers |-> 0]
        /\ cur = 0 /\ run = 1 /\ phase = "start" /\ obs = <<<<>>, <<>>, <<>>>> /\ rec = <<0, 0>> /\ S = {Init0}
Log(x) == obs' = [obs EXCEPT ![run] = Append(@, x)]
\* ------------------------------------------------------ beginning of a run
Seeded == cnt' = IF Variant = "fixed" THEN 0 ELSE cnt
Spawn == q' = [i \in 1..Cardinality(Fibers) |-> i] /\ left' = [f \in Fibers |-> Steps] /\ cur' = 0
Start == /\ phase = "start" /\ run \in {1, 2}
         /\ pos' = 0 /\ Seeded /\ inj' = 0 /\ Spawn /\ phase' = "A"
         /\ UNCHANGED <<F, run, obs, rec, S>>
Restore == /\ phase = "start" /\ run = 3
           /\ LET c0 == IF Variant = "fixed" THEN 0 ELSE cnt
                  more == IF Variant = "fixed" THEN rec[1] - c0 ELSE rec[1]
              IN pos' = more /\ cnt' = c0 + more
           /\ inj' = rec[2] /\ Spawn /\ phase' = "B"
           /\ UNCHANGED <<F, run, obs, rec, S>>
\* --------------------------------------------------------------- run loop
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Pick == /\ phase \in {"A", "B"} /\ cur = 0 /\ q # <<>>
        /\ LET i == Num(pos, Len(q)) + 1
           IN /\ cur' = q[i] /\ q' = Without(q, i)
              /\ pos' = pos + 1 /\ cnt' = cnt + 1
              /\ Log(<<phase, q[i], cnt + 1, inj>>)
        /\ UNCHANGED <<F, inj, left, run, phase, rec, S>>
\* the current fiber reaches an injection point, then does a step
Inject == /\ cur # 0
          /\ IF inj >= Freq
             THEN /\ inj' = Num(pos, Freq) /\ pos' = pos + 1 /\ cnt' = cnt + 1
                  /\ q' = Append(q, cur) /\ cur' = 0 /\ UNCHANGED <<left, obs>>
             ELSE /\ inj' = inj + 1 /\ UNCHANGED <<pos, cnt, q>>
                  /\ left' = [left EXCEPT ![cur] = @ - 1]
                  /\ cur' = IF left[cur] = 1 THEN 0 ELSE cur
                  /\ Log(<<phase, cur, left[cur], 0>>)
          /\ UNCHANGED <<F, run, phase, rec, S>>
EndA == /\ phase = "A" /\ cur = 0 /\ q = <<>>
        /\ phase' = "B" /\ Spawn
        /\ rec' = IF run = 1 THEN <<cnt, inj>> ELSE rec
        /\ UNCHANGED <<F, pos, cnt, inj, run, obs, S>>
\* another program: the counters are left anywhere
Junk == /\ phase = "B" /\ cur = 0 /\ q = <<>> /\ run < 3
        /\ run' = run + 1 /\ phase' = "start"
        /\ \E d \in 0..2, x \in 0..Freq : pos' = pos + d /\ cnt' = cnt + d /\ inj' = x
        /\ UNCHANGED <<F, q, left, cur, obs, rec, S>>
\* ------------------------------------------------------- the composition
OfB(s) == SelectSeq(s, LAMBDA x : x[1] = "B")
Compare == /\ phase = "B" /\ cur = 0 /\ q = <<>> /\ run = 3
           /\ phase' = "done"
           /\ LET begin == [e |-> "begin", t |-> 0, a |-> <<2, 1>>]
                  Lock(a, b) == [e |-> "step", t |-> 0, a |-> <<a, b>>]
              IN S' = StepSet(StepSet(StepSet({Init0}, begin), Lock(obs[1], obs[2])), Lock(OfB(obs[1]), OfB(obs[3])))
           /\ UNCHANGED <<F, pos, cnt, inj, q, left, cur, run, obs, rec>>
Next == Start \/ Restore \/ Pick \/ Inject \/ EndA \/ Junk \/ Compare \/ (phase = "done" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Conforms == S # {}
Ends == <>(phase = "done")
=============================================================================
