------------------------------ MODULE SyncImpl ------------------------------
(* The algorithms of the FIBER backend (fiber/shared_timed_mutex.hpp,          *)
(* fiber/mutex.cpp, fiber/condition_variable.hpp, fiber/queue.cpp) at the       *)
(* granularity of the switches of fibers, checked against Sync.tla: every       *)
(* inv/ret of the model is fed to the contract, which must accept it            *)
(* (Conforms), also when no fiber can run any more.  Barging, waking every      *)
(* shared locker and one exclusive one, and the re-check after a wake up are    *)
(* explicit; Variant = "if" leaves the re-check out, "one" wakes one queue      *)
(* only: TLC shows why both are wrong.                                          *)
EXTENDS Sync, TLC
CONSTANTS M,        \* number of fibers
          K,        \* acquisitions per fiber
          Kind,     \* 0 mutex, 1 timed, 4 shared, 5 shared timed
          Ops,      \* operations of the clients
          Variant
Fb == 0..(M - 1)
VARIABLES occ, exm, sc, qe, qs, qc, pc, opk, val, exp, left, mode, S, fl

vars == <<occ, exm, sc, qe, qs, qc, pc, opk, val, exp, left, mode, S, fl>>
Ev(e, t, a) == [e |-> e, t |-> t, a |-> a]
RECURSIVE Feed(_, _)
Feed(T, es) == IF es = <<>> THEN T ELSE Feed(StepSet(T, Head(es)), Tail(es))
Boot == LET f(i) == <<Ev("spawn", 0, <<i>>), Ev("beg", i, <<>>)>>
        IN <<Ev("cfg", 0, <<Kind, 0, 0>>), Ev("beg", 0, <<>>)>>
           \o (IF M > 1 THEN f(1) ELSE <<>>) \o (IF M > 2 THEN f(2) ELSE <<>>)
Init == /\ occ = FALSE /\ exm = FALSE /\ sc = 0 /\ qe = {} /\ qs = {} /\ qc = {} /\ fl = 0
        /\ pc = [f \in Fb |-> "idle"] /\ opk = [f \in Fb |-> 0] /\ val = [f \in Fb |-> 0]
        /\ exp = [f \in Fb |-> FALSE] /\ left = [f \in Fb |-> K] /\ mode = [f \in Fb |-> "-"]
        /\ S = Feed({Init0}, Boot)
Mask == LET b(f) == IF f \in Fb /\ exp[f] THEN 2 ^ f ELSE 0 IN b(0) + b(1) + b(2) + b(3)

Begin(f, k) ==
  /\ pc[f] = "idle"
  /\ CASE k \in {1, 2, 3, 5, 6, 7} -> mode[f] = "-" /\ left[f] > 0 /\ left' = [left EXCEPT ![f] = @ - 1]
       [] k = 4 -> mode[f] = "x" /\ left' = left
       [] k = 8 -> mode[f] = "s" /\ left' = left
       [] k \in 10..13 -> mode[f] = "x" /\ left[f] > 0 /\ left' = [left EXCEPT ![f] = @ - 1]
       [] k \in {14, 15} -> left[f] > 0 /\ left' = [left EXCEPT ![f] = @ - 1]
  /\ pc' = [pc EXCEPT ![f] = "run"] /\ opk' = [opk EXCEPT ![f] = k]
  /\ S' = StepSet(S, Ev("inv", f, <<k, 0, 0, Mask>>))
  /\ UNCHANGED <<occ, exm, sc, qe, qs, qc, val, exp, mode, fl>>
SetFlag(f) == /\ pc[f] = "idle" /\ mode[f] = "x" /\ fl = 0 /\ (12 \in Ops \/ 13 \in Ops)
              /\ fl' = 1 /\ S' = StepSet(S, Ev("set", f, <<0, 1>>))
              /\ UNCHANGED <<occ, exm, sc, qe, qs, qc, pc, opk, val, exp, left, mode>>
Fin(f) == /\ pc[f] = "idle" /\ mode[f] = "-" /\ left[f] < K
          /\ pc' = [pc EXCEPT ![f] = "fin"] /\ S' = StepSet(S, Ev("fin", f, <<>>))
          /\ UNCHANGED <<occ, exm, sc, qe, qs, qc, opk, val, exp, left, mode, fl>>
Expire(f) == /\ pc[f] # "idle" /\ Timed(opk[f]) /\ ~exp[f] /\ exp' = [exp EXCEPT ![f] = TRUE]
             /\ UNCHANGED <<occ, exm, sc, qe, qs, qc, pc, opk, val, left, mode, S, fl>>

Lockable(sh) == IF sh THEN ~(occ /\ exm) ELSE ~occ
TakeIt(f, sh) == occ' = TRUE /\ exm' = ~sh /\ sc' = (IF sh THEN sc + 1 ELSE sc)
                 /\ mode' = [mode EXCEPT ![f] = IF sh THEN "s" ELSE "x"]
Keep == UNCHANGED <<occ, exm, sc, mode>>
Finish(f, v) == pc' = [pc EXCEPT ![f] = "ret"] /\ val' = [val EXCEPT ![f] = v]

\* lock, try_lock, timed: one pass of the loop (after = woken by an unlock)
Acquire(f) ==
  LET k == opk[f] sh == Shar(k) IN
  /\ pc[f] \in {"run", "woken"} /\ (Excl(k) \/ sh)
  /\ \/ /\ Lockable(sh) \/ (Variant = "if" /\ pc[f] = "woken")
        /\ TakeIt(f, sh) /\ Finish(f, 1) /\ UNCHANGED <<qe, qs>>
     \/ /\ ~Lockable(sh) /\ ~(Variant = "if" /\ pc[f] = "woken") /\ Keep
        /\ IF k \in {2, 6} THEN Finish(f, 0) /\ UNCHANGED <<qe, qs>>
           ELSE /\ pc' = [pc EXCEPT ![f] = "wait"] /\ val' = val
                /\ IF sh THEN qs' = qs \cup {f} /\ qe' = qe ELSE qe' = qe \cup {f} /\ qs' = qs
  /\ UNCHANGED <<qc, opk, exp, left, S, fl>>
TimeOut(f) ==
  /\ pc[f] = "wait" /\ exp[f] /\ qe' = qe \ {f} /\ qs' = qs \ {f} /\ qc' = qc \ {f}
  /\ IF opk[f] < 10 THEN Finish(f, 0)
     ELSE pc' = [pc EXCEPT ![f] = "relock"] /\ val' = [val EXCEPT ![f] = 0]
  /\ UNCHANGED <<occ, exm, sc, opk, exp, left, mode, S, fl>>
\* wake the fibers W1 \cup W2; f goes to pc p
Woken(f, p, W) == pc' = [g \in Fb |-> IF g = f THEN p ELSE IF g \in W
                                      THEN (IF pc[g] = "rewait" THEN "relock" ELSE "woken") ELSE pc[g]]
One(q) == IF q = {} THEN {{}} ELSE {{g} : g \in q}
\* the unlocking part of unlock, unlock_shared and cv wait
Release(f, p, ks) ==
  IF mode[f] = "x"
  THEN /\ occ' = FALSE /\ UNCHANGED <<exm, sc>> /\ mode' = [mode EXCEPT ![f] = "-"]
       /\ \E A \in (IF Variant = "one" /\ qe # {} THEN {{}} ELSE {qs}), B \in One(qe) :
            Woken(f, p, A \cup B) /\ qs' = qs \ A /\ qe' = qe \ B
  ELSE /\ sc' = sc - 1 /\ exm' = exm /\ mode' = [mode EXCEPT ![f] = "-"]
       /\ IF sc = 1 THEN occ' = FALSE /\ \E B \in One(qe) : Woken(f, p, B) /\ qe' = qe \ B /\ qs' = qs
          ELSE occ' = occ /\ pc' = [pc EXCEPT ![f] = p] /\ UNCHANGED <<qs, qe>>
Unlock(f) == /\ pc[f] = "run" /\ opk[f] \in {4, 8} /\ Release(f, "ret", {}) /\ val' = [val EXCEPT ![f] = 1]
             /\ UNCHANGED <<qc, opk, exp, left, S, fl>>
CvWait(f) ==
  /\ pc[f] = "run" /\ opk[f] \in 10..13
  /\ IF opk[f] >= 12 /\ fl # 0 THEN Finish(f, 1) /\ UNCHANGED <<occ, exm, sc, qe, qs, qc, mode>>
     ELSE Release(f, "wait", {}) /\ qc' = qc \cup {f} /\ val' = [val EXCEPT ![f] = 1]
  /\ UNCHANGED <<opk, exp, left, S, fl>>
Relock(f) ==
  /\ pc[f] = "relock" \/ (pc[f] = "woken" /\ opk[f] \in 10..13)
  /\ IF occ THEN pc' = [pc EXCEPT ![f] = "rewait"] /\ qe' = qe \cup {f} /\ UNCHANGED <<occ, exm, sc, mode, val>>
     ELSE /\ TakeIt(f, FALSE) /\ qe' = qe
          /\ IF opk[f] < 12 THEN Finish(f, val[f])
             ELSE IF fl # 0 THEN Finish(f, 1)
             ELSE IF val[f] = 0 THEN Finish(f, 0)
             ELSE pc' = [pc EXCEPT ![f] = "run"] /\ val' = val    \* the loop of the predicate
  /\ UNCHANGED <<qs, qc, opk, exp, left, S, fl>>
Notify(f) ==
  /\ pc[f] = "run" /\ opk[f] \in {14, 15}
  /\ \E W \in (IF opk[f] = 15 THEN {qc} ELSE One(qc)) :
       /\ qc' = qc \ W /\ Woken(f, "ret", W)
       /\ val' = [g \in Fb |-> IF g \in W \cup {f} THEN 1 ELSE val[g]]
  /\ UNCHANGED <<occ, exm, sc, qe, qs, opk, exp, left, mode, S, fl>>
Ret(f) == /\ pc[f] = "ret" /\ pc' = [pc EXCEPT ![f] = "idle"] /\ exp' = [exp EXCEPT ![f] = FALSE]
          /\ S' = StepSet(S, Ev("ret", f, <<val[f], Mask>>))
          /\ UNCHANGED <<occ, exm, sc, qe, qs, qc, opk, val, left, mode, fl>>

Do(f) == Expire(f) \/ Acquire(f) \/ TimeOut(f) \/ Unlock(f) \/ CvWait(f) \/ Relock(f) \/ Notify(f) \/ Ret(f)
         \/ SetFlag(f) \/ Fin(f) \/ \E k \in Ops : Begin(f, k)
\* nobody is able to run
Stuck == \A f \in Fb : pc[f] = "fin" \/ (pc[f] \in {"wait", "rewait"} /\ ~Timed(opk[f])) \/ (pc[f] = "rewait")
End == /\ Stuck /\ \E f \in Fb : pc[f] # "over"
       /\ S' = StepSet(S, Ev("end", 0, <<IF \A f \in Fb : pc[f] = "fin" THEN 0 ELSE 1>>))
       /\ pc' = [f \in Fb |-> "over"]
       /\ UNCHANGED <<occ, exm, sc, qe, qs, qc, opk, val, exp, left, mode, fl>>
Done1 == \A f \in Fb : pc[f] = "over"
Next == (\E f \in Fb : Do(f)) \/ End \/ (Done1 /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
Conforms == S # {}
Exclusion == \A f, g \in Fb : f # g /\ mode[f] = "x" => mode[g] = "-"
=============================================================================
