-------------------------------- MODULE When ---------------------------------
(* C09, C10.  The contract of WhenAll / Join / WhenAny over n inputs.         *)
(*                                                                            *)
(*   st[i]   0 nothing, 1 the call completing input i is running, 2 returned  *)
(*   val[i]  what it is completed with (see code below)                       *)
(*   w       the combinator call: 0 not begun, 1 running, 2 returned          *)
(*   arr     inputs whose results took effect; first: the failure which did   *)
(*           so first (AnyFirst)                                              *)
(*   dn      inputs completed (the combinator has finished with them)         *)
(*   dec     the outcome <<>> until it is decided; by: whose step decided     *)
(*   pub     the output can be read                                           *)
(*   sub, fired   the callback of the output                                  *)
(*                                                                            *)
(* An input takes effect inside the later of: its completing call, the        *)
(* combinator call.  Codes: < 1000 values, otherwise failures.                *)
EXTENDS Naturals, Sequences, FiniteSets

Init0 == [k |-> "", n |-> 0, st |-> <<>>, val |-> <<>>, w |-> 0, arr |-> {}, first |-> 0, dn |-> {},
          dec |-> <<>>, by |-> 0, pub |-> FALSE, sub |-> 0, fired |-> FALSE]
Kinds == <<"AllNone", "AllFirst", "JoinNone", "JoinFirst", "AnyNone", "AnyFirst", "AnyLast">>
Fail(c) == c >= 1000
If(c, s) == IF c THEN {s} ELSE {}
Decide(s, i, out) == IF s.dec = <<>> THEN [s EXCEPT !.dec = out, !.by = i] ELSE s

\* input i takes effect
Arrive(s, i) ==
  LET v == s.val[i]
      t == [s EXCEPT !.arr = @ \cup {i}, !.first = IF s.k = "AnyFirst" /\ @ = 0 THEN v ELSE @]
      r == <<1, v>>
  IN CASE s.k \in {"AllFirst", "JoinFirst"} -> IF Fail(v) THEN Decide(t, i, r) ELSE t
       [] s.k = "AnyNone"  -> Decide(t, i, r)
       [] s.k = "AnyFirst" -> IF Fail(v) THEN t ELSE Decide(t, i, r)
       [] s.k = "AnyLast"  -> IF Fail(v) /\ t.arr # 1..s.n THEN t ELSE Decide(t, i, r)
       [] OTHER -> t
\* the combinator has finished with input i; the last one completes the rest
Finish(s, i) ==
  LET t == [s EXCEPT !.dn = @ \cup {i}]
  IN IF t.dn # 1..s.n THEN t
     ELSE CASE s.k \in {"AllNone", "AllFirst"}   -> Decide(t, i, <<0>> \o s.val)
            [] s.k \in {"JoinNone", "JoinFirst"} -> Decide(t, i, <<1, 0>>)
            [] s.k = "AnyFirst"                  -> Decide(t, i, <<1, s.first>>)
            [] OTHER -> t
Internal(s) ==
  IF s.w = 0 THEN {}
  ELSE {Arrive(s, i) : i \in {j \in 1..s.n : s.st[j] > 0 /\ j \notin s.arr}}
       \cup {Finish(s, i) : i \in s.arr \ s.dn}
       \cup If(s.dec # <<>> /\ ~s.pub, [s EXCEPT !.pub = TRUE])

\* everything that must have happened once input i and the combinator call are both over
Over(s, i) == i \in s.dn /\ (s.by = i => s.pub /\ (s.sub = 2 => s.fired))

ECfg(s, k, n) == If(s.n = 0, [s EXCEPT !.k = Kinds[k + 1], !.n = n, !.st = [j \in 1..n |-> 0], !.val = [j \in 1..n |-> 0]])
ESet(s, i, c) == If(i \in 1..s.n /\ s.st[i] = 0, [s EXCEPT !.st[i] = 1, !.val[i] = c])
ESetR(s, i) == If(i \in 1..s.n /\ s.st[i] = 1 /\ (s.w = 2 => Over(s, i)), [s EXCEPT !.st[i] = 2])
EWhen(s) == If(s.w = 0, [s EXCEPT !.w = 1])
\* an empty set of inputs yields an invalid future, otherwise it is valid
EWhenR(s, valid) == If(s.w = 1 /\ valid = (IF s.n = 0 THEN 0 ELSE 1)
                       /\ \A i \in 1..s.n : s.st[i] = 2 => Over(s, i), [s EXCEPT !.w = 2])
ERdy(s, b) == If(IF b = 1 THEN s.pub ELSE ~s.pub, s)
ESub(s) == If(s.w = 2 /\ s.sub = 0, [s EXCEPT !.sub = 1])
ESubR(s) == If(s.sub = 1 /\ (s.by # 0 /\ s.st[s.by] = 2 => s.fired), [s EXCEPT !.sub = 2])
\* the outcome, exactly once
ECb(s, out) == If(s.sub > 0 /\ ~s.fired /\ s.pub /\ out = s.dec, [s EXCEPT !.fired = TRUE])
\* complete (unless it was dropped: d = 1), nothing is left of any input
EEnd(s, a) == If(/\ a[1] = 0 /\ a[2] = 0 /\ a[3] = 0 /\ a[4] = 0 /\ a[5] = 0 /\ a[6] = 0
                 /\ s.w = 2 /\ s.dn = 1..s.n /\ (s.n > 0 => s.pub) /\ (s.sub > 0 => s.fired), s)

Visible(s, e) ==
  CASE e.e = "cfg"   -> ECfg(s, e.a[1], e.a[2])
    [] e.e = "set"   -> ESet(s, e.a[1], e.a[2])
    [] e.e = "setr"  -> ESetR(s, e.a[1])
    [] e.e = "when"  -> EWhen(s)
    [] e.e = "whenr" -> EWhenR(s, e.a[1])
    [] e.e = "rdy"   -> ERdy(s, e.a[1])
    [] e.e = "sub"   -> ESub(s)
    [] e.e = "subr"  -> ESubR(s)
    [] e.e = "cb"    -> ECb(s, e.a)
    [] e.e = "end"   -> EEnd(s, e.a)
    [] OTHER         -> {}

RECURSIVE Close(_, _)
Close(S, F) == IF F = {} THEN S ELSE LET G == (UNION {Internal(s) : s \in F}) \ S IN Close(S \cup G, G)
Closure(S) == Close(S, S)
StepSet(S, e) == UNION {Visible(s, e) : s \in Closure(S)}
=============================================================================
