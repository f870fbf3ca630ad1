------------------------------ MODULE MemModel ------------------------------
(* C04.  The happens-before relation of the C++ memory model over the accesses *)
(* of one execution, and the absence of data races in it.  The threads and     *)
(* locations are numbered in order of appearance.  Order o: 0 relaxed,         *)
(* 1 consume, 2 acquire, 3 release, 4 acq_rel, 5 seq_cst.                       *)
(*   r, w  <<l, 0>>    plain read / write of location l (w: also its release,   *)
(*                     when the memory is given back)                           *)
(*   al    <<l, o>>    atomic load of the current value                         *)
(*   al    <<l, o, k>> atomic load of the value k writes before the current one *)
(*   as    <<l, o>>    atomic store                                             *)
(*   ar    <<l, o>>    atomic read-modify-write (continues release sequences)   *)
(*   f     <<0, o>>    fence                                                    *)
(*   jr, ja <<l, 0>>   release / acquire of a message of the runtime: thread    *)
(*                     start and join, pthread mutex, hand over of a job to a   *)
(*                     worker of a client executor                              *)
(*   end   <<race, dead>>   what the runtime's own detectors saw: a race; an    *)
(*                     access to memory which has been given back               *)
(* Clocks are vector clocks: sequences in which missing entries are 0.  A       *)
(* thread's clock counts its release operations; an access is identified by     *)
(* its thread and the count at that time, it happens before everything which    *)
(* has seen a greater count.                                                    *)
(* A load may return an older value unless a write of a later value, or a read  *)
(* of one, happens before it (coherence).                                       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Max2(a, b) == IF a > b THEN a ELSE b
At(v, i)   == IF i <= Len(v) THEN v[i] ELSE 0
Join(v, w) == [i \in 1..Max2(Len(v), Len(w)) |-> Max2(At(v, i), At(w, i))]
Put(v, i, x) == [j \in 1..Max2(Len(v), i) |-> IF j = i THEN x ELSE At(v, j)]
\* every access recorded in v happens before a thread whose clock is c
Le(v, c) == \A i \in 1..Len(v) : v[i] <= At(c, i)

Acq(o) == o \in {1, 2, 4, 5}
Rel(o) == o \in {3, 4, 5}

Last(q) == q[Len(q)]

\* clk[t]: what t has seen (own entry: its time + 1); rf[t]: clock at the last release fence;
\* af[t]: what t read without acquiring it; locs[l]: val - the last values, oldest first: msg - what
\* the write released, first - for each thread the time when it first read or wrote this value or a later one;
\* w, r, aw, al - times of the last plain writes, plain reads, atomic writes and atomic reads per thread
Thread0(t) == [clk |-> Put(<<>>, t, 1), rf |-> <<>>, af |-> <<>>]
Val0       == [msg |-> <<>>, first |-> <<>>]
Loc0       == [val |-> <<Val0>>, w |-> <<>>, r |-> <<>>, aw |-> <<>>, al |-> <<>>]
Init0 == [th |-> <<>>, locs |-> <<>>]

\* adds threads and locations which appear for the first time
Grow(s, t, l) ==
  [th   |-> [i \in 1..Max2(Len(s.th), t) |-> IF i <= Len(s.th) THEN s.th[i] ELSE Thread0(i)],
   locs |-> [i \in 1..Max2(Len(s.locs), l) |-> IF i <= Len(s.locs) THEN s.locs[i] ELSE Loc0]]

Tick(c, t) == Put(c, t, At(c, t) + 1)
Now(s, t)  == At(s.th[t].clk, t)

Read(s, t, l) ==
  LET c == s.th[t].clk
      x == s.locs[l]
  IN IF Le(x.w, c) /\ Le(x.aw, c) THEN {[s EXCEPT !.locs[l].r = Put(@, t, Now(s, t))]} ELSE {}

Write(s, t, l) ==
  LET c == s.th[t].clk
      x == s.locs[l]
  IN IF Le(x.w, c) /\ Le(x.r, c) /\ Le(x.aw, c) /\ Le(x.al, c)
     THEN {[s EXCEPT !.locs[l].w = Put(@, t, Now(s, t)), !.locs[l].val = <<Val0>>]} ELSE {}

\* thread t reads or writes the i-th of the values
Meet(v, t, now, i) == [j \in 1..Len(v) |-> IF j <= i /\ At(v[j].first, t) = 0 THEN [v[j] EXCEPT !.first = Put(@, t, now)]
                                           ELSE v[j]]
\* a thread whose clock is c cannot read a value before the i-th
Hides(v, c, i) == \E u \in 1..Len(v[i].first) : v[i].first[u] # 0 /\ v[i].first[u] <= At(c, u)

\* the part of an atomic operation which reads, the value k writes before the last
Fetch(s, t, l, o, k) ==
  LET v == s.locs[l].val
      m == v[Len(v) - k].msg
  IN IF Acq(o) THEN [s EXCEPT !.th[t].clk = Join(@, m)] ELSE [s EXCEPT !.th[t].af = Join(@, m)]

\* the part which writes; keep: the message is added to the one before (release sequence)
Send(s, t, l, o, keep) ==
  LET v == s.locs[l].val
      m == Join(IF Rel(o) THEN s.th[t].clk ELSE s.th[t].rf, IF keep THEN Last(v).msg ELSE <<>>)
      w == Append(IF Len(v) = 4 THEN Tail(v) ELSE v, [msg |-> m, first |-> <<>>])
  IN [s EXCEPT !.locs[l].val = Meet(w, t, Now(s, t), Len(w)), !.th[t].clk = IF Rel(o) THEN Tick(@, t) ELSE @]

MarkL(s, t, l) == [s EXCEPT !.locs[l].al = Put(@, t, Now(s, t))]
MarkS(s, t, l) == [s EXCEPT !.locs[l].aw = Put(@, t, Now(s, t))]

ALoad(s, t, l, o, k) ==
  LET c == s.th[t].clk
      v == s.locs[l].val
      x == [MarkL(s, t, l) EXCEPT !.locs[l].val = Meet(v, t, Now(s, t), Len(v) - k)]
  IN IF Le(s.locs[l].w, c)
     THEN IF k < Len(v) /\ (k > 0 => ~Hides(v, c, Len(v) - k + 1)) THEN {Fetch(x, t, l, o, k)}
          ELSE Assert(FALSE, "MODEL OF THE RUNTIME IS WRONG: this load cannot return this value")
     ELSE {}
AStore(s, t, l, o) ==
  LET c == s.th[t].clk
  IN IF Le(s.locs[l].w, c) /\ Le(s.locs[l].r, c) THEN {Send(MarkS(s, t, l), t, l, o, FALSE)} ELSE {}
ARmw(s, t, l, o) ==
  LET c == s.th[t].clk
  IN IF Le(s.locs[l].w, c) /\ Le(s.locs[l].r, c) THEN {Send(Fetch(MarkS(s, t, l), t, l, o, 0), t, l, o, TRUE)} ELSE {}

Fence(s, t, o) ==
  LET a == IF Acq(o) THEN [s EXCEPT !.th[t].clk = Join(@, s.th[t].af)] ELSE s
  IN IF Rel(o) THEN [a EXCEPT !.th[t].rf = a.th[t].clk, !.th[t].clk = Tick(@, t)] ELSE a

Step(s, e, t, l, o, k) ==
  CASE e = "r"  -> Read(s, t, l)
    [] e = "w"  -> Write(s, t, l)
    [] e = "al" -> ALoad(s, t, l, o, k)
    [] e = "as" -> AStore(s, t, l, o)
    [] e = "ar" -> ARmw(s, t, l, o)
    [] e = "f"  -> {Fence(s, t, o)}
    [] e = "jr" -> {Send(s, t, l, 3, TRUE)}
    [] e = "ja" -> {Fetch(s, t, l, 2, 0)}
    [] OTHER    -> {}

Internal(s) == {}
Visible(s, e) == IF e.e = "end" THEN (IF e.a[1] + e.a[2] = 0 THEN {s} ELSE {})
                 ELSE IF e.e = "crash" THEN {}
                 ELSE Step(Grow(s, e.t + 1, e.a[1]), e.e, e.t + 1, e.a[1], e.a[2], At(e.a, 3))
StepSet(S, e) == UNION {Visible(s, e) : s \in S}
=============================================================================
