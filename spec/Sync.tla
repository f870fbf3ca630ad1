-------------------------------- MODULE Sync --------------------------------
(* C18.  The std contract of the yaclib_std locks, condition variables and     *)
(* threads, for fibers 0..7.  An operation is an interval inv..ret with one    *)
(* moment at which it takes effect (Internal); time is abstracted to the set   *)
(* of the fibers whose deadline has passed, which every inv and ret reports    *)
(* (bit mask m).                                                               *)
(*   cfg k0 k1 k2      kinds of the lock objects 0..2: 0 mutex, 1 timed,       *)
(*                     2 recursive, 3 recursive timed, 4 shared, 5 shared timed*)
(*   spawn f, beg, fin a fiber is created, starts, has finished its function   *)
(*   inv op o x m      op:  1 lock     2 try_lock        3 try_lock_for/until  *)
(*       4 unlock      5 lock_shared   6 try_lock_shared 7 ..shared_for/until  *)
(*       8 unlock_shared   10 cv wait  11 cv wait_for/until                    *)
(*       12 cv wait(predicate)  13 cv wait_for/until(predicate)  (x: the mutex)*)
(*       14 notify_one 15 notify_all   16 sleep_for/until   17 join(o)         *)
(*   ret v m                                                                   *)
(*   set c v           the flag behind the predicate of cv c                   *)
(*   tset s v, tget s v, tcpy s d   thread-local pointers; s1 starts as 1      *)
(*   chk v             thread objects without a thread behave as std says (1)  *)
(*   end 0/1           everything finished / no fiber is able to run           *)
EXTENDS Naturals, FiniteSets, Sequences
NF == 4
F == 0..(NF - 1)
Obj == 0..2
Cv == 0..1
Idle == [k |-> 0, o |-> 0, x |-> 0, v |-> 0, ph |-> "none", w |-> 0, late |-> FALSE, chk |-> FALSE]
Init0 == [kind |-> [o \in Obj |-> 0], own |-> [o \in Obj |-> NF], cnt |-> [o \in Obj |-> 0],
          rd |-> [o \in Obj |-> {}], op |-> [f \in F |-> Idle], flag |-> [c \in Cv |-> 0],
          st |-> [f \in F |-> IF f = 0 THEN "spawned" ELSE "no"],
          tls |-> [f \in F |-> <<0, 1, 0>>], over |-> FALSE]
If(c, s) == IF c THEN {s} ELSE {}
Bit(m, f) == (m \div (2 ^ f)) % 2 = 1

Excl(k) == k \in {1, 2, 3}
Shar(k) == k \in {5, 6, 7}
Timed(k) == k \in {3, 7, 11, 13, 16}
\* could f take object o in the mode of operation k now
Free(s, f, o, k) ==
  IF Shar(k) THEN s.own[o] = NF
  ELSE (s.own[o] = NF /\ s.rd[o] = {}) \/ (s.kind[o] \in {2, 3} /\ s.own[o] = f)
Take(s, f, o, k) ==
  IF Shar(k) THEN [s EXCEPT !.rd[o] = @ \cup {f}] ELSE [s EXCEPT !.own[o] = f, !.cnt[o] = @ + 1]
Drop(s, f, o) == IF s.cnt[o] = 1 THEN [s EXCEPT !.own[o] = NF, !.cnt[o] = 0] ELSE [s EXCEPT !.cnt[o] = @ - 1]
\* another fiber is trying to take o
Rival(s, f, o) == \E g \in F \ {f} : \/ s.op[g].ph = "run" /\ (Excl(s.op[g].k) \/ Shar(s.op[g].k)) /\ s.op[g].o = o
                                     \/ s.op[g].ph = "woken" /\ s.op[g].x = o
Done(s, f, v) == [s EXCEPT !.op[f].ph = "done", !.op[f].v = v]
\* finished because the deadline has passed: checked at the next event
Late(s, f) == [s EXCEPT !.op[f].chk = TRUE]
Waiting(s, c) == {g \in F : s.op[g].ph = "wait" /\ s.op[g].o = c /\ s.op[g].w # 2}

Run(s, f) ==
  LET p == s.op[f] IN
  CASE Excl(p.k) \/ Shar(p.k) ->
         If(Free(s, f, p.o, p.k), Done(Take(s, f, p.o, p.k), f, 1))
         \cup If(p.k \in {2, 6} /\ ~Free(s, f, p.o, p.k), Done(s, f, 0))
         \cup If(p.k \in {3, 7} /\ (~Free(s, f, p.o, p.k) \/ Rival(s, f, p.o) \/ p.late), Late(Done(s, f, 0), f))
    [] p.k = 4 -> If(s.own[p.o] = f, Done(Drop(s, f, p.o), f, 1))
    [] p.k = 8 -> If(f \in s.rd[p.o], Done([s EXCEPT !.rd[p.o] = @ \ {f}], f, 1))
    [] p.k \in 10..13 ->
         IF p.k >= 12 /\ s.flag[p.o] # 0 THEN {Done(s, f, 1)}
         ELSE If(s.own[p.x] = f, [Drop(s, f, p.x) EXCEPT !.op[f].ph = "wait", !.op[f].w = 0])
    [] p.k = 14 ->
         LET B == Waiting(s, p.o)
             wake(g) == [s EXCEPT !.op = [h \in F |-> IF h = g THEN [s.op[h] EXCEPT !.w = 2]
                                                      ELSE IF h \in B THEN [s.op[h] EXCEPT !.w = 1] ELSE s.op[h]]]
         IN IF B = {} THEN {Done(s, f, 1)} ELSE {Done(wake(g), f, 1) : g \in B}
    [] p.k = 15 ->
         LET B == Waiting(s, p.o)
         IN {Done([s EXCEPT !.op = [h \in F |-> IF h \in B THEN [s.op[h] EXCEPT !.w = 2] ELSE s.op[h]]], f, 1)}
    [] p.k = 16 -> {Late(Done(s, f, 1), f)}
    [] p.k = 17 -> If(s.st[p.o] = "fin", Done(s, f, 1))
    [] OTHER -> {}

Internal(s) ==
  UNION {LET p == s.op[f] IN
         CASE p.ph = "run" -> Run(s, f)
           [] p.ph = "wait" ->
                \* w: 2 this waiter was notified, 1 it could be the one, 0 no notification
                If(p.w > 0 \/ p.k \in {10, 12}, [s EXCEPT !.op[f].ph = "woken", !.op[f].v = 1])
                \cup If(p.w < 2 /\ Timed(p.k), Late([s EXCEPT !.op[f].ph = "woken", !.op[f].v = 0], f))
           [] p.ph = "woken" /\ s.own[p.x] = NF ->
                IF p.k < 12 THEN {[Take(s, f, p.x, 1) EXCEPT !.op[f].ph = "done"]}
                ELSE IF s.flag[p.o] # 0 THEN {Done(Take(s, f, p.x, 1), f, 1)}
                ELSE IF p.v = 0 THEN {Done(Take(s, f, p.x, 1), f, 0)}
                ELSE {[s EXCEPT !.op[f].ph = "wait", !.op[f].w = 0, !.op[f].v = 0]}
           [] OTHER -> {}
         : f \in {g \in F : s.op[g].ph \in {"run", "wait", "woken"}}}

\* operations which finished by time out had their deadline behind them
Timely(s, m) == \A f \in F : s.op[f].chk => Bit(m, f)
Checked(s) == [s EXCEPT !.op = [f \in F |-> IF s.op[f].chk THEN [s.op[f] EXCEPT !.chk = FALSE] ELSE s.op[f]]]

Blocked(s, f) ==
  LET p == s.op[f] IN
  CASE p.ph = "run" -> IF p.k \in {1, 5} THEN ~Free(s, f, p.o, p.k) ELSE p.k = 17 /\ s.st[p.o] # "fin"
    [] p.ph = "wait" -> p.w < 2 /\ ~Timed(p.k)
    [] p.ph = "woken" -> s.own[p.x] # NF
    [] OTHER -> FALSE
Quiet(s, f) == s.op[f].ph = "none"

Visible(s, e) ==
  LET t == e.t IN
  IF s.over THEN {} ELSE
  CASE e.e = "cfg"   -> {[s EXCEPT !.kind = [o \in Obj |-> e.a[o + 1]]]}
    [] e.e = "spawn" -> If(s.st[e.a[1]] = "no", [s EXCEPT !.st[e.a[1]] = "spawned"])
    [] e.e = "beg"   -> If(s.st[t] = "spawned", [s EXCEPT !.st[t] = "on"])
    [] e.e = "fin"   -> If(s.st[t] = "on" /\ Quiet(s, t), [s EXCEPT !.st[t] = "fin"])
    [] e.e = "inv"   -> If(s.st[t] = "on" /\ Quiet(s, t) /\ Timely(s, e.a[4]),
                           [Checked(s) EXCEPT !.op[t] = [Idle EXCEPT !.k = e.a[1], !.o = e.a[2], !.x = e.a[3],
                                                                     !.ph = "run", !.late = Bit(e.a[4], t)]])
    [] e.e = "ret"   -> If(s.op[t].ph = "done" /\ s.op[t].v = e.a[1] /\ Timely(s, e.a[2]),
                           [Checked(s) EXCEPT !.op[t] = Idle])
    [] e.e = "set"   -> {[s EXCEPT !.flag[e.a[1]] = e.a[2]]}
    [] e.e = "tset"  -> {[s EXCEPT !.tls[t][e.a[1] + 1] = e.a[2]]}
    [] e.e = "tcpy"  -> {[s EXCEPT !.tls[t][e.a[1] + 1] = s.tls[t][e.a[2] + 1]]}
    [] e.e = "tget"  -> If(s.tls[t][e.a[1] + 1] = e.a[2], s)
    [] e.e = "chk"   -> If(e.a[1] = 1, s)
    [] e.e = "end"   -> If(IF e.a[1] = 0 THEN \A f \in F : s.st[f] \in {"no", "fin"}
                           ELSE /\ \A f \in F : s.st[f] \in {"no", "fin"} \/ (s.st[f] = "on" /\ Blocked(s, f))
                                /\ \E f \in F : s.st[f] = "on",
                           [s EXCEPT !.over = TRUE])
    [] OTHER -> {}

RECURSIVE Close(_, _)
Close(Seen, Fr) == IF Fr = {} THEN Seen
                   ELSE LET Nx == (UNION {Internal(s) : s \in Fr}) \ Seen IN Close(Seen \cup Nx, Nx)
Closure(S) == Close(S, S)
StepSet(S, e) == UNION {Visible(s, e) : s \in Closure(S)}
=============================================================================
