---------------------------- MODULE PipelineImpl ----------------------------
(* How pipelines are implemented: one core per step (algo/detail/core.hpp,     *)
(* promise_core.hpp, base_core.cpp, lazy/task_impl.cpp).                       *)
(*   word    0 empty, -1 result, -2 a blocked client, -3 the Drop callback,    *)
(*           k > 0: continuation core k                                        *)
(*   caller  the previous core, later the core of the returned future          *)
(*   unw     this step waits for the future which its callback returned        *)
(*   next    of a step of a Task which has not been started: its predecessor   *)
(*   ex      executor of the step; Null: to be inherited from the caller       *)
(* Threads: m builds the pipeline and takes its Result, w serves executor 1,   *)
(* s fulfils promises.  Executor 3 refuses everything, 7 is the stopped Inline.*)
(* A thread does one action at a time (Loop): sub, call, drop, here, run,      *)
(* done, xchg, setin.  What the client observes feeds S, the monitor of        *)
(* Pipeline.tla: ContractHolds says that the design computes what the          *)
(* sequential reading says, in the right executors, and releases everything.   *)
(* OneBlock (C20): as many cores as there are steps.                           *)
EXTENDS Pipeline, TLC
CONSTANTS Mode,      \* "eager" | "lazy"
          Big        \* more programs
VARIABLES prog, core, act, wq, sq, mpc, mc, mi, woke, S
vars == <<prog, core, act, wq, sq, mpc, mc, mi, woke, S>>

Null == 0 - 1
Threads == {"m", "w", "s"}
Idle == [k |-> "idle", c |-> 0, d |-> 0, v |-> 0, as |-> FALSE]
Act(k, c, d, v, as) == [k |-> k, c |-> c, d |-> d, v |-> v, as |-> as]
Ev1(n, t, a) == [e |-> n, t |-> t, a |-> a]

\* ---- the programs: srcs and steps as in Pipeline.tla
\* src: <<p, kind, b, ex, sig, ret, inner>>    st: <<p, id, att, ex, sig, ret, b, inner>>
Inner == {<<<<0, 0, 0, 0, 0>>, <<>>>>, <<<<0, 1, 0, 0, 0>>, <<>>>>, <<<<1, 0, 0, 0, 0>>, <<>>>>, <<<<1, 3, 0, 0, 0>>, <<>>>>,
          <<<<5, 0, 1, 0, 0>>, <<>>>>, <<<<5, 0, 3, 1, 0>>, <<>>>>, <<<<20, 0, 0, 0, 0>>, <<>>>>, <<<<20, 2, 0, 0, 0>>, <<>>>>,
          <<<<22, 0, 1, 0, 0>>, <<>>>>, <<<<22, 1, 3, 1, 0>>, <<>>>>, <<<<24, 20, 1, 0, 0>>, <<>>>>, <<<<24, 0, 3, 0, 0>>, <<>>>>,
          <<<<20, 0, 0, 0, 0>>, <<<<0, 0, 0, 0, 0>>>>>>, <<<<22, 0, 1, 0, 0>>, <<<<2, 0, 1, 0, 1>>>>>>,
          <<<<20, 1, 0, 0, 0>>, <<<<1, 1, 1, 0, 0>>>>>>}
Quick(i) == Big \/ i[1][1] \in {0, 5, 22, 24} \/ Len(i[2]) > 0
EagerSrc == {<<0, 0, 0, 0, 0>>, <<0, 1, 0, 0, 0>>, <<0, 2, 0, 0, 0>>, <<1, 0, 0, 0, 0>>, <<3, 0, 1, 0, 0>>, <<5, 0, 1, 0, 0>>}
            \cup (IF Big THEN {<<3, 2, 3, 0, 0>>, <<5, 1, 1, 0, 0>>, <<5, 0, 3, 1, 0>>, <<1, 3, 0, 0, 0>>} ELSE {})
LazySrc == {<<20, 0, 0, 0, 0>>, <<20, 2, 0, 0, 0>>, <<22, 0, 1, 0, 0>>, <<24, 20, 1, 0, 0>>}
           \cup (IF Big THEN {<<20, 1, 0, 0, 0>>, <<22, 1, 1, 1, 0>>, <<22, 0, 3, 0, 0>>, <<24, 0, 3, 0, 0>>, <<24, 13, 1, 0, 0>>} ELSE {})
\* steps <<att, ex, sig, ret, b>>; a step with ret 2 has an inner program
Atts == {<<0, 0>>, <<1, 1>>, <<1, 3>>, <<2, 0>>}
Plain == {<<a[1], a[2], g, 0, b>> : a \in Atts, g \in 0..3, b \in {0, 1}}
         \cup (IF Big THEN {<<a[1], a[2], g, 1, b>> : a \in Atts, g \in 0..3, b \in {2, 3}} ELSE {})
Async == {<<a[1], a[2], 1, 2, 0>> : a \in {<<0, 0>>, <<1, 1>>}}
Tails == {<<>>, <<<<2, 0, 1, 0, 0>>>>}
Fins == IF Mode = "eager" THEN {<<0, 0, 0>>, <<1, 0, 0>>} ELSE {<<0, 0, 0>>, <<1, 0, 0>>, <<2, 0, 0>>, <<10, 1, 0>>, <<10, 3, 0>>}

Src5(p, x, inner) == <<p, x[1], x[2], x[3], x[4], x[5], inner>>
St5(p, id, x, inner) == <<p, id, x[1], x[2], x[3], x[4], x[5], inner>>
OneP(sr, steps, fin) == [src |-> <<Src5(0, sr, 0)>>, st |-> <<[i \in 1..Len(steps) |-> St5(0, i, steps[i], 0)]>>, fin |-> fin]
TwoP(sr, step, inn, tail, fin) ==
  LET n == 1 + Len(tail) IN
  [src |-> <<Src5(0, sr, 0), Src5(1, inn[1], 0)>>,
   st |-> <<[i \in 1..n |-> IF i = 1 THEN St5(0, 1, step, 1) ELSE St5(0, i, tail[i - 1], 0)],
            [i \in 1..Len(inn[2]) |-> St5(1, n + i, inn[2][i], 0)]>>,
   fin |-> fin]
\* what holds a pipeline must have the executor for Then(f): Future has no such method
OnSrc(sr) == sr[1] \in {3, 5} \/ sr[1] >= 20
Allowed(sr, steps) ==
  /\ (OnSrc(sr) \/ Len(steps) = 0 \/ steps[1][1] # 2)
  /\ (Len(steps) < 2 \/ OnSrc(sr) \/ steps[1][1] = 1)
  \* (the value of the body is its input only when it gets one)
Srcs == IF Mode = "eager" THEN EagerSrc ELSE LazySrc
Programs ==
  {OneP(x[1], x[2], x[3]) : x \in {y \in Srcs \X ({<<>>} \cup {<<q>> \o t : q \in Plain, t \in (IF Big THEN Tails ELSE {<<>>})}) \X Fins :
                                     Allowed(y[1], y[2])}}
  \cup {TwoP(x[1], x[2], x[3], x[4], x[5]) :
          x \in {y \in Srcs \X Async \X {i \in Inner : Quick(i)} \X Tails \X (IF Big THEN Fins ELSE {<<0, 0, 0>>}) :
                   Allowed(y[1], <<y[2]>> \o y[4])}}

\* ---- description: fed to the monitor before anything happens
RECURSIVE FeedAll(_, _)
FeedAll(T, q) == IF q = <<>> THEN T ELSE FeedAll(StepSet(T, Head(q)), Tail(q))
RECURSIVE Descr(_, _)
Descr(g, k) == IF k > Len(g.src) THEN <<>>
               ELSE <<Ev1("src", "m", g.src[k])>> \o [i \in 1..Len(g.st[k]) |-> Ev1("st", "m", g.st[k][i])] \o Descr(g, k + 1)
Monitor0(g) == FeedAll({Init0}, <<Ev1("cfg", "m", <<0, 5>>)>> \o Descr(g, 1) \o <<Ev1("fin", "m", g.fin)>>)

Init == /\ prog \in Programs
        /\ core = <<>> /\ act = [t \in Threads |-> Idle] /\ wq = <<>> /\ sq = <<>>
        /\ mpc = "src" /\ mc = 0 /\ mi = 0 /\ woke = FALSE
        /\ S = Monitor0(prog)

\* ---- cores
LazyK(k) == k >= 20
Core(p, i, ex, isfn) == [p |-> p, i |-> i, ex |-> ex, word |-> 0, caller |-> 0, next |-> 0, unw |-> FALSE, res |-> 0,
                         func |-> IF isfn THEN 1 ELSE 0, live |-> TRUE, bad |-> FALSE]
IsSrc(c) == core[c].i = 0
Kind(c) == prog.src[core[c].p + 1][2]
IsProm(c) == IsSrc(c) /\ Kind(c) \in {24}
IsReadyTask(c) == IsSrc(c) /\ Kind(c) = 20
\* id, sig, ret, b, inner of a core's callback
Fun(c) == IF IsSrc(c) THEN LET x == prog.src[core[c].p + 1] IN [id |-> 40 + x[1], sig |-> x[5], ret |-> x[6], b |-> x[3], inner |-> x[7], att |-> 1]
          ELSE LET x == prog.st[core[c].p + 1][core[c].i] IN [id |-> x[2], sig |-> x[5], ret |-> x[6], b |-> x[7], inner |-> x[8], att |-> x[3]]
Val0(b, id) == CASE b = 0 -> 10 + id [] b = 1 -> 2000 + id [] b = 2 -> Stop [] b = 3 -> 2050 + id
SetV(b, id) == CASE b = 0 -> 10 + id [] b = 1 -> 2000 + id [] b = 2 -> Stop [] b = 3 -> Stop
\* releases a core (twice: bad)
Free1(cs, c) == IF c <= 0 THEN cs ELSE [cs EXCEPT ![c].bad = @ \/ ~cs[c].live, ![c].live = FALSE]
NoFunc(cs, c) == [cs EXCEPT ![c].bad = @ \/ cs[c].func # 1, ![c].func = 0]
\* the first core of program p
SrcCore(p) == LET x == prog.src[p + 1]
              IN CASE x[2] = 0 -> [Core(p, 0, 0, FALSE) EXCEPT !.word = 0 - 1, !.res = Val0(x[3], 40 + p)]
                   [] x[2] \in {1, 3} -> Core(p, 0, x[4], FALSE)
                   [] x[2] = 20 -> Core(p, 0, 0, FALSE)
                   [] OTHER -> Core(p, 0, x[4], TRUE)
StepCore(p, i) == LET x == prog.st[p + 1][i] IN Core(p, i, IF x[3] = 1 THEN x[4] ELSE Null, TRUE)
\* what follows the creation of the first core
AfterSrc(p, c) == LET k == prog.src[p + 1][2] IN IF k = 5 THEN Act("sub", c, 0, 0, FALSE) ELSE Idle
SetLater(p, c) == LET k == prog.src[p + 1][2] IN IF k \in {1, 3} THEN Append(sq, c) ELSE sq
RECURSIVE HeadOf(_, _)
HeadOf(cs, c) == IF cs[c].next = 0 THEN c ELSE HeadOf(cs, cs[c].next)
RECURSIVE Unlink(_, _)
Unlink(cs, c) == IF cs[c].next = 0 THEN cs ELSE Unlink([cs EXCEPT ![c].next = 0], cs[c].next)

Where(t) == IF t = "w" THEN 1 ELSE 0
Go(t, a) == act' = [act EXCEPT ![t] = a]
Feed(e) == S' = StepSet(S, e)
Same == UNCHANGED <<prog, mpc, mc, mi, woke>>

\* ---- actions of a thread
Sub(t) ==
  LET a == act[t]
      c == a.c
      e == core[c].ex
  IN /\ a.k = "sub"
     /\ CASE e = 0 -> Go(t, Act("call", c, 0, 0, FALSE)) /\ UNCHANGED <<wq, S>>
          [] e = 1 -> Feed(Ev1("sub", t, <<1>>)) /\ wq' = Append(wq, c) /\ Go(t, Idle)
          [] e = 3 -> Feed(Ev1("ref", t, <<3>>)) /\ Go(t, Act("drop", c, 0, 0, FALSE)) /\ UNCHANGED wq
          [] e = 7 -> Go(t, Act("drop", c, 0, 0, FALSE)) /\ UNCHANGED <<wq, S>>
     /\ UNCHANGED <<core, sq>> /\ Same
Call(t) ==
  LET a == act[t]
      c == a.c
  IN /\ a.k \in {"call", "drop"}
     /\ IF IsReadyTask(c) THEN
             /\ core' = [core EXCEPT ![c].res = IF a.k = "call" THEN Val0(Fun(c).b, Fun(c).id) ELSE Stop]
             /\ Go(t, Act("xchg", c, 0, 0, FALSE)) /\ UNCHANGED <<S, sq>>
        ELSE IF IsProm(c) THEN
             IF a.k = "drop" THEN
                  /\ core' = [NoFunc(core, c) EXCEPT ![c].res = Stop]
                  /\ Go(t, Act("xchg", c, 0, 0, FALSE)) /\ UNCHANGED <<S, sq>>
             ELSE /\ Feed(Ev1("cb", t, <<Fun(c).id, 0, Where(t)>>))
                  /\ IF Fun(c).b >= 20 THEN core' = NoFunc(core, c) /\ sq' = Append(sq, c) /\ Go(t, Idle)
                     ELSE IF Fun(c).b = 13 THEN
                          core' = [NoFunc(core, c) EXCEPT ![c].res = Stop] /\ Go(t, Act("xchg", c, 0, 0, FALSE)) /\ UNCHANGED sq
                     ELSE core' = NoFunc(core, c) /\ Go(t, Act("set", c, 0, 0, FALSE)) /\ UNCHANGED sq
        ELSE /\ Go(t, Act("run", c, 0, IF a.k = "drop" THEN Stop ELSE IF IsSrc(c) THEN 0 ELSE core[core[c].caller].res, FALSE))
             /\ UNCHANGED <<core, S, sq>>
     /\ UNCHANGED wq /\ Same
\* a promise is fulfilled
Set(t) ==
  LET a == act[t]
      c == a.c
      b == IF Fun(c).b >= 20 THEN Fun(c).b - 20 ELSE Fun(c).b
  IN /\ a.k = "set"
     /\ Feed(Ev1("set", t, <<40 + core[c].p>>))
     /\ core' = [core EXCEPT ![c].res = SetV(b, 40 + core[c].p)]
     /\ Go(t, Act("xchg", c, 0, 0, FALSE))
     /\ UNCHANGED <<wq, sq>> /\ Same
\* CallImpl: the callback with input v, or the input passes through
Run(t) ==
  LET a == act[t]
      c == a.c
      f == Fun(c)
  IN /\ a.k = "run"
     /\ IF ~Inv(f.sig, a.v) THEN Go(t, Act("done", c, 0, a.v, FALSE)) /\ UNCHANGED S
        ELSE /\ Feed(Ev1("cb", t, <<f.id, a.v, Where(t)>>))
             /\ Go(t, IF f.b # 1 /\ f.ret >= 2 THEN Act("build", c, 0, 0, FALSE)
                      ELSE Act("done", c, 0, IF f.b = 1 THEN 2000 + f.id ELSE Val0(f.b, f.id), FALSE))
     /\ UNCHANGED <<core, wq, sq>> /\ Same
\* the callback builds a future or a Task and returns it
Build(t) ==
  LET a == act[t]
      c == a.c
      p == Fun(c).inner
      k == prog.src[p + 1][2]
      n == Len(core)
      m == Len(prog.st[p + 1])
      made == core \o <<SrcCore(p)>> \o [i \in 1..m |-> [StepCore(p, i) EXCEPT !.next = n + i]]
      tied == IF m = 0 THEN made ELSE [j \in 1..(n + m + 1) |-> IF j \in (n + 1)..(n + m) THEN [made[j] EXCEPT !.word = j + 1] ELSE made[j]]
  IN /\ a.k = "build"
     /\ core' = tied
     /\ IF LazyK(k) THEN Feed(Ev1("built", t, <<Fun(c).id>>)) /\ Go(t, Act("unwrap", c, n + m + 1, 0, FALSE)) /\ UNCHANGED sq
        ELSE /\ UNCHANGED S
             /\ sq' = SetLater(p, n + 1)
             /\ IF k = 5 THEN Go(t, Act("subin", c, n + 1, 0, FALSE)) ELSE Go(t, Act("unwrap", c, n + 1, 0, FALSE))
     /\ UNCHANGED wq /\ Same
\* Run inside of a callback: the submission of the inner step
SubIn(t) ==
  LET a == act[t]
      e == core[a.d].ex
  IN /\ a.k = "subin"
     /\ IF e = 1 THEN /\ Feed(Ev1("sub", t, <<1>>)) /\ wq' = Append(wq, a.d) /\ UNCHANGED core
        ELSE \* refused: Drop runs in place.  Result is Stop, or what a callback which takes a Result makes of it
             /\ UNCHANGED wq
             /\ IF Inv(Fun(a.d).sig, Stop)
                THEN /\ S' = StepSet(StepSet(S, Ev1("ref", t, <<3>>)), Ev1("cb", t, <<Fun(a.d).id, Stop, Where(t)>>))
                     /\ core' = [NoFunc(core, a.d) EXCEPT ![a.d].res = Val0(Fun(a.d).b, Fun(a.d).id), ![a.d].word = 0 - 1]
                ELSE /\ Feed(Ev1("ref", t, <<3>>))
                     /\ core' = [NoFunc(core, a.d) EXCEPT ![a.d].res = Stop, ![a.d].word = 0 - 1]
     /\ Go(t, Act("unwrap", a.c, a.d, 0, FALSE))
     /\ UNCHANGED sq /\ Same
\* CallResolveAsync: the previous core is released, the step waits for the inner one
Unwrap(t) ==
  LET a == act[t]
      c == a.c
      d == a.d
      lz == LazyK(prog.src[core[d].p + 1][2])
      c1 == IF IsSrc(c) THEN core ELSE Free1(core, core[c].caller)
      c2 == NoFunc([c1 EXCEPT ![c].unw = TRUE, ![c].caller = d], c)
  IN /\ a.k = "unwrap"
     /\ core' = IF lz THEN Unlink([c2 EXCEPT ![d].word = c], d) ELSE c2
     /\ Go(t, IF lz THEN Act("here", c, HeadOf(core, d), 0, FALSE) ELSE Act("setin", d, c, 0, FALSE))
     /\ UNCHANGED <<wq, sq, S>> /\ Same
\* Done: result stored, previous core released, callback destroyed
Done_(t) ==
  LET a == act[t]
      c == a.c
      c1 == [core EXCEPT ![c].res = a.v]
      c2 == IF a.as \/ ~IsSrc(c) THEN Free1(c1, core[c].caller) ELSE c1
      c3 == IF a.as THEN c2 ELSE NoFunc(c2, c)
  IN /\ a.k = "done" /\ core' = c3 /\ Go(t, Act("xchg", c, 0, 0, FALSE))
     /\ UNCHANGED <<wq, sq, S>> /\ Same
\* SetResult
Xchg(t) ==
  LET c == act[t].c
  IN /\ act[t].k = "xchg"
     /\ core' = [core EXCEPT ![c].word = 0 - 1, ![c].bad = @ \/ core[c].word = 0 - 1 \/ ~core[c].live]
     /\ Go(t, IF core[c].word = 0 THEN Idle ELSE Act("here", c, core[c].word, 0, FALSE))
     /\ UNCHANGED <<wq, sq, S>> /\ Same
\* SetInline: d (a core or the Drop callback) continues c
SetIn(t) ==
  LET c == act[t].c
      d == act[t].d
  IN /\ act[t].k = "setin"
     /\ IF core[c].word = 0 - 1 THEN Go(t, Act("here", c, d, 0, FALSE)) /\ UNCHANGED core
        ELSE core' = [core EXCEPT ![c].word = d] /\ Go(t, Idle)
     /\ UNCHANGED <<wq, sq, S>> /\ Same
\* c is ready: its callback d is run
Here(t) ==
  LET c == act[t].c
      d == act[t].d
      async == Act("done", d, 0, core[core[d].caller].res, TRUE)
  IN /\ act[t].k = "here"
     /\ CASE d = 0 - 2 -> woke' = TRUE /\ Go(t, Idle) /\ UNCHANGED core
          [] d = 0 - 3 -> core' = Free1(core, c) /\ Go(t, Idle) /\ UNCHANGED woke
          [] d > 0 /\ IsSrc(d) ->
               /\ UNCHANGED <<core, woke>>
               /\ Go(t, IF core[d].unw THEN async ELSE Act(IF IsReadyTask(d) THEN "call" ELSE "sub", d, 0, 0, FALSE))
          [] d > 0 /\ ~IsSrc(d) /\ core[d].unw -> Go(t, async) /\ UNCHANGED <<core, woke>>
          [] OTHER ->
               /\ core' = [core EXCEPT ![d].caller = c, ![d].ex = IF @ = Null THEN core[c].ex ELSE @]
               /\ UNCHANGED woke
               /\ Go(t, IF Fun(d).att = 0 THEN Act("run", d, 0, core[c].res, FALSE) ELSE Act("sub", d, 0, 0, FALSE))
     /\ UNCHANGED <<prog, mpc, mc, mi, wq, sq, S>>

\* ---- threads with nothing to do take the next job
WPop == /\ act["w"].k = "idle" /\ wq # <<>>
        /\ wq' = Tail(wq) /\ Go("w", Act("call", Head(wq), 0, 0, FALSE))
        /\ UNCHANGED <<core, sq, S>> /\ Same
SPop == /\ act["s"].k = "idle" /\ sq # <<>>
        /\ sq' = Tail(sq) /\ Go("s", Act("set", Head(sq), 0, 0, FALSE))
        /\ UNCHANGED <<core, wq, S>> /\ Same
\* ---- the client
MIdle == act["m"].k = "idle"
NSteps == Len(prog.st[1])
Lz == LazyK(prog.src[1][2])
MSrc == /\ MIdle /\ mpc = "src"
        /\ core' = <<SrcCore(0)>> /\ sq' = SetLater(0, 1) /\ mpc' = "step" /\ mc' = 1 /\ UNCHANGED mi
        /\ Go("m", AfterSrc(0, 1))
        /\ UNCHANGED <<prog, wq, woke, S>>
\* core mc of item mi is the last of the chain so far
MStep == /\ MIdle /\ mpc = "step" /\ mi < NSteps
         /\ LET c == mc
                i == mi + 1
                n == Len(core) + 1
            IN /\ mc' = n /\ mi' = i
               /\ IF Lz THEN core' = [Append(core, [StepCore(0, i) EXCEPT !.next = c]) EXCEPT ![c].word = n] /\ UNCHANGED act
                  ELSE core' = Append(core, StepCore(0, i)) /\ Go("m", Act("setin", c, n, 0, FALSE))
         /\ UNCHANGED <<prog, mpc, wq, sq, woke, S>>
\* last: the core of the whole pipeline
MFin == /\ MIdle /\ mpc = "step" /\ mi = NSteps
        /\ LET c == mc
               k == prog.fin[1]
               h == HeadOf(core, c)
               hx == IF k = 1 THEN 7 ELSE IF k = 10 THEN prog.fin[2] ELSE Null
               c1 == IF hx = Null THEN core ELSE [core EXCEPT ![h].ex = hx]
               c2 == Unlink([c1 EXCEPT ![c].word = IF k = 0 THEN @ ELSE 0 - 3], c)
           IN IF Lz THEN /\ Feed(Ev1("start", "m", <<IF k = 1 THEN 1 ELSE 0, IF k = 10 THEN hx ELSE Null>>))
                         /\ core' = c2 /\ Go("m", Act("sub", h, 0, 0, FALSE))
                         /\ mpc' = IF k = 0 THEN "wait" ELSE "fin"
              ELSE /\ UNCHANGED S
                   /\ IF k = 0 THEN mpc' = "wait" /\ UNCHANGED <<core, act>>
                      ELSE mpc' = "fin" /\ Go("m", Act("setin", c, 0 - 3, 0, FALSE)) /\ UNCHANGED core
        /\ UNCHANGED <<prog, mc, mi, wq, sq, woke>>
FinalCore == CHOOSE c \in 1..Len(core) : core[c].p = 0 /\ core[c].i = NSteps
MWait == /\ MIdle /\ mpc = "wait" /\ mpc' = "take"
         /\ IF core[FinalCore].word = 0 - 1 THEN woke' = TRUE /\ UNCHANGED core
            ELSE core' = [core EXCEPT ![FinalCore].word = 0 - 2] /\ UNCHANGED woke
         /\ UNCHANGED <<prog, mc, mi, act, wq, sq, S>>
MTake == /\ MIdle /\ mpc = "take" /\ woke /\ mpc' = "fin"
         /\ Feed(Ev1("res", "m", <<core[FinalCore].res>>))
         /\ core' = Free1(core, FinalCore)
         /\ UNCHANGED <<prog, mc, mi, act, wq, sq, woke>>
Quiet == \A t \in Threads : act[t].k = "idle"
Leaks == Cardinality({c \in 1..Len(core) : core[c].live \/ core[c].func = 1})
Bads == Cardinality({c \in 1..Len(core) : core[c].bad})
MEnd == /\ mpc = "fin" /\ Quiet /\ wq = <<>> /\ sq = <<>> /\ mpc' = "end"
        /\ S' = StepSet(StepSet(S, Ev1("quiet", "m", <<>>)), Ev1("end", "m", <<0, 0, Leaks, 0, 0, Bads>>))
        /\ UNCHANGED <<prog, mc, mi, core, act, wq, sq, woke>>
End == mpc = "end" /\ UNCHANGED vars

Next == (\E t \in Threads : Sub(t) \/ Call(t) \/ Set(t) \/ Run(t) \/ Build(t) \/ SubIn(t) \/ Unwrap(t) \/ Done_(t) \/ Xchg(t)
                            \/ SetIn(t) \/ Here(t))
        \/ WPop \/ SPop \/ MSrc \/ MStep \/ MFin \/ MWait \/ MTake \/ MEnd \/ End
Spec == Init /\ [][Next]_vars
ContractHolds == S # {}
\* C20: blocks for the steps made so far, and no more
OneBlock == Len(core) <= Len(prog.st[1]) + 1 + (IF Len(prog.src) > 1 THEN Len(prog.st[2]) + 1 ELSE 0)
NoUseAfterRelease == Bads = 0
=============================================================================
