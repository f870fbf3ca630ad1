------------------------------ MODULE AtomicImpl ------------------------------
(* C19, design.  The FIBER re-implementation (a plain field changed by the     *)
(* statements of include/yaclib/fault/detail/fiber/atomic.hpp) under the       *)
(* wrapper with its injected weak failures, on 3-bit integers: all values, all *)
(* operations, all arguments.  Every step must be a step of the contract.      *)
(* The contract's floating addition is checked against exact arithmetic on all *)
(* pairs of 6-bit floats (ASSUME).                                             *)
EXTENDS Atomic, Integers, TLC
T == 21
D == 0..7
VARIABLES value, S
vars == <<value, S>>
\* the integer operations on plain numbers
M(x) == x % 8
PAnd(x, y) == x & y
Emit(e, a, nv) == /\ value' = nv /\ S' = StepSet(S, [e |-> e, t |-> T, a |-> a])
Fetch(e, x, nv) == Emit(e, <<x, value, nv>>, nv)        \* val = _value; _value op= arg; return val
Assign(e, x, nv) == Emit(e, <<x, nv, nv>>, nv)          \* return _value op= arg
Pre(e, nv) == Emit(e, <<nv, nv>>, nv)
Post(e, nv) == Emit(e, <<value, nv>>, nv)
Helper(e, exp, des) == IF value = exp THEN Emit(e, <<exp, des, 1, exp, des>>, des)
                       ELSE Emit(e, <<exp, des, 0, value, value>>, value)
Init == \E v \in D : value = v /\ S = StepSet({Init0}, [e |-> "init", t |-> T, a |-> <<v, v>>])
Next ==
  \/ \E x \in D :
       \/ Emit("store", <<x, x>>, x) \/ Assign("asg", x, x) \/ Emit("xchg", <<x, value, x>>, x)
       \/ Fetch("fadd", x, M(value + x)) \/ Fetch("fsub", x, M(value + 8 - x))
       \/ Assign("addeq", x, M(value + x)) \/ Assign("subeq", x, M(value + 8 - x))
       \/ Fetch("fand", x, value & x) \/ Fetch("for", x, value | x) \/ Fetch("fxor", x, value ^^ x)
       \/ Assign("andeq", x, value & x) \/ Assign("oreq", x, value | x) \/ Assign("xoreq", x, value ^^ x)
       \/ \E y \in D : \/ Helper("cass", x, y) \/ Helper("casw", x, y)
                       \/ Emit("casw", <<x, y, 0, value, value>>, value)     \* ShouldFailAtomicWeak
  \/ Pre("prei", M(value + 1)) \/ Post("posi", M(value + 1)) \/ Pre("pred", M(value + 7)) \/ Post("posd", M(value + 7))
  \/ Emit("load", <<value, value>>, value) \/ Emit("fence", <<value>>, value)
Spec == Init /\ [][Next]_vars
Conforms == S # {}
Determined == \A s \in S : s.v = <<value>>

\* ---- 6-bit floats: sign, 3 bits of exponent, 2 bits of fraction; the unit is the smallest subnormal number
F == 22
Val(i) == LET m == i % 4
              e == (i \div 4) % 8
              a == IF e = 0 THEN m ELSE (4 + m) * 2 ^ (e - 1)
          IN IF i >= 32 THEN 0 - a ELSE a
Fin == {i \in 0..63 : (i \div 4) % 8 # 7}
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Nearest(x, r) == \A j \in Fin : Abs(x - Val(j)) > Abs(x - Val(r)) \/ Val(j) = Val(r)
                                \/ (Abs(x - Val(j)) = Abs(x - Val(r)) /\ r % 2 = 0)
MaxV == 7 * 2 ^ 5
Right(x, r, i, j) ==
  IF Abs(x) >= MaxV + 2 ^ 4 THEN r = (IF x < 0 THEN 60 ELSE 28)
  ELSE r \in Fin /\ Nearest(x, r) /\ (x = 0 => r = (IF i >= 32 /\ j >= 32 THEN 32 ELSE 0))
ASSUME \A i \in Fin, j \in Fin : Right(Val(i) + Val(j), AddF(F, <<i>>, <<j>>)[1], i, j)
ASSUME \A i \in 0..63 : ToLimbs(F, ToBits(F, <<i>>)) = <<i>>
ASSUME \A i \in 0..63 : i \notin Fin => AddF(F, <<28>>, <<i>>) = (IF i = 28 THEN <<28>> ELSE <<>>)
=============================================================================
