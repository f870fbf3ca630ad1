-------------------------------- MODULE Atomic --------------------------------
(* C19.  What std::atomic<T> and std::atomic_flag compute when one thread      *)
(* executes a sequence of operations.                                          *)
(*                                                                             *)
(* A value is its object representation: a sequence of 16-bit limbs, least     *)
(* significant first (TLC's integers have 32 bits).  Integers wrap around,     *)
(* pointers move by whole objects, floating values are added as IEEE 754       *)
(* demands (round to nearest, ties to even; computed below on sequences of     *)
(* bits), compare_exchange compares representations, a weak compare_exchange   *)
(* may fail at any time, a strong one only if the representations differ.      *)
(*                                                                             *)
(* Types 21 (3-bit integers) and 22 (6-bit floats) exist only in the design   *)
(* model.                                                                      *)
(* An event [e, t, a]: operation, type, and the values it was given and gave   *)
(* back, the last of them being the value stored afterwards.                   *)
EXTENDS Naturals, Sequences, FiniteSets, Bitwise

KIND == <<"bool", "int", "int", "int", "int", "int", "int", "int", "int", "int", "int", "flt", "flt", "flt",
          "ptr", "ptr", "ptr", "ptr", "int", "int", "flag", "int", "flt">>
BITS == <<1, 8, 8, 16, 16, 32, 32, 64, 64, 16, 32, 32, 64, 79, 64, 64, 64, 64, 8, 64, 1, 3, 6>>
STRIDE == <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 4, 12, 0, 1, 0, 0, 0, 0, 0>>
FRAC == <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 23, 52, 63, 0, 0, 0, 0, 0, 0, 0, 0, 2>>
Kind(t) == KIND[t + 1]
Bits(t) == BITS[t + 1]
Limbs(t) == (Bits(t) + 15) \div 16
Frac(t) == FRAC[t + 1]

Pow2(n) == 2 ^ n
Lim(t, i) == LET r == Bits(t) - 16 * (i - 1) IN IF r >= 16 THEN 65536 ELSE Pow2(r)   \* modulus of limb i
Zero(t) == [i \in 1..Limbs(t) |-> 0]
One(t) == [i \in 1..Limbs(t) |-> IF i = 1 THEN 1 ELSE 0]
Ok(t, v) == \A i \in 1..Limbs(t) : v[i] < Lim(t, i)

(* ---------------------------------------------------------------- integers *)
RECURSIVE AddC(_, _, _, _, _)
AddC(t, a, b, i, c) == IF i > Limbs(t) THEN <<>>
                       ELSE LET x == a[i] + b[i] + c
                            IN <<x % Lim(t, i)>> \o AddC(t, a, b, i + 1, x \div Lim(t, i))
AddI(t, a, b) == AddC(t, a, b, 1, 0)
Inv(t, a) == [i \in 1..Limbs(t) |-> Lim(t, i) - 1 - a[i]]
SubI(t, a, b) == AddC(t, a, Inv(t, b), 1, 1)
AndI(t, a, b) == [i \in 1..Limbs(t) |-> a[i] & b[i]]
OrI(t, a, b) == [i \in 1..Limbs(t) |-> a[i] | b[i]]
XorI(t, a, b) == [i \in 1..Limbs(t) |-> a[i] ^^ b[i]]
\* d times the size of an object
RECURSIVE MulC(_, _, _, _, _)
MulC(t, a, k, i, c) == IF i > Limbs(t) THEN <<>>
                       ELSE LET x == a[i] * k + c IN <<x % Lim(t, i)>> \o MulC(t, a, k, i + 1, x \div Lim(t, i))
Scaled(t, d) == MulC(t, d, STRIDE[t + 1], 1, 0)

(* ------------------------------------------------------- IEEE 754 numbers *)
\* bits of a value, least significant first
Bit(v, i) == (v[(i - 1) \div 16 + 1] \div Pow2((i - 1) % 16)) % 2
ToBits(t, v) == [i \in 1..Bits(t) |-> Bit(v, i)]
RECURSIVE LimbOf(_, _, _, _)
LimbOf(b, lo, hi, w) == IF lo > hi THEN 0 ELSE b[lo] * w + LimbOf(b, lo + 1, hi, 2 * w)
ToLimbs(t, b) == [i \in 1..Limbs(t) |-> LimbOf(b, 16 * (i - 1) + 1, IF 16 * i <= Bits(t) THEN 16 * i ELSE Bits(t), 1)]
Sign(t, b) == b[Bits(t)]
Exp(t, b) == LimbOf(b, Frac(t) + 1, Bits(t) - 1, 1)
ExpMax(t) == Pow2(Bits(t) - 1 - Frac(t)) - 1
FracZero(t, b) == \A i \in 1..Frac(t) : b[i] = 0
IsNan(t, b) == Exp(t, b) = ExpMax(t) /\ ~FracZero(t, b)
IsInf(t, b) == Exp(t, b) = ExpMax(t) /\ FracZero(t, b)
IsZero(t, b) == Exp(t, b) = 0 /\ FracZero(t, b)
NBits(n, k) == [i \in 1..k |-> (n \div Pow2(i - 1)) % 2]
Pack(t, s, e, f) == f \o NBits(e, Bits(t) - 1 - Frac(t)) \o <<s>>
Inf(t, s) == Pack(t, s, ExpMax(t), [i \in 1..Frac(t) |-> 0])
Zer(t, s) == Pack(t, s, 0, [i \in 1..Frac(t) |-> 0])
\* significand with three extra low bits (guard, round, sticky) and one carry bit on top: Frac + 5 bits
Sig(t, b) == <<0, 0, 0>> \o SubSeq(b, 1, Frac(t)) \o <<IF Exp(t, b) = 0 THEN 0 ELSE 1, 0>>
Ex(t, b) == IF Exp(t, b) = 0 THEN 1 ELSE Exp(t, b)
\* shift right by d keeping the sticky bit
Shr(m, d) == LET n == Len(m)
                 lost == \E i \in 1..(IF d + 1 < n THEN d + 1 ELSE n) : m[i] = 1
                 at(i) == IF i + d <= n THEN m[i + d] ELSE 0
             IN IF d = 0 THEN m ELSE [i \in 1..n |-> IF i = 1 THEN (IF lost THEN 1 ELSE 0) ELSE at(i)]
Shl(m) == [i \in 1..Len(m) |-> IF i = 1 THEN 0 ELSE m[i - 1]]
RECURSIVE AddB(_, _, _, _)
AddB(a, b, i, c) == IF i > Len(a) THEN <<>> ELSE LET x == a[i] + b[i] + c IN <<x % 2>> \o AddB(a, b, i + 1, x \div 2)
Neg(a) == [i \in 1..Len(a) |-> 1 - a[i]]
SubB(a, b) == AddB(a, Neg(b), 1, 1)
RECURSIVE GeB(_, _, _)
GeB(a, b, i) == IF i = 0 THEN TRUE ELSE IF a[i] # b[i] THEN a[i] > b[i] ELSE GeB(a, b, i - 1)
RECURSIVE Up(_, _)
Up(m, e) == IF e > 1 /\ m[Len(m) - 1] = 0 THEN Up(Shl(m), e - 1) ELSE <<m, e>>
\* normalized (carry bit free), round to nearest even
Round(t, s, m, e) ==
  LET n == Frac(t)
      keep == SubSeq(m, 4, n + 5)                               \* n + 2 bits
      half == m[3] = 1 /\ (m[2] = 1 \/ m[1] = 1 \/ keep[1] = 1)
      r == IF half THEN AddB(keep, [i \in 1..n + 2 |-> IF i = 1 THEN 1 ELSE 0], 1, 0) ELSE keep
      carry == r[n + 2] = 1
      f == IF carry THEN SubSeq(r, 2, n + 1) ELSE SubSeq(r, 1, n)
      top == carry \/ r[n + 1] = 1
      ee == IF ~top THEN 0 ELSE IF carry THEN e + 1 ELSE e
  IN IF ee >= ExpMax(t) THEN Inf(t, s) ELSE Pack(t, s, ee, f)
Finite(t, x, y) ==
  LET big == IF Ex(t, x) >= Ex(t, y) THEN x ELSE y
      small == IF Ex(t, x) >= Ex(t, y) THEN y ELSE x
      e == Ex(t, big)
      n == Frac(t) + 5
      mb == Sig(t, big)
      ms == Shr(Sig(t, small), IF e - Ex(t, small) > n THEN n ELSE e - Ex(t, small))
      same == Sign(t, x) = Sign(t, y)
      sum == AddB(mb, ms, 1, 0)
      ge == GeB(mb, ms, n)
      dif == IF ge THEN SubB(mb, ms) ELSE SubB(ms, mb)
      s == IF same \/ ge THEN Sign(t, big) ELSE Sign(t, small)
      m == IF same THEN sum ELSE dif
      z == \A i \in 1..n : m[i] = 0
      u == IF m[n] = 1 THEN <<Shr(m, 1), e + 1>> ELSE Up(m, e)
  IN IF z THEN Zer(t, IF same THEN Sign(t, x) ELSE 0) ELSE Round(t, s, u[1], u[2])
\* the value of a + b, or <<>> for a NaN
AddF(t, a, b) ==
  LET x == ToBits(t, a)
      y == ToBits(t, b)
  IN CASE IsNan(t, x) \/ IsNan(t, y) -> <<>>
       [] IsInf(t, x) /\ IsInf(t, y) -> IF Sign(t, x) = Sign(t, y) THEN a ELSE <<>>
       [] IsInf(t, x) -> a
       [] IsInf(t, y) -> b
       [] OTHER -> ToLimbs(t, Finite(t, x, y))
Flip(t, v) == LET i == Limbs(t)
                  h == Lim(t, i) \div 2
              IN [v EXCEPT ![i] = IF @ >= h THEN @ - h ELSE @ + h]

(* ------------------------------------------------------------ arithmetic *)
Plus(t, v, d) == CASE Kind(t) = "int" -> AddI(t, v, d)
                   [] Kind(t) = "ptr" -> AddI(t, v, Scaled(t, d))
                   [] Kind(t) = "flt" -> AddF(t, v, d)
Minus(t, v, d) == CASE Kind(t) = "int" -> SubI(t, v, d)
                    [] Kind(t) = "ptr" -> SubI(t, v, Scaled(t, d))
                    [] Kind(t) = "flt" -> AddF(t, v, Flip(t, d))
\* the observed value got is the computed one (any NaN is as good as another)
Is(t, got, want) == IF want = <<>> THEN Ok(t, got) /\ IsNan(t, ToBits(t, got)) ELSE got = want

(* -------------------------------------------------------------- contract *)
Init0 == [k |-> "none", t |-> 0, v |-> <<>>]
Arg(e, i) == LET n == Limbs(e.t) IN SubSeq(e.a, n * (i - 1) + 1, n * i)
N(e, k, extra) == Len(e.a) = k * Limbs(e.t) + extra
If(c, s) == IF c THEN {s} ELSE {}

\* operations which return the old value, and those which return the new one; x: the argument, unless n = 0
Old(s, e, new(_, _, _)) == If(N(e, 3, 0) /\ Arg(e, 2) = s.v /\ Is(s.t, Arg(e, 3), new(s.t, s.v, Arg(e, 1))),
                              [s EXCEPT !.v = Arg(e, 3)])
New(s, e, new(_, _, _)) == If(N(e, 3, 0) /\ Arg(e, 3) = Arg(e, 2) /\ Is(s.t, Arg(e, 3), new(s.t, s.v, Arg(e, 1))),
                              [s EXCEPT !.v = Arg(e, 3)])
Old1(s, e, new(_, _, _)) == If(N(e, 2, 0) /\ Arg(e, 1) = s.v /\ Arg(e, 2) = new(s.t, s.v, One(s.t)),
                               [s EXCEPT !.v = Arg(e, 2)])
New1(s, e, new(_, _, _)) == If(N(e, 2, 0) /\ Arg(e, 1) = Arg(e, 2) /\ Arg(e, 2) = new(s.t, s.v, One(s.t)),
                               [s EXCEPT !.v = Arg(e, 2)])
Second(t, v, x) == x
\* compare_exchange: expected, desired, returned, expected afterwards, stored afterwards
CasAt(s, e, weak) ==
  LET n == Limbs(s.t)
      exp == SubSeq(e.a, 1, n)
      des == SubSeq(e.a, n + 1, 2 * n)
      ret == e.a[2 * n + 1]
      exq == SubSeq(e.a, 2 * n + 2, 3 * n + 1)
      aft == SubSeq(e.a, 3 * n + 2, 4 * n + 1)
  IN IF ~N(e, 4, 1) THEN {}
     ELSE IF ret = 1 THEN If(exp = s.v /\ exq = exp /\ aft = des, [s EXCEPT !.v = aft])
     ELSE If(ret = 0 /\ (weak \/ exp # s.v) /\ exq = s.v /\ aft = s.v, s)

Value(s, e) ==
  CASE e.e = "store" -> If(N(e, 2, 0) /\ Arg(e, 2) = Arg(e, 1), [s EXCEPT !.v = Arg(e, 2)])
    [] e.e = "asg"   -> New(s, e, Second)
    [] e.e = "load"  -> If(N(e, 2, 0) /\ Arg(e, 1) = s.v /\ Arg(e, 2) = s.v, s)
    [] e.e = "xchg"  -> Old(s, e, Second)
    [] e.e = "cass"  -> CasAt(s, e, FALSE)
    [] e.e = "casw"  -> CasAt(s, e, TRUE)
    [] e.e = "fence" -> If(N(e, 1, 0) /\ Arg(e, 1) = s.v, s)
    [] e.e = "fadd"  -> Old(s, e, Plus)
    [] e.e = "fsub"  -> Old(s, e, Minus)
    [] e.e = "addeq" -> New(s, e, Plus)
    [] e.e = "subeq" -> New(s, e, Minus)
    [] e.e = "prei"  -> New1(s, e, Plus)
    [] e.e = "posi"  -> Old1(s, e, Plus)
    [] e.e = "pred"  -> New1(s, e, Minus)
    [] e.e = "posd"  -> Old1(s, e, Minus)
    [] e.e = "fand"  -> Old(s, e, AndI)
    [] e.e = "for"   -> Old(s, e, OrI)
    [] e.e = "fxor"  -> Old(s, e, XorI)
    [] e.e = "andeq" -> New(s, e, AndI)
    [] e.e = "oreq"  -> New(s, e, OrI)
    [] e.e = "xoreq" -> New(s, e, XorI)
    [] e.e = "end"   -> {[s EXCEPT !.k = "done"]}
    [] OTHER -> {}
Flag(s, e) ==
  CASE e.e = "tas"   -> If(e.a = s.v, [s EXCEPT !.v = <<1>>])
    [] e.e = "clear" -> {[s EXCEPT !.v = <<0>>]}
    [] e.e = "test"  -> If(e.a = s.v, s)
    [] e.e = "end"   -> {[s EXCEPT !.k = "done"]}
    [] OTHER -> {}
Visible(s, e) ==
  CASE s.k = "none" ->
         (CASE e.e = "init" -> If(N(e, 2, 0) /\ Arg(e, 1) = Arg(e, 2) /\ Ok(e.t, Arg(e, 1)),
                                  [k |-> "value", t |-> e.t, v |-> Arg(e, 1)])
            \* C++20: a default constructed atomic is value-initialized, a flag is clear
            [] e.e = "initd" -> If(e.a = Zero(e.t), [k |-> "value", t |-> e.t, v |-> Zero(e.t)])
            [] e.e = "fdflt" -> {[k |-> "flag", t |-> e.t, v |-> <<0>>]}
            [] OTHER -> {})
    [] s.k = "value" -> IF e.t = s.t THEN Value(s, e) ELSE {}
    [] s.k = "flag"  -> IF e.t = s.t THEN Flag(s, e) ELSE {}
    [] OTHER -> {}
StepSet(S, e) == UNION {Visible(s, e) : s \in S}
=============================================================================
