--------------------------------- MODULE Prim ---------------------------------
(* Primitive numbers (C19).  Group "p".  Integers of any width are written      *)
(* <<sign, limb, limb, ...>> (sign 0 or 1, limbs base 1000, lowest first, none   *)
(* for zero); L = <<"w", least, greatest>>.  Floats are <<sign, magnitude>>      *)
(* with the magnitude as text, L = <<"f">>; k holds what the plain product of    *)
(* the operands is.                                                              *)
EXTENDS Integers, Sequences, SequencesExt

Mag(x) == Tail(x)
Limb(m, i) == IF i \in DOMAIN m THEN m[i] ELSE 0
RECURSIVE Carried(_, _)
Carried(m, c) ==        \* limbs that may be too big, normalised
  IF m = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c % 1000>> \o Carried(<<>>, c \div 1000))
  ELSE <<(m[1] + c) % 1000>> \o Carried(Tail(m), (m[1] + c) \div 1000)
RECURSIVE Trim(_)
Trim(m) == IF m # <<>> /\ m[Len(m)] = 0 THEN Trim(SubSeq(m, 1, Len(m) - 1)) ELSE m
RECURSIVE SumOver(_, _, _)
SumOver(f, i, j) == IF i > j THEN 0 ELSE f[i] + SumOver(f, i + 1, j)
MagMul(a, b) ==
  IF a = <<>> \/ b = <<>> THEN <<>>
  ELSE Trim(Carried([n \in 1..(Len(a) + Len(b) - 1) |->
                      LET f == [i \in 1..n |-> Limb(a, i) * Limb(b, n + 1 - i)] IN SumOver(f, 1, n)], 0))
RECURSIVE MagLeq(_, _)
MagLeq(a, b) ==
  IF Len(a) # Len(b) THEN Len(a) < Len(b)
  ELSE IF a = <<>> THEN TRUE
  ELSE IF a[Len(a)] # b[Len(b)] THEN a[Len(a)] < b[Len(b)]
  ELSE MagLeq(SubSeq(a, 1, Len(a) - 1), SubSeq(b, 1, Len(b) - 1))
BigProduct(x, y) == LET m == MagMul(Mag(x), Mag(y)) IN <<IF m = <<>> THEN 0 ELSE (x[1] + y[1]) % 2>> \o m
BigAbs(x) == <<0>> \o Mag(x)
Fits(L, x) == IF x[1] = 0 THEN MagLeq(Mag(x), Mag(L[3])) ELSE L[2][1] = 1 /\ MagLeq(Mag(x), Mag(L[2]))

Norms == {"norm_l1", "norm_l2", "norm_l_inf"}
BigResult(o, a) == IF o \in Norms THEN BigAbs(a[1]) ELSE BigProduct(a[1], IF o = "dot" THEN a[2] ELSE a[1])
PrimPanics(L, o, k, a) == L[1] = "w" /\ ~Fits(L, BigResult(o, a))
PrimPost(L, o, k, a, r) ==
  CASE o = "conj" -> r = a[1]
    [] o = "is_epsilon" -> r = (-8 <= a[1] /\ a[1] <= 8)     \* in eighths of the machine epsilon
    [] o = "is_epsilon_as" -> r = k
    [] L[1] = "w" -> r = BigResult(o, a)
    [] o \in Norms -> r = <<0, a[1][2]>>
    [] o \in {"norm_l2_sqr", "dot"} -> r = k
=============================================================================
