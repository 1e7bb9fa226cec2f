-------------------------------- MODULE MC_Fx --------------------------------
(* The fixed-point real functions the specification judges by (C14, C21) keep   *)
(* the laws of the functions they stand for, up to the tolerance used; on a     *)
(* grid of arguments.                                                          *)
EXTENDS CFunc
CONSTANTS Step, Tol
VARIABLES x, y
Grid == {i * Step : i \in (-45000 \div Step)..(45000 \div Step)}
Init == x \in Grid /\ y = <<>>
Next == y = <<>> /\ x' = x /\ \E v \in Grid : y' = <<v>>
Spec == Init /\ [][Next]_<<x, y>>
Near2(a, b, t) == Abs(a[1] - b[1]) <= t /\ Abs(a[2] - b[2]) <= t
CT(a, b) == SMul(<<"c", <<"fx", FxS, Tol>>>>, a, b)
Circle == LET t == FxCs(x) IN Abs(FxMul(t[1], t[1]) + FxMul(t[2], t[2]) - FxS) <= Tol
Even == FxCs(-x)[1] - FxCs(x)[1] \in -2..2 /\ FxCs(-x)[2] + FxCs(x)[2] \in -2..2
\* known values
Points == x = 0 => /\ FxCs(0) = <<FxS, 0>> /\ Near2(FxCs(FxHalfPi), <<0, FxS>>, Tol) /\ Near2(FxCs(FxPi), <<-FxS, 0>>, Tol)
                   /\ Near2(FxCs(FxPi \div 3), <<FxS \div 2, 14189>>, Tol) /\ Abs(FxExp(FxS) - 44536) <= Tol /\ Abs(FxExp(-FxS) - 6027) <= Tol
                   /\ FxExp(0) = FxS /\ Abs(FxExp(11357) - 2 * FxS) <= Tol
Y == y[1]
Addition == y # <<>> => Near2(FxCs(x + Y), CT(FxCs(x), FxCs(Y)), Tol)
\* relative: the values grow
Exponent == y # <<>> /\ Abs(x + Y) <= 45000 => LET e == FxExp(x + Y) IN Abs(FxMul(FxExp(x), FxExp(Y)) - e) <= Tol + e \div 1024 + (FxExp(x) + FxExp(Y)) \div 4096
Monotone == y # <<>> /\ x < Y => FxExp(x) <= FxExp(Y)
\* complex: z = (x/2, y/2)
Z == <<x \div 2, Y \div 2>>
Pythagoras == y # <<>> =>
  LET s == CSin(Z)  c == CCos(Z) IN Near2(SAdd(<<"c", <<"fx", FxS, Tol>>>>, CT(s, s), CT(c, c)), <<FxS, 0>>, 12 * Tol)
Hyperbolic == y # <<>> =>
  LET s == CSinh(Z)  c == CCosh(Z) IN
  /\ Near2(SSub(<<"c", <<"fx", FxS, Tol>>>>, CT(c, c), CT(s, s)), <<FxS, 0>>, 12 * Tol)
  /\ Near2(SAdd(<<"c", <<"fx", FxS, Tol>>>>, c, s), CExp(Z), 4 * Tol)
\* Euler: exp (i z) = cos z + i sin z
Euler == y # <<>> =>
  LET s == CSin(Z)  c == CCos(Z) IN Near2(CExp(TimesI(Z)), SAdd(<<"c", <<"fx", FxS, Tol>>>>, c, TimesI(s)), 4 * Tol)
=============================================================================
