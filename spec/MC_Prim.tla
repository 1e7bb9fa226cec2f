-------------------------------- MODULE MC_Prim --------------------------------
(* The unbounded integers of Prim (C19) against TLC's own.                       *)
EXTENDS Prim
CONSTANT Top
VARIABLES x, y
Vals == {0, 1, 2, 9, 127, 128, 255, 256, 998, 999, 1000, 1001, 1999, 9999, 10000, 32767, 32768, 46340} \union 0..Top
RECURSIVE Limbs(_)
Limbs(n) == IF n = 0 THEN <<>> ELSE <<n % 1000>> \o Limbs(n \div 1000)
Big(n) == IF n < 0 THEN <<1>> \o Limbs(-n) ELSE <<0>> \o Limbs(n)
Init == x \in Vals \union {-v : v \in Vals} /\ y = <<>>
Next == y = <<>> /\ x' = x /\ \E v \in Vals \union {-w : w \in Vals} : y' = <<v>>
Spec == Init /\ [][Next]_<<x, y>>
Ab(n) == IF n < 0 THEN -n ELSE n
Absolute == BigAbs(Big(x)) = Big(Ab(x))
Product == y # <<>> => BigProduct(Big(x), Big(y[1])) = Big(x * y[1])
Order == y # <<>> => (MagLeq(Limbs(Ab(x)), Limbs(Ab(y[1]))) <=> Ab(x) <= Ab(y[1]))
Range8 == /\ Fits(<<"w", Big(-128), Big(127)>>, Big(x)) <=> x \in -128..127
          /\ Fits(<<"w", Big(0), Big(255)>>, Big(x)) <=> x \in 0..255
=============================================================================
