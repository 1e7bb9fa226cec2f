--------------------------------- MODULE Near ---------------------------------
(* Approximate equality (C18) and primitive numbers (C19).                      *)
(* Group "a": operands are the components of two objects, in the same order.    *)
(* k = <<tolerance>>, or <<facts>> mapping a pair of scalars (as text) to       *)
(* whether the scalars themselves are approximately equal.                      *)
EXTENDS Integers, Sequences, SequencesExt

NearAbs(x) == IF x < 0 THEN -x ELSE x
AllClose(x, y, tol) == \A i \in DOMAIN x : NearAbs(x[i] - y[i]) <= tol
NearPost(L, o, k, a, r) ==
  CASE o = "close" -> r = AllClose(a[1], a[2], k[1])
    [] o = "far" -> r = ~AllClose(a[1], a[2], k[1])
    [] o = "default" -> r = k[1]
    [] o = "close_as" -> r = (\A i \in DOMAIN a[1] : k[1][a[1][i] \o "," \o a[2][i]])
    [] o = "far_as" -> r = (\E i \in DOMAIN a[1] : ~k[1][a[1][i] \o "," \o a[2][i]])
=============================================================================
