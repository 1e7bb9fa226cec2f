-------------------------------- MODULE Store --------------------------------
(* Views, accessors and conversions (C04): an object is nothing but its        *)
(* elements by position.  Group "w" are writes through a mutable view (the     *)
(* first operand register is the object), group "v" are reads.                 *)
(* k = <<what, rank, i, j>> with positions counted from 0; for "tr" <<"tr", 2, M, N>>. *)
EXTENDS Linalg

Inside(k, a) == k[3] < Len(a) /\ (k[2] = 2 => k[4] < Len(a[k[3] + 1]))
StorePanics(L, o, k, a) ==
  CASE k[1] \in {"at", "set"} -> ~Inside(k, a[1])
    [] k[1] \in {"row", "setrow"} -> k[3] >= Len(a[1])
    [] k[1] = "col" -> \E i \in DOMAIN a[1] : k[3] >= Len(a[1][i])
    [] OTHER -> FALSE
ViewPost(L, o, k, a, r) ==
  LET x == a[1] IN
  CASE k[1] = "at" -> r = (IF k[2] = 2 THEN x[k[3] + 1][k[4] + 1] ELSE x[k[3] + 1])
    [] k[1] = "all" -> r = x
    [] k[1] = "flat" -> r = Flat(x)
    [] k[1] = "unflat" -> Flat(r) = x /\ Len(r) = k[3] /\ \A i \in DOMAIN r : Len(r[i]) = k[4]
    [] k[1] = "row" -> r = x[k[3] + 1]
    [] k[1] = "col" -> r = [i \in DOMAIN x |-> x[i][k[3] + 1]]
    [] k[1] = "tr" -> r = [j \in 1..k[4] |-> [i \in 1..k[3] |-> x[i][j]]]
    [] k[1] = "split" -> r = <<x[1], Tail(x)>>
    [] k[1] = "join" -> r = <<x[1]>> \o x[2]
    [] k[1] = "tail" -> r = Tail(x)
    [] k[1] = "eq" -> r = (x = a[2])
    [] k[1] = "ne" -> r = (x # a[2])
WritePost(L, o, k, a, r) == r = 0
WriteEffect(L, o, k, a) ==
  LET x == a[1] IN
  CASE k[1] = "set" -> IF k[2] = 2 THEN [x EXCEPT ![k[3] + 1][k[4] + 1] = a[2]] ELSE [x EXCEPT ![k[3] + 1] = a[2]]
    [] k[1] = "setrow" -> [x EXCEPT ![k[3] + 1] = a[2]]
    [] k[1] = "setall" -> a[2]
=============================================================================
