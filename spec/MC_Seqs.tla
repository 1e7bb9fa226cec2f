------------------------------- MODULE MC_Seqs -------------------------------
(* Laws of consuming sequences (C02, C03): whatever sequence of calls is made   *)
(* on a source, every entry leaves it in order, into exactly one result; a      *)
(* container is built from exactly as many entries as it has cells.            *)
EXTENDS Seqs
CONSTANTS MaxLen, MaxCalls
VARIABLES src, left, out, lost, calls
vars == <<src, left, out, lost, calls>>
Sources == UNION {[1..n -> {0, 1}] : n \in 0..MaxLen}       \* 0: an end, not stuck to
\* distinct entries: their positions
Named(s) == [i \in DOMAIN s |-> IF s[i] = 0 THEN <<>> ELSE <<i>>]
Shapes == {<<1, 1, 0>>, <<1, 1, 1>>, <<1, 1, 2>>, <<1, 1, 3>>, <<2, 2, 2>>, <<2, 1, 3>>, <<2, 0, 3>>}
Init == /\ src \in Sources /\ left = Named(src) /\ out = <<>> /\ lost = {} /\ calls = 0
IsSome(r) == r # <<>>
\* the call's result is the one the postcondition admits; what it takes and does not return is lost
Call(o, k, r) ==
  /\ calls < MaxCalls
  /\ NPost(<<"any">>, o, k, <<left>>, r)
  /\ left' = NEffect(<<"any">>, o, k, <<left>>)
  /\ calls' = calls + 1
  /\ UNCHANGED src
Cell(k, r) == IF k[1] = 1 THEN r ELSE Flat(r)
FromIter == \E k \in Shapes :
  LET c == Cells(k)  r == IF Enough(left, c) THEN <<Build(k, Items(left, c))>> ELSE <<>> IN
  /\ Call("fromiter", k, r)
  /\ IF r # <<>> THEN out' = out \o Cell(k, r[1]) /\ lost' = lost
     ELSE out' = out /\ lost' = lost \union {left[i] : i \in 1..Taken(left, c)}
Group == \E k \in 1..3 :
  LET r == IF Enough(left, k) THEN <<Items(left, k)>> ELSE <<>> IN
  /\ Call("group", k, r)
  /\ IF r # <<>> THEN out' = out \o r[1] /\ lost' = lost
     ELSE out' = out /\ lost' = lost \union {left[i] : i \in 1..Taken(left, k)}
Pull == LET r == IF left = <<>> THEN <<>> ELSE left[1] IN
  /\ Call("pull", 0, r)
  /\ out' = IF r = <<>> THEN out ELSE Append(out, r[1])
  /\ lost' = IF left # <<>> /\ r = <<>> THEN lost \union {<<>>} ELSE lost
Next == FromIter \/ Group \/ Pull
Spec == Init /\ [][Next]_vars
\* results hold the entries in the order of the source, each at most once
InOrderOnce == \A i, j \in DOMAIN out : i < j => out[i] < out[j]
Conserved == \A i \in DOMAIN src : src[i] = 1 =>
  Cardinality({<<1, j>> : j \in {j \in DOMAIN out : out[j] = i}} \union (IF <<i>> \in lost THEN {<<2, 0>>} ELSE {})
              \union {<<3, j>> : j \in {j \in DOMAIN left : left[j] = <<i>>}}) = 1
\* what is left is the end of the source: nothing is taken from the middle, nothing is put back
Suffix == Len(left) <= Len(src) /\ left = SubSeq(Named(src), Len(src) - Len(left) + 1, Len(src))
\* no call takes more than it needs
Needs == [][(Len(out') > Len(out) => Len(left) - Len(left') = Len(out') - Len(out))]_vars
\* row-major: the cell (i, j) of a built matrix is the entry (i - 1) N + j
RowMajor == \A k \in Shapes : k[1] = 2 /\ Enough(left, Cells(k)) =>
  LET m == Build(k, Items(left, Cells(k))) IN
  /\ FitsShape(k, m)
  /\ \A i \in DOMAIN m : \A j \in DOMAIN m[i] : <<m[i][j]>> = left[(i - 1) * k[3] + j]
  /\ InOrder(k, m) = Items(left, Cells(k))
=============================================================================
