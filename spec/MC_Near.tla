-------------------------------- MODULE MC_Near --------------------------------
(* Laws of approximate equality (C18), over all short objects and tolerances.    *)
EXTENDS Near, TLC
CONSTANTS Top, N
VARIABLES x, y, tol
Vals == -Top..Top
Objs == UNION {[1..n -> Vals] : n \in 0..N}
Init == x \in Objs /\ y = <<>> /\ tol \in 0..(2 * Top + 1)
Next == y = <<>> /\ UNCHANGED <<x, tol>> /\ \E o \in Objs : Len(o) = Len(x) /\ y' = <<o>>
Spec == Init /\ [][Next]_<<x, y, tol>>
Close(a, b, t) == NearPost(<<"z">>, "close", <<t>>, <<a, b>>, TRUE)
Reflexive == Close(x, x, tol) /\ Close(x, x, 0)
Symmetric == y # <<>> => Close(x, y[1], tol) = Close(y[1], x, tol)
Growing == y # <<>> => (Close(x, y[1], tol) => Close(x, y[1], tol + 1))
Exact == y # <<>> => (Close(x, y[1], 0) <=> x = y[1])
\* one component decides as soon as the others agree
EachCounts == y # <<>> => \A i \in DOMAIN x :
  LET z == [x EXCEPT ![i] = y[1][i]] IN
  /\ Close(x, z, tol) <=> NearAbs(x[i] - y[1][i]) <= tol
  /\ Close(x, y[1], tol) => Close(x, z, tol)
Opposite == y # <<>> => NearPost(<<"z">>, "far", <<tol>>, <<x, y[1]>>, ~Close(x, y[1], tol))
\* the facts form says the same when the facts are those of integers
Facts == [p \in {ToString(a) \o "," \o ToString(b) : a, b \in Vals} |->
            \E a, b \in Vals : p = ToString(a) \o "," \o ToString(b) /\ NearAbs(a - b) <= tol]
Texts(s) == [i \in DOMAIN s |-> ToString(s[i])]
SameByFacts == y # <<>> => NearPost(<<"any">>, "close_as", <<Facts>>, <<Texts(x), Texts(y[1])>>, Close(x, y[1], tol))
=============================================================================
