------------------------------- MODULE MC_Store -------------------------------
(* Laws of views (C04), exhaustively for small matrices: after any history of   *)
(* writes through any view, all views show the same elements, and a write       *)
(* changes exactly the positions it names.                                     *)
EXTENDS Store
CONSTANTS Rows, Cols, Vals, MaxWrites
VARIABLES x, n, last       \* the object, number of writes, the last write
vars == <<x, n, last>>
Row1 == [1..Cols -> Vals]
Init == x \in [1..Rows -> Row1] /\ n = 0 /\ last = <<>>
Do(k, v) ==
  /\ n < MaxWrites
  /\ ~StorePanics(<<"any">>, "w", k, <<x, v>>)
  /\ x' = WriteEffect(<<"any">>, "w", k, <<x, v>>)
  /\ last' = <<k, v>> /\ n' = n + 1
Next == \/ \E i \in 0..Rows, j \in 0..Cols, v \in Vals : Do(<<"set", 2, i, j>>, v)
        \/ \E i \in 0..Rows, v \in Row1 : Do(<<"setrow", 2, i, 0>>, v)
        \/ \E v \in {[i \in 1..Rows |-> [j \in 1..Cols |-> c]] : c \in Vals} : Do(<<"setall", 2, 0, 0>>, v)
Spec == Init /\ [][Next]_vars
View == <<x, n>>
\* the value a view shows is the only one the postcondition admits
See(k, S) == CHOOSE r \in S : ViewPost(<<"any">>, "v", k, <<x>>, r)
At(i, j) == See(<<"at", 2, i, j>>, Vals)
Flat1 == Flat(x)
Consistent ==
  /\ \A i \in 0..(Rows - 1), j \in 0..(Cols - 1) :
       /\ At(i, j) = See(<<"row", 2, i, 0>>, Row1)[j + 1]
       /\ At(i, j) = See(<<"col", 2, j, 0>>, [1..Rows -> Vals])[i + 1]
       /\ At(i, j) = Flat1[i * Cols + j + 1]
       /\ At(i, j) = TransposeN(x, Cols)[j + 1][i + 1]
  /\ ViewPost(<<"any">>, "v", <<"unflat", 2, Rows, Cols>>, <<Flat1>>, x)
  /\ ViewPost(<<"any">>, "v", <<"tr", 2, Rows, Cols>>, <<x>>, TransposeN(x, Cols))
  /\ ViewPost(<<"any">>, "v", <<"tr", 2, Cols, Rows>>, <<TransposeN(x, Cols)>>, x)
\* outside the shape there is nothing to see or to write
Outside ==
  /\ StorePanics(<<"any">>, "v", <<"at", 2, Rows, 0>>, <<x>>)
  /\ StorePanics(<<"any">>, "v", <<"at", 2, 0, Cols>>, <<x>>)
  /\ StorePanics(<<"any">>, "v", <<"row", 2, Rows, 0>>, <<x>>)
  /\ (Rows > 0 => StorePanics(<<"any">>, "v", <<"col", 2, Cols, 0>>, <<x>>))
Named(i, j) == LET k == last'[1] IN
  CASE k[1] = "set" -> k[3] = i /\ k[4] = j [] k[1] = "setrow" -> k[3] = i [] OTHER -> TRUE
Written(i, j) == LET k == last'[1]  v == last'[2] IN
  CASE k[1] = "set" -> v [] k[1] = "setrow" -> v[j + 1] [] OTHER -> v[i + 1][j + 1]
Frame == [][\A i \in 0..(Rows - 1), j \in 0..(Cols - 1) :
              x'[i + 1][j + 1] = IF Named(i, j) THEN Written(i, j) ELSE x[i + 1][j + 1]]_vars
=============================================================================
