-------------------------------- MODULE Func --------------------------------
(* Math functions of containers (C06).                                        *)
(* Group "f": k = <<rank, kinds, facts>>.  kinds[i] says how operand i is     *)
(* spread over the positions of the first one: "s" one scalar for all, "r"    *)
(* one row for every row of a matrix, "v" position by position.  facts maps   *)
(* the scalar arguments to what the scalar function of that name returns ("*"  *)
(* where the property leaves the result open: bounds that cross).              *)
(* Group "i": the same calls on reals that are multiples of 1/4 (counted in   *)
(* quarters); here the function itself is specified.                          *)
EXTENDS Elem

Spread(kind, x, i, j) == CASE kind = "s" -> x [] kind = "r" -> x[j] [] kind = "v" -> x[i][j]
\* containers of rank 1 are treated as one row
AsRows(rank, x) == IF rank = 2 THEN x ELSE <<x>>
KindIn(rank, kind) == IF rank = 1 /\ kind = "v" THEN "r" ELSE kind
ArgsAt(k, a, i, j) == [n \in DOMAIN a |-> IF n = 1 THEN a[1][i][j] ELSE Spread(KindIn(k[1], k[2][n]), a[n], i, j)]
Key(s) == CASE Len(s) = 1 -> s[1] [] Len(s) = 2 -> s[1] \o "," \o s[2] [] Len(s) = 3 -> s[1] \o "," \o s[2] \o "," \o s[3]
AllAt(k, a, rows, F(_, _)) == \A i \in DOMAIN rows : \A j \in DOMAIN rows[i] : F(i, j)
SameShape(x, y) == DOMAIN x = DOMAIN y /\ \A i \in DOMAIN x : DOMAIN x[i] = DOMAIN y[i]

FuncPost(L, o, k, a, r) ==
  LET rows == AsRows(k[1], a[1])
      b == [n \in DOMAIN a |-> IF n = 1 THEN rows ELSE a[n]]
      fact(i, j) == k[3][Key(ArgsAt(k, b, i, j))]
  IN IF o = "sin_cos"
     THEN LET s == AsRows(k[1], r[1])  c == AsRows(k[1], r[2]) IN
          SameShape(s, rows) /\ SameShape(c, rows) /\ AllAt(k, a, rows, LAMBDA i, j : <<s[i][j], c[i][j]>> = fact(i, j))
     ELSE LET q == AsRows(k[1], r) IN
          SameShape(q, rows) /\ AllAt(k, a, rows, LAMBDA i, j : LET f == fact(i, j) IN f = "*" \/ q[i][j] = f)

\* the functions that can be said in quarters
QRound(x) == Sgn(x) * 4 * ((Abs(x) + 2) \div 4)     \* half away from zero
Q1(o, x) ==
  CASE o = "abs" -> Abs(x)
    [] o = "signum" -> IF x < 0 THEN -4 ELSE 4
    [] o = "floor" -> 4 * FDiv(x, 4)
    [] o = "ceil" -> -4 * FDiv(-x, 4)
    [] o = "trunc" -> 4 * TDiv(x, 4)
    [] o = "round" -> QRound(x)
    [] o = "fract" -> x - 4 * TDiv(x, 4)
Q2(o, x, y) ==
  CASE o = "vmin" -> Min2(x, y)
    [] o = "vmax" -> Max2(x, y)
    [] o = "abs_sub" -> Max2(x - y, 0)
    [] o = "bc" -> y
InterpPost(L, o, k, a, r) ==
  LET rows == AsRows(k[1], a[1])
      b == [n \in DOMAIN a |-> IF n = 1 THEN rows ELSE a[n]]
      q == AsRows(k[1], r)
      at(i, j) == ArgsAt(k, b, i, j)
      ok(s, x) ==
        CASE o = "clamp" -> s[2] > s[3] \/ (x = (IF s[1] < s[2] THEN s[2] ELSE IF s[1] > s[3] THEN s[3] ELSE s[1]))
          [] o = "mul_add" -> 4 * x = s[1] * s[2] + 4 * s[3]
          [] o = "hypot" -> x >= 0 /\ x * x = s[1] * s[1] + s[2] * s[2]
          [] o = "sqrt" -> x >= 0 /\ x * x = 4 * s[1]
          [] o = "cbrt" -> x * x * x = 16 * s[1]
          [] Len(s) = 1 -> x = Q1(o, s[1])
          [] OTHER -> x = Q2(o, s[1], s[2])
  IN SameShape(q, rows) /\ AllAt(k, a, rows, LAMBDA i, j : ok(at(i, j), q[i][j]))
=============================================================================
