------------------------------- MODULE Sampler -------------------------------
(* Random sampling (C16).  Group "d": draws come from a script (the first      *)
(* operand); k = <<what, n>>; r = <<number of draws consumed, sample>>.        *)
(* A sampler is a loop: take the draws of one attempt, return the sample if    *)
(* its condition holds, otherwise forget them and start over.                  *)
(* Group "s": statistics over many draws of the real generators.               *)
EXTENDS Linalg

DrawEps == 4      \* machine epsilon of the scripted scalar
SumSq(v) == FoldSeq(LAMBDA x, y : x + y, 0, [i \in DOMAIN v |-> v[i] * v[i]])
Long(v) == SumSq(v) > DrawEps * DrawEps
Rows(n, s) == [i \in 1..n |-> SubSeq(s, (i - 1) * n + 1, i * n)]
Regular(n, s) == Abs(Det(<<"z", 0, 0>>, Rows(n, s))) > DrawEps
Attempt(s, size, i) == SubSeq(s, (i - 1) * size + 1, i * size)
\* attempts 1..m-1 failed the condition and attempt m met it
Redrawn(s, used, size, Good(_)) ==
  LET m == used \div size IN
  /\ used % size = 0 /\ m >= 1 /\ used <= Len(s)
  /\ \A i \in 1..(m - 1) : ~Good(Attempt(s, size, i))
  /\ Good(Attempt(s, size, m))
LastOf(s, used, size) == SubSeq(s, used - size + 1, used)

\* u (in 1/1024) is v scaled to length one
UnitAlong(u, v) ==
  LET t == SumSq(v) IN
  \A i \in DOMAIN v : /\ u[i] * v[i] >= 0
                      /\ Abs(u[i]) <= 1024
                      /\ Abs(u[i] * u[i] * t - v[i] * v[i] * 1048576) <= 2100 * t

DrawPost(L, o, k, a, r) ==
  LET s == a[1]  n == k[2]  used == r[1]  x == r[2] IN
  CASE k[1] = "plain" -> used = n /\ x = SubSeq(s, 1, n)
    [] k[1] = "matrix" -> used = n * k[3] /\ Flat(x) = SubSeq(s, 1, used) /\ \A i \in DOMAIN x : Len(x[i]) = k[3]
    [] k[1] = "nonzero" -> Redrawn(s, used, n, Long) /\ x = LastOf(s, used, n)
    [] k[1] = "unit" -> Redrawn(s, used, n, Long) /\ UnitAlong(x, LastOf(s, used, n))
    [] k[1] = "invertible" -> Redrawn(s, used, n * n, LAMBDA m : Regular(n, m)) /\ x = Rows(n, LastOf(s, used, n * n))
    \* a pair <<shift, matrix>>: either part may be drawn first
    [] k[1] = "affine" -> LET m == n + n * n IN used = m /\
         \/ x[1] = SubSeq(s, 1, n) /\ x[2] = Rows(n, SubSeq(s, n + 1, m))
         \/ x[1] = SubSeq(s, n * n + 1, m) /\ x[2] = Rows(n, SubSeq(s, 1, n * n))
    [] k[1] = "affine_invertible" ->
         \/ LET t == SubSeq(s, n + 1, Len(s)) IN
            x[1] = SubSeq(s, 1, n) /\ Redrawn(t, used - n, n * n, LAMBDA m : Regular(n, m)) /\ x[2] = Rows(n, LastOf(t, used - n, n * n))
         \/ Redrawn(s, used - n, n * n, LAMBDA m : Regular(n, m)) /\ x[2] = Rows(n, LastOf(s, used - n, n * n)) /\ x[1] = SubSeq(s, used - n + 1, used)

\* six standard deviations of a count with the expected value e
Near(c, e) == (c - e) * (c - e) <= 36 * e + 36
\* 100000 standard normal draws by intervals of 1/2: below -3, -3..-2.5, ..., 2.5..3, above 3
NormalBins == <<135, 486, 1654, 4406, 9185, 14988, 19146, 19146, 14988, 9185, 4406, 1654, 486, 135>>
\* pairs <<c, n>> of counts
StatPost(L, o, k, a, r) ==
  CASE o = "draws" -> TRUE
    [] o = "bins" -> Len(r) = 14 /\ \A i \in 1..14 : Near(r[i], NormalBins[i])
    [] o = "even" -> \A i \in DOMAIN r : Near(r[i], k \div Len(r))                    \* all classes equally likely
    [] o = "reached" -> \A i \in DOMAIN r : r[i] >= 1                                 \* every class occurs
    [] o = "none" -> r = 0                                                            \* no sample breaks the condition
    [] o = "moments" -> /\ Abs(r[1]) <= 25 /\ Abs(r[2] - 1000) <= 40 /\ Abs(r[3]) <= 80 \* mean, variance, skewness in 1/1000
    [] o = "norm" -> r[1] >= 1000000 - k /\ r[2] <= 1000000 + k /\ r[3] = r[4]         \* least, largest norm in 1/1000000; finite samples
=============================================================================
