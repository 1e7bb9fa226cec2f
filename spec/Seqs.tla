-------------------------------- MODULE Seqs --------------------------------
(* Sequences into containers (C02) and traversals of containers (C03).         *)
(* k = <<rank, M, N>> is a shape.  Group "t" are calls with a result only;      *)
(* group "n" are calls on an iterator: its register holds what is left of it   *)
(* and the call changes that.                                                  *)
EXTENDS Linalg

Cells(k) == IF k[1] = 1 THEN k[3] ELSE k[2] * k[3]
Build(k, s) == IF k[1] = 1 THEN [i \in 1..k[3] |-> s[i]]
               ELSE [i \in 1..k[2] |-> [j \in 1..k[3] |-> s[(i - 1) * k[3] + j]]]
InOrder(k, a) == IF k[1] = 1 THEN a ELSE Flat(a)         \* in row-major order
Concat(ss) == FoldLeft(LAMBDA x, y : x \o y, <<>>, ss)
FitsShape(k, a) == IF k[1] = 1 THEN Len(a) = k[3] ELSE Len(a) = k[2] /\ \A i \in DOMAIN a : Len(a[i]) = k[3]

SeqMayPanic(L, o, k, a) == o = "foldfirst" /\ Cells(k) = 0
SeqPost(L, o, k, a, r) ==
  LET c == Cells(k)
      s == InOrder(k, a[1])
  IN
  CASE o = "init" -> r = <<Build(k, [i \in 1..c |-> i]), c>>
    [] o = "map" -> r = <<Build(k, [i \in 1..c |-> <<i, s[i]>>]), s>>
    [] o = "foreach" -> r = s
    [] o = "zip" -> LET t == InOrder(k, a[2]) IN r = Build(k, [i \in 1..c |-> <<s[i], t[i]>>])
    [] o = "unzip" -> r = <<Build(k, [i \in 1..c |-> s[i][1]]), Build(k, [i \in 1..c |-> s[i][2]])>>
    [] o = "enumerate" -> r = Build(k, [i \in 1..c |-> <<i - 1, s[i]>>])
    [] o = "indices" -> r = IF k[1] = 1 THEN [i \in 1..c |-> i - 1]
                            ELSE [i \in 1..k[2] |-> [j \in 1..k[3] |-> <<i - 1, j - 1>>]]
    [] o = "fold" -> r = <<a[2]>> \o s
    [] o = "foldfirst" -> Cells(k) = 0 \/ r = <<Concat(s), [i \in 1..(c - 1) |-> <<Concat(SubSeq(s, 1, i)), s[i + 1]>>]>>
    [] o = "scan" -> r = Build(k, [i \in 1..c |-> <<a[2]>> \o SubSeq(s, 1, i)])
    [] o = "fill" -> r = Build(k, [i \in 1..c |-> a[1]])
    [] o = "itermut" -> r = <<s, Build(k, a[2])>>
    [] o = "open" -> r = s
    [] o = "openflat" -> r = Concat(a[1])
    [] o = "flatnone" -> r = (a[1] = <<>>)
    [] o = "fromslice" -> r = IF Len(a[1]) = c THEN <<Build(k, a[1])>> ELSE <<>>
    [] o = "fromrows" -> r = IF Len(a[1]) = k[2] THEN <<a[1]>> ELSE <<>>
    [] o = "ident" -> r = a[1]

\* how many entries of source s a consumer takes that needs n items: entries are <<x>>, or <<>> for an end
\* that the source reports and does not stick to
Gap(s) == IF \E i \in DOMAIN s : s[i] = <<>> THEN CHOOSE i \in DOMAIN s : s[i] = <<>> /\ \A j \in 1..(i - 1) : s[j] # <<>>
          ELSE Len(s) + 1
Enough(s, n) == Gap(s) > n
Taken(s, n) == IF Enough(s, n) THEN n ELSE Min2(Gap(s), Len(s))
After(s, n) == SubSeq(s, n + 1, Len(s))
Items(s, n) == [i \in 1..n |-> s[i][1]]

NPost(L, o, k, a, r) ==
  LET s == a[1] IN
  CASE o \in {"fromiter", "fromvecs"} ->
         LET n == IF o = "fromiter" THEN Cells(k) ELSE k[2] IN
         r = IF ~Enough(s, n) THEN <<>> ELSE IF o = "fromiter" THEN <<Build(k, Items(s, n))>> ELSE <<Items(s, n)>>
    [] o = "group" -> r = IF Enough(s, k) THEN <<Items(s, k)>> ELSE <<>>
    [] o = "pull" -> r = IF s = <<>> THEN <<>> ELSE s[1]
    [] o = "next" -> r = IF s = <<>> THEN <<>> ELSE <<s[1]>>
    [] o = "nth" -> r = IF Len(s) > k THEN <<s[k + 1]>> ELSE <<>>
    [] o = "back" -> r = IF s = <<>> THEN <<>> ELSE <<s[Len(s)]>>
    [] o = "size" -> r[1] <= Len(s) /\ (r[2] # <<>> => Len(s) <= r[2][1])
    [] o = "len" -> r = Len(s)
    [] o = "count" -> r = Len(s)
    [] o = "last" -> r = IF s = <<>> THEN <<>> ELSE <<s[Len(s)]>>
    [] o = "rest" -> r = s
    [] o = "rev" -> r = Reverse(s)
NEffect(L, o, k, a) ==
  LET s == a[1] IN
  CASE o = "fromiter" -> After(s, Taken(s, Cells(k)))
    [] o = "fromvecs" -> After(s, Taken(s, k[2]))
    [] o = "group" -> After(s, Taken(s, k))
    [] o \in {"next", "pull"} -> After(s, 1)
    [] o = "nth" -> After(s, k + 1)
    [] o = "back" -> IF s = <<>> THEN s ELSE SubSeq(s, 1, Len(s) - 1)
    [] o \in {"size", "len"} -> s
    [] OTHER -> <<>>
=============================================================================
