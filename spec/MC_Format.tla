------------------------------- MODULE MC_Format -------------------------------
(* Laws of the text forms (C17): the text determines the type, the shape and     *)
(* every component; a full writer holds a prefix of it.                          *)
EXTENDS Format
CONSTANTS Words, N
VARIABLES s, t
Kinds == {<<"v", n>> : n \in 0..N} \union {<<"m", m, n>> : m \in 0..N, n \in 0..N} \union {<<"c">>, <<"q">>}
Flat(n) == [1..n -> Words]
Body(k) == CASE k[1] = "v" -> Flat(k[2])
             [] k[1] = "m" -> [1..k[2] -> Flat(k[3])]
             [] k[1] = "c" -> Flat(2)
             [] k[1] = "q" -> Flat(4)
Objs == {o \in UNION {{k} \X Body(k) : k \in Kinds} : TRUE}
Init == s \in Objs /\ t = <<>>
Next == t = <<>> /\ UNCHANGED s /\ \E o \in Objs : t' = <<o>>
Spec == Init /\ [][Next]_<<s, t>>
Text(o) == TextOf(o[1], o[2])
Unique == t # <<>> => (Text(s) = Text(t[1]) <=> s = t[1])
\* an object without components of the same kind and shape has only the frame; each component adds its own text
Comps(o) == IF o[1][1] = "m" THEN FlattenSeq(o[2]) ELSE o[2]
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
Blank(o) == IF o[1][1] = "m" THEN [i \in DOMAIN o[2] |-> [j \in DOMAIN o[2][i] |-> ""]] ELSE [i \in DOMAIN o[2] |-> ""]
Length == t = <<>> => Len(Text(s)) = Len(TextOf(s[1], Blank(s))) + Sum([i \in DOMAIN Comps(s) |-> Len(Comps(s)[i])])
\* the components appear in order: deleting the frame of the text is reading the components
Ordered == t = <<>> => LET w == Comps(s) IN
  \A i \in DOMAIN w : LET cut == [j \in DOMAIN w |-> IF j = i THEN "#" ELSE w[j]] IN
    \* marking component i changes the text there and nowhere before it
    LET q == IF s[1][1] = "m" THEN [r \in DOMAIN s[2] |-> [c \in DOMAIN s[2][r] |-> IF (r - 1) * s[1][3] + c = i THEN "#" ELSE s[2][r][c]]] ELSE cut
        m == TextOf(s[1], q)
        p == CHOOSE n \in 1..Len(m) : SubSeq(m, n, n) = "#"
    IN SubSeq(m, 1, p - 1) = SubSeq(Text(s), 1, p - 1) /\ SubSeq(Text(s), p, p + Len(w[i]) - 1) = w[i]
       /\ SubSeq(m, p + 1, Len(m)) = SubSeq(Text(s), p + Len(w[i]), Len(Text(s)))
\* rooms: never more than fits, always a prefix, success exactly when all of it fits
Rooms == t = <<>> => \A c \in 0..(Len(Text(s)) + 1) : LET f == Fits(c, Text(s)) IN
  /\ f[1] <=> c >= Len(Text(s))
  /\ Len(f[2]) <= c /\ f[2] = SubSeq(Text(s), 1, Len(f[2]))
  /\ ~f[1] => Len(f[2]) = c
=============================================================================
