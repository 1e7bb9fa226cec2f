-------------------------------- MODULE MC_Func --------------------------------
(* Laws of the functions said in quarters and of broadcasting (C06).             *)
EXTENDS Func
CONSTANT Top
VARIABLES x, rest
Vals == -Top..Top
Init == x \in Vals /\ rest = <<>>
Next == /\ rest = <<>> /\ x' = x
        /\ \E y \in Vals, z \in Vals : rest' = <<y, z>>
Spec == Init /\ [][Next]_<<x, rest>>
F(o) == Q1(o, x)
Whole(q) == q % 4 = 0
Integral == Whole(F("floor")) /\ Whole(F("ceil")) /\ Whole(F("trunc")) /\ Whole(F("round"))
Bounds == /\ F("floor") <= x /\ x < F("floor") + 4
          /\ x <= F("ceil") /\ F("ceil") < x + 4
          /\ Abs(F("trunc")) <= Abs(x) /\ Abs(x) < Abs(F("trunc")) + 4
          /\ Abs(F("round") - x) <= 2 /\ (Abs(F("round") - x) = 2 => Abs(F("round")) > Abs(x))
Parts == F("trunc") + F("fract") = x /\ Abs(F("fract")) < 4 /\ (F("fract") # 0 => Sgn(F("fract")) = Sgn(x))
Signs == /\ F("abs") * 4 = x * F("signum") \/ x = 0
         /\ Q1("floor", -x) = -F("ceil") /\ Q1("round", -x) = -F("round") /\ Q1("trunc", -x) = -F("trunc")
\* the same call, by itself or through a container
One(o, k, a, r) == InterpPost(<<"z">>, o, k, a, r)
MinMax == rest # <<>> => LET y == rest[1] IN
  /\ Q2("vmin", x, y) + Q2("vmax", x, y) = x + y /\ Q2("vmin", x, y) <= Q2("vmax", x, y)
  /\ Q2("abs_sub", x, y) - Q2("abs_sub", y, x) = x - y
Clamps == rest # <<>> => LET a == rest[1]  b == rest[2]  c == Q2("vmin", Q2("vmax", x, a), b) IN
  a <= b => /\ One("clamp", <<1, <<"v", "s", "s">>>>, <<<<x>>, a, b>>, <<c>>)
            /\ a <= c /\ c <= b /\ (a <= x /\ x <= b => c = x)
            \* and nothing else is admitted
            /\ \A d \in Vals : One("clamp", <<1, <<"v", "s", "s">>>>, <<<<x>>, a, b>>, <<d>>) => d = c
\* one scalar for all = the container filled with it; one row for all rows = the rows repeated
Spreads == rest # <<>> => LET y == rest[1]  z == rest[2]
                              m == <<<<x, y>>, <<z, x>>>> IN
  \A p, q \in {x, y, z} : LET r == [i \in 1..2 |-> [j \in 1..2 |-> Q2("vmax", m[i][j], IF j = 1 THEN p ELSE q)]] IN
    /\ One("vmax", <<2, <<"v", "r">>>>, <<m, <<p, q>>>>, r)
    /\ One("vmax", <<2, <<"v", "v">>>>, <<m, <<<<p, q>>, <<p, q>>>>>>, r)
    /\ p = q => One("vmax", <<2, <<"v", "s">>>>, <<m, p>>, r)
    /\ ~One("vmax", <<2, <<"v", "r">>>>, <<m, <<p, q>>>>, [r EXCEPT ![2][1] = @ + 1])
Fma == rest # <<>> => LET s == x * rest[1] + 4 * rest[2] IN
  s % 4 = 0 => One("mul_add", <<1, <<"v", "s", "s">>>>, <<<<x>>, rest[1], rest[2]>>, <<s \div 4>>)
=============================================================================
