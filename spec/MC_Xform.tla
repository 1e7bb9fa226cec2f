------------------------------- MODULE MC_Xform -------------------------------
(* Laws of transformations (C12, C13, C14) over GF(P), P % 4 = 3: a transform   *)
(* f grows by composition with generators and by inversion; x, v are a point    *)
(* and a direction.                                                            *)
EXTENDS Xform
CONSTANTS P, Depth
VARIABLES f, g, n, steps
L == <<"p", P>>
F == 0..(P - 1)
Pts(d) == [1..d -> F]
\* unit complex numbers and unit quaternions
Unit2 == {q \in [1..2 -> F] : (q[1] * q[1] + q[2] * q[2]) % P = 1}
Unit3 == {<<0, 1, 0, 0>>, <<0, 0, 1, 0>>, <<0, 0, 0, 1>>} \union {q \in [1..4 -> F] : q[1] = q[2] /\ q[3] = q[4] /\ (2 * (q[1] * q[1] + q[3] * q[3])) % P = 1}
Lins(d) == IF d = 2 THEN {<<<<1, 1>>, <<0, 1>>>>, <<<<0, 1>>, <<1, 0>>>>, <<<<P - 1, 0>>, <<0, 1>>>>, <<<<1, 2>>, <<P - 1, 1>>>>}
           ELSE {<<<<1, 1, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>, <<<<0, 0, 1>>, <<1, 0, 0>>, <<0, P - 1, 0>>>>, <<<<1, 0, 2>>, <<0, P - 1, 1>>, <<1, 1, 0>>>>}
Shifts(d) == {[i \in 1..d |-> IF i = 1 THEN 1 ELSE 0], [i \in 1..d |-> i % P]}
Gens(d) == {Den(L, d, <<"sh">>, b) : b \in Shifts(d)} \union {Den(L, d, <<"sc">>, s) : s \in {2, P - 1}}
           \union {Den(L, d, <<"li">>, A) : A \in Lins(d)}
           \union (IF d = 2 THEN {Den(L, 2, <<"r2">>, q) : q \in Unit2} ELSE {Den(L, 3, <<"r3">>, q) : q \in Unit3})
InvMap(d, h) == LET R == MScale(L, Adj(L, h.A), SInv(L, Det(L, h.A))) IN [A |-> R, b |-> VNeg(L, MatVec(L, R, h.b))]
Init == n \in {2, 3} /\ f = IdMap(L, n) /\ g \in Gens(n) /\ steps = 0
Next == /\ steps < Depth
        /\ steps' = steps + 1
        /\ \/ f' = Compose(L, n, g, f) /\ g' \in Gens(n)
           \/ f' = Compose(L, n, f, g) /\ g' \in Gens(n)
           \/ f' = InvMap(n, f) /\ g' = g
        /\ UNCHANGED n
Spec == Init /\ [][Next]_<<f, g, n, steps>>
View == <<f, g, n>>
\* points and directions enough to tell affine maps apart
Probes == {[i \in 1..n |-> 0]} \union {[i \in 1..n |-> IF i = j THEN 1 ELSE 0] : j \in 1..n} \union {[i \in 1..n |-> (i * i + 1) % P]}
Group == LET h == InvMap(n, f) IN
  /\ \A x \in Probes : Image(L, Compose(L, n, f, g), x) = Image(L, f, Image(L, g, x))
  /\ MInvertible(L, f.A)
  /\ SameMap(L, Compose(L, n, f, h), IdMap(L, n)) /\ SameMap(L, Compose(L, n, h, f), IdMap(L, n))
  /\ SameMap(L, Compose(L, n, f, IdMap(L, n)), f) /\ SameMap(L, Compose(L, n, IdMap(L, n), f), f)
  /\ \A k \in Gens(n) : SameMap(L, Compose(L, n, Compose(L, n, f, g), k), Compose(L, n, f, Compose(L, n, g, k)))
\* a shift after a linear map is another shift before it, and there is only one such
Reorder == \A s \in Shifts(n) :
  LET lin == [A |-> f.A, b |-> ZeroV(L, n)]
      m == Compose(L, n, Den(L, n, <<"sh">>, s), lin)
      t == MatVec(L, InvMap(n, lin).A, s)
  IN SameMap(L, Compose(L, n, lin, Den(L, n, <<"sh">>, t)), m)
Derivative == \A v \in Probes :
  \* f (x + v) - f x = A v, at every point; the chain rule
  /\ \A x \in Probes : VSub(L, Image(L, f, VAdd(L, x, v)), Image(L, f, x)) = MatVec(L, f.A, v)
  /\ MatVec(L, Compose(L, n, f, g).A, v) = MatVec(L, f.A, MatVec(L, g.A, v))
Normals == \A m, v \in Probes :
  LET d == Det(L, f.A)  w == MatVec(L, NormalMap(L, f.A), m) IN
  \* perpendicular stays perpendicular, the same side stays the same side (d^2 is positive)
  /\ DotV(L, w, MatVec(L, f.A, v)) = (d * d * DotV(L, m, v)) % P
  /\ w = VScale(L, MatVec(L, TransposeN(InvMap(n, f).A, n), m), d * d % P)
Rotations == steps = 0 =>
  /\ n = 2 => \A q, r \in Unit2 :
       /\ IsProperIsometry(L, Den(L, 2, <<"r2">>, q).A)
       /\ SameMap(L, Den(L, 2, <<"r2">>, SMul(<<"c", L>>, q, r)), Compose(L, 2, Den(L, 2, <<"r2">>, q), Den(L, 2, <<"r2">>, r)))
  /\ n = 3 => \A q, r \in Unit3 :
       /\ IsProperIsometry(L, RotM(L, q))
       /\ RotM(L, q) = RotM(L, [i \in 1..4 |-> SNeg(L, q[i])])
       /\ MatMat(L, RotM(L, q), RotM(L, r), 3) = RotM(L, SMul(<<"q", L>>, q, r))
       /\ MatMat(L, RotM(L, q), RotM(L, SConj(<<"q", L>>, q)), 3) = IdentM(L, 3)
\* half the angle in the quaternion, the whole in Rodrigues' formula
HalfAngle == n = 3 /\ steps = 0 => \A h \in Unit2, u \in {<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>} \union {u \in Pts(3) : LenSqr(L, u) = 1 /\ u[1] # 0} :
  LET whole == SMul(<<"c", L>>, h, h)  R == Rodrigues(L, u, whole[1], whole[2]) IN
  /\ RotM(L, <<h[1]>> \o VScale(L, u, h[2])) = R
  /\ MatVec(L, R, u) = u
  /\ IsProperIsometry(L, R)
\* the derivative of the curved maps: they are quadratic, the remainder is exact
Curved == n = 2 /\ steps = 0 => \A a \in {<<0, 0>>, <<1, 2>>, <<P - 1, 1>>}, x, v \in {<<0, 0>>, <<1, 0>>, <<2, 1>>, <<0, 1>>} :
  LET t == <<"be">>
      one == VSub(L, QMap(L, t, a, VAdd(L, x, v)), QMap(L, t, a, x))
  IN /\ one = VAdd(L, MatVec(L, QJac(L, t, a, x), v), <<0, (a[2] * v[1] * v[1]) % P>>)
     \* chain rule for a curved map after a curved map: its inverse undoes the derivative too
     /\ LET b == <<SNeg(L, a[1]), SNeg(L, a[2])>> IN
        /\ QMap(L, t, b, QMap(L, t, a, x)) = x
        /\ QJac(L, <<"ch", t, t>>, <<b, a>>, x) = IdentM(L, 2)
=============================================================================
