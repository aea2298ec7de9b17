---------------------------- MODULE MC_ScalingMath ----------------------------
(***************************************************************************)
(* What the scaling is for: mapping there and back is the identity, the    *)
(* scaled gradient and Hessian are the derivatives of the scaled function, *)
(* and a point satisfies a constraint iff its image satisfies the image.   *)
(* A state is a scaling and a quadratic function of two variables.         *)
(***************************************************************************)
EXTENDS Scaling, TLC
CONSTANTS BUG
VARIABLES p, q
Vals == {-2, 0, 1}
Pos  == {"0.5", "3"}
Init == /\ p \in [sx : {<<a, b>> : a \in Vals, b \in {1}}, cx : {<<a, b>> : a \in Pos, b \in Pos}, so : {-1, 2}, co : Pos, sn : {<<0>>}, cn : {"1"}]
        /\ q \in [c : {1}, g : {<<a, b>> : a \in Vals, b \in {2}}, h : {<<a, b>> : a \in {1, 2}, b \in Vals}]
Next == UNCHANGED <<p, q>>
Spec == Init /\ [][Next]_<<p, q>>
\* q.c + g x + (h1 x1^2 + 2 h2 x1 x2 - x2^2) / 2
F(x) == RAdd(RAdd(q.c, RDot(q.g, x)), RDiv(RAdd(RMul(q.h[1], RSq(x[1])), RSub(RMul(2, RMul(q.h[2], RMul(x[1], x[2]))), RSq(x[2]))), 2))
G(x) == <<RAdd(q.g[1], RAdd(RMul(q.h[1], x[1]), RMul(q.h[2], x[2]))), RAdd(q.g[2], RSub(RMul(q.h[2], x[1]), x[2]))>>
H    == << <<R(q.h[1]), R(q.h[2])>>, <<R(q.h[2]), R(-1)>> >>
\* the function in scaled coordinates
FS(z) == MapV(p.so, p.co, F(BackX(p, z)))
Pts == {<<0, 0>>, <<1, -2>>}
Eq(a, b) == Close(RSeq(a), RSeq(b), "1e-12", "1e-25")
GMap(g) == IF BUG = "grad" THEN [i \in 1 .. 2 |-> RMul(RMul(g[i], p.co), p.cx[i])] ELSE MapG(p, p.co, g)
HMap(h) == IF BUG = "hess" THEN [i \in 1 .. 2 |-> [j \in 1 .. 2 |-> RDiv(RMul(h[i][j], p.co), p.cx[i])]] ELSE MapH(p, p.co, h)
BMap(a, b) == IF BUG = "lincon" THEN RSub(b, RDot(MapA(p, a), p.sx)) ELSE MapB(p, a, b)
Derivatives == \A x \in Pts :
    LET z == RSeq(MapX(p, x)) IN
    /\ Eq(GMap(G(x)), [i \in 1 .. 2 |-> D(FS, z, i)])
    /\ \A i, j \in 1 .. 2 : Eq(<<RSeq(HMap(H))[i][j]>>, <<D(LAMBDA y : MapG(p, p.co, G(BackX(p, y)))[i], z, j)>>)
RoundTrip == \A x \in Pts :
    /\ Eq(BackX(p, MapX(p, x)), x) /\ Eq(MapX(p, BackX(p, x)), x)
    /\ Eq(BackG(p, p.co, MapG(p, p.co, x)), x)
    /\ Eq(BackH(p, p.co, MapH(p, p.co, H)), H)
    /\ Eq(<<BackV(p.so, p.co, MapV(p.so, p.co, 3))>>, <<3>>)
\* a point satisfies a constraint iff its image satisfies the image of it
Constraints == \A x \in Pts : \A b \in {-4, 0, 3} :
    LET a == q.g z == RSeq(MapX(p, x)) IN
    Eq(<<RSub(RDot(a, x), b)>>, <<RSub(RDot(MapA(p, a), z), BMap(a, b))>>)
===============================================================================
