----------------------------- MODULE StateSpace -----------------------------
(***************************************************************************)
(* States.  The Euclidean state moves by addition.  The second kind, used  *)
(* to see where a Jacobian is transported, is a group whose configuration  *)
(* (a, b, c) multiplies as (a+a', b+b', c+c'+ab') followed by velocities:  *)
(* moving is right multiplication with the exponential.                    *)
(***************************************************************************)
EXTENDS BigRat, Integers, Sequences, TLC
Half == "1/2"
ZeroPoint(n) == VZero(n)
\* Euclidean: n is the size
Move(x, dx) == VAdd(x, dx)
Difference(x0, x1) == VSub(x1, x0)
\* derivative of the difference in its first and second argument, of moving in the point and the displacement
JDiff(n) == [first |-> MScale("-1", MId(n)), second |-> MId(n)]
JMove(n) == [first |-> MId(n), second |-> MId(n)]
Acc(mode, out, J) == CASE mode = "set" -> J [] mode = "add" -> MAdd(out, J) [] mode = "sub" -> MSub(out, J)

\* the group
HExp(d) == <<d[1], d[2], RAdd(d[3], RMul(Half, RMul(d[1], d[2])))>>
HMul(p, q) == <<RAdd(p[1], q[1]), RAdd(p[2], q[2]), RAdd(RAdd(p[3], q[3]), RMul(p[1], q[2]))>>
HInv(p) == <<RNeg(p[1]), RNeg(p[2]), RAdd(RNeg(p[3]), RMul(p[1], p[2]))>>
HLog(p) == <<p[1], p[2], RSub(p[3], RMul(Half, RMul(p[1], p[2])))>>
HMove(q, d) == HMul(q, HExp(d))
HDiff(p, q) == HLog(HMul(HInv(p), q))
\* the third row of the Jacobians; the rest is the identity
HRow(kk, d) == <<RMul(kk, d[2]), RNeg(RMul(kk, d[1])), "1">>
HFirst(d) == <<<<"1", "0", "0">>, <<"0", "1", "0">>, HRow("1", d)>>
HSecond(d) == <<<<"1", "0", "0">>, <<"0", "1", "0">>, HRow(Half, d)>>
\* coordinates of a small motion at q
HTangent(q) == <<<<"1", "0", "0">>, <<"0", "1", "0">>, <<"0", q[1], "1">>>>

\* points of either kind: configuration and velocity of sizes nv
Q(x, nv) == SubSeq(x, 1, nv)
V(x, nv) == SubSeq(x, nv + 1, 2 * nv)
SMove(s, x, dx) == IF s = "vec" THEN VAdd(x, dx) ELSE HMove(Q(x, 3), Q(dx, 3)) \o VAdd(V(x, 3), V(dx, 3))
Blk2(A, n) == [i \in 1..Len(A) + n |-> [j \in 1..Len(A) + n |-> IF i <= Len(A) THEN (IF j <= Len(A) THEN A[i][j] ELSE "0") ELSE IF i = j THEN "1" ELSE "0"]]
SFirst(s, dx) == IF s = "vec" THEN MId(Len(dx)) ELSE Blk2(HFirst(Q(dx, 3)), 3)
SSecond(s, dx) == IF s = "vec" THEN MId(Len(dx)) ELSE Blk2(HSecond(Q(dx, 3)), 3)
STangent(s, x) == IF s = "vec" THEN MId(Len(x)) ELSE Blk2(HTangent(Q(x, 3)), 3)
=============================================================================
