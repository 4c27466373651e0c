---------------------------- MODULE StateSpaceMC ----------------------------
(* The laws of a difference/integration pair, on all small points and displacements, for both kinds of state. *)
EXTENDS StateSpace
VARIABLES p, q, d
Vals == {"-1", "1/2", "2"}
Pts == {<<a, b, c>> : a, b, c \in Vals}
MCInit == p \in Pts /\ q \in Pts /\ d \in {<<a, b, "1">> : a, b \in {"-1", "0", "3"}}
MCSpec == MCInit /\ [][FALSE /\ UNCHANGED <<p, q, d>>]_<<p, q, d>>
Reach == VEq(Move(p, Difference(p, q)), q) /\ VEq(HMove(p, HDiff(p, q)), q)
Displace == VEq(Difference(p, Move(p, d)), d) /\ VEq(HDiff(p, HMove(p, d)), d)
Neutral == VEq(Difference(ZeroPoint(3), p), p) /\ VEq(Move(ZeroPoint(3), p), p) /\ VEq(HMul(VZero(3), p), p)
Inverse == VEq(HMul(p, HInv(p)), VZero(3))
\* the Jacobians of the group to first order: compared with a difference quotient that is exact for a polynomial of degree two
Quot(f(_), j) == LET e(t) == [i \in 1..3 |-> IF i = j THEN t ELSE "0"] IN VScale("1/2", VSub(f(e("1")), f(e("-1"))))
Base == HMove(p, d)
ExactFirst == \A j \in 1..3 : LET f(e) == HDiff(Base, HMove(HMove(p, e), d)) IN VEq(Quot(f, j), [i \in 1..3 |-> HFirst(d)[i][j]])
ExactSecond == \A j \in 1..3 : LET f(e) == HDiff(Base, HMove(p, VAdd(d, e))) IN VEq(Quot(f, j), [i \in 1..3 |-> HSecond(d)[i][j]])
ExactTangent == \A j \in 1..3 : LET f(e) == HMove(p, e) IN VEq(Quot(f, j), [i \in 1..3 |-> HTangent(p)[i][j]])
=============================================================================
