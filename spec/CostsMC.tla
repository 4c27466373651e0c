------------------------------- MODULE CostsMC -------------------------------
(* Laws of activations and costs on every instance of a grid that holds the boundaries: the gradient is the limit of difference   *)
(* quotients of the value, the Hessian's diagonal that of quotients of the gradient (one-sided where the barrier switches on),   *)
(* no activation is negative, a barrier is zero exactly inside its bounds, and the chain rule of the cost is exact for an affine  *)
(* residual with a quadratic activation.                                                                                          *)
EXTENDS Costs
VARIABLES A, r
P == {"-2", "-1", "-1/2", "0", "1/2", "1", "3"}
Base(k, a) == [k |-> k, nr |-> 2, alpha |-> a, exact |-> TRUE, w |-> <<"2", "1/2">>, lb |-> <<"-1", "0">>, ub |-> <<"1/2", "0">>, beta |-> "1"]
Acts == {Base("quad", "1"), Base("wquad", "1"), Base("bar", "1"), Base("wbar", "1"), Base("norm", "0"), Base("norm", "1/2"), Base("norm", "1"), Base("norm", "2"), Base("norm", "5"),
         Base("s1", "1"), Base("s1", "1/4"), Base("s2", "1"), Base("s2", "1/4"), Base("exp", "1"), Base("exp", "3"), Base("log", "1"), Base("log", "3"),
         [Base("bar", "1") EXCEPT !.lb = <<"-inf", "-1/2">>, !.ub = <<"1/2", "inf">>], [Base("wbar", "1") EXCEPT !.lb = <<"-inf", "-1">>, !.ub = <<"inf", "3">>]}
MCInit == A \in Acts /\ r \in {<<a, b>> : a \in P, b \in P}
MCSpec == MCInit /\ [][FALSE /\ UNCHANGED <<A, r>>]_<<A, r>>
H == "1/8192"
Tol == "1/2000"
Dir(i, h) == [j \in 1..2 |-> IF i = j THEN RAdd(r[j], h) ELSE r[j]]
Slope(up, dn, span) == RDiv(RSub(up, dn), span)
Gradient == IF Smooth(A, r) THEN \A i \in 1..2 : RClose(Slope(AValue(A, Dir(i, H)), AValue(A, Dir(i, RNeg(H))), RMul("2", H)), AGrad(A, r)[i], Tol) ELSE TRUE
\* the true Hessian (a smoothed one-norm claims it for its nominal smoothing only)
Edge(i) == A.k \in {"bar", "wbar"} /\ (REq(r[i], A.lb[i]) \/ REq(r[i], A.ub[i]))
Forward(i) == Slope(AGrad(A, Dir(i, H))[i], AGrad(A, r)[i], H)
Backward(i) == Slope(AGrad(A, r)[i], AGrad(A, Dir(i, RNeg(H)))[i], H)
Hessian ==
  IF HasHess(A, r) /\ Smooth(A, r)
  THEN \A i \in 1..2 : IF Edge(i) THEN RClose(Forward(i), AHess(A, r)[i], Tol) \/ RClose(Backward(i), AHess(A, r)[i], Tol)
                       ELSE RClose(RMul(Half, RAdd(Forward(i), Backward(i))), AHess(A, r)[i], Tol)
  ELSE TRUE
Sign == RLe("0", AValue(A, r))
Inside == \A i \in 1..2 : (RIsNum(A.lb[i]) => RLe(A.lb[i], r[i])) /\ (RIsNum(A.ub[i]) => RLe(r[i], A.ub[i]))
Barrier == IF A.k \in {"bar", "wbar"} THEN Inside = REq(AValue(A, r), "0") ELSE TRUE
\* shrinking keeps the middle, never crosses, and leaves half-infinite pairs alone
Betas == {"0", "1/2", "1"}
Shrinks == \A b \in Betas : LET L == Shrink(<<r[1], "-inf">>, <<RAdd(r[1], "3"), r[2]>>, b, TRUE) U == Shrink(<<r[1], "-inf">>, <<RAdd(r[1], "3"), r[2]>>, b, FALSE) IN
             /\ RLe(L[1], U[1]) /\ REq(RAdd(L[1], U[1]), RAdd(RMul("2", r[1]), "3")) /\ REq(RSub(U[1], L[1]), RMul(b, "3")) /\ L[2] = "-inf" /\ REq(U[2], r[2])
\* an affine residual of configuration, velocity and control
S == [k |-> "poly", nv |-> 1, nr |-> 2, nu |-> 1, rc |-> <<"1", "-1">>, rL |-> <<<<"1", "2", "-1">>, <<"0", "1/2", "3">>>>, ri |-> <<>>, rk |-> <<>>, ref |-> <<>>, dq |-> TRUE, dv |-> TRUE, du |-> TRUE]
E(n, j) == [i \in 1..n |-> IF i = j THEN "1" ELSE "0"]
CV(x, u) == CValue(A, S, x, u, FALSE, <<>>)
V1(x, u, dx, du) == RMul(Half, RSub(CV(VAdd(x, dx), VAdd(u, du)), CV(VSub(x, dx), VSub(u, du))))
V2(x, u, dx, du) == RSub(RAdd(CV(VAdd(x, dx), VAdd(u, du)), CV(VSub(x, dx), VSub(u, du))), RMul("2", CV(x, u)))
Chain ==
  IF A.k \in {"quad", "wquad"}
  THEN LET x == r u == <<"1/2">> d == CDeriv(A, S, x, u, FALSE, <<>>, AHess(A, Running(S, x, u, <<>>).r)) IN
       /\ \A j \in 1..2 : REq(V1(x, u, E(2, j), <<"0">>), d.lx[j]) /\ REq(V2(x, u, E(2, j), <<"0">>), d.lxx[j][j])
                          /\ REq(RMul(Half, RSub(V2(x, u, E(2, j), <<"1">>), RAdd(d.lxx[j][j], d.luu[1][1]))), d.lxu[j][1])
       /\ REq(V1(x, u, VZero(2), <<"1">>), d.lu[1]) /\ REq(V2(x, u, VZero(2), <<"1">>), d.luu[1][1])
       /\ REq(RMul(Half, RSub(V2(x, u, <<"1", "1">>, <<"0">>), RAdd(d.lxx[1][1], d.lxx[2][2]))), d.lxx[1][2]) /\ REq(d.lxx[1][2], d.lxx[2][1])
  ELSE TRUE
=============================================================================
