------------------------------- MODULE IntegMC -------------------------------
(* Laws of the schemes on every small instance: on linear systems a scheme of order p takes the step of the Taylor polynomial of   *)
(* degree p; derivatives equal difference quotients where those are exact (affine systems with quadratic costs, all schemes; the   *)
(* group state with constant acceleration, by third differences); a control held constant needs no parametrization.                *)
EXTENDS Integrators
VARIABLES scheme, ctrl, A, dt
S == {"euler", "rk2", "rk3", "rk4"}
C == {"zero", "one", "two3", "two4"}
Rows == {<<"1", "-1", "2">>, <<"0", "1/2", "-1">>, <<"-2", "3", "1/2">>}
MCInit == scheme \in S /\ ctrl \in C /\ A \in Rows /\ dt \in {"1/2", "1/3"}
MCSpec == MCInit /\ [][FALSE /\ UNCHANGED <<scheme, ctrl, A, dt>>]_<<scheme, ctrl, A, dt>>
Hs == <<<<"2", "1", "-1">>, <<"1", "3", "1/2">>, <<"-1", "1/2", "1">>>>
D == [st |-> "vec", nv |-> 1, nw |-> 1, ngT |-> 1, nhT |-> 0, ac |-> <<"1">>, aL |-> <<A>>, ai |-> <<>>, ak |-> <<>>, gc |-> <<"1">>, gL |-> <<<<"1", "2", "3">>>>, gi |-> <<>>, gk |-> <<>>,
      hc |-> <<>>, hL |-> <<>>, hi |-> <<>>, hk |-> <<>>, rc |-> <<>>, rL |-> <<>>, ri |-> <<>>, rk |-> <<>>, H |-> Hs, c |-> <<"1", "-1", "2">>]
I == [scheme |-> scheme, ctrl |-> ctrl, dt |-> dt, D |-> D]
X == <<"1", "-1/2">>
U == [i \in 1..NuI(I) |-> <<"1", "-2", "3/2">>[i]]
N == Len(Times(scheme))
St(x, u) == Stages(I, x, u, N)
Step(x, u) == ActValue(I, St(x, u), x)
Der == ActDeriv(I, St(X, U))
E(n, j) == [i \in 1..n |-> IF i = j THEN "1" ELSE "0"]
\* exact for polynomials of degree two
Quot(p, m) == RMul(Half, RSub(p, m))
QuotV(p, m) == VScale(Half, VSub(p, m))
Col(M, j) == [i \in 1..Len(M) |-> M[i][j]]
ExactDynamics ==
  /\ \A j \in 1..2 : VEq(QuotV(Step(VAdd(X, E(2, j)), U).f, Step(VSub(X, E(2, j)), U).f), Col(Der.fx, j))
  /\ \A j \in 1..Len(U) : VEq(QuotV(Step(X, VAdd(U, E(Len(U), j))).f, Step(X, VSub(U, E(Len(U), j))).f), Col(Der.fu, j))
ExactCost ==
  /\ \A j \in 1..2 : REq(Quot(Step(VAdd(X, E(2, j)), U).l, Step(VSub(X, E(2, j)), U).l), Der.lx[j])
  /\ \A j \in 1..Len(U) : REq(Quot(Step(X, VAdd(U, E(Len(U), j))).l, Step(X, VSub(U, E(Len(U), j))).l), Der.lu[j])
\* second differences of the cost (quadratic in state and control): the Hessian
L2(x1, x2, u1, u2) == RMul("1/4", RAdd(RSub(Step(x1, u1).l, Step(x1, u2).l), RSub(Step(x2, u2).l, Step(x2, u1).l)))
ExactHessian ==
  /\ \A j \in 1..2, k \in 1..Len(U) : REq(L2(VAdd(X, E(2, j)), VSub(X, E(2, j)), VAdd(U, E(Len(U), k)), VSub(U, E(Len(U), k))), Der.lxu[j][k])
  /\ \A j \in 1..2 : REq(RSub(RAdd(Step(VAdd(X, E(2, j)), U).l, Step(VSub(X, E(2, j)), U).l), RMul("2", Step(X, U).l)), Der.lxx[j][j])
  /\ \A j \in 1..Len(U) : REq(RSub(RAdd(Step(X, VAdd(U, E(Len(U), j))).l, Step(X, VSub(U, E(Len(U), j))).l), RMul("2", Step(X, U).l)), Der.luu[j][j])
\* a constant control: the step of the Taylor polynomial (the drift makes the system affine: homogeneous coordinates)
Uc == Params(ctrl, <<"3/2">>)
Full == <<<<"0", "1", "0">>, <<A[1], A[2], RAdd("1", RMul(A[3], "3/2"))>>, <<"0", "0", "0">>>>
RECURSIVE Taylor(_, _)
Taylor(v, k) == IF k = 0 THEN v ELSE VAdd(v, VScale(RDiv(dt, RInt(N - k + 1)), MV(Full, Taylor(v, k - 1))))
\* nested form: v + dt/1 A (v + dt/2 A (v + ...))
Order == IF scheme = "euler" THEN TRUE
         ELSE LET v == X \o <<"1">> IN VEq(SubSeq(Taylor(v, N), 1, 2), Step(X, Uc).f)
Symplectic == IF scheme = "euler" THEN LET a == DValue(D, X, <<RMul("1", "3/2")>>, TRUE).a[1] s == Step(X, Uc).f IN REq(s[2], RAdd(X[2], RMul(dt, a))) /\ REq(s[1], RAdd(X[1], RMul(dt, s[2]))) ELSE TRUE
Held == VEq(Step(X, Uc).f, ActValue([I EXCEPT !.ctrl = "none"], Stages([I EXCEPT !.ctrl = "none"], X, <<"3/2">>, N), X).f)
\* the group with constant acceleration: the step is polynomial of degree at most four in the point; central differences of order four are exact
DH == [st |-> "heis", nv |-> 3, nw |-> 1, ngT |-> 0, nhT |-> 0, ac |-> <<"1", "-1", "1/2">>, aL |-> [i \in 1..3 |-> <<"0", "0", "0", "0", "0", "0", A[i]>>], ai |-> <<>>, ak |-> <<>>, gc |-> <<>>, gL |-> <<>>, gi |-> <<>>, gk |-> <<>>,
       hc |-> <<>>, hL |-> <<>>, hi |-> <<>>, hk |-> <<>>, rc |-> <<>>, rL |-> <<>>, ri |-> <<>>, rk |-> <<>>, H |-> MId(7), c |-> VZero(7)]
IH == [I EXCEPT !.D = DH]
XH == <<"1", "-1", "2", "1/2", "1", "-1">>
DiffH(p, q) == HDiff(Q(p, 3), Q(q, 3)) \o VSub(V(q, 3), V(p, 3))
StepH(x, u) == ActValue(IH, Stages(IH, x, u, N), x).f
BaseH == StepH(XH, U)
Central(F(_)) == VSub(VScale("2/3", VSub(F("1"), F("-1"))), VScale("1/12", VSub(F("2"), F("-2"))))
DerH == ActDeriv(IH, Stages(IH, XH, U, N))
ExactGroup ==
  /\ \A j \in 1..6 : LET F(t) == DiffH(BaseH, StepH(SMove("heis", XH, VScale(t, E(6, j))), U)) IN VEq(Central(F), Col(DerH.fx, j))
  /\ \A j \in 1..Len(U) : LET F(t) == DiffH(BaseH, StepH(XH, VAdd(U, VScale(t, E(Len(U), j))))) IN VEq(Central(F), Col(DerH.fu, j))
=============================================================================
