--------------------------- MODULE ModelFormulas ----------------------------
(***************************************************************************)
(* What the linear-quadratic models and the unicycle are documented to     *)
(* compute.  A parameter record P of kind "lqr" has A B Q R N G H f q r g  *)
(* h; of kind "dlqr" the two blocks Aq Av instead of A (the acceleration   *)
(* of the double-sized state [q; v]); of kind "uni" dt and the weights w.  *)
(***************************************************************************)
EXTENDS BigRat, Integers, Sequences, TLC
Cols(M) == IF Len(M) = 0 THEN 0 ELSE Len(M[1])
Shape(M, r, c) == Len(M) = r /\ \A i \in 1..r : Len(M[i]) = c
Block(M, a, b) == [i \in 1..Len(M) |-> SubSeq(M[i], a, b)]
HCat(M, N) == [i \in 1..Len(M) |-> M[i] \o N[i]]
\* the block matrix [Q N; N' R]
NT(P) == [j \in 1..Len(P.R) |-> [i \in 1..Len(P.N) |-> P.N[i][j]]]
WholeCost(P) == HCat(P.Q, P.N) \o HCat(NT(P), P.R)
PSD(M) == MIsPD(MAdd(M, MScale("1/1000000", MId(Len(M)))))

\* sizes
Nx(k, P) == IF k = "lqr" THEN Cols(P.A) ELSE IF k = "dlqr" THEN 2 * Cols(P.Aq) ELSE 3
Nu(k, P) == IF k = "uni" THEN 2 ELSE Cols(P.B)
Ng(k, P) == IF k = "uni" THEN 0 ELSE Len(P.G)
Nh(k, P) == IF k = "uni" THEN 0 ELSE Len(P.H)
\* are the parameters P admissible for a model with these dimensions
Consistent(k, P, nx, nu, ng, nh) ==
  IF k = "uni" THEN TRUE
  ELSE /\ IF k = "lqr" THEN Shape(P.A, nx, nx) /\ Shape(P.B, nx, nu) /\ Len(P.f) = nx
          ELSE LET n == nx \div 2 IN Shape(P.Aq, n, n) /\ Shape(P.Av, n, n) /\ Shape(P.B, n, nu) /\ Len(P.f) = n
       /\ Shape(P.Q, nx, nx) /\ Shape(P.R, nu, nu) /\ Shape(P.N, nx, nu) /\ Len(P.q) = nx /\ Len(P.r) = nu
       /\ Shape(P.G, ng, nx + nu) /\ Shape(P.H, nh, nx + nu) /\ Len(P.g) = ng /\ Len(P.h) = nh
       /\ PSD(WholeCost(P))

\* the parameters a shorter constructor leaves out are zero
Filled(k, P) == P @@ [G |-> <<>>, H |-> <<>>, g |-> <<>>, h |-> <<>>, f |-> VZero(IF k = "lqr" THEN Cols(P.A) ELSE Cols(P.Aq)), q |-> VZero(IF k = "lqr" THEN Cols(P.A) ELSE 2 * Cols(P.Aq)), r |-> VZero(Cols(P.B))]

\* values: f next state or acceleration, l cost, r residual, g and h constraints
Dyn(k, P) == IF k = "lqr" THEN P.A ELSE HCat(P.Aq, P.Av)
Value(k, P, x, u) ==
  IF k = "uni"
  THEN LET c == RFun("cos", x[3]) s == RFun("sin", x[3])
           res == VScale(P.w[1], x) \o VScale(P.w[2], u)
       IN [f |-> VAdd(x, VScale(P.dt, <<RMul(c, u[1]), RMul(s, u[1]), u[2]>>)), r |-> res, l |-> RMul("1/2", VDot(res, res)), g |-> <<>>, h |-> <<>>]
  ELSE [f |-> VAdd(VAdd(MV(Dyn(k, P), x), MV(P.B, u)), P.f),
        l |-> RAdd(RAdd(RAdd(RMul("1/2", VDot(x, MV(P.Q, x))), RMul("1/2", VDot(u, MV(P.R, u)))), VDot(x, MV(P.N, u))), RAdd(VDot(P.q, x), VDot(P.r, u))),
        r |-> <<>>, g |-> VAdd(MV(P.G, x \o u), P.g), h |-> VAdd(MV(P.H, x \o u), P.h)]
\* the terminal value: the running one without control, and for discrete models the state itself as next state
ValueT(k, P, x) ==
  LET u == VZero(Nu(k, P)) v == Value(k, P, x, u) IN [v EXCEPT !.f = x]
Deriv(k, P, x, u) ==
  IF k = "uni"
  THEN LET c == RFun("cos", x[3]) s == RFun("sin", x[3]) wx == RMul(P.w[1], P.w[1]) wu == RMul(P.w[2], P.w[2])
       IN [fx |-> <<<<"1", "0", RNeg(RMul(RMul(s, u[1]), P.dt))>>, <<"0", "1", RMul(RMul(c, u[1]), P.dt)>>, <<"0", "0", "1">>>>,
           fu |-> <<<<RMul(c, P.dt), "0">>, <<RMul(s, P.dt), "0">>, <<"0", P.dt>>>>,
           lx |-> VScale(wx, x), lu |-> VScale(wu, u), lxx |-> MScale(wx, MId(3)), luu |-> MScale(wu, MId(2)), lxu |-> MZero(3, 2),
           gx |-> <<>>, gu |-> <<>>, hx |-> <<>>, hu |-> <<>>]
  ELSE LET nx == Len(x) nu == Len(u)
       IN [fx |-> Dyn(k, P), fu |-> P.B, lx |-> VAdd(P.q, VAdd(MV(P.Q, x), MV(P.N, u))), lu |-> VAdd(P.r, VAdd(MTV(P.N, x, nu), MV(P.R, u))),
           lxx |-> P.Q, luu |-> P.R, lxu |-> P.N, gx |-> Block(P.G, 1, nx), gu |-> Block(P.G, nx + 1, nx + nu), hx |-> Block(P.H, 1, nx), hu |-> Block(P.H, nx + 1, nx + nu)]

\* the default parameters of the constructor from dimensions
Eye(m, n) == [i \in 1..m |-> [j \in 1..n |-> IF i = j THEN "1" ELSE "0"]]
Ones(n) == [i \in 1..n |-> "1"]
Dims(k, n, nu, free) ==
  LET nx == IF k = "lqr" THEN n ELSE 2 * n
      core == [B |-> Eye(n, nu), Q |-> Eye(nx, nx), R |-> Eye(nu, nu), N |-> MZero(nx, nu), G |-> <<>>, H |-> <<>>,
               f |-> IF free THEN VZero(n) ELSE Ones(n), q |-> Ones(nx), r |-> Ones(nu), g |-> <<>>, h |-> <<>>]
  IN IF k = "lqr" THEN [A |-> Eye(n, n)] @@ core ELSE [Aq |-> Eye(n, n), Av |-> Eye(n, n)] @@ core
=============================================================================
