-------------------------------- MODULE Rest --------------------------------
(***************************************************************************)
(* The control that holds a state: Newton's method on the motion of a      *)
(* model from a given control.  Every iteration evaluates the motion and   *)
(* its derivative at the current control and adds the shortest of the      *)
(* corrections that cancel the linearized motion as well as any can; the   *)
(* method ends with a correction no longer than the tolerance (which is    *)
(* still applied) or after the given number of iterations.                 *)
(* A model is a record; motion and derivative by kind:                     *)
(*   pa, pd  polynomials of state and control (an action: x (+) p(x, u) is *)
(*           the next state; a differential action: p is the acceleration) *)
(*   lqr     A x + B u + f - x         dlqr   Fq q + Fv v + Fu u + f       *)
(*   uni     the unicycle                                                  *)
(* and w says what is around it: an integrator with a parametrization of   *)
(* the control, or numerical differentiation.                              *)
(***************************************************************************)
EXTENDS Controls
Cols(A, js) == [i \in 1..Len(A) |-> [j \in 1..Len(js) |-> A[i][js[j]]]]
Width(A) == IF Len(A) = 0 THEN 0 ELSE Len(A[1])
Gram(A) == MMul(MT(A), A)
RECURSIVE PickCols(_, _, _)
PickCols(A, j, js) == IF j > Width(A) THEN js ELSE PickCols(A, j + 1, IF MNonSingular(Gram(Cols(A, Append(js, j)))) THEN Append(js, j) ELSE js)
\* the Moore-Penrose inverse, by a factorization of full rank A = C F
PInv(A) == LET js == PickCols(A, 1, <<>>) IN
           IF js = <<>> THEN MZero(Width(A), Len(A))
           ELSE LET C == Cols(A, js) G == Gram(C) F == MSolve(G, MMul(MT(C), A)) IN
                MMul(MT(F), MSolve(MMul(F, MT(F)), MSolve(G, MT(C))))
MaxAbs(A) == LET RECURSIVE M(_) M(i) == IF i = 0 THEN "0" ELSE RMax(M(i - 1), VNormInf(A[i])) IN M(Len(A))
\* directions that are nothing compared with the rest do not count
Clean(A) == LET s == MaxAbs(A) IN [i \in 1..Len(A) |-> [j \in 1..Width(A) |-> IF RLe(RAbs(A[i][j]), RMul(s, "1/100000000000")) THEN "0" ELSE A[i][j]]]
Terms(m, z, n) == [i \in 1..n |-> LET RECURSIVE S(_) S(j) == IF j = 0 THEN "0" ELSE RAdd(S(j - 1), IF m.ai[j][1] = i THEN RMul(m.ak[j], RMul(z[m.ai[j][2]], z[m.ai[j][3]])) ELSE "0") IN S(Len(m.ak))]
Motion(m, x, u) ==
  IF m.k = "uni" THEN <<RMul(m.dt, RMul(RFun("cos", x[3]), u[1])), RMul(m.dt, RMul(RFun("sin", x[3]), u[1])), RMul(m.dt, u[2])>>
  ELSE LET z == x \o u v == VAdd(m.ac, VAdd(MV(m.aL, z), Terms(m, z, Len(m.ac)))) IN IF m.k = "lqr" THEN VSub(v, x) ELSE v
Slope(m, x, u) ==
  IF m.k = "uni" THEN <<<<RMul(m.dt, RFun("cos", x[3])), "0">>, <<RMul(m.dt, RFun("sin", x[3])), "0">>, <<"0", m.dt>>>>
  ELSE LET z == x \o u n == Len(x) IN
       [i \in 1..Len(m.ac) |-> [j \in 1..Len(u) |->
         LET RECURSIVE S(_) S(e) == IF e = 0 THEN "0" ELSE RAdd(S(e - 1), IF m.ai[e][1] # i THEN "0" ELSE
               RMul(m.ak[e], RAdd(IF m.ai[e][2] = n + j THEN z[m.ai[e][3]] ELSE "0", IF m.ai[e][3] = n + j THEN z[m.ai[e][2]] ELSE "0"))) IN
         RAdd(m.aL[i][n + j], S(Len(m.ak)))]]
Round(v) == [i \in 1..Len(v) |-> RRound(v[i], 220)]
Norm2(v) == VDot(v, v)
Edge == "1/100000000000000"  \* corrections this short (squared) make no visible difference
\* ok: the iterations can be told from double precision
RECURSIVE Newton(_, _, _, _, _, _)
Newton(m, x, u, k, tol, n) ==
  IF k = 0 \/ Len(u) = 0 THEN [u |-> u, ok |-> TRUE]
  ELSE LET A == Clean(Slope(m, x, u)) P == PInv(A) du == VScale("-1", MV(P, Motion(m, x, u))) v == Round(VAdd(u, du)) d == Norm2(du) t == RMul(tol, tol)
           sane == RLe(RMul(MaxAbs(A), MaxAbs(P)), "3000") /\ RLe(VNormInf(v), "3000") IN
       IF ~sane \/ n > 9 THEN [u |-> v, ok |-> FALSE]
       ELSE IF RLe(d, t) \/ RLe(d, Edge) THEN [u |-> v, ok |-> ~RClose(d, t, "1/100000") \/ RLe(d, Edge)]
       ELSE LET r == Newton(m, x, v, k - 1, tol, n + 1) IN [r EXCEPT !.ok = @ /\ ~RClose(d, t, "1/100000")]
Wrapped(m) == m.w \in {"euler", "rk2", "rk3", "rk4"}
Ctrl(m) == IF m.ctrl = "none" THEN "zero" ELSE m.ctrl
NuAll(m) == IF Wrapped(m) THEN NuOf(Ctrl(m), m.nw) ELSE m.nw
Hold(m, x, u, k, tol) == IF Wrapped(m) THEN LET r == Newton(m, x, VZero(m.nw), k, tol, 1) IN [r EXCEPT !.u = Params(Ctrl(m), @)]
                         ELSE Newton(m, x, u, k, tol, 1)
=============================================================================
