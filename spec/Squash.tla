-------------------------------- MODULE Squash -------------------------------
(***************************************************************************)
(* The smooth saturation of a control between bounds, the actuation made   *)
(* of it and an inner actuation (a polynomial of state and control), and   *)
(* the transform from generalized torques back to inputs.                  *)
(***************************************************************************)
EXTENDS Integrators
\* a squashing S: lb, ub (of the map), smooth
Width(S) == VScale(S.smooth, VSub(S.ub, S.lb))
Soft(a, s, b) == RFun("sqrt", RAdd(RMul(RSub(s, b), RSub(s, b)), RMul(a, a)))
SValue(S, s) == [i \in 1..Len(s) |-> LET a == Width(S)[i] IN RMul(Half, RSub(RAdd(RAdd(S.lb[i], S.ub[i]), Soft(a, s[i], S.lb[i])), Soft(a, s[i], S.ub[i])))]
\* smooth, unless there is no smoothing (or no room) and the input lies on a bound
SSmooth(S, s) == \A i \in 1..Len(s) : LET a == Width(S)[i] IN ~REq(a, "0") \/ (~REq(s[i], S.lb[i]) /\ ~REq(s[i], S.ub[i]))
SSlope(S, s) == [i \in 1..Len(s) |-> LET a == Width(S)[i] IN RMul(Half, RSub(RDiv(RSub(s[i], S.lb[i]), Soft(a, s[i], S.lb[i])), RDiv(RSub(s[i], S.ub[i]), Soft(a, s[i], S.ub[i]))))]
Diag(v) == [i \in 1..Len(v) |-> [j \in 1..Len(v) |-> IF i = j THEN v[i] ELSE "0"]]
\* the inner actuation P: polynomial c, L, i, k of state and input
PValue(P, x, u) == PolyValue(P.c, P.L, P.i, P.k, x \o u)
PJac(P, x, u) == LET J == PolyJac(P.c, P.L, P.i, P.k, x \o u) n == Len(x) IN [x |-> Cols(J, 1, n), u |-> Cols(J, n + 1, n + Len(u))]
TauOf(A, x, s) == PValue(A.P, x, SValue(A.Q, s))
JacOf(A, x, s) == LET u == SValue(A.Q, s) J == PJac(A.P, x, u) D == Diag(SSlope(A.Q, s)) IN [x |-> J.x, u |-> [r \in 1..Len(J.u) |-> [j \in 1..Len(s) |-> RMul(J.u[r][j], D[j][j])]]]
\* M is the pseudo-inverse of J: the four equations that define it
MNear(a, b, tol) == MClose(a, b, tol)
Pseudo(M, J, tol) == LET a == MMul(J, M) b == MMul(M, J) IN MNear(MMul(a, J), J, tol) /\ MNear(MMul(b, M), M, tol) /\ MNear(MT(a), a, tol) /\ MNear(MT(b), b, tol)
=============================================================================
