------------------------------- MODULE NumDiff -------------------------------
(***************************************************************************)
(* Components given by functions, and what differentiating them by         *)
(* differences has to return.  A function is a list of rows, each a sum of *)
(* products of at most three entries of the point (index one past the end  *)
(* stands for 1), so its value and derivatives are exact rationals.  A     *)
(* component holds the functions of a running and of a terminal node,      *)
(* named by what they compute; points live on a state space, where         *)
(* derivatives are taken along small motions.                              *)
(***************************************************************************)
EXTENDS StateSpace, FiniteSets
\* functions: F.n rows, F.i[j] = <<row, p, q, s>> with coefficient F.k[j]
ZZ(z) == z \o <<"1">>
FVal(F, z) == LET y == ZZ(z) IN
  [r \in 1..F.n |-> VSum([j \in 1..Len(F.k) |-> IF F.i[j][1] = r THEN RMul(F.k[j], RMul(y[F.i[j][2]], RMul(y[F.i[j][3]], y[F.i[j][4]]))) ELSE "0"])]
If(c, v) == IF c THEN v ELSE "0"
D1(t, y, n) == RAdd(If(t[2] = n, RMul(y[t[3]], y[t[4]])), RAdd(If(t[3] = n, RMul(y[t[2]], y[t[4]])), If(t[4] = n, RMul(y[t[2]], y[t[3]]))))
D2(t, y, m, n) == VSum(<<If(t[2] = m /\ t[3] = n, y[t[4]]), If(t[3] = m /\ t[2] = n, y[t[4]]), If(t[2] = m /\ t[4] = n, y[t[3]]),
                         If(t[4] = m /\ t[2] = n, y[t[3]]), If(t[3] = m /\ t[4] = n, y[t[2]]), If(t[4] = m /\ t[3] = n, y[t[2]])>>)
FJac(F, z) == LET y == ZZ(z) IN
  [r \in 1..F.n |-> [n \in 1..Len(z) |-> VSum([j \in 1..Len(F.k) |-> IF F.i[j][1] = r THEN RMul(F.k[j], D1(F.i[j], y, n)) ELSE "0"])]]
\* second derivative of the first row
FHess(F, z) == LET y == ZZ(z) IN
  [m \in 1..Len(z) |-> [n \in 1..Len(z) |-> VSum([j \in 1..Len(F.k) |-> IF F.i[j][1] = 1 THEN RMul(F.k[j], D2(F.i[j], y, m, n)) ELSE "0"])]]
\* an upper bound of the function and of its derivatives around z
FSize(F, z) == LET y == [n \in 1..Len(z) + 1 |-> IF n > Len(z) THEN "1" ELSE RAdd("1", RAbs(z[n]))] IN
  RMul("6", RAdd("1", VSum([j \in 1..Len(F.k) |-> RMul(RAbs(F.k[j]), RMul(y[F.i[j][2]], RMul(y[F.i[j][3]], y[F.i[j][4]])))])))

\* derivatives on a state space: x the point, u the rest; name "f" moves the point by the function
Part(A, i, j) == [r \in 1..Len(A) |-> SubSeq(A[r], i, j)]
Value(st, c, F, x, u) == IF c = "f" THEN SMove(st, x, FVal(F, x \o u)) ELSE FVal(F, x \o u)
InX(st, c, F, x, u) ==
  LET J == Part(FJac(F, x \o u), 1, Len(x)) JT == IF st = "vec" THEN J ELSE MMul(J, STangent(st, x)) d == FVal(F, x \o u) IN
  IF F.n = 0 THEN <<>> ELSE IF c = "f" THEN MAdd(SFirst(st, d), MMul(SSecond(st, d), JT)) ELSE JT
InU(st, c, F, x, u) ==
  LET J == Part(FJac(F, x \o u), Len(x) + 1, Len(x) + Len(u)) d == FVal(F, x \o u) IN
  IF F.n = 0 THEN <<>> ELSE IF c = "f" THEN MMul(SSecond(st, d), J) ELSE J
\* second derivatives of a cost along motions d of x: on the group, the third coordinate moves by d3 + d1 d2 / 2 + x1 d2
Bend(st, x, g) == [i \in 1..Len(x) |-> [j \in 1..Len(x) |-> IF st # "vec" /\ {i, j} = {1, 2} THEN RMul(Half, g[3]) ELSE "0"]]
HXX(st, F, x, u) ==
  LET n == Len(x) H == Part(SubSeq(FHess(F, x \o u), 1, n), 1, n) T == STangent(st, x) g == FJac(F, x \o u)[1] IN
  IF st = "vec" THEN H ELSE MAdd(MMul(MT(T), MMul(H, T)), Bend(st, x, g))
HXU(st, F, x, u) == LET n == Len(x) H == Part(SubSeq(FHess(F, x \o u), 1, n), n + 1, n + Len(u)) IN IF st = "vec" THEN H ELSE MMul(MT(STangent(st, x)), H)
HUU(F, x, u) == LET n == Len(x) IN Part(SubSeq(FHess(F, x \o u), n + 1, n + Len(u)), n + 1, n + Len(u))
\* from the derivatives of a residual, each entry weighted by w
GaussOf(w, A, B) == MMul(MT(A), [r \in 1..Len(B) |-> VScale(w[r], B[r])])

\* the error of the differences: disturbance e, point z, size S of the function
Pow2(a) == RMul(a, a)
Norm(st, z) == IF st = "vec" THEN RMax("1", RFun("sqrt", VDot(z, z))) ELSE Pow2(RAdd("1", VNorm1(z)))
ErrJ(st, e, z, S) == LET h == RMul(e, Norm(st, z)) IN RMul(S, RAdd(RMul("4", h), RDiv("1/10000000000000", e)))
ErrH(st, e, z, S) == LET h == RMul(RFun("sqrt", RMul("2", e)), Norm(st, z)) IN RMul(S, RAdd(h, RDiv("1/50000000000000", RMul("2", e))))
WithinV(a, b, tol) == /\ Len(a) = Len(b) /\ \A i \in 1..Len(a) : RIsNum(a[i]) /\ RLe(RAbs(RSub(a[i], b[i])), tol)
Within(A, B, tol) == Len(A) = Len(B) /\ \A i \in 1..Len(A) : WithinV(A[i], B[i], tol)

\* differences and motions of a state, and their derivatives
SDiff(st, p, q) == IF st = "vec" THEN VSub(q, p) ELSE HDiff(Q(p, 3), Q(q, 3)) \o VSub(V(q, 3), V(p, 3))
HBlk(k, d) == Blk2(<<<<"1", "0", "0">>, <<"0", "1", "0">>, HRow(k, d)>>, 3)
SDiffFirst(st, d) == MScale("-1", IF st = "vec" THEN MId(Len(d)) ELSE HBlk(Half, d))
SDiffSecond(st, d) == IF st = "vec" THEN MId(Len(d)) ELSE HBlk("-1/2", d)
\* the derivative of moving carries a matrix from the old tangent space to the new one
Carry(st, d, which, A) == MMul(IF which = "first" THEN SFirst(st, d) ELSE SSecond(st, d), A)
=============================================================================
