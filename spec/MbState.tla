------------------------------- MODULE MbState -------------------------------
(***************************************************************************)
(* The states of robots: configuration and velocity.  One-dimensional      *)
(* joints move by addition; a free-flying base (position and unit          *)
(* quaternion x, y, z, w) by a rigid motion given in its own frame.  And   *)
(* the actuations: which generalized torques the inputs produce.           *)
(***************************************************************************)
EXTENDS BigRat, Integers, Sequences, TLC
NvOf(k) == IF k = 3 THEN 6 ELSE 1
NqOf(k) == IF k = 3 THEN 7 ELSE 1
RECURSIVE SNv(_), SNq(_)
SNv(s) == IF s = <<>> THEN 0 ELSE NvOf(s[1]) + SNv(Tail(s))
SNq(s) == IF s = <<>> THEN 0 ELSE NqOf(s[1]) + SNq(Tail(s))
Cross(a, b) == <<RSub(RMul(a[2], b[3]), RMul(a[3], b[2])), RSub(RMul(a[3], b[1]), RMul(a[1], b[3])), RSub(RMul(a[1], b[2]), RMul(a[2], b[1]))>>
\* rotation of v by the quaternion q = (vector u, scalar s): v + 2 s u x v + 2 u x (u x v)
QRot(q, v) == LET u == SubSeq(q, 1, 3) t == VScale("2", Cross(u, v)) IN VAdd(VAdd(v, VScale(q[4], t)), Cross(u, t))
QMul(a, b) == LET u == SubSeq(a, 1, 3) w == SubSeq(b, 1, 3) IN VAdd(VAdd(VScale(a[4], w), VScale(b[4], u)), Cross(u, w)) \o <<RSub(RMul(a[4], b[4]), VDot(u, w))>>
Norm(v) == RFun("sqrt", VDot(v, v))
\* the rotation exp(w), and the translation reached by moving with constant velocity (v, w) for a unit of time
QExp(w) == LET t == Norm(w) h == RDiv(t, "2") IN IF REq(t, "0") THEN <<"0", "0", "0", "1">> ELSE VScale(RDiv(RFun("sin", h), t), w) \o <<RFun("cos", h)>>
Carry(v, w) ==
  LET t == Norm(w) t2 == RMul(t, t) a == Cross(w, v) IN
  IF REq(t, "0") THEN v
  ELSE VAdd(v, VAdd(VScale(RDiv(RSub("1", RFun("cos", t)), t2), a), VScale(RDiv(RSub(t, RFun("sin", t)), RMul(t, t2)), Cross(w, a))))
FMove(q, d) == LET v == SubSeq(d, 1, 3) w == SubSeq(d, 4, 6) r == SubSeq(q, 4, 7) IN VAdd(SubSeq(q, 1, 3), QRot(r, Carry(v, w))) \o QMul(r, QExp(w))
RECURSIVE QMove(_, _, _)
QMove(ks, q, d) ==
  IF ks = <<>> THEN <<>>
  ELSE LET k == ks[1] a == NqOf(k) b == NvOf(k) IN
       (IF k = 3 THEN FMove(SubSeq(q, 1, 7), SubSeq(d, 1, 6)) ELSE <<RAdd(q[1], d[1])>>) \o QMove(Tail(ks), SubSeq(q, a + 1, Len(q)), SubSeq(d, b + 1, Len(d)))
MMove(ks, x, dx) ==
  LET nq == SNq(ks) nv == SNv(ks) IN QMove(ks, SubSeq(x, 1, nq), SubSeq(dx, 1, nv)) \o VAdd(SubSeq(x, nq + 1, nq + nv), SubSeq(dx, nv + 1, 2 * nv))
\* the same point: a quaternion and its opposite are the same rotation
RECURSIVE QSame(_, _, _, _)
QSame(ks, p, q, tol) ==
  IF ks = <<>> THEN TRUE
  ELSE LET k == ks[1] a == NqOf(k) IN
       /\ (IF k = 3 THEN VClose(SubSeq(p, 1, 3), SubSeq(q, 1, 3), tol) /\ (VClose(SubSeq(p, 4, 7), SubSeq(q, 4, 7), tol) \/ VClose(SubSeq(p, 4, 7), VScale("-1", SubSeq(q, 4, 7)), tol)) ELSE RClose(p[1], q[1], tol))
       /\ QSame(Tail(ks), SubSeq(p, a + 1, Len(p)), SubSeq(q, a + 1, Len(q)), tol)
SamePoint(ks, x, y, tol) == LET nq == SNq(ks) nv == SNv(ks) IN Len(x) = nq + nv /\ Len(y) = nq + nv /\ QSame(ks, SubSeq(x, 1, nq), SubSeq(y, 1, nq), tol) /\ VClose(SubSeq(x, nq + 1, nq + nv), SubSeq(y, nq + 1, nq + nv), tol)
\* d is the difference of y from x: it moves x to y, the shorter way round
RECURSIVE Short(_, _)
Short(ks, d) == IF ks = <<>> THEN TRUE ELSE (ks[1] = 3 => RLe(VDot(SubSeq(d, 4, 6), SubSeq(d, 4, 6)), "10")) /\ Short(Tail(ks), SubSeq(d, NvOf(ks[1]) + 1, Len(d)))
IsDiff(ks, x, y, d, tol) == Len(d) = 2 * SNv(ks) /\ VIsNum(d) /\ Short(ks, d) /\ SamePoint(ks, MMove(ks, x, d), y, tol)
RECURSIVE Neutral(_)
Neutral(ks) == IF ks = <<>> THEN <<>> ELSE (IF ks[1] = 3 THEN <<"0", "0", "0", "0", "0", "0", "1">> ELSE <<"0">>) \o Neutral(Tail(ks))
\* limits: those of the joints, but a root joint has none on its position
Big == "179769313486231570814527423731704356798070567525844996598917476803157260780028538760589558632766878171540458953514382464234321326889464182768467546703537516986049910576551282076245490090389328944075868508455133942304583236903222948165808559332123347764797926204144723168738177180919299881250404026184124858368"
RECURSIVE Spread(_, _, _)
Spread(ks, v, q) == IF ks = <<>> THEN <<>> ELSE [i \in 1..(IF q THEN NqOf(ks[1]) ELSE NvOf(ks[1])) |-> v[1]] \o Spread(Tail(ks), Tail(v), q)
Lim(rb, up) ==
  LET p == Spread(rb.jk, IF up THEN rb.ju ELSE rb.jl, TRUE) v == Spread(rb.jk, rb.jv, FALSE) n0 == IF rb.root THEN NqOf(rb.jk[1]) ELSE 0 IN
  [i \in 1..Len(p) |-> IF i <= n0 THEN (IF up THEN Big ELSE RNeg(Big)) ELSE p[i]] \o (IF up THEN v ELSE [i \in 1..Len(v) |-> IF v[i] = "inf" THEN "-inf" ELSE RNeg(v[i])])
\* derivative along a direction from values at -2h, -h, h, 2h (h = 1/1000)
Slope(f) == VScale("250/3", VSub(VScale("8", VSub(f[3], f[2])), VSub(f[4], f[1])))
Acc(mode, out, J) == CASE mode = "set" -> J [] mode = "add" -> MAdd(out, J) [] mode = "sub" -> MSub(out, J)
\* actuations: the map from inputs to generalized torques; nr velocities of the root joint, thrusters th
Unit(n, i) == [j \in 1..n |-> IF i = j THEN "1" ELSE "0"]
Rotz(Rm) == <<Rm[3], Rm[6], Rm[9]>>
Wrench(t) == LET f == Rotz(t.R) m == Cross(t.t, f) IN f \o (IF t.cw THEN VAdd(m, VScale(t.c, f)) ELSE VSub(m, VScale(t.c, f)))
ActMap(A, nv, nr) ==
  CASE A.k = "full" -> MId(nv)
    [] A.k = "float" -> [i \in 1..nv |-> IF i <= nr THEN VZero(nv - nr) ELSE Unit(nv - nr, i - nr)]
    [] OTHER -> LET n == Len(A.th) N == n + nv - nr W == [j \in 1..n |-> Wrench(A.th[j])] IN
                [i \in 1..nv |-> [j \in 1..N |-> IF j <= n THEN (IF i <= 6 THEN W[j][i] ELSE "0") ELSE IF i - nr = j - n THEN "1" ELSE "0"]]
Pseudo(Mt, J, tol) == LET a == MMul(J, Mt) b == MMul(Mt, J) IN MClose(MMul(a, J), J, tol) /\ MClose(MMul(b, Mt), Mt, tol) /\ MClose(MT(a), a, tol) /\ MClose(MT(b), b, tol)
=============================================================================
