------------------------------- MODULE BoxQP --------------------------------
(***************************************************************************)
(* The bound-constrained QP solver: minimize 1/2 x'Hx + q'x with           *)
(* lo <= x <= hi.  What a solution is (used on the recorded solves), and   *)
(* the projected Newton iteration that computes one (model checked).       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, BigRat
RegH(H, reg) == MAdd(H, MScale(reg, MId(Len(H))))
Grad(H, q, x) == VAdd(q, MV(H, x))
RECURSIVE MaxOf(_, _)
MaxOf(f, m) == IF m = 0 THEN "0" ELSE RMax(f[m], MaxOf(f, m - 1))
MMax(A) == MaxOf([i \in 1..Len(A) |-> VNormInf(A[i])], Len(A))
Within(x, lo, hi) == \A i \in 1..Len(x) : RLe(lo[i], x[i]) /\ RLe(x[i], hi[i])
Clip(x, lo, hi) == [i \in 1..Len(x) |-> LET m == IF RLt(hi[i], x[i]) THEN hi[i] ELSE x[i] IN IF RLt(m, lo[i]) THEN lo[i] ELSE m]
Scale(H, q, x) == RAdd("1", RAdd(VNormInf(q), RMul(MMax(H), VNormInf(x))))
\* optimality: inside, and no entry can move to decrease the objective (by more than the tolerance)
Kkt(H, q, lo, hi, x, tol) ==
  LET g == Grad(H, q, x) t == RMul(tol, Scale(H, q, x)) IN
  \A i \in 1..Len(x) : /\ (RLt(t, g[i]) => REq(x[i], lo[i])) /\ (RLt(g[i], RNeg(t)) => REq(x[i], hi[i]))
\* every index (from 0) is reported once; clamped ones are held at a bound by the gradient, free ones have no gradient
Partition(n, free, clamped) == /\ Len(free) + Len(clamped) = n
                               /\ {free[i] : i \in 1..Len(free)} \cup {clamped[i] : i \in 1..Len(clamped)} = 0..(n - 1)
Roles(H, q, lo, hi, x, free, clamped, tol) ==
  LET g == Grad(H, q, x) t == RMul(tol, Scale(H, q, x)) IN
  /\ \A i \in 1..Len(free) : RLe(RAbs(g[free[i] + 1]), t)
  /\ \A i \in 1..Len(clamped) : LET j == clamped[i] + 1 IN \/ (REq(x[j], lo[j]) /\ RLe(RNeg(t), g[j])) \/ (REq(x[j], hi[j]) /\ RLe(g[j], t))
Sub(H, free) == [i \in 1..Len(free) |-> [j \in 1..Len(free) |-> H[free[i] + 1][free[j] + 1]]]
Inverse(H, free, inv, tol) == Len(inv) = Len(free) /\ (Len(free) > 0 => MClose(MMul(Sub(H, free), inv), MId(Len(free)), tol))

----------------------------------------------------------------------------
\* the projected Newton iteration
Obj(H, q, x) == RAdd(RMul("1/2", VDot(x, MV(H, x))), VDot(q, x))
Clamped(g, x, lo, hi) == {i \in 1..Len(x) : (REq(x[i], lo[i]) /\ RLt("0", g[i])) \/ (REq(x[i], hi[i]) /\ RLt(g[i], "0"))}
RECURSIVE Asc(_)
Asc(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE m \in S : \A k \in S : m <= k IN <<m>> \o Asc(S \ {m})
Newton(H, g, x, cl) ==
  LET F == Asc((1..Len(x)) \ cl) IN
  IF F = <<>> THEN VZero(Len(x))
  ELSE LET d == MSolve([i \in 1..Len(F) |-> [j \in 1..Len(F) |-> H[F[i]][F[j]]]], [i \in 1..Len(F) |-> <<g[F[i]]>>])
       IN [i \in 1..Len(x) |-> IF i \in cl THEN "0" ELSE RNeg(d[CHOOSE k \in 1..Len(F) : F[k] = i][1])]
RECURSIVE Search(_, _, _, _, _, _, _, _, _)
\* the first of the halved steps with enough decrease; the point itself if there is none
Search(H, q, lo, hi, x, g, d, a, m) ==
  IF m = 0 THEN x
  ELSE LET y == Clip(VAdd(x, VScale(a, d)), lo, hi)
       IN IF RLt(RMul("1/10", VDot(g, VSub(x, y))), RSub(Obj(H, q, x), Obj(H, q, y))) THEN y ELSE Search(H, q, lo, hi, x, g, d, RMul("1/2", a), m - 1)
Step(H, q, lo, hi, x) == LET g == Grad(H, q, x) cl == Clamped(g, x, lo, hi) IN Search(H, q, lo, hi, x, g, Newton(H, g, x, cl), "1", 40)
AtEnd(H, q, lo, hi, x) == LET g == Grad(H, q, x) IN \A i \in (1..Len(x)) \ Clamped(g, x, lo, hi) : REq(g[i], "0")
=============================================================================
