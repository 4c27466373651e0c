----------------------------- MODULE SolverNum ------------------------------
(***************************************************************************)
(* What the solvers compute: gaps, feasibility measures, the backward      *)
(* pass, the policy (unconstrained, box-constrained, equality-constrained),*)
(* the forward passes, the predicted change, and optimality.  The node     *)
(* models are the environment: a node record carries what a model gives    *)
(* (next state xn, cost l, constraints g h, derivatives) at a trajectory.  *)
(* A point of the state space is a displacement part (first ndx entries)   *)
(* followed by entries that never move.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, BigRat
Tol == "1/100000000"
Hd(v, n) == SubSeq(v, 1, n)
Diff(a, b, n) == VSub(Hd(b, n), Hd(a, n))                     \* the displacement from a to b
Plus(x, d) == VAdd(Hd(x, Len(d)), d) \o SubSeq(x, Len(d) + 1, Len(x))
RECURSIVE SumN(_, _)
SumN(f, m) == IF m = 0 THEN "0" ELSE RAdd(f[m], SumN(f, m - 1))
RECURSIVE MaxN(_, _)
MaxN(f, m) == IF m = 0 THEN "0" ELSE RMax(f[m], MaxN(f, m - 1))
MatMax(A) == IF Len(A) = 0 THEN "0" ELSE MaxN([i \in 1..Len(A) |-> VNormInf(A[i])], Len(A))
Finite(v) == RIsNum(v) /\ RLt(v, "1000000000000000000000000000000")

----------------------------------------------------------------------------
\* gaps of a trajectory xs with nodes n (C08)
Gaps(xs, n, x0, d) == [t \in 1..Len(xs) |-> IF t = 1 THEN Diff(xs[1], x0, d) ELSE Diff(xs[t], n[t - 1].xn, d)]
Cost(n) == SumN([t \in 1..Len(n) |-> n[t].l], Len(n))
Norm(vs, norm) == IF norm = "inf" THEN MaxN([t \in 1..Len(vs) |-> VNormInf(vs[t])], Len(vs)) ELSE SumN([t \in 1..Len(vs) |-> VNorm1(vs[t])], Len(vs))
Excess(v, lo, hi) == IF RLt(v, lo) THEN RSub(v, lo) ELSE IF RLt(hi, v) THEN RSub(v, hi) ELSE "0"
Excesses(nd) == [i \in 1..Len(nd.g) |-> Excess(nd.g[i], nd.glb[i], nd.gub[i])]
Follows(xs, n, x0) == /\ VClose(xs[1], x0, Tol) /\ \A t \in 2..Len(xs) : VClose(xs[t], n[t - 1].xn, Tol)

----------------------------------------------------------------------------
\* action-value function of a node with value function (vx, vxx) of the next one (C10)
QxOf(nd, vx) == VAdd(nd.Lx, MV(MT(nd.Fx), vx))
QxxOf(nd, vxx) == MAdd(nd.Lxx, MMul(MT(nd.Fx), MMul(vxx, nd.Fx)))
QuOf(nd, vx) == VAdd(nd.Lu, MV(MT(nd.Fu), vx))
QuuOf(nd, vxx, reg) == MAdd(MAdd(nd.Luu, MMul(MT(nd.Fu), MMul(vxx, nd.Fu))), MScale(reg, MId(nd.nu)))
QxuOf(nd, vxx) == MAdd(nd.Lxu, MMul(MT(nd.Fx), MMul(vxx, nd.Fu)))
\* the value function: the action-value function at du = -k - K dx, regularized, at the end of the gap
Sym(A) == MScale("1/2", MAdd(A, MT(A)))
Reg(A, reg) == MAdd(A, MScale(reg, MId(Len(A))))
VxxMin(qxx, qxu, quu, K, reg) == Reg(Sym(MAdd(MSub(qxx, MScale("2", MMul(qxu, K))), MMul(MT(K), MMul(quu, K)))), reg)
VxMin(qx, qu, qxu, quu, K, k) == VSub(VSub(qx, MV(qxu, k)), MV(MT(K), VSub(qu, MV(quu, k))))
Gap(v, vxx, f, feas) == IF feas THEN v ELSE VAdd(v, MV(vxx, f))
\* the unconstrained policy, scaled comparison of both sides of the linear system
Near(A, B, scale) == MClose(MScale(RDiv("1", RAdd("1", scale)), A), MScale(RDiv("1", RAdd("1", scale)), B), Tol)
NearV(a, b, scale) == VClose(VScale(RDiv("1", RAdd("1", scale)), a), VScale(RDiv("1", RAdd("1", scale)), b), Tol)
Gains(quu, qu, qxu, K, k) == /\ NearV(MV(quu, k), qu, RMul(MatMax(quu), VNormInf(k))) /\ Near(MMul(quu, K), MT(qxu), RMul(MatMax(quu), MatMax(K)))
\* the equality-constrained policy: minimizer subject to Hu du + Hx dx + h = 0 (C24)
\* a basis of the kernel of Hu (whose first columns are upper triangular with a non-zero diagonal)
Kernel(Hu, nu) == LET nh == Len(Hu)
                      L(i) == SubSeq(Hu[i], 1, nh) W(i) == SubSeq(Hu[i], nh + 1, nu)
                      S == MSolve([i \in 1..nh |-> L(i)], [i \in 1..nh |-> W(i)])
                  IN [i \in 1..nu |-> [j \in 1..(nu - nh) |-> IF i <= nh THEN RNeg(S[i][j]) ELSE IF i - nh = j THEN "1" ELSE "0"]]
EqGains(quu, qu, qxu, nd, K, k) ==
  LET sc == RMul(MatMax(quu), RAdd("1", RMax(MatMax(K), VNormInf(k)))) IN
  /\ VClose(MV(nd.Hu, k), nd.h, Tol) /\ MClose(MMul(nd.Hu, K), nd.Hx, Tol)
  /\ Len(nd.h) < nd.nu => LET Z == MT(Kernel(nd.Hu, nd.nu)) IN
        /\ NearV(MV(Z, MV(quu, k)), MV(Z, qu), sc) /\ Near(MMul(Z, MMul(quu, K)), MMul(Z, MT(qxu)), sc)
\* computed, for the walk below
KktMat(quu, Hu) == LET nu == Len(quu) nh == Len(Hu) IN
  [i \in 1..(nu + nh) |-> IF i <= nu THEN quu[i] \o [j \in 1..nh |-> Hu[j][i]] ELSE Hu[i - nu] \o [j \in 1..nh |-> "0"]]
EqSolve(quu, qu, qxu, nd) ==
  LET nu == nd.nu nh == Len(nd.h)
      qt == MT(qxu)
      rhs == [i \in 1..(nu + nh) |-> IF i <= nu THEN <<qu[i]>> \o qt[i] ELSE <<nd.h[i - nu]>> \o nd.Hx[i - nu]]
      sol == MSolve(KktMat(quu, nd.Hu), rhs)
  IN [k |-> [i \in 1..nu |-> sol[i][1]], K |-> [i \in 1..nu |-> Tail(sol[i])]]
\* the box-constrained feed-forward step and its feedback (C12)
BoxTol == "1/2000"
BoxOk(quu, qu, qxu, lo, hi, K, k) ==
  LET x == [i \in 1..Len(k) |-> RNeg(k[i])]
      g == VAdd(qu, MV(quu, x))
      sc == RAdd("1", RAdd(VNormInf(qu), RMul(MatMax(quu), VNormInf(k))))
      tol == RMul(BoxTol, sc)
      AtLo(i) == RIsNum(lo[i]) /\ RLe(RSub(x[i], lo[i]), "1/1000000000")
      AtHi(i) == RIsNum(hi[i]) /\ RLe(RSub(hi[i], x[i]), "1/1000000000")
      \* (the limits relative to the current control are rounded)
      At(b, i) == RIsNum(b[i]) /\ RClose(x[i], b[i], "1/100000000000000")
      Must(i) == (At(lo, i) /\ RLt(tol, g[i])) \/ (At(hi, i) /\ RLt(g[i], RNeg(tol)))   \* surely held at its limit
      Free(i) == ~AtLo(i) /\ ~AtHi(i)                                                             \* surely free
      Zero(i) == \A j \in 1..Len(K[i]) : REq(K[i][j], "0")
      \* the free set the feedback was computed with: surely free ones and those whose feedback is not removed
      fr == {i \in 1..Len(k) : Free(i) \/ (~Must(i) /\ ~Zero(i))}
      qk == MMul(quu, K)
  IN /\ \A i \in 1..Len(k) : /\ (RLe(lo[i], x[i]) \/ At(lo, i)) /\ (RLe(x[i], hi[i]) \/ At(hi, i))
                             /\ (Free(i) => RLe(RAbs(g[i]), tol))
                             /\ (AtLo(i) /\ ~AtHi(i) => RLe(RNeg(tol), g[i])) /\ (AtHi(i) /\ ~AtLo(i) => RLe(g[i], tol))
                             /\ (Must(i) => Zero(i))
     /\ \A i \in fr : VClose([j \in 1..Len(K[i]) |-> RDiv(qk[i][j], RAdd("1", RMul(MatMax(quu), MatMax(K))))],
                             [j \in 1..Len(K[i]) |-> RDiv(qxu[j][i], RAdd("1", RMul(MatMax(quu), MatMax(K))))], "1/10000000")
Rel(b, u) == [i \in 1..Len(u) |-> IF RIsNum(b[i]) THEN RSub(b[i], u[i]) ELSE b[i]]

----------------------------------------------------------------------------
\* when does the backward recursion of the unconstrained / equality-constrained policies fail?
\* Walks back from the terminal node with bounded precision; "fail" at the first node whose system is not positive
\* definite, "near" when that cannot be decided because it is close to singular.
RV(v) == [i \in 1..Len(v) |-> RRound(v[i], 240)]
RM(A) == [i \in 1..Len(A) |-> RV(A[i])]
Shift(A, d) == MAdd(A, MScale(d, MId(Len(A))))
PDVerdict(A) == LET sc == RAdd("1", MatMax(A)) IN
  IF MIsPD(Shift(A, RMul(sc, "-1/10000000"))) THEN "pd" ELSE IF MIsPD(Shift(A, RMul(sc, "1/10000000"))) THEN "near" ELSE "fail"
RECURSIVE Walk(_, _, _, _, _, _, _, _)
Walk(t, vx, vxx, n, fs, feas, reg, eq) ==
  IF t = 0 THEN "pd"
  ELSE LET nd == n[t] qx == QxOf(nd, vx) qxx == QxxOf(nd, vxx) IN
       IF nd.nu = 0 THEN LET xx == RM(Reg(Sym(qxx), reg)) IN Walk(t - 1, RV(Gap(qx, xx, fs[t], feas)), xx, n, fs, feas, reg, eq)
       ELSE LET qu == QuOf(nd, vx) quu == QuuOf(nd, vxx, reg) qxu == QxuOf(nd, vxx)
                hasEq == eq # "none" /\ Len(nd.h) > 0
                verdict == IF hasEq /\ eq # "schur"
                           THEN IF Len(nd.h) = nd.nu THEN "pd" ELSE LET Z == Kernel(nd.Hu, nd.nu) IN PDVerdict(MMul(MT(Z), MMul(quu, Z)))
                           ELSE PDVerdict(quu)
            IN IF verdict # "pd" THEN verdict
               ELSE LET g == IF hasEq THEN EqSolve(quu, qu, qxu, nd) ELSE [k |-> [i \in 1..nd.nu |-> MSolve(quu, [j \in 1..nd.nu |-> <<qu[j]>>])[i][1]], K |-> MSolve(quu, MT(qxu))]
                        K == RM(g.K) k == RV(g.k)
                        xx == RM(VxxMin(qxx, qxu, quu, K, reg)) x == RV(VxMin(qx, qu, qxu, quu, K, k))
                    IN Walk(t - 1, RV(Gap(x, xx, fs[t], feas)), xx, n, fs, feas, reg, eq)
Verdict(n, fs, feas, reg, eq) == LET T == Len(n) - 1 xx == Reg(n[T + 1].Lxx, reg) IN
  Walk(T, Gap(n[T + 1].Lx, xx, fs[T + 1], feas), xx, n, fs, feas, reg, eq)

----------------------------------------------------------------------------
\* forward passes (C09): trial with step a from (xs, us), policy (K, k), gaps fs; n = nodes at the trial
Control(u, a, k, K, dx) == VSub(VSub(u, VScale(a, k)), MV(K, dx))
Clamp(u, nd0) == IF nd0.lim THEN [i \in 1..Len(u) |-> IF RLt(u[i], nd0.lb[i]) THEN nd0.lb[i] ELSE IF RLt(nd0.ub[i], u[i]) THEN nd0.ub[i] ELSE u[i]] ELSE u
\* where the trial's state t must be, given the trial before it
Start(t, a, contract, xt, n, x0, fs) == LET p == IF t = 1 THEN x0 ELSE n[t - 1].xn IN IF contract THEN Plus(p, VScale(RSub(a, "1"), fs[t])) ELSE p

----------------------------------------------------------------------------
\* predicted change (C10)
D0Ddp(p, n) == SumN([t \in 1..(Len(n) - 1) |-> IF n[t].nu = 0 THEN "0" ELSE VDot(p.Qu[t], p.k[t])], Len(n) - 1)
D1Ddp(p, n) == RNeg(SumN([t \in 1..(Len(n) - 1) |-> IF n[t].nu = 0 THEN "0" ELSE VDot(p.k[t], MV(p.Quu[t], p.k[t]))], Len(n) - 1))
GapG(p, fs) == SumN([t \in 1..Len(fs) |-> VDot(p.Vx[t], fs[t])], Len(fs))
GapQ(p, fs) == SumN([t \in 1..Len(fs) |-> VDot(fs[t], MV(p.Vxx[t], fs[t]))], Len(fs))
GapV(p, fs, xs, xt, d) == RNeg(SumN([t \in 1..Len(fs) |-> VDot(fs[t], MV(p.Vxx[t], Diff(xt[t], xs[t], d)))], Len(fs)))

----------------------------------------------------------------------------
\* optimality of a trajectory of a convex problem (C11): gaps closed and the costates make every control stationary
RECURSIVE Costate(_, _)
Costate(n, t) == IF t = Len(n) THEN n[t].Lx ELSE VAdd(n[t].Lx, MV(MT(n[t].Fx), Costate(n, t + 1)))
Optimal(xs, n, x0, d) == /\ VClose(Hd(xs[1], d), Hd(x0, d), "1/10000000") /\ \A t \in 2..Len(xs) : VClose(Hd(xs[t], d), Hd(n[t - 1].xn, d), "1/10000000")
                      /\ \A t \in 1..(Len(n) - 1) : n[t].nu > 0 =>
                           VClose(VAdd(n[t].Lu, MV(MT(n[t].Fu), Costate(n, t + 1))), VZero(n[t].nu), "1/1000000")
=============================================================================
