-------------------------------- MODULE Costs --------------------------------
(***************************************************************************)
(* Activations (functions of a residual vector), residuals (functions of   *)
(* state and control) and the cost made of one of each: its value is the   *)
(* activation of the residual, its gradient follows by the chain rule and  *)
(* its Hessian is the Gauss-Newton one.  At the end of the horizon there   *)
(* is no control: what depends only on it, and the residuals of quantities *)
(* that exist only while running, contribute nothing.                      *)
(***************************************************************************)
EXTENDS Integrators
\* an activation A: k its kind, parameters w, alpha, exact, lb, ub (after shrinking)
Sq(r) == VDot(r, r)
Nrm(r) == RFun("sqrt", Sq(r))
Excess(A, r, i) == LET b == A.lb[i] t == A.ub[i] IN RAdd(IF RLt(r[i], b) THEN RSub(r[i], b) ELSE "0", IF RLt(t, r[i]) THEN RSub(r[i], t) ELSE "0")
\* (when the bounds are ordered at most one of the two terms counts)
Weight2(A, i) == IF A.k = "wbar" THEN RMul(A.w[i], A.w[i]) ELSE "1"
Root(A, r, i) == RFun("sqrt", RAdd(RMul(r[i], r[i]), A.alpha))
AValue(A, r) ==
  CASE A.k = "quad" -> RMul(Half, Sq(r))
    [] A.k = "wquad" -> RMul(Half, VDot(r, VMulE(A.w, r)))
    [] A.k \in {"bar", "wbar"} -> RMul(Half, VSum([i \in 1..Len(r) |-> RMul(Weight2(A, i), RMul(Excess(A, r, i), Excess(A, r, i)))]))
    [] A.k = "norm" -> LET d == RSub(Nrm(r), A.alpha) IN IF RLt(d, "0") THEN RMul(Half, RMul(d, d)) ELSE "0"
    [] A.k = "s1" -> VSum([i \in 1..Len(r) |-> Root(A, r, i)])
    [] A.k = "s2" -> RFun("sqrt", RAdd(Sq(r), A.alpha))
    [] A.k = "exp" -> RSub("1", RFun("exp", RNeg(RDiv(Sq(r), A.alpha))))
    [] A.k = "log" -> RFun("log", RAdd("1", RDiv(Sq(r), A.alpha)))
\* where the function has a gradient
Smooth(A, r) == CASE A.k \in {"norm", "s2"} -> RLt("0", RAdd(Sq(r), IF A.k = "s2" THEN A.alpha ELSE "0")) \/ (A.k = "norm" /\ REq(A.alpha, "0"))
                  [] A.k = "s1" -> RLt("0", A.alpha) \/ \A i \in 1..Len(r) : ~REq(r[i], "0")
                  [] OTHER -> TRUE
AGrad(A, r) ==
  CASE A.k = "quad" -> r
    [] A.k = "wquad" -> VMulE(A.w, r)
    [] A.k \in {"bar", "wbar"} -> [i \in 1..Len(r) |-> RMul(Weight2(A, i), Excess(A, r, i))]
    [] A.k = "norm" -> LET n == Nrm(r) IN IF RLt(n, A.alpha) THEN VScale(RDiv(RSub(n, A.alpha), n), r) ELSE VZero(Len(r))
    [] A.k = "s1" -> [i \in 1..Len(r) |-> RDiv(r[i], Root(A, r, i))]
    [] A.k = "s2" -> VScale(RDiv("1", RFun("sqrt", RAdd(Sq(r), A.alpha))), r)
    [] A.k = "exp" -> VScale(RMul(RDiv("2", A.alpha), RFun("exp", RNeg(RDiv(Sq(r), A.alpha)))), r)
    [] A.k = "log" -> VScale(RDiv("2", RAdd(A.alpha, Sq(r))), r)
\* where the diagonal of the Hessian is specified (the norms approximate it elsewhere), and its value
Near0(a) == RLe(RAbs(a), "1/1000000000000")
HasHess(A, r) == CASE A.k = "s1" -> REq(A.alpha, "1")
                   [] A.k = "s2" -> FALSE
                   [] A.k = "norm" -> Smooth(A, r) /\ ~Near0(RSub(Sq(r), RMul(A.alpha, A.alpha)))
                   [] OTHER -> TRUE
Cube(a) == RMul(a, RMul(a, a))
AHess(A, r) ==
  CASE A.k = "quad" -> [i \in 1..Len(r) |-> "1"]
    [] A.k = "wquad" -> A.w
    [] A.k \in {"bar", "wbar"} -> [i \in 1..Len(r) |-> IF RLe(r[i], A.lb[i]) \/ RLe(A.ub[i], r[i]) THEN Weight2(A, i) ELSE "0"]
    [] A.k = "norm" -> LET n == Nrm(r) IN [i \in 1..Len(r) |->
                         IF ~RLt(n, A.alpha) THEN "0"
                         ELSE IF A.exact THEN RAdd(RDiv(RMul(A.alpha, RMul(r[i], r[i])), Cube(n)), RDiv(RSub(n, A.alpha), n)) ELSE RDiv(RMul(r[i], r[i]), RMul(n, n))]
    [] A.k = "s1" -> [i \in 1..Len(r) |-> RDiv(A.alpha, Cube(Root(A, r, i)))]
    [] A.k = "exp" -> LET a == RMul(RDiv("2", A.alpha), RFun("exp", RNeg(RDiv(Sq(r), A.alpha)))) IN [i \in 1..Len(r) |-> RMul(a, RSub("1", RDiv(RMul("2", RMul(r[i], r[i])), A.alpha)))]
    [] A.k = "log" -> LET a == RDiv("2", RAdd(A.alpha, Sq(r))) IN [i \in 1..Len(r) |-> RSub(a, RMul(RMul(a, a), RMul(r[i], r[i])))]
\* bounds: kept when one of a pair is infinite, shrunk about their middle otherwise
Shrink(lb, ub, beta, low) ==
  [i \in 1..Len(lb) |-> IF RIsNum(lb[i]) /\ RIsNum(ub[i])
                        THEN LET m == RMul(Half, RAdd(lb[i], ub[i])) d == RMul(beta, RMul(Half, RSub(ub[i], lb[i]))) IN IF low THEN RSub(m, d) ELSE RAdd(m, d)
                        ELSE IF low THEN (IF RIsNum(lb[i]) THEN lb[i] ELSE "-inf") ELSE (IF RIsNum(ub[i]) THEN ub[i] ELSE "inf")]
BoundsOk(lb, ub, beta) == Len(lb) = Len(ub) /\ RLe("0", beta) /\ RLe(beta, "1") /\ \A i \in 1..Len(lb) : (RIsNum(lb[i]) /\ RIsNum(ub[i])) => RLe(lb[i], ub[i])
ActOf(a) ==
  [k |-> a.ak_, nr |-> IF a.ak_ \in {"wquad"} THEN Len(a.w) ELSE IF a.ak_ \in {"bar", "wbar"} THEN Len(a.lb) ELSE a.nr, alpha |-> a.alpha, exact |-> a.exact, w |-> a.w,
   lb |-> IF a.ak_ \in {"bar", "wbar"} THEN Shrink(a.lb, a.ub, a.beta, TRUE) ELSE <<>>, ub |-> IF a.ak_ \in {"bar", "wbar"} THEN Shrink(a.lb, a.ub, a.beta, FALSE) ELSE <<>>, beta |-> a.beta]
ActOk(a) == CASE a.ak_ \in {"quad", "wquad"} -> TRUE [] a.ak_ \in {"bar", "wbar"} -> BoundsOk(a.lb, a.ub, a.beta) [] OTHER -> ~RLt(a.alpha, "0")
\* a residual S: kind, sizes, dependence, parameters; and what a run gives it (joint quantity and its derivatives)
Mask(S, z) == [i \in 1..Len(z) |-> IF (i <= S.nv /\ S.dq) \/ (i > S.nv /\ i <= 2 * S.nv /\ S.dv) \/ (i > 2 * S.nv /\ S.du) THEN z[i] ELSE "0"]
MaskM(S, M) == [i \in 1..Len(M) |-> Mask(S, M[i])]
Running(S, x, u, in) ==
  LET n == 2 * S.nv N == n + S.nu z == Mask(S, x \o u)
      J == MaskM(S, PolyJac(S.rc, S.rL, S.ri, S.rk, z))
  IN CASE S.k = "poly" -> [r |-> PolyValue(S.rc, S.rL, S.ri, S.rk, z), rx |-> Cols(J, 1, n), ru |-> Cols(J, n + 1, N)]
       [] S.k = "ctrl" -> [r |-> VSub(u, S.ref), rx |-> MZero(S.nu, n), ru |-> MId(S.nu)]
       [] OTHER -> [r |-> VSub(in.jv, S.ref), rx |-> IF S.dq \/ S.dv THEN in.jx ELSE MZero(S.nr, n), ru |-> in.ju]
\* at the end of the horizon: accelerations do not exist there, efforts do (inverse dynamics)
AtEnd(S, x, in) ==
  LET n == 2 * S.nv z == Mask(S, x \o VZero(S.nu))
      J == MaskM(S, PolyJac(S.rc, S.rL, S.ri, S.rk, z))
  IN CASE S.k = "poly" -> [r |-> PolyValue(S.rc, S.rL, S.ri, S.rk, z), rx |-> Cols(J, 1, n)]
       [] S.k = "effort" /\ (S.dq \/ S.dv) -> [r |-> VSub(in.jv, S.ref), rx |-> in.jx]
       [] OTHER -> [r |-> VZero(S.nr), rx |-> MZero(S.nr, n)]
Counts(S, end) == ~end \/ S.dq \/ S.dv
CValue(A, S, x, u, end, in) == IF Counts(S, end) THEN AValue(A, (IF end THEN AtEnd(S, x, in) ELSE Running(S, x, u, in)).r) ELSE "0"
Weighted(h, M) == [i \in 1..Len(M) |-> VScale(h[i], M[i])]
GN(h, M, N) == MMul(MT(M), Weighted(h, N))
CDeriv(A, S, x, u, end, in, h) ==
  LET n == 2 * S.nv
      e == IF end THEN AtEnd(S, x, in) ELSE Running(S, x, u, in)
      g == AGrad(A, e.r)
  IN IF ~Counts(S, end) THEN [lx |-> VZero(n), lxx |-> MZero(n, n)]
     ELSE IF end THEN [lx |-> MTV(e.rx, g, n), lxx |-> GN(h, e.rx, e.rx)]
     ELSE [lx |-> MTV(e.rx, g, n), lxx |-> GN(h, e.rx, e.rx), lu |-> MTV(e.ru, g, S.nu), luu |-> GN(h, e.ru, e.ru), lxu |-> GN(h, e.rx, e.ru)]
\* the residual as a constraint (bounded: g; zero: h): its value, and its derivatives as they are
Constrains(S, x, u, end, in, diff) ==
  LET e == IF end THEN AtEnd(S, x, in) ELSE Running(S, x, u, in) v == [cg |-> e.r, ch |-> e.r] IN
  IF ~diff THEN v ELSE IF end THEN v @@ [cgx |-> e.rx, chx |-> e.rx] ELSE v @@ [cgx |-> e.rx, chx |-> e.rx, cgu |-> e.ru, chu |-> e.ru]
=============================================================================
