----------------------------- MODULE SolverLoop -----------------------------
(***************************************************************************)
(* The iteration loop of the solvers: search direction with regularization *)
(* retries, line search over decreasing step lengths, acceptance rules,    *)
(* regularization schedule, stopping test, callbacks, iteration budget.    *)
(*                                                                         *)
(* What the numerical routines return (does the direction exist, how much  *)
(* does a trial change the cost, ...) is the environment: every value is   *)
(* possible.  One action is one call the loop makes.  Numbers are exact    *)
(* rationals (BigRat).                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, BigRat
VARIABLE s
\* s.k      settings: kind, alphas, thA, thNeg, thGrad, sdec, sinc, inc, dec, rmin, rmax, thStop, rho, thFeas, zu, ncb
\* s.pc     "idle" | "dir" | "try" | "cb" | "ret"
\* s.cur    identity of the current trajectory, s.cost its cost, s.feas/s.was feasibility of it and of the one before
\* s.exact  (ghost) the current trajectory really starts at x0 and follows the dynamics
KKT(k) == k.kind = "kkt"
DDPRule(k) == k.kind \in {"ddp", "boxddp"}
FDDPRule(k) == k.kind \in {"fddp", "boxfddp"}
Intro(k) == k.kind = "intro"
Half == "1/2"
Eps == "1/4503599627370496"

\* a new solver (its loop state before any solve)
New(k) == [k |-> k, pc |-> "idle", iter |-> 0, max |-> 0, preg |-> "0", dreg |-> "0", feas |-> FALSE, was |-> FALSE,
           exact |-> FALSE, cost |-> "0", cur |-> 0, ai |-> 1, alpha |-> "1", d0 |-> "0", d1 |-> "0", dV |-> "0", dVexp |-> "0",
           dPhi |-> "0", dPhiexp |-> "0", dfeas |-> "0", hfeas |-> "0", merit |-> "0", ups |-> "0", sv |-> "0", stop |-> "0", recalc |-> TRUE,
           cb |-> 0, ret |-> FALSE, took |-> FALSE, next |-> 1]

Inc(t) == LET r == IF REq(t.preg, "0") THEN (IF RLt("0", t.k.rmin) THEN t.k.rmin ELSE Eps) ELSE RMul(t.preg, t.k.inc)
              c == RMin(r, t.k.rmax) IN [t EXCEPT !.preg = c, !.dreg = c]
Dec(t) == LET c == RMax(RDiv(t.preg, t.k.dec), t.k.rmin) IN [t EXCEPT !.preg = c, !.dreg = c]
AtMax(t) == REq(t.preg, t.k.rmax)
Ret(t, b) == [t EXCEPT !.pc = "ret", !.ret = b]

\* the guess is accepted as trajectory `id`
Solve(t, id, max, feas, exact, reg0) ==
  LET r0 == IF KKT(t.k) THEN t.preg ELSE IF reg0 = "nan" THEN t.k.rmin ELSE reg0
      u == [t EXCEPT !.pc = "dir", !.iter = 0, !.max = max, !.preg = r0, !.dreg = IF KKT(t.k) THEN t.dreg ELSE r0, !.feas = feas, !.was = FALSE,
              !.exact = exact, !.cur = id, !.recalc = TRUE, !.ups = IF Intro(t.k) /\ t.k.zu THEN "0" ELSE t.ups, !.next = id + 1,
              \* nothing is left of the last trial of the previous solve
              !.d0 = IF FDDPRule(t.k) THEN "0" ELSE t.d0, !.d1 = IF FDDPRule(t.k) THEN "0" ELSE t.d1, !.dV = IF Intro(t.k) THEN "0" ELSE t.dV]
  IN IF max = 0 THEN Ret(u, FALSE) ELSE u

\* the search direction could not be computed
DirFail(t) == IF KKT(t.k) THEN Ret(t, FALSE)
              ELSE LET u == Inc([t EXCEPT !.recalc = FALSE]) IN IF AtMax(u) THEN Ret(u, FALSE) ELSE u
\* it could: the terms of the predicted change, the stopping value; at the first derivatives also cost and constraint violation
DirOk(t, e0, e1, sv, c0, h0) ==
  LET a == IF t.iter = 0 THEN [t EXCEPT !.cost = c0, !.hfeas = h0] ELSE t
      b == [a EXCEPT !.d0 = IF FDDPRule(t.k) THEN @ ELSE e0, !.d1 = IF FDDPRule(t.k) THEN @ ELSE e1, !.sv = sv, !.recalc = KKT(t.k), !.pc = "try", !.ai = 1, !.took = FALSE]
      need == RDiv(RAdd(e0, RMul(Half, e1)), RMul(RSub("1", b.k.rho), b.hfeas))
  IN IF Intro(t.k) /\ ~REq(b.hfeas, "0") /\ t.iter # 0 THEN [b EXCEPT !.ups = RMax(b.ups, need)] ELSE b

\* end of an iteration: convergence, then budget
EndIter(t) ==
  LET u == IF ~Intro(t.k) THEN t
           ELSE LET a == IF RLt(t.k.sdec, t.alpha) /\ RLe("0", t.dV) THEN Dec(t) ELSE t IN
                IF RLe(a.alpha, a.k.sinc) \/ RLe(RAbs(a.d1), a.k.thFeas)
                THEN (IF AtMax(a) THEN Ret(a, FALSE) ELSE Inc(a)) ELSE a
  IN IF u.pc = "ret" THEN u
     ELSE IF (IF Intro(u.k) THEN u.feas ELSE u.was) /\ RLt(u.stop, u.k.thStop) THEN Ret(u, TRUE)
     ELSE LET v == [u EXCEPT !.iter = @ + 1, !.pc = "dir"] IN IF v.iter = v.max THEN Ret(v, FALSE) ELSE v
\* end of the line search
EndLine(t) ==
  LET a == IF Intro(t.k) \/ KKT(t.k) THEN t ELSE IF RLt(t.k.sdec, t.alpha) THEN Dec(t) ELSE t
      raise == ~Intro(t.k) /\ ~KKT(t.k) /\ RLe(t.alpha, t.k.sinc)
      b == IF raise THEN Inc(a) ELSE a
      c == [b EXCEPT !.stop = b.sv, !.pc = "cb", !.cb = 1]
  IN IF raise /\ AtMax(b) THEN Ret(b, FALSE) ELSE IF t.k.ncb = 0 THEN EndIter(c) ELSE c
Callback(t) == IF t.cb = t.k.ncb THEN EndIter(t) ELSE [t EXCEPT !.cb = @ + 1]

\* the rule a trial must satisfy (t already carries the values of the trial)
Takes(t) ==
  LET k == t.k small == RLt(RAbs(t.d0), k.thGrad) enough == RLt(RMul(k.thA, t.dVexp), t.dV) IN
  CASE DDPRule(k) -> RLe("0", t.dVexp) /\ (small \/ ~t.feas \/ enough)
    [] FDDPRule(k) -> IF RLe("0", t.dVexp) THEN small \/ enough ELSE ~t.feas /\ RLt(RMul(k.thNeg, t.dVexp), t.dV)
    [] Intro(k) -> IF RLe("0", t.dPhiexp) THEN small \/ RLt(RMul(k.thA, t.dPhiexp), t.dPhi)
                   ELSE RLt(RMul(k.thNeg, t.dVexp), t.dV)
    [] KKT(k) -> RLt(t.d0, k.thGrad) \/ ~t.feas \/ enough
FullStep(t) == REq(t.alpha, "1")
\* the trial becomes the current trajectory
Take(t, costtry, htry) ==
  [t EXCEPT !.was = t.feas, !.feas = IF DDPRule(t.k) \/ KKT(t.k) THEN TRUE ELSE t.feas \/ FullStep(t),
            !.exact = IF KKT(t.k) THEN t.exact ELSE IF DDPRule(t.k) THEN TRUE ELSE t.feas \/ FullStep(t),
            !.cost = costtry, !.cur = t.next, !.recalc = TRUE, !.took = TRUE,
            !.hfeas = IF Intro(t.k) THEN htry ELSE @, !.merit = IF Intro(t.k) THEN RAdd(costtry, RMul(t.ups, htry)) ELSE @]
NextTrial(t) == IF t.ai = Len(t.k.alphas) THEN EndLine(t) ELSE [t EXCEPT !.ai = @ + 1]
Step(t) == [t EXCEPT !.alpha = t.k.alphas[t.ai], !.next = t.next + 1]
TryFail(t) == NextTrial(Step(t))
\* a trial with cost change dv; (e0, e1) the predicted change at this trial, htry its constraint violation
Trial(t, dv, e0, e1, htry) ==
  LET a == [t EXCEPT !.alpha = t.k.alphas[t.ai], !.dV = dv]
      b == IF FDDPRule(t.k) \/ Intro(t.k) THEN [a EXCEPT !.d0 = e0, !.d1 = e1] ELSE a
      df == RSub(t.hfeas, htry)
      ex == RMul(b.alpha, RAdd(b.d0, RMul(RMul(Half, b.alpha), b.d1)))
      c == [b EXCEPT !.dVexp = ex]
  IN IF Intro(t.k) THEN [c EXCEPT !.dfeas = df, !.dPhi = RAdd(dv, RMul(t.ups, df)), !.dPhiexp = RAdd(ex, RMul(b.alpha, RMul(t.ups, df)))] ELSE c
TryOk(t, dv, e0, e1, htry) ==
  LET c == Trial(t, dv, e0, e1, htry) IN
  IF Takes(c) THEN EndLine([Take(c, RSub(t.cost, dv), htry) EXCEPT !.next = t.next + 1])
  ELSE NextTrial([c EXCEPT !.next = t.next + 1])

----------------------------------------------------------------------------
\* Properties
InRange(k, r) == RLe(k.rmin, r) /\ RLe(r, k.rmax)
\* the reported feasibility is true
FeasHonest == s.feas => s.exact \/ KKT(s.k)
\* regularization in range (for a solve that started in range)
RegRange == s.pc # "idle" /\ ~KKT(s.k) => InRange(s.k, s.preg) /\ s.preg = s.dreg
\* success is reported only for a feasible trajectory and a small stopping value
SuccessSound == s.pc = "ret" /\ s.ret => s.feas /\ RLt(s.stop, s.k.thStop)
BudgetKept == s.iter <= s.max
\* the trajectory, its cost and its status change only by taking a trial that satisfies the rule
OnlyByTaking == [][s.pc = "try" /\ ~s'.took => UNCHANGED <<s.cur, s.cost, s.feas, s.was>>]_s
=============================================================================
