--------------------------- MODULE SolverNumTrace ---------------------------
EXTENDS SolverNum, TLC, Json, IOUtils
VARIABLES s, l
Trace == ndJsonDeserialize(IOEnv.TRACE)
P == IOEnv.PROP
Claims(p) == P = p \/ P = "ALL"
R == Trace[l]
Is(op) == l <= Len(Trace) /\ R.op = op
None == [op |-> "none"]
TraceInit == s = [k |-> None, xs |-> <<>>, us |-> <<>>, dir |-> None, try |-> None, exp |-> None, ups |-> "0"] /\ l = 1
K == s.k
N0(t) == s.dir.n[t]
T(r) == Len(r.us)
Box == K.kind \in {"boxddp", "boxfddp"}
Contracts == K.kind \in {"fddp", "boxfddp", "intro"}
Numeric(r) == \A t \in 1..Len(r.n) : Finite(r.n[t].l)
Ck(name, c) == IF c THEN TRUE ELSE PrintT(<<"CK", name>>) /\ FALSE
Adv == l' = l + 1
TSolver == Is("solver") /\ s' = [s EXCEPT !.k = R, !.dir = None, !.try = None, !.exp = None, !.ups = "0"] /\ Adv
TSolve == Is("solve") /\ s' = [s EXCEPT !.xs = R.xs, !.us = R.us, !.dir = None, !.try = None, !.exp = None, !.ups = "0"] /\ Adv

\* ---- the search direction
SameTraj(r) == r.xs = s.xs /\ r.us = s.us
Reports(r) == /\ Ck("cost", VClose(<<r.cost>>, <<Cost(r.n)>>, Tol))
              /\ Ck("feasible flag", r.feas => Follows(r.xs, r.n, K.x0) \/ (K.kind = "kkt" /\ "STRICT" \notin DOMAIN IOEnv))
Measures(r) == LET g == Gaps(r.xs, r.n, K.x0, K.ndx) IN
  /\ \A t \in 1..Len(g) : Ck("gap", VClose(r.fs[t], g[t], Tol))
  /\ Ck("ff", RClose(r.ff, Norm(g, K.norm), Tol))
  /\ Ck("gf", RClose(r.gf, Norm([t \in 1..Len(r.n) |-> Excesses(r.n[t])], K.norm), Tol))
  /\ Ck("hf", RClose(r.hf, Norm([t \in 1..Len(r.n) |-> r.n[t].h], K.norm), Tol))
HasEq(r, t) == K.kind = "intro" /\ Len(r.n[t].h) > 0
Limited(r, t) == Box /\ r.feas /\ r.n[t].lim
NodeEq(r, t) ==
  LET nd == r.n[t] vx == r.Vx[t + 1] vxx == r.Vxx[t + 1]
      qx == QxOf(nd, vx) qxx == QxxOf(nd, vxx) sc == RAdd(MatMax(vxx), VNormInf(vx))
  IN /\ (Claims("C10") => NearV(r.Qx[t], qx, sc) /\ Near(r.Qxx[t], qxx, sc))
     /\ IF nd.nu = 0
        THEN Claims("C10") => /\ Near(r.Vxx[t], Reg(Sym(qxx), r.preg), sc)
                              /\ NearV(r.Vx[t], Gap(qx, Reg(Sym(qxx), r.preg), r.fs[t], r.feas), sc)
        ELSE LET qu == QuOf(nd, vx) quu == QuuOf(nd, vxx, r.preg) qxu == QxuOf(nd, vxx)
                 K0 == r.K[t] k0 == r.k[t]
                 s2 == RAdd(sc, RMul(RAdd("1", RMul(MatMax(quu), RAdd(MatMax(K0), VNormInf(k0)))), RAdd("1", MatMax(K0))))
                 lim == Limited(r, t)
             IN /\ (Claims("C10") => /\ Near(r.Quu[t], quu, sc) /\ Near(r.Qxu[t], qxu, sc)
                                     /\ \A i \in 1..nd.nu : (REq(r.Qu[t][i], "0") /\ lim) \/ NearV(<<r.Qu[t][i]>>, <<qu[i]>>, sc))
                /\ (HasEq(r, t) => (Claims("C24") => Ck("equality gains", EqGains(quu, qu, qxu, nd, K0, k0))))
                /\ (~lim /\ ~HasEq(r, t) =>
                      /\ (Claims("C10") \/ (Claims("C12") /\ Box) \/ (Claims("C24") /\ K.kind = "intro") => Ck("gains", Gains(quu, qu, qxu, K0, k0)))
                      /\ (Claims("C10") => Ck("positive definite", PDVerdict(quu) # "fail")))
                /\ (lim /\ Claims("C12") /\ RLe(MatMax(quu), "1000000000") => Ck("box gains", BoxOk(quu, qu, qxu, Rel(nd.lb, r.us[t]), Rel(nd.ub, r.us[t]), K0, k0)))
                /\ (Claims("C10") =>
                      LET xx == VxxMin(qxx, qxu, quu, K0, r.preg)
                          x == IF lim THEN VSub(qx, MV(MT(K0), qu)) ELSE VxMin(qx, qu, qxu, quu, K0, k0)
                      IN /\ Ck("Vxx", Near(r.Vxx[t], xx, s2)) /\ Ck("Vx", NearV(r.Vx[t], Gap(x, xx, r.fs[t], r.feas), RMul(s2, RAdd("1", VNormInf(r.fs[t])))))
                         /\ MEq(r.Vxx[t], MT(r.Vxx[t])))
TermEq(r) == LET nd == r.n[Len(r.n)] xx == Reg(nd.Lxx, r.preg) IN
  Claims("C10") => MClose(r.Vxx[Len(r.n)], xx, Tol) /\ VClose(r.Vx[Len(r.n)], Gap(nd.Lx, xx, r.fs[Len(r.n)], r.feas), Tol)
FailExplained(r) == \/ ~(Claims("C10") \/ Claims("C24"))
                    \/ \* with control limits the gains depend on the program solved: from the recorded nodes behind the failing one
                       (\E t \in 1..T(r) : Limited(r, t)) /\ \E t \in 1..T(r) : r.n[t].nu > 0 /\ PDVerdict(QuuOf(r.n[t], r.Vxx[t + 1], r.preg)) # "pd" /\ \A j \in (t + 1)..T(r) : NodeEq(r, j)
                    \/ (\A t \in 1..T(r) : ~Limited(r, t)) /\ Verdict(r.n, Gaps(r.xs, r.n, K.x0, K.ndx), r.feas, r.preg, IF K.kind = "intro" THEN K.eq ELSE "none") \in {"fail", "near"}
FiniteV(v) == \A i \in 1..Len(v) : Finite(v[i])
\* (a singular system of a problem that is not convex has no solution)
KktFinite(r) == \A t \in 1..Len(r.n) : FiniteV(r.dx[t]) /\ FiniteV(r.lam[t]) /\ (t <= T(r) => FiniteV(r.du[t]))
KktEq(r) == \A t \in 1..Len(r.n) :
  LET nd == r.n[t] tt == T(r)
      H == IF t <= tt THEN VAdd(MV(nd.Lxx, r.dx[t]), MV(nd.Lxu, r.du[t])) ELSE MV(nd.Lxx, r.dx[t])
      sc == RMul(RAdd(MatMax(nd.Lxx), "1"), RAdd(VNormInf(r.dx[t]), RAdd(VNormInf(r.lam[t]), IF t <= tt THEN RAdd(VNormInf(r.lam[t + 1]), VNormInf(r.du[t])) ELSE "0")))
  IN /\ NearV(VAdd(VAdd(H, nd.Lx), IF t <= tt THEN VSub(r.lam[t], MV(MT(nd.Fx), r.lam[t + 1])) ELSE r.lam[t]), VZero(K.ndx), sc)
     /\ (t <= tt => NearV(VSub(VAdd(VAdd(MV(MT(nd.Lxu), r.dx[t]), MV(nd.Luu, r.du[t])), nd.Lu), MV(MT(nd.Fu), r.lam[t + 1])), VZero(nd.nu), sc))
     /\ (t <= tt => NearV(VSub(VSub(r.dx[t + 1], MV(nd.Fx, r.dx[t])), MV(nd.Fu, r.du[t])), Diff(r.xs[t + 1], nd.xn, K.ndx), sc))
     /\ (t = 1 => VClose(r.dx[1], Diff(r.xs[1], K.x0, K.ndx), Tol))
DirOk == \/ ~Numeric(R)
         \/ /\ (Claims("C08") => Reports(R) /\ (K.kind # "kkt" => Measures(R)))
            /\ IF K.kind = "kkt" THEN (R.ok /\ Claims("C11") /\ (K.lq \/ KktFinite(R)) => Ck("kkt", KktFinite(R) /\ KktEq(R)))
               ELSE IF R.ok THEN TermEq(R) /\ \A t \in 1..T(R) : NodeEq(R, t)
               ELSE Ck("failure", FailExplained(R))
TDir == Is("dir") /\ SameTraj(R) /\ DirOk = TRUE /\ s' = [s EXCEPT !.dir = R, !.try = None, !.exp = None] /\ Adv

\* ---- a trial
TrialNode(r, t) ==
  LET n == Len(r.n) IN
  IF K.kind = "kkt" THEN /\ VClose(r.xt[t], Plus(r.xs[t], VScale(r.a, s.dir.dx[t])), Tol)
                         /\ (t < n => VClose(r.ut[t], VAdd(r.us[t], VScale(r.a, s.dir.du[t])), Tol))
  ELSE /\ (Claims("C09") => Ck("trial state", VClose(r.xt[t], Start(t, r.a, Contracts /\ ~r.feas /\ ~REq(r.a, "1"), r.xt, r.n, K.x0, s.dir.fs), Tol)))
       /\ (t < n /\ N0(t).nu > 0 /\ Claims("C09") =>
             LET u == Control(r.us[t], r.a, s.dir.k[t], s.dir.K[t], Diff(r.xs[t], r.xt[t], K.ndx)) IN
             Ck("trial control", NearV(r.ut[t], IF Box THEN Clamp(u, N0(t)) ELSE u, RMul(RAdd("1", MatMax(s.dir.K[t])), VNormInf(r.xt[t])))))
       /\ (t < n /\ N0(t).nu > 0 /\ Box /\ N0(t).lim /\ Claims("C12") => \A i \in 1..N0(t).nu : RLe(N0(t).lb[i], r.ut[t][i]) /\ RLe(r.ut[t][i], N0(t).ub[i]))
Bad(r, t) == ~Finite(r.n[t].l) \/ (t < Len(r.n) /\ \E i \in 1..Len(r.n[t].xn) : ~Finite(r.n[t].xn[i]))
TrialOk ==
  \/ ~Numeric(s.dir)
  \/ LET r == R IN
     IF r.ok THEN /\ (Claims("C09") /\ K.kind # "kkt" => \A t \in 1..Len(r.n) : ~Bad(r, t))
                  /\ \/ ~Numeric(r)
                     \/ /\ \A t \in 1..Len(r.n) : TrialNode(r, t)
                        /\ (Claims("C09") \/ Claims("C08") => RClose(r.ct, Cost(r.n), Tol) /\ NearV(<<r.dV>>, <<RSub(r.cost, r.ct)>>, RAdd(RAbs(r.cost), RAbs(r.ct))))
                        /\ (K.kind = "intro" /\ Claims("C24") => RClose(r.ht, Norm([t \in 1..Len(r.n) |-> r.n[t].h], K.norm), Tol))
                        /\ (Claims("C11") /\ K.lq /\ REq(r.a, "1") /\ REq(s.dir.preg, "0") => Ck("optimal", Optimal(r.xt, r.n, K.x0, K.ndx)))
                        /\ (Claims("C11") /\ K.lq /\ REq(r.a, "1") /\ REq(s.dir.preg, "0") /\ r.feas /\ s.exp # None =>
                              NearV(<<r.dV>>, <<RAdd(s.exp.d0, RMul("1/2", s.exp.d1))>>, RAdd(RAbs(r.cost), RAbs(r.ct))))
     ELSE /\ \E t \in 1..Len(r.n) : Bad(r, t)
          /\ LET b == CHOOSE t \in 1..Len(r.n) : Bad(r, t) /\ \A j \in 1..(t - 1) : ~Bad(r, j) IN \A t \in 1..b : TrialNode(r, t)
TTry == Is("try") /\ SameTraj(R) /\ Ck("trial", TrialOk) = TRUE /\ s' = [s EXCEPT !.try = R] /\ Adv

\* ---- the predicted change
KktD(r) == [d0 |-> RNeg(SumN([t \in 1..Len(r.n) |-> RAdd(VDot(r.n[t].Lx, r.dx[t]), IF t < Len(r.n) THEN VDot(r.n[t].Lu, r.du[t]) ELSE "0")], Len(r.n))),
            d1 |-> RNeg(SumN([t \in 1..Len(r.n) |-> IF t = Len(r.n) THEN VDot(r.dx[t], MV(r.n[t].Lxx, r.dx[t]))
                      ELSE RAdd(RAdd(VDot(r.dx[t], MV(r.n[t].Lxx, r.dx[t])), VDot(r.du[t], MV(r.n[t].Luu, r.du[t]))),
                                RMul("2", VDot(r.dx[t], MV(r.n[t].Lxu, r.du[t]))))], Len(r.n)))]
ExpOk ==
  \/ ~Numeric(s.dir)
  \/ /\ LET dd == s.dir IN
        Claims("C10") =>
          IF K.kind = "kkt" THEN LET e == KktD(dd) IN NearV(<<R.d0, R.d1>>, <<e.d0, e.d1>>, RAdd(RAbs(e.d0), RAbs(e.d1)))
          ELSE LET a == D0Ddp(dd, dd.n) b == D1Ddp(dd, dd.n) IN
               IF ~Contracts \/ dd.feas THEN NearV(<<R.d0, R.d1>>, <<a, b>>, RAdd(RAbs(a), RAbs(b)))
               ELSE IF s.try = None THEN TRUE
               ELSE LET g == GapG(dd, dd.fs) q == GapQ(dd, dd.fs) v == GapV(dd, dd.fs, dd.xs, s.try.xt, K.ndx)
                        sc == RAdd(RAdd(RAbs(a), RAbs(b)), RAdd(RAdd(RAbs(g), RAbs(q)), RAbs(v)))
                    IN NearV(<<R.d0, R.d1>>, <<RAdd(RSub(a, g), v), RSub(RAdd(b, q), RMul("2", v))>>, sc)
     /\ (Claims("C11") /\ K.lq /\ s.try # None /\ Numeric(s.try) /\ REq(s.try.a, "1") /\ REq(s.dir.preg, "0") /\ s.dir.feas =>
           NearV(<<s.try.dV>>, <<RAdd(R.d0, RMul("1/2", R.d1))>>, RAdd(RAbs(s.try.cost), RAbs(s.try.ct))))
TExp == Is("exp") /\ Ck("exp", ExpOk) = TRUE /\ s' = [s EXCEPT !.exp = R] /\ Adv

\* ---- end of an iteration: the trajectory is still the current one or the last trial
Took(r) == s.try # None /\ r.xs = s.try.xt /\ r.us = s.try.ut
ItOk(r) == /\ (SameTraj(r) \/ Took(r))
           /\ (Claims("C08") => ~Numeric(r) \/ Reports(r))
           /\ (Claims("C12") /\ Box /\ Took(r) /\ ~SameTraj(r) =>
                 \A t \in 1..T(r) : N0(t).lim => \A i \in 1..N0(t).nu : RLe(N0(t).lb[i], r.us[t][i]) /\ RLe(r.us[t][i], N0(t).ub[i]))
IntroOk(r) == K.kind = "intro" /\ Claims("C24") /\ Numeric(r) /\ Numeric(s.dir) =>
   /\ RClose(r.hf, Norm([t \in 1..Len(r.n) |-> r.n[t].h], K.norm), Tol)
   /\ RLe(s.ups, r.ups)
   /\ (Took(r) /\ ~SameTraj(r) => /\ RClose(r.merit, RAdd(r.cost, RMul(r.ups, r.hf)), Tol)
                                  /\ (RLt("1/1000000", r.dPhiexp) /\ RLt("1/1000000000", RAbs(r.d0)) => RLt(RMul(K.thA, r.dPhiexp), r.dPhi)
                                         /\ NearV(<<r.dPhi>>, <<RSub(RAdd(s.dir.cost, RMul(r.ups, s.dir.hf)), r.merit)>>, RAdd(RAbs(s.dir.cost), RAdd(RAbs(r.cost), RAbs(r.merit))))))
TIt == Is("it") /\ ItOk(R) = TRUE /\ Ck("merit", IntroOk(R)) = TRUE /\ s' = [s EXCEPT !.xs = R.xs, !.us = R.us, !.try = None, !.ups = R.ups] /\ Adv
TRet == Is("ret") /\ ItOk(R) = TRUE /\ s' = [s EXCEPT !.xs = R.xs, !.us = R.us] /\ Adv
\* a run cut off after many calls: nothing to check
TOver == Is("overrun") /\ UNCHANGED s /\ Adv
TraceNext == TSolver \/ TSolve \/ TDir \/ TTry \/ TExp \/ TIt \/ TRet \/ TOver
TraceSpec == TraceInit /\ [][TraceNext]_<<s, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN
                 IF d - 1 = Len(Trace) THEN TRUE
                 ELSE PrintT("BAD line " \o ToString(d) \o ": no action of the specification explains " \o ToJson([x \in DOMAIN Trace[d] \ {"n"} |-> Trace[d][x]])) /\ FALSE
=============================================================================
